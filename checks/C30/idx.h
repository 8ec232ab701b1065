// operator[]: both overloads, one, different index types, references as indices, containers that cannot move.
#ifndef VP_IDX_H_
#define VP_IDX_H_
#pragma clang lifetime_elision
#include <cstddef>
#include <cstdint>
using W = std::uint64_t;
struct Pos { std::uint8_t r, c; };
struct Cell { std::uint32_t a; std::uint8_t b; };
class Row {
 public:
  const Cell& operator[](Pos p) const { return c_[p.c & 3]; }
  Cell& operator[](Pos p) { return c_[p.c & 3]; }
 private:
  Cell c_[4];
};
class Grid {
 public:
  const Row& operator[](const Pos& p) const;
  Row& operator[](const Pos& p);
 private:
  Row r_[2];
};
class Pinned {
 public:
  explicit Pinned(W v);
  Pinned(const Pinned&);
  ~Pinned();
  const W& operator[](std::uint8_t i) const { return v_[i & 1]; }
  W& operator[](std::uint8_t i) { return v_[i & 1]; }
 private:
  W v_[2];
  Pinned* self_;
};
// no matching pair
struct Mixed {
  const W& operator[](std::uint32_t i) const { return v[i & 1]; }
  W& operator[](std::int64_t i) { return v[(i & 1) ^ 1]; }
  W v[2];
};
struct OnlyMut {
  W& operator[](std::uint16_t i) { return v[i & 3]; }
  W v[4];
};
struct OnlyConst {
  const W& operator[](std::int8_t i) const { return v[i & 3]; }
  W v[4];
};
struct ByValue {
  Pos operator[](Cell c) const { return Pos{static_cast<std::uint8_t>(c.a), static_cast<std::uint8_t>(c.b + k)}; }
  std::uint8_t k;
};
enum class Side : std::uint8_t { kLeft, kRight };
struct BySide {
  const std::uint16_t& operator[](Side s) const { return s == Side::kLeft ? left : right; }
  std::uint16_t& operator[](Side s) { return s == Side::kLeft ? left : right; }
  std::uint16_t right, left;
};
#endif
