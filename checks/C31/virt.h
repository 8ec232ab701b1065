// Virtual bases: the base is found at run time, and sits elsewhere in each most-derived class.
#ifndef VP_VIRT_H_
#define VP_VIRT_H_
#pragma clang lifetime_elision
#include <cstddef>
#include <cstdint>
using W = std::uint64_t;
struct Root { W r; std::uint32_t k; W sum() const { return r + k; } void bump(std::uint32_t d) { k += d; } };
class Left : public virtual Root {
 public:
  explicit Left(W v);
  ~Left();
  W left;
};
class Right : public virtual Root {
 public:
  explicit Right(W v);
  ~Right();
  std::uint8_t right;
};
class Join : public Left, public Right {
 public:
  explicit Join(W v);
  ~Join();
  std::uint16_t join;
  Left& as_left() { return *this; }
};
struct Pad { virtual ~Pad(); W pad[3]; };
namespace far {
class Deep : public Pad, public Join {
 public:
  explicit Deep(W v);
  ~Deep() override;
  W deep;
};
}  // namespace far
// where C++ says the bases are
std::size_t at_left_root(const Left& l);
std::size_t at_right_root(const Right& r);
std::size_t at_join_left(const Join& j);
std::size_t at_join_right(const Join& j);
std::size_t at_join_root(const Join& j);
std::size_t at_deep_join(const far::Deep& d);
std::size_t at_deep_root(const far::Deep& d);
std::size_t at_deep_right(const far::Deep& d);
#endif
