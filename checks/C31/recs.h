// Records of many layouts; accessors on the C++ side let a harness compare what both sides see.
#ifndef VP_RECS_H_
#define VP_RECS_H_
#pragma clang lifetime_elision
#include <cstdint>

using W = std::uint64_t;
enum class Col : std::uint16_t { kR, kG = 300, kB = 65535 };
struct In { std::uint16_t a; std::uint8_t b; };

// padding everywhere
struct Pad { std::uint8_t a; std::uint32_t b; std::uint16_t c; std::uint64_t d; std::uint8_t e; };
// every kind of field
struct Kinds { bool f; Col col; In in; float fl; double db; int* p; const Pad* q; std::int8_t s; In in2; signed char sc; char ch; unsigned long long ull; };
// bit-fields between ordinary fields
struct Bits { std::uint8_t a; unsigned x : 3; unsigned y : 13; std::uint16_t b; int z : 5; std::uint8_t c; std::uint64_t w : 40; std::uint32_t d; };
// some fields are private or of unsupported types
class Priv {
 public:
  std::uint8_t a;
 private:
  std::uint32_t b;
  In in;
 public:
  std::uint64_t c;
  W get() const;
  void set(W b, W in);
};
struct Arrays { std::uint8_t a; std::uint16_t v[3]; std::uint8_t b; In m[2]; std::uint32_t c; };
struct alignas(32) Al { std::uint8_t a; std::uint64_t b; };
struct HasAl { std::uint8_t x; Al al; std::uint8_t y; };
union U { std::uint8_t a; std::uint64_t b; std::uint16_t c; float f; In in; };
union UPad { std::uint8_t a; std::uint32_t b; std::uint8_t c[7]; };
struct HasU { std::uint8_t t; U u; std::uint8_t z; };
// inheritance: tail padding of a base that is not POD is reused
struct Base1 { std::uint64_t p; std::uint8_t q; Base1() = default; private: std::uint8_t r; public: std::uint8_t s; };
struct Base2 { std::uint32_t m; };
struct Der : Base1, Base2 { std::uint8_t own; std::uint32_t own2; };
struct Der2 final : Der { std::uint16_t last; };
struct Virt { virtual W v() const; std::uint32_t n; };
struct VDer : Base2, Virt { W v() const override; std::uint16_t k; };
struct E0 {};
struct EmptyBase : E0 { std::uint32_t v; };
struct Nua { [[no_unique_address]] E0 e; std::uint32_t v; [[no_unique_address]] Base1 b; std::uint8_t t; };
struct Keyword { std::uint8_t type; std::uint32_t fn; std::uint16_t self_; std::uint8_t match; };
struct Nest { std::uint8_t a; struct Inner { std::uint16_t x; std::uint8_t y; }; Inner i; Inner* p; };
namespace ns { struct S { std::uint8_t a; std::uint32_t b; }; struct T2 { S s; In in; Col c; }; }

// filled by C++ from the words w; read back by C++ as words
void fill_pad(Pad& p, const W* w);
void read_pad(const Pad& p, W* w);
void fill_kinds(Kinds& p, const W* w);
void read_kinds(const Kinds& p, W* w);
void fill_bits(Bits& p, const W* w);
void read_bits(const Bits& p, W* w);
void fill_priv(Priv& p, const W* w);
void fill_arrays(Arrays& p, const W* w);
void read_arrays(const Arrays& p, W* w);
void fill_hasal(HasAl& p, const W* w);
void read_hasal(const HasAl& p, W* w);
void fill_hasu(HasU& p, const W* w);
void read_hasu(const HasU& p, W* w);
void fill_upad(UPad& p, const W* w);
void fill_der(Der& p, const W* w);
void read_der(const Der& p, W* w);
void fill_der2(Der2& p, const W* w);
void read_der2(const Der2& p, W* w);
W addr_base1(const Base1& b);
W addr_base2(const Base2& b);
W addr_virt(const Virt& b);
W read_base2(const Base2& b);
W read_virt(const Virt& b);
void fill_vder(VDer& p, const W* w);
void read_vder(const VDer& p, W* w);
void fill_eb(EmptyBase& p, const W* w);
void fill_nua(Nua& p, const W* w);
void read_nua(const Nua& p, W* w);
void fill_kw(Keyword& p, const W* w);
void read_kw(const Keyword& p, W* w);
void fill_nest(Nest& p, const W* w);
void read_nest(const Nest& p, W* w);
void fill_ns(ns::T2& p, const W* w);
void read_ns(const ns::T2& p, W* w);
// what C++ knows about each record: 0 size, 1 alignment, then the offset of every public field
W layout(int rec, int what);
#endif
