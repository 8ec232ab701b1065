// Classes whose special members record that they ran.
#ifndef VP_LIFE_H_
#define VP_LIFE_H_
#pragma clang lifetime_elision
#include <cstdint>
using W = std::uint64_t;

// how often each special member of class `who` ran: kinds 1 default, 2 from values, 3 copy, 4 move, 5 copy-assign, 6 move-assign, 7 destroy
W count(int kind, int who);
// objects used at another address than they were constructed at, or destroyed twice
W bad();
// not trivially relocatable: lives pinned
class Pinned {
 public:
  Pinned();
  explicit Pinned(W v);
  Pinned(W a, std::uint8_t b);
  Pinned(const Pinned& o);
  Pinned(Pinned&& o);
  Pinned& operator=(const Pinned& o);
  Pinned& operator=(Pinned&& o);
  ~Pinned();
  W v() const;
  void set(W v);
  W eat() &&;
  W peek() const &&;
  static Pinned make(W v);
  W take(Pinned p) const;
  Pinned plus(W d) const;
 private:
  W* v_;
  Pinned* self_;
};

// trivially relocatable with non-trivial members: an ordinary Rust type with Drop
struct Head { W h; };
class [[clang::trivial_abi]] Reloc {
 public:
  Reloc();
  explicit Reloc(W v);
  Reloc(const Reloc& o);
  Reloc(Reloc&& o);
  Reloc& operator=(const Reloc& o);
  Reloc& operator=(Reloc&& o);
  ~Reloc();
  W v() const;
  static Reloc make(W v);
  W take(Reloc p) const;
  W eat() &&;
  W peek() const &&;
 private:
  W* v_;
};

class MoveOnly {
 public:
  explicit MoveOnly(W v);
  MoveOnly(MoveOnly&& o);
  MoveOnly& operator=(MoveOnly&& o);
  ~MoveOnly();
  W v() const;
 private:
  W* v_;
};
class CopyOnly {
 public:
  explicit CopyOnly(W v);
  CopyOnly(const CopyOnly& o);
  CopyOnly& operator=(const CopyOnly& o);
  ~CopyOnly();
  W v() const;
 private:
  W* v_;
};
class Unmovable {
 public:
  explicit Unmovable(W v);
  Unmovable(const Unmovable&) = delete;
  Unmovable& operator=(const Unmovable&) = delete;
  ~Unmovable();
  W v() const;
 private:
  W* v_;
};
// only the destructor is written
struct Dtor { W v; ~Dtor(); };
struct [[clang::trivial_abi]] RDtor { W v; ~RDtor(); };
// implicit members from the fields
struct Two { Pinned a; std::uint8_t k; Pinned b; };
struct Mix { std::uint16_t k; Reloc r; };
struct DerP : Pinned { W extra; explicit DerP(W v); ~DerP(); };
struct [[clang::trivial_abi]] DerR : Head, Reloc { W extra; explicit DerR(W v); };

// functions that take and return them by value and by reference
Pinned make_pinned(W v);
W use_pinned(Pinned p);
Pinned both(Pinned a, W k, Pinned b);
W ref_pinned(const Pinned& p);
void set_pinned(Pinned& p, W v);
W rv_pinned(Pinned&& p);
Reloc make_reloc(W v);
W use_reloc(Reloc r);
Reloc both_reloc(Reloc a, W k, Reloc b);
inline Reloc pass_reloc(Reloc r) { return r; }
MoveOnly make_mo(W v);
W use_mo(MoveOnly m);
CopyOnly make_co(W v);
W use_co(CopyOnly m);
Unmovable make_um(W v);
Dtor make_dtor(W v);
RDtor make_rdtor(W v);
W use_rdtor(RDtor r);
Two make_two(W a, W b);
W use_two(Two t);
Mix make_mix(W a);
W use_mix(Mix m);
W two_sum(const Two& t);
W mix_sum(const Mix& m);
W derp_sum(const DerP& d);
// built from, assigned from and compared with values that cannot be moved byte by byte, and with values that can
class Holder {
 public:
  explicit Holder(Pinned p);
  Holder(Pinned a, W k, Reloc r);
  explicit Holder(MoveOnly m);
  Holder(const Pinned& a, Pinned&& b);
  ~Holder();
  Holder& operator=(Pinned p);
  Holder& operator=(const Holder&) = delete;
  W v() const;
 private:
  Pinned p_;
  W k_;
};
class [[clang::trivial_abi]] RHolder {
 public:
  RHolder(Pinned p, W k);
  explicit RHolder(Reloc r);
  RHolder(RHolder&& o);
  ~RHolder();
  RHolder& operator=(Reloc r);
  W v() const;
  Reloc take() &&;
 private:
  Reloc r_;
};
#endif
