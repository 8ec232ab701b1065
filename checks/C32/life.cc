#include "life.h"
#include <utility>
namespace {
enum { kP, kR, kM, kC, kU, kD, kX };  // classes
enum { kDef = 1, kVal, kCopy, kMove, kCAs, kMAs, kDtor };
W counts[8][8];
W bad_ = 0;
void note(int k, int who) { counts[who][k]++; }
[[gnu::noinline]] W* cell(W v) { return new W(v); }
[[gnu::noinline]] void drop(W* p) { delete p; }
constexpr W kGone = 0xdead;
W get(const W* p) { return p ? *p : kGone; }
void give(W*& to, W*& from) { drop(to); to = from; from = nullptr; }
}
W count(int kind, int who) { return counts[who][kind]; }
W bad() { return bad_; }

Pinned::Pinned() : v_(cell(11)), self_(this) { note(kDef, kP); }
Pinned::Pinned(W v) : v_(cell(v)), self_(this) { note(kVal, kP); }
Pinned::Pinned(W a, std::uint8_t b) : v_(cell(a ^ b)), self_(this) { note(kVal, kP); }
Pinned::Pinned(const Pinned& o) : v_(o.v_ ? cell(*o.v_) : nullptr), self_(this) { bad_ += o.self_ != &o; note(kCopy, kP); }
Pinned::Pinned(Pinned&& o) : v_(o.v_), self_(this) { bad_ += o.self_ != &o; o.v_ = nullptr; note(kMove, kP); }
Pinned& Pinned::operator=(const Pinned& o) {
  bad_ += o.self_ != &o; bad_ += self_ != this;
  W* n = o.v_ ? cell(*o.v_) : nullptr; drop(v_); v_ = n; note(kCAs, kP); return *this;
}
Pinned& Pinned::operator=(Pinned&& o) { bad_ += o.self_ != &o; bad_ += self_ != this; if (&o != this) give(v_, o.v_); note(kMAs, kP); return *this; }
Pinned::~Pinned() { bad_ += self_ != this; self_ = nullptr; drop(v_); note(kDtor, kP); }
W Pinned::v() const { return self_ == this ? get(v_) : ~W(0); }
void Pinned::set(W v) { drop(v_); v_ = cell(v); }
W Pinned::eat() && { W r = get(v_); drop(v_); v_ = nullptr; return r; }
Pinned Pinned::make(W v) { return Pinned(v); }
W Pinned::take(Pinned p) const { return v() ^ (p.v() << 1); }
Pinned Pinned::plus(W d) const { return Pinned(v() + d); }

Reloc::Reloc() : v_(cell(12)) { note(kDef, kR); }
Reloc::Reloc(W v) : v_(cell(v)) { note(kVal, kR); }
Reloc::Reloc(const Reloc& o) : v_(o.v_ ? cell(*o.v_) : nullptr) { note(kCopy, kR); }
Reloc::Reloc(Reloc&& o) : v_(o.v_) { o.v_ = nullptr; note(kMove, kR); }
Reloc& Reloc::operator=(const Reloc& o) { W* n = o.v_ ? cell(*o.v_) : nullptr; drop(v_); v_ = n; note(kCAs, kR); return *this; }
Reloc& Reloc::operator=(Reloc&& o) { if (&o != this) give(v_, o.v_); note(kMAs, kR); return *this; }
Reloc::~Reloc() { drop(v_); note(kDtor, kR); }
W Reloc::v() const { return get(v_); }
Reloc Reloc::make(W v) { return Reloc(v); }
W Reloc::take(Reloc p) const { return v() ^ (p.v() << 1); }

MoveOnly::MoveOnly(W v) : v_(cell(v)) { note(kVal, kM); }
MoveOnly::MoveOnly(MoveOnly&& o) : v_(o.v_) { o.v_ = nullptr; note(kMove, kM); }
MoveOnly& MoveOnly::operator=(MoveOnly&& o) { if (&o != this) give(v_, o.v_); note(kMAs, kM); return *this; }
MoveOnly::~MoveOnly() { drop(v_); note(kDtor, kM); }
W MoveOnly::v() const { return get(v_); }
CopyOnly::CopyOnly(W v) : v_(cell(v)) { note(kVal, kC); }
CopyOnly::CopyOnly(const CopyOnly& o) : v_(cell(*o.v_)) { note(kCopy, kC); }
CopyOnly& CopyOnly::operator=(const CopyOnly& o) { W* n = cell(*o.v_); drop(v_); v_ = n; note(kCAs, kC); return *this; }
CopyOnly::~CopyOnly() { drop(v_); note(kDtor, kC); }
W CopyOnly::v() const { return get(v_); }
Unmovable::Unmovable(W v) : v_(cell(v)) { note(kVal, kU); }
Unmovable::~Unmovable() { drop(v_); note(kDtor, kU); }
W Unmovable::v() const { return get(v_); }
Dtor::~Dtor() { note(kDtor, kD); }
RDtor::~RDtor() { note(kDtor, kX); }
DerP::DerP(W v) : Pinned(v), extra(v + 1) { note(kVal, kD); }
W Pinned::peek() const && { return v() + 1; }
W Reloc::eat() && { W r = get(v_); drop(v_); v_ = nullptr; return r; }
W Reloc::peek() const && { return v() + 2; }
DerR::DerR(W v) : Head{v}, Reloc(v), extra(v + 1) {}
DerP::~DerP() { note(kDtor, kD); }

Pinned make_pinned(W v) { return Pinned(v); }
W use_pinned(Pinned p) { return p.v(); }
Pinned both(Pinned a, W k, Pinned b) { return Pinned(a.v() ^ (b.v() << 1) ^ (k << 2)); }
W ref_pinned(const Pinned& p) { return p.v(); }
void set_pinned(Pinned& p, W v) { p.set(v); }
W rv_pinned(Pinned&& p) { Pinned q(std::move(p)); return q.v(); }
Reloc make_reloc(W v) { return Reloc(v); }
W use_reloc(Reloc r) { return r.v(); }
Reloc both_reloc(Reloc a, W k, Reloc b) { return Reloc(a.v() ^ (b.v() << 1) ^ (k << 2)); }
MoveOnly make_mo(W v) { return MoveOnly(v); }
W use_mo(MoveOnly m) { return m.v(); }
CopyOnly make_co(W v) { return CopyOnly(v); }
W use_co(CopyOnly m) { return m.v(); }
Unmovable make_um(W v) { return Unmovable(v); }
Dtor make_dtor(W v) { return Dtor{v}; }
RDtor make_rdtor(W v) { return RDtor{v}; }
W use_rdtor(RDtor r) { return r.v; }
Two make_two(W a, W b) { return Two{Pinned(a), 7, Pinned(b)}; }
W use_two(Two t) { return t.a.v() ^ (t.b.v() << 1) ^ t.k; }
Mix make_mix(W a) { return Mix{9, Reloc(a)}; }
W use_mix(Mix m) { return m.r.v() ^ m.k; }
W two_sum(const Two& t) { return t.a.v() ^ (t.b.v() << 1) ^ t.k; }
W mix_sum(const Mix& m) { return m.r.v() ^ m.k; }
W derp_sum(const DerP& d) { return d.v() ^ (d.extra << 1); }
Holder::Holder(Pinned p) : p_(std::move(p)), k_(1) {}
Holder::Holder(Pinned a, W k, Reloc r) : p_(a.v() ^ (r.v() << 1)), k_(k) {}
Holder::Holder(MoveOnly m) : p_(m.v()), k_(3) {}
Holder::Holder(const Pinned& a, Pinned&& b) : p_(std::move(b)), k_(a.v()) {}
Holder::~Holder() {}
Holder& Holder::operator=(Pinned p) { p_ = std::move(p); k_++; return *this; }
W Holder::v() const { return p_.v() ^ (k_ << 3); }
RHolder::RHolder(Pinned p, W k) : r_(p.v() ^ k) {}
RHolder::RHolder(Reloc r) : r_(std::move(r)) {}
RHolder::RHolder(RHolder&& o) : r_(std::move(o.r_)) {}
RHolder::~RHolder() {}
RHolder& RHolder::operator=(Reloc r) { r_ = std::move(r); return *this; }
W RHolder::v() const { return r_.v(); }
Reloc RHolder::take() && { return std::move(r_); }
