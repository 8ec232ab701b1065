// Apart from call.cc: Clang 18 passes a class with a trivial_abi member differently once it has seen the
// member's out-of-line move constructor.
#include "call.h"

static std::uintptr_t cell(std::uint32_t v) {
  auto* p = new std::uint32_t(v);
  return reinterpret_cast<std::uintptr_t>(p);
}
static std::uint32_t* ptr(std::uintptr_t p) { return reinterpret_cast<std::uint32_t*>(p); }
[[gnu::noinline]] Own::Own(std::uint32_t v) : p_(cell(v)) {}
[[gnu::noinline]] Own::Own(Own&& o) : p_(o.p_) { o.p_ = 0; }
[[gnu::noinline]] Own& Own::operator=(Own&& o) {
  std::uintptr_t t = p_;
  p_ = o.p_;
  o.p_ = t;
  return *this;
}
[[gnu::noinline]] Own::~Own() { delete ptr(p_); }
[[gnu::noinline]] std::uint32_t Own::get() const { return p_ ? *ptr(p_) : 0xdead; }
