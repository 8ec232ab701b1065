#pragma once
#include <stdint.h>
#include <stddef.h>
#include <utility>
#include "support/bridge.h"
extern "C" { uint32_t* lay_own_new(uint32_t v); void lay_own_del(uint32_t* p); }
namespace lay {
struct Val { uint64_t z; };
struct Str {
  uint32_t* p;
  explicit Str(uint32_t v) : p(lay_own_new(v)) {}
  Str(const Str&) = delete;
  Str(Str&& o) : p(o.p) { o.p = nullptr; }
  Str& operator=(Str&& o) { std::swap(p, o.p); return *this; }
  ~Str() { if (p) lay_own_del(p); }
};
struct Thing { uint32_t v; };
struct Own {
  uint32_t* p;
  explicit Own(uint32_t v) : p(lay_own_new(v)) {}
  Own(const Own&) = delete;
  Own(Own&& o) : p(o.p) { o.p = nullptr; }
  Own& operator=(Own&& o) { if (this != &o) { if (p) lay_own_del(p); p = o.p; o.p = nullptr; } return *this; }
  ~Own() { if (p) lay_own_del(p); }
};
template <class A> struct Two { A a, b; uint8_t k; };
template <class Abi> struct TwoAbi {
  using Value = Two<typename Abi::Value>;
  static constexpr size_t kSize = Abi::kSize * 2 + 1;
  void Encode(Value v, crubit::Encoder& e) && { Abi(abi).Encode(std::move(v.a), e); crubit::TransmuteAbi<uint8_t>().Encode(v.k, e); Abi(abi).Encode(std::move(v.b), e); }
  Value Decode(crubit::Decoder& d) && { auto a = Abi(abi).Decode(d); auto k = crubit::TransmuteAbi<uint8_t>().Decode(d); auto b = Abi(abi).Decode(d); return Value{std::move(a), std::move(b), k}; }
  Abi abi;
};
}  // namespace lay
