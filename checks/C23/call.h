#ifndef VP_C23_CALL_H_
#define VP_C23_CALL_H_
#include <cstdint>
#include <optional>
#include <utility>

#include "support/annotations.h"
#include "support/bridge.h"
#include "support/rs_std/dyn_callable.h"

#pragma clang lifetime_elision

struct Plain {
  std::uint8_t a;
  std::int32_t b;
};

enum class Color : std::uint8_t { kRed, kGreen = 7 };

// Owns a heap cell; trivially relocatable.
struct [[clang::trivial_abi]] Own {
  explicit Own(std::uint32_t v);
  Own(Own&& o);
  Own& operator=(Own&& o);
  ~Own();
  std::uint32_t get() const;

 private:
  std::uintptr_t p_;
};

// ---- called
std::uint32_t fn_call(rs_std::DynCallable<std::uint32_t(std::uint32_t) const> f, std::uint32_t x);
std::uint64_t fn_twice(rs_std::DynCallable<std::uint32_t(std::uint32_t) const> f, std::uint32_t x, std::uint32_t y);
std::uint64_t mut_twice(rs_std::DynCallable<std::uint32_t(std::uint32_t)> f, std::uint32_t x, std::uint32_t y);
std::uint32_t once_call(rs_std::DynCallable<std::uint32_t(std::uint32_t) &&> f, std::uint32_t x);
void once_void(rs_std::DynCallable<void() &&> f);
bool fn_never(rs_std::DynCallable<std::uint32_t(std::uint32_t) const> f);
bool once_never(rs_std::DynCallable<std::uint32_t(std::uint32_t) &&> f);
std::uint32_t two(rs_std::DynCallable<std::uint32_t(std::uint32_t)> f, std::uint8_t k, rs_std::DynCallable<std::uint32_t(std::uint32_t) &&> g);

// ---- moved about first; how picks the way
std::uint32_t fn_moved(rs_std::DynCallable<std::uint32_t(std::uint32_t) const> f, std::uint8_t how, std::uint32_t x);
std::uint32_t mut_moved(rs_std::DynCallable<std::uint32_t(std::uint32_t)> f, std::uint8_t how, std::uint32_t x);
std::uint32_t once_moved(rs_std::DynCallable<std::uint32_t(std::uint32_t) &&> f, std::uint8_t how, std::uint32_t x);
std::uint64_t fn_swap(rs_std::DynCallable<std::uint32_t(std::uint32_t) const> f, rs_std::DynCallable<std::uint32_t(std::uint32_t) const> g,
                      std::uint8_t how, std::uint32_t x);
std::uint32_t fn_assign(rs_std::DynCallable<std::uint32_t(std::uint32_t) const> f, rs_std::DynCallable<std::uint32_t(std::uint32_t) const> g,
                        std::uint32_t x);
std::uint32_t fn_any(rs_std::DynCallable<std::uint32_t(std::uint32_t) const> f, std::uint32_t x, bool call);
std::uint32_t once_any(rs_std::DynCallable<std::uint32_t(std::uint32_t) &&> f, std::uint32_t x, bool call);

// ---- argument and return types
Plain map_plain(rs_std::DynCallable<Plain(Plain) const> f, Plain x);
Own map_own(rs_std::DynCallable<Own(Own) const> f, std::uint32_t v);
std::optional<std::uint16_t> map_opt(rs_std::DynCallable<std::optional<std::uint16_t>(std::optional<std::uint16_t>) const> f,
                                     std::optional<std::uint16_t> x);
std::pair<std::uint8_t, std::uint64_t> map_pair(
    rs_std::DynCallable<std::pair<std::uint8_t, std::uint64_t>(std::pair<std::uint64_t, std::uint8_t>) const> f,
    std::pair<std::uint64_t, std::uint8_t> x);
Color map_color(rs_std::DynCallable<Color(Color) const> f, Color x);
std::uint64_t map_many(rs_std::DynCallable<std::uint64_t(std::uint8_t, Plain, std::uint16_t, std::optional<std::uint8_t>, bool, std::uint64_t) const> f,
                       std::uint8_t a, Plain b, std::uint16_t c, std::optional<std::uint8_t> d, bool e, std::uint64_t g);
double map_float(rs_std::DynCallable<double(float, double) const> f, float x, double y);

// ---- kept and given back
rs_std::DynCallable<std::uint32_t(std::uint32_t) const> fn_back(rs_std::DynCallable<std::uint32_t(std::uint32_t) const> f);
rs_std::DynCallable<std::uint32_t(std::uint32_t)> mut_back(rs_std::DynCallable<std::uint32_t(std::uint32_t)> f, bool call, std::uint32_t x);
rs_std::DynCallable<std::uint32_t(std::uint32_t) &&> once_back(rs_std::DynCallable<std::uint32_t(std::uint32_t) &&> f);
rs_std::DynCallable<std::uint32_t(std::uint32_t) const> fn_pick(rs_std::DynCallable<std::uint32_t(std::uint32_t) const> f,
                                                                rs_std::DynCallable<std::uint32_t(std::uint32_t) const> g, bool first);
rs_std::DynCallable<std::uint32_t(std::uint32_t) const> fn_empty(bool moved_from, rs_std::DynCallable<std::uint32_t(std::uint32_t) const> f);
rs_std::DynCallable<std::uint32_t(std::uint32_t) &&> once_used(rs_std::DynCallable<std::uint32_t(std::uint32_t) &&> f, std::uint32_t x);
void keep(rs_std::DynCallable<std::uint32_t(std::uint32_t)> f);
std::uint32_t fire(std::uint32_t x);
bool kept();
rs_std::DynCallable<std::uint32_t(std::uint32_t)> give();

// ---- references and pointers
std::uint64_t map_ref(rs_std::DynCallable<std::uint64_t(const Plain&, std::uint32_t&) const> f, Plain x, std::uint32_t y);
std::uint64_t map_rref(rs_std::DynCallable<std::uint32_t(Own&&) const> f, std::uint32_t v);
std::uint64_t map_ptr(rs_std::DynCallable<std::uint32_t(Plain*, const std::uint32_t*)> f, Plain x, std::uint32_t v, bool null);
const Plain* map_pick(rs_std::DynCallable<const Plain&(const Plain&, const Plain&) &&> f, const Plain& p, const Plain& q);
#endif
