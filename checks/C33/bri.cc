#include "bri.h"

template <typename T>
static std::optional<T> flip(std::optional<T> x, T none, bool keep, T some) {
  if (!x) return none;
  if (!keep) return std::nullopt;
  return some;
}

std::optional<std::uint8_t> opt_u8(std::optional<std::uint8_t> x) {
  return flip<std::uint8_t>(x, 7, x.value_or(0) & 1, x.value_or(0) ^ 0x55);
}
std::optional<std::int16_t> opt_i16(std::optional<std::int16_t> x) {
  return flip<std::int16_t>(x, -7, x.value_or(0) < 0, x.value_or(0) ^ 0x5555);
}
std::optional<std::uint32_t> opt_u32(std::optional<std::uint32_t> x) {
  return flip<std::uint32_t>(x, 77, x.value_or(0) & 1, ~x.value_or(0));
}
std::optional<std::int64_t> opt_i64(std::optional<std::int64_t> x) {
  return flip<std::int64_t>(x, -777, x.value_or(0) < 0, ~x.value_or(0));
}
std::optional<bool> opt_bool(std::optional<bool> x) {
  if (!x) return true;
  if (*x) return false;
  return std::nullopt;
}
std::optional<float> opt_f32(std::optional<float> x) {
  if (!x) return 1.5f;
  if (*x == 0.0f) return std::nullopt;
  return -*x;
}
std::optional<double> opt_f64(std::optional<double> x) {
  if (!x) return 2.5;
  if (*x == 0.0) return std::nullopt;
  return -*x;
}
std::optional<Color> opt_color(std::optional<Color> x) {
  if (!x) return Color::kBlue;
  if (*x == Color::kGreen) return std::nullopt;
  return static_cast<Color>(static_cast<std::uint8_t>(*x) ^ 0x0f);
}
std::optional<Plain> opt_plain(std::optional<Plain> x) {
  if (!x) return Plain{1, -2};
  if (x->a == 9) return std::nullopt;
  return Plain{static_cast<std::uint8_t>(x->b), x->a - 1};
}
std::optional<std::optional<std::uint16_t>> opt_opt(std::optional<std::optional<std::uint16_t>> x) {
  if (!x) return std::optional<std::uint16_t>(5);
  if (!*x) return std::nullopt;
  if (**x == 3) return std::optional<std::uint16_t>();
  return std::optional<std::uint16_t>(**x ^ 0x0ff0);
}
std::optional<Own> opt_own(std::optional<Own> x) {
  if (!x) return Own(11);
  if (x->get() & 1) return std::nullopt;
  return Own(x->get() + 1);
}
std::uint32_t opt_own_take(std::optional<Own> x) { return x ? x->get() : 1; }
std::optional<Own> opt_own_make(bool some, std::uint32_t v) {
  if (some) return Own(v);
  return std::nullopt;
}

std::pair<std::uint64_t, std::uint8_t> pair_swap(std::pair<std::uint8_t, std::uint64_t> x) { return {x.second + 1, x.first + 2}; }
std::pair<bool, std::int16_t> pair_bi(std::pair<bool, std::int16_t> x) { return {!x.first, x.first ? x.second : ~x.second}; }
std::pair<Plain, Color> pair_pc(std::pair<Plain, Color> x) {
  return {Plain{static_cast<std::uint8_t>(x.second), x.first.b ^ 1}, static_cast<Color>(x.first.a)};
}
std::pair<std::pair<std::uint8_t, std::uint32_t>, std::uint16_t> pair_nest(
    std::pair<std::uint8_t, std::pair<std::uint32_t, std::uint16_t>> x) {
  return {{x.first + 1, x.second.first + 2}, x.second.second + 3};
}
std::pair<std::optional<std::uint16_t>, std::optional<std::pair<std::uint8_t, std::uint64_t>>> pair_opt(
    std::pair<std::optional<std::pair<std::uint8_t, std::uint64_t>>, std::optional<std::uint16_t>> x) {
  return {x.second, x.first};
}
std::pair<Own, std::uint8_t> pair_own(std::pair<std::uint8_t, Own> x) { return {Own(x.second.get() + x.first), static_cast<std::uint8_t>(x.first + 1)}; }
std::pair<Own, Own> pair_owns(std::pair<Own, Own> x) { return {std::move(x.second), std::move(x.first)}; }
std::pair<std::optional<Own>, std::optional<Own>> pair_opt_own(std::pair<std::optional<Own>, std::optional<Own>> x) {
  return {std::move(x.second), std::move(x.first)};
}

Vec3<std::uint16_t> vec3_rot(Vec3<std::uint16_t> v) { return {v.y, v.z, v.x}; }
std::optional<Vec3<std::uint32_t>> vec3_opt(std::optional<Vec3<std::uint32_t>> v, std::uint32_t k) {
  if (!v) return Vec3<std::uint32_t>{k, k + 1, k + 2};
  if (v->y == k) return std::nullopt;
  return Vec3<std::uint32_t>{v->z ^ k, v->x, v->y};
}
Vec3<Plain> vec3_plain(Plain x, Plain y, Plain z) { return {z, x, y}; }
Vec3<std::optional<std::uint8_t>> vec3_opts(Vec3<std::optional<std::uint8_t>> v) { return {v.z, v.x, v.y}; }
Vec3<Vec3<std::uint8_t>> vec3_nest(Vec3<Vec3<std::uint8_t>> v) {
  return {{v.x.x, v.y.x, v.z.x}, {v.x.y, v.y.y, v.z.y}, {v.x.z, v.y.z, v.z.z}};
}
Vec3<Own> vec3_own(Vec3<Own> v) { return {std::move(v.z), std::move(v.x), std::move(v.y)}; }
Either<std::uint8_t, std::uint64_t> either_map(Either<std::uint64_t, std::uint8_t> e) {
  if (e.left) return {false, 0, e.a + 1};
  return {true, static_cast<std::uint8_t>(e.b + 2), 0};
}
Either<std::pair<bool, std::uint32_t>, Vec3<std::uint8_t>> either_mix(Either<Vec3<std::uint8_t>, std::pair<bool, std::uint32_t>> e) {
  Either<std::pair<bool, std::uint32_t>, Vec3<std::uint8_t>> r{};
  r.left = !e.left;
  if (e.left) {
    r.b = {e.a.z, e.a.y, e.a.x};
  } else {
    r.a = {!e.b.first, e.b.second + 1};
  }
  return r;
}
Angle angle_add(Angle a, Angle b) { return {static_cast<std::uint8_t>((a.quarter_turns + b.quarter_turns) & 3)}; }
std::optional<Angle> angle_opt(std::optional<Angle> a) {
  if (!a) return Angle{1};
  if (a->quarter_turns == 2) return std::nullopt;
  return Angle{static_cast<std::uint8_t>(a->quarter_turns + 1)};
}
std::pair<Angle, std::uint32_t> angle_pair(std::pair<std::uint32_t, Angle> a) { return {Angle{static_cast<std::uint8_t>(a.second.quarter_turns + 1)}, a.first - 1}; }

std::uint64_t many(std::uint8_t a, std::optional<std::uint16_t> b, std::uint32_t c, std::pair<std::uint8_t, bool> d,
                   Vec3<std::uint8_t> e, std::uint64_t f) {
  std::uint64_t r = a;
  r = (r << 16) | (b ? *b : 0xabcd);
  r = (r << 8) | d.first;
  r = (r << 1) | d.second;
  r = (r << 8) | e.x;
  r = (r << 8) | e.y;
  r = (r << 8) | e.z;
  return r ^ (static_cast<std::uint64_t>(c) << 32) ^ f;
}

Box::Box(std::optional<std::uint32_t> v) : has_(v.has_value()), v_(v.value_or(0)) {}
std::optional<std::uint32_t> Box::get() const {
  if (has_) return v_;
  return std::nullopt;
}
std::optional<std::uint32_t> Box::replace(std::optional<std::uint32_t> v) {
  std::optional<std::uint32_t> r = get();
  has_ = v.has_value();
  v_ = v.value_or(0);
  return r;
}
std::pair<std::uint8_t, std::uint32_t> Box::make(std::pair<std::uint32_t, std::uint8_t> x) { return {x.second + 1, x.first + 2}; }
std::pair<std::optional<std::uint32_t>, bool> Box::both(std::pair<bool, std::optional<std::uint32_t>> o) const {
  if (o.first) return {get(), !o.second};
  return {o.second, !has_};
}
