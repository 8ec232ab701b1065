#ifndef VP_C33_BRI_H_
#define VP_C33_BRI_H_
#include <cstdint>
#include <optional>
#include <utility>

#include "support/annotations.h"
#include "support/bridge.h"

#pragma clang lifetime_elision

// ---- bridged class templates and classes of the user
template <typename T>
struct CRUBIT_BRIDGE("Vec3", "Vec3Abi", "Vec3Abi") Vec3 {
  T x;
  T y;
  T z;
};

template <typename Abi>
  requires(crubit::is_crubit_abi<Abi> && std::is_copy_constructible_v<Abi>)
struct Vec3Abi {
  using Value = Vec3<typename Abi::Value>;
  static constexpr size_t kSize = Abi::kSize * 3;
  void Encode(Value value, crubit::Encoder& encoder) && {
    Abi(abi).Encode(std::move(value.x), encoder);
    Abi(abi).Encode(std::move(value.y), encoder);
    std::move(abi).Encode(std::move(value.z), encoder);
  }
  Value Decode(crubit::Decoder& decoder) && {
    return {
        .x = Abi(abi).Decode(decoder),
        .y = Abi(abi).Decode(decoder),
        .z = std::move(abi).Decode(decoder),
    };
  }
  Abi abi;
};

// Either an A or a B, as a tag byte followed by room for both.
template <typename A, typename B>
struct CRUBIT_BRIDGE("Either", "EitherAbi", "EitherAbi") Either {
  bool left;
  A a;
  B b;
};

template <typename AbiA, typename AbiB>
  requires(crubit::is_crubit_abi<AbiA> && crubit::is_crubit_abi<AbiB>)
struct EitherAbi {
  EitherAbi(AbiA a, AbiB b) : a(a), b(b) {}
  using Value = Either<typename AbiA::Value, typename AbiB::Value>;
  static constexpr size_t kSize = 1 + AbiA::kSize + AbiB::kSize;
  void Encode(Value value, crubit::Encoder& encoder) && {
    crubit::TransmuteAbi<bool>().Encode(value.left, encoder);
    if (value.left) {
      std::move(a).Encode(std::move(value.a), encoder);
    } else {
      std::move(b).Encode(std::move(value.b), encoder);
    }
  }
  Value Decode(crubit::Decoder& decoder) && {
    Value v{};
    v.left = crubit::TransmuteAbi<bool>().Decode(decoder);
    if (v.left) {
      v.a = std::move(a).Decode(decoder);
    } else {
      v.b = std::move(b).Decode(decoder);
    }
    return v;
  }
  AbiA a;
  AbiB b;
};

// Two representations of an angle: quarter turns in C++, degrees in Rust.
struct CRUBIT_BRIDGE("Degrees", "DegreesAbi", "AngleAbi") Angle {
  std::uint8_t quarter_turns;
};

struct AngleAbi {
  using Value = Angle;
  static constexpr size_t kSize = 1;
  void Encode(Value value, crubit::Encoder& encoder) && {
    crubit::TransmuteAbi<std::uint8_t>().Encode(value.quarter_turns, encoder);
  }
  Value Decode(crubit::Decoder& decoder) && {
    return Angle{crubit::TransmuteAbi<std::uint8_t>().Decode(decoder)};
  }
};

// ---- element types
struct Plain {
  std::uint8_t a;
  std::int32_t b;
};

enum class Color : std::uint8_t { kRed, kGreen = 7, kBlue };

// Owns a heap cell; trivially relocatable.
struct [[clang::trivial_abi]] Own {
  explicit Own(std::uint32_t v);
  Own(Own&& o);
  Own(const Own& o);
  Own& operator=(Own&& o);
  Own& operator=(const Own& o);
  ~Own();
  std::uint32_t get() const;

 private:
  std::uintptr_t p_;
};

// ---- std::optional
std::optional<std::uint8_t> opt_u8(std::optional<std::uint8_t> x);
std::optional<std::int16_t> opt_i16(std::optional<std::int16_t> x);
std::optional<std::uint32_t> opt_u32(std::optional<std::uint32_t> x);
std::optional<std::int64_t> opt_i64(std::optional<std::int64_t> x);
std::optional<bool> opt_bool(std::optional<bool> x);
std::optional<float> opt_f32(std::optional<float> x);
std::optional<double> opt_f64(std::optional<double> x);
std::optional<Color> opt_color(std::optional<Color> x);
std::optional<Plain> opt_plain(std::optional<Plain> x);
std::optional<std::optional<std::uint16_t>> opt_opt(std::optional<std::optional<std::uint16_t>> x);
std::optional<Own> opt_own(std::optional<Own> x);
std::uint32_t opt_own_take(std::optional<Own> x);
std::optional<Own> opt_own_make(bool some, std::uint32_t v);

// ---- std::pair
std::pair<std::uint64_t, std::uint8_t> pair_swap(std::pair<std::uint8_t, std::uint64_t> x);
std::pair<bool, std::int16_t> pair_bi(std::pair<bool, std::int16_t> x);
std::pair<Plain, Color> pair_pc(std::pair<Plain, Color> x);
std::pair<std::pair<std::uint8_t, std::uint32_t>, std::uint16_t> pair_nest(
    std::pair<std::uint8_t, std::pair<std::uint32_t, std::uint16_t>> x);
std::pair<std::optional<std::uint16_t>, std::optional<std::pair<std::uint8_t, std::uint64_t>>> pair_opt(
    std::pair<std::optional<std::pair<std::uint8_t, std::uint64_t>>, std::optional<std::uint16_t>> x);
std::pair<Own, std::uint8_t> pair_own(std::pair<std::uint8_t, Own> x);
std::pair<Own, Own> pair_owns(std::pair<Own, Own> x);
std::pair<std::optional<Own>, std::optional<Own>> pair_opt_own(std::pair<std::optional<Own>, std::optional<Own>> x);

// ---- user bridges
Vec3<std::uint16_t> vec3_rot(Vec3<std::uint16_t> v);
std::optional<Vec3<std::uint32_t>> vec3_opt(std::optional<Vec3<std::uint32_t>> v, std::uint32_t k);
Vec3<Plain> vec3_plain(Plain x, Plain y, Plain z);
Vec3<std::optional<std::uint8_t>> vec3_opts(Vec3<std::optional<std::uint8_t>> v);
Vec3<Vec3<std::uint8_t>> vec3_nest(Vec3<Vec3<std::uint8_t>> v);
Vec3<Own> vec3_own(Vec3<Own> v);
Either<std::uint8_t, std::uint64_t> either_map(Either<std::uint64_t, std::uint8_t> e);
Either<std::pair<bool, std::uint32_t>, Vec3<std::uint8_t>> either_mix(Either<Vec3<std::uint8_t>, std::pair<bool, std::uint32_t>> e);
Angle angle_add(Angle a, Angle b);
std::optional<Angle> angle_opt(std::optional<Angle> a);
std::pair<Angle, std::uint32_t> angle_pair(std::pair<std::uint32_t, Angle> a);

// ---- several parameters, plain ones between them; members, statics, constructors
std::uint64_t many(std::uint8_t a, std::optional<std::uint16_t> b, std::uint32_t c, std::pair<std::uint8_t, bool> d,
                   Vec3<std::uint8_t> e, std::uint64_t f);

class Box {
 public:
  Box(std::optional<std::uint32_t> v);
  std::optional<std::uint32_t> get() const;
  std::optional<std::uint32_t> replace(std::optional<std::uint32_t> v);
  static std::pair<std::uint8_t, std::uint32_t> make(std::pair<std::uint32_t, std::uint8_t> x);
  std::pair<std::optional<std::uint32_t>, bool> both(std::pair<bool, std::optional<std::uint32_t>> o) const;

 private:
  bool has_;
  std::uint32_t v_;
};
#endif
