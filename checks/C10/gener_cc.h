#pragma once
#include <cstdint>
namespace gen {
template <class T> struct Opt { bool has; T value; };
template <class A, class B> struct Pair { A first; B second; };
template <class A, class B> struct Flip { B b; A a; };  // the parameters in the other order
struct Status { bool ok; };
struct IntBool { std::int32_t first; bool second; };
struct Box8 { bool has; std::uint8_t value; };
}
