// Stand-in for the parts of Abseil's any_invocable.h that support/rs_std/dyn_callable.h uses. The installed Abseil is too old: its
// FunctionToCall has other values than those Crubit relies on.
#pragma once
#include <cstddef>
#include <memory>
#include <type_traits>
#include <utility>
namespace absl {
namespace internal_any_invocable {
enum class FunctionToCall : unsigned char { dispose, relocate_from_to, relocate_from_to_and_query_rust };
union TypeErasedState {
  struct { void* target; std::size_t size; } remote;
  alignas(std::max_align_t) char storage[2 * sizeof(void*)];
};
using ManagerType = void(FunctionToCall, TypeErasedState*, TypeErasedState*) noexcept;
inline void EmptyManager(FunctionToCall, TypeErasedState*, TypeErasedState*) noexcept {}
template <class T> T ForwardImpl(std::true_type);
template <class T> T&& ForwardImpl(std::false_type);
template <class T> struct ForwardedParameter { using type = decltype((ForwardImpl<T>)(std::bool_constant<std::is_scalar<T>::value>())); };
template <class T> using ForwardedParameterType = typename ForwardedParameter<T>::type;
}  // namespace internal_any_invocable

template <class Sig> class AnyInvocable;
#define VP_ANY_INVOCABLE(qual)                                                                                     \
  template <class R, class... P>                                                                                   \
  class AnyInvocable<R(P...) qual> {                                                                               \
    using State = internal_any_invocable::TypeErasedState;                                                         \
    using Invoker = R(State*, internal_any_invocable::ForwardedParameterType<P>...);                               \
                                                                                                                   \
   public:                                                                                                         \
    AnyInvocable(State* state, internal_any_invocable::ManagerType* m, Invoker* i) : manager_(m), invoker_(i) {    \
      manager_(internal_any_invocable::FunctionToCall::relocate_from_to, state, &state_);                          \
    }                                                                                                              \
    AnyInvocable(AnyInvocable&& o) noexcept : manager_(o.manager_), invoker_(o.invoker_) {                         \
      manager_(internal_any_invocable::FunctionToCall::relocate_from_to, &o.state_, &state_);                      \
      o.manager_ = internal_any_invocable::EmptyManager;                                                           \
      o.invoker_ = nullptr;                                                                                        \
    }                                                                                                              \
    ~AnyInvocable() { manager_(internal_any_invocable::FunctionToCall::dispose, &state_, &state_); }               \
    explicit operator bool() const { return invoker_ != nullptr; }                                                 \
    R operator()(P... args) qual {                                                                                 \
      auto* i = invoker_;                                                                                          \
      if constexpr (std::is_rvalue_reference_v<int qual>) manager_ = internal_any_invocable::EmptyManager;         \
      return i(const_cast<State*>(&state_), std::forward<internal_any_invocable::ForwardedParameterType<P>>(args)...); \
    }                                                                                                              \
                                                                                                                   \
   private:                                                                                                        \
    mutable State state_;                                                                                          \
    mutable internal_any_invocable::ManagerType* manager_;                                                         \
    Invoker* invoker_;                                                                                             \
  };
VP_ANY_INVOCABLE(const)
VP_ANY_INVOCABLE()
VP_ANY_INVOCABLE(&&)
#undef VP_ANY_INVOCABLE
}  // namespace absl
