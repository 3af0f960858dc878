// Stand-in for the function2 library (an empty submodule here): a move-only
// callable wrapper with the behaviour arpc relies on. Calling an empty wrapper
// throws std::bad_function_call.
#ifndef VERIF_FUNCTION2_HPP_
#define VERIF_FUNCTION2_HPP_
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
namespace fu2 {
template <typename S>
class unique_function;
template <typename R, typename... A>
class unique_function<R(A...)> {
  struct base {
    virtual ~base() {}
    virtual R call(A... a) = 0;
  };
  template <typename F>
  struct impl : base {
    F f;
    template <typename G>
    explicit impl(G&& g) : f(std::forward<G>(g)) {}
    R call(A... a) override {
      if constexpr (std::is_void_v<R>) f(std::forward<A>(a)...);
      else return f(std::forward<A>(a)...);
    }
  };
  std::unique_ptr<base> p_;

 public:
  unique_function() noexcept {}
  unique_function(std::nullptr_t) noexcept {}
  unique_function(unique_function&&) noexcept = default;
  unique_function& operator=(unique_function&&) noexcept = default;
  template <typename F, typename D = std::decay_t<F>, typename = std::enable_if_t<!std::is_same_v<D, unique_function> && std::is_invocable_v<D&, A...>>>
  unique_function(F&& f) : p_(new impl<D>(std::forward<F>(f))) {}
  explicit operator bool() const noexcept { return static_cast<bool>(p_); }
  R operator()(A... a) {
    if (!p_) throw std::bad_function_call();
    return p_->call(std::forward<A>(a)...);
  }
};
}  // namespace fu2
#endif
