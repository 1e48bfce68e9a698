// Stand-in for gsl-lite (not installed in this sandbox): the contract macros only.
// gsl-lite's default is to terminate on a contract violation; here a violation throws
// gsl::fail_fast so that a harness can tell it apart. In a noexcept function or a worker
// thread it terminates the process all the same.
#pragma once
#include <stdexcept>
#include <string>
#include <cstddef>
#include <utility>
namespace gsl {
struct fail_fast : std::logic_error { using std::logic_error::logic_error; };
namespace detail {
[[noreturn]] inline void fail(const char* what, const char* file, int line)
{ throw fail_fast(std::string(file) + ":" + std::to_string(line) + ": " + what); }
}
using index = std::ptrdiff_t;
template <typename T, typename U> constexpr T narrow_cast(U&& u) noexcept { return static_cast<T>(std::forward<U>(u)); }
template <typename T, typename U> constexpr T narrow(U u)
{ T t = static_cast<T>(u); if (static_cast<U>(t) != u) throw fail_fast("narrow"); return t; }
template <typename T> using not_null = T;
template <typename T> using owner = T;
template <typename F> class final_action {
public:
    explicit final_action(F f) : f_(std::move(f)) {}
    final_action(final_action&& o) : f_(std::move(o.f_)), on_(std::exchange(o.on_, false)) {}
    final_action& operator=(final_action&&) = delete;
    ~final_action() { if (on_) f_(); }
    void dismiss() noexcept { on_ = false; }
private:
    F f_; bool on_ = true;
};
template <typename F> final_action<F> finally(F f) { return final_action<F>(std::move(f)); }
}
namespace gsl_lite = gsl;
#define VP_GSL_CHECK(kind, x) (static_cast<bool>(x) ? static_cast<void>(0) : ::gsl::detail::fail(kind "(" #x ")", __FILE__, __LINE__))
#define Expects(x) VP_GSL_CHECK("Expects", x)
#define Ensures(x) VP_GSL_CHECK("Ensures", x)
#define gsl_Expects(x) VP_GSL_CHECK("Expects", x)
#define gsl_Ensures(x) VP_GSL_CHECK("Ensures", x)
#define gsl_Assert(x) VP_GSL_CHECK("Assert", x)
#define gsl_ExpectsDebug(x) VP_GSL_CHECK("Expects", x)
#define gsl_EnsuresDebug(x) VP_GSL_CHECK("Ensures", x)
#define gsl_AssertDebug(x) VP_GSL_CHECK("Assert", x)
#define gsl_CHECK(x) VP_GSL_CHECK("Check", x)
#define gsl_FailFast() ::gsl::detail::fail("FailFast", __FILE__, __LINE__)
#define ExpectsAudit(x) VP_GSL_CHECK("Expects", x)
#define EnsuresAudit(x) VP_GSL_CHECK("Ensures", x)
