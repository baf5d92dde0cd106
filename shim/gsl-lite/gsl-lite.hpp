// Stand-in for gsl-lite (not installed in this sandbox).  Contract macros behave like gsl-lite's
// default: a violated contract ends the process.
#pragma once
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <memory>
#include <span>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>

namespace gsl_lite {
namespace detail {
[[noreturn]] inline void contract_violation(const char* kind, const char* expr, const char* file, int line) noexcept
{
    std::fprintf(stderr, "FAILFAST %s(%s) at %s:%d\n", kind, expr, file, line);
    std::fflush(stderr);
    std::abort();
}
}
struct fail_fast : std::logic_error { using std::logic_error::logic_error; };
struct narrowing_error : std::exception { const char* what() const noexcept override { return "narrowing_error"; } };

using index = std::ptrdiff_t;
using dim = std::ptrdiff_t;
using diff = std::ptrdiff_t;
using stride = std::ptrdiff_t;

template <class T, std::size_t E = std::dynamic_extent> using span = std::span<T, E>;
using zstring = char*;
using czstring = const char*;
template <class T> using owner = T;

template <class T, class U> constexpr T narrow_cast(U&& u) noexcept { return static_cast<T>(std::forward<U>(u)); }
template <class T, class U> constexpr T narrow(U u)
{
    T t = static_cast<T>(u);
    if (static_cast<U>(t) != u || ((t < T{}) != (u < U{}))) throw narrowing_error();
    return t;
}
template <class T, class U> constexpr T narrow_failfast(U u) { return narrow<T>(u); }

template <class F> class final_action {
public:
    explicit final_action(F f) : f_(std::move(f)) {}
    final_action(final_action&& o) noexcept : f_(std::move(o.f_)), on_(std::exchange(o.on_, false)) {}
    final_action(const final_action&) = delete;
    ~final_action() { if (on_) f_(); }
private:
    F f_; bool on_ = true;
};
template <class F> auto finally(F&& f) { return final_action<std::decay_t<F>>(std::forward<F>(f)); }

template <class P> class not_null {
public:
    constexpr not_null(P p) : p_(std::move(p)) { if (p_ == nullptr) detail::contract_violation("not_null", "p != nullptr", __FILE__, __LINE__); }
    constexpr operator const P&() const { return p_; }
    constexpr const P& get() const { return p_; }
    constexpr decltype(auto) operator*() const { return *p_; }
    constexpr decltype(auto) operator->() const { return std::to_address(p_); }
private:
    P p_;
};
template <class C> constexpr decltype(auto) at(C& c, std::size_t i)
{ if (i >= std::size(c)) detail::contract_violation("at", "index", __FILE__, __LINE__); return c[i]; }
} // namespace gsl_lite

namespace gsl = gsl_lite;

#define GSL_SHIM_CONTRACT(kind, ...) \
    ((__VA_ARGS__) ? static_cast<void>(0) : ::gsl_lite::detail::contract_violation(kind, #__VA_ARGS__, __FILE__, __LINE__))
#define gsl_Expects(...)  GSL_SHIM_CONTRACT("Expects", __VA_ARGS__)
#define gsl_Ensures(...)  GSL_SHIM_CONTRACT("Ensures", __VA_ARGS__)
#define gsl_Assert(...)   GSL_SHIM_CONTRACT("Assert", __VA_ARGS__)
#define gsl_ExpectsDebug(...) GSL_SHIM_CONTRACT("Expects", __VA_ARGS__)
#define gsl_EnsuresDebug(...) GSL_SHIM_CONTRACT("Ensures", __VA_ARGS__)
#define gsl_FailFast()    ::gsl_lite::detail::contract_violation("FailFast", "", __FILE__, __LINE__)
#define Expects(...)      GSL_SHIM_CONTRACT("Expects", __VA_ARGS__)
#define Ensures(...)      GSL_SHIM_CONTRACT("Ensures", __VA_ARGS__)
#define ExpectsAudit(...) GSL_SHIM_CONTRACT("Expects", __VA_ARGS__)
#define EnsuresAudit(...) GSL_SHIM_CONTRACT("Ensures", __VA_ARGS__)
