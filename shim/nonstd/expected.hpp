// Stand-in for martinmoene/expected-lite (not installed in this sandbox); the repository only
// includes the header.
#pragma once
#include <exception>
#include <memory>
#include <utility>
#include <variant>
namespace nonstd {
template <class E> class unexpected_type {
public:
    explicit unexpected_type(E e) : e_(std::move(e)) {}
    const E& value() const { return e_; }
    const E& error() const { return e_; }
private: E e_;
};
template <class E> using unexpected = unexpected_type<E>;
template <class E> auto make_unexpected(E&& e) { return unexpected_type<std::decay_t<E>>(std::forward<E>(e)); }
template <class E> struct bad_expected_access : std::exception {
    explicit bad_expected_access(E e) : e_(std::move(e)) {}
    const char* what() const noexcept override { return "bad_expected_access"; }
    const E& error() const { return e_; }
private: E e_;
};
template <class T, class E> class expected {
public:
    using value_type = T; using error_type = E;
    expected() : v_(T{}) {}
    expected(T t) : v_(std::in_place_index<0>, std::move(t)) {}
    template <class G> expected(unexpected_type<G> u) : v_(std::in_place_index<1>, u.value()) {}
    bool has_value() const { return v_.index() == 0; }
    explicit operator bool() const { return has_value(); }
    const T& value() const& { if (!has_value()) throw bad_expected_access<E>(error()); return std::get<0>(v_); }
    T& value() & { if (!has_value()) throw bad_expected_access<E>(error()); return std::get<0>(v_); }
    const T& operator*() const { return std::get<0>(v_); }
    T& operator*() { return std::get<0>(v_); }
    const T* operator->() const { return &std::get<0>(v_); }
    T* operator->() { return &std::get<0>(v_); }
    const E& error() const { return std::get<1>(v_); }
    template <class U> T value_or(U&& u) const { return has_value() ? **this : static_cast<T>(std::forward<U>(u)); }
private:
    std::variant<T, E> v_;
};
} // namespace nonstd
