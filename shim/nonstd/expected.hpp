// Stand-in for expected-lite: dottorrent includes it but only needs basic use.
#pragma once
#include <variant>
#include <stdexcept>
#include <utility>
namespace nonstd {
template <typename E> class unexpected_type { public: explicit unexpected_type(E e) : e_(std::move(e)) {} const E& value() const { return e_; } private: E e_; };
template <typename E> unexpected_type(E) -> unexpected_type<E>;
template <typename E> auto make_unexpected(E e) { return unexpected_type<E>(std::move(e)); }
template <typename E> using unexpected = unexpected_type<E>;
template <typename E> struct bad_expected_access : std::runtime_error { using std::runtime_error::runtime_error; };
template <typename T, typename E> class expected {
public:
    expected(T t) : v_(std::in_place_index<0>, std::move(t)) {}
    expected(unexpected_type<E> e) : v_(std::in_place_index<1>, e.value()) {}
    bool has_value() const { return v_.index() == 0; }
    explicit operator bool() const { return has_value(); }
    T& value() { if (!has_value()) throw std::runtime_error("bad expected access"); return std::get<0>(v_); }
    const T& value() const { if (!has_value()) throw std::runtime_error("bad expected access"); return std::get<0>(v_); }
    T& operator*() { return std::get<0>(v_); }
    const T& operator*() const { return std::get<0>(v_); }
    T* operator->() { return &std::get<0>(v_); }
    const T* operator->() const { return &std::get<0>(v_); }
    template <typename U> T value_or(U&& u) const { return has_value() ? std::get<0>(v_) : static_cast<T>(std::forward<U>(u)); }
    const E& error() const { return std::get<1>(v_); }
private: std::variant<T, E> v_;
};
}
