#pragma once
#include <array>
#include <ostream>
#include <sstream>
#include <type_traits>
#include <utility>
#include <vector>
#include <string>
#include <initializer_list>

namespace std {
  template <typename T, size_t R> ostream &operator<<(ostream &o, array<T, R> const &a) {
    o << "(";
    for (size_t i = 0; i < R; ++i) o << (i ? " " : "") << a[i];
    return o << ")";
  }
  template <typename T, size_t R> string to_string(array<T, R> const &a) {
    ostringstream o;
    o << a;
    return o.str();
  }
  template <typename T, size_t R> constexpr array<T, R> operator+(array<T, R> const &l, array<T, R> const &r) {
    array<T, R> x{};
    for (size_t i = 0; i < R; ++i) x[i] = l[i] + r[i];
    return x;
  }
  template <typename T, size_t R> constexpr array<T, R> operator-(array<T, R> const &l, array<T, R> const &r) {
    array<T, R> x{};
    for (size_t i = 0; i < R; ++i) x[i] = l[i] - r[i];
    return x;
  }
  template <typename T, size_t R> constexpr array<T, R> operator*(array<T, R> const &l, array<T, R> const &r) {
    array<T, R> x{};
    for (size_t i = 0; i < R; ++i) x[i] = l[i] * r[i];
    return x;
  }
  template <typename T, size_t R> constexpr array<T, R> operator-(array<T, R> const &l) {
    array<T, R> x{};
    for (size_t i = 0; i < R; ++i) x[i] = -l[i];
    return x;
  }
  template <typename T, size_t R> constexpr array<T, R> operator*(T s, array<T, R> const &r) {
    array<T, R> x{};
    for (size_t i = 0; i < R; ++i) x[i] = s * r[i];
    return x;
  }
} // namespace std

namespace nda::stdutil {
  template <size_t R, typename T> constexpr std::array<T, R> make_initialized_array(T v) {
    std::array<T, R> a{};
    for (auto &x : a) x = v;
    return a;
  }
  template <typename T, typename U, size_t R> constexpr std::array<T, R> make_std_array(std::array<U, R> const &a) {
    std::array<T, R> r{};
    for (size_t i = 0; i < R; ++i) r[i] = a[i];
    return r;
  }
  template <typename T, size_t R> constexpr std::array<T, R + 1> append(std::array<T, R> const &a, T x) {
    std::array<T, R + 1> r{};
    for (size_t i = 0; i < R; ++i) r[i] = a[i];
    r[R] = x;
    return r;
  }
  template <typename T, typename U, size_t R> constexpr std::array<T, R + 1> front_append(std::array<T, R> const &a, U x) {
    std::array<T, R + 1> r{};
    r[0] = x;
    for (size_t i = 0; i < R; ++i) r[i + 1] = a[i];
    return r;
  }
  template <int N, typename T, size_t R> constexpr std::array<T, R - N> mpop(std::array<T, R> const &a) {
    std::array<T, R - N> r{};
    for (size_t i = 0; i < R - N; ++i) r[i] = a[i];
    return r;
  }
  template <typename T, size_t R> constexpr auto pop(std::array<T, R> const &a) { return mpop<1>(a); }
  template <int N, typename T, size_t R> constexpr std::array<T, R - N> front_mpop(std::array<T, R> const &a) {
    std::array<T, R - N> r{};
    for (size_t i = N; i < R; ++i) r[i - N] = a[i];
    return r;
  }
  template <typename T, size_t R> constexpr auto front_pop(std::array<T, R> const &a) { return front_mpop<1>(a); }
  template <typename T, size_t R1, size_t R2> constexpr std::array<T, R1 + R2> join(std::array<T, R1> const &a, std::array<T, R2> const &b) {
    std::array<T, R1 + R2> r{};
    for (size_t i = 0; i < R1; ++i) r[i] = a[i];
    for (size_t i = 0; i < R2; ++i) r[R1 + i] = b[i];
    return r;
  }
  template <typename T, size_t R> constexpr auto sum(std::array<T, R> const &a) {
    T r = T(0);
    for (auto const &x : a) r += x;
    return r;
  }
  template <typename T, size_t R> constexpr auto product(std::array<T, R> const &a) {
    T r = T(1);
    for (auto const &x : a) r *= x;
    return r;
  }
  template <typename T, size_t R> constexpr auto dot_product(std::array<T, R> const &a, std::array<T, R> const &b) {
    T r = T(0);
    for (size_t i = 0; i < R; ++i) r += a[i] * b[i];
    return r;
  }
} // namespace nda::stdutil
