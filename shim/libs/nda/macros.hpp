#pragma once
#include <cstdlib>
#include <cstdio>
#include <iostream>
#include <string>
#define PRINT(X) std::cerr << #X << " = " << X << std::endl
#ifndef FORCEINLINE
#define FORCEINLINE __inline__ __attribute__((always_inline))
#endif
#define AS_STRING(...) AS_STRING2(__VA_ARGS__)
#define AS_STRING2(...) #__VA_ARGS__
namespace nda::detail {
  [[noreturn]] inline void shim_fail(std::string const &what) {
    std::cerr << "SHIM-MONITOR " << what << std::endl;
    std::abort();
  }
} // namespace nda::detail
#ifndef EXPECTS
#define EXPECTS(X)                                                                                                                                   \
  if (!(X)) nda::detail::shim_fail(std::string("precondition ") + #X + " violated at " + __FILE__ + ":" + std::to_string(__LINE__));
#define EXPECTS_WITH_MESSAGE(X, ...)                                                                                                                 \
  if (!(X)) nda::detail::shim_fail(std::string("precondition ") + #X + " violated at " + __FILE__ + ":" + std::to_string(__LINE__));
#define ASSERT(X)                                                                                                                                    \
  if (!(X)) nda::detail::shim_fail(std::string("assertion ") + #X + " violated at " + __FILE__ + ":" + std::to_string(__LINE__));
#define ASSERT_WITH_MESSAGE(X, ...) ASSERT(X)
#define ENSURES(X) ASSERT(X)
#endif
