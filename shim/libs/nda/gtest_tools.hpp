#pragma once
#include <gtest/gtest.h>
#include "./nda.hpp"
#define MAKE_MAIN                                                                                                                                    \
  int main(int argc, char **argv) {                                                                                                                  \
    mpi::environment env(argc, argv);                                                                                                                \
    ::testing::InitGoogleTest(&argc, argv);                                                                                                          \
    return RUN_ALL_TESTS();                                                                                                                          \
  }
#define EXPECT_CLOSE(X, Y) EXPECT_TRUE(std::abs((X) - (Y)) < 1.e-6) << (X) << " vs " << (Y)
#define EXPECT_COMPLEX_NEAR(X, Y, ...) EXPECT_TRUE(nda::detail_gt::cnear(X, Y, ##__VA_ARGS__)) << (X) << " vs " << (Y)
#define EXPECT_COMPLEX_EQ(X, Y) EXPECT_TRUE(std::abs((X) - (Y)) < 1.e-13) << (X) << " vs " << (Y)
#define EXPECT_ARRAY_EQ(X, Y) EXPECT_TRUE(nda::detail_gt::aeq(X, Y))
#define EXPECT_EQ_ARRAY(X, Y) EXPECT_TRUE(nda::detail_gt::aeq(X, Y))
#define EXPECT_ARRAY_NEAR(X, Y, ...) EXPECT_TRUE(nda::detail_gt::anear(X, Y, ##__VA_ARGS__))
#define EXPECT_ARRAY_ZERO(X) EXPECT_TRUE(nda::detail_gt::azero(X))
#define EXPECT_PRINT(X, Y) do { std::stringstream ss; ss << Y; EXPECT_EQ(X, ss.str()); } while (0)
namespace nda {
  namespace detail_gt {
    template <typename X, typename Y> bool cnear(X const &x, Y const &y, double p = 1e-10) { return std::abs(x - y) <= p; }
    template <typename X, typename Y> bool aeq(X const &x, Y const &y) { return nda::make_regular(x) == nda::make_regular(y); }
    template <typename X, typename Y> bool anear(X const &x0, Y const &y0, double p = 1e-10) {
      auto x = nda::make_regular(x0); auto y = nda::make_regular(y0);
      if (x.shape() != y.shape()) { std::cerr << "shapes " << x.shape() << y.shape() << "\n"; return false; }
      double m = 0;
      nda::for_each(x.shape(), [&](auto... i) { double d = std::abs(x(i...) - y(i...)); if (!(d <= m)) m = d; });
      if (!(m <= p)) std::cerr << "max difference " << m << "\n";
      return m <= p;
    }
    template <typename X> bool azero(X const &x0) {
      auto x = nda::make_regular(x0); double m = 0;
      nda::for_each(x.shape(), [&](auto... i) { double d = std::abs(x(i...)); if (!(d <= m)) m = d; });
      return m < 1e-10;
    }
  } // namespace detail_gt
} // namespace nda
