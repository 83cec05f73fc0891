// U03: legendre helpers, modified spherical Bessel function, numeric predicates, real_or_complex
#include <vmon.hpp>
#include <algorithm>
#include <cassert>
#include <triqs/utility/legendre.hpp>
#include <triqs/utility/numeric_ops.hpp>
#include <triqs/utility/is_complex.hpp>
#include <triqs/utility/real_or_complex.hpp>
using vmon::kase;
using cd = std::complex<double>;
using ld = long double;
namespace tu = triqs::utility;
static const ld PI = 3.14159265358979323846264338327950288L;

// P_l(x) from the explicit sum over binomials in (x-1)/2 is unstable; use the recurrence in long double, checked below at +-1 and 0
static std::vector<ld> legendre_ref(ld x, int lmax) {
  std::vector<ld> p(lmax + 1);
  p[0] = 1;
  if (lmax > 0) p[1] = x;
  for (int l = 2; l <= lmax; ++l) p[l] = ((2 * l - 1) * x * p[l - 1] - (l - 1) * p[l - 2]) / l;
  return p;
}
struct quad {
  std::vector<ld> x, w;
  explicit quad(int n) : x(n), w(n) { // Gauss-Legendre nodes by Newton
    for (int i = 0; i < n; ++i) {
      ld z = cosl(PI * (i + 0.75L) / (n + 0.5L)), dp = 0;
      for (int it = 0; it < 100; ++it) {
        auto p = legendre_ref(z, n);
        dp     = n * (z * p[n] - p[n - 1]) / (z * z - 1);
        ld dz  = p[n] / dp;
        z -= dz;
        if (fabsl(dz) < 1e-19L) break;
      }
      x[i] = z;
      w[i] = 2 / ((1 - z * z) * dp * dp);
    }
  }
};
static void generator(kase &c) {
  tu::legendre_generator g;
  int resets = int(c.i(1, 6));
  for (int k = 0; k < resets; ++k) {
    double x = c.chance(0.1) ? c.pick(std::vector<double>{-1, 1, 0, 1e-300, -0.0}) : c.r(-1, 1);
    int lmax = int(c.chance(0.15) ? c.i(0, 2) : c.i(0, 500));
    c.trace("reset(%a), %d orders", x, lmax);
    g.reset(x);
    auto g2  = g; // a copy continues alike
    auto ref = legendre_ref(x, lmax);
    for (int l = 0; l <= lmax; ++l) {
      double v = g.next(), v2 = g2.next();
      vmon::count("legendre_values");
      c.check(std::abs(v - double(ref[l])) <= 1e-15 * (8 + 2. * l), "P_%d(%.17g) = %.17g instead of %.17g", l, x, v, double(ref[l]));
      c.check(v == v2, "the copy of a generator differs at order %d", l);
      if (std::abs(x) == 1) c.check(v == (x < 0 && l % 2 ? -1 : 1), "P_%d(%g) is %g", l, x, v);
    }
  }
  c.nontrivial(c.u64());
}
static void transform_T(kase &c) {
  static quad q(420); // exact for the products below to long double rounding
  int n    = int(c.chance(0.4) ? c.i(-3, 3) : c.i(-100, 100));
  int lmax = int(c.chance(0.3) ? c.i(0, 3) : c.i(0, 150));
  bool boson = c.chance(0.4);
  ld nn      = boson ? ld(n) : n + 0.5L; // frequency times beta / 2 pi
  c.trace("n %d lmax %d %s", n, lmax, boson ? "boson" : "fermion");
  // definition: T_nl = sqrt(2l+1)/2 int_-1^1 dx exp(i w_n beta (x+1)/2) P_l(x)
  std::vector<std::complex<ld>> ref(lmax + 1, 0);
  for (size_t k = 0; k < q.x.size(); ++k) {
    ld ph = PI * nn * (q.x[k] + 1);
    std::complex<ld> e{cosl(ph), sinl(ph)};
    auto p = legendre_ref(q.x[k], lmax);
    for (int l = 0; l <= lmax; ++l) ref[l] += q.w[k] * p[l] * e;
  }
  for (int l = 0; l <= lmax; ++l) {
    auto v = boson ? tu::legendre_T(n, l, true) : tu::legendre_T(n, l);
    std::complex<ld> r = ref[l] * (sqrtl(2 * l + 1) / 2);
    vmon::count("T_nl_values");
    c.check(std::abs(std::complex<ld>(v) - r) < 3e-13L, "T(%d,%d) = %.16g%+.16gi instead of %.16g%+.16gi", n, l, v.real(), v.imag(), double(r.real()), double(r.imag()));
    // relative accuracy also where it is exponentially small: series of j_l
    ld z = std::abs(nn) * PI;
    if (z * z / 2 < l && z > 0) {
      ld term = 1, sum = 0;
      for (int k = 1; k <= l; ++k) term *= z / (2 * k + 1);
      for (int k = 1; k < 400 && term != 0; ++k) { sum += term; term *= -z * z / 2 / k / (2 * l + 2 * k + 1); }
      ld mag = sqrtl(2 * l + 1) * fabsl(sum);
      if (mag > 1e-290L) c.check(fabsl(std::abs(std::complex<ld>(v)) - mag) < 1e-10L * mag, "|T(%d,%d)| = %.16g instead of %.16g", n, l, std::abs(v), double(mag));
    }
    int m = boson ? -n : -n - 1;
    c.check(std::abs(tu::legendre_T(m, l, boson) - std::conj(v)) < 1e-13, "T(%d,%d) is not the conjugate of T(%d,%d)", m, l, n, l);
  }
  c.nontrivial(n * 1000 + lmax);
}
static void transform_t(kase &c) {
  int l = int(c.chance(0.4) ? c.i(0, 12) : c.i(0, 300)), p = int(c.chance(0.5) ? c.i(1, 4) : c.i(1, std::min(30, l + 4)));
  c.trace("l %d p %d", l, p);
  double v = tu::legendre_t(l, p);
  if ((l + p) % 2 == 0 || p > l + 1) { c.check(v == 0, "t(%d,%d) = %g instead of 0", l, p, v); }
  else {
    ld lg = lgammal(l + p) - lgammal(p) - lgammal(l - p + 2);
    ld r  = (p % 2 ? -1 : 1) * 2 * sqrtl(2 * l + 1) * expl(lg);
    c.check(fabsl(v - r) <= 1e-11L * fabsl(r), "t(%d,%d) = %.16g instead of %.16g", l, p, v, double(r));
    if (p == 1) c.check(std::abs(v + 2 * std::sqrt(2. * l + 1)) < 1e-12 * l + 1e-14, "t(%d,1) = %.16g", l, v); // -(1+(-1)^l) sqrt(2l+1)
  }
  vmon::count("t_lp_values");
  c.nontrivial(l * 1000 + p);
}
static void bessel(kase &c) {
  int n    = int(c.chance(0.4) ? c.i(0, 4) : c.i(0, 120));
  double x = c.chance(0.1) ? 0 : (c.chance(0.5) ? c.r(0, 3) : (c.chance(0.5) ? c.r(0, 600) : std::exp(c.r(-40, 2))));
  c.trace("i_%d(%a)", n, x);
  double v = tu::mod_cyl_bessel_i(n, x);
  if (x == 0) { c.check(v == (n == 0 ? 1 : 0), "i_%d(0) = %g", n, v); }
  else {
    // i_n(x) = x^n/(2n+1)!! sum_k (x^2/2)^k / (k! (2n+3)...(2n+2k+1)), all terms positive
    ld lx = logl(x), lpre = n * lx, term = 1, sum = 0;
    for (int k = 1; k <= n; ++k) lpre -= logl(2 * k + 1);
    ld shift = 0;
    for (int k = 1; k < 6000; ++k) {
      sum += term;
      term *= ld(x) * x / 2 / k / (2 * n + 2 * k + 1);
      if (term < sum * 1e-22L) break;
    }
    (void)shift;
    ld r = expl(lpre + logl(sum));
    if (r > 1e-290L && r < 1e300L) c.check(fabsl(v - r) <= 1e-11L * r, "i_%d(%.17g) = %.16g instead of %.16g", n, x, v, double(r));
  }
  vmon::count("bessel_values");
  c.nontrivial(uint64_t(n) * 7919 + uint64_t(x * 1e6));
}
template <typename T> void float_preds(kase &c, const char *nm) {
  T eps = std::numeric_limits<T>::epsilon(), tol = 100 * eps;
  T x = T(c.chance(0.5) ? c.r(-3, 3) * tol : (c.chance(0.3) ? c.r(-2, 2) : std::exp(c.r(-60, 40)) * (c.chance(0.5) ? -1 : 1)));
  if (c.chance(0.1)) x = c.pick(std::vector<T>{0, -T(0), tol, -tol, std::nextafter(tol, T(0)), -std::nextafter(tol, T(0)), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::denorm_min()});
  T y = T(c.r(-3, 3) * tol);
  c.trace("%s %a %a", nm, double(x), double(y));
  c.check(tu::is_zero(x) == (x < tol && -x < tol), "is_zero(%g) of %s", double(x), nm);
  T t2 = T(std::exp(c.r(-30, 3)));
  c.check(tu::is_zero(x, t2) == (x < t2 && -x < t2), "is_zero(%g, %g) of %s", double(x), double(t2), nm);
  c.check(tu::conj(x) == x && tu::real(x) == x && tu::imag(x) == 0, "conj/real/imag of the %s %g", nm, double(x));
  for (auto z : {std::complex<T>(x, y), std::complex<T>(y, x), std::complex<T>(x, 0), std::complex<T>(0, x)}) {
    c.check(tu::is_zero(z) == (z.real() < tol && -z.real() < tol && z.imag() < tol && -z.imag() < tol), "is_zero(%g,%g) of complex %s", double(z.real()), double(z.imag()), nm);
    c.check(tu::is_zero(z, t2) == (z.real() < t2 && -z.real() < t2 && z.imag() < t2 && -z.imag() < t2), "is_zero with tolerance of complex %s", nm);
    c.check(tu::conj(z).real() == z.real() && tu::conj(z).imag() == -z.imag() && tu::real(z) == z.real() && tu::imag(z) == z.imag(), "conj/real/imag of complex %s", nm);
  }
}
template <typename T> void int_preds(kase &c, const char *nm) {
  T x = T(c.chance(0.3) ? 0 : c.u64());
  if (c.chance(0.1)) x = c.pick(std::vector<T>{1, std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(-1)});
  c.trace("%s %ld", nm, long(x));
  c.check(tu::is_zero(x) == (x == 0), "is_zero(%ld) of %s", long(x), nm);
  c.check(tu::conj(x) == x && tu::real(x) == x && tu::imag(x) == 0, "conj/real/imag of the %s %ld", nm, long(x));
}
static void predicates(kase &c) {
  static_assert(!triqs::is_complex<double>::value && !triqs::is_complex<int>::value && triqs::is_complex<cd>::value && triqs::is_complex<std::complex<float>>::value);
  static_assert(std::is_same_v<decltype(tu::conj(1.f)), float> && std::is_same_v<decltype(tu::imag(1l)), long>);
  float_preds<double>(c, "double"); float_preds<float>(c, "float"); float_preds<long double>(c, "long double");
  int_preds<int>(c, "int"); int_preds<long>(c, "long"); int_preds<unsigned>(c, "unsigned"); int_preds<unsigned long>(c, "unsigned long"); int_preds<short>(c, "short"); int_preds<signed char>(c, "signed char");
  vmon::count("predicate_values", 9);
  c.nontrivial(c.u64());
}
// real_or_complex against (value, is it real)
static void roc(kase &c) {
  struct m { cd v; bool re; };
  std::vector<tu::real_or_complex> a;
  std::vector<m> b;
  auto val = [&] { return c.chance(0.1) ? double(c.i(-2, 2)) : c.r(-3, 3); };
  for (int k = 0; k < 4; ++k) {
    if (c.chance(0.5)) { double x = val(); a.emplace_back(x); b.push_back({x, true}); }
    else { cd z{val(), val()}; a.emplace_back(z); b.push_back({z, false}); }
  }
  auto same = [&](tu::real_or_complex const &x, m const &y, const char *what) {
    vmon::count("real_or_complex_results");
    c.check(x.is_real() == y.re, "%s: is_real is %d", what, x.is_real());
    double s = 1e-13 * (1 + std::abs(y.v));
    if (!std::isfinite(y.v.real()) || !std::isfinite(y.v.imag())) return;
    c.check(std::abs(cd(x) - y.v) <= s, "%s: (%.16g,%.16g) instead of (%.16g,%.16g)", what, cd(x).real(), cd(x).imag(), y.v.real(), y.v.imag());
    c.check(std::abs(real(x) - y.v.real()) <= s && std::abs(imag(x) - y.v.imag()) <= s && std::abs(abs(x) - std::abs(y.v)) <= s, "%s: real, imag or abs", what);
    c.check(std::abs(cd(conj(x)) - std::conj(y.v)) <= s && conj(x).is_real() == y.re, "%s: conj", what);
    c.check(cd(-x) == -cd(x) && (-x).is_real() == y.re, "%s: minus", what);
    if (y.re) c.check(double(x) == real(x), "%s: conversion to double", what);
    else c.throws([&] { (void)double(x); }, "double(complex number)");
    std::stringstream ss, rs;
    ss << x;
    if (y.re) rs << real(x); else rs << '(' << cd(x).real() << (std::signbit(cd(x).imag()) ? "" : "+") << cd(x).imag() << "j)";
    c.check(ss.str() == rs.str(), "%s: printed as %s instead of %s", what, ss.str().c_str(), rs.str().c_str());
    double tol = 100 * std::numeric_limits<double>::epsilon();
    c.check(is_zero(x) == (std::abs(real(x)) < tol && std::abs(imag(x)) < tol), "%s: is_zero", what);
    c.check(is_zero(x, 0.5) == (std::abs(real(x)) < 0.5 && std::abs(imag(x)) < 0.5), "%s: is_zero with a tolerance", what);
  };
  auto bin = [&](int op, cd x, cd y) { return op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y; };
  std::string ops = "+-*/";
  for (int s = 0; s < 12; ++s) {
    int i = int(c.i(0, 3)), j = int(c.i(0, 3)), op = int(c.i(0, 3)), kind = int(c.i(0, 7));
    double y = val();
    cd z{val(), val()};
    cd rhs = kind == 0 || kind == 3 ? b[j].v : (kind == 1 || kind == 4 || kind == 6 ? cd(y) : z);
    cd lhs = b[i].v;
    if (kind >= 6) std::swap(lhs, rhs);
    if (op == 3 && std::abs(rhs) < 1e-3) continue;
    c.trace("x%d %c kind %d x%d y %g z %g %g", i, ops[op], kind, j, y, z.real(), z.imag());
#define DO(L, R) (op == 0 ? (L) + (R) : op == 1 ? (L) - (R) : op == 2 ? (L) * (R) : (L) / (R))
#define DOI(L, R) switch (op) { case 0: (L) += (R); break; case 1: (L) -= (R); break; case 2: (L) *= (R); break; default: (L) /= (R); }
    m r{bin(op, lhs, rhs), b[i].re};
    tu::real_or_complex res;
    switch (kind) {
      case 0: r.re = b[i].re && b[j].re; res = DO(a[i], a[j]); break;
      case 1: res = DO(a[i], y); break;
      case 2: r.re = false; res = DO(a[i], z); break;
      case 3: r.re = b[i].re && b[j].re; DOI(a[i], a[j]); res = a[i]; b[i] = r; break; // may alias
      case 4: DOI(a[i], y); res = a[i]; b[i] = r; break;
      case 5: r.re = false; DOI(a[i], z); res = a[i]; b[i] = r; break;
      case 6: res = DO(y, a[i]); break;
      case 7: r.re = false; res = DO(z, a[i]); break;
    }
    same(res, r, "binary operation");
    same(a[i], b[i], "operand");
    if (std::abs(b[i].v) > 1e6 || std::abs(b[i].v) < 1e-6) { a[i] = tu::real_or_complex(y); b[i] = {y, true}; }
    b[i].v = cd(a[i]); // no accumulation of rounding
    c.check((a[i] == a[j]) == (cd(a[i]) == cd(a[j])) && (a[i] != a[j]) == (cd(a[i]) != cd(a[j])), "comparison");
  }
  c.check(tu::real_or_complex().is_real() && is_zero(tu::real_or_complex()), "default value");
  c.nontrivial(c.u64());
}
void run() {
  vmon::group("legendre_generator", 150, 3000, generator);
  vmon::group("legendre_T", 40, 600, transform_T);
  vmon::group("legendre_t", 1500, 30000, transform_t);
  vmon::group("mod_spherical_bessel", 2500, 60000, bessel);
  vmon::group("predicates", 3000, 60000, predicates);
  vmon::group("real_or_complex", 1500, 30000, roc);
}
