// A tiny floating-point type with directed rounding, small enough to enumerate.
#ifndef SOFT_HPP
#define SOFT_HPP
#include "gen.hpp"
#include <boost/numeric/interval/rounding.hpp>
#include <boost/numeric/interval/rounded_arith.hpp>
#include <boost/numeric/interval/rounded_transc.hpp>
#include <mpfr.h>

namespace soft {
enum Mode { NEAR = 0, DOWN = 1, UP = 2, ZERO = 3 };
inline int &mode() { static thread_local int m = NEAR; return m; }
inline uint64_t &switches() { static thread_local uint64_t n = 0; return n; }

// rounds the real number d (exactly given) to P bits, exponents from EMIN (of
// the smallest normal number) to EMAX (of the largest)
template<int P, int EMIN, int EMAX> double rnd_exact(double d, int m) {
  if (d == 0 || std::isnan(d) || std::isinf(d)) return d;
  int e; std::frexp(d, &e); e -= 1; // |d| = 1.f * 2^e
  if (e < EMIN) e = EMIN;
  double q = std::ldexp(1.0, e - (P - 1)), k = d / q, f = std::floor(k); // powers of two: exact
  double v;
  if (f == k) v = f;
  else switch (m) {
    case DOWN: v = f; break;
    case UP: v = f + 1; break;
    case ZERO: v = d < 0 ? f + 1 : f; break;
    default: v = k - f < 0.5 ? f : k - f > 0.5 ? f + 1 : (std::fmod(f, 2) == 0 ? f : f + 1);
  }
  v *= q;
  double mx = std::ldexp(2.0 - std::ldexp(1.0, -(P - 1)), EMAX);
  if (v > mx) return m == DOWN || m == ZERO ? mx : gen::inf<double>();
  if (v < -mx) return m == UP || m == ZERO ? -mx : -gen::inf<double>();
  if (v == 0 && d < 0) v = -0.0;
  return v;
}
template<int P, int EMIN, int EMAX> struct S {
  double v;
  S() : v(0) {}
  S(int x) : v(rnd_exact<P, EMIN, EMAX>(x, mode())) {}
  S(double x) : v(rnd_exact<P, EMIN, EMAX>(x, mode())) {}
  S(float x) : v(rnd_exact<P, EMIN, EMAX>(x, mode())) {}
  S(unsigned x) : v(rnd_exact<P, EMIN, EMAX>(x, mode())) {}
  template<int Q, int A, int B> S(S<Q, A, B> const &o) : v(rnd_exact<P, EMIN, EMAX>(o.v, mode())) {}
  static S raw(double x) { S s; s.v = x; return s; }
  static S max() { return raw(std::ldexp(2.0 - std::ldexp(1.0, -(P - 1)), EMAX)); }
};
#define SOFT_T template<int P, int A, int B> inline
#define SOFT_CMP(OPR) SOFT_T bool operator OPR(S<P, A, B> const &x, S<P, A, B> const &y) { return x.v OPR y.v; }
SOFT_CMP(<) SOFT_CMP(<=) SOFT_CMP(>) SOFT_CMP(>=) SOFT_CMP(==) SOFT_CMP(!=)
// sums and products of so few bits are exact in double; a quotient or a square
// root that is not representable in so few bits is far from it in double
#define SOFT_ARI(OPR) SOFT_T S<P, A, B> operator OPR(S<P, A, B> const &x, S<P, A, B> const &y) { return S<P, A, B>(x.v OPR y.v); }
SOFT_T S<P, A, B> operator/(S<P, A, B> const &x, int n) { return S<P, A, B>(x.v / n); }
SOFT_ARI(+) SOFT_ARI(-) SOFT_ARI(*) SOFT_ARI(/)
SOFT_T S<P, A, B> operator-(S<P, A, B> const &x) { return S<P, A, B>::raw(-x.v); }
SOFT_T S<P, A, B> sqrt(S<P, A, B> const &x) { return S<P, A, B>(std::sqrt(x.v)); }
SOFT_T S<P, A, B> floor(S<P, A, B> const &x) { return S<P, A, B>(std::floor(x.v)); }
SOFT_T S<P, A, B> ceil(S<P, A, B> const &x) { return S<P, A, B>(std::ceil(x.v)); }
inline double mpf(int (*f)(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t), double x) {
  // a result that is not exact is rounded away from every short number: to odd
  // in double is enough, toward zero with a sticky last bit
  static thread_local struct V { mpfr_t a, r; V() { mpfr_init2(a, 53); mpfr_init2(r, 60); } } w;
  mpfr_set_d(w.a, x, MPFR_RNDN);
  int t = f(w.r, w.a, MPFR_RNDZ);
  double d = mpfr_get_d(w.r, MPFR_RNDZ);
  if (t != 0 && std::isfinite(d)) { // inexact: make sure that it is not a short number
    uint64_t b; memcpy(&b, &d, 8); b |= 1; memcpy(&d, &b, 8);
    if (d == 0 || (b << 1) == 2) d = x < 0 ? -1e-300 : 1e-300;
  }
  return d;
}
#define SOFT_FN(F) SOFT_T S<P, A, B> F(S<P, A, B> const &x) { return S<P, A, B>(mpf(mpfr_##F, x.v)); }
SOFT_FN(exp) SOFT_FN(log) SOFT_FN(sin) SOFT_FN(cos) SOFT_FN(tan) SOFT_FN(asin) SOFT_FN(acos) SOFT_FN(atan)
SOFT_FN(sinh) SOFT_FN(cosh) SOFT_FN(tanh) SOFT_FN(asinh) SOFT_FN(acosh) SOFT_FN(atanh)
} // namespace soft

namespace std {
template<int P, int A, int B> struct numeric_limits<soft::S<P, A, B> > {
  typedef soft::S<P, A, B> T;
  static const bool is_specialized = true, has_infinity = true, has_quiet_NaN = true, has_signaling_NaN = false, is_signed = true, is_integer = false, is_exact = false, is_bounded = true, is_iec559 = false, is_modulo = false, traps = false, tinyness_before = false, has_denorm_loss = false;
  static const int digits = P, radix = 2, digits10 = 0, max_digits10 = 2, min_exponent = A + 1, max_exponent = B + 1, min_exponent10 = 0, max_exponent10 = 0;
  static const float_denorm_style has_denorm = denorm_present; static const float_round_style round_style = round_indeterminate;
  static T infinity() { return T::raw(gen::inf<double>()); }
  static T quiet_NaN() { return T::raw(std::numeric_limits<double>::quiet_NaN()); }
  static T signaling_NaN() { return quiet_NaN(); }
  static T max() { return T::max(); }
  static T min() { return T::raw(std::ldexp(1.0, A)); }
  static T lowest() { return -T::max(); }
  static T denorm_min() { return T::raw(std::ldexp(1.0, A - P + 1)); }
  static T epsilon() { return T::raw(std::ldexp(1.0, 1 - P)); }
  static T round_error() { return T::raw(0.5); }
};
}
namespace boost { namespace numeric { namespace interval_lib {
template<int P, int A, int B> struct rounding_control<soft::S<P, A, B> > {
  typedef int rounding_mode; typedef soft::S<P, A, B> T;
  static void get_rounding_mode(rounding_mode &m) { m = soft::mode(); }
  static void set_rounding_mode(rounding_mode m) { soft::switches()++; soft::mode() = m; }
  static void upward() { set_rounding_mode(soft::UP); }
  static void downward() { set_rounding_mode(soft::DOWN); }
  static void to_nearest() { set_rounding_mode(soft::NEAR); }
  static void toward_zero() { set_rounding_mode(soft::ZERO); }
  static T to_int(T const &x) {
    double d = x.v;
    switch (soft::mode()) { case soft::UP: d = std::ceil(d); break; case soft::DOWN: d = std::floor(d); break; case soft::ZERO: d = std::trunc(d); break; default: d = std::nearbyint(d); }
    return T(d);
  }
  static T const &force_rounding(T const &x) { return x; }
};
} } }
#endif
