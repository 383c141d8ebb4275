// P04: sqrt, square, abs, pow, nth_root, min, max, widen.
#include "mp.hpp"
#include "lib.hpp"
#include <climits>
using gen::B; using vh::Rng; using mp::H; using mp::M;

template<class I> struct A { typedef typename I::base_type T;
  static NOIPA I abs_(const I &x) { return abs(x); }
  static NOIPA I square_(const I &x) { return square(x); }
  static NOIPA I sqrt_(const I &x) { return sqrt(x); }
  static NOIPA I pow_(const I &x, int n) { return pow(x, n); }
  static NOIPA I root_(const I &x, int n) { return nth_root(x, n); }
  static NOIPA I min_ii(const I &x, const I &y) { return min BOOST_PREVENT_MACRO_SUBSTITUTION(x, y); }
  static NOIPA I max_ii(const I &x, const I &y) { return max BOOST_PREVENT_MACRO_SUBSTITUTION(x, y); }
  static NOIPA I min_it(const I &x, const T &y) { return min BOOST_PREVENT_MACRO_SUBSTITUTION(x, y); }
  static NOIPA I max_it(const I &x, const T &y) { return max BOOST_PREVENT_MACRO_SUBSTITUTION(x, y); }
  static NOIPA I min_ti(const T &x, const I &y) { return min BOOST_PREVENT_MACRO_SUBSTITUTION(x, y); }
  static NOIPA I max_ti(const T &x, const I &y) { return max BOOST_PREVENT_MACRO_SUBSTITUTION(x, y); }
  static NOIPA I widen_(const I &x, const T &v) { return widen(x, v); }
};

// is the bound v of the result within `rel` of the exact bound e (plus `abs`)?
// compares |v - e| with rel*|e| + abs in MPFR
template<class T> static bool near_bound(T v, const M &e, double rel, double ulps) {
  if (e.isinf()) return true;
  M d, lim, a;
  if (std::isinf((long double)v)) { // fine if e is beyond the range, or nearly
    M mx(std::numeric_limits<T>::max());
    mpfr_abs(a.v, e.v, MPFR_RNDN);
    mpfr_mul_d(lim.v, a.v, 1 + rel, MPFR_RNDU);
    return lim >= mx;
  }
  mpfr_sub(d.v, M(v).v, e.v, MPFR_RNDN); mpfr_abs(d.v, d.v, MPFR_RNDN);
  mpfr_abs(a.v, e.v, MPFR_RNDN);
  { M mx(std::numeric_limits<T>::max()); if (a > mx) { // e overflows: the bound must be the largest number or nearly
      mpfr_abs(d.v, M(v).v, MPFR_RNDN); mpfr_mul_d(lim.v, mx.v, 1 - rel, MPFR_RNDD); return d >= lim; } }
  mpfr_mul_d(lim.v, a.v, rel, MPFR_RNDU);
  M mn(std::numeric_limits<T>::min()); // underflow: a few roundings of subnormals
  mpfr_mul_d(mn.v, mn.v, ulps, MPFR_RNDU);
  mpfr_add(lim.v, lim.v, mn.v, MPFR_RNDU);
  return d <= lim;
}
template<class T> static void quality(const std::string &key, const std::string &what, T l, T u, const H &h, double rel, double mins) {
  vh::eval();
  if (h.empty || !(rel < 0.4)) return;
  if (!near_bound<T>(l, h.lo, rel, mins) || !near_bound<T>(u, h.hi, rel, mins))
    vh::fail(key + "/quality", what + " = " + B<T>{l, u}.s() + " is far from the exact set " + h.s());
}
static int exponent(Rng &r) {
  switch (r.below(10)) {
  case 0: case 1: case 2: case 3: return r.range(-6, 12);
  case 4: case 5: return r.range(-40, 70);
  case 6: { int p = 1 << r.below(31); int n = p + (int)r.range(-1, p == (1 << 30) ? 0 : 1); return r.chance(1, 2) ? n : -n; }
  case 7: { static const int s[] = {INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1, -1, 0, 1, 2, -2, 3}; return s[r.below(10)]; }
  case 8: return (int)(r.next() >> 33) * (r.chance(1, 2) ? 1 : -1);
  default: return r.range(-3000, 3000);
  }
}
template<class T> static B<T> base_for(Rng &r, int n) {
  if ((n > 60 || n < -60) && r.chance(3, 4)) { // near one, so that the power is in range
    T s = std::ldexp(T(1), -(int)r.below(std::numeric_limits<T>::digits - 2) - 1) * gen::mant<T>(r);
    T a = T(1) + (r.chance(1, 2) ? s : -s);
    T b = r.chance(1, 3) ? a : gen::nearb(r, a);
    if (r.chance(1, 5)) b = T(1) / a;
    if (r.chance(1, 2)) { a = -a; if (r.chance(2, 3)) b = -b; }
    return gen::ord(a, b);
  }
  return gen::ival<T>(r);
}
// the iteration of nth_root takes a step per binade: few of these for long double
template<class T> static bool slow_root(B<T> x) {
  for (T b : {x.l, x.u}) if (b != 0 && std::isfinite((long double)b) && (std::fabs(b) > 1e60L || std::fabs(b) < 1e-60L)) return true;
  return false;
}
template<class T> static void one(Rng &r, bool strict) {
  typedef typename Types<T>::B I; typedef A<I> F;
  typedef typename Types<T>::S S; typedef A<S> G;
  const double eps = (double)std::numeric_limits<T>::epsilon();
  std::string suf = std::string("/") + gen::Tn<T>::name() + (strict ? "/strict" : "");
  B<T> x = gen::ival<T>(r);
  uint64_t hx = 0;
  auto enc = [&](const char *n, const std::string &w, T l, T u, const H &h, double rel, double mins) {
    std::fesetround(FE_TONEAREST);
    std::string key = n + suf, what = key + " " + w;
    bool e = !(l <= u);
    mp::encl<T>(key, what, l, u, h, e);
    if (!e && !h.empty) quality<T>(key, what, l, u, h, rel, mins);
    if (e && !h.empty) return;
    vh::nontrivial(hx ^ vh::hstr(n) ^ vh::mix(sizeof(T)));
    if (r.below(4000) == 0) vh::sample(what + " -> " + B<T>{l, u}.s() + " exact " + h.s());
  };
#define CALL(e) (strict ? [&]{ typedef G Q; typedef S J; (void)sizeof(Q); (void)sizeof(J); auto z = e; return B<T>{z.lower(), z.upper()}; }() \
                        : [&]{ typedef F Q; typedef I J; (void)sizeof(Q); (void)sizeof(J); auto z = e; return B<T>{z.lower(), z.upper()}; }())
  switch (r.below(12)) {
  case 0: { hx = gen::hash(x); vh::op("abs"); B<T> z = CALL(Q::abs_(mk<J>(x))); enc("abs", x.s(), z.l, z.u, mp::h_abs(x.l, x.u), 0, 0); break; }
  case 1: { hx = gen::hash(x); vh::op("square"); B<T> z = CALL(Q::square_(mk<J>(x))); H h = mp::h_square(x.l, x.u); enc("square", x.s(), z.l, z.u, h, 4 * eps, eps);
    vh::eval(); if (z.l < 0) vh::fail("square" + suf + "/neg", "square " + x.s() + " = " + z.s() + " is negative"); break; }
  case 2: { if (strict && x.u < 0) x = B<T>{-x.u, -x.l}; hx = gen::hash(x);
    vh::op("sqrt"); H h = mp::h_sqrt(x.l, x.u); B<T> z = CALL(Q::sqrt_(mk<J>(x))); enc("sqrt", x.s(), z.l, z.u, h, 4 * eps, eps);
    vh::eval(); if (h.empty && z.l <= z.u) vh::fail("sqrt" + suf + "/dom", "sqrt " + x.s() + " should be empty, is " + z.s()); break; }
  case 3: case 4: case 5: case 6: {
    int n = exponent(r);
    x = base_for<T>(r, n);
    if (strict && n < 0 && x.l == 0 && x.u == 0) x.u = 1;
    hx = gen::hash(x) ^ vh::mix(n);
    vh::op("pow");
    std::string w = x.s() + vh::fmt(" ^ %d", n);
    H h = mp::h_pow<T>(x.l, x.u, n);
    // x^m may underflow to [0,..] before it is inverted; the lower bound of an
    // inverted overflow is 0
    B<T> z;
    bool thrown = false;
    if (strict && n < 0) {
      // the power may underflow so that its inverse is out of reach: not empty, though
      try { z = CALL(Q::pow_(mk<J>(x), n)); } catch (const std::runtime_error &) { thrown = true; std::fesetround(FE_TONEAREST); }
      if (thrown) { vh::fail("pow" + suf + "/throw", "pow " + w + " threw: empty interval"); break; }
    } else z = CALL(Q::pow_(mk<J>(x), n));
    bool sub = false; // the inverse of a (nearly) subnormal power is imprecise
    if (n < 0 && !h.empty) { M big(std::numeric_limits<T>::max() / 64), a; for (const M *e : {&h.lo, &h.hi}) { mpfr_abs(a.v, e->v, MPFR_RNDN); if (a > big) sub = true; } }
    enc("pow", w, z.l, z.u, h, sub ? 1 : 16 * eps * (std::fabs((double)n) + 2), 4 * eps + (n < 0 ? 4 : 0));
    vh::eval();
    if (n == 0 && !(z.l == 1 && z.u == 1)) vh::fail("pow" + suf + "/zero", "pow " + w + " = " + z.s() + " is not 1");
    if (!(n & 1) && z.l < 0) vh::fail("pow" + suf + "/neg", "even power " + w + " = " + z.s() + " is negative");
    if (h.empty && z.l <= z.u) vh::fail("pow" + suf + "/dom", "pow " + w + " should be empty, is " + z.s());
    break;
  }
  case 7: case 8: {
    int k = r.chance(2, 3) ? r.range(1, 9) : r.chance(1, 2) ? r.range(1, 200) : r.chance(1, 2) ? r.range(1, 100000) : INT_MAX - (int)r.below(3);
    if (k > 3000 && r.chance(2, 3)) x = base_for<T>(r, k);
    for (int t = 0; t < 20 && sizeof(T) > 8 && slow_root(x); ++t) x = gen::ival<T>(r);
    if (strict && !(k & 1) && x.u < 0) x = B<T>{-x.u, -x.l};
    hx = gen::hash(x) ^ vh::mix(k);
    vh::op("nth_root");
    std::string w = vh::fmt("%d of ", k) + x.s();
    H h = mp::h_root<T>(x.l, x.u, k);
    B<T> z = CALL(Q::root_(mk<J>(x), k));
    // infinite, huge or subnormal bounds have no tight root: only inclusion there
    // nor do roots of a huge index, whose powers amplify every rounding
    bool tiny = k > 64;
    for (T b : {x.l, x.u}) if (b != 0 && (std::isinf((long double)b) || std::fabs(b) < 2 / std::numeric_limits<T>::max())) tiny = true;
    enc("nth_root", w, z.l, z.u, h, tiny ? 1 : 64 * eps, tiny ? 0 : eps);
    vh::eval();
    if (h.empty && z.l <= z.u) vh::fail("nth_root" + suf + "/dom", "nth_root " + w + " should be empty, is " + z.s());
    if (!(k & 1) && z.l < 0) vh::fail("nth_root" + suf + "/neg", "even root " + w + " = " + z.s() + " is negative");
    break;
  }
  case 9: { // nth_root(pow(x,k),k) encloses x
    int k = r.range(1, 20);
    x = r.chance(1, 2) ? gen::ival<T>(r) : base_for<T>(r, 100);
    for (int t = 0; t < 20 && sizeof(T) > 8 && slow_root(x); ++t) x = gen::ival<T>(r);
    hx = gen::hash(x) ^ vh::mix(k);
    vh::op("nth_root(pow)");
    B<T> z = CALL(Q::root_(Q::pow_(mk<J>(x), k), k));
    H h = (k & 1) ? mp::h_pts(x.l, x.u) : mp::h_abs(x.l, x.u);
    enc("nth_root(pow)", x.s() + vh::fmt(" k=%d", k), z.l, z.u, h, 1, 0);
    break;
  }
  case 10: {
    B<T> y = gen::related<T>(r, x);
    T t = gen::fin<T>(r);
    hx = gen::hash(x) ^ vh::mix(gen::hash(y));
    auto mn = [](T xl, T xu, T yl, T yu) { return mp::h_pts<T>(xl < yl ? xl : yl, xu < yu ? xu : yu); };
    auto mx = [](T xl, T xu, T yl, T yu) { return mp::h_pts<T>(xl > yl ? xl : yl, xu > yu ? xu : yu); };
    vh::op("min"); B<T> z = CALL(Q::min_ii(mk<J>(x), mk<J>(y))); enc("min", x.s() + " " + y.s(), z.l, z.u, mn(x.l, x.u, y.l, y.u), 0, 0);
    vh::op("max"); z = CALL(Q::max_ii(mk<J>(x), mk<J>(y))); enc("max", x.s() + " " + y.s(), z.l, z.u, mx(x.l, x.u, y.l, y.u), 0, 0);
    std::string w = x.s() + " " + gen::str(t);
    z = CALL(Q::min_it(mk<J>(x), t)); enc("min_it", w, z.l, z.u, mn(x.l, x.u, t, t), 0, 0);
    z = CALL(Q::min_ti(t, mk<J>(x))); enc("min_ti", w, z.l, z.u, mn(x.l, x.u, t, t), 0, 0);
    z = CALL(Q::max_it(mk<J>(x), t)); enc("max_it", w, z.l, z.u, mx(x.l, x.u, t, t), 0, 0);
    z = CALL(Q::max_ti(t, mk<J>(x))); enc("max_ti", w, z.l, z.u, mx(x.l, x.u, t, t), 0, 0);
    break;
  }
  default: {
    T v = std::fabs(gen::fin<T>(r));
    hx = gen::hash(x) ^ gen::bits(v);
    vh::op("widen"); B<T> z = CALL(Q::widen_(mk<J>(x), v));
    H h; M a, b; mpfr_sub(a.v, M(x.l).v, M(v).v, MPFR_RNDD); mpfr_add(b.v, M(x.u).v, M(v).v, MPFR_RNDU); h.add(a, b);
    enc("widen", x.s() + " by " + gen::str(v), z.l, z.u, h, 4 * eps, eps);
  }
  }
}
VH_GROUP(f, "float", 400000, 8000000) { (void)idx; one<float>(r, r.chance(1, 3)); }
VH_GROUP(d, "double", 500000, 10000000) { (void)idx; one<double>(r, r.chance(1, 3)); }
VH_GROUP(l, "ldouble", 300000, 6000000) { (void)idx; one<long double>(r, r.chance(1, 3)); }
