// Oracle: real set images with MPFR, independent of the code under test.
#ifndef MP_HPP
#define MP_HPP
#include <mpfr.h>
#include "gen.hpp"

namespace mp {
static const mpfr_prec_t PREC = 192;

struct M { // a number with enough precision for every base type
  mpfr_t v;
  M() { mpfr_init2(v, PREC); mpfr_set_zero(v, 1); }
  explicit M(mpfr_prec_t p) { mpfr_init2(v, p); mpfr_set_zero(v, 1); }
  M(const M &o) { mpfr_init2(v, mpfr_get_prec(o.v)); mpfr_set(v, o.v, MPFR_RNDN); }
  M &operator=(const M &o) {
    if (this != &o) { if (mpfr_get_prec(v) != mpfr_get_prec(o.v)) mpfr_set_prec(v, mpfr_get_prec(o.v)); mpfr_set(v, o.v, MPFR_RNDN); }
    return *this;
  }
  ~M() { mpfr_clear(v); }
  M(float x) { mpfr_init2(v, PREC); mpfr_set_flt(v, x, MPFR_RNDN); }
  M(double x) { mpfr_init2(v, PREC); mpfr_set_d(v, x, MPFR_RNDN); }
  M(long double x) { mpfr_init2(v, PREC); mpfr_set_ld(v, x, MPFR_RNDN); }
  bool nan() const { return mpfr_nan_p(v); }
  bool isinf() const { return mpfr_inf_p(v); }
  std::string s() const { char b[128]; mpfr_snprintf(b, sizeof b, "%.40Rg", v); return b; }
};
inline int cmp(const M &a, const M &b) { return mpfr_cmp(a.v, b.v); }
inline bool operator<(const M &a, const M &b) { return mpfr_less_p(a.v, b.v); }
inline bool operator>(const M &a, const M &b) { return mpfr_greater_p(a.v, b.v); }
inline bool operator<=(const M &a, const M &b) { return mpfr_lessequal_p(a.v, b.v); }
inline bool operator>=(const M &a, const M &b) { return mpfr_greaterequal_p(a.v, b.v); }

inline float get_raw(const M &m, mpfr_rnd_t r, float) { return mpfr_get_flt(m.v, r); }
inline double get_raw(const M &m, mpfr_rnd_t r, double) { return mpfr_get_d(m.v, r); }
inline long double get_raw(const M &m, mpfr_rnd_t r, long double) { return mpfr_get_ld(m.v, r); }

// largest T not above m (m not NaN); the conversion of MPFR is checked and corrected
template<class T> T rd(const M &m) {
  T x = get_raw(m, MPFR_RNDD, T());
  if (m.isinf()) return x;
  while (M(x) > m) x = gen::down(x);
  while (x < gen::inf<T>() && M(gen::up(x)) <= m) x = gen::up(x);
  return x;
}
template<class T> T ru(const M &m) {
  T x = get_raw(m, MPFR_RNDU, T());
  if (m.isinf()) return x;
  while (M(x) < m) x = gen::up(x);
  while (x > -gen::inf<T>() && M(gen::down(x)) >= m) x = gen::down(x);
  return x;
}

// an exact real set [inf, sup], given by lo = RD(inf), hi = RU(sup) in high precision
struct H {
  bool empty;
  M lo, hi;
  H() : empty(true) {}
  std::string s() const { return empty ? std::string("{}") : "[" + lo.s() + "," + hi.s() + "]"; }
  void add(const M &l, const M &h) {
    if (l.nan() || h.nan()) return;
    if (empty) { lo = l; hi = h; empty = false; return; }
    if (l < lo) lo = l;
    if (h > hi) hi = h;
  }
};
typedef int (*Op2)(mpfr_ptr, mpfr_srcptr, mpfr_srcptr, mpfr_rnd_t);
typedef int (*Op1)(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t);

inline void cand(H &h, Op2 f, const M &a, const M &b) {
  M l, u;
  f(l.v, a.v, b.v, MPFR_RNDD);
  f(u.v, a.v, b.v, MPFR_RNDU);
  h.add(l, u);
}
template<class T> H h_add(T xl, T xu, T yl, T yu) {
  H h; M l, u;
  mpfr_add(l.v, M(xl).v, M(yl).v, MPFR_RNDD);
  mpfr_add(u.v, M(xu).v, M(yu).v, MPFR_RNDU);
  h.add(l, u); return h;
}
template<class T> H h_sub(T xl, T xu, T yl, T yu) { return h_add<T>(xl, xu, -yu, -yl); }
inline void cand_mul(H &h, const M &a, const M &b) {
  if (mpfr_zero_p(a.v) || mpfr_zero_p(b.v)) { M z; h.add(z, z); return; }
  cand(h, mpfr_mul, a, b);
}
template<class T> H h_mul(T xl, T xu, T yl, T yu) {
  H h; M a(xl), b(xu), c(yl), d(yu);
  cand_mul(h, a, c); cand_mul(h, a, d); cand_mul(h, b, c); cand_mul(h, b, d);
  return h;
}
// quotients by the positive part ]max(yl,0), yu] (yl > 0: closed)
template<class T> void pos_div(H &h, T xl, T xu, T yl, T yu) {
  M a(xl), b(xu), c(yl), d(yu), z, pi, ni;
  mpfr_set_inf(pi.v, 1); mpfr_set_inf(ni.v, -1);
  if (yl > 0) {
    cand(h, mpfr_div, a, c); cand(h, mpfr_div, a, d); cand(h, mpfr_div, b, c); cand(h, mpfr_div, b, d);
    if (std::isinf((long double)yu)) h.add(z, z); // limit of finite/inf
    // unbounded numerator: x/y is unbounded for every finite y
    if (std::isinf((long double)xl)) h.add(ni, ni);
    if (std::isinf((long double)xu)) h.add(pi, pi);
    return;
  }
  // y in ]0, yu]
  if (xu > 0) h.add(pi, pi); else if (xu == 0) h.add(z, z);
  else { M q; mpfr_div(q.v, b.v, d.v, MPFR_RNDU); h.add(q, q); }
  if (xl < 0) h.add(ni, ni); else if (xl == 0) h.add(z, z);
  else { M q; mpfr_div(q.v, a.v, d.v, MPFR_RNDD); h.add(q, q); }
  if (std::isinf((long double)yu)) h.add(z, z);
}
// {a/b : a in x, b in y, b != 0}
template<class T> H h_div(T xl, T xu, T yl, T yu) {
  H h;
  if (yu > 0) pos_div<T>(h, xl, xu, yl, yu);
  if (yl < 0) pos_div<T>(h, -xu, -xl, -yu, -yl);
  return h;
}
// split images, used for the two-part division
template<class T> void h_div2(T xl, T xu, T yl, T yu, H &neg, H &pos) {
  neg = H(); pos = H();
  if (yu > 0) pos_div<T>(pos, xl, xu, yl, yu);
  if (yl < 0) pos_div<T>(neg, -xu, -xl, -yu, -yl);
}
inline void mono(H &h, Op1 f, const M &a, const M &b) { // increasing on [a,b]
  M l, u; f(l.v, a.v, MPFR_RNDD); f(u.v, b.v, MPFR_RNDU); h.add(l, u);
}
inline void anti(H &h, Op1 f, const M &a, const M &b) { // decreasing on [a,b]
  M l, u; f(l.v, b.v, MPFR_RNDD); f(u.v, a.v, MPFR_RNDU); h.add(l, u);
}
template<class T> H h_abs(T l, T u) {
  H h; M a(l), b(u), na(-l), nb(-u), z;
  if (l >= 0) h.add(a, b); else if (u <= 0) h.add(nb, na); else h.add(z, std::fabs(l) > u ? na : b);
  return h;
}
template<class T> H h_square(T l, T u) {
  H g = h_abs(l, u), h; M a, b;
  mpfr_sqr(a.v, g.lo.v, MPFR_RNDD); mpfr_sqr(b.v, g.hi.v, MPFR_RNDU); h.add(a, b); return h;
}
template<class T> H h_sqrt(T l, T u) {
  H h; if (u < 0) return h;
  mono(h, mpfr_sqrt, M(l > 0 ? l : T(0)), M(u > 0 ? u : T(0))); return h;
}
template<class T> H h_root(T l, T u, int k) {
  H h; M a, b;
  if (!(k & 1)) { if (u < 0) return h; if (!(l > 0)) l = 0; }
  mpfr_rootn_ui(a.v, M(l).v, k, MPFR_RNDD); mpfr_rootn_ui(b.v, M(u).v, k, MPFR_RNDU);
  h.add(a, b); return h;
}
inline void powm(M &r, const M &x, unsigned long n, mpfr_rnd_t rnd) {
  mpfr_pow_ui(r.v, x.v, n, rnd); // correctly rounded
}
// 1/S for a set S
inline H h_recip(const H &s) {
  H h; if (s.empty) return h;
  M z, pi, ni, a, b; mpfr_set_inf(pi.v, 1); mpfr_set_inf(ni.v, -1);
  int sl = mpfr_sgn(s.lo.v), sh = mpfr_sgn(s.hi.v);
  if (sl == 0 && sh == 0) return h;
  mpfr_ui_div(a.v, 1, s.hi.v, MPFR_RNDD); mpfr_ui_div(b.v, 1, s.lo.v, MPFR_RNDU);
  if (sl > 0 || sh < 0) h.add(a, b);
  else if (sl < 0 && sh > 0) h.add(ni, pi);
  else if (sl == 0) h.add(a, pi);
  else h.add(ni, b);
  return h;
}
template<class T> H h_pow(T l, T u, long long n) {
  H h; M a, b, one(1.0);
  if (n == 0) { h.add(one, one); return h; }
  unsigned long m = n < 0 ? (unsigned long)(-n) : (unsigned long)n;
  if (m & 1) { powm(a, M(l), m, MPFR_RNDD); powm(b, M(u), m, MPFR_RNDU); }
  else { H g = h_abs(l, u); powm(a, g.lo, m, MPFR_RNDD); powm(b, g.hi, m, MPFR_RNDU); }
  h.add(a, b);
  return n < 0 ? h_recip(h) : h;
}
template<class T> H h_pts(T l, T u) { H h; h.add(M(l), M(u)); return h; }

// ---------------------------------------------------------------- verdicts
// res = [rl, ru_]; reports if some real of h is outside, or the bounds are not valid
template<class T> bool encl(const std::string &key, const std::string &what, T rl, T ru_, const H &h, bool res_empty) {
  vh::eval();
  if (h.empty) return true;
  if (res_empty || !(rl <= ru_)) {
    vh::fail(key + "/lost", what + " = " + gen::B<T>{rl, ru_}.s() + " (empty or invalid) but the exact set is " + h.s());
    return false;
  }
  if (M(rl) > h.lo || M(ru_) < h.hi) {
    vh::fail(key + "/encl", what + " = " + gen::B<T>{rl, ru_}.s() + " does not contain the exact set " + h.s());
    return false;
  }
  return true;
}
// reports if a bound could be moved inwards
template<class T> bool tight(const std::string &key, const std::string &what, T rl, T ru_, const H &h, bool res_empty) {
  vh::eval();
  if (h.empty) {
    if (!res_empty) { vh::fail(key + "/notempty", what + " = " + gen::B<T>{rl, ru_}.s() + " but the exact set is empty"); return false; }
    return true;
  }
  if (res_empty) { vh::fail(key + "/lost", what + " is empty but the exact set is " + h.s()); return false; }
  T bl = rd<T>(h.lo), bu = ru<T>(h.hi);
  if (!(rl == bl && ru_ == bu)) {
    vh::fail(key + "/tight", what + " = " + gen::B<T>{rl, ru_}.s() + " but the best enclosure is " + gen::B<T>{bl, bu}.s());
    return false;
  }
  return true;
}
} // namespace mp
#endif
