// P01 (inclusion) and, with -DTIGHT, P02 (tightness) of the arithmetic.
#include "mp.hpp"
#include "lib.hpp"
using gen::B; using vh::Rng; using mp::H;

template<class I> struct F { typedef typename I::base_type T;
  typedef I (*II)(const I &, const I &); typedef I (*IT)(const I &, const T &); typedef I (*TI)(const T &, const I &);
  typedef I (*TT)(const T &, const T &); typedef I (*I1)(const I &); };

template<class I> struct Fns { typedef typename I::base_type T;
  static NOIPA I add_ii(const I &x, const I &y) { return x + y; }
  static NOIPA I sub_ii(const I &x, const I &y) { return x - y; }
  static NOIPA I mul_ii(const I &x, const I &y) { return x * y; }
  static NOIPA I div_ii(const I &x, const I &y) { return x / y; }
  static NOIPA I addc_ii(const I &x, const I &y) { I z(x); if (&x == &y) z += z; else z += y; return z; }
  static NOIPA I subc_ii(const I &x, const I &y) { I z(x); if (&x == &y) z -= z; else z -= y; return z; }
  static NOIPA I mulc_ii(const I &x, const I &y) { I z(x); if (&x == &y) z *= z; else z *= y; return z; }
  static NOIPA I divc_ii(const I &x, const I &y) { I z(x); if (&x == &y) z /= z; else z /= y; return z; }
  static NOIPA I add_it(const I &x, const T &y) { return x + y; }
  static NOIPA I sub_it(const I &x, const T &y) { return x - y; }
  static NOIPA I mul_it(const I &x, const T &y) { return x * y; }
  static NOIPA I div_it(const I &x, const T &y) { return x / y; }
  static NOIPA I addc_it(const I &x, const T &y) { I z(x); if (&y == &x.lower()) z += z.lower(); else if (&y == &x.upper()) z += z.upper(); else z += y; return z; }
  static NOIPA I subc_it(const I &x, const T &y) { I z(x); if (&y == &x.lower()) z -= z.lower(); else if (&y == &x.upper()) z -= z.upper(); else z -= y; return z; }
  static NOIPA I mulc_it(const I &x, const T &y) { I z(x); if (&y == &x.lower()) z *= z.lower(); else if (&y == &x.upper()) z *= z.upper(); else z *= y; return z; }
  static NOIPA I divc_it(const I &x, const T &y) { I z(x); if (&y == &x.lower()) z /= z.lower(); else if (&y == &x.upper()) z /= z.upper(); else z /= y; return z; }
  static NOIPA I add_ti(const T &x, const I &y) { return x + y; }
  static NOIPA I sub_ti(const T &x, const I &y) { return x - y; }
  static NOIPA I mul_ti(const T &x, const I &y) { return x * y; }
  static NOIPA I div_ti(const T &x, const I &y) { return x / y; }
  static NOIPA I add_tt(const T &x, const T &y) { return il::add<I>(x, y); }
  static NOIPA I sub_tt(const T &x, const T &y) { return il::sub<I>(x, y); }
  static NOIPA I mul_tt(const T &x, const T &y) { return il::mul<I>(x, y); }
  static NOIPA I div_tt(const T &x, const T &y) { return il::div<I>(x, y); }
  static NOIPA I neg(const I &x) { return -x; }
  static NOIPA I pos(const I &x) { return +x; }
  static NOIPA I abs_(const I &x) { return abs(x); }
  static NOIPA I square_(const I &x) { return square(x); }
  static NOIPA I sqrt_(const I &x) { return sqrt(x); }
  static NOIPA I inv(const I &x) { return il::multiplicative_inverse(x); }
  static NOIPA I min_ii(const I &x, const I &y) { return min BOOST_PREVENT_MACRO_SUBSTITUTION(x, y); }
  static NOIPA I max_ii(const I &x, const I &y) { return max BOOST_PREVENT_MACRO_SUBSTITUTION(x, y); }
  static NOIPA I min_it(const I &x, const T &y) { return min BOOST_PREVENT_MACRO_SUBSTITUTION(x, y); }
  static NOIPA I max_it(const I &x, const T &y) { return max BOOST_PREVENT_MACRO_SUBSTITUTION(x, y); }
  static NOIPA I min_ti(const T &x, const I &y) { return min BOOST_PREVENT_MACRO_SUBSTITUTION(x, y); }
  static NOIPA I max_ti(const T &x, const I &y) { return max BOOST_PREVENT_MACRO_SUBSTITUTION(x, y); }
};

template<class T> static H h_min(T xl, T xu, T yl, T yu) { return mp::h_pts<T>(xl < yl ? xl : yl, xu < yu ? xu : yu); }
template<class T> static H h_max(T xl, T xu, T yl, T yu) { return mp::h_pts<T>(xl > yl ? xl : yl, xu > yu ? xu : yu); }
template<class T> static H h_pos(T l, T u) { return mp::h_pts<T>(l, u); }
template<class T> static H h_neg(T l, T u) { return mp::h_pts<T>(-u, -l); }
template<class T> static H h_inv(T l, T u) { return mp::h_div<T>(1, 1, l, u); }

template<class T> struct Op2d { const char *n; H (*h)(T, T, T, T); int form; void *f; bool div; };
template<class T> struct Op1d { const char *n; H (*h)(T, T); void *f; bool mayempty; };

template<class I> const std::vector<Op2d<typename I::base_type> > &ops2() {
  typedef typename I::base_type T; typedef Fns<I> G;
  static std::vector<Op2d<T> > v;
  if (v.empty()) {
#define O2(n, h, form, div) v.push_back(Op2d<T>{#n, h, form, (void *)&G::n, div})
#define O4(n, h, d) O2(n##_ii, h, 0, d); O2(n##c_ii, h, 0, d); O2(n##_it, h, 1, d); O2(n##c_it, h, 1, d); O2(n##_ti, h, 2, d); O2(n##_tt, h, 3, d)
    O4(add, mp::h_add<T>, false); O4(sub, mp::h_sub<T>, false); O4(mul, mp::h_mul<T>, false); O4(div, mp::h_div<T>, true);
    O2(mul_ii, mp::h_mul<T>, 0, false); O2(div_ii, mp::h_div<T>, 0, true); // twice the weight
#ifdef TIGHT
    O2(min_ii, h_min<T>, 0, false); O2(min_it, h_min<T>, 1, false); O2(min_ti, h_min<T>, 2, false);
    O2(max_ii, h_max<T>, 0, false); O2(max_it, h_max<T>, 1, false); O2(max_ti, h_max<T>, 2, false);
#endif
  }
  return v;
}
template<class I> const std::vector<Op1d<typename I::base_type> > &ops1() {
  typedef typename I::base_type T; typedef Fns<I> G;
  static std::vector<Op1d<T> > v;
  if (v.empty()) {
    v.push_back(Op1d<T>{"neg", h_neg<T>, (void *)&G::neg, false});
    v.push_back(Op1d<T>{"pos", h_pos<T>, (void *)&G::pos, false});
#ifdef TIGHT
    v.push_back(Op1d<T>{"abs", mp::h_abs<T>, (void *)&G::abs_, false});
    v.push_back(Op1d<T>{"square", mp::h_square<T>, (void *)&G::square_, false});
    v.push_back(Op1d<T>{"sqrt", mp::h_sqrt<T>, (void *)&G::sqrt_, true});
    v.push_back(Op1d<T>{"sqrt", mp::h_sqrt<T>, (void *)&G::sqrt_, true});
    v.push_back(Op1d<T>{"inv", h_inv<T>, (void *)&G::inv, true});
#endif
  }
  return v;
}

template<class T, class I> static void verdict(const std::string &key, const std::string &what, const I &res, const H &h) {
  T l = res.lower(), u = res.upper();
#ifdef TIGHT
  mp::tight<T>(key, what, l, u, h, isempty(res));
#else
  mp::encl<T>(key, what, l, u, h, isempty(res));
  if (h.empty && !isempty(res) ) { /* nothing is claimed here; see P03, P07 */ }
#endif
}

template<class I> static void one(Rng &r, bool mayempty, const char *pol) {
  typedef typename I::base_type T;
  std::string suf = std::string("/") + gen::Tn<T>::name() + pol;
  for (int rep = 0; rep < 4; ++rep) {
    if (r.below(8) == 0) {
      const Op1d<T> &o = ops1<I>()[r.below(ops1<I>().size())];
      B<T> x = gen::ival<T>(r);
      H h = o.h(x.l, x.u);
      if (h.empty && !mayempty) continue;
      typename F<I>::I1 volatile f = (typename F<I>::I1)o.f;
      vh::op(o.n);
      I res = f(mk<I>(x));
      std::fesetround(FE_TONEAREST);
      verdict<T>(o.n + suf, std::string(o.n) + suf + " " + x.s(), res, h);
      if (x.l != 0 || x.u != 0) vh::nontrivial(gen::hash(x) ^ vh::hstr(o.n) ^ sizeof(T));
      continue;
    }
    const Op2d<T> &o = ops2<I>()[r.below(ops2<I>().size())];
    B<T> x = gen::ival<T>(r), y = r.below(5) ? gen::ival<T>(r) : gen::related<T>(r, x);
    if (o.form >= 2) { T t = gen::fin<T>(r); x = B<T>{t, t}; }
    if (o.form & 1) { T t = gen::fin<T>(r); y = B<T>{t, t}; }
    // now and then the operands are the same object, or a number is a bound of the interval
    int same = r.chance(1, 12) ? 1 + r.below(2) : 0;
    if (o.form == 0 && same) y = x;
    if (o.form == 1 && same) { T t = same == 1 ? x.l : x.u; if (std::isfinite(t)) y = B<T>{t, t}; else same = 0; }
    if (o.form == 2 && same) { T t = same == 1 ? y.l : y.u; if (std::isfinite(t)) x = B<T>{t, t}; else same = 0; }
    if (same) vh::count("operands that share an object");
    H h = o.h(x.l, x.u, y.l, y.u);
    if (h.empty && !mayempty) continue;
    I X = mk<I>(x), Y = mk<I>(y), res;
    vh::op(o.n);
    if (o.form == 0) { typename F<I>::II volatile f = (typename F<I>::II)o.f; res = f(X, same ? X : Y); }
    else if (o.form == 1) { typename F<I>::IT volatile f = (typename F<I>::IT)o.f; if (same) res = f(X, same == 1 ? X.lower() : X.upper()); else res = f(X, y.l); }
    else if (o.form == 2) { typename F<I>::TI volatile f = (typename F<I>::TI)o.f; if (same) res = f(same == 1 ? Y.lower() : Y.upper(), Y); else res = f(x.l, Y); }
    else { typename F<I>::TT volatile f = (typename F<I>::TT)o.f; res = f(x.l, y.l); }
    std::fesetround(FE_TONEAREST);
    std::string what = std::string(o.n) + suf + " " + x.s() + " " + y.s();
    verdict<T>(o.n + suf, what, res, h);
    if ((x.l != 0 || x.u != 0) && (y.l != 0 || y.u != 0)) {
      vh::nontrivial(gen::hash(x) ^ vh::mix(gen::hash(y)) ^ vh::hstr(o.n) ^ sizeof(T));
      bool inexact = !h.empty && (!(mp::M(res.lower()) >= h.lo) || !(mp::M(res.upper()) <= h.hi));
      if (inexact) vh::count("results that needed rounding");
      if (std::isinf((long double)res.lower()) || std::isinf((long double)res.upper())) vh::count("results with an infinite bound");
      if (!h.empty && r.below(5000) == 0) vh::sample(what + " -> " + istr(res) + " exact " + h.s());
    }
  }
}

template<class T> static void both(Rng &r) {
  if (r.below(3)) one<typename Types<T>::B>(r, true, "");
  else one<typename Types<T>::S>(r, false, "/strict");
}
#ifndef CASES
#define CASES 1
#endif
VH_GROUP(f, "float", 240000, 6000000) { both<float>(r); }
VH_GROUP(d, "double", 280000, 8000000) { both<double>(r); }
VH_GROUP(l, "ldouble", 160000, 5000000) { both<long double>(r); }
// all pairs of a grid of special intervals
template<class T> static void grid(Rng &r, uint64_t idx) {
  const T i = gen::inf<T>(), mx = std::numeric_limits<T>::max(), dn = std::numeric_limits<T>::denorm_min(), mn = std::numeric_limits<T>::min();
  const T v[] = {-i, -mx, -3, -1, -T(1) / 3, -mn, -dn, 0, dn, mn, T(1) / 3, 1, 3, mx, i};
  const int n = 15;
  std::vector<B<T> > g;
  for (int a = 0; a < n - 1; ++a) for (int b = a; b < n; ++b) if (!(a == b && a == 0) && b > 0) g.push_back(B<T>{v[a], v[b]});
  B<T> x = g[idx % g.size()], y = g[idx / g.size() % g.size()];
  typedef typename Types<T>::B I;
  (void)r;
  for (const Op2d<T> &o : ops2<I>()) {
    if (o.form != 0) continue;
    H h = o.h(x.l, x.u, y.l, y.u);
    typename F<I>::II volatile f = (typename F<I>::II)o.f;
    vh::op(o.n);
    I res = f(mk<I>(x), mk<I>(y));
    verdict<T>(o.n + std::string("/") + gen::Tn<T>::name(), std::string(o.n) + " " + x.s() + " " + y.s(), res, h);
    vh::nontrivial(gen::hash(x) ^ vh::mix(gen::hash(y)) ^ vh::hstr(o.n) ^ sizeof(T));
    // a number against an interval
    if (std::isfinite(x.l) && x.l == x.u) for (const Op2d<T> &p : ops2<I>()) {
      if (p.form == 2) { typename F<I>::TI volatile f = (typename F<I>::TI)p.f;
        vh::op(p.n);
        I res = f(x.l, mk<I>(y)); verdict<T>(p.n + std::string("/") + gen::Tn<T>::name(), std::string(p.n) + " " + x.s() + " " + y.s(), res, p.h(x.l, x.u, y.l, y.u)); }
      if (p.form == 1) { typename F<I>::IT volatile f = (typename F<I>::IT)p.f;
        vh::op(p.n);
        I res = f(mk<I>(y), x.l); verdict<T>(p.n + std::string("/") + gen::Tn<T>::name(), std::string(p.n) + " " + y.s() + " " + x.s(), res, p.h(y.l, y.u, x.l, x.u)); }
    }
  }
}
static const uint64_t GRID = 117 * 117;
VH_GROUP(gf, "gridf", GRID, GRID) { grid<float>(r, idx); }
VH_GROUP(gd, "gridd", GRID, GRID) { grid<double>(r, idx); }
VH_GROUP(gl, "gridl", GRID, GRID) { grid<long double>(r, idx); }
