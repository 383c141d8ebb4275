// P03: division by intervals containing zero, two-part division, inverse.
#include "mp.hpp"
#include "lib.hpp"
using gen::B; using vh::Rng; using mp::H;

template<class I> struct D { typedef typename I::base_type T;
  static NOIPA I ii(const I &x, const I &y) { return x / y; }
  static NOIPA I cii(const I &x, const I &y) { I z(x); z /= y; return z; }
  static NOIPA void self(I &x) { x /= x; }
  static NOIPA I it(const I &x, const T &y) { return x / y; }
  static NOIPA I cit(const I &x, const T &y) { I z(x); z /= y; return z; }
  static NOIPA I ti(const T &x, const I &y) { return x / y; }
  static NOIPA I tt(const T &x, const T &y) { return il::div<I>(x, y); }
  static NOIPA I inv(const I &y) { return il::multiplicative_inverse(y); }
  static NOIPA I p1(const I &x, const I &y, bool &b) { return il::division_part1(x, y, b); }
  static NOIPA I p2(const I &x, const I &y, bool b) { return il::division_part2(x, y, b); }
  static NOIPA I p2d(const I &x, const I &y) { return il::division_part2(x, y); }
};

// divisors: mostly containing zero
template<class T> B<T> divisor(Rng &r) {
  T a = std::fabs(gen::fin<T>(r)), b = std::fabs(gen::fin<T>(r)), z = r.chance(1, 2) ? T(0) : T(-0.0);
  T i = gen::inf<T>();
  if (r.chance(1, 12)) a = i;
  if (r.chance(1, 12)) b = i;
  switch (r.below(8)) {
  case 0: return B<T>{z, b};
  case 1: return B<T>{-a, z};
  case 2: case 3: case 4: return B<T>{-a, b};
  case 5: return B<T>{z, r.chance(1, 2) ? T(0) : T(-0.0)};
  case 6: return B<T>{-std::numeric_limits<T>::denorm_min(), b};
  default: return gen::ival<T>(r);
  }
}
template<class I> static const typename I::base_type &lowref(const I &x) { return x.lower(); }
template<class I> static const typename I::base_type &upref(const I &x) { return x.upper(); }
template<class I, class T> static void chk(const char *n, const std::string &suf, const std::string &w, I res, const H &h) {
  std::fesetround(FE_TONEAREST);
  std::string key = std::string(n) + suf;
  mp::tight<T>(key, key + " " + w, res.lower(), res.upper(), h, isempty(res));
}
template<class T> static bool okpart(T l, T u, const H &h) { return l == mp::rd<T>(h.lo) && u == mp::ru<T>(h.hi); }

template<class T> static void one(Rng &r) {
  typedef typename Types<T>::B I; typedef D<I> F;
  std::string suf = std::string("/") + gen::Tn<T>::name();
  for (int rep = 0; rep < 2; ++rep) {
    B<T> y = divisor<T>(r), x = r.chance(1, 12) ? B<T>{T(0), r.chance(1, 2) ? T(-0.0) : T(0)} : gen::ival<T>(r);
    T t = r.chance(1, 10) ? (r.chance(1, 2) ? T(0) : T(-0.0)) : gen::fin<T>(r);
    T d = r.chance(1, 3) ? (r.chance(1, 2) ? T(0) : T(-0.0)) : gen::fin<T>(r);
    I X = mk<I>(x), Y = mk<I>(y);
    std::string w = x.s() + " " + y.s(), wt = gen::str(t) + " " + y.s(), wd = x.s() + " " + gen::str(d);
    H h = mp::h_div<T>(x.l, x.u, y.l, y.u), ht = mp::h_div<T>(t, t, y.l, y.u), hd = mp::h_div<T>(x.l, x.u, d, d);
    vh::op("div_ii"); chk<I, T>("div_ii", suf, w, F::ii(X, Y), h);
    vh::op("div_cii"); chk<I, T>("div_cii", suf, w, F::cii(X, Y), h);
    vh::op("div_ti"); chk<I, T>("div_ti", suf, wt, F::ti(t, Y), ht);
    vh::op("div_it"); chk<I, T>("div_it", suf, wd, F::it(X, d), hd);
    vh::op("div_cit"); chk<I, T>("div_cit", suf, wd, F::cit(X, d), hd);
    vh::op("div_tt"); chk<I, T>("div_tt", suf, gen::str(t) + " " + gen::str(d), F::tt(t, d), mp::h_div<T>(t, t, d, d));
    vh::op("inv"); chk<I, T>("inv", suf, y.s(), F::inv(Y), mp::h_div<T>(T(1), T(1), y.l, y.u));
    // one object, or one of its bounds, as both operands
    if (r.chance(1, 4)) {
      H hs = mp::h_div<T>(y.l, y.u, y.l, y.u);
      std::string ws = y.s() + " (one object)";
      vh::op("div same object"); vh::count("divisions of an object by itself");
      chk<I, T>("div_ii", suf, ws, F::ii(Y, Y), hs);
      { I Z(Y); escape(Z); D<I>::self(Z); chk<I, T>("div_cii", suf, ws, Z, hs); }
      const T &yl = r.chance(1, 2) ? lowref(Y) : upref(Y); T bv = yl;
      if (std::isfinite(bv)) {
        std::string wb = y.s() + " and its bound " + gen::str(bv);
        chk<I, T>("div_ti", suf, wb, F::ti(yl, Y), mp::h_div<T>(bv, bv, y.l, y.u));
        chk<I, T>("div_it", suf, wb, F::it(Y, yl), mp::h_div<T>(y.l, y.u, bv, bv));
        chk<I, T>("div_tt", suf, wb, F::tt(yl, yl), mp::h_div<T>(bv, bv, bv, bv));
        { I Z(Y); escape(Z); Z /= (&yl == &Y.lower() ? Z.lower() : Z.upper()); chk<I, T>("div_cit", suf, wb, Z, mp::h_div<T>(y.l, y.u, bv, bv)); }
      }
    }
    // two parts
    vh::op("division_part");
    bool b = r.chance(1, 2), b0 = b;
    I p1 = F::p1(X, Y, b);
    I p2 = F::p2(X, Y, b);
    std::fesetround(FE_TONEAREST);
    vh::eval();
    std::string key = "part" + suf, what = "division_part " + w + vh::fmt(" (flag in %d out %d) -> ", b0, b) + istr(p1) + " and " + istr(p2);
    bool xz = x.l <= 0 && 0 <= x.u, yint = y.l < 0 && y.u > 0;
    if (!b) {
      if (!isempty(p2)) vh::fail(key + "/second", what + ": flag false but the second part is not empty");
      if (yint && !xz) vh::fail(key + "/flag", what + ": the quotients are two half-lines but the flag is false");
      mp::tight<T>(key + "/one", what, p1.lower(), p1.upper(), h, isempty(p1));
    } else {
      vh::count("two-part divisions");
      H n, p;
      mp::h_div2<T>(x.l, x.u, y.l, y.u, n, p);
      if (!yint || (x.l < 0 && 0 < x.u) || h.empty) vh::fail(key + "/flag", what + ": flag true but the quotients are one interval");
      else {
        // n and p are the quotients by the negative and by the positive divisors
        bool s1 = okpart<T>(p1.lower(), p1.upper(), n) && okpart<T>(p2.lower(), p2.upper(), p);
        bool s2 = okpart<T>(p1.lower(), p1.upper(), p) && okpart<T>(p2.lower(), p2.upper(), n);
        if (!s1 && !s2) vh::fail(key + "/two", what + ": the parts should be " + n.s() + " and " + p.s());
        I q = F::p2d(X, Y);
        std::fesetround(FE_TONEAREST);
        if (!eqi(q, p2)) vh::fail(key + "/default", what + ": division_part2 without flag gives " + istr(q));
      }
    }
    bool z = y.l <= 0 && 0 <= y.u;
    if (z) { vh::count("divisors containing zero"); vh::nontrivial(gen::hash(x) ^ vh::mix(gen::hash(y)) ^ sizeof(T)); }
    if (h.empty) vh::count("empty quotients");
    if (z && !h.empty && r.below(3000) == 0) vh::sample(what + " exact " + h.s());
    // the strict policy must not let an empty quotient pass
    typedef typename Types<T>::S S; typedef D<S> G;
    if (r.chance(1, 8)) {
      vh::op("div strict");
      bool thrown = false; S res;
      try { res = G::ii(mk<S>(x), mk<S>(y)); } catch (const std::runtime_error &) { thrown = true; }
      std::fesetround(FE_TONEAREST);
      vh::eval();
      if (thrown != h.empty) vh::fail("strict" + suf, "strict division " + w + (thrown ? " threw" : " did not throw"));
      else if (!thrown) chk<S, T>("div_strict", suf, w, res, h);
    }
  }
}
VH_GROUP(f, "float", 120000, 3000000) { (void)idx; one<float>(r); }
VH_GROUP(d, "double", 160000, 4000000) { (void)idx; one<double>(r); }
VH_GROUP(l, "ldouble", 80000, 3000000) { (void)idx; one<long double>(r); }
