// P13: set functions and predicates.  P17 (-DSCALARS): scalar functions.
#include "ops.hpp"
#include "mp.hpp"
using vh::Rng; using gen::B; using mp::M;

template<class T> struct UserChecking {
  // (for double and long double its empty interval looks like ordered bounds)
  static const bool ORD = std::numeric_limits<T>::digits > 30 && !std::numeric_limits<T>::is_integer;
  static T EL() { return ORD ? T(-76.53125) : T(77); } static T EU() { return ORD ? T(77.28125) : T(-76); } static T NA() { return T(-12345); }
  static T pos_inf() { return std::numeric_limits<T>::max(); }
  static T neg_inf() { return -std::numeric_limits<T>::max(); }
  static T nan() { return NA(); }
  static bool is_nan(const T &x) { return x == NA(); }
  static T empty_lower() { return EL(); }
  static T empty_upper() { return EU(); }
  static bool is_empty(const T &l, const T &u) { return l == EL() && u == EU(); }
};
template<class T> struct Pol {
  typedef bn::interval<T, il::policies<il::rounded_math<T>, il::checking_base<T> > > A;
  typedef bn::interval<T> S;
  typedef bn::interval<T, il::policies<il::rounded_math<T>, UserChecking<T> > > U;
  typedef bn::interval<T, il::policies<il::save_state<il::rounded_arith_std<T> >, il::checking_no_empty<T> > > N;
};
static const int MODES[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
template<class T> struct E { B<T> b; bool e; std::string s() const { return e ? std::string("{}") : b.s(); } }; // a set
template<class I> static bool pempty(const I &x) { return I::traits_type::checking::is_empty(x.lower(), x.upper()); }
template<class I> static I make(E<typename I::base_type> x) { if (x.e) return I::empty(); return I(x.b.l, x.b.u, true); }
template<class T> static E<T> set(Rng &r, bool emp) { E<T> x; x.b = gen::ival<T>(r); x.e = emp && r.chance(1, 12); return x; }
template<class T> static E<T> nearset(Rng &r, E<T> y, bool emp) { E<T> x; x.b = r.chance(2, 3) && !y.e ? gen::related<T>(r, y.b) : gen::ival<T>(r); x.e = emp && r.chance(1, 12); return x; }
template<class T> static T numnear(Rng &r, B<T> x) {
  switch (r.below(8)) { case 0: return std::isfinite(x.l) ? x.l : T(0); case 1: return std::isfinite(x.u) ? x.u : T(0); case 2: { T t = gen::down(x.l); return std::isfinite(t) ? t : T(0); } case 3: { T t = gen::up(x.u); return std::isfinite(t) ? t : T(0); }
    case 4: return T(0); default: return gen::fin<T>(r); }
}
struct Mode { Mode(int m) { std::fesetround(m); } ~Mode() { std::fesetround(FE_TONEAREST); } };

#ifndef SCALARS
template<class I> struct F { typedef typename I::base_type T;
  static NOIPA I inter(const I &x, const I &y) { return intersect(x, y); }
  static NOIPA I hull_(const I &x, const I &y) { return hull(x, y); }
  static NOIPA I hull_(const I &x, const T &y) { return hull(x, y); }
  static NOIPA I hull_(const T &x, const I &y) { return hull(x, y); }
  static NOIPA I shull(const T &x, const T &y) { return I::hull(x, y); }
  static NOIPA I nhull(const T &x, const T &y, std::true_type) { return bn::hull(x, y); } // of two numbers: the default interval type
  static NOIPA I nhull(const T &x, const T &y, std::false_type) { return I::hull(x, y); }
  static NOIPA std::pair<I, I> bis(const I &x) { return bisect(x); }
  static NOIPA bool pred(int k, const I &x, const I &y, const T &t) {
    switch (k) { case 0: return empty(x); case 1: return in(t, x); case 2: return zero_in(x); case 3: return singleton(x); case 4: return equal(x, y);
      case 5: return subset(x, y); case 6: return proper_subset(x, y); default: return overlap(x, y); }
  }
};
static const char *PN[] = {"empty", "in", "zero_in", "singleton", "equal", "subset", "proper_subset", "overlap"};
template<class T> static bool sub(const E<T> &x, const E<T> &y) { return x.e || (!y.e && y.b.l <= x.b.l && x.b.u <= y.b.u); }
template<class T> static bool want(int k, const E<T> &x, const E<T> &y, T t, bool badt) {
  switch (k) {
  case 0: return x.e;
  case 1: return !x.e && !badt && x.b.l <= t && t <= x.b.u;
  case 2: return !x.e && x.b.l <= 0 && 0 <= x.b.u;
  case 3: return !x.e && x.b.l == x.b.u;
  case 4: return sub(x, y) && sub(y, x);
  case 5: return sub(x, y);
  case 6: return sub(x, y) && !sub(y, x);
  default: return !x.e && !y.e && std::max(x.b.l, y.b.l) <= std::min(x.b.u, y.b.u);
  }
}
template<class T> static E<T> mk_hull(E<T> x, E<T> y) { if (x.e) return y; if (y.e) return x; E<T> z = x; z.b.l = std::min(x.b.l, y.b.l); z.b.u = std::max(x.b.u, y.b.u); return z; }
template<class I> static void check(const std::string &nm, const std::string &what, const I &got, const E<typename I::base_type> &w) {
  vh::eval();
  bool e = pempty(got);
  if (e != w.e || (!e && !(got.lower() == w.b.l && got.upper() == w.b.u))) vh::fail(nm, what + " = " + (e ? std::string("{}") : istr(got)) + ", should be " + w.s());
}
template<class I, class J> static void one(Rng &r, const char *pol, bool emp, bool nan, bool thr) {
  typedef typename I::base_type T;
  E<T> x = set<T>(r, emp), y = nearset<T>(r, x, emp);
  if (r.chance(1, 2)) std::swap(x, y);
  bool badt = nan && r.chance(1, 10), bads = nan && r.chance(1, 10);
  T N = std::string(pol) == "user" ? UserChecking<T>::NA() : std::numeric_limits<T>::quiet_NaN();
  T t_ = badt ? N : numnear<T>(r, x.b), s = bads ? N : numnear<T>(r, y.b);
  int m = MODES[r.below(4)];
  bool same = r.chance(1, 16), bnd = !x.e && !badt && r.chance(1, 12); // one object as both operands; the number is a bound of the interval
  if (same) y = x;
  I a = make<I>(x), b_ = make<I>(y); J j = make<J>(y);
  const I &b = same ? a : b_;
  const T &tb = r.chance(1, 2) ? a.lower() : a.upper(); bnd = bnd && std::isfinite((long double)tb); const T &t = bnd ? tb : t_;
  escape(a); escape(b_); escape(t_); escape(s); escape(j);
  vh::count("operands sharing an object", same || bnd);
  std::string suf = std::string("/") + gen::Tn<T>::name() + "/" + pol;
  std::string ab = x.s() + " and " + y.s();
  vh::nontrivial(gen::hash(x.b) ^ vh::mix(gen::hash(y.b)) ^ gen::bits(t) * 3 ^ vh::hstr(suf.c_str()));
  typedef F<I> G;
  // intersection
  { E<T> w; w.e = x.e || y.e; w.b.l = std::max(x.b.l, y.b.l); w.b.u = std::min(x.b.u, y.b.u); if (!(w.b.l <= w.b.u)) w.e = true;
    vh::op("intersect"); I z; int ex = 0;
    try { Mode k(m); z = G::inter(a, b); } catch (const std::runtime_error &) { ex = 1; } catch (...) { ex = 2; }
    if (w.e && thr) { vh::eval(); if (ex != 1) vh::fail("intersect" + suf, "intersect of " + ab + " is empty but did not raise the policy's exception"); }
    else if (ex) vh::fail("intersect" + suf, "intersect of " + ab + " threw");
    else check("intersect" + suf, "intersect of " + ab, z, w);
    vh::count(w.e ? "empty intersections" : "intersections"); }
  // hulls
  { vh::op("hull"); E<T> et = {{t, t}, badt}, es = {{s, s}, bads};
    I z; { Mode k(m); z = G::hull_(a, b); } check("hull" + suf, "hull of " + ab, z, mk_hull(x, y));
    if (!(thr && badt)) {
      { Mode k(m); z = G::hull_(a, t); } check("hull(x,t)" + suf, "hull of " + x.s() + " and " + gen::str(t), z, mk_hull(x, et));
      { Mode k(m); z = G::hull_(t, a); } check("hull(t,x)" + suf, "hull of " + gen::str(t) + " and " + x.s(), z, mk_hull(x, et));
      if (!(et.e && es.e && thr)) { { Mode k(m); z = G::shull(t, s); } check("I::hull" + suf, "I::hull of " + gen::str(t) + " and " + gen::str(s), z, mk_hull(et, es));
        { Mode k(m); z = G::nhull(t, s, std::is_same<I, bn::interval<T> >()); } check("hull(t,t)" + suf, "hull of the numbers " + gen::str(t) + " and " + gen::str(s), z, mk_hull(et, es)); }
    } }
  // predicates
  for (int p = 0; p < 8; ++p) {
    if (p == 1 && badt && thr) continue;
    vh::op(PN[p]); vh::eval();
    bool g; { Mode k(m); g = G::pred(p, a, b, t); }
    if (g != want<T>(p, x, y, t, badt)) vh::fail(PN[p] + suf, std::string(PN[p]) + " of x=" + x.s() + " y=" + y.s() + " t=" + gen::str(t) + " gives " + (g ? "true" : "false"));
    vh::count(std::string(PN[p]) + (g ? " true" : " false"));
  }
  // operands with different policies
  vh::eval(4);
  if (equal(a, j) != want<T>(4, x, y, t, badt) || subset(a, j) != want<T>(5, x, y, t, badt) || proper_subset(a, j) != want<T>(6, x, y, t, badt) || overlap(a, j) != want<T>(7, x, y, t, badt))
    vh::fail("mixed" + suf, "predicates of " + ab + " with different policies");
  // bisection
  if (!x.e) {
    vh::op("bisect"); std::pair<I, I> p; { Mode k(m); p = G::bis(a); }
    T md; { Mode k(m); md = median(a); }
    vh::eval(3);
    if (!(p.first.lower() == x.b.l && p.second.upper() == x.b.u && p.first.upper() == p.second.lower() && p.first.upper() == md && x.b.l <= md && md <= x.b.u))
      vh::fail("bisect" + suf, "bisect of " + x.s() + " = " + istr(p.first) + " " + istr(p.second) + ", median " + gen::str(md));
    bool fin = std::isfinite((long double)x.b.l) && std::isfinite((long double)x.b.u);
    if (fin && gen::up(x.b.l) < x.b.u && !(p.first.upper() > x.b.l && p.first.upper() < x.b.u)) vh::fail("bisect/progress" + suf, "bisect of " + x.s() + " = " + istr(p.first) + " " + istr(p.second) + " does not split it");
  } else if (emp) {
    std::pair<I, I> p = G::bis(a); vh::eval();
    if (!pempty(p.first) || !pempty(p.second)) vh::fail("bisect" + suf, "bisect of the empty interval is not empty");
  }
  if (r.below(20000) == 0) vh::sample(suf + " " + ab + " t=" + gen::str(t));
}
#else
template<class I> struct F { typedef typename I::base_type T;
  static NOIPA T num(int k, const I &x) { switch (k) { case 0: return width(x); case 1: return median(x); case 2: return norm(x); case 3: return lower(x); case 4: return upper(x); case 5: return checked_lower(x); default: return checked_upper(x); } }
  static NOIPA I wid(const I &x, const T &t) { return widen(x, t); }
};
static const char *SN[] = {"width", "median", "norm", "lower", "upper", "checked_lower", "checked_upper"};
template<class I, class J> static void one(Rng &r, const char *pol, bool emp, bool, bool) {
  typedef typename I::base_type T;
  E<T> x = set<T>(r, emp);
  if (r.chance(1, 10)) { T l = std::ldexp(gen::mant<T>(r), std::numeric_limits<T>::max_exponent - 1 - (int)r.below(2)), u = std::ldexp(gen::mant<T>(r), std::numeric_limits<T>::max_exponent - 1); if (r.chance(1, 2)) l = -l; x.b = gen::ord(l, u); if (r.chance(1, 2)) x.b = B<T>{-x.b.u, -x.b.l}; }
  T t = std::fabs(gen::fin<T>(r));
  int m = MODES[r.below(4)];
  bool user = std::string(pol) == "user";
  I a = make<I>(x); escape(a); escape(t);
  std::string suf = std::string("/") + gen::Tn<T>::name() + "/" + pol;
  T v[7];
  for (int k = 0; k < 7; ++k) { vh::op(SN[k]); Mode mm(m); v[k] = F<I>::num(k, a); }
  vh::eval(7);
  vh::nontrivial(gen::hash(x.b) ^ gen::bits(t) ^ vh::hstr(suf.c_str()) ^ x.e);
  auto bad = [&](int k, const std::string &w) { vh::fail(std::string(SN[k]) + suf, std::string(SN[k]) + " of " + x.s() + " = " + gen::str(v[k]) + ", should be " + w); };
  if (x.e) {
    vh::count("empty");
    auto inv = [&](T y) { return user ? y == UserChecking<T>::NA() : y != y; };
    if (v[0] != 0) bad(0, "0");
    for (int k : {1, 2, 5, 6}) if (!inv(v[k])) bad(k, "the invalid number");
    vh::eval(); I z = F<I>::wid(a, t); if (!pempty(z)) vh::fail("widen" + suf, "widen of an empty interval is " + istr(z));
    return;
  }
  T l = x.b.l, u = x.b.u;
  M d; 
  { mpfr_sub(d.v, M(u).v, M(l).v, MPFR_RNDU); T w = mp::ru<T>(d); if (!(v[0] == w)) bad(0, gen::str(w)); }
  if (!(v[2] == std::max(std::fabs(l), std::fabs(u)))) bad(2, "the largest absolute value");
  if (!(v[3] == l)) bad(3, "the bound"); if (!(v[4] == u)) bad(4, "the bound"); if (!(v[5] == l)) bad(5, "the bound"); if (!(v[6] == u)) bad(6, "the bound");
  if (std::isfinite((long double)l) && std::isfinite((long double)u)) {
    mpfr_t s, e1, e2; mpfr_init2(s, 34000); mpfr_init2(e1, 34000); mpfr_init2(e2, 34000);
    mpfr_add(s, M(l).v, M(u).v, MPFR_RNDN); mpfr_div_2ui(s, s, 1, MPFR_RNDN);
    M q; mpfr_set(q.v, s, MPFR_RNDD); T lo = mp::rd<T>(q); mpfr_set(q.v, s, MPFR_RNDU); T hi = mp::ru<T>(q);
    // the exact midpoint may not fit the 192 bits of q: lo and hi are then neighbours or equal anyway
    bool ok = v[1] == lo || v[1] == hi;
#ifndef X87_HPP // (the x87 unit rounds to nearest twice)
    if (ok && lo < hi) {
      mpfr_sub(e1, s, M(v[1]).v, MPFR_RNDN); mpfr_abs(e1, e1, MPFR_RNDN);
      mpfr_sub(e2, s, M(v[1] == lo ? hi : lo).v, MPFR_RNDN); mpfr_abs(e2, e2, MPFR_RNDN);
      ok = mpfr_lessequal_p(e1, e2);
    }
#endif
    if (!ok || !(l <= v[1] && v[1] <= u)) bad(1, "the number nearest to the midpoint, " + gen::str(lo) + " or " + gen::str(hi));
    mpfr_clear(s); mpfr_clear(e1); mpfr_clear(e2);
    vh::count("finite medians");
  } else if (std::isinf((long double)l) && std::isinf((long double)u)) { if (!(v[1] == 0)) bad(1, "0"); vh::count("whole lines"); }
  else { if (!(l <= v[1] && v[1] <= u)) bad(1, "inside the interval"); vh::count("half lines"); }
  // widen
  { vh::op("widen"); I z; { Mode mm(m); z = F<I>::wid(a, t); }
    M p, q; mpfr_sub(p.v, M(l).v, M(t).v, MPFR_RNDD); mpfr_add(q.v, M(u).v, M(t).v, MPFR_RNDU);
    vh::eval();
    if (!(z.lower() == mp::rd<T>(p) && z.upper() == mp::ru<T>(q))) vh::fail("widen" + suf, "widen of " + x.s() + " by " + gen::str(t) + " = " + istr(z) + ", should be " + B<T>{mp::rd<T>(p), mp::ru<T>(q)}.s()); }
  if (r.below(20000) == 0) vh::sample(suf + " " + x.s() + vh::fmt(" width=%La median=%La norm=%La", (long double)v[0], (long double)v[1], (long double)v[2]));
}
#endif
#ifndef SCALARS
// integers of every magnitude
template<class T> static T anyint(Rng &r, const T *near) {
  typedef std::numeric_limits<T> L;
  if (near && r.chance(1, 3)) { T v = near[r.below(2)]; switch (r.below(3)) { case 0: return v; case 1: return v < L::max() ? T(v + 1) : v; default: return v > L::min() ? T(v - 1) : v; } }
  switch (r.below(6)) {
  case 0: return T(L::max() - (T)r.below(3)); case 1: return T(L::min() + (T)r.below(3)); case 2: return T((long long)r.below(5) - (L::is_signed ? 2 : 0));
  case 3: return T(T(1) << r.below(L::digits)); case 4: return T(L::max() / 2 + (T)r.below(3)); default: return (T)r.next();
  }
}
template<class I, class J> static void ints1(Rng &r, const char *name, bool emp) {
  typedef typename I::base_type T;
  T v[5]; v[0] = anyint<T>(r, 0); v[1] = anyint<T>(r, 0); v[2] = anyint<T>(r, v); v[3] = r.chance(1, 6) ? v[2] : anyint<T>(r, v); v[4] = anyint<T>(r, v);
  E<T> x = {{std::min(v[0], v[1]), std::max(v[0], v[1])}, emp && r.chance(1, 12)}, y = {{std::min(v[2], v[3]), std::max(v[2], v[3])}, emp && r.chance(1, 12)};
  if (r.chance(1, 2)) std::swap(x, y);
  T t = v[4], s = v[0];
  I a = x.e ? I::empty() : I(x.b.l, x.b.u, true), b = y.e ? I::empty() : I(y.b.l, y.b.u, true); J j = y.e ? J::empty() : J(y.b.l, y.b.u, true);
  escape(a); escape(b); escape(j); escape(t);
  auto es = [&](const E<T> &q) { return q.e ? std::string("{}") : "[" + std::to_string(q.b.l) + "," + std::to_string(q.b.u) + "]"; };
  std::string suf = std::string("/") + name, ab = es(x) + " and " + es(y) + ", " + std::to_string(t);
  auto cmp = [&](const char *n, const I &g, const E<T> &w) { vh::eval(); bool e = pempty(g); if (e != w.e || (!e && !(g.lower() == w.b.l && g.upper() == w.b.u))) vh::fail(n + suf, std::string(n) + " of " + ab + " = " + es(E<T>{{g.lower(), g.upper()}, e}) + ", should be " + es(w)); };
  typedef F<I> G;
  E<T> w, et = {{t, t}, false}, e2 = {{s, s}, false}; w.e = x.e || y.e; w.b.l = std::max(x.b.l, y.b.l); w.b.u = std::min(x.b.u, y.b.u); if (!(w.b.l <= w.b.u)) w.e = true;
  vh::op("intersect");
  if (emp || !w.e) cmp("intersect", G::inter(a, b), w);
  else { bool th = false; try { G::inter(a, b); } catch (const std::runtime_error &) { th = true; } vh::eval(); if (!th) vh::fail("intersect" + suf, "intersect of " + ab + " is empty but did not raise the policy's exception"); }
  vh::op("hull");
  cmp("hull", G::hull_(a, b), mk_hull(x, y)); cmp("hull(x,t)", G::hull_(a, t), mk_hull(x, et)); cmp("hull(t,x)", G::hull_(t, a), mk_hull(x, et)); cmp("I::hull", G::shull(s, t), mk_hull(e2, et));
  for (int p = 0; p < 8; ++p) { vh::op(PN[p]); vh::eval(); bool g = G::pred(p, a, b, t); if (g != want<T>(p, x, y, t, false)) vh::fail(PN[p] + suf, std::string(PN[p]) + " of " + ab + " gives " + (g ? "true" : "false")); }
  vh::eval();
  if (equal(a, j) != want<T>(4, x, y, t, false) || subset(j, a) != want<T>(5, y, x, t, false) || proper_subset(a, j) != want<T>(6, x, y, t, false) || overlap(j, a) != want<T>(7, x, y, t, false)) vh::fail("mixed" + suf, "predicates of " + ab + " with different policies");
  vh::count("integer sets"); vh::nontrivial(vh::mix((uint64_t)x.b.l) ^ vh::mix((uint64_t)x.b.u * 3) ^ vh::mix((uint64_t)y.b.l * 5) ^ (uint64_t)y.b.u ^ vh::hstr(name));
}
template<class T> static void ints(Rng &r, const char *name) {
  typedef bn::interval<T> S; typedef bn::interval<T, il::policies<il::rounded_math<T>, il::checking_base<T> > > A;
  if (r.chance(1, 2)) ints1<S, A>(r, name, false); else ints1<A, A>(r, name, true);
}
VH_GROUP(in, "integers", 400000, 6000000) { switch (idx % 6) { case 0: ints<int>(r, "int"); break; case 1: ints<unsigned>(r, "unsigned"); break; case 2: ints<long long>(r, "long long"); break; case 3: ints<short>(r, "short"); break; case 4: ints<signed char>(r, "signed char"); break; default: ints<unsigned long>(r, "unsigned long"); } }
#endif
template<class T> static void all(Rng &r) {
  typedef Pol<T> P;
  switch (r.below(4)) {
  case 0: one<typename P::A, typename P::U>(r, "base", true, true, false); break;
  case 1: one<typename P::S, typename P::A>(r, "default", false, false, true); break;
  case 2: one<typename P::U, typename P::A>(r, "user", true, true, false); break;
  default: one<typename P::N, typename P::U>(r, "no_empty,std", false, false, true); break;
  }
}
VH_GROUP(f, "float", 500000, 10000000) { (void)idx; all<float>(r); }
VH_GROUP(d, "double", 500000, 10000000) { (void)idx; all<double>(r); }
VH_GROUP(l, "ldouble", 300000, 5000000) { (void)idx; all<long double>(r); }
