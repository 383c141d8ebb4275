// P16: constructors, assignments, conversions give the tightest enclosure.
#include "mp.hpp"
#include "lib.hpp"
#include "tr.hpp"
#include <climits>
using gen::B; using vh::Rng; using mp::M;

template<class U> struct Nm;
#define NM(U) template<> struct Nm<U> { static const char *n() { return #U; } };
NM(bool) NM(char) NM(signed char) NM(unsigned char) NM(wchar_t) NM(char16_t) NM(char32_t) NM(short) NM(unsigned short) NM(int) NM(unsigned) NM(long) NM(unsigned long)
NM(long long) NM(unsigned long long) NM(float) NM(double) NM(long double)

// a value of type U that is interesting when rounded to another type
template<class U> typename std::enable_if<std::is_integral<U>::value, U>::type value(Rng &r) {
  typedef std::numeric_limits<U> L;
  if (std::is_same<U, bool>::value) return (U)r.below(2);
  switch (r.below(8)) {
  case 0: return L::max() - (U)r.below(3);
  case 1: return L::min() + (U)r.below(3);
  case 2: return (U)(L::max() >> r.below(L::digits)) ;
  case 3: { U v = (U)(U(1) << r.below(L::digits)); v = (U)(v + (U)r.below(3) - 1); return L::is_signed && r.chance(1, 2) ? (U)(0 - (long long)v) : v; }
  case 4: { // 25 or 54 bits, the last ones set: half-way cases and neighbours of floats, doubles
    int k = r.chance(1, 2) ? 24 : 53; if (k >= L::digits) k = L::digits - 1;
    unsigned long long v = (1ull << k) | (r.next() & ((1ull << k) - 1)); v = v * 4 + r.below(4);
    v = r.chance(1, 3) ? (v & ~7ull) | r.below(8) : v;
    if (L::digits < 64) v &= (1ull << L::digits) - 1;
    return L::is_signed && r.chance(1, 2) ? (U)(0 - (long long)v) : (U)v; }
  case 5: return (U)r.below(20);
  default: { unsigned long long v = r.next() >> r.below(64); return (U)v; }
  }
}
template<class U> typename std::enable_if<!std::is_integral<U>::value, U>::type value(Rng &r) {
  if (r.chance(1, 32)) { vh::count("infinite sources"); U v = std::numeric_limits<U>::infinity(); return r.chance(1, 2) ? v : -v; }
  switch (r.below(6)) {
  case 0: return (U)gen::fin<float>(r);
  case 1: { double d = gen::fin<double>(r); U v = (U)d; return std::isfinite(v) ? v : std::numeric_limits<U>::max(); }
  case 2: { U v = (U)gen::fin<float>(r); return gen::nearb(r, v); }
  case 3: { U v = (U)(double)gen::fin<float>(r); for (int k = r.below(2); k-- > 0;) v = v * (U)1.00000000000001L; return std::isfinite(v) ? v : U(1); }
  case 4: { U v = r.chance(1, 2) ? (U)std::numeric_limits<float>::max() : (U)(sizeof(U) >= 8 ? std::numeric_limits<double>::max() : 1e38); v = gen::nearb(r, v); return r.chance(1, 2) ? v : -v; }
  default: return gen::fin<U>(r);
  }
}

static void set_mode(int k) { static const int m[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO}; std::fesetround(m[k]); }
template<class I> struct Res { typename I::base_type l, u; bool threw; };
template<class I> Res<I> res(const I &x) { return Res<I>{x.lower(), x.upper(), false}; }

template<class I, class U> NOIPA Res<I> c_ctor(const U &v) { return res(I(v)); }
template<class I, class U> NOIPA Res<I> c_copyinit(const U &v) { I z = v; return res(z); }
template<class I> NOIPA Res<I> take(const I &x) { return res(x); }
template<class I, class U> NOIPA Res<I> c_arg(const U &v) { return take<I>(v); }
template<class I, class U> NOIPA Res<I> c_assign(const U &v) { I z(1, 2); escape(z); I &w = (z = v); Res<I> r = res(z); if (&w != &z) r.threw = true; return r; }
template<class I, class U, class V> NOIPA Res<I> c_pair(const U &a, const V &b) { return res(I(a, b)); }
template<class I, class U, class V> static Res<I> t_pair(const U &a, const V &b) { try { return c_pair<I, U, V>(a, b); } catch (const std::runtime_error &) { return Res<I>{1, 0, true}; } }
template<class I, class U> NOIPA Res<I> c_empty() { return res(I(U::empty())); }

template<class I> static void judge(const char *form, const std::string &src, const M &l, const M &u, const Res<I> &z, const char *tag, uint64_t h) {
  typedef typename I::base_type T;
  std::fesetround(FE_TONEAREST);
  vh::eval();
  vh::nontrivial(h ^ vh::hstr(form) ^ vh::hstr(tag));
  T bl = mp::rd<T>(l), bu = mp::ru<T>(u);
  if (z.threw || !(z.l == bl && z.u == bu))
    vh::fail(std::string(form) + "/" + tag, std::string(form) + " " + tag + " from " + src + " gives " + B<T>{z.l, z.u}.s() + ", the tightest is " + B<T>{bl, bu}.s());
}
template<class I, class U> static void scalar(Rng &r, const char *tag0) {
  std::string tag = std::string(tag0) + "<-" + Nm<U>::n();
  U v = value<U>(r), w = value<U>(r);
  if (w < v) std::swap(v, w);
  if (r.chance(1, 4)) w = v;
  escape(v); escape(w);
  M a((long double)v), b((long double)w);
  std::string sv = gen::str((long double)v), sw = sv + "," + gen::str((long double)w);
  uint64_t h = gen::bits((long double)v), g = h * 3 + gen::bits((long double)w);
  int m = r.below(4);
  tag += "";
  vh::op("conversion"); 
  Res<I> z;
  set_mode(m); z = c_ctor<I, U>(v); judge("I(v)", sv, a, a, z, tag.c_str(), h);
  set_mode(m); z = c_copyinit<I, U>(v); judge("I x = v", sv, a, a, z, tag.c_str(), h);
  set_mode(m); z = c_arg<I, U>(v); judge("implicit", sv, a, a, z, tag.c_str(), h);
  set_mode(m); z = c_assign<I, U>(v); judge("x = v", sv, a, a, z, tag.c_str(), h);
  set_mode(m); z = c_pair<I, U, U>(v, w); judge("I(v,w)", sw, a, b, z, tag.c_str(), g);
  if (r.below(3000) == 0) vh::sample("I(v,w) " + tag + " from " + sw + " -> " + B<typename I::base_type>{z.l, z.u}.s());
}
// two bounds of different types, whose comparison is exact
// w next to v, as far as their types allow
template<class U, class V> static void near(Rng &r, U v, V &w) {
  long double x = (long double)v + (int)r.below(5) - 2;
  if (std::numeric_limits<V>::is_integer && !(x >= (long double)std::numeric_limits<V>::min() && x <= (long double)std::numeric_limits<V>::max())) return;
  w = (V)x;
}
template<class I> static bool isempty2(const Res<I> &z) { return I::traits_type::checking::is_empty(z.l, z.u); }
template<class I, class U, class V> static void pair2(Rng &r, const char *tag0) {
  std::string tag = std::string(tag0) + "<-" + Nm<U>::n() + "," + Nm<V>::n();
  U v = value<U>(r); V w = value<V>(r);
  if (r.chance(1, 4)) near(r, v, w);
  escape(v); escape(w);
  if ((long double)v > (long double)w) { // whatever type the two are compared in
    set_mode(r.below(4));
    escape(v); escape(w);
    volatile bool alike = (std::is_floating_point<U>::value || std::is_floating_point<V>::value) && (typename std::common_type<U, V>::type)v <= (typename std::common_type<U, V>::type)w; // the language cannot tell
    Res<I> z = t_pair<I, U, V>(v, w); std::fesetround(FE_TONEAREST);
    vh::op("inverted pair"); vh::eval(); vh::count("inverted bounds of two types");
        if (!z.threw && (alike ? !(z.l <= z.u) && !isempty2<I>(z) : z.l <= z.u || !isempty2<I>(z))) vh::fail("inverted/" + tag, tag + "(" + gen::str((long double)v) + ", " + gen::str((long double)w) + ") is " + B<typename I::base_type>{z.l, z.u}.s() + ", inverted bounds must give the empty interval");
    return;
  }
  M a((long double)v), b((long double)w);
  int m = r.below(4);
  vh::op("pair");
  set_mode(m); Res<I> z = t_pair<I, U, V>(v, w);
  if (z.threw) { std::fesetround(FE_TONEAREST); vh::eval(); vh::fail("threw/" + tag, tag + "(" + gen::str((long double)v) + ", " + gen::str((long double)w) + ") threw"); return; }
  judge("I(v,w)", gen::str((long double)v) + "," + gen::str((long double)w), a, b, z, tag.c_str(), gen::bits((long double)v) * 3 + gen::bits((long double)w));
}
// from an interval type J
template<class I, class J> static void ivl(Rng &r, const char *tag, B<typename J::base_type> x) {
  typedef typename J::base_type U;
  J y(x.l, x.u, true); escape(y);
  M a((long double)x.l), b((long double)x.u);
  uint64_t h = gen::bits((long double)x.l) * 3 + gen::bits((long double)x.u);
  std::string s = "[" + gen::str((long double)x.l) + "," + gen::str((long double)x.u) + "]";
  int m = r.below(4);
  vh::op("interval conversion");
  Res<I> z;
  set_mode(m); z = c_ctor<I, J>(y); judge("I(interval)", s, a, b, z, tag, h);
  set_mode(m); z = c_copyinit<I, J>(y); judge("I x = interval", s, a, b, z, tag, h);
  set_mode(m); z = c_arg<I, J>(y); judge("implicit interval", s, a, b, z, tag, h);
  set_mode(m); z = c_assign<I, J>(y); judge("x = interval", s, a, b, z, tag, h);
  if (!(y.lower() == x.l && y.upper() == x.u)) vh::fail(std::string("source/") + tag, "conversion changed its source " + s);
}
template<class I, class J> static void emptycase(const char *tag) {
  vh::eval();
  J e = J::empty(); escape(e);
  I p(e), q(1, 2), s = e; q = e;
  Res<I> w = c_arg<I, J>(e);
  if (!isempty(p) || !isempty(q) || !isempty(s) || w.l <= w.u) vh::fail(std::string("empty/") + tag, std::string("conversion of an empty interval is not empty: ") + tag);
  if (!empty(p) || !empty(q)) vh::fail(std::string("empty/") + tag, std::string("not recognised as empty: ") + tag);
}
// inverted bounds, which the destination may not tell apart
template<class U> typename std::enable_if<std::is_integral<U>::value, U>::type below(Rng &r, U v) { unsigned k = 1 + r.below(3); return v > std::numeric_limits<U>::min() + (U)k ? (U)(v - k) : v; }
template<class U> typename std::enable_if<!std::is_integral<U>::value, U>::type below(Rng &r, U v) { for (int k = 1 + r.below(3); k > 0; --k) v = gen::down(v); return v; }
template<class I, class U> static void inverted(Rng &r, const char *tag) {
  U v = value<U>(r), w = r.chance(1, 2) ? below<U>(r, v) : value<U>(r);
  if (!(w < v)) return;
  escape(v); escape(w);
  set_mode(r.below(4));
  Res<I> z = c_pair<I, U, U>(v, w);
  std::fesetround(FE_TONEAREST);
  vh::eval(); vh::count("inverted bounds");
  vh::nontrivial(gen::bits((long double)v) * 5 + gen::bits((long double)w) + vh::hstr(tag));
  if (z.l <= z.u) vh::fail(std::string("inverted/") + tag + "<-" + Nm<U>::n(), std::string(tag) + "(" + gen::str((long double)v) + ", " + gen::str((long double)w) + ") is " + B<typename I::base_type>{z.l, z.u}.s() + ", inverted bounds must give the empty interval");
}
template<class T> B<T> src(Rng &r) {
  if (r.chance(1, 3)) return gen::ival<T>(r);
  T a = value<T>(r), b = r.chance(1, 3) ? a : value<T>(r);
  return gen::ord(a, b);
}
template<class U> B<U> isrc(Rng &r) { U a = value<U>(r), b = r.chance(1, 3) ? a : value<U>(r); return a <= b ? B<U>{a, b} : B<U>{b, a}; }

template<class I> static void dest(Rng &r, const char *tag, bool empties) {
  typedef typename I::base_type T;
  switch (r.below(32)) {
  case 0: scalar<I, bool>(r, tag); break;
  case 1: scalar<I, char>(r, tag); break;
  case 2: scalar<I, signed char>(r, tag); break;
  case 3: scalar<I, unsigned char>(r, tag); break;
  case 4: scalar<I, wchar_t>(r, tag); break;
  case 5: scalar<I, char32_t>(r, tag); break;
  case 6: scalar<I, short>(r, tag); break;
  case 7: scalar<I, unsigned short>(r, tag); break;
  case 8: case 9: scalar<I, int>(r, tag); break;
  case 10: case 11: scalar<I, unsigned>(r, tag); break;
  case 12: scalar<I, long>(r, tag); break;
  case 13: scalar<I, unsigned long>(r, tag); break;
  case 14: scalar<I, long long>(r, tag); break;
  case 15: scalar<I, unsigned long long>(r, tag); break;
  case 16: case 17: scalar<I, float>(r, tag); break;
  case 18: case 19: scalar<I, double>(r, tag); break;
  case 20: case 21: scalar<I, long double>(r, tag); break;
  case 22: pair2<I, float, double>(r, tag); pair2<I, double, float>(r, tag); pair2<I, double, long double>(r, tag); pair2<I, long double, float>(r, tag); break;
  case 23: pair2<I, int, double>(r, tag); pair2<I, double, int>(r, tag); pair2<I, short, unsigned short>(r, tag); pair2<I, int, long long>(r, tag); pair2<I, unsigned, unsigned long long>(r, tag); pair2<I, int, unsigned>(r, tag); pair2<I, unsigned, int>(r, tag); pair2<I, long long, unsigned long long>(r, tag); pair2<I, unsigned long, long>(r, tag); break;
  case 24: pair2<I, int, long double>(r, tag); pair2<I, long double, long long>(r, tag); pair2<I, unsigned char, int>(r, tag); pair2<I, unsigned, double>(r, tag); pair2<I, int, T>(r, tag); pair2<I, int, unsigned long long>(r, tag); pair2<I, unsigned, signed char>(r, tag); pair2<I, short, unsigned long>(r, tag); pair2<I, unsigned long long, float>(r, tag); pair2<I, int, float>(r, tag); pair2<I, float, long>(r, tag); pair2<I, long, double>(r, tag); pair2<I, double, unsigned long>(r, tag); break;
  case 25: ivl<I, typename Types<float>::B>(r, (std::string(tag) + "<-base float").c_str(), src<float>(r)); ivl<I, typename Types<float>::S>(r, (std::string(tag) + "<-float").c_str(), src<float>(r)); break;
  case 26: case 27: ivl<I, typename Types<double>::B>(r, (std::string(tag) + "<-base double").c_str(), src<double>(r)); ivl<I, typename Types<double>::S>(r, (std::string(tag) + "<-double").c_str(), src<double>(r)); break;
  case 28: case 29: ivl<I, typename Types<long double>::B>(r, (std::string(tag) + "<-base ldouble").c_str(), src<long double>(r)); ivl<I, typename Types<long double>::S>(r, (std::string(tag) + "<-ldouble").c_str(), src<long double>(r)); break;
  case 30: ivl<I, bn::interval<int> >(r, (std::string(tag) + "<-int interval").c_str(), isrc<int>(r)); ivl<I, bn::interval<long long> >(r, (std::string(tag) + "<-llong interval").c_str(), isrc<long long>(r));
    ivl<I, bn::interval<T, il::policies<tr::Rnd<T>, il::checking_no_nan<T> > > >(r, (std::string(tag) + "<-other policies").c_str(), src<T>(r)); break;
  default: {
    // plain copies and the special values
    B<T> x = gen::ival<T>(r);
    T l = x.l, u = x.u; escape(l); escape(u);
    M a(l), b(u);
    uint64_t h = gen::hash(x);
    set_mode(r.below(4));
    judge("I(l,u)", x.s(), a, b, c_pair<I, T, T>(l, u), tag, h);
    judge("I(l)", x.s(), a, a, c_ctor<I, T>(l), tag, h);
    judge("x=l", x.s(), a, a, c_assign<I, T>(l), tag, h);
    I z(l, u); escape(z); I w = z; I v; v = w; std::swap(v, w);
    judge("copy", x.s(), a, b, res(w), tag, h);
    I q; escape(q);
    vh::eval(); if (!(q.lower() == 0 && q.upper() == 0)) vh::fail(std::string("default/") + tag, "I() is " + istr(q));
    I t = I::whole(); vh::eval(); if (!(t.lower() == -gen::inf<T>() && t.upper() == gen::inf<T>())) vh::fail(std::string("whole/") + tag, "whole is " + istr(t));
    I as; as.assign(l, u); judge("assign", x.s(), a, b, res(as), tag, h);
    if (empties) {
      inverted<I, int>(r, tag); inverted<I, long>(r, tag); inverted<I, unsigned long long>(r, tag);
      inverted<I, float>(r, tag); inverted<I, double>(r, tag); inverted<I, long double>(r, tag);
      T nan = std::numeric_limits<T>::quiet_NaN(); escape(nan);
      vh::eval(6);
      I p(nan), s(1, 2), e = I::empty(), n1(nan, u), n2(l, nan), inv(1, -1);
      s = nan; I y(1, 2); y.assign(nan, u); I y2(1, 2); y2.assign(3, 2);
      if (!isempty(p) || !isempty(s) || !isempty(e) || !isempty(n1) || !isempty(n2) || !isempty(inv) || !isempty(y) || !isempty(y2))
        vh::fail(std::string("invalid/") + tag, "an invalid number or inverted bounds do not give the empty interval");
      float nf = std::numeric_limits<float>::quiet_NaN(); double nd = nf; long double nl = nf; escape(nf); escape(nd); escape(nl);
      I f1(nf), d1(nd), l1(nl), f2(nf, 1.f), d2(1., nd), l3(nl, 2.f), a1(1, 2), a2(1, 2), i1(5, 3), i2(2.5f, 1.5), i3(7ll, 6ll);
      a1 = nf; a2 = nl;
      if (!isempty(f1) || !isempty(d1) || !isempty(l1) || !isempty(f2) || !isempty(d2) || !isempty(l3) || !isempty(a1) || !isempty(a2) || !isempty(i1) || !isempty(i2) || !isempty(i3))
        vh::fail(std::string("invalid other type/") + tag, "an invalid number or inverted bounds of another type do not give the empty interval");
      emptycase<I, typename Types<float>::B>(tag); emptycase<I, typename Types<double>::B>(tag); emptycase<I, typename Types<long double>::B>(tag);
      emptycase<I, bn::interval<T, il::policies<il::rounded_math<T>, il::checking_catch_nan<T> > > >(tag);
    }
  } }
}
template<class T> struct P {
  typedef typename Types<T>::S S; typedef typename Types<T>::B B_;
  typedef bn::interval<T, il::policies<il::save_state<il::rounded_transc_std<T, il::rounded_arith_std<T> > >, il::checking_base<T> > > STD;
  typedef bn::interval<T, il::policies<tr::Rnd<T>, il::checking_base<T> > > TRN;
};
#ifdef STDP
VH_GROUP(f3, "std.float", 400000, 8000000) { (void)idx; dest<P<float>::STD>(r, "std float", true); }
VH_GROUP(d3, "std.double", 400000, 8000000) { (void)idx; dest<P<double>::STD>(r, "std double", true); }
VH_GROUP(l3, "std.ldouble", 200000, 4000000) { (void)idx; dest<P<long double>::STD>(r, "std ldouble", true); }
#else
VH_GROUP(f1, "float", 600000, 12000000) { (void)idx; dest<P<float>::S>(r, "float", false); }
VH_GROUP(d1, "double", 600000, 12000000) { (void)idx; dest<P<double>::S>(r, "double", false); }
VH_GROUP(l1, "ldouble", 200000, 4000000) { (void)idx; dest<P<long double>::S>(r, "ldouble", false); }
VH_GROUP(f2, "base.float", 400000, 8000000) { (void)idx; dest<P<float>::B_>(r, "base float", true); }
VH_GROUP(d2, "base.double", 400000, 8000000) { (void)idx; dest<P<double>::B_>(r, "base double", true); }
VH_GROUP(l2, "base.ldouble", 200000, 4000000) { (void)idx; dest<P<long double>::B_>(r, "base ldouble", true); }
VH_GROUP(d4, "tr.double", 100000, 2000000) { (void)idx; dest<P<double>::TRN>(r, "tr double", true); }
#endif
