// P24: the x87 rounding back ends themselves, regular and fast (built with -mfpmath=387 -include x87.hpp).
#include "mp.hpp"
#include "lib.hpp"
#include <boost/numeric/interval/ext/x86_fast_rounding_control.hpp>
#include <stdexcept>
using gen::B; using vh::Rng; using mp::H;

static unsigned short fcw() { unsigned short c; asm volatile("fnstcw %0" : "=m"(c)); return c; }
static void setcw(unsigned short c) { asm volatile("fldcw %0" : : "m"(c)); }
static const int DIR[4] = {0, 1, 2, 3}; // nearest, down, up, zero: bits 10-11 of the control word
static const unsigned MASK = 0x0f3f;

template<class T> struct Pc;
template<> struct Pc<float> { enum { v = 0 }; };
template<> struct Pc<double> { enum { v = 2 }; };
template<> struct Pc<long double> { enum { v = 3 }; };

template<class T> struct throwing_create : il::checking_base<T> {
  static T empty_lower() { throw std::runtime_error("empty"); }
  static T empty_upper() { throw std::runtime_error("empty"); }
};
template<class T, class Rn> struct Ty {
  typedef bn::interval<T, il::policies<Rn, il::checking_base<T> > > I;
  typedef bn::interval<T, il::policies<Rn, throwing_create<T> > > X;
};
template<class T> struct Rs {
  typedef il::rounding_control<T> C;
  typedef il::x86_fast_rounding_control<T> FC;
  typedef il::save_state<il::rounded_arith_opp<T, FC> > FOpp;
  typedef il::save_state<il::rounded_arith_std<T, FC> > FStd;
  typedef il::save_state<il::rounded_arith_opp<T, C> > Opp;
  typedef il::save_state<il::rounded_arith_std<T, C> > Std;
};
// ------------------------------------------------------------ control words
template<class C, class T> NOIPA static void setdir(int d) { C c; (void)c; switch (d) { case 0: C::to_nearest(); break; case 1: C::downward(); break; case 2: C::upward(); break; default: C::toward_zero(); } }
template<class T, class C> static void words(const char *n, unsigned pc, Rng &r) {
  std::string key = std::string("control word ") + n + "/" + gen::Tn<T>::name();
  unsigned short before = 0x033f | 0x40 | (unsigned short)(r.below(4) << 10);
  if (r.chance(1, 2)) before = (before & ~0x300) | 0x200;
  setcw(before);
  typename C::rounding_mode m; C::get_rounding_mode(m);
  int d = r.below(4);
  setdir<C, T>(d);
  unsigned short in = fcw();
  C::set_rounding_mode(m);
  unsigned short after = fcw();
  setcw(0x037f);
  vh::eval();
  if (((in >> 10) & 3u) != (unsigned)DIR[d]) vh::fail(key + " direction", vh::fmt("%s direction %d: control word %04x", key.c_str(), d, in));
  if (((in >> 8) & 3u) != pc) vh::fail(key + " precision", vh::fmt("%s direction %d: control word %04x, wanted precision %u", key.c_str(), d, in, pc));
  if ((in & 0x3f) != 0x3f) vh::fail(key + " exceptions unmasked", vh::fmt("%s direction %d: control word %04x", key.c_str(), d, in));
  if ((after & MASK) != (before & MASK)) vh::fail(key + " not restored", vh::fmt("%s: %04x before, %04x after set(get)", key.c_str(), before, after));
  vh::nontrivial(vh::hstr(key.c_str()) ^ d ^ (uint64_t)before << 20); vh::count("control words read back");
}
// ------------------------------------------------------------ rounding to integers
template<class T, class Rn> NOIPA static void both_int(T x, T *o) { Rn r; o[0] = r.int_down(x); o[1] = r.int_up(x); }
template<class T, class Rn> NOIPA static void both_int2(T x, T *o) { Rn r; o[1] = r.int_up(x); o[0] = r.int_down(x); }
template<class T, class Rn> NOIPA static void one_int(T x, T *o) { { Rn r; o[0] = r.int_down(x); } { Rn r; o[1] = r.int_up(x); } }
template<class C, class T> NOIPA static T dir_int(int d, const T &x) { setdir<C, T>(d); T v = C::to_int(x); return v; }
template<class T> static T intarg(Rng &r) {
  switch (r.below(6)) {
    case 0: return gen::fin<T>(r);
    case 1: return T((int64_t)r.below(2001) - 1000) / T(2);
    case 2: { T x = T((int64_t)r.below(2001) - 1000); return r.chance(1, 2) ? gen::up(x) : gen::down(x); }
    case 3: return std::ldexp(gen::mant<T>(r), (int)r.below(std::numeric_limits<T>::digits + 4) - 3) * (r.chance(1, 2) ? 1 : -1);
    case 4: { static const T s[] = {T(0.5), T(-0.5), T(1.5), T(-1.5), T(0), T(-0.0), T(2.5), T(-2.5), T(0.25), T(-0.75)}; return s[r.below(10)]; }
    default: return (T)((int64_t)r.below(1u << 20) - (1 << 19)) / T(8);
  }
}
template<class T, class Rn> static void toint(Rng &r, const char *n) {
  T x = intarg<T>(r), o[2], lo, up; escape(x);
  static const int MODES[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
  int m = MODES[r.below(4)];
  std::fesetround(m);
  unsigned short b = fcw();
  switch (r.below(3)) { case 0: both_int<T, Rn>(x, o); break; case 1: both_int2<T, Rn>(x, o); break; default: one_int<T, Rn>(x, o); }
  unsigned short a = fcw(); std::fesetround(FE_TONEAREST); setcw(0x037f);
  mp::M v(x), f, c; mpfr_floor(f.v, v.v); mpfr_ceil(c.v, v.v); lo = mp::rd<T>(f); up = mp::ru<T>(c);
  std::string key = std::string("int_down/int_up ") + n + "/" + gen::Tn<T>::name();
  vh::eval();
  if (o[0] != lo || o[1] != up) vh::fail(key, key + " x=" + gen::str(x) + " gave " + gen::str(o[0]) + " " + gen::str(o[1]));
  if ((a & MASK) != (b & MASK)) vh::fail(key + " control word", vh::fmt("%s: %04x before, %04x after", key.c_str(), b, a));
  if (lo != up) vh::nontrivial(gen::bits(x) ^ vh::hstr(key.c_str())), vh::count("roundings to integers");
}
template<class T, class C> static void toint_dir(Rng &r, const char *n) {
  T x = intarg<T>(r); escape(x); int d = r.below(4);
  T got = dir_int<C, T>(d, x); setcw(0x037f);
  mp::M v(x), w; static const mpfr_rnd_t RN[4] = {MPFR_RNDN, MPFR_RNDD, MPFR_RNDU, MPFR_RNDZ};
  mpfr_rint(w.v, v.v, RN[d]);
  if (d == 0) mpfr_roundeven(w.v, v.v);
  T want = mp::rd<T>(w); vh::eval();
  std::string key = std::string("to_int ") + n + "/" + gen::Tn<T>::name();
  if (got != want) vh::fail(key, vh::fmt("%s direction %d x=%s gave %s instead of %s", key.c_str(), d, gen::str(x).c_str(), gen::str(got).c_str(), gen::str(want).c_str()));
  if (want != x) vh::nontrivial(gen::bits(x) ^ vh::hstr(key.c_str()) ^ d);
}
// ------------------------------------------------------------ arithmetic with the fast back end
template<class I> struct G { typedef typename I::base_type T;
  static NOIPA I add(const I &x, const I &y) { return x + y; }
  static NOIPA I sub(const I &x, const I &y) { return x - y; }
  static NOIPA I mul(const I &x, const I &y) { return x * y; }
  static NOIPA I div(const I &x, const I &y) { return x / y; }
  static NOIPA I addt(const I &x, const T &y) { return x + y; }
  static NOIPA I subt(const I &x, const T &y) { return x - y; }
  static NOIPA I mult(const I &x, const T &y) { return x * y; }
  static NOIPA I divt(const I &x, const T &y) { return x / y; }
  static NOIPA I tadd(const T &x, const I &y) { return x + y; }
  static NOIPA I tsub(const T &x, const I &y) { return x - y; }
  static NOIPA I tmul(const T &x, const I &y) { return x * y; }
  static NOIPA I tdiv(const T &x, const I &y) { return x / y; }
  static NOIPA I addtt(const T &x, const T &y) { return il::add<I>(x, y); }
  static NOIPA I multt(const T &x, const T &y) { return il::mul<I>(x, y); }
  static NOIPA I divtt(const T &x, const T &y) { return il::div<I>(x, y); }
  static NOIPA I sq(const I &x) { return square(x); }
  static NOIPA I sr(const I &x) { return sqrt(x); }
  static NOIPA I ab(const I &x) { return abs(x); }
  static NOIPA I ng(const I &x) { return -x; }
  static NOIPA I pw(const I &x, int n) { return pow(x, n); }
};
template<class T> static T moderate(Rng &r) {
  switch (r.below(6)) {
    case 0: return T((int64_t)r.below(41) - 20);
    case 1: return T(r.chance(1, 2) ? 1 : -1) / T(1 + r.below(100));
    case 2: return T(0);
    default: return std::ldexp(gen::mant<T>(r), (int)r.below(40) - 20) * (r.chance(1, 2) ? 1 : -1);
  }
}
template<class T> static B<T> miv(Rng &r) { T a = moderate<T>(r), b = r.chance(1, 6) ? a : r.chance(1, 4) ? gen::up(a) : moderate<T>(r); if (b && std::fabs(b) < T(1e-20)) b = 0; return gen::ord(a, b); }
template<class T> static H hi_pow(T l, T u, int n) { return mp::h_pow<T>(l, u, n); }

template<class T, class Rn> static void fast(Rng &r, const char *n) {
  typedef typename Ty<T, Rn>::I I; typedef G<I> g;
  B<T> x = miv<T>(r), y = miv<T>(r);
  int k = r.below(20); H h;
  if (k >= 8 && k <= 14) x.u = x.l;
  if ((k >= 4 && k <= 7) || (k >= 12 && k <= 14)) y.u = y.l;
  switch (k) { case 0: case 4: case 8: case 12: h = mp::h_add<T>(x.l, x.u, y.l, y.u); break;
    case 1: case 5: case 9: h = mp::h_sub<T>(x.l, x.u, y.l, y.u); break;
    case 2: case 6: case 10: case 13: h = mp::h_mul<T>(x.l, x.u, y.l, y.u); break;
    case 3: case 7: case 11: case 14: h = mp::h_div<T>(x.l, x.u, y.l, y.u); break;
    case 15: h = mp::h_square<T>(x.l, x.u); break; case 16: h = mp::h_sqrt<T>(x.l, x.u); break;
    case 17: h = mp::h_abs<T>(x.l, x.u); break; case 18: h = mp::h_pts<T>(-x.u, -x.l); break;
    default: h = hi_pow<T>(x.l, x.u, 3); }
  I X = mk<I>(x), Y = mk<I>(y), res; escape(X); escape(Y);
  static const int MODES[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
  std::fesetround(MODES[r.below(4)]); unsigned short b = fcw();
  if (r.chance(1, 3)) { b = (b & ~0x300) | (unsigned short)(r.chance(1, 2) ? 0x200 : 0); setcw(b); }
  switch (k) { case 0: res = g::add(X, Y); break; case 1: res = g::sub(X, Y); break; case 2: res = g::mul(X, Y); break; case 3: res = g::div(X, Y); break;
    case 4: res = g::addt(X, y.l); break; case 5: res = g::subt(X, y.l); break; case 6: res = g::mult(X, y.l); break; case 7: res = g::divt(X, y.l); break;
    case 8: res = g::tadd(x.l, Y); break; case 9: res = g::tsub(x.l, Y); break; case 10: res = g::tmul(x.l, Y); break; case 11: res = g::tdiv(x.l, Y); break;
    case 12: res = g::addtt(x.l, y.l); break; case 13: res = g::multt(x.l, y.l); break; case 14: res = g::divtt(x.l, y.l); break;
    case 15: res = g::sq(X); break; case 16: res = g::sr(X); break; case 17: res = g::ab(X); break; case 18: res = g::ng(X); break;
    default: res = g::pw(X, 3); }
  unsigned short a = fcw(); std::fesetround(FE_TONEAREST); setcw(0x037f);
  static const char *N[20] = {"+", "-", "*", "/", "+t", "-t", "*t", "/t", "t+", "t-", "t*", "t/", "add", "mul", "div", "square", "sqrt", "abs", "neg", "pow3"};
  std::string key = std::string(n) + " " + N[k] + "/" + gen::Tn<T>::name();
  std::string what = key + " " + x.s() + " " + y.s();
  if ((a & MASK) != (b & MASK)) vh::fail(key + " control word", vh::fmt("%s: %04x before, %04x after", what.c_str(), b, a));
  if (h.empty) { vh::eval(); if (k == 16 && !isempty(res)) vh::fail(key + " not empty", what); return; }
#ifdef EXACTPC
  if (k == 19) mp::encl<T>(key, what, res.lower(), res.upper(), h, isempty(res));
  else mp::tight<T>(key, what, res.lower(), res.upper(), h, isempty(res));
#else
  mp::encl<T>(key, what, res.lower(), res.upper(), h, isempty(res));
#endif
  vh::nontrivial(gen::hash(x) ^ vh::mix(gen::hash(y)) ^ vh::hstr(key.c_str()));
  vh::count("interval operations under precision control");
}
// ------------------------------------------------------------ exceptional exit
template<class X> NOIPA static void boom(const X &x, int k) {
  X z; switch (k) { case 0: z = sqrt(x); break; case 1: z = x / X(0); break; case 2: z = nth_root(x, 4); break; default: z = intersect(x, X(5)); }
}
template<class T, class Rn> static void exits(Rng &r, const char *n) {
  typedef typename Ty<T, Rn>::X X;
  X x(T(-3), T(-1)); escape(x); bool threw = false; int k = r.below(4);
  static const int MODES[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
  std::fesetround(MODES[r.below(4)]); unsigned short b = fcw();
  if (r.chance(1, 2)) { b = (b & ~0x300) | 0x200; setcw(b); }
  try { boom(x, k); } catch (std::exception &) { threw = true; }
  unsigned short a = fcw(); std::fesetround(FE_TONEAREST); setcw(0x037f);
  std::string key = std::string(n) + vh::fmt(" exception %d", k) + "/" + gen::Tn<T>::name(); vh::eval();
  if (!threw) vh::fail(key + " no exception", key);
  if ((a & MASK) != (b & MASK)) vh::fail(key + " control word", vh::fmt("%s: %04x before, %04x after", key.c_str(), b, a));
  vh::nontrivial(vh::hstr(key.c_str()) ^ (uint64_t)b << 20); vh::count("exceptional exits");
}
template<class T> static void group(Rng &r) {
  typedef Rs<T> R;
  switch (r.below(10)) {
    case 0: r.chance(1, 2) ? words<T, typename R::FC>("fast", Pc<T>::v, r) : words<T, typename R::C>("regular", 3, r); break;
    case 1: r.chance(1, 2) ? toint<T, typename R::Opp>(r, "opp") : toint<T, typename R::FOpp>(r, "fast opp"); break;
#ifdef STDP
    case 2: r.chance(1, 2) ? toint<T, typename R::Std>(r, "std") : toint<T, typename R::FStd>(r, "fast std"); break;
#else
    case 2: toint<T, typename R::Std>(r, "std"); break;
#endif
    case 3: r.chance(1, 2) ? toint_dir<T, typename R::C>(r, "regular") : toint_dir<T, typename R::FC>(r, "fast"); break;
    case 4: r.chance(1, 2) ? exits<T, typename R::FOpp>(r, "fast opp") : exits<T, typename R::Opp>(r, "opp"); break;
#ifdef STDP
    case 5: case 6: fast<T, typename R::FStd>(r, "fast std"); break;
#endif
    default: fast<T, typename R::FOpp>(r, "fast opp");
  }
}
VH_GROUP(f, "float", 300000, 6000000) { group<float>(r); }
VH_GROUP(d, "double", 300000, 6000000) { group<double>(r); }
VH_GROUP(l, "ldouble", 300000, 6000000) { group<long double>(r); }
