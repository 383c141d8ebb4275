// P06: elementary functions enclose the exact image.
// P07 (-DDOM): functions with a restricted domain clip to it.
// P08 (-DFMOD): fmod subtracts one integer multiple.
#include "tr.hpp"
using vh::Rng; using gen::B; using mp::M; using mp::H;
using tr::NFN;

static const mpfr_prec_t HP = 256;
// compilers that optimise merge a*b computed in two rounding modes (policies
// that switch modes are monitored without optimisation)
#ifdef __OPTIMIZE__
static const bool OPTIMISED = true;
#else
static const bool OPTIMISED = false;
#endif

// precision that resolves x modulo pi
template<class T> static mpfr_prec_t need(T x) {
  int e = 0; if (x != 0 && std::isfinite((long double)x)) std::frexp(x, &e);
  mpfr_prec_t p = HP + (e > 0 ? e : 0);
  return p;
}
// floor((x - off*pi/2) / (period*pi/2)) exactly
template<class T> static void fl(mpfr_t out, T x, int off, int period) {
  mpfr_prec_t p = need(x);
  mpfr_t pi, q; mpfr_init2(pi, p); mpfr_init2(q, p);
  mpfr_const_pi(pi, MPFR_RNDN); mpfr_div_2ui(pi, pi, 1, MPFR_RNDN);
  mpfr_set_ld(q, x, MPFR_RNDN);
  mpfr_div(q, q, pi, MPFR_RNDN);
  mpfr_sub_si(q, q, off, MPFR_RNDN);
  mpfr_div_si(q, q, period, MPFR_RNDN);
  mpfr_set_prec(out, p); mpfr_floor(out, q);
  mpfr_clear(pi); mpfr_clear(q);
}
// is there an integer k with a <= (off + k*period)*pi/2 <= b ?
template<class T> static bool contains(T a, T b, int off, int period) {
  if (std::isinf((long double)a) || std::isinf((long double)b)) return true;
  if (off == 0 && a <= 0 && b >= 0) return true;
  mpfr_t x, y; mpfr_init2(x, 64); mpfr_init2(y, 64);
  fl(x, a, off, period); fl(y, b, off, period);
  bool r = !mpfr_equal_p(x, y);
  mpfr_clear(x); mpfr_clear(y);
  return r;
}
// exact images; `pole` says the image is the whole line
template<class T> static H image(int f, T l, T u, bool &pole) {
  H h; M a, b, one(1.0), mone(-1.0);
  pole = false;
  mp::Op1 g = tr::mpfn(f);
  switch (f) {
  case tr::SIN: case tr::COS: {
    int off = f == tr::SIN ? 1 : 0; // maxima at off*pi/2 + 2 k pi
    if (std::isfinite((long double)l)) { g(a.v, M(l).v, MPFR_RNDD); g(b.v, M(l).v, MPFR_RNDU); h.add(a, b); }
    if (std::isfinite((long double)u)) { g(a.v, M(u).v, MPFR_RNDD); g(b.v, M(u).v, MPFR_RNDU); h.add(a, b); }
    if (contains(l, u, off, 4)) h.add(one, one);
    if (contains(l, u, off + 2, 4)) h.add(mone, mone);
    return h; }
  case tr::TAN:
    if (contains(l, u, 1, 2)) { pole = true; M pi, ni; mpfr_set_inf(pi.v, 1); mpfr_set_inf(ni.v, -1); h.add(ni, pi); return h; }
    mp::mono(h, g, M(l), M(u)); return h;
  case tr::ACOS:
    if (u < -1 || l > 1) return h;
    if (l < -1) l = -1; if (u > 1) u = 1;
    mp::anti(h, g, M(l), M(u)); return h;
  case tr::ASIN: case tr::ATANH:
    if (u < -1 || l > 1) return h;
    if (l < -1) l = -1; if (u > 1) u = 1;
    mp::mono(h, g, M(l), M(u)); return h;
  case tr::LOG:
    if (!(u > 0)) return h;
    if (l < 0) l = 0; if (l == 0) l = 0;
    mp::mono(h, g, M(l), M(u)); return h;
  case tr::ACOSH:
    if (u < 1) return h;
    if (l < 1) l = 1;
    mp::mono(h, g, M(l), M(u)); return h;
  case tr::COSH:
    if (l <= 0 && u >= 0) { H p; mp::mono(p, g, M(T(0)), M(std::fabs(l) > u ? std::fabs(l) : u)); return p; }
    if (u < 0) mp::anti(h, g, M(l), M(u)); else mp::mono(h, g, M(l), M(u));
    return h;
  default:
    mp::mono(h, g, M(l), M(u)); return h;
  }
}
template<class I> static NOIPA I call(int f, const I &x) {
  switch (f) {
  case tr::EXP: return exp(x); case tr::LOG: return log(x); case tr::SIN: return sin(x); case tr::COS: return cos(x); case tr::TAN: return tan(x);
  case tr::ASIN: return asin(x); case tr::ACOS: return acos(x); case tr::ATAN: return atan(x); case tr::SINH: return sinh(x); case tr::COSH: return cosh(x);
  case tr::TANH: return tanh(x); case tr::ASINH: return asinh(x); case tr::ACOSH: return acosh(x); default: return atanh(x);
  }
}
template<class T> struct StdRnd : il::save_state<tr::MpTransc<T, il::rounded_arith_std<T> > > {};
template<class T> struct Ty {
  typedef bn::interval<T, il::policies<tr::Rnd<T>, il::checking_base<T> > > I;
  typedef bn::interval<T, il::policies<StdRnd<T>, il::checking_base<T> > > J;
  typedef bn::interval<T, il::policies<tr::Rnd<T>, il::checking_strict<T> > > S;
  typedef bn::interval<T, il::policies<StdRnd<T>, il::checking_no_empty<T> > > N;
};
// numbers near multiples of pi/4
template<class T> static T nearpi(Rng &r) {
  static const long double q = 0.785398163397448309615660845819875721L;
  int big = r.below(5);
  long double k = big == 0 ? (long double)(r.next() >> r.range(20, 60)) : (long double)r.range(-20, 20);
  T x = (T)(k * q);
  int n = r.below(4);
  for (int i = 0; i < n; ++i) x = r.chance(1, 2) ? gen::up(x) : gen::down(x);
  return x;
}
template<class T> static T point(Rng &r, int f) {
  switch (f) {
  case tr::SIN: case tr::COS: case tr::TAN:
    switch (r.below(8)) { case 0: case 1: case 2: return nearpi<T>(r); case 3: case 4: return (T)std::ldexp(gen::mant<T>(r), r.range(-3, 5)) * (r.chance(1, 2) ? 1 : -1);
      case 5: return (T)std::ldexp(gen::mant<T>(r), r.range(-30, 40)) * (r.chance(1, 2) ? 1 : -1); default: break; }
    break;
  case tr::ASIN: case tr::ACOS: case tr::ATANH:
    switch (r.below(5)) { case 0: case 1: return (T)std::ldexp(gen::mant<T>(r), -(int)r.below(6) - 1) * (r.chance(1, 2) ? 1 : -1);
      case 2: { T x = r.chance(1, 2) ? T(1) : T(-1); for (int n = r.below(4); n > 0; --n) x = r.chance(1, 2) ? gen::up(x) : gen::down(x); return x; } default: break; }
    break;
  case tr::ACOSH: case tr::LOG:
    switch (r.below(5)) { case 0: case 1: return (T)std::ldexp(gen::mant<T>(r), r.range(-3, 12));
      case 2: { T x = f == tr::LOG && r.chance(1, 2) ? T(0) : T(1); for (int n = r.below(4); n > 0; --n) x = r.chance(1, 2) ? gen::up(x) : gen::down(x); return x; } default: break; }
    break;
  default:
    switch (r.below(4)) { case 0: return (T)std::ldexp(gen::mant<T>(r), r.range(-10, 4)) * (r.chance(1, 2) ? 1 : -1);
      case 1: { static const T big = std::log(std::numeric_limits<T>::max()); return (big + (T)r.range(-3, 3) * T(0.7)) * (r.chance(1, 2) ? 1 : -1); } default: break; }
  }
  T x = gen::fin<T>(r);
  // exact reduction of the largest long doubles costs milliseconds: keep those rare
  if (sizeof(T) > 8 && (f == tr::SIN || f == tr::COS || f == tr::TAN) && std::fabs(x) > 1e40L && r.below(30)) x = std::fmod(x, (T)1e40L);
  return x;
}
template<class T> static B<T> arg(Rng &r, int f) {
  T a = point<T>(r, f), b;
  switch (r.below(10)) {
  case 0: case 1: return B<T>{a, a};
  case 2: return gen::ord(a, gen::nearb(r, a));
  case 3: case 4: { b = a + (T)std::ldexp(gen::mant<T>(r), r.range(-30, 3)); if (!std::isfinite((long double)b)) b = a; return gen::ord(a, b); }
  case 5: if (r.chance(1, 3)) { if (r.chance(1, 3)) return B<T>{-gen::inf<T>(), gen::inf<T>()}; if (r.chance(1, 2)) return B<T>{a, gen::inf<T>()}; return B<T>{-gen::inf<T>(), a}; } break;
  case 6: return gen::ord(T(0), a);
  case 7: return gen::ord(-a, a);
  default: break;
  }
  return gen::ord(a, point<T>(r, f));
}
template<class T> static std::string key(int f, const char *pol) { return std::string(tr::fname(f)) + "/" + gen::Tn<T>::name() + pol; }

#if !defined(DOM) && !defined(FMOD)
// -------------------------------------------------------------------- P06
template<class T> static T step(T x, int n) { for (; n > 0; --n) x = gen::up(x); for (; n < 0; ++n) x = gen::down(x); return x; }
template<class T, class I> static void one(Rng &r, int f, const char *pol) {
  B<T> x = arg<T>(r, f);
  std::string k = key<T>(f, pol);
  vh::op(tr::fname(f));
  tr::seen().out_of_domain = 0;
  I z = call<I>(f, mk<I, T>(x));
  std::fesetround(FE_TONEAREST);
  bool pole; H h = image<T>(f, x.l, x.u, pole);
  std::string what = k + " " + x.s();
  if (h.empty) return;
  vh::nontrivial(gen::hash(x) ^ vh::hstr(k.c_str()));
  vh::count(std::string("fn ") + tr::fname(f));
  if (!mp::encl<T>(k, what, z.lower(), z.upper(), h, isempty(z))) return;
  bool per = f == tr::SIN || f == tr::COS || f == tr::TAN;
  if (!per) { // exactly the policy's values
    bool pts = (f == tr::ASIN || f == tr::ACOS) && sizeof(T) > 8 && (x.l <= -1 || x.u >= 1); // constants from double precision
    if (f == tr::ATANH && (x.l == 1 || x.u == -1)) pts = true;
    vh::eval();
    if (!pts && !(z.lower() == mp::rd<T>(h.lo) && z.upper() == mp::ru<T>(h.hi)))
      vh::fail(k + "/exact", what + " = " + istr(z) + " is not the rounded values at the end points, " + B<T>{mp::rd<T>(h.lo), mp::ru<T>(h.hi)}.s());
    if (pts && f != tr::ATANH) { M a, b; mpfr_sub(a.v, h.lo.v, M(z.lower()).v, MPFR_RNDU); mpfr_sub(b.v, M(z.upper()).v, h.hi.v, MPFR_RNDU);
      if (a > M(1e-15) || b > M(1e-15)) vh::fail(k + "/exact", what + " = " + istr(z) + " is far from the exact image " + h.s()); }
  } else {
    vh::eval();
    if (f != tr::TAN && (z.lower() < -1 || z.upper() > 1)) vh::fail(k + "/range", what + " = " + istr(z) + " leaves [-1,1]");
    if (f == tr::TAN && pole && !(std::isinf((long double)z.lower()) && std::isinf((long double)z.upper()))) vh::fail(k + "/pole", what + " = " + istr(z) + " but there is a pole inside");
    if (pole) vh::count("poles");
    if (contains(x.l, x.u, 0, 1)) vh::count("periodic arguments with an extremum, zero or pole");
    // looseness: the image of the argument widened by the rounding of the reduction
    if (std::isfinite((long double)x.l) && std::isfinite((long double)x.u)) {
      const long double eps = std::max<long double>(std::numeric_limits<T>::epsilon(), std::numeric_limits<double>::epsilon());
      long double mx = std::max(std::fabs((long double)x.l), std::fabs((long double)x.u));
      long double d = 16 * eps * (1 + mx);
      if (d < 3) {
        bool p2; H g = image<long double>(f, (long double)x.l - d - mx * std::numeric_limits<long double>::epsilon(), (long double)x.u + d + mx * std::numeric_limits<long double>::epsilon(), p2);
        vh::eval();
        T gl = p2 ? -gen::inf<T>() : step(mp::rd<T>(g.lo), -3), gu = p2 ? gen::inf<T>() : step(mp::ru<T>(g.hi), 3);
        if (!(z.lower() >= gl && z.upper() <= gu)) vh::fail(k + "/loose", what + " = " + istr(z) + " is much wider than the exact image " + h.s() + " (allowed " + B<T>{gl, gu}.s() + ")");
        if (h.hi < M(1.0) && M(-1.0) < h.lo) vh::count("periodic, inside ]-1,1[");
      }
    } else {
      vh::eval();
      if (f != tr::TAN && !(z.lower() == -1 && z.upper() == 1)) vh::fail(k + "/inf", what + " = " + istr(z) + " should be [-1,1]");
    }
  }
  if (r.below(20000) == 0) vh::sample(what + " -> " + istr(z) + " exact " + h.s());
}
template<class T> static void all(Rng &r) {
  int f = r.below(NFN + 6); if (f >= NFN) f = tr::SIN + (f - NFN) % 3;
  if (OPTIMISED || r.chance(1, 2)) one<T, typename Ty<T>::I>(r, f, ""); else one<T, typename Ty<T>::J>(r, f, "/std");
}
VH_GROUP(f, "float", 500000, 12000000) { (void)idx; all<float>(r); }
VH_GROUP(d, "double", 700000, 16000000) { (void)idx; all<double>(r); }
VH_GROUP(l, "ldouble", 250000, 5000000) { (void)idx; all<long double>(r); }

// ---- the predefined classes over a user's number type whose functions honour the rounding mode
namespace user_ns {
struct W { double v; W() : v(0) {} W(int i) : v(i) {} explicit W(double d) : v(d) {} 
  W &operator+=(W o) { v += o.v; return *this; } };
inline W operator+(W a, W b) { return W(a.v + b.v); } inline W operator-(W a, W b) { return W(a.v - b.v); }
inline W operator*(W a, W b) { return W(a.v * b.v); } inline W operator/(W a, W b) { return W(a.v / b.v); }
inline W operator-(W a) { return W(-a.v); }
#define C(o) inline bool operator o(W a, W b) { return a.v o b.v; }
C(<) C(<=) C(>) C(>=) C(==) C(!=)
#undef C
static uint64_t modes[4];
NOIPA static W fun(int f, W x) {
  int m = std::fegetround();
  modes[m == FE_TONEAREST ? 0 : m == FE_UPWARD ? 1 : m == FE_DOWNWARD ? 2 : 3]++;
  if (m == FE_UPWARD) return W(tr::value<double>(f, x.v, true));
  if (m == FE_DOWNWARD) return W(tr::value<double>(f, x.v, false));
  double lo = tr::value<double>(f, x.v, false);
  if (m == FE_TONEAREST) return W(lo); // wrong side half of the time: no bound may come from here
  return W(lo > 0 ? lo : tr::value<double>(f, x.v, true));
}
#define F(n, N) inline W n(W x) { return fun(tr::N, x); }
F(exp, EXP) F(log, LOG) F(sin, SIN) F(cos, COS) F(tan, TAN) F(asin, ASIN) F(acos, ACOS) F(atan, ATAN)
F(sinh, SINH) F(cosh, COSH) F(tanh, TANH) F(asinh, ASINH) F(acosh, ACOSH) F(atanh, ATANH)
#undef F
NOIPA static W sqrt(W x) { return W(std::sqrt(x.v)); }
struct Ctl : il::rounding_control<double> {
  static W force_rounding(const W &x) { return x; }
  W to_int(const W &x) { return W(std::nearbyint(x.v)); }
};
struct Chk { static W pos_inf() { return W(gen::inf<double>()); } static W neg_inf() { return W(-gen::inf<double>()); }
  static W nan() { return W(std::numeric_limits<double>::quiet_NaN()); } static bool is_nan(const W &x) { return x.v != x.v; }
  static W empty_lower() { return nan(); } static W empty_upper() { return nan(); } static bool is_empty(const W &l, const W &u) { return !(l.v <= u.v); } };
}
typedef user_ns::W W;
template<class R> struct WI { typedef bn::interval<W, il::policies<il::save_state<R>, user_ns::Chk> > I; };
template<class I> static void wone(Rng &r, const char *pol) {
  int f = r.below(NFN);
  B<double> x = arg<double>(r, f);
  static const int MODES[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
  int m = MODES[r.below(4)];
  std::string k = key<double>(f, pol), what = k + " " + x.s();
  vh::op(tr::fname(f));
  I a(W(x.l), W(x.u), true); escape(a);
  std::fesetround(m);
  I z = call<I>(f, a);
  int m2 = std::fegetround();
  std::fesetround(FE_TONEAREST);
  bool pole; H h = image<double>(f, x.l, x.u, pole);
  double l = z.lower().v, u = z.upper().v;
  vh::eval();
  if (m2 != m) vh::fail(k + "/mode", what + " changed the rounding mode");
  if (h.empty) return;
  vh::nontrivial(gen::hash(x) ^ vh::hstr(k.c_str()));
  vh::count(std::string("user number type ") + pol);
  if (!mp::encl<double>(k, what, l, u, h, !(l <= u))) return;
  bool per = f == tr::SIN || f == tr::COS || f == tr::TAN;
  if (per) return; // pi is [3,4] here
  // inverse functions at +-1 use the integer bounds of pi
  if ((f == tr::ASIN || f == tr::ACOS || f == tr::ATANH) && (x.l <= -1 || x.u >= 1)) return;
  vh::eval();
  if (!(l == mp::rd<double>(h.lo) && u == mp::ru<double>(h.hi)))
    vh::fail(k + "/exact", what + " = " + B<double>{l, u}.s() + " is not the rounded values at the end points, " + B<double>{mp::rd<double>(h.lo), mp::ru<double>(h.hi)}.s());
  if (r.below(20000) == 0) vh::sample(what + " -> " + B<double>{l, u}.s());
}
VH_GROUP(w, "user number type", 200000, 4000000) {
  (void)idx;
  typedef il::rounded_arith_std<W, user_ns::Ctl> AS; typedef il::rounded_arith_opp<W, user_ns::Ctl> AO;
  switch (r.below(4)) {
  case 0: wone<WI<il::rounded_transc_std<W, AS> >::I>(r, "/transc_std"); break;
  case 1: wone<WI<il::rounded_transc_opp<W, AO> >::I>(r, "/transc_opp"); break;
  case 2: wone<WI<il::rounded_transc_std<W, AO> >::I>(r, "/transc_std(opp)"); break;
  default: wone<WI<il::rounded_transc_opp<W, AO> >::I>(r, "/transc_opp"); break;
  }
}
#endif

#ifdef DOM
// -------------------------------------------------------------------- P07
enum { F_SQRT, F_LOG, F_ASIN, F_ACOS, F_ACOSH, F_ATANH, F_ROOT, F_DIV, F_DIVT, F_TDIV, F_INV, NF };
static const char *DN[] = {"sqrt", "log", "asin", "acos", "acosh", "atanh", "nth_root", "x/y", "x/t", "t/x", "multiplicative_inverse"};
template<class I, class T> static NOIPA I dcall(int f, const I &x, const I &y, const T &t, int k) {
  switch (f) {
  case F_SQRT: return sqrt(x); case F_LOG: return log(x); case F_ASIN: return asin(x); case F_ACOS: return acos(x); case F_ACOSH: return acosh(x); case F_ATANH: return atanh(x);
  case F_ROOT: return nth_root(x, k); case F_DIV: return x / y; case F_DIVT: return x / t; case F_TDIV: return t / x; default: return il::multiplicative_inverse(x);
  }
}
template<class T> static T edge(Rng &r, T c) { for (int n = r.below(3); n > 0; --n) c = r.chance(1, 2) ? gen::up(c) : gen::down(c); return c; }
template<class T> static T dpoint(Rng &r, int f) {
  switch (r.below(4)) {
  case 0: switch (f) { case F_ASIN: case F_ACOS: case F_ATANH: return edge(r, r.chance(1, 2) ? T(1) : T(-1)); case F_ACOSH: return edge(r, T(1)); default: return r.chance(1, 4) ? T(-0.0) : edge(r, T(0)); }
  case 1: return T(r.range(-12, 12)) / T(4);
  case 2: return (T)std::ldexp(gen::mant<T>(r), r.range(-2, 1)) * (r.chance(1, 2) ? 1 : -1);
  default: return gen::fin<T>(r);
  }
}
template<class T> static B<T> dint(Rng &r, int f) {
  T a = dpoint<T>(r, f);
  switch (r.below(8)) { case 0: return B<T>{a, a}; case 1: return B<T>{-gen::inf<T>(), a}; case 2: return B<T>{a, gen::inf<T>()}; default: return gen::ord(a, dpoint<T>(r, f)); }
}
template<class T, class I, bool THROWS> static void one(Rng &r, const char *pol) {
  int f = r.below(NF), k = 2 * r.range(1, 3);
  B<T> x = dint<T>(r, f), y = dint<T>(r, f); T t = dpoint<T>(r, f);
  for (int i = 0; i < 20 && f == F_ROOT && sizeof(T) > 8 && (std::fabs(x.l) > 1e60L || std::fabs(x.u) > 1e60L || (x.u != 0 && std::fabs(x.u) < 1e-60L) || (x.l != 0 && std::fabs(x.l) < 1e-60L)); ++i) x = dint<T>(r, f);
  std::string nm = std::string(DN[f]) + "/" + gen::Tn<T>::name() + pol;
  H h; bool isempty_, pole;
  switch (f) {
  case F_SQRT: h = mp::h_sqrt(x.l, x.u); break;
  case F_LOG: h = image<T>(tr::LOG, x.l, x.u, pole); break;
  case F_ASIN: h = image<T>(tr::ASIN, x.l, x.u, pole); break;
  case F_ACOS: h = image<T>(tr::ACOS, x.l, x.u, pole); break;
  case F_ACOSH: h = image<T>(tr::ACOSH, x.l, x.u, pole); break;
  case F_ATANH: h = image<T>(tr::ATANH, x.l, x.u, pole); break;
  case F_ROOT: h = mp::h_root<T>(x.l, x.u, k); break;
  case F_DIV: h = mp::h_div<T>(x.l, x.u, y.l, y.u); break;
  case F_DIVT: h = mp::h_div<T>(x.l, x.u, t, t); break;
  case F_TDIV: h = mp::h_div<T>(t, t, x.l, x.u); break;
  default: h = mp::h_div<T>(1, 1, x.l, x.u);
  }
  isempty_ = h.empty;
  vh::op(DN[f]);
  I z; int ex = 0;
  I xi = mk<I, T>(x), yi = mk<I, T>(y);
  try { z = dcall<I, T>(f, xi, yi, t, k); }
  catch (const std::invalid_argument &) { ex = 2; }
  catch (const std::runtime_error &) { ex = 1; }
  std::fesetround(FE_TONEAREST);
  std::string what = nm + " of x=" + x.s() + " y=" + y.s() + " t=" + gen::str(t) + vh::fmt(" k=%d", k);
  vh::eval();
  bool boundary = false;
  if (isempty_) {
    vh::count(std::string("empty results ") + DN[f]);
    if (THROWS ? ex != 1 : (ex || !isempty(z)))
      vh::fail(nm + "/notempty", what + ": no point is in the domain, but the result is " + (ex ? std::string("an exception") : istr(z)));
  } else if (ex) vh::fail(nm + "/throw", what + vh::fmt(" threw (%s) although a point is in the domain", ex == 2 ? "invalid number" : "empty interval"));
  else {
    if (f != F_ATANH || !(x.l == 1 || x.u == -1)) mp::encl<T>(nm, what, z.lower(), z.upper(), h, isempty(z));
    else if (x.l == 1 ? !(z.upper() == gen::inf<T>()) : !(z.lower() == -gen::inf<T>())) vh::fail(nm + "/boundary", what + " = " + istr(z) + " misses the infinite limit");
    if (z.lower() != z.lower() || z.upper() != z.upper()) vh::fail(nm + "/nan", what + " = " + istr(z) + " has a NaN bound");
    T l = z.lower(), u = z.upper(), inf = gen::inf<T>(); bool bad = false;
    switch (f) {
    case F_SQRT: if (x.l <= 0) boundary = true, bad = l != 0; if (x.u == 0) bad |= u != 0; break;
    case F_ACOSH: if (x.l <= 1) boundary = true, bad = l != 0; if (x.u == 1) bad |= u != 0; break;
    case F_ACOS: if (x.u >= 1) boundary = true, bad = l != 0; if (x.l == 1) bad |= u != 0; break;
    case F_LOG: if (x.l <= 0) boundary = true, bad = l != -inf; if (x.l == 1) bad |= l != 0; if (x.u == 1) bad |= u != 0; break;
    case F_ATANH: if (x.l <= -1) boundary = true, bad = l != -inf; if (x.u >= 1) boundary = true, bad |= u != inf; break;
    case F_ROOT: if (x.l <= 0) boundary = true, bad = l != 0; if (x.u == 0) bad |= u != 0; break;
    }
    vh::eval();
    if (bad) vh::fail(nm + "/boundary", what + " = " + istr(z) + " does not have the exact limit of the boundary");
    if (boundary) vh::count(std::string("boundary limits ") + DN[f]);
    if ((f == F_ASIN || f == F_ACOS) && (x.l <= -1 || x.u >= 1)) vh::count("boundary limits with pi");
  }
  vh::nontrivial(gen::hash(x) ^ vh::mix(gen::hash(y)) ^ gen::bits(t) * 3 ^ vh::hstr(nm.c_str()) ^ k);
  if (r.below(20000) == 0) vh::sample(what + " -> " + (ex ? std::string("exception") : istr(z)));
}
template<class T> static void all(Rng &r) {
  switch (OPTIMISED ? 2 * r.below(2) : r.below(4)) {
  case 0: one<T, typename Ty<T>::I, false>(r, ""); break;
  case 1: one<T, typename Ty<T>::J, false>(r, "/std"); break;
  case 2: one<T, typename Ty<T>::S, true>(r, "/strict"); break;
  default: one<T, typename Ty<T>::N, true>(r, "/no_empty"); break;
  }
}
VH_GROUP(f, "float", 800000, 16000000) { (void)idx; all<float>(r); }
VH_GROUP(d, "double", 800000, 16000000) { (void)idx; all<double>(r); }
VH_GROUP(l, "ldouble", 300000, 6000000) { (void)idx; all<long double>(r); }
#endif

#ifdef FMOD
// -------------------------------------------------------------------- P08
template<class I, class T> static NOIPA I fm(int form, const I &x, const I &y, const T &s, const T &t) {
  switch (form) { case 0: return fmod(x, y); case 1: return fmod(x, t); case 2: return fmod(s, y); default: return fmod(I(s), I(t)); }
}
template<class T> static T pos(Rng &r) { T t = std::fabs(gen::fin<T>(r)); return t > 0 ? t : T(1); }
template<class T, class I> static void one(Rng &r, const char *pol) {
  B<T> x, y;
  T a = gen::fin<T>(r), b = gen::fin<T>(r), c = pos<T>(r), d = pos<T>(r);
  switch (r.below(4)) {
  case 0: c = T(r.range(1, 40)) / T(4); d = c + T(r.range(0, 8)) / T(8); a = T(r.range(-200, 200)) / T(8); b = a + T(r.range(0, 40)) / T(8); break; // exact quotients are common
  case 1: { T k = T(r.range(-30, 30)); a = k * c; if (!std::isfinite((long double)a)) a = c; for (int n = r.below(3); n > 0; --n) a = r.chance(1, 2) ? gen::up(a) : gen::down(a); if (r.chance(1, 2)) d = c; b = r.chance(1, 2) ? a : a + c; if (!std::isfinite((long double)b)) b = a; break; } // near a multiple
  case 2: { a = (T)std::ldexp(gen::mant<T>(r), r.range(-3, 12)) * (r.chance(1, 2) ? 1 : -1); b = a + (T)std::ldexp(gen::mant<T>(r), r.range(-8, 3)); c = (T)std::ldexp(gen::mant<T>(r), r.range(-3, 6)); d = r.chance(1, 2) ? gen::up(c) : c * (1 + (T)r.below(100) / 128); break; }
  default: break;
  }
  x = gen::ord(a, b); y = gen::ord(c, d);
  int form = r.below(3);
  T s = x.l, t = y.l;
  if (form == 1) y = B<T>{t, t};
  if (form == 2) x = B<T>{s, s};
  T yb = x.l < 0 ? y.l : y.u;
  // the quotient must be a number
  M q; mpfr_div(q.v, M(x.l).v, M(yb).v, MPFR_RNDD);
  T qd = mp::rd<T>(q);
  if (!std::isfinite((long double)qd)) return;
  vh::op("fmod");
  I z = fm<I, T>(form, mk<I, T>(x), mk<I, T>(y), s, t);
  std::fesetround(FE_TONEAREST);
  static const char *fn[] = {"fmod(x,y)", "fmod(x,t)", "fmod(t,y)"};
  std::string nm = std::string(fn[form]) + "/" + gen::Tn<T>::name() + pol, what = nm + " x=" + x.s() + " y=" + y.s();
  T n = std::floor(qd);
  mpfr_prec_t P = 400;
  // exact x - n*y
  H h; { M lo(P), hi(P), p(P);
    mpfr_mul(p.v, M(n).v, M(n >= 0 ? y.u : y.l).v, MPFR_RNDN); mpfr_sub(lo.v, M(x.l).v, p.v, MPFR_RNDD);
    mpfr_mul(p.v, M(n).v, M(n >= 0 ? y.l : y.u).v, MPFR_RNDN); mpfr_sub(hi.v, M(x.u).v, p.v, MPFR_RNDU);
    h.add(lo, hi); }
  vh::eval(3);
  if (isempty(z)) { vh::fail(nm + "/lost", what + " is empty"); return; }
  if (M(z.lower()) > h.lo || M(z.upper()) < h.hi) vh::fail(nm + "/encl", what + " = " + istr(z) + " does not contain x - n*y = " + h.s() + " for n=" + gen::str(n));
  if (z.lower() < 0) vh::fail(nm + "/negative", what + " = " + istr(z) + " has a negative lower bound");
  // x - [n*y] with n*y rounded outwards once
  M p; T pl, pu;
  mpfr_mul(p.v, M(n).v, M(n >= 0 ? y.l : y.u).v, MPFR_RNDN); pl = mp::rd<T>(p);
  mpfr_mul(p.v, M(n).v, M(n >= 0 ? y.u : y.l).v, MPFR_RNDN); pu = mp::ru<T>(p);
  mpfr_sub(p.v, M(x.l).v, M(pu).v, MPFR_RNDD); T wl = mp::rd<T>(p);
  mpfr_sub(p.v, M(x.u).v, M(pl).v, MPFR_RNDU); T wu = mp::ru<T>(p);
  for (int i = 0; i < 2; ++i) wl = gen::down(wl), wu = gen::up(wu);
  if (z.lower() < wl || z.upper() > wu) vh::fail(nm + "/period", what + " = " + istr(z) + " is not the part in the first period, expected " + B<T>{wl, wu}.s());
  // the forms agree
  I zz = fm<I, T>(0, mk<I, T>(x), mk<I, T>(y), s, t);
  std::fesetround(FE_TONEAREST);
  if (!eqi(z, zz)) vh::fail(nm + "/forms", what + " = " + istr(z) + " but with intervals " + istr(zz));
  vh::count(std::string("quotient ") + (n == 0 ? "zero" : n < 0 ? "negative" : "positive"));
  if (qd == n) vh::count("exact quotients");
  vh::nontrivial(gen::hash(x) ^ vh::mix(gen::hash(y)) ^ vh::hstr(nm.c_str()));
  if (r.below(20000) == 0) vh::sample(what + " -> " + istr(z) + " n=" + gen::str(n));
}
template<class T> static void all(Rng &r) {
  switch (OPTIMISED ? 2 * r.below(2) : r.below(4)) {
  case 0: one<T, typename Ty<T>::I>(r, ""); break;
  case 1: one<T, typename Ty<T>::J>(r, "/std"); break;
  case 2: one<T, typename Types<T>::S>(r, "/default"); break;
  default: one<T, bn::interval<T, il::policies<il::save_state<il::rounded_transc_std<T> >, il::checking_catch_nan<T, il::checking_no_empty<T> > > > >(r, "/transc_std"); break;
  }
}
VH_GROUP(f, "float", 1000000, 16000000) { (void)idx; all<float>(r); }
VH_GROUP(d, "double", 1200000, 16000000) { (void)idx; all<double>(r); }
VH_GROUP(l, "ldouble", 600000, 10000000) { (void)idx; all<long double>(r); }
#endif
