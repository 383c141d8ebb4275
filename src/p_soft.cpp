// P19 (first part): a user type with directed rounding, enumerated exhaustively.
#include "soft.hpp"
#include "mp.hpp"
#include <boost/numeric/interval.hpp>
#include <boost/numeric/interval/limits.hpp>
#define SOFT_MONITOR
#include "lib.hpp"
using vh::Rng;

typedef soft::S<3, -2, 2> T3;   // 20 non-negative finite numbers
typedef soft::S<2, -3, 3> T2;
typedef soft::S<5, -4, 5> T5;   // with good bounds of pi
typedef soft::S<8, -8, 8> T8;
namespace boost { namespace numeric { namespace interval_lib { namespace constants {
template<> inline T5 pi_lower<T5>() { return T5::raw(3.125); }
template<> inline T5 pi_upper<T5>() { return T5::raw(3.25); }
template<> inline T5 pi_half_lower<T5>() { return T5::raw(1.5625); }
template<> inline T5 pi_half_upper<T5>() { return T5::raw(1.625); }
template<> inline T5 pi_twice_lower<T5>() { return T5::raw(6.25); }
template<> inline T5 pi_twice_upper<T5>() { return T5::raw(6.5); }
template<> inline T8 pi_lower<T8>() { return T8::raw(402 / 128.); }
template<> inline T8 pi_upper<T8>() { return T8::raw(404 / 128.); }
template<> inline T8 pi_half_lower<T8>() { return T8::raw(402 / 256.); }
template<> inline T8 pi_half_upper<T8>() { return T8::raw(404 / 256.); }
template<> inline T8 pi_twice_lower<T8>() { return T8::raw(402 / 64.); }
template<> inline T8 pi_twice_upper<T8>() { return T8::raw(404 / 64.); }
} } } }

static const double INF = HUGE_VAL;
template<class T> T dn(double d); template<class T> T up(double d);
template<int P, int A, int B> struct Fmt { typedef soft::S<P, A, B> T;
  static double dn(double d) { return soft::rnd_exact<P, A, B>(d, soft::DOWN); } static double up(double d) { return soft::rnd_exact<P, A, B>(d, soft::UP); } };
template<class T> struct FmtOf; template<int P, int A, int B> struct FmtOf<soft::S<P, A, B> > : Fmt<P, A, B> {};

struct H { bool empty; double lo, hi; H() : empty(true), lo(0), hi(0) {}
  void add(double a) { if (std::isnan(a)) return; if (empty) { lo = hi = a; empty = false; return; } if (a < lo) lo = a; if (a > hi) hi = a; } };
struct Iv { double l, u; };
static H h_add(Iv x, Iv y) { H h; h.add(x.l + y.l); h.add(x.u + y.u); return h; }
static H h_sub(Iv x, Iv y) { return h_add(x, Iv{-y.u, -y.l}); }
static double mulz(double a, double b) { return a == 0 || b == 0 ? 0 : a * b; }
static H h_mul(Iv x, Iv y) { H h; h.add(mulz(x.l, y.l)); h.add(mulz(x.l, y.u)); h.add(mulz(x.u, y.l)); h.add(mulz(x.u, y.u)); return h; }
static void pos_div(H &h, Iv x, Iv y) {
  if (y.l > 0) {
    double c[] = {x.l, x.u}, d[] = {y.l, y.u};
    for (double a : c) for (double b : d) h.add(std::isinf(a) ? a : a / b);
    if (std::isinf(y.u)) h.add(0);
    return;
  }
  if (x.u > 0) h.add(INF); else if (x.u == 0) h.add(0); else h.add(x.u / y.u);
  if (x.l < 0) h.add(-INF); else if (x.l == 0) h.add(0); else h.add(x.l / y.u);
  if (std::isinf(y.u)) h.add(0);
}
static H h_div(Iv x, Iv y) { H h; if (y.u > 0) pos_div(h, x, y); if (y.l < 0) pos_div(h, Iv{-x.u, -x.l}, Iv{-y.u, -y.l}); return h; }

template<class T> const std::vector<double> &numbers() {
  static std::vector<double> v;
  if (v.empty()) {
    typedef std::numeric_limits<T> L; // all non-negative finite numbers
    double x = 0;
    std::vector<double> p;
    p.push_back(0);
    double q = L::denorm_min().v;
    while (x < T::max().v) { x = FmtOf<T>::up(x + q / 2); p.push_back(x); }
    v.push_back(-INF);
    for (size_t i = p.size(); i-- > 1;) v.push_back(-p[i]);
    for (double d : p) v.push_back(d);
    v.push_back(INF);
  }
  return v;
}
template<class T> const std::vector<Iv> &intervals() {
  static std::vector<Iv> v;
  if (v.empty()) { const std::vector<double> &n = numbers<T>(); for (size_t i = 0; i < n.size(); ++i) for (size_t j = i; j < n.size(); ++j) if (n[i] < INF && n[j] > -INF) v.push_back(Iv{n[i], n[j]}); }
  return v;
}
static std::string s(Iv x) { return vh::fmt("[%g,%g]", x.l, x.u); }

template<class I> struct Ctx {
  typedef typename I::base_type T; typedef FmtOf<T> F;
  const char *tag; int m0; std::string in;
  static I mk(Iv x) { return I(T::raw(x.l), T::raw(x.u), true); }
  void begin(const char *op, int m) { vh::op(op); soft::mode() = m0 = m; }
  bool modeok(const char *op) { if (soft::mode() == m0) return true; vh::fail(std::string("mode/") + op + "/" + tag, std::string(op) + " " + tag + " " + in + vh::fmt(" left mode %d, was %d", soft::mode(), m0)); return false; }
  void tight(const char *op, const I &z, const H &h) {
    modeok(op); vh::eval();
    double l = z.lower().v, u = z.upper().v; bool e = !(l <= u);
    if (h.empty) { if (!e) vh::fail(std::string(op) + "/notempty/" + tag, std::string(op) + " " + tag + " " + in + " = " + s(Iv{l, u}) + ", should be empty"); return; }
    double bl = F::dn(h.lo), bu = F::up(h.hi);
    if (e || l != bl || u != bu) vh::fail(std::string(op) + "/tight/" + tag, std::string(op) + " " + tag + " " + in + " = " + s(Iv{l, u}) + ", should be " + s(Iv{bl, bu}));
  }
  void encl(const char *op, const I &z, const H &h, bool mustempty = true) {
    modeok(op); vh::eval();
    double l = z.lower().v, u = z.upper().v; bool e = !(l <= u);
    if (h.empty) { if (!e && mustempty) vh::fail(std::string(op) + "/notempty/" + tag, std::string(op) + " " + tag + " " + in + " = " + s(Iv{l, u}) + ", should be empty"); return; }
    if (e || !(l <= h.lo) || !(u >= h.hi)) vh::fail(std::string(op) + "/encl/" + tag, std::string(op) + " " + tag + " " + in + " = " + s(Iv{l, u}) + " does not contain " + vh::fmt("[%.17g,%.17g]", h.lo, h.hi));
  }
  void scalar(const char *op, const T &z, double want) { modeok(op); vh::eval(); if (!(z.v == want || (want != want && z.v != z.v))) vh::fail(std::string(op) + "/value/" + tag, std::string(op) + " " + tag + " " + in + vh::fmt(" = %g, should be %g", z.v, want)); }
  void truth(const char *op, bool z, bool want) { modeok(op); vh::eval(); if (z != want) vh::fail(std::string(op) + "/truth/" + tag, std::string(op) + " " + tag + " " + in + vh::fmt(" = %d", z)); }
};
#define MN(a, b) min BOOST_PREVENT_MACRO_SUBSTITUTION(a, b)
#define MX(a, b) max BOOST_PREVENT_MACRO_SUBSTITUTION(a, b)

template<class I> static void pairs(Ctx<I> &c, Iv a, Iv b, int m) {
  typedef Ctx<I> C; typedef typename I::base_type T;
  const I x = C::mk(a), y = C::mk(b);
  c.in = s(a) + " " + s(b);
  const char *o;
#define DO(NAME, E, HH) c.begin(o = NAME, m); { I z = E; c.tight(o, z, HH); }
  DO("x+y", x + y, h_add(a, b)) DO("x-y", x - y, h_sub(a, b)) DO("x*y", x * y, h_mul(a, b)) DO("x/y", x / y, h_div(a, b))
  DO("x+=y", (I(x) += y), h_add(a, b)) DO("x-=y", (I(x) -= y), h_sub(a, b)) DO("x*=y", (I(x) *= y), h_mul(a, b)) DO("x/=y", (I(x) /= y), h_div(a, b))
  H mn, mx, hu, in; mn.add(std::min(a.l, b.l)); mn.add(std::min(a.u, b.u)); mx.add(std::max(a.l, b.l)); mx.add(std::max(a.u, b.u));
  hu.add(std::min(a.l, b.l)); hu.add(std::max(a.u, b.u));
  if (std::max(a.l, b.l) <= std::min(a.u, b.u)) { in.add(std::max(a.l, b.l)); in.add(std::min(a.u, b.u)); }
  DO("min", MN(x, y), mn) DO("max", MX(x, y), mx) DO("hull", hull(x, y), hu) DO("intersect", intersect(x, y), in)
  c.begin(o = "overlap", m); c.truth(o, overlap(x, y), !in.empty);
  c.begin(o = "subset", m); c.truth(o, subset(x, y), b.l <= a.l && a.u <= b.u);
  c.begin(o = "division_parts", m);
  { bool f; I p = il::division_part1(x, y, f); H h = h_div(a, b);
    if (!f) c.tight(o, p, h);
    else { I q = il::division_part2(x, y, f); c.modeok(o); H n, pp; pos_div(pp, a, b); pos_div(n, Iv{-a.u, -a.l}, Iv{-b.u, -b.l});
      if (b.u > 0 && b.l < 0 && !(a.l < 0 && a.u > 0) && !(a.l == 0 && a.u == 0)) { // quotients of both signs: lower part first
        H lo = a.l >= 0 ? n : pp, hi = a.l >= 0 ? pp : n;
        c.tight("division_part1", p, lo); c.tight("division_part2", q, hi); } else vh::fail(std::string("division_parts/flag/") + c.tag, "flag set for " + c.in); } }
  vh::nontrivial(vh::hstr(c.in.c_str()) ^ vh::hstr(c.tag));
}
template<class I> static void numbers_with(Ctx<I> &c, Iv a, double t, int m) {
  typedef Ctx<I> C; typedef typename I::base_type T;
  const I x = C::mk(a); const T n = T::raw(t); Iv b = {t, t}; const char *o;
  c.in = s(a) + vh::fmt(" %g", t);
  DO("x+t", x + n, h_add(a, b)) DO("x-t", x - n, h_sub(a, b)) DO("x*t", x * n, h_mul(a, b)) DO("x/t", x / n, h_div(a, b))
  DO("t+x", n + x, h_add(b, a)) DO("t-x", n - x, h_sub(b, a)) DO("t*x", n * x, h_mul(b, a)) DO("t/x", n / x, h_div(b, a))
  c.begin(o = "in", m); c.truth(o, in(n, x), a.l <= t && t <= a.u);
  if (t >= 0) { H w; w.add(a.l - t); w.add(a.u + t); DO("widen", widen(x, n), w) }
  H hu; hu.add(std::min(a.l, t)); hu.add(std::max(a.u, t)); DO("hull(x,t)", hull(x, n), hu)
}
typedef int (*MF)(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t);
static double mpd(MF f, double x, bool upw) {
  mpfr_t a, r; mpfr_init2(a, 53); mpfr_init2(r, 53); mpfr_set_d(a, x, MPFR_RNDN);
  f(r, a, upw ? MPFR_RNDU : MPFR_RNDD); double d = mpfr_get_d(r, MPFR_RNDN); mpfr_clear(a); mpfr_clear(r); return d;
}
static double pwd(double x, int k) { double y = 1; for (int i = 0; i < k; ++i) y *= x; return y; } // exact for so few bits
template<class I> static void singles(Ctx<I> &c, Iv a, int m, bool goodpi) {
  typedef Ctx<I> C; typedef typename I::base_type T; typedef FmtOf<T> F; const char *o;
  const I x = C::mk(a); c.in = s(a);
  vh::nontrivial(vh::hstr(c.in.c_str()) ^ vh::hstr(c.tag) ^ 77);
  H ne; ne.add(-a.l); ne.add(-a.u); DO("-x", -x, ne)
  H ab; if (a.l >= 0) { ab.add(a.l); ab.add(a.u); } else if (a.u <= 0) { ab.add(-a.l); ab.add(-a.u); } else { ab.add(0); ab.add(std::max(-a.l, a.u)); }
  DO("abs", abs(x), ab)
  H sq; sq.add(ab.lo * ab.lo); sq.add(ab.hi * ab.hi); DO("square", square(x), sq)
  H rt; if (a.u >= 0) { rt.add(std::sqrt(std::max(a.l, 0.0))); rt.add(std::sqrt(a.u)); } DO("sqrt", sqrt(x), rt)
  H iv = h_div(Iv{1, 1}, a); DO("multiplicative_inverse", il::multiplicative_inverse(x), iv)
  for (int k = -4; k <= 6; ++k) {
    int n = k < 0 ? -k : k; H p;
    if (n & 1) { p.add(pwd(a.l, n)); p.add(pwd(a.u, n)); } else if (n == 0) p.add(1); else { p.add(pwd(ab.lo, n)); p.add(pwd(ab.hi, n)); }
    if (k < 0) p = h_div(Iv{1, 1}, Iv{p.lo, p.hi});
    std::string nm = vh::fmt("pow %d", k); c.begin("pow", m); I z = pow(x, k); if (k >= 0 && k <= 2) c.tight(nm.c_str(), z, p); else c.encl(nm.c_str(), z, p, k >= 0 || (a.l == 0 && a.u == 0));
    if (k % 2 == 0 && z.lower().v < 0) vh::fail(std::string("pow/neg/") + c.tag, c.in);
  }
  for (int k = 1; k <= 5; ++k) {
    H p; auto root = [&](double d, bool upw) { double r = d < 0 ? -std::pow(-d, 1. / k) : std::pow(d, 1. / k); double q = std::nearbyint(r * 4096) / 4096; if (pwd(q, k) == d) return q; return r; };
    if (k & 1) { p.add(root(a.l, 0)); p.add(root(a.u, 1)); } else if (a.u >= 0) { p.add(root(std::max(a.l, 0.), 0)); p.add(root(a.u, 1)); }
    // roots computed by pow(): leave a margin of a few roundings of double
    if (!p.empty) { if (pwd(p.lo, k) != ((k & 1) ? a.l : std::max(a.l, 0.)) && std::isfinite(p.lo)) p.lo += std::fabs(p.lo) * 1e-14; if (pwd(p.hi, k) != a.u && std::isfinite(p.hi)) p.hi -= std::fabs(p.hi) * 1e-14; }
    std::string nm = vh::fmt("nth_root %d", k); c.begin("nth_root", m); I z = nth_root(x, k); if (k == 1) c.tight(nm.c_str(), z, p); else c.encl(nm.c_str(), z, p);
    if (k % 2 == 0 && z.lower().v < 0) vh::fail(std::string("nth_root/neg/") + c.tag, c.in);
  }
  c.begin(o = "width", m); c.scalar(o, width(x), F::up(a.u - a.l));
  c.begin(o = "norm", m); c.scalar(o, norm(x), ab.hi);
  c.begin(o = "median", m); { T z = median(x); c.modeok(o); vh::eval();
    double mid = a.l == -a.u ? 0 : (a.l + a.u) / 2; bool ok = z.v == mid || z.v == F::dn(mid) || z.v == F::up(mid); if (!(z.v >= a.l && z.v <= a.u)) ok = false;
    if (ok && std::isfinite(mid)) { double w = F::dn(mid), u = F::up(mid); if (std::isfinite(w) && std::isfinite(u)) ok = std::fabs(z.v - mid) <= std::min(mid - w, u - mid); }
    if (!ok) vh::fail(std::string("median/value/") + c.tag, "median " + c.in + vh::fmt(" = %g", z.v)); }
  c.begin(o = "bisect", m); { std::pair<I, I> z = bisect(x); c.modeok(o); vh::eval();
    if (!(z.first.lower().v == a.l && z.second.upper().v == a.u && z.first.upper() == z.second.lower() && z.first.upper().v >= a.l && z.first.upper().v <= a.u)) vh::fail(std::string("bisect/") + c.tag, "bisect " + c.in); }
  c.begin(o = "zero_in", m); c.truth(o, zero_in(x), a.l <= 0 && a.u >= 0);
  c.begin(o = "singleton", m); c.truth(o, singleton(x), a.l == a.u);
  // elementary functions: monotone ones are as tight as the rounded functions
#define MONO(FN, LO, HI) { H h; double l = a.l, u = a.u; if (!(u < (LO)) && !(l > (HI))) { if (l < (LO)) l = (LO); if (u > (HI)) u = (HI); h.add(mpd(mpfr_##FN, l, false)); h.add(mpd(mpfr_##FN, u, true)); } \
    c.begin(o = #FN, m); I z = FN(x); c.tight(o, z, h); }
  MONO(exp, -INF, INF) MONO(atan, -INF, INF) MONO(sinh, -INF, INF) MONO(tanh, -INF, INF) MONO(asinh, -INF, INF) MONO(acosh, 1, INF)
  { H h; if (a.u > 0) { h.add(a.l > 0 ? mpd(mpfr_log, a.l, false) : -INF); h.add(mpd(mpfr_log, a.u, true)); } c.begin(o = "log", m); I z = log(x); c.tight(o, z, h); }
  { H h; h.add(mpd(mpfr_cosh, ab.lo, false)); h.add(mpd(mpfr_cosh, ab.hi, true)); c.begin(o = "cosh", m); I z = cosh(x); c.tight(o, z, h); }
#define DOM(FN, DEC) { H h; if (!(a.u < -1) && !(a.l > 1)) { double l = std::max(a.l, -1.), u = std::min(a.u, 1.); h.add(mpd(mpfr_##FN, DEC ? u : l, false)); h.add(mpd(mpfr_##FN, DEC ? l : u, true)); } \
    c.begin(o = #FN, m); I z = FN(x); c.encl(o, z, h); }
  DOM(asin, false) DOM(acos, true) DOM(atanh, false)
  // the default constants need the integer 7
  if (T(7).v != 7 || T(6).v != 6) return;
  auto per = [&](MF f, double period0) { H h; if (!std::isfinite(a.l) || !std::isfinite(a.u)) { h.add(-1); h.add(1); return h; }
    h.add(mpd(f, a.l, false)); h.add(mpd(f, a.l, true)); h.add(mpd(f, a.u, false)); h.add(mpd(f, a.u, true));
    const double P2 = 6.283185307179586;
    for (double k = std::floor((a.l - period0) / P2) - 1; k <= std::ceil((a.u - period0) / P2) + 1; ++k) { double t = period0 + k * P2; if (t > a.l && t < a.u) h.add(1); t += P2 / 2; if (t > a.l && t < a.u) h.add(-1); }
    return h; };
  soft::mode() = m;
  { H h = per(mpfr_cos, 0); c.begin(o = "cos", m); I z = cos(x); c.encl(o, z, h); vh::eval(); if (z.lower().v < -1 || z.upper().v > 1) vh::fail(std::string("cos/range/") + c.tag, c.in + " " + s(Iv{z.lower().v, z.upper().v})); }
  { H h = per(mpfr_sin, 1.5707963267948966); c.begin(o = "sin", m); I z = sin(x); c.encl(o, z, h); vh::eval(); if (z.lower().v < -1 || z.upper().v > 1) vh::fail(std::string("sin/range/") + c.tag, c.in); }
  { H h; const double PI = 3.141592653589793; bool pole = !std::isfinite(a.l) || !std::isfinite(a.u);
    if (!pole) for (double k = std::floor(a.l / PI) - 1; k <= std::ceil(a.u / PI) + 1; ++k) { double t = PI / 2 + k * PI; if (t > a.l && t < a.u) pole = true; }
    if (pole) { h.add(-INF); h.add(INF); } else { h.add(mpd(mpfr_tan, a.l, false)); h.add(mpd(mpfr_tan, a.u, true)); }
    c.begin(o = "tan", m); I z = tan(x); c.encl(o, z, h); }
  if (goodpi) { // not always the loosest answer
    c.begin(o = "cos", m); I z = cos(x); vh::count(z.lower().v > -1 || z.upper().v < 1 ? "cos informative" : "cos [-1,1]"); c.modeok(o); }
}
template<class I> static void conversions(Ctx<I> &c, int n, int m) {
  typedef typename I::base_type T; const char *o;
  double d = n / 16.0; // exact
  c.in = vh::fmt("%g", d);
  H h; h.add(d);
  DO("I(double)", I(d), h) DO("I(float)", I((float)d), h)
  { I z(1); c.begin(o = "x=double", m); z = d; c.tight(o, z, h); }
  H p; p.add(d); p.add(d + 3.0 / 16); DO("I(double,double)", I(d, d + 3.0 / 16), p)
  H q; q.add(n); DO("I(int)", I(n), q)
  { I z(1); c.begin(o = "x=int", m); z = n; c.tight(o, z, q); }
  H r; r.add(n); r.add(n + 1); DO("I(int,int)", I(n, n + 1), r)
  if (n >= 0) { H u; u.add(n); DO("I(unsigned)", I((unsigned)n), u) }
  bn::interval<double, il::policies<il::rounded_math<double>, il::checking_base<double> > > w(d, d + 5.0 / 16), e = w.empty(); H g; g.add(d); g.add(d + 5.0 / 16);
  DO("I(interval<double>)", I(w), g) { I z(1); c.begin(o = "x=interval<double>", m); z = w; c.tight(o, z, g); }
  DO("I(empty)", I(e), H())
  typedef bn::interval<T8, typename bn::interval<T8, il::policies<il::save_state<il::rounded_transc_opp<T8> >, il::checking_base<T8> > >::traits_type> J;
  soft::mode() = m; J v(d), v2(d, d + 1); H s8; s8.add(v.lower().v); s8.add(v.upper().v); H s9; s9.add(v2.lower().v); s9.add(v2.upper().v);
  DO("I(interval<soft>)", I(v), s8) DO("I(interval<soft>) wide", I(v2), s9)
  vh::nontrivial(vh::mix(n) ^ vh::hstr(c.tag));
}
template<class T> struct Pol {
  typedef il::policies<il::save_state<il::rounded_transc_std<T> >, il::checking_base<T> > Std;
  typedef il::policies<il::save_state<il::rounded_transc_opp<T> >, il::checking_base<T> > Opp;
};
// an unprotected type whose rounding object is made by the monitor
template<class I> struct Under { typename I::traits_type::rounding rnd; };

template<class T> static void exhaustive(Rng &r, uint64_t idx, bool allpairs) {
  typedef bn::interval<T, typename Pol<T>::Std> A; typedef bn::interval<T, typename Pol<T>::Opp> B;
  const std::vector<Iv> &v = intervals<T>();
  if (idx >= v.size()) return;
  Ctx<A> a = {"std", 0, ""}; Ctx<B> b = {"opp", 0, ""};
  bool goodpi = std::is_same<T, T5>::value || std::is_same<T, T8>::value;
  for (int m = 0; m < 4; ++m) { singles(a, v[idx], m, goodpi); singles(b, v[idx], m, goodpi); }
  const std::vector<double> &n = numbers<T>();
  for (double t : n) if (std::isfinite(t)) { numbers_with(a, v[idx], t, r.below(4)); numbers_with(b, v[idx], t, r.below(4)); }
  size_t cnt = allpairs ? v.size() : 400;
  for (size_t j = 0; j < cnt; ++j) {
    Iv y = allpairs ? v[j] : v[r.below(v.size())];
    int m = r.below(4);
    if (j & 1) pairs(a, v[idx], y, m); else pairs(b, v[idx], y, m);
    if (allpairs && (idx + j) % 5 == 0) { if (j & 1) pairs(b, v[idx], y, m); else pairs(a, v[idx], y, m); }
  }
  if (idx % 97 == 0) vh::sample("all operations of " + s(v[idx]) + vh::fmt(" with %zu intervals, %zu numbers", cnt, n.size()));
  soft::mode() = soft::NEAR;
}
VH_GROUP(t3, "3 bits", 946, 946) { exhaustive<T3>(r, idx, true); }
VH_GROUP(t2, "2 bits", 700, 700) { exhaustive<T2>(r, idx, true); }
VH_GROUP(t5, "5 bits", 1200, 100000) { const std::vector<Iv> &v = intervals<T5>(); exhaustive<T5>(r, r.below(v.size()), false); (void)idx; }
VH_GROUP(t8, "8 bits", 500, 20000) {
  typedef bn::interval<T8, Pol<T8>::Std> A; typedef bn::interval<T8, Pol<T8>::Opp> B;
  const std::vector<double> &n = numbers<T8>(); (void)idx;
  Ctx<A> a = {"std8", 0, ""}; Ctx<B> b = {"opp8", 0, ""};
  for (int k = 0; k < 60; ++k) {
    auto pick = [&]() { double p = n[r.below(n.size())], q = r.chance(1, 4) ? p : r.chance(1, 3) ? n[r.below(n.size())] : FmtOf<T8>::up(p * (1 + r.below(20) / 64.0)); if (p > q) std::swap(p, q); if (p == INF) p = 1; if (q == -INF) q = -1; return Iv{p, std::max(p, q)}; };
    Iv x = pick(), y = pick(); if (x.l > x.u) std::swap(x.l, x.u);
    int m = r.below(4);
    singles(a, x, m, true); singles(b, x, m, true); pairs(a, x, y, m); pairs(b, x, y, m);
    double t = n[r.below(n.size())]; if (std::isfinite(t)) { numbers_with(a, x, t, m); numbers_with(b, x, t, m); }
  }
}
VH_GROUP(cv, "conversions", 4000, 4000) {
  (void)r; int n = (int)idx - 2000;
  { typedef bn::interval<T3, Pol<T3>::Std> A; Ctx<A> a = {"std3", 0, ""}; conversions(a, n, idx % 4); }
  { typedef bn::interval<T3, Pol<T3>::Opp> A; Ctx<A> a = {"opp3", 0, ""}; conversions(a, n, (idx / 4) % 4); }
  { typedef bn::interval<T5, Pol<T5>::Opp> A; Ctx<A> a = {"opp5", 0, ""}; conversions(a, n, idx % 4); }
  { typedef bn::interval<T5, Pol<T5>::Std> A; Ctx<A> a = {"std5", 0, ""}; conversions(a, n, (idx / 3) % 4); }
  soft::mode() = soft::NEAR;
}
