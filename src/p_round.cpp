// P09: the caller's rounding mode survives every operation and does not matter.
#include "ops.hpp"
#include <xmmintrin.h>
using vh::Rng;
static const int MODES[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
static const char *mname(int m) { return m == FE_TONEAREST ? "nearest" : m == FE_UPWARD ? "upward" : m == FE_DOWNWARD ? "downward" : m == FE_TOWARDZERO ? "zero" : "?"; }

struct FpState { unsigned mx; unsigned short cw; int mode; };
static NOIPA FpState fpstate() { FpState s; s.mx = _mm_getcsr() & ~0x3fu; asm volatile("fnstcw %0" : "=m"(s.cw)); s.mode = std::fegetround(); return s; }
#ifdef X87_HPP // the library controls the x87 unit only
static bool operator!=(const FpState &a, const FpState &b) { return a.cw != b.cw || a.mode != b.mode; }
#else
static bool operator!=(const FpState &a, const FpState &b) { return a.mx != b.mx || a.cw != b.cw || a.mode != b.mode; }
#endif

template<class T> struct Pol {
  typedef il::checking_base<T> CB; typedef il::checking_strict<T> CS; typedef il::checking_catch_nan<T, il::checking_no_empty<T> > CC;
  typedef bn::interval<T, il::policies<il::rounded_math<T>, CB> > Def;
  typedef bn::interval<T> Strict;
  typedef bn::interval<T, il::policies<il::rounded_math<T>, CC> > Catch;
  typedef bn::interval<T, il::policies<il::save_state<il::rounded_transc_exact<T> >, CB> > Texact;
  typedef bn::interval<T, il::policies<il::save_state<il::rounded_transc_exact<T, il::rounded_arith_opp<T> > >, CC> > Topp0;
  typedef bn::interval<T, il::policies<il::save_state<il::rounded_transc_std<T> >, CB> > Tstd;
  typedef bn::interval<T, il::policies<il::save_state<il::rounded_transc_opp<T> >, CC> > Topp;
  typedef bn::interval<T, il::policies<il::save_state<il::rounded_arith_std<T> >, CB> > Astd;
  typedef bn::interval<T, il::policies<il::save_state<il::rounded_arith_opp<T> >, CC> > Aopp;
};
// operands, sometimes empty or invalid where the policy of I can live with them
template<class I> static ops::Args<I> operands(Rng &r, const ops::Raw<typename I::base_type> &q, bool bad) {
  ops::Args<I> a = ops::args<I>(q);
  typedef typename I::base_type T;
  if (bad) {
    const T nan = std::numeric_limits<T>::quiet_NaN();
    switch (r.below(4)) {
    case 0: a.x = I(nan, nan, true); break;
    case 1: a.y = I(nan, nan, true); break;
    case 2: a.t = nan; break;
    default: std::swap(a.t, a.s);
    }
  }
  return a;
}
template<class I, bool TR> static void one(Rng &r, const char *pol, bool okbad, bool exactsel) {
  typedef typename I::base_type T;
  const std::vector<ops::Op<I> > &cat = ops::Cat<I, TR>::all();
  const ops::Op<I> &op = cat[r.below(cat.size())];
  ops::Raw<T> q = ops::raw<T>(r, op.flags);
  if (TR && (op.flags & ops::TR)) { // libm away from its limits
    for (T *p : {&q.x.l, &q.x.u}) if (!std::isfinite((long double)*p)) *p = *p < 0 ? T(-2) : T(2);
    if (!(q.x.l <= q.x.u)) std::swap(q.x.l, q.x.u);
  }
  bool bad = okbad && r.chance(1, 4);
  uint64_t rs = r.next();
  ops::Out<I> ref;
  std::string key = std::string(op.name) + "/" + gen::Tn<T>::name() + "/" + pol;
  for (int k = 0; k < 4; ++k) {
    int m = MODES[k];
    Rng r2(rs);
    ops::Args<I> a = operands<I>(r2, q, bad);
    ops::Out<I> o;
    std::fesetround(m);
    FpState before = fpstate();
    ops::run<I>(op, a, o);
    FpState after = fpstate();
    std::fesetround(FE_TONEAREST);
    vh::eval();
    if (after != before) {
      Rng r3(rs);
      vh::fail("mode/" + key, ops::astr(op, operands<I>(r3, q, bad)) + vh::fmt(" called in mode %s: left mode %s (mxcsr %x->%x, x87 cw %x->%x), ", mname(m), mname(after.mode), before.mx, after.mx, before.cw, after.cw) + ops::ostr(o));
      std::fesetenv(FE_DFL_ENV);
    }
    if (o.kind == ops::K_EXC) vh::count("operations left by an exception");
    if (k == 0) ref = o;
#ifdef __OPTIMIZE__
    // a compiler that optimises may move calls of libm across a change of mode
    else if (op.flags & ops::TR) {}
#endif
    else if (!ops::sameout(ref, o)) {
      Rng r3(rs);
      vh::fail("result/" + key, ops::astr(op, operands<I>(r3, q, bad)) + vh::fmt(" gives %s in mode %s and %s in mode nearest", ops::ostr(o).c_str(), mname(m), ops::ostr(ref).c_str()));
    }
    vh::nontrivial(ops::hraw(q, op.flags) ^ vh::hstr(key.c_str()) ^ vh::mix(k) ^ (bad ? rs : 0));
  }
  vh::count(std::string("policy ") + pol);
  if (r.below(20000) == 0) vh::sample(key + " " + ops::astr(op, ops::args<I>(q)) + " -> " + ops::ostr(ref));
}
template<class T> static void all(Rng &r) {
  switch (r.below(9)) {
  case 0: one<typename Pol<T>::Def, false>(r, "default", true, false); break;
  case 1: one<typename Pol<T>::Strict, false>(r, "strict", false, false); break;
  case 2: one<typename Pol<T>::Catch, false>(r, "catch", true, false); break;
  case 3: one<typename Pol<T>::Topp0, true>(r, "transc_exact(opp)", true, false); break;
  case 4: one<typename Pol<T>::Tstd, true>(r, "transc_std", true, false); break;
  case 5: one<typename Pol<T>::Topp, true>(r, "transc_opp", true, false); break;
  case 6: one<typename Pol<T>::Astd, false>(r, "arith_std", true, false); break;
  case 7: one<typename Pol<T>::Aopp, false>(r, "arith_opp", true, false); break;
  default: one<typename Pol<T>::Def, false>(r, "default", true, false); break;
  }
}
#ifndef TSEL
#define TSEL 15
#endif
#if TSEL & 1
VH_GROUP(f, "float", 120000, 2500000) { (void)idx; all<float>(r); }
#endif
#if TSEL & 2
VH_GROUP(d, "double", 160000, 4000000) { (void)idx; all<double>(r); }
#endif
#if TSEL & 4
VH_GROUP(l, "ldouble", 120000, 2500000) { (void)idx; all<long double>(r); }
#endif

#if TSEL & 8
// ---- conversions between types, under every mode
template<class T, class U> static void conv(Rng &r, const char *nm) {
  typedef typename Types<T>::B I; typedef typename Types<U>::B J;
  gen::B<U> x = gen::ival<U>(r); U u = gen::fin<U>(r); long long ll = (long long)(r.next() >> r.below(60)); unsigned long long ull = r.next() >> r.below(60);
  I ref[8];
  for (int k = 0; k < 4; ++k) {
    J src = mk<J>(x);
    escape(x); escape(u); escape(ll); escape(ull); escape(src);
    std::fesetround(MODES[k]);
    FpState b = fpstate();
    I z[8]; z[0] = I(src); z[1] = src; z[2] = I(u); z[3] = u; z[4] = I(x.l, x.u); z[5] = I(ll); z[6] = ull; z[7] = I(-ll, ll < 0 ? -ll : ll);
    FpState a = fpstate();
    std::fesetround(FE_TONEAREST);
    vh::eval(8);
    if (a != b) { vh::fail(std::string("mode/conversion/") + nm, "a conversion " + x.s() + vh::fmt(" changed mode %s to %s", mname(b.mode), mname(a.mode))); std::fesetenv(FE_DFL_ENV); }
    for (int i = 0; i < 8; ++i) {
      if (k == 0) ref[i] = z[i];
      else if (!eqi(ref[i], z[i])) vh::fail(std::string("result/conversion/") + nm, vh::fmt("conversion %d of ", i) + x.s() + " " + gen::str(u) + vh::fmt(" %lld %llu in mode %s: ", ll, ull, mname(MODES[k])) + istr(z[i]) + " in mode nearest " + istr(ref[i]));
    }
    vh::nontrivial(gen::hash(x) ^ vh::hstr(nm) ^ vh::mix(k));
  }
}
VH_GROUP(c, "conversions", 60000, 1500000) {
  (void)idx;
  switch (r.below(6)) {
  case 0: conv<float, double>(r, "float<-double"); break;
  case 1: conv<double, float>(r, "double<-float"); break;
  case 2: conv<double, long double>(r, "double<-ldouble"); break;
  case 3: conv<long double, double>(r, "ldouble<-double"); break;
  case 4: conv<float, long double>(r, "float<-ldouble"); break;
  default: conv<long double, float>(r, "ldouble<-float");
  }
}

// ---- nested rounding objects, exceptions through them
template<class R> static void scope(Rng &r, int depth, bool thr) {
  FpState b = fpstate();
  {
    typename R::T v = 1.5; (void)v;
    typename R::Rnd rnd; (void)&rnd;
    if (depth > 0) {
      if (thr && depth == 1) throw 1;
      if (r.chance(1, 3)) std::fesetround(MODES[r.below(4)]);
      extern void scopes(Rng &, int, bool);
      scopes(r, depth - 1, thr);
    }
  }
  FpState a = fpstate();
  vh::eval();
  if (a != b) { vh::fail(std::string("scope/") + R::name(), vh::fmt("a rounding object found mode %s and left %s", mname(b.mode), mname(a.mode))); }
}
template<class T_> struct RDef { typedef T_ T; typedef il::rounded_math<T> Rnd; static const char *name() { return "rounded_math"; } };
template<class T_> struct RStd { typedef T_ T; typedef il::save_state<il::rounded_arith_std<T> > Rnd; static const char *name() { return "save_state<std>"; } };
template<class T_> struct RTr { typedef T_ T; typedef il::save_state<il::rounded_transc_opp<T> > Rnd; static const char *name() { return "save_state<transc_opp>"; } };
template<class T_> struct RTs { typedef T_ T; typedef il::save_state<il::rounded_transc_std<T> > Rnd; static const char *name() { return "save_state<transc_std>"; } };
template<class T> static void scopes1(Rng &r, int d, bool t) {
  switch (r.below(4)) {
  case 0: scope<RDef<T> >(r, d, t); break;
  case 1: scope<RStd<T> >(r, d, t); break;
  case 2: scope<RTr<T> >(r, d, t); break;
  default: scope<RTs<T> >(r, d, t); break;
  }
}
void scopes(Rng &r, int d, bool t) {
  switch (r.below(3)) { case 0: scopes1<float>(r, d, t); break; case 1: scopes1<double>(r, d, t); break; default: scopes1<long double>(r, d, t); }
}
VH_GROUP(n, "nested", 40000, 1000000) {
  (void)idx;
  int m = MODES[r.below(4)];
  bool thr = r.chance(1, 3);
  std::fesetround(m);
  FpState b = fpstate();
  vh::op("nested rounding objects");
  try { scopes(r, 1 + r.below(6), thr); } catch (int) { vh::count("scopes left by an exception"); }
  FpState a = fpstate();
  std::fesetround(FE_TONEAREST);
  vh::eval();
  if (a != b) { vh::fail("scope/outer", vh::fmt("mode %s became %s", mname(b.mode), mname(a.mode))); std::fesetenv(FE_DFL_ENV); }
  vh::nontrivial(r.next());
}
#endif
