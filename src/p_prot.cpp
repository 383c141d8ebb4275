// P10: unprotected types, alternative rounding policies, policy changers.
#include "ops.hpp"
#include "mp.hpp"
#include <type_traits>
using vh::Rng; using gen::B;
#ifndef TSEL
#define TSEL 15
#endif

template<class T> struct P {
  typedef il::checking_base<T> CB; typedef il::checking_catch_nan<T, il::checking_no_empty<T> > CC;
  typedef il::rounded_math<T> Def;
  
};

// the machine's rounding control, as the predefined classes use it
template<class T> struct R {
  typedef il::rounded_math<T> Def;
  typedef il::save_state<il::rounded_arith_std<T, il::rounding_control<T> > > Std;
  typedef il::save_state<il::rounded_arith_opp<T, il::rounding_control<T> > > Opp;
  typedef il::save_state_nothing<il::rounded_arith_std<T, il::rounding_control<T> > > StdN;
  typedef il::save_state_nothing<il::rounded_arith_opp<T, il::rounding_control<T> > > OppN;
  typedef il::save_state<il::rounded_transc_std<T> > TStd;
  typedef il::save_state<il::rounded_transc_opp<T> > TOpp;
  typedef il::save_state<il::rounded_transc_exact<T, il::rounded_arith_opp<T> > > TEx;
};
template<class T, class Rn, class C> struct Iv { typedef bn::interval<T, il::policies<Rn, C> > type; };

template<class I> static ops::Args<I> operands(uint64_t seed, const ops::Raw<typename I::base_type> &q, bool bad) {
  ops::Args<I> a = ops::args<I>(q); Rng r(seed);
  typedef typename I::base_type T; const T nan = std::numeric_limits<T>::quiet_NaN();
  if (bad) switch (r.below(3)) { case 0: a.x = I(nan, nan, true); break; case 1: a.y = I(nan, nan, true); break; default: a.t = nan; }
  return a;
}
template<class T> static void tame(ops::Raw<T> &q) {
  for (T *p : {&q.x.l, &q.x.u}) if (!std::isfinite((long double)*p)) *p = *p < 0 ? T(-2) : T(2);
  if (!(q.x.l <= q.x.u)) std::swap(q.x.l, q.x.u);
}
struct Job { int op; uint64_t bs; bool bad; };

// a sequence of operations: first on the protected type, then on the unprotected one under ONE rounding object
template<class I, bool TR, bool OPPMODE> static void sequence(Rng &r, const char *pol, bool okbad) {
  typedef typename I::base_type T;
  typedef typename il::unprotect<I>::type U;
  const std::vector<ops::Op<I> > &ci = ops::Cat<I, TR>::all();
  const std::vector<ops::Op<U> > &cu = ops::Cat<U, TR>::all();
  int len = 1 + r.below(r.chance(1, 4) ? 40 : 8);
  std::vector<Job> jobs; std::vector<ops::Raw<T> > raws; std::vector<ops::Out<I> > refs;
  for (int k = 0; k < len; ++k) {
    Job j; j.op = r.below(ci.size()); j.bs = r.next(); j.bad = okbad && r.chance(1, 10);
    ops::Raw<T> q = ops::raw<T>(r, ci[j.op].flags);
    if (ci[j.op].flags & ops::TR) tame(q);
    jobs.push_back(j); raws.push_back(q);
    ops::Args<I> a = operands<I>(j.bs, q, j.bad);
    ops::Out<I> o;
    ops::run<I>(ci[j.op], a, o);
    refs.push_back(o);
  }
  std::string what, key;
  int ambient = r.below(4); static const int MODES[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
  std::fesetround(MODES[ambient]);
  {
    typename I::traits_type::rounding rnd; (void)&rnd;
    for (int k = 0; k < len; ++k) {
      ops::Args<U> a = operands<U>(jobs[k].bs, raws[k], jobs[k].bad);
      ops::Out<U> o;
      ops::run<U>(cu[jobs[k].op], a, o);
      int mode = std::fegetround();
      vh::eval();
      bool eq = ops::sameout(refs[k], o);
#ifdef __OPTIMIZE__
      if (cu[jobs[k].op].flags & ops::TR) eq = true;
#endif
      if (!eq || (OPPMODE && mode != FE_UPWARD)) {
        ops::Args<I> b = operands<I>(jobs[k].bs, raws[k], jobs[k].bad);
        int m2 = std::fegetround(); std::fesetround(FE_TONEAREST);
        if (!eq) vh::fail(std::string("unprotect/") + pol + "/" + cu[jobs[k].op].name, vh::fmt("step %d of %d after %s: ", k, len, k ? cu[jobs[k - 1].op].name : "start") + ops::astr(ci[jobs[k].op], b) + " unprotected " + ops::ostr(o) + " protected " + ops::ostr(refs[k]));
        else vh::fail(std::string("ready/") + pol + "/" + cu[jobs[k].op].name, ops::astr(ci[jobs[k].op], b) + vh::fmt(" leaves rounding mode %x, the policy needs upward", mode));
        std::fesetround(m2);
      }
      vh::nontrivial(ops::hraw(raws[k], cu[jobs[k].op].flags) ^ vh::hstr(pol) ^ vh::mix(sizeof(T) + jobs[k].op));
    }
  }
  std::fesetround(FE_TONEAREST);
  vh::count(std::string("sequences ") + pol); vh::count("steps in sequences", len);
}
// two types with different rounding policies: the same results
template<class I, class J, bool TR> static void agree(Rng &r, const char *nm, bool okbad, int need_mode) {
  typedef typename I::base_type T;
  const std::vector<ops::Op<I> > &ci = ops::Cat<I, TR>::all();
  const std::vector<ops::Op<J> > &cj = ops::Cat<J, TR>::all();
  int i = r.below(ci.size());
  ops::Raw<T> q = ops::raw<T>(r, ci[i].flags);
  if (ci[i].flags & ops::TR) tame(q);
  uint64_t bs = r.next(); bool bad = okbad && r.chance(1, 10);
  ops::Args<I> a = operands<I>(bs, q, bad); ops::Out<I> o;
  ops::Args<J> b = operands<J>(bs, q, bad); ops::Out<J> p;
  ops::run<I>(ci[i], a, o);
  if (need_mode >= 0) std::fesetround(need_mode);
  ops::run<J>(cj[i], b, p);
  std::fesetround(FE_TONEAREST);
  vh::eval();
  if (!ops::sameout(o, p)) vh::fail(std::string("agree/") + nm + "/" + ci[i].name, std::string(nm) + ": " + ops::astr(ci[i], operands<I>(bs, q, bad)) + ": " + ops::ostr(o) + " against " + ops::ostr(p));
  vh::nontrivial(ops::hraw(q, ci[i].flags) ^ vh::hstr(nm) ^ vh::mix(sizeof(T) + 31 * i));
  if (r.below(20000) == 0) vh::sample(std::string(nm) + " " + ops::astr(ci[i], operands<I>(bs, q, bad)) + " -> " + ops::ostr(o));
}
template<class T> static void all(Rng &r) {
  typedef typename P<T>::CB CB; typedef typename P<T>::CC CC;
  switch (r.below(10)) {
  case 0: sequence<typename Iv<T, typename R<T>::Def, CB>::type, false, true>(r, "rounded_math", true); break;
  case 1: sequence<typename Iv<T, typename R<T>::Def, CC>::type, false, true>(r, "rounded_math,throwing", true); break;
#if TSEL & 16
  case 2: sequence<typename Iv<T, typename R<T>::Std, CB>::type, false, false>(r, "arith_std", true); break;
  case 3: sequence<typename Iv<T, typename R<T>::TOpp, CC>::type, true, true>(r, "transc_opp", true); break;
  case 4: sequence<typename Iv<T, typename R<T>::TStd, CB>::type, true, false>(r, "transc_std", true); break;
#endif
#if TSEL & 32
  case 5: agree<typename Iv<T, typename R<T>::Def, CB>::type, typename Iv<T, typename R<T>::StdN, CB>::type, false>(r, "opp against std without state saving", true, (int[]){FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}[r.below(4)]); break;
  case 6: agree<typename Iv<T, typename R<T>::Def, CB>::type, typename Iv<T, typename R<T>::Std, CB>::type, false>(r, "opp against std", true, -1); break;
  case 7: agree<typename Iv<T, typename R<T>::Def, CB>::type, typename Iv<T, typename R<T>::OppN, CB>::type, false>(r, "opp without state saving", true, FE_UPWARD); break;
  case 8: agree<typename Iv<T, typename R<T>::Def, CB>::type, typename Iv<T, typename R<T>::TEx, CB>::type, false>(r, "rounded_math against transc_exact(opp)", true, -1); break;
#endif
  default: break;
  }
}
#if TSEL & 1
VH_GROUP(f, "float", 150000, 3000000) { (void)idx; all<float>(r); }
#endif
#if TSEL & 2
VH_GROUP(d, "double", 200000, 4000000) { (void)idx; all<double>(r); }
#endif
#if TSEL & 4
VH_GROUP(l, "ldouble", 100000, 3000000) { (void)idx; all<long double>(r); }
#endif

#if TSEL & 8
// ---- the functions of a rounding policy, called in any order on one object
template<class Rn, class T> struct Call {
  static NOIPA T go(Rn &n, int f, const T &a, const T &b) {
    switch (f) {
    case 0: return n.add_down(a, b); case 1: return n.add_up(a, b);
    case 2: return n.sub_down(a, b); case 3: return n.sub_up(a, b);
    case 4: return n.mul_down(a, b); case 5: return n.mul_up(a, b);
    case 6: return n.div_down(a, b); case 7: return n.div_up(a, b);
    case 8: return n.sqrt_down(a); case 9: return n.sqrt_up(a);
    case 10: return n.median(a, b);
    case 11: return n.int_down(a); case 12: return n.int_up(a);
    }
    return a;
  }
  template<class U> static NOIPA T conv(Rn &n, bool up, const U &v) { return up ? n.conv_up(v) : n.conv_down(v); }
};
static const char *FN[] = {"add_down", "add_up", "sub_down", "sub_up", "mul_down", "mul_up", "div_down", "div_up", "sqrt_down", "sqrt_up", "median", "int_down", "int_up", "conv_down", "conv_up"};
template<class T> static bool convok(const mp::M &v, T got, bool up) {
  return up ? got == mp::ru<T>(v) : got == mp::rd<T>(v);
}
template<class Rn, class T> static void direct(Rng &r, const char *pol, int establish) {
  T vals[2];
  int len = 1 + r.below(20), prev = -1;
  std::fesetround(establish >= 0 ? establish : (int[]){FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}[r.below(4)]);
  int outer = std::fegetround();
  {
    Rn n;
    for (int k = 0; k < len; ++k) {
      int f = r.below(15);
      int keep = std::fegetround();
      std::fesetround(FE_TONEAREST);
      vals[0] = gen::fin<T>(r); vals[1] = gen::fin<T>(r);
      if (f >= 8 && f <= 9) vals[0] = std::fabs(vals[0]);
      if (f >= 6 && f <= 7 && vals[1] == 0) vals[1] = 3;
      T &a = vals[0], &b = vals[1];
      double cd = gen::fin<double>(r); float cf = gen::fin<float>(r); long double cl = gen::fin<long double>(r);
      int ci = (int)(r.next() >> (32 + r.below(31))); unsigned long long cu = r.next() >> r.below(63); long long cs = (long long)(r.next() >> r.below(63)) * (r.chance(1, 2) ? 1 : -1);
      int ty = r.below(6);
      std::fesetround(keep);
      escape(vals); escape(cd); escape(cf); escape(cl); escape(ci); escape(cu); escape(cs);
      T got;
      vh::op(FN[f]);
      typedef Call<Rn, T> C;
      if (f < 13) got = C::go(n, f, a, b);
      else switch (ty) {
        case 0: got = C::conv(n, f == 14, cd); break; case 1: got = C::conv(n, f == 14, cf); break; case 2: got = C::conv(n, f == 14, cl); break;
        case 3: got = C::conv(n, f == 14, ci); break; case 4: got = C::conv(n, f == 14, cu); break; default: got = C::conv(n, f == 14, cs);
        }
      keep = std::fegetround();
      std::fesetround(FE_TONEAREST);
      vh::eval();
      bool ok = true; T want = 0; mp::M m;
      bool up = f & 1;
      switch (f) {
      case 0: case 1: { mp::H h = mp::h_add<T>(a, a, b, b); want = up ? mp::ru<T>(h.hi) : mp::rd<T>(h.lo); break; }
      case 2: case 3: { mp::H h = mp::h_sub<T>(a, a, b, b); want = up ? mp::ru<T>(h.hi) : mp::rd<T>(h.lo); break; }
      case 4: case 5: { mp::H h = mp::h_mul<T>(a, a, b, b); want = up ? mp::ru<T>(h.hi) : mp::rd<T>(h.lo); break; }
      case 6: case 7: { mp::H h = mp::h_div<T>(a, a, b, b); want = up ? mp::ru<T>(h.hi) : mp::rd<T>(h.lo); break; }
      case 8: case 9: { mp::H h = mp::h_sqrt<T>(a, a); want = up ? mp::ru<T>(h.hi) : mp::rd<T>(h.lo); break; }
      case 10: { mpfr_t s; mpfr_init2(s, 40000); mpfr_add(s, mp::M(a).v, mp::M(b).v, MPFR_RNDN); mpfr_div_2ui(s, s, 1, MPFR_RNDN);
        // nearest number; a second rounding is allowed where the sum rounds first
        T lo, hi; { mp::M d; mpfr_set(d.v, s, MPFR_RNDD); lo = mp::rd<T>(d); mpfr_set(d.v, s, MPFR_RNDU); hi = mp::ru<T>(d); }
        ok = got == lo || got == hi; want = lo; mpfr_clear(s); break; }
      case 11: want = std::floor(a); break;
      case 12: want = std::ceil(a); break;
      default: {
        mp::M v;
        switch (ty) { case 0: v = mp::M(cd); break; case 1: v = mp::M(cf); break; case 2: v = mp::M(cl); break;
          case 3: v = mp::M((double)ci); break; case 4: mpfr_set_uj(v.v, cu, MPFR_RNDN); break; default: mpfr_set_sj(v.v, cs, MPFR_RNDN); }
        want = f == 14 ? mp::ru<T>(v) : mp::rd<T>(v);
      }
      }
      if (f != 10) ok = got == want;
      if (!ok) vh::fail(std::string("policy/") + pol + "/" + FN[f] + "/" + gen::Tn<T>::name(), vh::fmt("%s after %s: %s(%s, %s) conv source type %d (%a %a %La %d %llu %lld) = %s, expected %s", pol, prev < 0 ? "start" : FN[prev], FN[f], gen::str(a).c_str(), gen::str(b).c_str(), ty, cd, cf, cl, ci, cu, cs, gen::str(got).c_str(), gen::str(want).c_str()));
      vh::nontrivial(gen::bits(a) ^ vh::mix(gen::bits(b)) ^ vh::hstr(FN[f]) ^ vh::hstr(pol) ^ sizeof(T));
      prev = f;
      std::fesetround(keep);
    }
  }
  int left = std::fegetround();
  std::fesetround(FE_TONEAREST);
  if (establish < 0 && left != outer) vh::fail(std::string("policy/") + pol + "/restore", "the rounding object did not restore the mode");
  vh::count(std::string("direct calls ") + pol, len);
}
template<class T> static void directs(Rng &r) {
  switch (r.below(6)) {
  case 0: direct<typename R<T>::Def, T>(r, "rounded_math", -1); break;
  case 1: direct<typename R<T>::Std, T>(r, "arith_std", -1); break;
  case 2: direct<typename R<T>::TOpp, T>(r, "transc_opp", -1); break;
  case 3: direct<typename R<T>::TStd, T>(r, "transc_std", -1); break;
  case 4: direct<typename R<T>::OppN, T>(r, "arith_opp, no state", FE_UPWARD); break;
  default: direct<typename R<T>::StdN, T>(r, "arith_std, no state", (int[]){FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}[r.below(4)]); break;
  }
}
VH_GROUP(df, "direct float", 40000, 1000000) { (void)idx; directs<float>(r); }
VH_GROUP(dd, "direct double", 60000, 1500000) { (void)idx; directs<double>(r); }
VH_GROUP(dl, "direct ldouble", 30000, 1000000) { (void)idx; directs<long double>(r); }

// ---- policy changers
template<class A, class B> static void is_same(const char *w) { vh::eval(); if (!std::is_same<A, B>::value) vh::fail(std::string("changer/") + w, std::string(w) + " has the wrong type"); }
template<class T> static void changers() {
  typedef typename P<T>::CB CB; typedef typename P<T>::CC CC;
  typedef bn::interval<T> D; typedef typename R<T>::Std S; typedef typename R<T>::TOpp O;
  typedef bn::interval<T, il::policies<S, CC> > I;
  is_same<typename il::change_rounding<I, O>::type, bn::interval<T, il::policies<O, CC> > >("change_rounding");
  is_same<typename il::change_checking<I, CB>::type, bn::interval<T, il::policies<S, CB> > >("change_checking");
  is_same<typename il::change_checking<typename il::change_rounding<D, S>::type, CC>::type, I>("both changes");
  is_same<typename D::traits_type::checking, il::checking_strict<T> >("default checking");
  is_same<typename D::traits_type::rounding, il::rounded_math<T> >("default rounding");
  typedef typename il::unprotect<I>::type U;
  is_same<typename U::traits_type::checking, CC>("unprotect checking");
  is_same<typename U::base_type, T>("unprotect base");
  is_same<typename U::traits_type::rounding, typename S::unprotected_rounding>("unprotect rounding");
  is_same<typename il::unprotect<U>::type, U>("unprotect twice");
}
VH_GROUP(ch, "changers", 8, 8) { (void)idx; (void)r; changers<float>(); changers<double>(); changers<long double>(); }
#endif
