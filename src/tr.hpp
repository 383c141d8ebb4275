// A rounding policy whose elementary functions are correctly rounded (MPFR).
#ifndef TR_HPP
#define TR_HPP
#include "mp.hpp"
#include "lib.hpp"
#include <cfenv>

namespace tr {
enum Fn { EXP, LOG, SIN, COS, TAN, ASIN, ACOS, ATAN, SINH, COSH, TANH, ASINH, ACOSH, ATANH, NFN };
inline const char *fname(int f) {
  static const char *n[] = {"exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh"};
  return n[f];
}
inline mp::Op1 mpfn(int f) {
  static const mp::Op1 t[] = {mpfr_exp, mpfr_log, mpfr_sin, mpfr_cos, mpfr_tan, mpfr_asin, mpfr_acos, mpfr_atan, mpfr_sinh, mpfr_cosh, mpfr_tanh, mpfr_asinh, mpfr_acosh, mpfr_atanh};
  return t[f];
}
// arguments outside the domain or NaN: noted, not judged here
struct Seen { uint64_t calls[NFN][2]; uint64_t nan_in, out_of_domain, infinite; };
inline Seen &seen() { static thread_local Seen s; return s; }

struct KeepMode { int m; KeepMode() : m(std::fegetround()) { std::fesetround(FE_TONEAREST); } ~KeepMode() { std::fesetround(m); } };
// the largest T not above f(x) (up = false), the smallest not below (up = true)
template<class T> NOIPA T value(int f, T x, bool up) {
  KeepMode k;
  seen().calls[f][up]++;
  if (x != x) seen().nan_in++;
  mp::M a(x), v;
  mpfn(f)(v.v, a.v, up ? MPFR_RNDU : MPFR_RNDD);
  if (v.nan()) { seen().out_of_domain++; return std::numeric_limits<T>::quiet_NaN(); }
  return up ? mp::ru<T>(v) : mp::rd<T>(v);
}
// rounded_arith_opp with correctly rounded functions on top
template<class T, class Base = il::rounded_arith_opp<T> > struct MpTransc : Base {
#define F(n, N)                                       \
  T n##_down(const T &x) { return value<T>(N, x, false); } \
  T n##_up(const T &x) { return value<T>(N, x, true); }
  F(exp, EXP) F(log, LOG) F(sin, SIN) F(cos, COS) F(tan, TAN) F(asin, ASIN) F(acos, ACOS) F(atan, ATAN)
  F(sinh, SINH) F(cosh, COSH) F(tanh, TANH) F(asinh, ASINH) F(acosh, ACOSH) F(atanh, ATANH)
#undef F
};
template<class T> struct Rnd : il::save_state<MpTransc<T> > {};
} // namespace tr
#endif
