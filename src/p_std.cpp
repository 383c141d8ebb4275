// P21: a client in the common subset of C++98 to C++23: every public header,
// every function, on pseudo-random operands; one case per line of a table of
// seeds, with long double shadows for the results.  Prints the records of vh.hpp.
#include <boost/numeric/interval.hpp>
#include <boost/numeric/interval/io.hpp>
#include <boost/numeric/interval/compare/certain.hpp>
#include <boost/numeric/interval/compare/possible.hpp>
#include <boost/numeric/interval/compare/explicit.hpp>
#include <boost/numeric/interval/compare/lexicographic.hpp>
#include <boost/numeric/interval/compare/set.hpp>
#include <boost/numeric/interval/compare/tribool.hpp>
#include <boost/numeric/interval/ext/integer.hpp>
#include <boost/numeric/interval/limits.hpp>
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <stdexcept>
namespace bn = boost::numeric; namespace il = bn::interval_lib;
typedef unsigned long u64;
static u64 state, evals, nviol; static unsigned long idx;
static unsigned rnd() { state = state * 6364136223846793005ul + 1442695040888963407ul; return (unsigned)(state >> 33); }
static void fail(const char *key, const char *m) { if (nviol++ < 20) std::printf("{\"t\":\"viol\",\"key\":\"%s\",\"group\":\"client\",\"idx\":%lu,\"msg\":\"%s\"}\n", key, idx, m); }
template<class T> static T num() { T v = (T)((int)(rnd() % 2001) - 1000) / (T)(1 + rnd() % 97); switch (rnd() % 12) { case 0: v = 0; break; case 1: v *= (T)1e30; break; case 2: v *= (T)1e-30; break; } return v; }
#define IN(R, V, N) do { ++evals; const I rr_ = (R); long double vv_ = (V), lo_ = rr_.lower(), hi_ = rr_.upper(), ee_ = 1e-6L * std::fabs(vv_); if (!(lo_ <= vv_ + ee_ && vv_ - ee_ <= hi_)) fail("client/" N, N " does not contain the value at a point"); } while (0)
#define IS(C, N) do { ++evals; if (!(C)) fail("client/" N, N " is wrong"); } while (0)
static volatile double keep;
template<class T, class I> static void one() {
  T a = num<T>(), b = num<T>(), c = num<T>(), d = num<T>(), t = num<T>();
  if (a > b) { T s = a; a = b; b = s; } if (c > d) { T s = c; c = d; d = s; }
  const I x(a, b), y(c, d); I z = x; int n = (int)(rnd() % 9); typedef long double L; const L p = (L)a / 2 + (L)b / 2, q = (L)c / 2 + (L)d / 2;
  IN(x + y, p + q, "x+y"); IN(x - y, p - q, "x-y"); IN(x * y, p * q, "x*y"); IN(x + t, p + t, "x+t"); IN(t - x, t - p, "t-x"); IN(x * t, p * t, "x*t"); IN(-x, -p, "-x"); IN(+x, p, "+x");
  if (!zero_in(y)) { IN(x / y, p / q, "x/y"); IN(t / y, t / q, "t/y"); IN(il::multiplicative_inverse(y), 1 / q, "inverse"); keep = (double)fmod(x, y).lower(); }
  if (t != 0) IN(x / t, p / t, "x/t");
  z = x; z += y; IN(z, p + q, "+="); z = x; z -= y; IN(z, p - q, "-="); z = x; z *= y; IN(z, p * q, "*="); z = x; z *= z; IN(z, p * p, "z*=z"); z = x; z -= z; IN(z, 0, "z-=z");
  IN(abs(x), std::fabs(p), "abs"); IN(square(x), p * p, "square"); if (b >= 0 && p >= 0) IN(sqrt(x), std::sqrt(p), "sqrt"); IN(pow(x, n), std::pow(p, n), "pow");
  if (n & 1) { L w = std::pow(std::fabs(p), 1 / (L)n); if (p < 0) w = -w; z = nth_root(x, n); ++evals; if (!((L)z.lower() <= w * (w < 0 ? 1 - 1e-5L : 1 + 1e-5L) + 1e-30L && w * (w < 0 ? 1 + 1e-5L : 1 - 1e-5L) - 1e-30L <= (L)z.upper())) fail("client/nth_root", "nth_root"); }
  IN(min BOOST_PREVENT_MACRO_SUBSTITUTION (x, y), p < q ? p : q, "min"); IN(max BOOST_PREVENT_MACRO_SUBSTITUTION (x, y), p < q ? q : p, "max"); IN(hull(x, y), p, "hull"); IN(hull(x, t), t, "hull t");
  IS(subset(x, hull(x, y)) && in(a, x) && !proper_subset(x, x) && equal(x, x) && overlap(x, hull(x, y)), "set predicates"); I m = intersect(x, y); IS(overlap(x, y) ? subset(m, x) && subset(m, y) : empty(m), "intersect");
  IS(in(median(x), x) && width(x) >= b - a && norm(x) >= std::fabs(a) && lower(x) == a && upper(x) == b, "scalars"); std::pair<I, I> bs = bisect(x); IS(bs.first.upper() == bs.second.lower() && bs.first.lower() == a, "bisect"); IS(subset(x, widen(x, std::fabs(t))), "widen");
  IS(il::cerlt(x, y) == (b < c) && il::poslt(x, y) == (a < d) && !(il::cereq(x, y) && il::posne(x, y)), "explicit");
  { using namespace il::compare::lexicographic; IS((x < y) == (a < c || (a == c && b < d)), "lexicographic"); } { using namespace il::compare::set; IS((x <= y) == (c <= a && b <= d), "set compare"); }
  { using namespace il::compare::certain; IS((x < y) == (b < c), "certain"); } { using namespace il::compare::possible; IS((x < y) == (a < d), "possible"); }
  { using namespace il::compare::tribool; boost::logic::tribool u = x < y; IS(b < c ? bool(u == true) : a >= d ? bool(u == false) : boost::logic::indeterminate(u), "tribool"); }
  try { bool u = x < y; IS(u ? b < c : a >= d, "throwing"); } catch (il::comparison_error const &) { IS(!(b < c) && !(a >= d), "throwing"); }
  std::ostringstream o; o << x; IS(o.str().size() > 2, "stream");
  z = x; z = t; IS(singleton(z), "assign"); z.set_empty(); IS(empty(z), "empty"); z.assign(a, b); IS(equal(z, x), "assign2"); z.set_whole(); IS(subset(x, z), "whole");
  typename il::change_rounding<I, il::save_state_nothing<il::rounded_arith_exact<T> > >::type e(x); IS(equal(I(e), x), "conversion");
  keep = (double)il::pi<I>().upper(); keep = (double)std::numeric_limits<I>::max BOOST_PREVENT_MACRO_SUBSTITUTION ().upper();
  { typedef typename il::unprotect<I>::type R; typename I::traits_type::rounding rnd_; R xx = x, yy = y; I s = xx * yy + xx; IN(s, p * q + p, "unprotected"); }
  { typename I::traits_type::rounding rnd_; IN(I(il::add<I>(a, c)), (L)a + c, "add"); IN(I(il::sub<I>(a, c)), (L)a - c, "sub"); IN(I(il::mul<I>(a, c)), (L)a * c, "mul"); if (c != 0) IN(I(il::div<I>(a, c)), (L)a / c, "div"); }
}
template<class I> static void ints() { int a = (int)(rnd() % 50) - 25, b = a + (int)(rnd() % 5); I x(a, b); IN(x + I(3), a + 3, "int+"); IN(x * x, (long double)b * b, "int*"); IN(-x, -b, "int-"); IN(hull(x, typename I::base_type(7)), 7, "inthull"); IN(square(x), (long double)a * a, "intsq"); IN(pow(x, 3), (long double)a * a * a, "intpow"); IS(median(x) >= a && median(x) <= b && width(x) == b - a && norm(x) >= 0, "intscal"); }
template<class T> struct P { typedef bn::interval<T, il::policies<il::save_state<il::rounded_transc_std<T> >, il::checking_base<T> > > D; typedef bn::interval<T, il::policies<il::rounded_math<T>, il::checking_base<T> > > B; typedef bn::interval<T, il::policies<il::save_state<il::rounded_transc_opp<T> >, il::checking_catch_nan<T, il::checking_no_empty<T> > > > C; };
template<class T, class I> static void transc() {
  T a = num<T>(); if (std::fabs(a) > 50) a = 3; T b = a + (T)(rnd() % 100) / 64; const I x(a, b); typedef long double L; const L p = (L)a / 2 + (L)b / 2;
  IN(exp(x), std::exp(p), "exp"); IN(sin(x), std::sin(p), "sin"); IN(cos(x), std::cos(p), "cos"); IN(atan(x), std::atan(p), "atan"); IN(sinh(x), std::sinh(p), "sinh"); IN(cosh(x), std::cosh(p), "cosh"); IN(tanh(x), std::tanh(p), "tanh");
  if (a > 0) IN(log(x), std::log(p), "log"); if (a > -1 && b < 1) { IN(asin(x), std::asin(p), "asin"); IN(acos(x), std::acos(p), "acos"); }
}
int main(int argc, char **argv) {
  unsigned long seed = 1, sh = 0, ns = 1, n = 4000; double scale = 1;
  for (int i = 1; i < argc; ++i) { if (!std::strcmp(argv[i], "--seed")) seed = std::strtoul(argv[++i], 0, 10); else if (!std::strcmp(argv[i], "--shard")) { sh = std::atol(argv[i + 1]); ns = std::atol(argv[i + 2]); i += 2; } else if (!std::strcmp(argv[i], "--scale")) scale = std::atof(argv[++i]); else if (!std::strcmp(argv[i], "--thorough")) n *= 20; }
  n = (unsigned long)(n * scale);
  for (idx = sh; idx < n; idx += ns) {
    state = seed * 0x9e3779b97f4a7c15ul + idx * 0xbf58476d1ce4e5b9ul; rnd(); rnd();
    one<double, P<double>::B>(); one<float, P<float>::B>(); one<long double, P<long double>::B>(); transc<double, P<double>::D>(); transc<float, P<float>::D>(); ints<bn::interval<int> >(); ints<bn::interval<short> >();
    transc<double, P<double>::C>();
  }
  std::printf("{\"t\":\"stats\",\"evals\":%lu,\"nontriv\":%lu,\"nviol\":%lu,\"counters\":{\"client, C++ %ld\":%lu},\"samples\":[]}\n", evals, evals, nviol, (long)__cplusplus, evals);
  return 0;
}
