// The library under test, and the interval types the monitors use.
#ifndef LIB_HPP
#define LIB_HPP
#include <boost/numeric/interval.hpp>
#include "gen.hpp"

namespace bn = boost::numeric;
namespace il = boost::numeric::interval_lib;

#if defined(__clang__)
#define NOIPA __attribute__((noinline))
#else
#define NOIPA __attribute__((noipa))
#endif

// default rounding with a checking policy that allows empties and NaN
template<class T> struct Types {
  typedef bn::interval<T> S;                                                                   // all defaults
  typedef bn::interval<T, il::policies<il::rounded_math<T>, il::checking_base<T> > > B;
};
template<class I> bool isempty(const I &x) { return !(x.lower() <= x.upper()); }
// builds an interval without going through conversions; asm hides the constants
template<class I, class T> NOIPA I mk(T l, T u) { return I(l, u); }
template<class I, class T> I mk(gen::B<T> b) { return mk<I, T>(b.l, b.u); }
template<class I> std::string istr(const I &x) { return "[" + gen::str(x.lower()) + "," + gen::str(x.upper()) + "]"; }
template<class T> NOIPA void escape(T &x) { asm volatile("" : : "r"(&x) : "memory"); }
template<class T> bool same(T a, T b) { return a == b || (a != a && b != b); }
template<class I, class J> bool eqi(const I &a, const J &b) { // same set (all empties are equal)
  if (isempty(a) || isempty(b)) return isempty(a) == isempty(b);
  return a.lower() == b.lower() && a.upper() == b.upper();
}
#endif
