// Generators of numbers and intervals of built-in floating-point types.
#ifndef GEN_HPP
#define GEN_HPP
#include "vh.hpp"
#include <limits>
#include <utility>

namespace gen {
using vh::Rng;

template<class T> struct Tn;
template<> struct Tn<float> { static const char *name() { return "float"; } };
template<> struct Tn<double> { static const char *name() { return "double"; } };
template<> struct Tn<long double> { static const char *name() { return "ldouble"; } };

template<class T> T inf() { return std::numeric_limits<T>::infinity(); }
template<class T> T up(T x) { return std::nextafter(x, inf<T>()); }
template<class T> T down(T x) { return std::nextafter(x, -inf<T>()); }

template<class T> std::string str(T x) { return vh::fmt("%La", (long double)x); }

template<class T> const std::vector<T> &specials() {
  typedef std::numeric_limits<T> L;
  static std::vector<T> v;
  if (v.empty()) {
    T base[] = {T(0), T(1), T(2), T(3), T(4), T(0.5), T(0.25), T(10), T(7), T(0.1), T(1) / T(3), T(1.5), L::epsilon(),
                L::min(), L::max(), L::denorm_min(), T(2) * L::denorm_min(), T(3) * L::denorm_min(), L::min() * T(2), L::max() / T(2),
                std::sqrt(L::max()), std::sqrt(L::min()), T(1) / L::max(), T(1) / L::min(),
                T(3.14159265358979323846L), T(1.57079632679489661923L), T(6.28318530717958647692L),
                T(4.71238898038468985769L), T(0.785398163397448309616L), T(100), T(1e6), T(1e10),
                T(2147483648.0), T(4294967296.0), T(9007199254740992.0), T(9223372036854775808.0), T(16777216.0)};
    for (T b : base) {
      v.push_back(b); v.push_back(-b);
      v.push_back(up(b)); v.push_back(down(b)); v.push_back(-up(b)); v.push_back(-down(b));
    }
    std::vector<T> w;
    for (T b : v) if (std::isfinite(b)) w.push_back(b);
    v = w;
    v.push_back(T(-0.0));
  }
  return v;
}

template<class T> T mant(Rng &r) { // in [1,2)
  const int d = std::numeric_limits<T>::digits;
  uint64_t m = r.next() >> (64 - (d - 1));
  switch (r.below(6)) {
  case 0: m &= ~((1ull << (d - 1 - 3)) - 1); break;              // few bits
  case 1: m |= (1ull << (d - 1 - 4)) - 1; break;                 // many ones at the end
  case 2: m &= 7; break;                                         // near a power of two
  case 3: if (d / 2 < 63) m &= ~((1ull << (d / 2)) - 1); break;  // half precision
  default: break;
  }
  T f = std::ldexp((T)m, -(d - 1));
  return T(1) + f;
}

template<class T> T fin(Rng &r) { // finite number
  typedef std::numeric_limits<T> L;
  T x;
  switch (r.below(10)) {
  case 0: case 1: return specials<T>()[r.below(specials<T>().size())];
  case 2: // any exponent
    x = std::ldexp(mant<T>(r), r.range(L::min_exponent - L::digits, L::max_exponent - 1));
    break;
  case 3: case 4: // moderate
    x = std::ldexp(mant<T>(r), r.range(-8, 8));
    break;
  case 5: x = T(r.range(0, 40)) / T(1 << r.below(3)); break;
  case 6: // near overflow or underflow
    x = std::ldexp(mant<T>(r), r.chance(1, 2) ? L::max_exponent - 1 - (int)r.below(4) : L::min_exponent - (int)r.below(L::digits + 1));
    break;
  case 7: // around the square root of the range
    x = std::ldexp(mant<T>(r), (r.chance(1, 2) ? L::max_exponent : L::min_exponent) / 2 + r.range(-3, 3));
    break;
  case 8: // neighbour of a small integer
    x = T(r.range(0, 9));
    for (int k = r.below(4); k > 0; --k) x = r.chance(1, 2) ? up(x) : down(x);
    break;
  default:
    x = std::ldexp(mant<T>(r), r.range(-40, 40));
  }
  if (!std::isfinite(x)) x = L::max();
  return r.chance(1, 2) ? x : -x;
}
template<class T> T nearb(Rng &r, T x) {
  T y = x;
  for (int k = 1 + r.below(3); k > 0; --k) y = r.chance(1, 2) ? up(y) : down(y);
  return std::isfinite(y) ? y : x;
}

template<class T> struct B { // bounds
  T l, u;
  std::string s() const { return "[" + str(l) + "," + str(u) + "]"; }
};
template<class T> B<T> ord(T a, T b) { return a <= b ? B<T>{a, b} : B<T>{b, a}; }

// a valid interval; lower bound may be -inf, upper bound +inf
template<class T> B<T> ival(Rng &r, bool infs = true) {
  T a = fin<T>(r), b;
  switch (r.below(14)) {
  case 0: case 1: return B<T>{a, a};
  case 2: b = nearb(r, a); return ord(a, b);
  case 3: return ord(-a, a);
  case 4: return ord(T(0), a);
  case 5: return ord(T(-0.0), a);
  case 6: { T c = a * (T(1) + std::ldexp(T(1), -r.range(1, std::numeric_limits<T>::digits - 1))); if (!std::isfinite(c)) c = a; return ord(a, c); }
  case 7: if (infs) return B<T>{-inf<T>(), a}; break;
  case 8: if (infs) return B<T>{a, inf<T>()}; break;
  case 9: if (infs && r.chance(1, 3)) return B<T>{-inf<T>(), inf<T>()};
    return ord(-std::fabs(a), std::fabs(fin<T>(r)));
  case 10: { T s = a < 0 ? T(-1) : T(1); return ord(a, s * std::fabs(fin<T>(r))); } // same sign
  default: break;
  }
  b = fin<T>(r);
  return ord(a, b);
}
// an interval related to x (same, nested, touching, neighbour)
template<class T> B<T> related(Rng &r, B<T> x) {
  switch (r.below(9)) {
  case 0: return x;
  case 1: if (std::isfinite(x.u)) return ord(x.u, std::fabs(fin<T>(r)) + x.u == inf<T>() ? x.u : x.u + std::fabs(fin<T>(r))); break;
  case 2: if (std::isfinite(x.l)) { T a = x.l - std::fabs(fin<T>(r)); return B<T>{a <= x.l ? a : x.l, x.l}; } break;
  case 3: if (std::isfinite(x.u)) return B<T>{x.u, x.u}; break;
  case 4: if (std::isfinite(x.l)) return B<T>{x.l, x.l}; break;
  case 5: if (std::isfinite(x.u) && std::isfinite(up(x.u))) return ord(up(x.u), std::max(up(x.u), fin<T>(r))); break;
  case 6: if (std::isfinite(x.l) && std::isfinite(down(x.l))) return ord(std::min(down(x.l), fin<T>(r)), down(x.l)); break;
  case 7: { T a = fin<T>(r); return B<T>{std::min(a, x.l), x.u}; }
  default: { T a = fin<T>(r); return B<T>{x.l, std::max(a, x.u)}; }
  }
  return ival<T>(r);
}
template<class T> uint64_t bits(T x) {
  long double v = x; uint64_t h[2] = {0, 0};
  memcpy(h, &v, 10);
  return vh::mix(h[0]) ^ (h[1] * 0x9e3779b97f4a7c15ull);
}
template<class T> uint64_t hash(B<T> x) { return vh::mix(bits(x.l) * 3 + bits(x.u)); }

} // namespace gen
#endif
