// P14: checking policies decide empties, invalid numbers and infinities.
// P15 (-DSTRONG): an operation that throws leaves its operands unchanged.
#include "ops.hpp"
#include "tr.hpp"
#include <cassert>
using vh::Rng; using gen::B;
#ifndef TSEL
#define TSEL 7
#endif

struct MyEmpty {}; struct MyNan {};
struct ThrowMyEmpty { void operator()() { throw std::runtime_error("user empty"); } };
struct ThrowMyNan { void operator()() { throw std::invalid_argument("user nan"); } };
// a user-written policy with its own representations; counts its uses
template<class T> struct UserChecking {
  // (for double, empty intervals look like ordered bounds)
  static T EL() { return sizeof(T) == 8 ? T(-76.5) : T(77); } static T EU() { return sizeof(T) == 8 ? T(77.25) : T(-76); } static T NA() { return T(-12345.5); } static T INF() { return std::ldexp(T(1), 100); } static T NINF() { return -std::ldexp(T(1), 101); }
  static uint64_t calls[8];
  static T pos_inf() { calls[0]++; return INF(); }
  static T neg_inf() { calls[1]++; return NINF(); }
  static T nan() { calls[2]++; return NA(); }
  static bool is_nan(const T &x) { calls[3]++; return x == NA(); }
  static T empty_lower() { calls[4]++; return EL(); }
  static T empty_upper() { calls[5]++; return EU(); }
  static bool is_empty(const T &l, const T &u) { calls[6]++; return l == EL() && u == EU(); }
};
template<class T> uint64_t UserChecking<T>::calls[8];

// what a policy does
enum Mode { M_BASE, M_NOEMPTY, M_CATCH, M_CATCHBASE, M_STRICT, M_USER, M_USERTHROW };
template<class T, int M> struct Ck;
template<class T> struct Ck<T, M_BASE> { typedef il::checking_base<T> C; static const char *n() { return "checking_base"; } };
template<class T> struct Ck<T, M_NOEMPTY> { typedef il::checking_no_empty<T> C; static const char *n() { return "checking_no_empty"; } };
template<class T> struct Ck<T, M_CATCH> { typedef il::checking_catch_nan<T, il::checking_no_empty<T> > C; static const char *n() { return "checking_catch_nan<no_empty>"; } };
template<class T> struct Ck<T, M_CATCHBASE> { typedef il::checking_catch_nan<T> C; static const char *n() { return "checking_catch_nan"; } };
template<class T> struct Ck<T, M_STRICT> { typedef il::checking_strict<T> C; static const char *n() { return "checking_strict"; } };
template<class T> struct Ck<T, M_USER> { typedef UserChecking<T> C; static const char *n() { return "user"; } };
template<class T> struct Ck<T, M_USERTHROW> { typedef il::checking_catch_nan<T, il::checking_no_empty<T, il::checking_base<T>, ThrowMyEmpty>, ThrowMyNan> C; static const char *n() { return "user exceptions"; } };
template<class T, int M> struct Pol { typedef bn::interval<T, il::policies<tr::Rnd<T>, typename Ck<T, M>::C> > I; };
constexpr bool no_empty(int m) { return m == M_NOEMPTY || m == M_CATCH || m == M_STRICT || m == M_USERTHROW; }
constexpr bool catches(int m) { return m == M_CATCH || m == M_CATCHBASE || m == M_USERTHROW; }
constexpr bool allows_nan(int m) { return m != M_STRICT; }

template<class I> struct Pick { // one operand set and what is wrong with it
  ops::Args<I> a; bool bx, by, bt, bs;
};
template<class I> static bool pempty(const I &x) { return I::traits_type::checking::is_empty(x.lower(), x.upper()); }
template<class T> static T invalid(Rng &r, int m) { (void)r; return m == M_USER ? UserChecking<T>::NA() : std::numeric_limits<T>::quiet_NaN(); }

// mostly operands whose result is empty
template<class T> static void empties(Rng &r, ops::Raw<T> &q, const char *name) {
  std::string n = name;
  T p = std::fabs(gen::fin<T>(r)), s = std::fabs(gen::fin<T>(r)); if (!(p > 0)) p = 1;
  B<T> neg = gen::ord(T(-p), T(-s)); if (neg.u == 0) neg.u = -std::numeric_limits<T>::denorm_min(); if (neg.l > neg.u) neg.l = neg.u;
  B<T> zero = {T(0), r.chance(1, 2) ? T(0) : T(-0.0)};
  if (n == "sqrt" || n == "log") q.x = neg;
  if (n == "log" && r.chance(1, 4)) q.x.u = 0;
  if (n == "nth_root") { q.x = neg; q.n = 2 * r.range(1, 4); }
  if (n == "asin" || n == "acos" || n == "atanh") { q.x = B<T>{T(1.5), T(1.5) + (s < 1000 ? s : T(3))}; if (r.chance(1, 2)) q.x = B<T>{-q.x.u, -q.x.l}; if (r.chance(1, 4)) q.x = B<T>{gen::up(T(1)), T(2)}; }
  if (n == "acosh") { q.x = B<T>{T(-3), r.chance(1, 2) ? gen::down(T(1)) : T(0.5)}; }
  if (n == "x/y" || n == "x/=y" || n == "division_part1" || n == "division_parts") q.y = zero;
  if (n == "x/t" || n == "x/=t") q.t = r.chance(1, 2) ? T(0) : T(-0.0);
  if (n == "x/n") q.n = 0;
  if (n == "div(t,s)") q.s = 0;
  if (n == "t/x" || n == "n/x" || n == "multiplicative_inverse" || n == "x/=x" || n == "x/x") q.x = zero;
  if (n == "pow") { q.x = zero; q.n = -1 - (int)r.below(5); }
  if (n == "intersect") { q.x = B<T>{-p, -p / 2}; q.y = B<T>{s, gen::inf<T>()}; }
  if (n == "I(t,s)" || n == "assign(t,s)") { if (q.t == q.s) q.t = gen::up(q.s); if (q.t < q.s) std::swap(q.t, q.s); }
}
template<class T> static void tame(ops::Raw<T> &q) { // finite operands for libm
  for (T *p : {&q.x.l, &q.x.u}) if (!std::isfinite((long double)*p)) *p = *p < 0 ? T(-2) : T(2);
  if (!(q.x.l <= q.x.u)) std::swap(q.x.l, q.x.u);
}
template<class I, int M> static Pick<I> pick(const ops::Raw<typename I::base_type> &q, uint64_t bs, unsigned fl) {
  typedef typename I::base_type T; typedef typename I::traits_type::checking C;
  Pick<I> p; p.a = ops::args<I>(q); p.bx = p.by = p.bt = p.bs = false;
  Rng r(bs);
  if (r.chance(1, 3)) return p;
  unsigned what = r.below(4); // which operand is bad
  for (int k = 0; k < 4; ++k, what = (what + 1) % 4) {
    if (what == 0 && (fl & ops::X) && !no_empty(M)) { p.a.x = I(C::empty_lower(), C::empty_upper(), true); p.bx = true; break; }
    if (what == 1 && (fl & ops::Y) && !no_empty(M)) { p.a.y = I(C::empty_lower(), C::empty_upper(), true); p.by = true; break; }
    if (what == 2 && (fl & ops::NT) && allows_nan(M)) { p.a.t = invalid<T>(r, M); p.bt = true; break; }
    if (what == 3 && (fl & ops::NS) && allows_nan(M)) { p.a.s = invalid<T>(r, M); p.bs = true; break; }
  }
  if (r.chance(1, 6)) { // a second one
    if ((fl & ops::Y) && !no_empty(M)) { p.a.y = I(C::empty_lower(), C::empty_upper(), true); p.by = true; }
    else if ((fl & ops::NS) && allows_nan(M)) { p.a.s = invalid<T>(r, M); p.bs = true; }
    else if ((fl & ops::NT) && allows_nan(M)) { p.a.t = invalid<T>(r, M); p.bt = true; }
  }
  return p;
}
template<class I> static bool bits_same(const I &a, const I &b) {
  typename I::base_type u[2] = {a.lower(), a.upper()}, v[2] = {b.lower(), b.upper()};
  for (int i = 0; i < 2; ++i) if (!(gen::bits(u[i]) == gen::bits(v[i]))) return false;
  return true;
}

// can a quotient by one of these divisors overflow?
template<class T> static bool small_divisor(const ops::Raw<T> &q) {
  for (T b : {q.x.l, q.x.u, q.y.l, q.y.u}) if (b != 0 && std::fabs(b) < std::ldexp(T(1), -20)) return true;
  return false;
}
template<class T, int M> static void one(Rng &r) {
  typedef typename Pol<T, M>::I I; typedef typename Pol<T, M_BASE>::I Bs; typedef typename I::traits_type::checking C;
  static const std::vector<ops::Op<I> > &ci = ops::Cat<I, true>::all();
  static const std::vector<ops::Op<Bs> > &cb = ops::Cat<Bs, true>::all();
  int i = r.below(ci.size());
  const ops::Op<I> &op = ci[i];
  ops::Raw<T> q = ops::raw<T>(r, op.flags);
  if (r.chance(1, 3)) empties(r, q, op.name);
  if (op.flags & ops::TR) tame(q);
  // at the edge of its open domain atanh is the rounding policy's infinity
  if (M == M_USER && !std::strcmp(op.name, "atanh") && (q.x.l == 1 || q.x.u == -1)) return;
  if (M == M_USER) { // stay within the user's range
    for (T *p : {&q.x.l, &q.x.u, &q.y.l, &q.y.u, &q.t, &q.s}) { if (!(std::fabs(*p) < T(1e30))) *p = *p < 0 ? UserChecking<T>::NINF() : UserChecking<T>::INF(); }
  }
  uint64_t bs = r.next();
  Pick<I> p = pick<I, M>(q, bs, op.flags), was = p;
  bool bad = p.bx || p.by || p.bt || p.bs, badnum = p.bt || p.bs;
  std::string key = std::string(Ck<T, M>::n()) + "/" + op.name, what = std::string(Ck<T, M>::n()) + " " + gen::Tn<T>::name() + ": " + ops::astr(op, p.a);
  ops::Out<I> o;
  ops::run<I>(op, p.a, o);
  std::fesetround(FE_TONEAREST);
  vh::eval();
  vh::nontrivial(ops::hraw(q, op.flags) ^ vh::mix(bs % 64) ^ vh::hstr(key.c_str()) ^ sizeof(T));
#ifdef STRONG
  if (o.kind == ops::K_EXC) {
    vh::count("operations that threw");
    vh::count(o.f == ops::E_EMPTY ? "threw: empty interval" : o.f == ops::E_NAN ? "threw: invalid number" : "threw: comparison_error");
    if (!bits_same(p.a.x, was.a.x)) vh::fail("changed/" + key, what + " threw (" + ops::ostr(o) + ") and left x=" + istr(p.a.x));
    if (!bits_same(p.a.y, was.a.y) || gen::bits(p.a.t) != gen::bits(was.a.t) || gen::bits(p.a.s) != gen::bits(was.a.s)) vh::fail("changed/" + key, what + " threw and changed an operand");
    if (r.below(20000) == 0) vh::sample(what + " -> " + ops::ostr(o) + ", operands unchanged");
  } else if (!(op.flags & ops::MUT)) {
    if (!bits_same(p.a.x, was.a.x) || !bits_same(p.a.y, was.a.y)) vh::fail("modified/" + key, what + " modified an operand");
  }
  // the same object goes on: valid operands give the normal result
  if (o.kind == ops::K_EXC || r.chance(1, 8)) {
    ops::Raw<T> q2 = ops::raw<T>(r, op.flags);
    if (op.flags & ops::TR) tame(q2);
    ops::Args<I> fresh = ops::args<I>(q2), reused = p.a;
    I &target = p.a.x;
    vh::op("reuse");
    // through assignments to the surviving objects
    try { target = fresh.x; p.a.y = fresh.y; p.a.t = fresh.t; p.a.s = fresh.s; p.a.n = fresh.n; } catch (...) { vh::fail("reuse/" + key, what + ": assignment to the surviving object threw"); return; }
    ops::Out<I> o1, o2;
    ops::run<I>(op, p.a, o1); ops::run<I>(op, fresh, o2);
    std::fesetround(FE_TONEAREST);
    vh::eval();
    if (!ops::sameout(o1, o2)) vh::fail("reuse/" + key, what + ": afterwards " + ops::astr(op, ops::args<I>(q2)) + " gives " + ops::ostr(o1) + " on the reused object and " + ops::ostr(o2) + " on a fresh one");
  }
  // copies, assignments and swaps keep the bits
  if (r.chance(1, 4)) {
    vh::op("copy");
    I a = was.a.x, b = was.a.y, c(a), d; d = b;
    vh::eval();
    if (!bits_same(c, was.a.x) || !bits_same(d, was.a.y)) vh::fail("copy/" + std::string(gen::Tn<T>::name()), "a copy of " + istr(a) + " or " + istr(b) + " differs");
    std::swap(a, b);
    if (!bits_same(a, was.a.y) || !bits_same(b, was.a.x)) vh::fail("swap/" + std::string(gen::Tn<T>::name()), "swap changed bounds");
    a = a;
    if (!bits_same(a, was.a.y)) vh::fail("selfassign/" + std::string(gen::Tn<T>::name()), "self-assignment changed bounds");
  }
  (void)badnum; (void)bad; (void)cb;
#else
  auto ok = [&](bool c, const char *expect) { if (!c) vh::fail(key, what + " gives " + ops::ostr(o) + ", expected " + expect); };
  vh::count(bad ? "calls with an invalid operand" : "calls with valid operands");
  if (bad && !(op.bad == ops::B_ANY && !(op.flags & ops::NT && badnum && false))) {
    if (badnum && catches(M) && op.bad != ops::B_ANY) {
      // with an empty operand too, either may be noticed first
      if (!((p.bx || p.by) && !(o.kind == ops::K_EXC && o.f == ops::E_NAN))) { ok(o.kind == ops::K_EXC && o.f == ops::E_NAN, "the exception for an invalid number"); return; }
    }
    const T N = M == M_USER ? UserChecking<T>::NA() : std::numeric_limits<T>::quiet_NaN();
    switch (op.bad) {
    case ops::B_EMPTY:
      if (no_empty(M)) ok(o.kind == ops::K_EXC && o.f == ops::E_EMPTY, "the exception for an empty interval");
      else if (o.kind == ops::K_II) ok(pempty(o.a) && pempty(o.b) && same(o.a.lower(), C::empty_lower()) && same(o.b.upper(), C::empty_upper()), "two empty intervals");
      else ok(o.kind == ops::K_I && pempty(o.a) && same(o.a.lower(), C::empty_lower()) && same(o.a.upper(), C::empty_upper()), "the empty interval");
      break;
    case ops::B_NAN: ok(o.kind == ops::K_N && same(o.v, N), "the invalid number"); break;
    case ops::B_ZERO: ok(o.kind == ops::K_N && o.v == 0, "0"); break;
    case ops::B_FALSE: ok(o.kind == ops::K_B && o.f == 0, "false"); break;
    case ops::B_CMP: ok(o.kind == ops::K_EXC && o.f == ops::E_CMP, "comparison_error"); break;
    case ops::B_HULL: {
      std::string n = op.name;
      bool b1 = n == "hull(t,x)" ? p.bt : n == "I::hull(t,s)" ? p.bt : p.bx, b2 = n == "hull(t,x)" ? p.bx : n == "I::hull(t,s)" ? p.bs : n == "hull(x,t)" ? p.bt : p.by;
      if (b1 && b2) { if (no_empty(M)) ok(o.kind == ops::K_EXC && o.f == ops::E_EMPTY, "the exception for an empty interval"); else ok(o.kind == ops::K_I && pempty(o.a), "the empty interval"); break; }
      // the other operand
      I e;
      if (n == "hull(x,y)") e = b1 ? was.a.y : was.a.x;
      else if (n == "I::hull(t,s)") e = I(b1 ? was.a.s : was.a.t, b1 ? was.a.s : was.a.t, true);
      else { bool gx = n == "hull(x,t)" ? !b1 : !b2; e = gx ? was.a.x : I(was.a.t, was.a.t, true); }
      ok(o.kind == ops::K_I && o.a.lower() == e.lower() && o.a.upper() == e.upper(), ("the other operand " + istr(e)).c_str());
      break;
    }
    case ops::B_SET: {
      std::string n = op.name; int e = -1;
      bool same_ = p.bx && p.by;
      if (n == "empty(x)") e = 1;
      else if (n == "equal" || n == "cmp cmpset::eq(x,y)") e = same_;
      else if (n == "cmp cmpset::ne(x,y)") e = !same_;
      else if (n == "subset" || n == "cmp cmpset::le(x,y)") e = p.bx;
      else if (n == "cmp cmpset::ge(x,y)") e = p.by;
      else if (n == "proper_subset" || n == "cmp cmpset::lt(x,y)") e = p.bx && !p.by;
      else if (n == "cmp cmpset::gt(x,y)") e = p.by && !p.bx;
      ok(o.kind == ops::K_B && o.f == e, e ? "true" : "false");
      break;
    }
    default: break;
    }
    return;
  }
  if (bad) return;
  // valid operands: empty exactly when the permissive policy says so
  if (M == M_USER) {
    // infinities of the policy wherever the plain policy has an infinity the inputs do not explain
    ops::Args<Bs> b = ops::args<Bs>(q); ops::Out<Bs> ob;
    ops::run<Bs>(cb[i], b, ob);
    std::fesetround(FE_TONEAREST);
    if (ob.kind == ops::K_I && o.kind == ops::K_I) {
      if (isempty(ob.a) != pempty(o.a)) { ok(false, isempty(ob.a) ? "the policy's empty interval" : "an interval that is not empty"); return; }
      if (isempty(ob.a)) { vh::count("natural empties"); ok(same(o.a.lower(), C::empty_lower()) && same(o.a.upper(), C::empty_upper()), "the policy's empty interval"); return; }
      T bl = ob.a.lower(), bu = ob.a.upper(), l = o.a.lower(), u = o.a.upper(), INF = UserChecking<T>::INF();
      // an infinite bound of the plain policy is either taken from the policy (then the
      // user's infinity is used) or an overflow of the arithmetic (then it stays native)
      std::string n = op.name;
      bool divz = false, pol = n == "I::whole" || n == "tan" || n == "log" || n == "atanh";
      if (n == "x/y" || n == "x/=y" || n == "division_part1") divz = q.y.l <= 0 && q.y.u >= 0;
      if (n == "t/x" || n == "n/x" || n == "multiplicative_inverse" || n == "x/x" || n == "x/=x") divz = q.x.l <= 0 && q.x.u >= 0;
      auto bound = [&](T base, T got, T userinf) {
        if (!std::isinf((long double)base)) return got == base;
        if (got == userinf) { vh::count("infinities taken from the policy"); return true; }
        return got == base && !pol && !(divz && !small_divisor(q));
      };
      bool okl = bound(bl, l, UserChecking<T>::NINF()), oku = bound(bu, u, INF);
      if (n == "pow" || n == "nth_root" || op.flags & ops::TR) if (!(n == "log" || n == "atanh" || n == "tan")) return;
      ok(okl && oku, ("[" + gen::str(bl) + "," + gen::str(bu) + "] with the policy's infinities").c_str());
    } else if (ob.kind != o.kind) ok(false, "the same kind of result as with checking_base");
    else if (ob.kind == ops::K_B || ob.kind == ops::K_EXC) ok(ob.f == o.f, "the result of checking_base");
    return;
  }
  ops::Args<Bs> b = ops::args<Bs>(q); ops::Out<Bs> ob;
  ops::run<Bs>(cb[i], b, ob);
  std::fesetround(FE_TONEAREST);
  bool e = (ob.kind == ops::K_I && isempty(ob.a)) || (ob.kind == ops::K_II && isempty(ob.a));
  std::string n = op.name;
  if (n == "I::empty") e = true;
  if (e) vh::count("natural empties");
  if (e && no_empty(M)) ok(o.kind == ops::K_EXC && o.f == ops::E_EMPTY, "the exception for an empty interval");
  else ok(ops::sameout(o, ob), ("the result of checking_base, " + ops::ostr(ob)).c_str());
  if (e && r.below(2000) == 0) vh::sample(what + " -> " + ops::ostr(o));
#endif
}
template<class T> static void all(Rng &r) {
  switch (r.below(7)) {
  case 0: one<T, M_BASE>(r); break;
  case 1: one<T, M_NOEMPTY>(r); break;
  case 2: one<T, M_CATCH>(r); break;
  case 3: one<T, M_CATCHBASE>(r); break;
  case 4: one<T, M_STRICT>(r); break;
  case 5: one<T, M_USERTHROW>(r); break;
  default: one<T, M_USER>(r); break;
  }
}
#if TSEL & 1
VH_GROUP(f, "float", 400000, 8000000) { (void)idx; all<float>(r); }
#endif
#if TSEL & 2
VH_GROUP(d, "double", 600000, 10000000) { (void)idx; all<double>(r); }
#endif
#if TSEL & 4
VH_GROUP(l, "ldouble", 300000, 6000000) { (void)idx; all<long double>(r); }
#endif

#ifndef STRONG
// ---- between policies and between base types
template<class J, class F> static int attempt(J &out, F f) { // 0 result, else ops::Exc
  try { out = f(); return 0; }
  catch (const std::invalid_argument &) { return ops::E_NAN; }
  catch (const std::runtime_error &) { return ops::E_EMPTY; }
}
template<class T, class U, class I, class J> static void mixed(const I &x, const J &y, bool e, const std::string &nm);
template<class T, int A, class U, int Bm> static void conv(Rng &r) {
  typedef typename Pol<T, A>::I I; typedef typename Pol<U, Bm>::I J; typedef typename J::traits_type::checking CJ; typedef typename I::traits_type::checking CI;
  B<T> b = gen::ival<T>(r);
  if (A == M_USER || Bm == M_USER) b = gen::ord(T(r.range(-1000, 1000)), T(r.range(-1000, 1000)) + T(r.range(0, 3)) / 4);
  bool e = r.chance(1, 3) && !no_empty(A);
  I x = e ? I(CI::empty_lower(), CI::empty_upper(), true) : I(b.l, b.u, true);
  std::string nm = std::string(Ck<T, A>::n()) + " " + gen::Tn<T>::name() + " -> " + Ck<U, Bm>::n() + " " + gen::Tn<U>::name();
  vh::op("conversion between policies");
  for (int form = 0; form < 2; ++form) {
    J y(U(5), U(6)), keep = y;
    J z = y;
    int ex = form ? attempt(z, [&] { y = x; return y; }) : attempt(z, [&] { return J(x); });
    std::fesetround(FE_TONEAREST);
    vh::eval();
    std::string w = nm + (form ? " assignment of " : " construction from ") + istr(x) + vh::fmt(" (exception %d) -> ", ex) + istr(z);
    if (e) {
      vh::count("conversions of empty intervals");
      if (no_empty(Bm)) { if (ex != ops::E_EMPTY) vh::fail("conv/empty/" + std::string(Ck<U, Bm>::n()), w + ": an empty interval must raise the exception"); }
      else if (ex || !pempty(z) || !same(z.lower(), CJ::empty_lower()) || !same(z.upper(), CJ::empty_upper())) vh::fail("conv/empty/" + std::string(Ck<U, Bm>::n()), w + ": should be the empty interval of the destination");
    } else if (ex || pempty(z) || !(z.lower() <= (long double)b.l && (long double)b.u <= z.upper())) vh::fail("conv/value/" + nm, w + ": should contain the source");
    vh::nontrivial(gen::hash(b) ^ vh::hstr(nm.c_str()) ^ (e ? 99 : 7) ^ form);
  }
  // numbers and pairs of another type
  T v = gen::fin<T>(r), w = gen::fin<T>(r); if (A == M_USER || Bm == M_USER) { v = r.range(-50, 50); w = r.range(-50, 50); }
  if (r.chance(1, 3)) { // bounds that the destination may not tell apart
    w = v; for (int k = r.range(0, 3); k > 0; --k) w = r.chance(3, 4) ? gen::down(w) : gen::up(w);
  }
  bool bad = false, inv = false;
  const T nan = std::numeric_limits<T>::quiet_NaN();
  bool cannan = allows_nan(Bm) && Bm != M_USER;
  if (cannan && r.chance(1, 3)) { bad = true; (r.chance(1, 2) ? v : w) = nan; }
  if (!bad && !(v <= w)) inv = true;
  for (int form = 0; form < 4; ++form) {
    J z(U(5), U(6));
    bool ebad, einv = false; int ex;
    switch (form) {
    case 0: ebad = v != v; ex = attempt(z, [&] { return J(v); }); break;
    case 1: ebad = v != v; ex = attempt(z, [&] { J y; y = v; return y; }); break;
    case 2: ebad = bad; einv = inv; ex = attempt(z, [&] { return J(v, w); }); break;
    default: ebad = bad; einv = inv; ex = attempt(z, [&] { return J((float)v, (long double)w); }); if (!ebad) einv = !((float)v <= (long double)w); break;
    }
    std::fesetround(FE_TONEAREST);
    vh::eval();
    std::string s = nm + vh::fmt(" form %d from ", form) + gen::str(v) + " " + gen::str(w) + vh::fmt(" (exception %d) -> ", ex) + istr(z);
    bool good = ex == 0 && !pempty(z);
    bool isE = ex == 0 && pempty(z);
    if (ebad) { if (catches(Bm) ? ex != ops::E_NAN : no_empty(Bm) ? ex != ops::E_EMPTY : !isE) vh::fail("ctor/nan/" + std::string(Ck<U, Bm>::n()), s + ": invalid number"); }
    else if (einv) { if (no_empty(Bm) ? ex != ops::E_EMPTY : !isE) vh::fail("ctor/inverted/" + std::string(Ck<U, Bm>::n()), s + ": inverted bounds"); }
    else if (!good) vh::fail("ctor/valid/" + std::string(Ck<U, Bm>::n()), s + ": valid bounds");
  }
  // predicates between policies
  J y(U(b.l < 0 ? -2 : 2), U(3));
  if (y.lower() <= y.upper()) {
    if (std::is_same<T, U>::value) mixed<T, U, I, J>(x, y, e, nm);
  }
}
template<class T, class U, class I, class J> struct Mixed { static void go(const I &, const J &, bool, const std::string &) {} };
template<class T, class I, class J> struct Mixed<T, T, I, J> {
  static void go(const I &x, const J &y, bool e, const std::string &nm) {
    vh::eval(3);
    if (e) {
      if (overlap(x, y) || overlap(y, x) || equal(x, y) || equal(y, x) || !proper_subset(x, y) || proper_subset(y, x)) vh::fail("mixed/set", nm + ": set predicates of an empty interval");
      bool t = false; try { (void)(x < y); } catch (const il::comparison_error &) { t = true; }
      bool t2 = false; try { (void)(y < x); } catch (const il::comparison_error &) { t2 = true; }
      if (!t || !t2) vh::fail("mixed/cmp", nm + ": comparison with an empty interval did not throw comparison_error");
    } else {
      bool ov = x.lower() <= y.upper() && y.lower() <= x.upper();
      if (overlap(x, y) != ov || overlap(y, x) != ov) vh::fail("mixed/set", nm + ": overlap " + istr(x) + " " + istr(y));
    }
  }
};
template<class T, class U, class I, class J> static void mixed(const I &x, const J &y, bool e, const std::string &nm) { Mixed<T, U, I, J>::go(x, y, e, nm); }
template<int A, int Bm> static void convs(Rng &r) {
#if TSEL & 1
  conv<float, A, double, Bm>(r);
#endif
#if TSEL & 2
  conv<double, A, double, Bm>(r);
  conv<double, A, float, Bm>(r);
#endif
#if TSEL & 4
  conv<long double, A, double, Bm>(r);
#endif
}
template<int A> static void convsA(Rng &r) {
  switch (r.below(5)) {
  case 0: convs<A, M_BASE>(r); break; case 1: convs<A, M_NOEMPTY>(r); break; case 2: convs<A, M_CATCH>(r); break;
  case 3: convs<A, M_CATCHBASE>(r); break; default: convs<A, M_USER>(r); break;
  }
}
VH_GROUP(cv, "between policies", 60000, 1500000) {
  (void)idx;
  switch (r.below(5)) {
  case 0: convsA<M_BASE>(r); break; case 1: convsA<M_NOEMPTY>(r); break; case 2: convsA<M_CATCHBASE>(r); break;
  case 3: convsA<M_STRICT>(r); break; default: convsA<M_USER>(r); break;
  }
}
#endif

#ifndef STRONG
// ---- the predefined checking classes called directly, as a user-written policy built on them would
struct Odd { // a number type with invalid numbers that is not an IEC 559 type
  double v; Odd(): v(0) {} Odd(double x): v(x) {}
  Odd operator-() const { return Odd(-v); }
};
static bool operator<(Odd a, Odd b) { return a.v < b.v; }
static bool operator<=(Odd a, Odd b) { return a.v <= b.v; }
static bool operator>(Odd a, Odd b) { return a.v > b.v; }
static bool operator>=(Odd a, Odd b) { return a.v >= b.v; }
static bool operator==(Odd a, Odd b) { return a.v == b.v; }
static bool operator!=(Odd a, Odd b) { return a.v != b.v; }
namespace std {
template<> class numeric_limits<Odd>: public numeric_limits<double> {
public:
  static const bool is_iec559 = false;
  static Odd infinity() { return Odd(numeric_limits<double>::infinity()); }
  static Odd quiet_NaN() { return Odd(numeric_limits<double>::quiet_NaN()); }
};
}
static int g_called;
struct Note { void operator()() { ++g_called; } }; // notes and lets the operation go on
template<class T> static bool isn(const T &x) { return x != x; }
template<class T> static void classes(Rng &r, T v, T w, const char *tn) {
  typedef il::checking_base<T> Ba;
  typedef std::numeric_limits<T> L;
  const T nan = L::quiet_NaN(), inf = L::infinity();
  const T vals[] = { v, w, T(0), inf, T(-inf), nan };
  const T a = vals[r.below(6)], b = vals[r.below(6)];
  auto no = [&](bool bad, const char *what) { if (bad) vh::fail(std::string("classes/") + what, std::string(tn) + ": " + what); };
  vh::eval(); vh::op("checking class");
  no(!(Ba::pos_inf() == inf) || !(Ba::neg_inf() == -inf), "checking_base infinities");
  no(!isn(Ba::nan()), "checking_base nan");
  no(!Ba::is_empty(Ba::empty_lower(), Ba::empty_upper()), "checking_base: its empty interval must be empty");
  no(!isn(Ba::empty_lower()) || !isn(Ba::empty_upper()), "checking_base: empty bounds are quiet NaN when the type has them");
  no(Ba::is_nan(a) != isn(a), "checking_base is_nan");
  no(Ba::is_empty(a, b) != !(a <= b), "checking_base is_empty");
  typedef il::checking_no_empty<T> Ne; typedef il::checking_no_empty<T, Ba, Note> Nn;
  for (int k = 0; k < 2; ++k) {
    std::string what; bool t = false;
    try { if (k) Ne::empty_upper(); else Ne::empty_lower(); } catch (const std::runtime_error &e) { t = true; what = e.what(); }
    no(!t, k ? "checking_no_empty: empty_upper must throw" : "checking_no_empty: empty_lower must throw");
    no(what != "boost::interval: empty interval created", "text of exception_create_empty");
    g_called = 0; T g = k ? Nn::empty_upper() : Nn::empty_lower(); (void)g;
    no(g_called != 1, "checking_no_empty must invoke its exception for each empty bound");
  }
  no(Ne::is_empty(a, b), "checking_no_empty never sees an empty interval");
  no(Ne::is_nan(a) != isn(a), "checking_no_empty keeps is_nan");
  no(!(Ne::pos_inf() == inf) || !(Ne::neg_inf() == -inf), "checking_no_empty keeps infinities");
  typedef il::checking_no_nan<T> Nx;
  no(Nx::is_nan(a), "checking_no_nan: every number is valid");
  no(Nx::is_empty(a, b) != !(a <= b) || !isn(Nx::nan()), "checking_no_nan keeps the rest");
  typedef il::checking_catch_nan<T> Ca; typedef il::checking_catch_nan<T, Ba, Note> Cn;
  bool t = false, ret = false; std::string what;
  try { ret = Ca::is_nan(a); } catch (const std::invalid_argument &e) { t = true; what = e.what(); }
  no(t != isn(a) || ret, "checking_catch_nan::is_nan throws for invalid numbers and is false otherwise");
  no(t && what != "boost::interval: invalid number", "text of exception_invalid_number");
  g_called = 0; ret = Cn::is_nan(a);
  no(g_called != (isn(a) ? 1 : 0) || ret, "checking_catch_nan invokes its exception and answers false");
  no(Ca::is_empty(a, b) != !(a <= b) || !isn(Ca::nan()), "checking_catch_nan keeps the rest");
  typedef il::checking_strict<T> St;
  no(St::is_nan(a) || St::is_empty(a, b), "checking_strict tests nothing");
  t = false; try { St::empty_lower(); } catch (const std::runtime_error &) { t = true; }
  no(!t, "checking_strict: no empty interval");
  typedef il::checking_catch_nan<T, il::checking_no_empty<T, Ba, Note>, Note> Bo;
  g_called = 0; ret = Bo::is_nan(nan) || Bo::is_empty(nan, nan); Bo::empty_lower(); Bo::empty_upper();
  no(g_called != 3 || ret, "combined checking classes");
  vh::nontrivial(vh::hstr(tn) ^ gen::hash(B<double>{ double(isn(a)), double(isn(b)) }) ^ (uint64_t(a <= b) << 9));
}
static void classes_int(Rng &r) {
  typedef il::checking_base<int> Ba; typedef il::checking_no_empty<int> Ne; typedef il::checking_catch_nan<int> Ca;
  int a = r.range(-5, 5), b = r.range(-5, 5); bool t = false;
  try { Ne::empty_upper(); } catch (const std::runtime_error &) { t = true; }
  vh::eval();
  if (Ba::empty_lower() != 1 || Ba::empty_upper() != 0 || !Ba::is_empty(1, 0) || Ba::is_empty(a, b) != !(a <= b) || Ba::is_nan(a) || !t || Ne::is_empty(a, b) || Ca::is_nan(a))
    vh::fail("classes/int", "checking classes of a type without infinities and invalid numbers");
  // the default policies are strict
  t = false; try { bn::interval<double> x(3, 2); } catch (const std::runtime_error &) { t = true; }
  bool t2 = false; try { bn::interval<float> x = bn::interval<float>::empty(); } catch (const std::runtime_error &) { t2 = true; }
  bool t3 = false; try { bn::interval<int> x(3, 2); } catch (const std::runtime_error &) { t3 = true; }
  if (!t || !t2 || !t3) vh::fail("classes/default", "intervals with the default policies let an empty interval be created");
  static_assert(std::is_base_of<std::runtime_error, il::comparison_error>::value, "");
}
VH_GROUP(cls, "checking classes", 4000, 40000) {
  (void)idx;
  double v = r.range(-9, 9), w = gen::fin<double>(r);
  classes<float>(r, float(v), gen::fin<float>(r), "float"); classes<double>(r, v, w, "double");
  classes<long double>(r, v, gen::fin<long double>(r), "long double"); classes<Odd>(r, Odd(v), Odd(w), "user type");
  classes_int(r);
}
#endif

#ifdef STRONG
// ---- a failure at each call into the checking policy
struct Faults { static long at, seen; static void tick() { ++seen; if (at && --at == 0) throw std::runtime_error("injected"); } };
long Faults::at, Faults::seen;
template<class T> struct FaultChecking {
  typedef il::checking_base<T> Ba;
  static T pos_inf() { Faults::tick(); return Ba::pos_inf(); }
  static T neg_inf() { Faults::tick(); return Ba::neg_inf(); }
  static T nan() { Faults::tick(); return Ba::nan(); }
  static bool is_nan(const T &x) { Faults::tick(); return Ba::is_nan(x); }
  static T empty_lower() { Faults::tick(); return Ba::empty_lower(); }
  static T empty_upper() { Faults::tick(); return Ba::empty_upper(); }
  static bool is_empty(const T &l, const T &u) { Faults::tick(); return Ba::is_empty(l, u); }
};
template<class T> struct FPol { typedef bn::interval<T, il::policies<tr::Rnd<T>, FaultChecking<T> > > I; };
template<class T> static void faults(Rng &r) {
  typedef typename FPol<T>::I I;
  static const std::vector<ops::Op<I> > &c = ops::Cat<I, true>::all();
  const ops::Op<I> &op = c[r.below(c.size())];
  ops::Raw<T> q = ops::raw<T>(r, op.flags);
  if (r.chance(1, 3)) empties(r, q, op.name);
  if (op.flags & ops::TR) tame(q);
  Faults::at = 0;
  ops::Args<I> a = ops::args<I>(q);
  const T nan = std::numeric_limits<T>::quiet_NaN();
  if (r.chance(1, 4) && (op.flags & ops::X)) a.x = I(nan, nan, true);
  if (r.chance(1, 6) && (op.flags & ops::Y)) a.y = I(nan, nan, true);
  if (r.chance(1, 6) && (op.flags & ops::NT)) a.t = nan;
  if (r.chance(1, 8) && (op.flags & ops::NS)) a.s = nan;
  const ops::Args<I> was = a;
  ops::Out<I> good; Faults::seen = 0;
  ops::run<I>(op, a, good);
  long n = Faults::seen;
  for (long k = 1; k <= n && k < 60; ++k) {
    ops::Args<I> b = was; ops::Out<I> o;
    Faults::at = k;
    ops::run<I>(op, b, o);
    Faults::at = 0;
    std::fesetround(FE_TONEAREST);
    vh::eval(); vh::count("failures injected into the checking policy");
    std::string what = vh::fmt("checking policy throws at its call %ld of %ld in ", k, n) + gen::Tn<T>::name() + " " + ops::astr(op, was);
    if (o.kind != ops::K_EXC) { vh::fail(std::string("swallowed/") + op.name, what + ": the exception did not come out, result " + ops::ostr(o)); continue; }
    if (!bits_same(b.x, was.x) || !bits_same(b.y, was.y) || gen::bits(b.t) != gen::bits(was.t) || gen::bits(b.s) != gen::bits(was.s))
      vh::fail(std::string("fault/") + op.name, what + ": operands became x=" + istr(b.x) + " y=" + istr(b.y));
    ops::Out<I> again;
    ops::run<I>(op, b, again);
    std::fesetround(FE_TONEAREST);
    if (!ops::sameout(again, good)) vh::fail(std::string("retry/") + op.name, what + ": repeated it gives " + ops::ostr(again) + " instead of " + ops::ostr(good));
    vh::nontrivial(ops::hraw(q, op.flags) ^ vh::hstr(op.name) ^ k * 77 ^ sizeof(T));
  }
}

// ---- assignments from other policies and other types into a destination that may throw
template<class T> static bool same_bounds(const T &l, const T &u, const T &l2, const T &u2) { return gen::bits(l) == gen::bits(l2) && gen::bits(u) == gen::bits(u2); }
template<class J, class F> static void assign_into(J &z, bool arm, const std::string &what, F f) {
  typedef typename J::base_type U;
  const U l = z.lower(), u = z.upper();
  long n = 1;
  for (long k = arm ? 1 : 0; k <= (arm ? n : 0) && k < 20; ++k) {
    J d(l, u, true); bool threw = false;
    Faults::seen = 0; Faults::at = k;
    try { f(d); } catch (const std::exception &) { threw = true; }
    if (!k || !threw) n = Faults::seen;
    Faults::at = 0;
    std::fesetround(FE_TONEAREST);
    vh::eval();
    if (threw) {
      vh::count("assignments that threw");
      if (!same_bounds(d.lower(), d.upper(), l, u)) vh::fail("assign/" + what.substr(0, what.find(':')), what + vh::fmt(" (failure at policy call %ld)", k) + ": threw, and the destination " + gen::str(l) + "," + gen::str(u) + " became " + istr(d));
      if (arm) n = k + 1;
    } else if (arm) break;
    try { d = J(l, u, true); if (!same_bounds(d.lower(), d.upper(), l, u)) vh::fail("assign/after", what + ": a later assignment does not work"); } catch (...) { vh::fail("assign/after", what + ": a later assignment throws"); }
  }
}
template<class T, class J> static void sources(Rng &r, J &z, bool arm, const std::string &nm) {
  typedef bn::interval<T, il::policies<tr::Rnd<T>, il::checking_base<T> > > S;
  typedef bn::interval<T, il::policies<tr::Rnd<T>, UserChecking<T> > > S2;
  const T nan = std::numeric_limits<T>::quiet_NaN();
  B<T> b = gen::ival<T>(r);
  S x(b.l, b.u, true), e(nan, nan, true); S2 x2(b.l, b.u, true), e2(UserChecking<T>::EL(), UserChecking<T>::EU(), true);
  T v = gen::fin<T>(r); double vd = gen::fin<double>(r); long double vl = gen::fin<long double>(r); float vf = gen::fin<float>(r); int vi = (int)r.next();
  std::string t = nm + " from " + gen::Tn<T>::name();
  vh::op("assignment");
  assign_into(z, arm, t + " interval: " + istr(x), [&](J &d) { d = x; });
  assign_into(z, arm, t + " empty interval:", [&](J &d) { d = e; });
  assign_into(z, arm, t + " interval, user policy: " + istr(x2), [&](J &d) { d = x2; });
  assign_into(z, arm, t + " empty interval, user policy:", [&](J &d) { d = e2; });
  assign_into(z, arm, t + " number: " + gen::str(v), [&](J &d) { d = v; });
  assign_into(z, arm, t + " invalid number:", [&](J &d) { d = nan; });
  assign_into(z, arm, nm + " from double: " + gen::str(vd), [&](J &d) { d = vd; });
  assign_into(z, arm, nm + " from long double: " + gen::str(vl), [&](J &d) { d = vl; });
  assign_into(z, arm, nm + " from float: " + gen::str(vf), [&](J &d) { d = vf; });
  assign_into(z, arm, nm + " from int:", [&](J &d) { d = vi; });
  typedef typename J::base_type U;
  U p = gen::fin<U>(r), q = gen::fin<U>(r); const U un = std::numeric_limits<U>::quiet_NaN();
  if (r.chance(1, 4)) (r.chance(1, 2) ? p : q) = un;
  assign_into(z, arm, nm + " assign: " + gen::str(p) + " " + gen::str(q), [&](J &d) { d.assign(p, q); });
  // own bounds, swapped
  assign_into(z, arm, nm + " assign(upper, lower):", [&](J &d) { d.assign(d.upper(), d.lower()); });
  assign_into(z, arm, nm + " assign(lower, nan):", [&](J &d) { d.assign(d.lower(), un); });
  vh::nontrivial(vh::hstr(t.c_str()) ^ gen::hash(b));
}
template<class U, int M> static void into(Rng &r) {
  typedef typename Pol<U, M>::I J;
  B<U> b = gen::ival<U>(r); J z(b.l, b.u, true);
  std::string nm = std::string(Ck<U, M>::n()) + " " + gen::Tn<U>::name();
  sources<float>(r, z, false, nm); sources<double>(r, z, false, nm); sources<long double>(r, z, false, nm);
}
template<class U> static void intoall(Rng &r) {
  switch (r.below(6)) {
  case 0: into<U, M_NOEMPTY>(r); break; case 1: into<U, M_CATCH>(r); break; case 2: into<U, M_CATCHBASE>(r); break;
  case 3: into<U, M_STRICT>(r); break; case 4: into<U, M_USERTHROW>(r); break;
  default: {
    typedef typename FPol<U>::I J; B<U> b = gen::ival<U>(r); J z(b.l, b.u, true); std::string nm = std::string("failing policy ") + gen::Tn<U>::name();
    sources<float>(r, z, true, nm); sources<double>(r, z, true, nm); sources<long double>(r, z, true, nm);
  }
  }
}
#if TSEL & 1
VH_GROUP(ff, "float, failing policy", 60000, 800000) { (void)idx; faults<float>(r); }
VH_GROUP(af, "float, assignments", 20000, 300000) { (void)idx; intoall<float>(r); }
#endif
#if TSEL & 2
VH_GROUP(fd, "double, failing policy", 60000, 800000) { (void)idx; faults<double>(r); }
VH_GROUP(ad, "double, assignments", 20000, 300000) { (void)idx; intoall<double>(r); }
#endif
#if TSEL & 4
VH_GROUP(fl, "ldouble, failing policy", 40000, 500000) { (void)idx; faults<long double>(r); }
VH_GROUP(al, "ldouble, assignments", 10000, 200000) { (void)idx; intoall<long double>(r); }
#endif
#endif
