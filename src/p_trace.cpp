// P22: the calls a rounding policy receives.  A user-written policy records its
// objects and calls; a second one widens every result; a third one throws.
#include "ops.hpp"
#include "tr.hpp"
using vh::Rng;
#ifndef PART
#define PART 7
#endif

struct Fault {};
struct Log {
  long prot = 0, unp = 0;             // objects alive
  uint64_t made[2] = {0, 0}, calls = 0, ops = 0;
  long throw_at = -1;
  bool relaxed = false;               // infinite differences inside fmod of a huge argument
  const char *bad = 0; char badmsg[200];
  uint64_t hits[32] = {0};
};
static Log L;
enum F { ADD, SUB, MUL, DIV, SQRT, INT, MED, CONV, EXP };  // EXP + tr::Fn
static const char *fn(int f) { static const char *n[] = {"add", "sub", "mul", "div", "sqrt", "int", "median", "conv"}; return f < EXP ? n[f] : tr::fname(f - EXP); }
static void bad(const char *k, int f, const char *d, long double a, long double b) { if (L.bad) return; L.bad = k; snprintf(L.badmsg, sizeof L.badmsg, "%s_%s(%La, %La)", fn(f), d, a, b); }

template<class T> static NOIPA T arith(int f, bool up, T a, T b) {
  tr::KeepMode k; std::fesetround(up ? FE_UPWARD : FE_DOWNWARD); volatile T x = a, y = b, z;
  switch (f) { case ADD: z = x + y; break; case SUB: z = x - y; break; case MUL: z = x * y; break; case DIV: z = x / y; break; default: z = std::sqrt((T)x); }
  asm volatile("" : : : "memory"); return z;
}
// moves a bound outward, on its own side of zero
template<class T> static T out(T v, bool up, int w) {
  if (!w || v == 0 || !std::isfinite(v)) return v;
  tr::KeepMode k; std::fesetround(FE_TONEAREST); volatile T e = std::ldexp(T(1), w == 1 ? -10 : -(std::numeric_limits<T>::digits - 1)), x = v, r = (v > 0) == up ? x * (1 + e) : x * (1 - e);
  if (r == v) r = up ? gen::up(v) : gen::down(v);
  return r;
}
template<class T, int W, bool PROT> struct Tr {
  typedef Tr<T, W, false> unprotected_rounding;
  const Tr *self;
  Tr() : self(this) { if (PROT) L.prot++; else { if (L.prot < 1) { if (!L.bad) { L.bad = "unprotected"; snprintf(L.badmsg, sizeof L.badmsg, "an unprotected rounding object was created without a protected one"); } } L.unp++; } L.made[PROT]++; }
  Tr(const Tr &) : self(this) { (PROT ? L.prot : L.unp)++; L.made[PROT]++; }
  Tr &operator=(const Tr &) { return *this; }
  ~Tr() { if (self != this && !L.bad) { L.bad = "destroyed"; snprintf(L.badmsg, sizeof L.badmsg, "a rounding object was destroyed that was not constructed"); } (PROT ? L.prot : L.unp)--; self = 0; }
  void in(int f, const char *d, T a, T b, bool two) {
    L.calls++; L.hits[f]++;
    if (self != this) bad("dead", f, d, a, b);
    if (L.prot < 1) bad("unprotected", f, d, a, b);
    if (!L.relaxed && (a != a || (two && b != b))) bad("nan", f, d, a, b);
    if (L.throw_at > 0 && --L.throw_at == 0) throw Fault();
  }
  T a2(int f, bool up, T a, T b) {
    const char *d = up ? "up" : "down"; in(f, d, a, b, true);
    T z = arith<T>(f, up, a, b);
    if (z != z && !L.relaxed) bad("domain", f, d, a, b);
    if (f == DIV && b == 0) bad("domain", f, d, a, b);
    return out(z, up, W);
  }
  T a1(int f, bool up, T a) { in(f, up ? "up" : "down", a, 0, false); if (a < 0) bad("domain", f, up ? "up" : "down", a, 0); return out(arith<T>(f, up, a, 0), up, W); }
  T tn(int f, bool up, T a) {
    const char *d = up ? "up" : "down"; in(EXP + f, d, a, 0, false);
    bool ok = true;
    switch (f) { case tr::LOG: ok = a >= 0; break; case tr::ASIN: case tr::ACOS: case tr::ATANH: ok = a >= -1 && a <= 1; break; case tr::ACOSH: ok = a >= 1; break; case tr::SIN: case tr::COS: case tr::TAN: ok = std::isfinite(a); break; default: break; }
    if (!ok && !(L.relaxed && f <= tr::TAN)) bad("domain", EXP + f, d, a, 0);
    return out(tr::value<T>(f, a, up), up, W);
  }
#define A2(N, E) T N##_down(const T &a, const T &b) { return a2(E, false, a, b); } T N##_up(const T &a, const T &b) { return a2(E, true, a, b); }
  A2(add, ADD) A2(sub, SUB) A2(mul, MUL) A2(div, DIV)
#define T1(N, E) T N##_down(const T &a) { return tn(tr::E, false, a); } T N##_up(const T &a) { return tn(tr::E, true, a); }
  T1(exp, EXP) T1(log, LOG) T1(sin, SIN) T1(cos, COS) T1(tan, TAN) T1(asin, ASIN) T1(acos, ACOS) T1(atan, ATAN) T1(sinh, SINH) T1(cosh, COSH) T1(tanh, TANH) T1(asinh, ASINH) T1(acosh, ACOSH) T1(atanh, ATANH)
  T sqrt_down(const T &a) { return a1(SQRT, false, a); } T sqrt_up(const T &a) { return a1(SQRT, true, a); }
  T int_down(const T &a) { in(INT, "down", a, 0, false); return std::floor(a); } T int_up(const T &a) { in(INT, "up", a, 0, false); return std::ceil(a); }
  T median(const T &a, const T &b) { in(MED, "", a, b, true); tr::KeepMode k; std::fesetround(FE_TONEAREST); volatile T x = a, y = b, z = x + y; if (std::isinf((T)z)) return x / 2 + y / 2; return z / 2; }
  template<class U> T conv(bool up, const U &u) { in(CONV, up ? "up" : "down", (T)u, 0, false); tr::KeepMode k; std::fesetround(up ? FE_UPWARD : FE_DOWNWARD); volatile U x = u; volatile T z = (T)x; asm volatile("" : : : "memory"); return out<T>(z, up, W); }
  template<class U> T conv_down(const U &u) { return conv(false, u); } template<class U> T conv_up(const U &u) { return conv(true, u); }
};
template<class T, int W, class C = il::checking_base<T> > struct TI { typedef bn::interval<T, il::policies<Tr<T, W, true>, C> > P; typedef typename il::unprotect<P>::type U; };

static void judge(const char *cfg, const std::string &what, const char *op, bool outer) {
  vh::eval();
  if (L.bad) { vh::fail(std::string("policy/") + L.bad + "/" + op, std::string(cfg) + " " + what + ": " + L.badmsg); L.bad = 0; }
  if (L.prot != (outer ? 1 : 0) || L.unp) { vh::fail(std::string("policy/alive/") + op, std::string(cfg) + " " + what + vh::fmt(": %ld protected and %ld unprotected rounding objects left", L.prot, L.unp)); L.prot = outer; L.unp = 0; }
}
// operands for which the documentation demands a valid computation
template<class T> static bool prep(ops::Raw<T> &q, unsigned fl, const char *name, bool &relaxed) {
  const T big = std::numeric_limits<T>::max() / 8; relaxed = false;
  if (fl & ops::FMODY) { T m = std::max(std::max(std::fabs(q.x.l), std::fabs(q.x.u)), std::fabs(q.t)); if (!(m < big) || !(m / q.y.l < big) || !std::isfinite(q.y.u)) return false; }
  if (fl & ops::FMODT) { T m = std::max(std::fabs(q.x.l), std::fabs(q.x.u)); if (!(m < big) || !(m / q.t < big)) return false; }
  if (fl & ops::TR && (!strcmp(name, "sin") || !strcmp(name, "cos") || !strcmp(name, "tan")) && !(std::fabs(q.x.l) < big && std::fabs(q.x.u) < big)) relaxed = true;
  if (fl & ops::NPOS) if (!std::isfinite(q.x.l) || !std::isfinite(q.x.u)) return false;
  return true;
}
template<class T> static bool inside(T a, T b, T c, T d) { return (a <= b && c <= d) ? c <= a && b <= d : !(a <= b); }  // [a,b] in [c,d]
template<class T, int W> static void one(Rng &r) {
  typedef typename TI<T, 0>::P N; typedef typename TI<T, W>::P I; typedef typename TI<T, W>::U U;
  static const std::vector<ops::Op<N> > &cn = ops::Cat<N, true>::all(); static const std::vector<ops::Op<I> > &ci = ops::Cat<I, true>::all();
  const unsigned k = r.below(cn.size()); const ops::Op<N> &op = cn[k];
  ops::Raw<T> q = ops::raw<T>(r, op.flags); bool relaxed;
  if (!prep(q, op.flags, op.name, relaxed)) return;
  ops::Args<N> a = ops::args<N>(q); ops::Out<N> o; ops::Args<I> b = ops::args<I>(q); ops::Out<I> p;
  std::string what = ops::astr(op, a);
  vh::nontrivial(ops::hraw(q, op.flags) ^ vh::hstr(op.name)); L.relaxed = relaxed;
  uint64_t c0 = L.calls; ops::run<N>(op, a, o); judge("trace", what, op.name, false); c0 = L.calls - c0; vh::count("policy calls observed", c0);
  const bool trig = op.flags & ops::TR && (op.fn == cn[k].fn) && (!strcmp(op.name, "sin") || !strcmp(op.name, "cos") || !strcmp(op.name, "tan"));
  if ((op.flags & (ops::FMODY | ops::FMODT | ops::NPOS)) || trig) return;  // a wider quotient changes them, not only widens
  ops::run<I>(ci[k], b, p); judge("widening", what, op.name, false);
  if (o.kind != p.kind) { vh::fail(std::string("policy/kind/") + op.name, what + ": " + ops::ostr(o) + " but " + ops::ostr(p) + " when the policy widens"); return; }
  if (!strncmp(op.name, "bisect", 6) || !strcmp(op.name, "median")) return;
  if (o.kind == ops::K_N) { if (!(o.v <= p.v) && o.v == o.v) vh::fail(std::string("policy/widen/") + op.name, what + ": " + ops::ostr(o) + " shrank to " + ops::ostr(p)); return; }
  if (o.kind == ops::K_B) { if (o.f != p.f) vh::fail(std::string("policy/widen/") + op.name, what + " depends on the rounding"); return; }
  if (o.kind != ops::K_I && o.kind != ops::K_II) return;
  vh::count("results compared with a widening policy");
  const std::pair<N, I> z[] = {std::make_pair(o.a, p.a), std::make_pair(o.b, p.b)};
  for (int i = 0; i < (o.kind == ops::K_II ? 2 : 1); ++i) {
    T l = z[i].first.lower(), u = z[i].first.upper(), wl = z[i].second.lower(), wu = z[i].second.upper();
    if (!inside(l, u, wl, wu)) { vh::fail(std::string("policy/widen/") + op.name, what + ": " + ops::ostr(o) + " is not inside " + ops::ostr(p) + ", from a policy that widens"); continue; }
    if (!(l <= u)) continue;
    // a bound that is not an operand or a constant came from the policy: it moved
    T c[] = {q.x.l, q.x.u, q.y.l, q.y.u, q.t, q.s, T(1), il::pi<N>().lower(), il::pi<N>().upper(), il::pi_half<N>().lower(), il::pi_half<N>().upper(), il::pi_twice<N>().lower(), il::pi_twice<N>().upper(), T(q.n), std::numeric_limits<T>::max()};
    bool kl = l == 0 || std::isinf(l), ku = u == 0 || std::isinf(u);
    for (T v : c) { if (v == l || v == -l) kl = true; if (v == u || v == -u) ku = true; }
    if (!kl && !(wl < l)) vh::fail(std::string("policy/bypassed/") + op.name, what + ": the lower bound of " + ops::ostr(o) + " does not come from the policy");
    if (!ku && !(wu > u)) vh::fail(std::string("policy/bypassed/") + op.name, what + ": the upper bound of " + ops::ostr(o) + " does not come from the policy");
    if (!kl || !ku) vh::count("bounds moved by a widening policy", !kl + !ku);
  }
  (void)sizeof(U);
}
// exceptions thrown by the policy, and by the checking policy
template<class T> static void thrown(Rng &r) {
  typedef il::checking_catch_nan<T, il::checking_no_empty<T> > CC; typedef typename TI<T, 0>::P N; typedef typename TI<T, 0, CC>::P S;
  static const std::vector<ops::Op<N> > &cn = ops::Cat<N, true>::all(); static const std::vector<ops::Op<S> > &cs = ops::Cat<S, true>::all();
  const unsigned k = r.below(cn.size()); const ops::Op<N> &op = cn[k];
  ops::Raw<T> q = ops::raw<T>(r, op.flags); bool relaxed; if (!prep(q, op.flags, op.name, relaxed)) return;
  if (r.chance(1, 8)) q.t = std::numeric_limits<T>::quiet_NaN();
  L.relaxed = relaxed; vh::nontrivial(ops::hraw(q, op.flags) ^ vh::hstr(op.name));
  bool badop = q.t != q.t;
  if (!badop) {
    ops::Args<N> a = ops::args<N>(q); ops::Out<N> o; uint64_t c0 = L.calls;
    ops::run<N>(op, a, o); std::string what = ops::astr(op, a); uint64_t n = L.calls - c0; judge("trace", what, op.name, false);
    if (n) {
      long at = 1 + (long)(r.next() % n); ops::Args<N> b = ops::args<N>(q); ops::Out<N> p;
      L.throw_at = at; ops::run<N>(op, b, p); bool gone = L.throw_at == 0; L.throw_at = -1;
      judge("throwing policy", what, op.name, false);
      if (!gone || p.kind != ops::K_EXC || p.f != ops::E_OTHER) vh::fail(std::string("policy/swallowed/") + op.name, what + vh::fmt(": an exception of the policy at call %ld of %ld gave ", at, (long)n) + ops::ostr(p));
      else vh::count("exceptions from the policy");
    }
  }
  ops::Args<S> a = ops::args<S>(q); ops::Out<S> o; std::string what = ops::astr(cs[k], a);
  ops::run<S>(cs[k], a, o);
  if (badop && (op.flags & (ops::X | ops::Y | ops::NT))) L.bad = 0;   // operands outside the property
  judge("throwing checks", what, op.name, false); if (o.kind == ops::K_EXC) vh::count("exceptions from the checking policy");
}
// unprotected intervals under one protected object of the user
template<class T> static void unprot(Rng &r) {
  typedef typename TI<T, 0>::P N; typedef typename TI<T, 0>::U U;
  static const std::vector<ops::Op<U> > &cu = ops::Cat<U, true>::all(); static const std::vector<ops::Op<N> > &cn = ops::Cat<N, true>::all();
  ops::Out<U> o[6]; ops::Out<N> p[6]; std::string what[6]; unsigned ks[6]; ops::Raw<T> q[6]; int m = 0;
  for (int i = 0; i < 6; ++i) { unsigned k = r.below(cu.size()); q[m] = ops::raw<T>(r, cu[k].flags); bool rel; if (!prep(q[m], cu[k].flags, cu[k].name, rel) || rel) continue; ks[m++] = k; }
  L.relaxed = false;
  {
    typename N::traits_type::rounding outer;
    for (int i = 0; i < m; ++i) { ops::Args<U> a = ops::args<U>(q[i]); what[i] = ops::astr(cu[ks[i]], a); uint64_t made = L.made[1]; ops::run<U>(cu[ks[i]], a, o[i]); judge("unprotected", what[i], cu[ks[i]].name, true);
      if (L.made[1] != made) vh::fail(std::string("policy/reprotected/") + cu[ks[i]].name, what[i] + ": a protected rounding object was created for an unprotected interval");
      vh::nontrivial(ops::hraw(q[i], 5) ^ vh::hstr(cu[ks[i]].name)); }
  }
  for (int i = 0; i < m; ++i) { ops::Args<N> a = ops::args<N>(q[i]); ops::run<N>(cn[ks[i]], a, p[i]); judge("trace", what[i], cn[ks[i]].name, false); vh::count("unprotected results compared"); if (!ops::sameout(o[i], p[i])) vh::fail(std::string("policy/unprotected result/") + cu[ks[i]].name, what[i] + ": " + ops::ostr(o[i]) + " unprotected, " + ops::ostr(p[i]) + " protected"); }
}
#define GR(T, N, B) \
  static void w_##N(Rng &r) { switch (r.below(3)) { case 0: one<T, 2>(r); break; default: one<T, 1>(r); } } \
  VH_GROUP(cat_##N, "trace and widening " #N, 30000, 900000) { (void)idx; for (int i = 0; i < 4; ++i) w_##N(r); } \
  VH_GROUP(thr_##N, "exceptions " #N, 20000, 600000) { (void)idx; for (int i = 0; i < 4; ++i) thrown<T>(r); } \
  VH_GROUP(unp_##N, "unprotected " #N, 10000, 300000) { (void)idx; unprot<T>(r); }
#if PART & 1
GR(double, double, 1)
#endif
#if PART & 2
GR(float, float, 2)
#endif
#if PART & 4
GR(long double, ldouble, 4)
#endif
