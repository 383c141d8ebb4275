// P26: inclusion isotonicity: shrinking operands never makes a result grow.
#include "ops.hpp"
#include "tr.hpp"
using vh::Rng; using gen::B;
#ifndef TSEL
#define TSEL 31
#endif
static const int MODES[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};

// ---- shrinking
template<class T> static T inside(Rng &r, B<T> b) { // a number of b
  T v;
  switch (r.below(8)) {
    case 0: v = b.l; break; case 1: v = b.u; break; case 2: v = 0; break;
    case 3: v = gen::fin<T>(r); break;
    case 4: v = gen::nearb(r, std::isfinite((long double)b.l) ? b.l : std::isfinite((long double)b.u) ? b.u : T(1)); break;
    case 5: v = gen::nearb(r, std::isfinite((long double)b.u) ? b.u : std::isfinite((long double)b.l) ? b.l : T(1)); break;
    default: {
      T lo = std::isfinite((long double)b.l) ? b.l : std::numeric_limits<T>::lowest(), hi = std::isfinite((long double)b.u) ? b.u : std::numeric_limits<T>::max();
      T f = std::ldexp((T)r.below(1u << 30), -30); v = lo * (1 - f) + hi * f; }
  }
  if (!(v >= b.l)) v = b.l;
  if (!(v <= b.u)) v = b.u;
  const T mx = std::numeric_limits<T>::max(); // points are numbers
  if (v > mx) v = b.l > -mx ? (b.l < mx ? mx : b.l) : mx;
  if (v < -mx) v = -mx;
  return v;
}
template<class T> static B<T> shrink(Rng &r, B<T> b) {
  B<T> c = b;
  switch (r.below(10)) {
    case 0: break;
    case 1: c.l = gen::up(b.l); break;
    case 2: c.u = gen::down(b.u); break;
    case 3: c.l = gen::up(b.l); c.u = gen::down(b.u); break;
    case 4: c.l = c.u = inside(r, b); break;
    case 5: c.l = inside(r, b); break;
    case 6: c.u = inside(r, b); break;
    default: c = gen::ord(inside(r, b), inside(r, b));
  }
  if (!(c.l <= c.u) || c.u == -gen::inf<T>() || c.l == gen::inf<T>()) return b;
  if (c.l == 0 && r.chance(1, 4)) c.l = -c.l;
  if (c.u == 0 && r.chance(1, 4)) c.u = -c.u;
  return c;
}
template<class I> static bool within(const I &a, const I &b) { // as sets, bounds read directly
  if (isempty(a)) return true;
  if (isempty(b)) return false;
  return b.lower() <= a.lower() && a.upper() <= b.upper();
}
enum Mono { NOT, CERTAIN, POSSIBLE, TRI, DECIDED, SHRINKX, GROW };
static bool starts(const char *s, const char *p) { return strncmp(s, p, strlen(p)) == 0; }
static Mono kind_of(const char *n) {
  if (starts(n, "cmp cmpcer") || starts(n, "cer")) return CERTAIN;
  if (starts(n, "cmp cmppos") || starts(n, "pos")) return POSSIBLE;
  if (starts(n, "cmp cmptri")) return TRI;
  if (starts(n, "cmp cmpdef")) return DECIDED;
  if (!strcmp(n, "overlap") || !strcmp(n, "in") || !strcmp(n, "zero_in")) return POSSIBLE;
  if (!strcmp(n, "singleton")) return CERTAIN;
  if (!strcmp(n, "subset")) return SHRINKX;
  if (!strcmp(n, "width") || !strcmp(n, "norm")) return GROW;
  return NOT;
}
template<class I> struct Tab { // operations concerned, with the interval form of each number form
  struct E { ops::Op<I> o; Mono m; int wide; bool swap; };
  std::vector<E> v; std::vector<int> maps; // maps: operations that yield intervals
  template<bool TR> void fill() {
    const std::vector<ops::Op<I> > &c = ops::Cat<I, TR>::all();
    for (size_t k = 0; k < c.size(); ++k) {
      Mono m = kind_of(c[k].name);
      if (!(c[k].flags & ops::ISO) && m == NOT) continue;
      E e = {c[k], m, -1, false};
      v.push_back(e);
    }
    for (size_t k = 0; k < v.size(); ++k) if (v[k].m == NOT) maps.push_back(k);
    for (E &e : v) if (e.o.flags & ops::NT) {
      std::string n = e.o.name, w;
      for (char q : n) w += q == 't' && w.size() && !isalpha(w.back()) ? 'y' : q; // "x+t" -> "x+y"
      if (n.size() == 3 && n[0] == 't') { w = std::string("x") + n[1] + "y"; e.swap = true; } // "t-x" -> "x-y" of the swapped operands
      else if (n.size() > 5 && n.substr(n.size() - 5) == "(t,x)") { w = n.substr(0, n.size() - 5) + "(x,y)"; e.swap = true; }
      for (size_t j = 0; j < v.size(); ++j) if (w == v[j].o.name && j != size_t(&e - &v[0])) e.wide = (int)j;
    }
  }
};
template<class I, bool TR> static const Tab<I> &tab() { static Tab<I> t; if (t.v.empty()) t.template fill<TR>(); return t; }

template<class I, bool TR, class Guard> static void chain(Rng &r, const char *pol) {
  typedef typename I::base_type T;
  const Tab<I> &t = tab<I, TR>();
  const typename Tab<I>::E &e = t.v[r.below(5) == 0 ? r.below(t.v.size()) : r.below(3) || !TR ? t.maps[r.below(t.maps.size())] : t.v.size() - 1 - r.below(11)];
  const unsigned fl = e.o.flags;
  ops::Raw<T> q = ops::raw<T>(r, fl);
  bool mayempty = e.m == NOT, wide = e.wide >= 0 && r.chance(1, 2);
  ops::Args<I> a = ops::args<I>(q); ops::Out<I> prev, o;
  const ops::Op<I> *op = &e.o;
  if (wide) { // first the interval form with an interval holding t
    op = &t.v[e.wide].o;
    a.y = I(std::min(q.t, inside(r, q.y)), std::max(q.t, inside(r, q.y)), true); if (r.chance(1, 3)) a.y = I(q.t, q.t, true);
    q.y.l = a.y.lower(); q.y.u = a.y.upper();
  }
  if (wide && e.swap) std::swap(a.x, a.y);
  ops::Args<I> pa = a; const ops::Op<I> *pop = op;
  std::fesetround(MODES[r.below(4)]);
  { Guard g; (void)g; ops::run<I>(*op, a, prev); }
  std::fesetround(FE_TONEAREST);
  int depth = 1 + r.below(4);
  for (int k = 0; k < depth; ++k) {
    bool emp = false;
    if (e.m == SHRINKX) q.x = shrink(r, q.x);
    else { if (r.below(4)) q.x = shrink(r, q.x); if (r.below(4)) q.y = shrink(r, q.y); }
    if ((fl & ops::TPOS) && r.chance(1, 2)) { q.t = inside(r, B<T>{0, q.t}); }
    ops::Args<I> b = ops::args<I>(q);
    op = &e.o;
    if (wide && r.below(2)) { op = &t.v[e.wide].o; }
    else if (wide && !(q.y.l <= q.t && q.t <= q.y.u)) { q.t = inside(r, q.y); b.t = q.t; }
    if (wide && op != &e.o && e.swap) std::swap(b.x, b.y);
    if (wide && op == &e.o) { wide = false; } // number form from here on
    if (mayempty && k == depth - 1 && r.chance(1, 12)) {
      const T nan = std::numeric_limits<T>::quiet_NaN();
      if ((op->flags & ops::Y) && r.chance(1, 2)) b.y = I(nan, nan, true); else if (op->flags & ops::X) b.x = I(nan, nan, true);
      emp = true;
    }
    ops::Args<I> keep = b;
    std::fesetround(MODES[r.below(4)]);
    { Guard g; (void)g; ops::run<I>(*op, b, o); }
    std::fesetround(FE_TONEAREST);
    vh::eval();
    bool ok = true, strict = false;
    switch (e.m) {
      case NOT:
        ok = o.kind == ops::K_I && prev.kind == ops::K_I && within(o.a, prev.a);
        strict = ok && !eqi(o.a, prev.a);
        if (ok && emp && op->bad == ops::B_EMPTY && !isempty(o.a)) ok = false;
        break;
      case CERTAIN: ok = !(prev.f && !o.f); strict = prev.f; break;
      case POSSIBLE: ok = !(o.f && !prev.f); strict = !prev.f; break;
      case TRI: ok = prev.f == 2 || prev.f == o.f; strict = prev.f != 2; break;
      case DECIDED: ok = prev.kind != ops::K_B || (o.kind == ops::K_B && o.f == prev.f); strict = prev.kind == ops::K_B; break;
      case SHRINKX: ok = !(prev.f && !o.f); strict = prev.f; break;
      case GROW: ok = o.v <= prev.v; strict = o.v < prev.v; break;
    }
    std::string key = std::string(op->name) + "/" + gen::Tn<T>::name() + "/" + pol;
    if (!ok) vh::fail(key, ops::astr(*op, keep) + " gives " + ops::ostr(o) + ", not within " + ops::ostr(prev) + " from " + ops::astr(*pop, pa));
    if (strict) {
      vh::nontrivial(ops::hraw(q, op->flags) ^ vh::hstr(key.c_str()) ^ vh::mix(k));
      vh::count(e.m == NOT ? (op != pop ? "number form strictly within interval form" : "results strictly nested") : e.m == GROW ? "smaller widths and norms" : "decided predicates kept");
      if (r.below(30000) == 0) vh::sample(key + ": " + ops::astr(*op, keep) + " -> " + ops::ostr(o) + " within " + ops::ostr(prev));
    }
    if (emp) { vh::count("empty operands"); break; }
    prev = o; pa = keep; pop = op;
  }
}
struct None { };
template<class T> struct Ts {
  typedef il::checking_base<T> CB;
  typedef bn::interval<T, il::policies<il::rounded_math<T>, CB> > Def;
  typedef bn::interval<T, il::policies<il::save_state<il::rounded_arith_std<T> >, CB> > Std;
  typedef bn::interval<T, il::policies<tr::Rnd<T>, CB> > Tr;
  typedef typename il::unprotect<Def>::type Un;
  struct Guard { typename Def::traits_type::rounding r; };
};
template<class T> static void all(Rng &r) {
  typedef Ts<T> S;
  switch (r.below(10)) {
#ifdef STDP
    case 0: case 1: case 2: case 3: chain<typename S::Std, false, None>(r, "std"); break;
#else
    case 0: case 1: chain<typename S::Un, false, typename S::Guard>(r, "unprotected"); break;
    case 2: case 3: chain<typename S::Tr, true, None>(r, "tr"); break;
#endif
    default: chain<typename S::Def, false, None>(r, "default");
  }
}
#if TSEL & 1
VH_GROUP(f, "float", 400000, 10000000) { all<float>(r); }
#endif
#if TSEL & 2
VH_GROUP(d, "double", 500000, 12000000) { all<double>(r); }
#endif
#if TSEL & 4
VH_GROUP(l, "ldouble", 250000, 6000000) { all<long double>(r); }
#endif
// ---- conversions between base types
#if TSEL & 8
template<class D, class S> NOIPA static D cvt(const S &s) { return D(s); }
template<class D, class S> NOIPA static D cva(const S &s) { D d; d = s; return d; }
template<class T, class U> static void conv(Rng &r, const char *n) {
  typedef typename Ts<T>::Def D; typedef typename Ts<U>::Def S;
  B<U> b = gen::ival<U>(r);
  if (sizeof(T) < sizeof(U) && r.chance(1, 2)) { // around the numbers of the narrower type
    b = gen::ord((U)(T)gen::fin<T>(r), (U)(T)gen::fin<T>(r)); if (r.chance(1, 2)) b = gen::ord(gen::nearb(r, b.l), gen::nearb(r, b.u));
  }
  D prev = cvt<D, S>(S(b.l, b.u));
  for (int k = 0; k < 3; ++k) {
    B<U> c = shrink(r, b);
    S s(c.l, c.u); std::fesetround(MODES[r.below(4)]);
    D d = r.chance(1, 2) ? cvt<D, S>(s) : cva<D, S>(s);
    std::fesetround(FE_TONEAREST); vh::eval();
    if (!within(d, prev)) vh::fail(std::string("conversion ") + n, std::string("conversion ") + n + " of " + c.s() + " gives " + istr(d) + ", not within " + istr(prev) + " from " + b.s());
    if (!eqi(d, prev)) { vh::nontrivial(gen::hash(c) ^ vh::hstr(n)); vh::count("conversions strictly nested"); }
    prev = d; b = c;
  }
}
VH_GROUP(c, "conversions", 300000, 6000000) {
  switch (r.below(6)) { case 0: conv<float, double>(r, "float<-double"); break; case 1: conv<float, long double>(r, "float<-ldouble"); break;
    case 2: conv<double, long double>(r, "double<-ldouble"); break; case 3: conv<double, float>(r, "double<-float"); break;
    case 4: conv<long double, double>(r, "ldouble<-double"); break; default: conv<long double, float>(r, "ldouble<-float"); }
}
#endif
