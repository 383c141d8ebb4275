// A catalogue of every public operation, callable uniformly on any interval type.
#ifndef OPS_HPP
#define OPS_HPP
#include "lib.hpp"
#include <boost/numeric/interval/ext/integer.hpp>
#include <boost/numeric/interval/compare/certain.hpp>
#include <boost/numeric/interval/compare/possible.hpp>
#include <boost/numeric/interval/compare/lexicographic.hpp>
#include <boost/numeric/interval/compare/set.hpp>
#include <boost/numeric/interval/compare/tribool.hpp>
#include <boost/numeric/interval/compare/explicit.hpp>
#include <stdexcept>

namespace ops {

template<class I> struct Args { typedef typename I::base_type T; I x, y; T t, s; int n; };
enum Kind { K_I, K_II, K_N, K_B, K_NONE, K_EXC };
enum Exc { E_EMPTY = 1, E_NAN, E_CMP, E_OTHER };
template<class I> struct Out {
  typedef typename I::base_type T;
  int kind; I a, b; T v; int f;
  Out() : kind(K_NONE), v(0), f(0) {}
  void operator=(const I &r) { kind = K_I; a = r; }
  void num(const T &r) { kind = K_N; v = r; }
  void boolean(int r) { kind = K_B; f = r; }
  void two(const I &p, const I &q) { kind = K_II; a = p; b = q; }
};
enum Flag { X = 1, Y = 2, NT = 4, NS = 8, N = 16, MUT = 32, TR = 64, NPOS = 128, ISO = 256, FMODY = 512, FMODT = 1024, ORD = 2048, CONV = 4096, UNM = 8192, TPOS = 16384 };
// what an empty interval or an invalid number operand must lead to
enum Bad { B_EMPTY, B_NAN, B_ZERO, B_FALSE, B_CMP, B_HULL, B_SET, B_ANY };

template<class I> struct Op { const char *name; unsigned flags; Bad bad; void (*fn)(Args<I> &, Out<I> &); };

#define CMPS(NS_, USING)                                                                             \
  namespace NS_ {                                                                                    \
  USING                                                                                              \
  template<class A, class C> auto lt(const A &x, const C &y) -> decltype(x < y) { return x < y; }    \
  template<class A, class C> auto le(const A &x, const C &y) -> decltype(x <= y) { return x <= y; }  \
  template<class A, class C> auto gt(const A &x, const C &y) -> decltype(x > y) { return x > y; }    \
  template<class A, class C> auto ge(const A &x, const C &y) -> decltype(x >= y) { return x >= y; }  \
  template<class A, class C> auto eq(const A &x, const C &y) -> decltype(x == y) { return x == y; }  \
  template<class A, class C> auto ne(const A &x, const C &y) -> decltype(x != y) { return x != y; }  \
  }
namespace cmpdef {
template<class A, class C> bool lt(const A &x, const C &y) { return x < y; }
template<class A, class C> bool le(const A &x, const C &y) { return x <= y; }
template<class A, class C> bool gt(const A &x, const C &y) { return x > y; }
template<class A, class C> bool ge(const A &x, const C &y) { return x >= y; }
template<class A, class C> bool eq(const A &x, const C &y) { return x == y; }
template<class A, class C> bool ne(const A &x, const C &y) { return x != y; }
}
CMPS(cmpcer, using namespace il::compare::certain;)
CMPS(cmppos, using namespace il::compare::possible;)
CMPS(cmplex, using namespace il::compare::lexicographic;)
CMPS(cmpset, using namespace il::compare::set;)
CMPS(cmptri, using namespace il::compare::tribool;)
inline int b3(bool b) { return b; }
inline int b3(boost::logic::tribool b) { return boost::logic::indeterminate(b) ? 2 : bool(b); }

// arithmetic, sets, scalars, comparisons; elementary functions when TRANSC
#ifdef X87_HPP
enum { LIBM = 0 }; // the C library here does not compute with the x87 unit
#else
enum { LIBM = 1 };
#endif
template<class I, bool TRANSC> struct Cat {
  typedef typename I::base_type T;
  typedef Args<I> A; typedef Out<I> O;
  static void build_tr(std::vector<Op<I> > &, std::false_type) {}
  static void build_tr(std::vector<Op<I> > &v, std::true_type) {
#define OP(NAME, FL, BAD, BODY) v.push_back(Op<I>{NAME, FL, BAD, [](A &a, O &o) { (void)a; (void)o; BODY; }});
    OP("exp", X | TR | ISO, B_EMPTY, o = exp(a.x))
    OP("log", X | TR | ISO, B_EMPTY, o = log(a.x))
    OP("sin", X | TR, B_EMPTY, o = sin(a.x))
    OP("cos", X | TR, B_EMPTY, o = cos(a.x))
    OP("tan", X | TR, B_EMPTY, o = tan(a.x))
    OP("asin", X | TR | ISO, B_EMPTY, o = asin(a.x))
    OP("acos", X | TR | ISO, B_EMPTY, o = acos(a.x))
    OP("atan", X | TR | ISO, B_EMPTY, o = atan(a.x))
    OP("sinh", X | TR | ISO, B_EMPTY, o = sinh(a.x))
    OP("cosh", X | TR | ISO, B_EMPTY, o = cosh(a.x))
    OP("tanh", X | TR | ISO, B_EMPTY, o = tanh(a.x))
    OP("asinh", X | TR | ISO, B_EMPTY, o = asinh(a.x))
    OP("acosh", X | TR | ISO, B_EMPTY, o = acosh(a.x))
    OP("atanh", X | TR | ISO, B_EMPTY, o = atanh(a.x))
  }
  static void build_trfn(std::vector<Op<I> > &v) { build_tr(v, std::integral_constant<bool, TRANSC && LIBM>()); }
  static const std::vector<Op<I> > &all() {
    static std::vector<Op<I> > v;
    if (!v.empty()) return v;
    // arithmetic
    OP("x+y", X | Y | ISO, B_EMPTY, o = a.x + a.y)
    OP("x-y", X | Y | ISO, B_EMPTY, o = a.x - a.y)
    OP("x*y", X | Y | ISO, B_EMPTY, o = a.x * a.y)
    OP("x/y", X | Y | ISO, B_EMPTY, o = a.x / a.y)
    OP("x+t", X | NT | ISO, B_EMPTY, o = a.x + a.t)
    OP("x-t", X | NT | ISO, B_EMPTY, o = a.x - a.t)
    OP("x*t", X | NT | ISO, B_EMPTY, o = a.x * a.t)
    OP("x/t", X | NT | ISO, B_EMPTY, o = a.x / a.t)
    OP("t+x", X | NT | ISO, B_EMPTY, o = a.t + a.x)
    OP("t-x", X | NT | ISO, B_EMPTY, o = a.t - a.x)
    OP("t*x", X | NT | ISO, B_EMPTY, o = a.t * a.x)
    OP("t/x", X | NT | ISO, B_EMPTY, o = a.t / a.x)
    OP("x+=y", X | Y | MUT | ISO, B_EMPTY, a.x += a.y; o = a.x)
    OP("x-=y", X | Y | MUT | ISO, B_EMPTY, a.x -= a.y; o = a.x)
    OP("x*=y", X | Y | MUT | ISO, B_EMPTY, a.x *= a.y; o = a.x)
    OP("x/=y", X | Y | MUT | ISO, B_EMPTY, a.x /= a.y; o = a.x)
    OP("x+=t", X | NT | MUT | ISO, B_EMPTY, a.x += a.t; o = a.x)
    OP("x-=t", X | NT | MUT | ISO, B_EMPTY, a.x -= a.t; o = a.x)
    OP("x*=t", X | NT | MUT | ISO, B_EMPTY, a.x *= a.t; o = a.x)
    OP("x/=t", X | NT | MUT | ISO, B_EMPTY, a.x /= a.t; o = a.x)
    OP("x+=x", X | MUT | ISO, B_EMPTY, a.x += a.x; o = a.x)
    OP("x-=x", X | MUT | ISO, B_EMPTY, a.x -= a.x; o = a.x)
    OP("x*=x", X | MUT | ISO, B_EMPTY, a.x *= a.x; o = a.x)
    OP("x/=x", X | MUT | ISO, B_EMPTY, a.x /= a.x; o = a.x)
    OP("x*x", X | ISO, B_EMPTY, o = a.x * a.x)
    OP("x/x", X | ISO, B_EMPTY, o = a.x / a.x)
    OP("x+n", X | N, B_EMPTY, o = a.x + a.n)
    OP("x-n", X | N, B_EMPTY, o = a.x - a.n)
    OP("x*n", X | N, B_EMPTY, o = a.x * a.n)
    OP("x/n", X | N, B_EMPTY, o = a.x / a.n)
    OP("n+x", X | N, B_EMPTY, o = a.n + a.x)
    OP("n-x", X | N, B_EMPTY, o = a.n - a.x)
    OP("n*x", X | N, B_EMPTY, o = a.n * a.x)
    OP("n/x", X | N, B_EMPTY, o = a.n / a.x)
    OP("add(t,s)", NT | NS, B_EMPTY, o = il::add<I>(a.t, a.s))
    OP("sub(t,s)", NT | NS, B_EMPTY, o = il::sub<I>(a.t, a.s))
    OP("mul(t,s)", NT | NS, B_EMPTY, o = il::mul<I>(a.t, a.s))
    OP("div(t,s)", NT | NS, B_EMPTY, o = il::div<I>(a.t, a.s))
    OP("-x", X | ISO, B_EMPTY, o = -a.x)
    OP("+x", X | ISO, B_EMPTY, o = +a.x)
    OP("multiplicative_inverse", X | ISO, B_EMPTY, o = il::multiplicative_inverse(a.x))
    OP("division_part1", X | Y, B_EMPTY, bool b = false; o = il::division_part1(a.x, a.y, b); o.f = b)
    OP("division_parts", X | Y, B_EMPTY, bool b = false; I p = il::division_part1(a.x, a.y, b); if (b) o.two(p, il::division_part2(a.x, a.y, b)); else o = p)
    // algebraic
    OP("abs", X | ISO, B_EMPTY, o = abs(a.x))
    OP("square", X | ISO, B_EMPTY, o = square(a.x))
    OP("sqrt", X | ISO, B_EMPTY, o = sqrt(a.x))
    OP("pow", X | N | ISO, B_EMPTY, o = pow(a.x, a.n))
    OP("nth_root", X | N | NPOS, B_EMPTY, o = nth_root(a.x, a.n))
    OP("min(x,y)", X | Y | ISO, B_EMPTY, o = min BOOST_PREVENT_MACRO_SUBSTITUTION(a.x, a.y))
    OP("max(x,y)", X | Y | ISO, B_EMPTY, o = max BOOST_PREVENT_MACRO_SUBSTITUTION(a.x, a.y))
    OP("min(x,t)", X | NT | ISO, B_EMPTY, o = min BOOST_PREVENT_MACRO_SUBSTITUTION(a.x, a.t))
    OP("max(x,t)", X | NT | ISO, B_EMPTY, o = max BOOST_PREVENT_MACRO_SUBSTITUTION(a.x, a.t))
    OP("min(t,x)", X | NT | ISO, B_EMPTY, o = min BOOST_PREVENT_MACRO_SUBSTITUTION(a.t, a.x))
    OP("max(t,x)", X | NT | ISO, B_EMPTY, o = max BOOST_PREVENT_MACRO_SUBSTITUTION(a.t, a.x))
    OP("fmod(x,y)", X | Y | FMODY, B_EMPTY, o = fmod(a.x, a.y))
    OP("fmod(x,t)", X | NT | FMODT, B_EMPTY, o = fmod(a.x, a.t))
    OP("fmod(t,y)", Y | NT | FMODY, B_EMPTY, o = fmod(a.t, a.y))
    // sets
    OP("hull(x,y)", X | Y | ISO, B_HULL, o = hull(a.x, a.y))
    OP("hull(x,t)", X | NT | ISO, B_HULL, o = hull(a.x, a.t))
    OP("hull(t,x)", X | NT | ISO, B_HULL, o = hull(a.t, a.x))
    OP("I::hull(t,s)", NT | NS, B_HULL, o = I::hull(a.t, a.s))
    OP("intersect", X | Y | ISO, B_EMPTY, o = intersect(a.x, a.y))
    OP("bisect", X, B_EMPTY, (o.two(bisect(a.x).first, bisect(a.x).second)))
    OP("empty(x)", X, B_SET, o.boolean(empty(a.x)))
    OP("in", X | NT, B_FALSE, o.boolean(in(a.t, a.x)))
    OP("zero_in", X, B_FALSE, o.boolean(zero_in(a.x)))
    OP("singleton", X, B_FALSE, o.boolean(singleton(a.x)))
    OP("equal", X | Y, B_SET, o.boolean(equal(a.x, a.y)))
    OP("subset", X | Y, B_SET, o.boolean(subset(a.x, a.y)))
    OP("proper_subset", X | Y, B_SET, o.boolean(proper_subset(a.x, a.y)))
    OP("overlap", X | Y, B_FALSE, o.boolean(overlap(a.x, a.y)))
    // scalars
    OP("lower", X, B_ANY, o.num(lower(a.x)))
    OP("upper", X, B_ANY, o.num(upper(a.x)))
    OP("checked_lower", X, B_NAN, o.num(checked_lower(a.x)))
    OP("checked_upper", X, B_NAN, o.num(checked_upper(a.x)))
    OP("width", X, B_ZERO, o.num(width(a.x)))
    OP("median", X, B_NAN, o.num(median(a.x)))
    OP("norm", X, B_NAN, o.num(norm(a.x)))
    OP("widen", X | NT | ISO | TPOS, B_EMPTY, o = widen(a.x, a.t))
    // building
    OP("I(t)", NT, B_EMPTY, o = I(a.t))
    OP("I(t,s)", NT | NS | ORD, B_EMPTY, o = I(a.t, a.s))
    OP("x=t", NT | MUT, B_EMPTY, a.x = a.t; o = a.x)
    OP("x=y", Y | MUT, B_EMPTY, a.x = a.y; o = a.x)
    OP("I(x)", X, B_EMPTY, I z(a.x); o = z)
    OP("assign(t,s)", NT | NS | MUT | ORD, B_EMPTY, a.x.assign(a.t, a.s); o = a.x)
    OP("assign(lower,upper)", X | MUT | UNM, B_ANY, a.x.assign(a.x.lower(), a.x.upper()); o = a.x)
    OP("I(n)", N | CONV, B_EMPTY, o = I(a.n))
    OP("x=n", N | MUT | CONV, B_EMPTY, a.x = a.n; o = a.x)
    OP("I::empty", 0, B_ANY, o = I::empty())
    OP("I::whole", 0, B_ANY, o = I::whole())
    OP("pi", 0, B_ANY, o = il::pi<I>())
    OP("pi_half", 0, B_ANY, o = il::pi_half<I>())
    OP("pi_twice", 0, B_ANY, o = il::pi_twice<I>())
    // comparisons
#define CM(NM, F)                                                                    \
    OP(NM " " #F "(x,y)", X | Y, B_CMP, o.boolean(b3(F(a.x, a.y))))                  \
    OP(NM " " #F "(x,t)", X | NT, B_CMP, o.boolean(b3(F(a.x, a.t))))
#define CM6(NM, NS_) CM(NM, NS_::lt) CM(NM, NS_::le) CM(NM, NS_::gt) CM(NM, NS_::ge) CM(NM, NS_::eq) CM(NM, NS_::ne)
    CM6("cmp", cmpdef) CM6("cmp", cmpcer) CM6("cmp", cmppos) CM6("cmp", cmplex) CM6("cmp", cmptri)
#define CS(F) OP("cmp " #F "(x,y)", X | Y, B_SET, o.boolean(F(a.x, a.y)))
    CS(cmpset::lt) CS(cmpset::le) CS(cmpset::gt) CS(cmpset::ge) CS(cmpset::eq) CS(cmpset::ne)
#define CE(F)                                                   \
    OP(#F "(x,y)", X | Y, B_ANY, o.boolean(il::F(a.x, a.y)))    \
    OP(#F "(x,t)", X | NT, B_ANY, o.boolean(il::F(a.x, a.t)))   \
    OP(#F "(t,x)", X | NT, B_ANY, o.boolean(il::F(a.t, a.x)))
    CE(cerlt) CE(cerle) CE(cergt) CE(cerge) CE(cereq) CE(cerne)
    CE(poslt) CE(posle) CE(posgt) CE(posge) CE(poseq) CE(posne)
    build_trfn(v);
    return v;
  }
};
#undef OP

// runs an operation; exceptions become results
template<class I> NOIPA void run(void (*fn)(Args<I> &, Out<I> &), Args<I> &a, Out<I> &o) {
  try { fn(a, o); }
  catch (const il::comparison_error &) { o.kind = K_EXC; o.f = E_CMP; }
  catch (const std::invalid_argument &) { o.kind = K_EXC; o.f = E_NAN; }
  catch (const std::runtime_error &) { o.kind = K_EXC; o.f = E_EMPTY; }
  catch (...) { o.kind = K_EXC; o.f = E_OTHER; }
}
template<class I> void run(const Op<I> &op, Args<I> &a, Out<I> &o) {
  vh::op(op.name);
  escape(a); escape(o);
  void (*volatile f)(Args<I> &, Out<I> &) = op.fn;
  run<I>(f, a, o);
  escape(o);
}
// same result (empties are all equal, invalid numbers are all equal, -0 == 0)
template<class I, class J> bool sameout(const Out<I> &p, const Out<J> &q) {
  if (p.kind != q.kind) return false;
  switch (p.kind) {
  case K_I: return eqi(p.a, q.a) && p.f == q.f;
  case K_II: return eqi(p.a, q.a) && eqi(p.b, q.b);
  case K_N: return same(p.v, (typename I::base_type)q.v);
  case K_B: case K_EXC: return p.f == q.f;
  }
  return true;
}
template<class I> std::string ostr(const Out<I> &o) {
  switch (o.kind) {
  case K_I: return istr(o.a);
  case K_II: return istr(o.a) + istr(o.b);
  case K_N: return gen::str(o.v);
  case K_B: return vh::fmt("%d", o.f);
  case K_EXC: return o.f == E_EMPTY ? "exception empty" : o.f == E_NAN ? "exception invalid number" : o.f == E_CMP ? "comparison_error" : "other exception";
  }
  return "nothing";
}
template<class I> std::string astr(const Op<I> &op, const Args<I> &a) {
  std::string s = std::string(op.name) + " with";
  if (op.flags & X) s += " x=" + istr(a.x);
  if (op.flags & Y) s += " y=" + istr(a.y);
  if (op.flags & NT) s += " t=" + gen::str(a.t);
  if (op.flags & NS) s += " s=" + gen::str(a.s);
  if (op.flags & N) s += vh::fmt(" n=%d", a.n);
  return s;
}
// valid operands (finite numbers, non-empty intervals) for an operation, as bounds
template<class T> struct Raw { gen::B<T> x, y; T t, s; int n; };
template<class T> gen::B<T> moderate(vh::Rng &r) { // where elementary functions are interesting
  T c = (T)std::ldexp(gen::mant<T>(r), r.range(-4, 4)), w;
  if (r.chance(1, 2)) c = -c;
  w = r.chance(1, 2) ? std::ldexp(gen::mant<T>(r), r.range(-20, 2)) : std::ldexp(gen::mant<T>(r), r.range(-3, 2));
  return gen::B<T>{c, c + w};
}
template<class T> Raw<T> raw(vh::Rng &r, unsigned fl) {
  Raw<T> a;
  a.x = (fl & TR) && r.chance(2, 3) ? moderate<T>(r) : gen::ival<T>(r);
  a.y = r.chance(3, 4) ? gen::ival<T>(r) : gen::related<T>(r, a.x);
  a.t = gen::fin<T>(r); a.s = gen::fin<T>(r);
  if (fl & FMODY) { a.x = gen::ord(gen::fin<T>(r), gen::fin<T>(r)); T p = std::fabs(gen::fin<T>(r)), q = std::fabs(gen::fin<T>(r)); a.y = gen::ord(p, q); if (!(a.y.l > 0)) a.y.l = a.y.u > 0 ? a.y.u : (a.y.u = 1); }
  if (fl & FMODT) { a.x = gen::ord(gen::fin<T>(r), gen::fin<T>(r)); a.t = std::fabs(a.t); if (!(a.t > 0)) a.t = 1; }
  if (fl & TPOS) a.t = std::fabs(a.t);
  if (fl & ORD) if (!(a.t <= a.s)) std::swap(a.t, a.s);
  if (fl & NPOS) { a.n = r.range(1, r.chance(1, 10) ? 60 : 9); if (sizeof(T) > 8) a.x = moderate<T>(r); }
  else if (fl & CONV) a.n = (int)(r.next() >> (32 + r.below(31)));
  else a.n = r.chance(1, 8) ? r.range(-100000, 100000) : r.range(-12, 12);
  if ((fl & CONV) && r.chance(1, 2)) a.n = -a.n;
  return a;
}
template<class I> Args<I> args(const Raw<typename I::base_type> &q) {
  Args<I> a; typedef typename I::base_type T;
  a.x = I(q.x.l, q.x.u, true); a.y = I(q.y.l, q.y.u, true); a.t = q.t; a.s = q.s; a.n = q.n;
  return a;
}
template<class T> uint64_t hraw(const Raw<T> &q, unsigned fl) {
  uint64_t h = fl;
  if (fl & X) h = vh::mix(h ^ gen::hash(q.x));
  if (fl & Y) h = vh::mix(h ^ gen::hash(q.y) * 3);
  if (fl & NT) h = vh::mix(h ^ gen::bits(q.t) * 5);
  if (fl & NS) h = vh::mix(h ^ gen::bits(q.s) * 7);
  if (fl & N) h = vh::mix(h ^ (uint64_t)q.n);
  return h;
}
} // namespace ops
#endif
