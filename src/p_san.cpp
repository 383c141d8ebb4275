#ifndef PART
#define PART 31
#endif
// P21: the whole catalogue under the sanitizers, with numbers that own memory.
#include "ops.hpp"
#include <boost/numeric/interval/io.hpp>
#include <sstream>
#include <climits>
using vh::Rng;

// ------------------------------------------------------- a number on the heap
static long live;
static uint64_t broken; static const char *brokenwhat = "";
struct Hp {
  struct Node { uint32_t magic; double v; } *p;
  static Node *make(double v) { ++live; Node *n = new Node; n->magic = 0x600dcafe; n->v = v; return n; }
  double get() const { if (!p || p->magic != 0x600dcafe) { ++broken; brokenwhat = "a dead number was read"; return 0; } return p->v; }
  Hp() : p(make(0)) {}
  Hp(int x) : p(make(x)) {}
  Hp(double x) : p(make(x)) {}
  Hp(const Hp &o) : p(make(o.get())) {}
  Hp(Hp &&o) : p(o.p) { o.p = make(-12345.678); } // a moved-from number is not the number any more
  Hp &operator=(const Hp &o) { if (this != &o) { double v = o.get(); kill(); p = make(v); } return *this; }
  Hp &operator=(Hp &&o) { if (this != &o) { double v = o.get(); kill(); p = make(v); o.kill(); o.p = make(-12345.678); } return *this; }
  ~Hp() { kill(); p = 0; }
  void kill() { if (p) { if (p->magic != 0x600dcafe) { ++broken; brokenwhat = "a number was destroyed twice"; return; } p->magic = 0xdead; p->v = 9e99; delete p; p = 0; --live; } }
};
static NOIPA double dadd(double a, double b) { return a + b; } static NOIPA double dsub(double a, double b) { return a - b; }
static NOIPA double dmul(double a, double b) { return a * b; } static NOIPA double ddiv(double a, double b) { return a / b; }
static NOIPA double dsqrt(double a) { return std::sqrt(a); } static NOIPA double dint(double a) { return std::rint(a); }
static Hp operator+(const Hp &a, const Hp &b) { return dadd(a.get(), b.get()); } static Hp operator-(const Hp &a, const Hp &b) { return dsub(a.get(), b.get()); }
static Hp operator*(const Hp &a, const Hp &b) { return dmul(a.get(), b.get()); } static Hp operator/(const Hp &a, const Hp &b) { return ddiv(a.get(), b.get()); }
static Hp operator-(const Hp &a) { return -a.get(); }
static Hp sqrt(const Hp &a) { return dsqrt(a.get()); }
static Hp floor(const Hp &a) { return std::floor(a.get()); }
static Hp ceil(const Hp &a) { return std::ceil(a.get()); }
#define HC(OP) static bool operator OP(const Hp &a, const Hp &b) { return a.get() OP b.get(); }
HC(<) HC(<=) HC(>) HC(>=) HC(==) HC(!=)
static std::ostream &operator<<(std::ostream &o, const Hp &a) { return o << a.get(); }
namespace std {
template<> struct numeric_limits<Hp> : numeric_limits<double> {
  static Hp infinity() { return HUGE_VAL; } static Hp quiet_NaN() { return std::nan(""); } static Hp signaling_NaN() { return std::nan(""); }
  static Hp max() { return numeric_limits<double>::max(); } static Hp min() { return numeric_limits<double>::min(); } static Hp epsilon() { return numeric_limits<double>::epsilon(); } static Hp denorm_min() { return numeric_limits<double>::denorm_min(); } static Hp lowest() { return numeric_limits<double>::lowest(); } static Hp round_error() { return 0.5; }
};
}
namespace boost { namespace numeric { namespace interval_lib {
template<> struct rounding_control<Hp> : rounding_control<double> {
  static Hp to_int(const Hp &x) { return dint(x.get()); }
  static Hp const &force_rounding(Hp const &x) { return x; }
  static Hp force_rounding(Hp &&x) { return x; }
};
} } }
namespace gen { inline std::string str(const Hp &h) { return str(h.get()); } }

#if defined(__SANITIZE_MEMORY__) || defined(NOSTREAM)
enum { NOSAMP = 1 };   // printing long doubles through the uninstrumented library
#else
enum { NOSAMP = 0 };
#endif
template<class T> struct Pol {
  typedef il::checking_base<T> CB; typedef il::checking_catch_nan<T, il::checking_no_empty<T> > CC;
  typedef bn::interval<T, il::policies<il::rounded_math<T>, CB> > Def;
  typedef bn::interval<T> Strict;
  typedef bn::interval<T, il::policies<il::rounded_math<T>, CC> > Catch;
  typedef bn::interval<T, il::policies<il::save_state<il::rounded_transc_opp<T> >, CB> > Topp;
  typedef bn::interval<T, il::policies<il::save_state<il::rounded_transc_std<T> >, CC> > Tstd;
  typedef bn::interval<T, il::policies<il::save_state<il::rounded_transc_exact<T> >, CB> > Texact;
};
static void cur_count(int kind) { static const char *n[] = {"interval results", "pairs", "numbers", "booleans", "nothing", "exceptions"}; static uint64_t *c[6]; if (!c[kind]) c[kind] = &vh::st().counters[n[kind]]; ++*c[kind]; }
template<class T> static NOIPA void use(const T &v) { // every bit of the result must be there
  static volatile int sink; if (v < T(1)) sink = 1; else sink = 2;
}
template<class I> static void useout(const ops::Out<I> &o) {
  if (o.kind == ops::K_I || o.kind == ops::K_II) { use(o.a.lower()); use(o.a.upper()); }
  if (o.kind == ops::K_II) { use(o.b.lower()); use(o.b.upper()); }
  if (o.kind == ops::K_N) use(o.v);
  if (o.kind == ops::K_B) { static volatile int s; if (o.f) s = 1; }
}
template<class I, bool TR> static void cat1(Rng &r, const char *pol, bool okbad) {
  typedef typename I::base_type T;
  const std::vector<ops::Op<I> > &cat = ops::Cat<I, TR>::all();
  for (int rep = 0; rep < 8; ++rep) {
    const ops::Op<I> &op = cat[r.below(cat.size())];
    ops::Raw<T> q = ops::raw<T>(r, op.flags);
    ops::Args<I> a = ops::args<I>(q);
    if (okbad && r.chance(1, 4)) { const T n = std::numeric_limits<T>::quiet_NaN(); switch (r.below(4)) { case 0: a.x = I(n, n, true); break; case 1: a.y = I(n, n, true); break; case 2: a.t = n; break; default: a.s = n; } }
    if (op.flags & ops::FMODT) if (!(a.t > 0)) a.t = 1;
    if (okbad && r.chance(1, 8)) { const T i = std::numeric_limits<T>::infinity(); a.x = I(-i, i, true); }
    if ((op.flags & ops::N) && !(op.flags & ops::NPOS) && r.chance(1, 6)) { static const int E[] = {INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1, -1, 0, 1, 2, -2, 1 << 30, 65536, -65536}; a.n = E[r.below(12)]; }
    if ((op.flags & ops::NPOS) && r.chance(1, 8)) { static const int E[] = {1, 2, 3, 31, 63, 64, 1000}; a.n = E[r.below(7)]; }
    ops::Out<I> o;
    std::fesetround(FE_TONEAREST);
    ops::run<I>(op, a, o);
    std::fesetround(FE_TONEAREST);
    useout(o); use(a.x.lower()); use(a.x.upper());
    vh::eval(); vh::nontrivial(ops::hraw(q, op.flags) ^ vh::hstr(pol) ^ vh::hstr(op.name)); cur_count(o.kind);
    if (!NOSAMP && r.below(20000) == 0) vh::sample(std::string(pol) + " " + ops::astr(op, a) + " -> " + ops::ostr(o));
  }
}
template<class T> static void cats(Rng &r, bool exact) {
  switch (r.below(6)) {
  case 0: cat1<typename Pol<T>::Def, false>(r, "default", true); break;
  case 1: cat1<typename Pol<T>::Strict, false>(r, "strict", false); break;
  case 2: cat1<typename Pol<T>::Catch, false>(r, "catch", true); break;
  case 3: cat1<typename Pol<T>::Topp, true>(r, "opp", true); break;
  case 4: cat1<typename Pol<T>::Tstd, true>(r, "std", true); break;
  default: if (exact) cat1<typename Pol<T>::Texact, true>(r, "exact", true);
  }
}

#if PART & 1
VH_GROUP(cf, "catalogue float", 40000, 1200000) { (void)idx; cats<float>(r, true); }
#endif
#if PART & 2
VH_GROUP(cd, "catalogue double", 40000, 1200000) { (void)idx; cats<double>(r, true); }
#endif
#if PART & 4
VH_GROUP(cl, "catalogue ldouble", 40000, 1200000) { (void)idx; cats<long double>(r, true); }
#endif

// ------------------------------------------------------- numbers on the heap
struct HPol {
  typedef il::checking_base<Hp> CB; typedef il::checking_catch_nan<Hp, il::checking_no_empty<Hp> > CC;
  typedef bn::interval<Hp, il::policies<il::save_state<il::rounded_arith_std<Hp> >, CB> > Std;
  typedef bn::interval<Hp, il::policies<il::save_state<il::rounded_arith_opp<Hp> >, CC> > Opp;
  typedef bn::interval<Hp, il::policies<il::rounded_math<Hp>, il::checking_strict<Hp> > > Ex;
};
#if PART & 8
template<class I> static void heap1(Rng &r, const char *pol, bool okbad) {
  const std::vector<ops::Op<I> > &cat = ops::Cat<I, false>::all();
  const ops::Op<I> &op = cat[r.below(cat.size())];
  if (std::is_same<I, HPol::Ex>::value && (op.flags & (ops::NPOS | ops::FMODT | ops::FMODY))) return; // need directed rounding
  ops::Raw<double> q = ops::raw<double>(r, op.flags);
  long before = live;
  { ops::Args<I> a; a.x = I(Hp(q.x.l), Hp(q.x.u), true); a.y = I(Hp(q.y.l), Hp(q.y.u), true); a.t = q.t; a.s = q.s; a.n = q.n;
    if (okbad && r.chance(1, 4)) { const Hp n = std::nan(""); switch (r.below(4)) { case 0: a.x = I(n, n, true); break; case 1: a.y = I(n, n, true); break; case 2: a.t = n; break; default: a.s = n; } }
    ops::Out<I> o; std::fesetround(FE_TONEAREST); ops::run<I>(op, a, o); std::fesetround(FE_TONEAREST); useout(o); use(a.x.lower()); use(a.x.upper()); use(a.y.lower()); use(a.t);
    vh::nontrivial(ops::hraw(q, op.flags) ^ vh::hstr(pol) ^ vh::hstr(op.name)); }
  vh::eval();
  if (live != before) { vh::fail(std::string("heap/leak/") + op.name, std::string(op.name) + vh::fmt(" left %ld numbers on the heap", live - before)); live = before; }
  if (broken) { vh::fail(std::string("heap/dead/") + op.name, std::string(op.name) + ": " + brokenwhat); broken = 0; }
}
VH_GROUP(heap, "numbers on the heap", 300000, 8000000) {
  switch (idx % 3) { case 0: heap1<HPol::Std>(r, "hstd", true); break; case 1: heap1<HPol::Opp>(r, "hopp", true); break; default: heap1<HPol::Ex>(r, "hex", false); }
}
#endif
#if PART & 16
// operands that are parts of the object being modified
static long double aval(const Hp &h) { return h.get(); }
static long double aval(double d) { return d; }
// When optimizing, the compiler may move an operation across a change of the rounding mode: the last
// bits may differ between two computations inlined in one function. Without, they may not.
template<class T> static bool differ(const T &a, const T &b) {
  if (!(a != b)) return false;
#ifdef __OPTIMIZE__
  long double x = aval(a), y = aval(b), m = std::max(std::fabs(x), std::fabs(y)), e = std::is_same<T, float>::value ? 1e-6L : 1e-15L;
  if (std::isinf(m)) { long double o = std::min(std::fabs(x), std::fabs(y)); return !((x > 0) == (y > 0) && o > (std::is_same<T, float>::value ? 3.4e38L : 1.79e308L)); }
  return std::fabs(x - y) > m * e + (std::is_same<T, float>::value ? 1e-44L : 1e-323L);
#else
  return true;
#endif
}
template<class I, class M> static void alias1(Rng &r, M mk_) {
  typedef typename I::base_type T;
  double l = gen::fin<double>(r), u = gen::fin<double>(r); if (r.chance(1, 2)) { l = r.range(-8, 8) / 2.; u = r.range(-8, 8) / 2.; } if (l > u) std::swap(l, u);
  I x0 = mk_(l, u); const T lo = x0.lower(), up = x0.upper();
  const char *what = "";
  auto ck = [&](const I &a, const I &b) { vh::eval(); bool e = !(a.lower() <= a.upper()), f = !(b.lower() <= b.upper()); if (e != f || (!e && (differ(a.lower(), b.lower()) || differ(a.upper(), b.upper())))) vh::fail(std::string("alias/") + what, std::string(what) + vh::fmt(" [%g,%g]: [%La,%La], on distinct objects [%La,%La]", l, u, (long double)aval(a.lower()), (long double)aval(a.upper()), (long double)aval(b.lower()), (long double)aval(b.upper()))); };
#define AL(NAME, E1, E2) [&]() NOIPA { vh::op(what = NAME); I a(x0), b(x0); int ea = 0, eb = 0; try { E1; } catch (const std::exception &) { ea = 1; } try { E2; } catch (const std::exception &) { eb = 1; } std::fesetround(FE_TONEAREST); if (ea != eb) vh::fail(std::string("alias/exc/") + what, what); ck(a, b); }();
  AL("x+=x.lower", a += a.lower(), b += lo) AL("x+=x.upper", a += a.upper(), b += up) AL("x-=x.lower", a -= a.lower(), b -= lo) AL("x-=x.upper", a -= a.upper(), b -= up)
  AL("x*=x.lower", a *= a.lower(), b *= lo) AL("x*=x.upper", a *= a.upper(), b *= up) AL("x/=x.lower", a /= a.lower(), b /= lo) AL("x/=x.upper", a /= a.upper(), b /= up)
  AL("x=x.lower", a = a.lower(), b = lo) AL("x=x.upper", a = a.upper(), b = up) AL("assign(u,u)", a.assign(a.upper(), a.upper()), b.assign(up, up)) AL("assign(u,l)", a.assign(a.upper(), a.lower()), b.assign(up, lo)) AL("assign(l,l)", a.assign(a.lower(), a.lower()), b.assign(lo, lo))
  AL("x+=x", a += a, b += I(x0)) AL("x-=x", a -= a, b -= I(x0)) AL("x*=x", a *= a, b *= I(x0)) AL("x/=x", a /= a, b /= I(x0)) AL("x=x", a = a, b = I(x0))
  AL("x=x+x.lower", a = a + a.lower(), b = b + lo) AL("x=hull(x.upper,x)", a = hull(a.upper(), a), b = hull(up, b)) AL("x=-x", a = -a, b = -I(b)) AL("x=square(x)", a = square(a), b = square(I(b))) AL("x=widen(x,w)", a = widen(a, width(a)), b = widen(b, width(x0)))
  vh::nontrivial(gen::bits(l) ^ vh::mix(gen::bits(u)) ^ sizeof(T));
  if (broken) { vh::fail("heap/dead/alias", brokenwhat); broken = 0; }
}
VH_GROUP(alias, "operands inside the modified object", 20000, 600000) {
  switch (idx % 4) {
  case 0: alias1<HPol::Std>(r, [](double l, double u) { return HPol::Std(Hp(l), Hp(u)); }); break;
  case 1: alias1<HPol::Opp>(r, [](double l, double u) { return HPol::Opp(Hp(l), Hp(u)); }); break;
  case 2: alias1<Pol<double>::Def>(r, [](double l, double u) { return Pol<double>::Def(l, u); }); break;
  default: alias1<Pol<float>::Catch>(r, [](double l, double u) { float a = (float)l, b = (float)u; if (!std::isfinite(a)) a = -1; if (!std::isfinite(b)) b = 1; return Pol<float>::Catch(std::min(a, b), std::max(a, b)); });
  }
}
// results bound to a name while the operands were temporaries
static NOIPA void clobber() { volatile char b[4096]; for (size_t i = 0; i < sizeof b; i += 8) b[i] = (char)0xa5; }
template<class I, class M> static void refs1(Rng &r, M c) {
  typedef typename I::base_type T;
  double l = r.range(-8, 8) / 2., u = l + r.below(9) / 2., p = r.range(-8, 8) / 2., q = p + 0.5 + r.below(5) / 2., t = r.range(1, 6) / 2.;
  const char *what = "";
  auto cmp = [&](const I &z, const I &k, const I &w) { std::fesetround(FE_TONEAREST); use(k.lower()); use(k.upper()); vh::eval(); bool e = !(z.lower() <= z.upper()), f = !(w.lower() <= w.upper()); if (e != f || (!e && (differ(z.lower(), w.lower()) || differ(z.upper(), w.upper())))) vh::fail(std::string("ref/") + what, std::string("the result of ") + what + " refers to a temporary"); };
  auto cmpn = [&](const T &z, const T &k, const T &w) { std::fesetround(FE_TONEAREST); use(k); vh::eval(); if (w == w && (z != z || differ(z, w))) vh::fail(std::string("ref/") + what, std::string("the result of ") + what + " refers to a temporary"); };
#define RF(NAME, E) [&]() NOIPA { vh::op(what = NAME); try { auto &&z = E; clobber(); I k(z); auto w = E; cmp(z, k, w); } catch (const std::exception &) {} }();
#define RN(NAME, E) [&]() NOIPA { vh::op(what = NAME); try { auto &&z = E; clobber(); T k(z); auto w = E; cmpn(z, k, w); } catch (const std::exception &) {} }();
#define X_ c(l, u)
#define Y_ c(p, q)
#define T_ T(t)
#define MN(a, b) min BOOST_PREVENT_MACRO_SUBSTITUTION(a, b)
#define MX(a, b) max BOOST_PREVENT_MACRO_SUBSTITUTION(a, b)
  RF("+x", +X_) RF("-x", -X_) RF("x+y", X_ + Y_) RF("x-y", X_ - Y_) RF("x*y", X_ * Y_) RF("x/y", X_ / Y_) RF("x+t", X_ + T_) RF("t-x", T_ - X_) RF("x*t", X_ * T_) RF("t/x", T_ / X_)
  RF("min", MN(X_, Y_)) RF("max", MX(X_, Y_)) RF("min t", MN(X_, T_)) RF("max t", MX(T_, X_)) RF("hull", hull(X_, Y_)) RF("hull t", hull(X_, T_)) RF("intersect", intersect(X_, Y_)) RF("abs", abs(X_)) RF("square", square(X_)) RF("sqrt", sqrt(X_)) RF("pow", pow(X_, 3)) RF("pow1", pow(X_, 1)) RF("nth_root 1", nth_root(X_, 1)) RF("widen", widen(X_, T_)) RF("inverse", il::multiplicative_inverse(X_)) RF("whole", I::whole()) RF("pi", il::pi<I>()) RF("add", il::add<I>(T_, T_)) RF("I::hull", I::hull(T_, T_))
  RF("unary plus of a sum", +(X_ + Y_)) RF("division_part2", il::division_part2(X_, c(-1, 1)))
  RN("width", width(X_)) RN("median", median(X_)) RN("norm", norm(X_)) RN("lower", lower(X_)) RN("upper", upper(X_)) RN("checked_lower", checked_lower(X_)) RN("checked_upper", checked_upper(X_))
  RF("fmod", fmod(X_, c(1, 2)))
  // the result does not follow the operand
  { I x(X_), x1(x); auto &&z = +x; auto &&m = MX(x, x); auto &&h = hull(x, x); auto &&a = nth_root(x, 1); x = Y_; vh::eval(4); if (!equal(z, x1) || !equal(m, x1) || !equal(h, x1) || !equal(a, x1)) vh::fail("ref/follows", "a result follows its operand"); }
  vh::nontrivial(vh::mix(gen::bits(l)) ^ gen::bits(p) ^ vh::mix(gen::bits(u) ^ 3 * gen::bits(t)));
}
VH_GROUP(refs, "results of temporaries", 20000, 400000) {
  switch (idx % 3) {
  case 0: refs1<HPol::Std>(r, [](double l, double u) { return HPol::Std(Hp(l), Hp(u)); }); break;
  case 1: refs1<Pol<double>::Def>(r, [](double l, double u) { return Pol<double>::Def(l, u); }); break;
  default: refs1<Pol<float>::Catch>(r, [](double l, double u) { return Pol<float>::Catch((float)l, (float)u); });
  }
}
// conversions between every pair of built-in types at their limits
template<class D, class S> static void conv1(Rng &r) {
  typedef std::numeric_limits<S> L; typedef bn::interval<D, il::policies<il::rounded_math<D>, il::checking_base<D> > > I;
  S v[] = {S(0), L::max(), L::lowest(), S(L::max() / 2), S(1), S(L::max() - 1), S(r.next())};
  for (S s : v) { I x(s); use(x.lower()); use(x.upper()); I y; y = s; use(y.lower()); use(y.upper()); I z(std::min(s, S(1)), std::max(s, S(1))); use(z.lower()); vh::eval(3);
    if (!(x.lower() <= x.upper()) || !(z.lower() <= z.upper())) vh::fail("conv/empty", "conversion gives an empty interval"); vh::nontrivial(vh::mix((uint64_t)(long long)(s < S(1e18) ? s : 1)) ^ sizeof(S) * 64 ^ sizeof(D)); }
}
template<class D> static void convs(Rng &r) {
  conv1<D, signed char>(r); conv1<D, unsigned char>(r); conv1<D, short>(r); conv1<D, unsigned short>(r); conv1<D, int>(r); conv1<D, unsigned>(r); conv1<D, long>(r); conv1<D, unsigned long>(r); conv1<D, long long>(r); conv1<D, unsigned long long>(r); conv1<D, float>(r); conv1<D, char>(r);
}
VH_GROUP(conv, "conversions at the limits", 400, 4000) { std::fesetround(FE_TONEAREST); switch (idx % 3) { case 0: convs<float>(r); break; case 1: convs<double>(r); break; default: convs<long double>(r); } }
#ifndef NOSTREAM
template<class I> static void str1(Rng &r, const I &x) { std::ostringstream o; if (r.chance(1, 2)) o << std::scientific; o.precision(r.below(25)); o.width(r.below(12)); o << x << ' ' << x; std::wostringstream w; w << r.range(1, 3); vh::eval(); use((double)o.str().size()); if (o.str().size() < 4) vh::fail("stream", o.str()); }
VH_GROUP(strm, "streams", 3000, 60000) {
  double l = gen::fin<double>(r), u = gen::fin<double>(r); if (l > u) std::swap(l, u); vh::nontrivial(gen::bits(l) ^ vh::mix(gen::bits(u)));
  switch (idx % 4) { case 0: str1(r, bn::interval<double>(l, u)); break; case 1: str1(r, HPol::Std(Hp(l), Hp(u))); break; case 2: str1(r, Pol<double>::Def::empty()); break; default: str1(r, Pol<long double>::Def(l, u)); }
}
#endif
// integer base types, away from overflow
template<class T> static void ints(Rng &r, long lim) {
  typedef bn::interval<T, il::policies<il::rounded_math<T>, il::checking_no_nan<T> > > I;
  long v[5]; for (long &q : v) q = (long)(r.next() % (2 * lim + 1)) - lim; if (r.chance(1, 3)) v[0] = 0; if (v[0] > v[1]) std::swap(v[0], v[1]); if (v[2] > v[3]) std::swap(v[2], v[3]);
  I x((T)v[0], (T)v[1]), y((T)v[2], (T)v[3]); T t = (T)v[4];
  I z[] = {x + y, x - y, x * y, -x, abs(x), square(x), x + I(t), I(t) - x, x * I(t), MN(x, y), MX(x, y), hull(x, y), pow(x, 2), pow(x, 0), pow(x, 1), hull(x, t), widen(x, (T)(t < 0 ? -t : t))};
  for (const I &q : z) { use(q.lower()); use(q.upper()); } use(median(x)); use(norm(x)); use(width(x)); vh::eval(20); vh::nontrivial(vh::mix(v[0]) ^ v[1] ^ vh::mix(v[2] * 3 + v[3]));
  // a non-empty power that does not overflow: the library must not compute one that does
  long b = 2 + r.below(8); int k = 1; long double m = b; while (m * b < (long double)std::numeric_limits<T>::max()) { m *= b; ++k; } I pp = pow(I((T)-b, (T)b), k); use(pp.upper()); vh::eval(); if ((long double)pp.upper() != m) vh::fail("ints/pow", vh::fmt("pow(%ld,%d) = %lld", b, k, (long long)pp.upper()));
}
VH_GROUP(ints_, "integers", 10000, 200000) { switch (idx % 3) { case 0: ints<int>(r, 23000); break; case 1: ints<long>(r, 1L << 30); break; default: ints<short>(r, 100); } }
#endif
