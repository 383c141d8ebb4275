// P05: two ways of writing one operation give one result.
#include "ops.hpp"
#include <climits>
#include "tr.hpp"
#include <boost/numeric/interval/compare/lexicographic.hpp>
using gen::B; using vh::Rng; using ops::Args; using ops::Out;

// exceptions are results too
template<class I> struct Rel { const char *name; unsigned flags; void (*p)(Args<I> &, Out<I> &); void (*q)(Args<I> &, Out<I> &); };
enum { XSAFE = 1 << 20 };
using namespace ops;

template<class I> NOIPA I copy(const I &x) { I z(x.lower(), x.upper(), true); escape(z); return z; }
template<class T> NOIPA T num(const T &x) { T z = x; escape(z); return z; }

template<class I, bool TRANSC> struct Rels {
  typedef typename I::base_type T; typedef Args<I> A; typedef Out<I> O;
  static const std::vector<Rel<I> > &all() {
    static std::vector<Rel<I> > v;
    if (!v.empty()) return v;
#define R_(NAME, FL, P, Q) v.push_back(Rel<I>{NAME, FL, [](A &a, O &o) { (void)a; (void)o; P; }, [](A &a, O &o) { (void)a; (void)o; Q; }});
#define MN(a, b) min BOOST_PREVENT_MACRO_SUBSTITUTION(a, b)
#define MX(a, b) max BOOST_PREVENT_MACRO_SUBSTITUTION(a, b)
#define S_(t) mk<I, T>(t, t)
    // a number is the singleton of that number
#define BIN(OPR)                                                                                 \
    R_("x" #OPR "t", X | NT, o = a.x OPR a.t, o = a.x OPR S_(a.t))                               \
    R_("t" #OPR "x", X | NT, o = a.t OPR a.x, o = S_(a.t) OPR a.x)                               \
    R_("x" #OPR "n", X | N, o = a.x OPR a.n, o = a.x OPR S_((T)a.n))                             \
    R_("n" #OPR "x", X | N, o = a.n OPR a.x, o = S_((T)a.n) OPR a.x)                             \
    R_("x" #OPR "=y", X | Y, I z = a.x; z OPR##= a.y; o = z, o = a.x OPR a.y)                    \
    R_("x" #OPR "=t", X | NT, I z = a.x; z OPR##= a.t; o = z, o = a.x OPR a.t)                   \
    R_("x" #OPR "=n", X | N, I z = a.x; z OPR##= (T)a.n; o = z, o = a.x OPR a.n)                 \
    R_("returned x" #OPR "=y", X | Y, I z = a.x; I &w = (z OPR##= a.y); o = w; o.f = &w == &z, o = a.x OPR a.y; o.f = 1) \
    R_("returned x" #OPR "=t", X | NT, I z = a.x; I &w = (z OPR##= a.t); o = w; o.f = &w == &z, o = a.x OPR a.t; o.f = 1) \
    R_("x" #OPR "=x", X, I z = a.x; z OPR##= z; o = z, I w = copy(a.x); o = a.x OPR w)           \
    R_("x" #OPR "x", X, o = a.x OPR a.x, I w = copy(a.x); o = a.x OPR w)                         \
    R_("x" #OPR "=x.lower()", X | XSAFE, I z = a.x; z OPR##= z.lower(); o = z, T t = num(a.x.lower()); o = a.x OPR t)      \
    R_("x" #OPR "=x.upper()", X | XSAFE, I z = a.x; z OPR##= z.upper(); o = z, T t = num(a.x.upper()); o = a.x OPR t)      \
    R_("x" #OPR "x.lower()", X | XSAFE, I z = a.x; z = z OPR z.lower(); o = z, T t = num(a.x.lower()); o = a.x OPR t)      \
    R_("x.upper()" #OPR "x", X | XSAFE, I z = a.x; z = z.upper() OPR z; o = z, T t = num(a.x.upper()); o = t OPR a.x)      \
    R_("y=x" #OPR "y", X | Y, I z = a.y; z = a.x OPR z; o = z, o = a.x OPR a.y)                  \
    R_("policy x" #OPR "y", X | Y, typedef typename il::unprotect<I>::type U; typename I::traits_type::rounding rnd; U p(a.x); U q(a.y); o = I(U(p OPR q)), o = a.x OPR a.y)
    BIN(+) BIN(-) BIN(*) BIN(/)
    R_("add(t,s)", NT | NS, o = il::add<I>(a.t, a.s), o = S_(a.t) + S_(a.s))
    R_("sub(t,s)", NT | NS, o = il::sub<I>(a.t, a.s), o = S_(a.t) - S_(a.s))
    R_("mul(t,s)", NT | NS, o = il::mul<I>(a.t, a.s), o = S_(a.t) * S_(a.s))
    R_("div(t,s)", NT | NS, o = il::div<I>(a.t, a.s), o = S_(a.t) / S_(a.s))
    R_("add(t,t)", NT, o = il::add<I>(a.t, a.t), o = a.t + S_(a.t))
    R_("multiplicative_inverse", X, o = il::multiplicative_inverse(a.x), o = T(1) / a.x)
    R_("1/x", X, o = 1 / a.x, o = S_(T(1)) / a.x)
    R_("min(x,t)", X | NT, o = MN(a.x, a.t), o = MN(a.x, S_(a.t)))
    R_("min(t,x)", X | NT, o = MN(a.t, a.x), o = MN(S_(a.t), a.x))
    R_("max(x,t)", X | NT, o = MX(a.x, a.t), o = MX(a.x, S_(a.t)))
    R_("max(t,x)", X | NT, o = MX(a.t, a.x), o = MX(S_(a.t), a.x))
    R_("hull(x,t)", X | NT, o = hull(a.x, a.t), o = hull(a.x, S_(a.t)))
    R_("hull(t,x)", X | NT, o = hull(a.t, a.x), o = hull(S_(a.t), a.x))
    R_("I::hull(t,s)", NT | NS, o = I::hull(a.t, a.s), o = hull(S_(a.t), S_(a.s)))
    R_("in(t,x)", X | NT, o.boolean(in(a.t, a.x)), o.boolean(subset(S_(a.t), a.x)))
    R_("zero_in(x)", X, o.boolean(zero_in(a.x)), o.boolean(in(T(0), a.x)))
    R_("fmod(x,t)", X | NT | FMODT, o = fmod(a.x, a.t), o = fmod(a.x, S_(a.t)))
    R_("fmod(t,y)", Y | NT | FMODY, o = fmod(a.t, a.y), o = fmod(S_(a.t), a.y))
    R_("I(t)", NT, o = I(a.t), o = I(a.t, a.t))
    R_("x=t", NT, I z; z = a.t; o = z, o = I(a.t, a.t))
    R_("assign(t,t)", NT, I z; z.assign(a.t, a.t); o = z, o = I(a.t, a.t))
    R_("x=x", X, I z = a.x; I &w = z; z = w; o = z, o = a.x)
    R_("x=x.upper()", X, I z = a.x; z = z.upper(); o = z, o = S_(a.x.upper()))
    R_("x=x.lower()", X, I z = a.x; z = z.lower(); o = z, o = S_(a.x.lower()))
    R_("assign(lower,lower)", X, I z = a.x; z.assign(z.lower(), z.lower()); o = z, o = S_(a.x.lower()))
    R_("assign(upper,upper)", X, I z = a.x; z.assign(z.upper(), z.upper()); o = z, o = S_(a.x.upper()))
    R_("assign(lower,upper)", X, I z = a.x; z.assign(z.lower(), z.upper()); o = z, o = a.x)
    R_("assign(t,lower)", X | NT, I z = a.x; z.assign(-std::fabs(a.t) + z.lower() <= z.lower() ? -std::fabs(a.t) + z.lower() : z.lower(), z.lower()); o = z,
       T l = num(a.x.lower()); o = (mk<I, T>(-std::fabs(a.t) + l <= l ? -std::fabs(a.t) + l : l, l)))
    R_("swap", X | Y, I p = a.x; I q = a.y; std::swap(p, q); o.two(p, q), o.two(a.y, a.x))
    R_("hull(x,x.lower())", X, o = hull(a.x, a.x.lower()), o = a.x)
    R_("hull(x,x)", X, o = hull(a.x, a.x), o = a.x)
    R_("intersect(x,x)", X, o = intersect(a.x, a.x), o = a.x)
    R_("min(x,x)", X, o = MN(a.x, a.x), o = a.x)
    R_("max(x,x)", X, o = MX(a.x, a.x), o = a.x)
    R_("widen(x,0)", X, o = widen(a.x, T(0)), o = a.x)
    R_("widen(x,x.upper())", X | XSAFE, I z = a.x; z = widen(z, std::fabs(z.upper())); o = z, T t = std::fabs(num(a.x.upper())); o = widen(a.x, t))
    R_("+x", X, o = +a.x, o = a.x)
    // commutation and mirror images
    R_("x+y commutes", X | Y, o = a.x + a.y, o = a.y + a.x)
    R_("x*y commutes", X | Y, o = a.x * a.y, o = a.y * a.x)
    R_("x+t commutes", X | NT, o = a.x + a.t, o = a.t + a.x)
    R_("x*t commutes", X | NT, o = a.x * a.t, o = a.t * a.x)
    R_("min commutes", X | Y, o = MN(a.x, a.y), o = MN(a.y, a.x))
    R_("max commutes", X | Y, o = MX(a.x, a.y), o = MX(a.y, a.x))
    R_("min with t commutes", X | NT, o = MN(a.x, a.t), o = MN(a.t, a.x))
    R_("max with t commutes", X | NT, o = MX(a.x, a.t), o = MX(a.t, a.x))
    R_("hull commutes", X | Y, o = hull(a.x, a.y), o = hull(a.y, a.x))
    R_("hull with t commutes", X | NT, o = hull(a.x, a.t), o = hull(a.t, a.x))
    R_("I::hull commutes", NT | NS, o = I::hull(a.t, a.s), o = I::hull(a.s, a.t))
    R_("intersect commutes", X | Y, o = intersect(a.x, a.y), o = intersect(a.y, a.x))
    R_("overlap commutes", X | Y, o.boolean(overlap(a.x, a.y)), o.boolean(overlap(a.y, a.x)))
    R_("equal commutes", X | Y, o.boolean(equal(a.x, a.y)), o.boolean(equal(a.y, a.x)))
    R_("overlap is a meeting", X | Y, o.boolean(overlap(a.x, a.y)), o.boolean(!(a.x.upper() < a.y.lower() || a.y.upper() < a.x.lower())))
    R_("x-y as x+(-y)", X | Y, o = a.x - a.y, o = a.x + (-a.y))
    R_("x-y as -(y-x)", X | Y, o = a.x - a.y, o = -(a.y - a.x))
    R_("x-t as x+(-t)", X | NT, o = a.x - a.t, o = a.x + (-a.t))
    R_("x-t as -(t-x)", X | NT, o = a.x - a.t, o = -(a.t - a.x))
    R_("-x as 0-x", X, o = -a.x, o = T(0) - a.x)
    R_("-(-x)", X, o = -(-a.x), o = a.x)
    R_("-x as -1*x", X, o = -a.x, o = T(-1) * a.x)
    R_("x*1", X, o = a.x * T(1), o = a.x)
    R_("x/1", X, o = a.x / T(1), o = a.x)
    R_("x+0", X, o = a.x + T(0), o = a.x)
    R_("x*2", X, o = a.x * T(2), o = a.x + a.x)
    R_("(-x)*y", X | Y, o = (-a.x) * a.y, o = -(a.x * a.y))
    R_("x*(-y)", X | Y, o = a.x * (-a.y), o = -(a.x * a.y))
    R_("(-x)/y", X | Y, o = (-a.x) / a.y, o = -(a.x / a.y))
    R_("x/(-y)", X | Y, o = a.x / (-a.y), o = -(a.x / a.y))
    R_("x*(-t)", X | NT, o = a.x * (-a.t), o = -(a.x * a.t))
    R_("x/(-t)", X | NT, o = a.x / (-a.t), o = -(a.x / a.t))
    R_("(-t)/x", X | NT, o = (-a.t) / a.x, o = -(a.t / a.x))
    R_("(-x)+(-y)", X | Y, o = (-a.x) + (-a.y), o = -(a.x + a.y))
    R_("abs(-x)", X, o = abs(-a.x), o = abs(a.x))
    R_("abs(abs(x))", X, o = abs(abs(a.x)), o = abs(a.x))
    R_("square(-x)", X, o = square(-a.x), o = square(a.x))
    R_("square(x)", X, o = square(a.x), I b = abs(a.x); o = b * b)
    R_("max(x,y) as -min(-x,-y)", X | Y, o = MX(a.x, a.y), o = -MN(-a.x, -a.y))
    R_("max(x,t) as -min(-x,-t)", X | NT, o = MX(a.x, a.t), o = -MN(-a.x, -a.t))
    R_("hull(-x,-y)", X | Y, o = hull(-a.x, -a.y), o = -hull(a.x, a.y))
    R_("intersect(-x,-y)", X | Y, o = intersect(-a.x, -a.y), o = -intersect(a.x, a.y))
    R_("pow(x,0)", X, o = pow(a.x, 0), o = S_(T(1)))
    R_("pow(x,1)", X, o = pow(a.x, 1), o = a.x)
    R_("pow(x,2)", X, o = pow(a.x, 2), o = square(a.x))
    R_("pow(x,-1)", X, o = pow(a.x, -1), o = T(1) / a.x)
    R_("pow(-x,n)", X | N, int m = a.n % 30; o = pow(-a.x, m), int m = a.n % 30; I z = pow(a.x, m); o = (m & 1) ? -z : z)
    R_("nth_root(x,1)", X, o = nth_root(a.x, 1), o = a.x)
    R_("widen(-x,t)", X | NT | TPOS, o = widen(-a.x, a.t), o = -widen(a.x, a.t))
    R_("width(-x)", X, o.num(width(-a.x)), o.num(width(a.x)))
    R_("norm(-x)", X, o.num(norm(-a.x)), o.num(norm(a.x)))
    R_("norm as upper(abs)", X, o.num(norm(a.x)), o.num(upper(abs(a.x))))
    R_("median(-x)", X, o.num(median(-a.x)), o.num(-median(a.x)))
    R_("bisect(-x)", X, (o.two(bisect(-a.x).first, bisect(-a.x).second)), (o.two(-bisect(a.x).second, -bisect(a.x).first)))
    R_("subset as proper or equal", X | Y, o.boolean(subset(a.x, a.y)), o.boolean(proper_subset(a.x, a.y) || equal(a.x, a.y)))
    R_("subset as intersect", X | Y, o.boolean(subset(a.x, a.y)), typedef typename Types<T>::B K; K x(a.x); K y(a.y); K z = intersect(x, y); o.boolean(equal(z, x)))
    R_("subset as hull", X | Y, o.boolean(subset(a.x, a.y)), o.boolean(equal(hull(a.x, a.y), a.y)))
    R_("overlap as intersect", X | Y, o.boolean(overlap(a.x, a.y)), typedef typename Types<T>::B K; K x(a.x); K y(a.y); o.boolean(!empty(intersect(x, y))))
    R_("empty", X, o.boolean(empty(a.x)), o.boolean(0))
    R_("singleton", X, o.boolean(singleton(a.x)), o.boolean(width(a.x) == T(0)))
    R_("division parts cover x/y", X | Y, bool b; I p = il::division_part1(a.x, a.y, b); if (b) p = hull(p, il::division_part2(a.x, a.y, b)); o = p, o = a.x / a.y)
    R_("division_part2 default", X | Y, bool b; I p = il::division_part1(a.x, a.y, b); if (b) p = il::division_part2(a.x, a.y); o = p,
       bool b; I p = il::division_part1(a.x, a.y, b); if (b) p = il::division_part2(a.x, a.y, true); o = p)
    // comparisons
#define CN(NS_, F)                                                                                                     \
    R_(#NS_ " " #F " with a number", X | NT, o.boolean(b3(NS_::F(a.x, a.t))), o.boolean(b3(NS_::F(a.x, S_(a.t)))))
#define CM_(NS_)                                                                                                       \
    CN(NS_, lt) CN(NS_, le) CN(NS_, gt) CN(NS_, ge) CN(NS_, eq) CN(NS_, ne)                                            \
    R_(#NS_ " x<y as y>x", X | Y, o.boolean(b3(NS_::lt(a.x, a.y))), o.boolean(b3(NS_::gt(a.y, a.x))))                  \
    R_(#NS_ " x<=y as y>=x", X | Y, o.boolean(b3(NS_::le(a.x, a.y))), o.boolean(b3(NS_::ge(a.y, a.x))))                \
    R_(#NS_ " == commutes", X | Y, o.boolean(b3(NS_::eq(a.x, a.y))), o.boolean(b3(NS_::eq(a.y, a.x))))                 \
    R_(#NS_ " != commutes", X | Y, o.boolean(b3(NS_::ne(a.x, a.y))), o.boolean(b3(NS_::ne(a.y, a.x))))
    CM_(cmpdef) CM_(cmpcer) CM_(cmppos) CM_(cmplex) CM_(cmptri)
#define CE_(F, G)                                                                                                      \
    R_(#F " x,t", X | NT, o.boolean(il::F(a.x, a.t)), o.boolean(il::F(a.x, S_(a.t))))                                  \
    R_(#F " t,x", X | NT, o.boolean(il::F(a.t, a.x)), o.boolean(il::F(S_(a.t), a.x)))                                  \
    R_(#F " as " #G, X | Y, o.boolean(il::F(a.x, a.y)), o.boolean(il::G(a.y, a.x)))                                    \
    R_(#F " mirrored", X | Y, o.boolean(il::F(a.x, a.y)), o.boolean(il::F(-a.y, -a.x)))
    CE_(cerlt, cergt) CE_(cerle, cerge) CE_(cergt, cerlt) CE_(cerge, cerle) CE_(cereq, cereq) CE_(cerne, cerne)
    CE_(poslt, posgt) CE_(posle, posge) CE_(posgt, poslt) CE_(posge, posle) CE_(poseq, poseq) CE_(posne, posne)
#define CO_(F, NS_, G) R_(#F " as an operator", X | Y, o.boolean(il::F(a.x, a.y)), o.boolean(b3(NS_::G(a.x, a.y))))
    CO_(cerlt, cmpcer, lt) CO_(cerle, cmpcer, le) CO_(cergt, cmpcer, gt) CO_(cerge, cmpcer, ge) CO_(cereq, cmpcer, eq) CO_(cerne, cmpcer, ne)
    CO_(poslt, cmppos, lt) CO_(posle, cmppos, le) CO_(posgt, cmppos, gt) CO_(posge, cmppos, ge) CO_(poseq, cmppos, eq) CO_(posne, cmppos, ne)
#define SO_(G, E) R_("set " #G, X | Y, o.boolean(cmpset::G(a.x, a.y)), o.boolean(E))
    SO_(le, subset(a.x, a.y)) SO_(lt, proper_subset(a.x, a.y)) SO_(ge, subset(a.y, a.x)) SO_(gt, proper_subset(a.y, a.x)) SO_(eq, equal(a.x, a.y)) SO_(ne, !equal(a.x, a.y))
    build_tr(v, std::integral_constant<bool, TRANSC>());
    return v;
  }
  static void build_tr(std::vector<Rel<I> > &, std::false_type) {}
  static void build_tr(std::vector<Rel<I> > &v, std::true_type) {
#define ODD(F) R_(#F "(-x)", X | TR, o = F(-a.x), o = -F(a.x))
#define EVEN(F) R_(#F "(-x)", X | TR, o = F(-a.x), o = F(a.x))
    ODD(asin) ODD(atan) ODD(sinh) ODD(tanh) ODD(asinh) ODD(atanh) EVEN(cosh)
#define SELF(F) R_("x=" #F "(x)", X | TR, I z = a.x; z = F(z); o = z, I w = copy(a.x); o = F(w))
    SELF(exp) SELF(log) SELF(sin) SELF(cos) SELF(tan) SELF(asin) SELF(acos) SELF(atan) SELF(sinh) SELF(cosh) SELF(tanh) SELF(asinh) SELF(acosh) SELF(atanh) SELF(sqrt)
  }
};

// an int representable in the base type, any magnitude
template<class T> static int bigint(Rng &r) {
  switch (r.below(6)) {
  case 0: return r.range(-16777216, 16777216);
  case 1: return (1 << r.below(31)) * (r.chance(1, 2) ? 1 : -1);
  case 2: return INT_MIN;
  case 3: if (std::numeric_limits<T>::digits >= 32) return INT_MAX - (int)r.below(3); // fall through
  default: if (std::numeric_limits<T>::digits >= 32) return (int)(uint32_t)r.next();
    { int s = r.below(8); return (int)((unsigned)r.range(-16777215, 16777215) << s); }
  }
}
template<class I, bool TRANSC> static void one(Rng &r, uint64_t idx, const char *tag) {
  typedef typename I::base_type T;
  const std::vector<Rel<I> > &v = Rels<I, TRANSC>::all();
  const Rel<I> &q = v[idx % v.size()];
  for (int k = 0; k < 6; ++k) {
    Raw<T> w = raw<T>(r, q.flags);
    if ((q.flags & N) && r.chance(1, 2)) w.n = bigint<T>(r);
    if (q.flags & XSAFE) for (int t = 0; t < 10 && !(std::isfinite(w.x.l) && std::isfinite(w.x.u)); ++t) { w.x = gen::ival<T>(r, false); }
    if ((q.flags & XSAFE) && !(std::isfinite(w.x.l) && std::isfinite(w.x.u))) continue;
    Args<I> a = args<I>(w), b = args<I>(w);
    Out<I> o, p;
    vh::op(q.name);
    escape(a); escape(b);
    void (*volatile f)(Args<I> &, Out<I> &) = q.p;
    void (*volatile g)(Args<I> &, Out<I> &) = q.q;
    ops::run<I>(f, a, o); ops::run<I>(g, b, p);
    escape(o); escape(p);
    vh::eval();
    bool triv = w.x.l == 0 && w.x.u == 0;
    if (!triv) vh::nontrivial(hraw(w, q.flags & (X | Y | NT | NS | N)) ^ vh::hstr(q.name) ^ vh::hstr(tag));
    if (!sameout(o, p)) {
      Op<I> d = {q.name, q.flags & (X | Y | NT | NS | N), B_ANY, 0};
      Args<I> c = args<I>(w);
      vh::fail(std::string(q.name) + "/" + tag, std::string(tag) + ": " + astr(d, c) + ": " + ostr(o) + " but the other form gives " + ostr(p));
    }
    if (r.below(20000) == 0) { Op<I> d = {q.name, q.flags & (X | Y | NT | NS | N), B_ANY, 0}; Args<I> c = args<I>(w); vh::sample(std::string(tag) + ": " + astr(d, c) + " -> " + ostr(o)); }
  }
}
template<class T> struct P {
  typedef typename Types<T>::S S; typedef typename Types<T>::B B_;
  typedef bn::interval<T, il::policies<il::save_state<il::rounded_transc_std<T, il::rounded_arith_std<T> > >, il::checking_base<T> > > STD;
  typedef bn::interval<T, il::policies<tr::Rnd<T>, il::checking_base<T> > > TRN;
};
#ifdef STDP
VH_GROUP(f3, "std.float", 160000, 4000000) { one<P<float>::STD, false>(r, idx, "std.float"); }
VH_GROUP(d3, "std.double", 160000, 4000000) { one<P<double>::STD, false>(r, idx, "std.double"); }
VH_GROUP(l3, "std.ldouble", 100000, 2500000) { one<P<long double>::STD, false>(r, idx, "std.ldouble"); }
#else
VH_GROUP(f1, "float", 400000, 10000000) { one<P<float>::S, false>(r, idx, "float"); }
VH_GROUP(d1, "double", 400000, 10000000) { one<P<double>::S, false>(r, idx, "double"); }
VH_GROUP(f2, "base.float", 400000, 10000000) { one<P<float>::B_, false>(r, idx, "base.float"); }
VH_GROUP(d2, "base.double", 400000, 10000000) { one<P<double>::B_, false>(r, idx, "base.double"); }
VH_GROUP(l1, "ldouble", 200000, 5000000) { one<P<long double>::S, false>(r, idx, "ldouble"); }
VH_GROUP(l2, "base.ldouble", 200000, 5000000) { one<P<long double>::B_, false>(r, idx, "base.ldouble"); }
VH_GROUP(d4, "tr.double", 40000, 1500000) { one<P<double>::TRN, true>(r, idx, "tr.double"); }
VH_GROUP(f4, "tr.float", 40000, 1500000) { one<P<float>::TRN, true>(r, idx, "tr.float"); }
#endif
