// P19 (second part): exact number types, user-specialised predicates, and a
// type with nothing but the documented operations.
#include <gmp.h>
#include <functional>
#include "lib.hpp"
#include <boost/numeric/interval/compare/certain.hpp>
#include <boost/numeric/interval/compare/possible.hpp>
#include <boost/numeric/interval/compare/lexicographic.hpp>
#include <boost/numeric/interval/compare/set.hpp>
#include <boost/numeric/interval/compare/explicit.hpp>
#include <memory>
using vh::Rng;
#define MN(a, b) min BOOST_PREVENT_MACRO_SUBSTITUTION(a, b)
#define MX(a, b) max BOOST_PREVENT_MACRO_SUBSTITUTION(a, b)

// ------------------------------------------------------------- exact numbers
struct Rat { // plain rational arithmetic for the oracle
  mpq_t q;
  Rat() { mpq_init(q); } Rat(const Rat &o) { mpq_init(q); mpq_set(q, o.q); } ~Rat() { mpq_clear(q); }
  Rat &operator=(const Rat &o) { mpq_set(q, o.q); return *this; }
};
static uint64_t badarg;
static std::string badwhat;
static void bad(const char *w) { if (!badarg++) badwhat = w; }
struct Ext { // rational, infinite (inf = 1, -1) or invalid (inf = 2)
  Rat v; int inf;
  Ext() : inf(0) {}
  Ext(int x) : inf(0) { mpq_set_si(v.q, x, 1); }
  Ext(long a, unsigned long b) : inf(0) { mpq_set_si(v.q, a, b); mpq_canonicalize(v.q); }
  static Ext infin(int s) { Ext e; e.inf = s; return e; }
  int sgn() const { return inf == 1 ? 1 : inf == -1 ? -1 : mpq_sgn(v.q); }
  std::string s() const { if (inf) return inf == 2 ? "nan" : inf > 0 ? "inf" : "-inf"; char *p = mpq_get_str(0, 10, v.q); std::string r = p; free(p); return r.size() > 60 ? r.substr(0, 60) + "..." : r; }
};
static int cmp(const Ext &a, const Ext &b) { // not called on invalid numbers
  if (a.inf || b.inf) { int x = a.inf, y = b.inf; return x < y ? -1 : x > y ? 1 : 0; }
  int c = mpq_cmp(a.v.q, b.v.q); return c < 0 ? -1 : c > 0 ? 1 : 0;
}
static Ext e_neg(const Ext &a) { Ext r; r.inf = a.inf == 2 ? 2 : -a.inf; mpq_neg(r.v.q, a.v.q); return r; }
static Ext e_add(const Ext &a, const Ext &b) { if (a.inf) return a; if (b.inf) return b; Ext r; mpq_add(r.v.q, a.v.q, b.v.q); return r; }
static Ext e_mul(const Ext &a, const Ext &b) {
  int s = a.sgn() * b.sgn(); if (s == 0) return Ext(0); // 0 * inf is 0 for bounds
  if (a.inf || b.inf) return Ext::infin(s); Ext r; mpq_mul(r.v.q, a.v.q, b.v.q); return r;
}
static Ext e_div(const Ext &a, const Ext &b) { // b is not 0
  if (b.inf) return Ext(0); if (a.inf) return Ext::infin(a.sgn() * b.sgn());
  Ext r; mpq_div(r.v.q, a.v.q, b.v.q); return r;
}
static bool lt(const Ext &a, const Ext &b) { return cmp(a, b) < 0; }
struct EI { Ext l, u; std::string s() const { return "[" + l.s() + "," + u.s() + "]"; } };
struct EH { bool empty; Ext lo, hi; EH() : empty(true) {} void add(const Ext &a) { if (empty) { lo = hi = a; empty = false; } else { if (lt(a, lo)) lo = a; if (lt(hi, a)) hi = a; } }
  std::string s() const { return empty ? "{}" : "[" + lo.s() + "," + hi.s() + "]"; } };

// the type given to the library: every use outside the mathematical domain is noted
struct Q {
  Ext e;
  Q() {} Q(int x) : e(x) {} Q(const Ext &x) : e(x) {}
};
static bool anynan(const Q &a, const Q &b) { return a.e.inf == 2 || b.e.inf == 2; }
static Q operator+(const Q &a, const Q &b) { if (anynan(a, b)) bad("+ of an invalid number"); if (a.e.inf && b.e.inf && a.e.inf != b.e.inf) bad("inf + -inf"); return e_add(a.e, b.e); }
static Q operator-(const Q &a, const Q &b) { if (anynan(a, b)) bad("- of an invalid number"); if (a.e.inf && b.e.inf && a.e.inf == b.e.inf) bad("inf - inf"); return e_add(a.e, e_neg(b.e)); }
static Q operator*(const Q &a, const Q &b) { if (anynan(a, b)) bad("* of an invalid number"); if ((a.e.inf && b.e.sgn() == 0) || (b.e.inf && a.e.sgn() == 0)) bad("0 * inf"); return e_mul(a.e, b.e); }
static Q operator/(const Q &a, const Q &b) { if (anynan(a, b)) bad("/ of an invalid number"); if (b.e.sgn() == 0) { bad("division by 0"); return Ext::infin(2); } if (a.e.inf && b.e.inf) bad("inf / inf"); return e_div(a.e, b.e); }
static Q operator-(const Q &a) { return e_neg(a.e); }
static Q floor(const Q &a) { if (a.e.inf) { bad("floor of an infinite number"); return a; } Ext r; mpz_fdiv_q(mpq_numref(r.v.q), mpq_numref(a.e.v.q), mpq_denref(a.e.v.q)); return r; }
#define QC(OP) static bool operator OP(const Q &a, const Q &b) { if (anynan(a, b)) return false; return cmp(a.e, b.e) OP 0; }
QC(<) QC(<=) QC(>) QC(>=) QC(==)
static bool operator!=(const Q &a, const Q &b) { return anynan(a, b) || cmp(a.e, b.e) != 0; }
struct QChk { // infinities and invalid numbers only from here
  static Q pos_inf() { return Ext::infin(1); } static Q neg_inf() { return Ext::infin(-1); } static Q nan() { return Ext::infin(2); }
  static bool is_nan(const Q &x) { return x.e.inf == 2; }
  static Q empty_lower() { return Q(7); } static Q empty_upper() { return Q(-7); }
  static bool is_empty(const Q &l, const Q &u) { return l.e.inf == 2 || u.e.inf == 2 || cmp(l.e, u.e) > 0; }
};
typedef bn::interval<Q, il::policies<il::rounded_math<Q>, QChk> > IQ;

static EH h_add(const EI &a, const EI &b) { EH h; h.add(e_add(a.l, b.l)); h.add(e_add(a.u, b.u)); return h; }
static EI e_negi(const EI &a) { return EI{e_neg(a.u), e_neg(a.l)}; }
static EH h_mul(const EI &a, const EI &b) { EH h; h.add(e_mul(a.l, b.l)); h.add(e_mul(a.l, b.u)); h.add(e_mul(a.u, b.l)); h.add(e_mul(a.u, b.u)); return h; }
static void pos_div(EH &h, const EI &x, const EI &y) { // y.u > 0
  if (y.l.sgn() > 0) { const Ext *c[] = {&x.l, &x.u}, *d[] = {&y.l, &y.u}; for (auto a : c) for (auto b : d) h.add(a->inf ? *a : e_div(*a, *b)); if (y.u.inf) h.add(Ext(0)); return; }
  if (x.u.sgn() > 0) h.add(Ext::infin(1)); else if (x.u.sgn() == 0) h.add(Ext(0)); else h.add(e_div(x.u, y.u));
  if (x.l.sgn() < 0) h.add(Ext::infin(-1)); else if (x.l.sgn() == 0) h.add(Ext(0)); else h.add(e_div(x.l, y.u));
  if (y.u.inf) h.add(Ext(0));
}
static EH h_div(const EI &x, const EI &y) { EH h; if (y.u.sgn() > 0) pos_div(h, x, y); if (y.l.sgn() < 0) pos_div(h, e_negi(x), e_negi(y)); return h; }
static EH h_abs(const EI &a) { EH h; if (a.l.sgn() >= 0) { h.add(a.l); h.add(a.u); } else if (a.u.sgn() <= 0) { h.add(e_neg(a.l)); h.add(e_neg(a.u)); } else { h.add(Ext(0)); h.add(a.u); h.add(e_neg(a.l)); } return h; }
static Ext e_pow(const Ext &a, int k) { Ext r(1); for (int i = 0; i < k; ++i) r = e_mul(r, a); return r; }

static Ext rat(Rng &r) {
  switch (r.below(12)) {
  case 0: return Ext(0); case 1: return Ext(r.chance(1, 2) ? 1 : -1); case 2: return Ext(r.range(-12, 12));
  case 3: { Ext e((long)(r.next() >> 2), (r.next() >> 1) | 1); return r.chance(1, 2) ? e : e_neg(e); }
  case 4: { Ext e(1, (r.next() >> 1) | 1); e = e_mul(e, e); return r.chance(1, 2) ? e : e_neg(e); }
  case 5: { Ext e((long)(r.next() >> 2), 3); e = e_mul(e, e); return r.chance(1, 2) ? e : e_neg(e); }
  default: return Ext(r.range(-60, 60), 1 + r.below(12));
  }
}
static EI rival(Rng &r) {
  Ext a = rat(r), b = r.chance(1, 6) ? a : rat(r);
  if (r.chance(1, 12)) b = e_neg(a);
  if (lt(b, a)) std::swap(a, b);
  if (r.chance(1, 14)) a = Ext::infin(-1);
  if (r.chance(1, 14)) b = Ext::infin(1);
  return EI{a, b};
}
static void judge(const char *op, const std::string &in, const IQ &z, const EH &h) {
  vh::eval();
  bool e = QChk::is_empty(z.lower(), z.upper());
  std::string w = std::string(op) + " " + in + " = " + EI{z.lower().e, z.upper().e}.s() + ", should be " + h.s();
  if (badarg) { vh::fail(std::string("rational/badarg/") + op, w + ": the library computed " + badwhat); badarg = 0; }
  if (e != h.empty) vh::fail(std::string("rational/empty/") + op, w);
  else if (!e && (cmp(z.lower().e, h.lo) || cmp(z.upper().e, h.hi))) vh::fail(std::string("rational/exact/") + op, w);
}
static void num(const char *op, const std::string &in, const Q &z, const Ext &want) {
  vh::eval();
  if (badarg) { vh::fail(std::string("rational/badarg/") + op, in + ": the library computed " + badwhat); badarg = 0; }
  if (z.e.inf == 2 || cmp(z.e, want)) vh::fail(std::string("rational/value/") + op, std::string(op) + " " + in + " = " + z.e.s() + ", should be " + want.s());
}
static void tru(const char *op, const std::string &in, bool z, bool want) { vh::eval(); badarg = 0; if (z != want) vh::fail(std::string("rational/truth/") + op, std::string(op) + " " + in + (z ? " = 1" : " = 0")); }
static std::vector<std::pair<Q, Q> > nothing;
VH_GROUP(rational, "exact rational type", 30000, 900000) {
  (void)idx;
  EI a = rival(r), b = rival(r); Ext t = rat(r);
  const IQ x(Q(a.l), Q(a.u)), y(Q(b.l), Q(b.u)); const Q n(t); EI ti = {t, t};
  std::string w = a.s() + " " + b.s(), wt = a.s() + " " + t.s(); const char *o;
  vh::nontrivial(vh::hstr(w.c_str()));
  EI nb = e_negi(b);
#define J(NAME, E, HH, W) vh::op(o = NAME); { IQ z = E; judge(o, W, z, HH); }
  J("x+y", x + y, h_add(a, b), w) J("x-y", x - y, h_add(a, nb), w) J("x*y", x * y, h_mul(a, b), w) J("x/y", x / y, h_div(a, b), w)
  J("x+=y", (IQ(x) += y), h_add(a, b), w) J("x-=y", (IQ(x) -= y), h_add(a, nb), w) J("x*=y", (IQ(x) *= y), h_mul(a, b), w) J("x/=y", (IQ(x) /= y), h_div(a, b), w)
  J("x+t", x + n, h_add(a, ti), wt) J("x-t", x - n, h_add(a, e_negi(ti)), wt) J("x*t", x * n, h_mul(a, ti), wt) J("x/t", x / n, h_div(a, ti), wt)
  J("t+x", n + x, h_add(ti, a), wt) J("t-x", n - x, h_add(ti, e_negi(a)), wt) J("t*x", n * x, h_mul(ti, a), wt) J("t/x", n / x, h_div(ti, a), wt)
  J("x+=t", (IQ(x) += n), h_add(a, ti), wt) J("x-=t", (IQ(x) -= n), h_add(a, e_negi(ti)), wt) J("x*=t", (IQ(x) *= n), h_mul(a, ti), wt) J("x/=t", (IQ(x) /= n), h_div(a, ti), wt)
  { EH h; EI m = e_negi(a); h.add(m.l); h.add(m.u); J("-x", -x, h, a.s()) }
  EH ab = h_abs(a); J("abs", abs(x), ab, a.s())
  { EH h; h.add(e_mul(ab.lo, ab.lo)); h.add(e_mul(ab.hi, ab.hi)); J("square", square(x), h, a.s()) }
  { int k = r.range(-5, 9), p = k < 0 ? -k : k; EH h; if (p & 1) { h.add(e_pow(a.l, p)); h.add(e_pow(a.u, p)); } else if (p == 0) h.add(Ext(1)); else { h.add(e_pow(ab.lo, p)); h.add(e_pow(ab.hi, p)); }
    if (k < 0) h = h_div(EI{Ext(1), Ext(1)}, EI{h.lo, h.hi});
    if (k < 0 && (a.l.sgn() == 0 && a.u.sgn() == 0)) h = EH();
    J("pow", pow(x, k), h, a.s() + vh::fmt(" %d", k)) }
  J("multiplicative_inverse", il::multiplicative_inverse(x), h_div(EI{Ext(1), Ext(1)}, a), a.s())
  { EH h; h.add(lt(a.l, b.l) ? a.l : b.l); h.add(lt(a.u, b.u) ? a.u : b.u); J("min", MN(x, y), h, w) }
  { EH h; h.add(lt(a.l, b.l) ? b.l : a.l); h.add(lt(a.u, b.u) ? b.u : a.u); J("max", MX(x, y), h, w) }
  { EH h; h.add(lt(a.l, b.l) ? a.l : b.l); h.add(lt(a.u, b.u) ? b.u : a.u); J("hull", hull(x, y), h, w) }
  Ext il_ = lt(a.l, b.l) ? b.l : a.l, iu = lt(a.u, b.u) ? a.u : b.u; bool meet = !lt(iu, il_);
  { EH h; if (meet) { h.add(il_); h.add(iu); } J("intersect", intersect(x, y), h, w) }
  { Ext m = t.sgn() < 0 ? e_neg(t) : t; EH h; h.add(e_add(a.l, e_neg(m))); h.add(e_add(a.u, m)); J("widen", widen(x, Q(m)), h, a.s() + " " + m.s()) }
  vh::op("division_parts"); { bool f; IQ p = il::division_part1(x, y, f); EH h = h_div(a, b); bool z2 = b.l.sgn() < 0 && b.u.sgn() > 0;
    if (!f) judge("division_part1", w, p, h); else if (!z2 || (a.l.sgn() < 0 && a.u.sgn() > 0)) vh::fail("rational/flag", w);
    else { EH n1, n2; pos_div(n1, a, b); pos_div(n2, e_negi(a), e_negi(b)); if (lt(n2.lo, n1.lo)) std::swap(n1, n2); judge("division_part1", w, p, n1); judge("division_part2", w, il::division_part2(x, y, f), n2); } }
  if (!a.l.inf && !a.u.inf) {
    num("median", a.s(), median(x), e_mul(e_add(a.l, a.u), Ext(1, 2)));
    std::pair<IQ, IQ> z = bisect(x); EH p, q; Ext m = e_mul(e_add(a.l, a.u), Ext(1, 2)); p.add(a.l); p.add(m); q.add(m); q.add(a.u);
    judge("bisect", a.s(), z.first, p); judge("bisect", a.s(), z.second, q);
    num("width", a.s(), width(x), e_add(a.u, e_neg(a.l)));
    Ext d = t.sgn() == 0 ? Ext(1) : t.sgn() < 0 ? e_neg(t) : t;
    Ext k = floor(Q(e_div(a.l, d))).e; EH h; Ext s = e_neg(e_mul(k, d)); h.add(e_add(a.l, s)); h.add(e_add(a.u, s));
    J("fmod", fmod(x, Q(d)), h, a.s() + " " + d.s())
    J("fmod2", fmod(x, IQ(Q(d))), h, a.s() + " " + d.s())
  }
  num("norm", a.s(), norm(x), ab.hi);
  tru("in", wt, in(n, x), !lt(t, a.l) && !lt(a.u, t)); tru("zero_in", a.s(), zero_in(x), a.l.sgn() <= 0 && a.u.sgn() >= 0);
  tru("overlap", w, overlap(x, y), meet); tru("subset", w, subset(x, y), !lt(a.l, b.l) && !lt(b.u, a.u)); tru("singleton", a.s(), singleton(x), !lt(a.l, a.u));
  tru("equal", w, equal(x, y), !cmp(a.l, b.l) && !cmp(a.u, b.u));
  { using namespace il::compare::certain; tru("certain <", w, x < y, lt(a.u, b.l)); tru("certain >=", w, x >= y, !lt(a.l, b.u)); tru("certain ==", w, x == y, !lt(a.l, a.u) && !cmp(a.l, b.l) && !cmp(a.u, b.u)); tru("certain < t", wt, x < n, lt(a.u, t)); }
  { using namespace il::compare::possible; tru("possible <", w, x < y, lt(a.l, b.u)); tru("possible ==", w, x == y, meet); tru("possible >= t", wt, x >= n, !lt(a.u, t)); }
  if (r.chance(1, 20)) { // empties and invalid numbers
    IQ e = IQ::empty(); Q nn = QChk::nan(); EH n0;
    J("empty+x", e + x, n0, w) J("x*empty", x * e, n0, w) J("empty/x", e / x, n0, w) J("pow empty", pow(e, 3), n0, w) J("square empty", square(e), n0, w) J("x+nan", x + nn, n0, w) J("nan*x", nn * x, n0, w) J("x/nan", x / nn, n0, w)
    J("intersect empty", intersect(x, e), n0, w) J("fmod empty", fmod(e, x), n0, w) J("abs empty", abs(e), n0, w) J("min empty", MN(e, x), n0, w) J("-empty", -e, n0, w) J("I(nan)", IQ(nn), n0, w)
    vh::eval(); if (median(e).e.inf != 2 || norm(e).e.inf != 2) vh::fail("rational/invalid", "median or norm of an empty interval is not the policy's invalid number");
    if (!(e.lower() == Q(7)) || !(e.upper() == Q(-7))) vh::fail("rational/emptybounds", "the bounds of the empty interval are not the policy's");
  }
  if (r.below(4000) == 0) vh::sample("rational " + w);
}

// ------------------------------------------------------------- built-in integers
template<class T> static void integers(Rng &r, const char *tn, long lim, int maxp) {
  typedef bn::interval<T, il::policies<il::rounded_math<T>, il::checking_no_nan<T> > > I;
  auto pk = [&](long m) { switch (r.below(6)) { case 0: return 0L; case 1: return r.chance(1, 2) ? m : -m; case 2: return (long)r.range(-3, 3); default: return (long)(r.next() % (2 * m + 1)) - m; } };
  long al = pk(lim), au = r.chance(1, 6) ? al : pk(lim), bl = pk(lim), bu = r.chance(1, 6) ? bl : pk(lim), t = pk(lim);
  if (al > au) std::swap(al, au); if (bl > bu) std::swap(bl, bu);
  const I x((T)al, (T)au), y((T)bl, (T)bu); const T n = (T)t; const char *o = "";
  std::string w = vh::fmt("%s [%ld,%ld] [%ld,%ld] %ld", tn, al, au, bl, bu, t);
  vh::nontrivial(vh::hstr(w.c_str()));
  auto ck = [&](const I &z, std::initializer_list<__int128> v) { vh::eval(); __int128 lo = *v.begin(), hi = lo; for (__int128 q : v) { if (q < lo) lo = q; if (q > hi) hi = q; }
    if ((__int128)z.lower() != lo || (__int128)z.upper() != hi) vh::fail(std::string("integer/") + o + "/" + tn, std::string(o) + " " + w + vh::fmt(" = [%lld,%lld]", (long long)z.lower(), (long long)z.upper())); };
  auto tr = [&](bool a, bool b) { vh::eval(); if (a != b) vh::fail(std::string("integer/") + o + "/" + tn, std::string(o) + " " + w); };
#define K(NAME, E, ...) vh::op(o = NAME); { I z = E; ck(z, {__VA_ARGS__}); }
#define W(e) ((__int128)(e))
  K("x+y", x + y, al + bl, au + bu) K("x-y", x - y, al - bu, au - bl) K("x*y", x * y, W(al) * bl, W(al) * bu, W(au) * bl, W(au) * bu)
  K("x+=y", (I(x) += y), al + bl, au + bu) K("x-=y", (I(x) -= y), al - bu, au - bl) K("x*=y", (I(x) *= y), W(al) * bl, W(al) * bu, W(au) * bl, W(au) * bu)
  K("x+t", x + n, al + t, au + t) K("x-t", x - n, al - t, au - t) K("x*t", x * n, W(al) * t, W(au) * t) K("t+x", n + x, al + t, au + t) K("t-x", n - x, t - au, t - al) K("t*x", n * x, W(al) * t, W(au) * t)
  K("-x", -x, -al, -au)
  long ll = al >= 0 ? al : au <= 0 ? -au : 0, uu = std::max(-al, au);
  K("abs", abs(x), ll, uu) K("square", square(x), W(ll) * ll, W(uu) * uu)
  K("min", MN(x, y), std::min(al, bl), std::min(au, bu)) K("max", MX(x, y), std::max(al, bl), std::max(au, bu)) K("hull", hull(x, y), std::min(al, bl), std::max(au, bu)) K("hull t", hull(x, n), std::min(al, t), std::max(au, t))
  { long m = t < 0 ? -t : t; K("widen", widen(x, (T)m), al - m, au + m) }
  { int k = 1 + (int)r.below(maxp); long s = k > 2 ? 2 + 28 / k : lim; long l = al % s, u = au % s; if (l > u) std::swap(l, u); auto P = [&](long q) { __int128 v = 1; for (int i = 0; i < k; ++i) v *= q; return v; };
    long pl = l >= 0 ? l : u <= 0 ? -u : 0, pu = std::max(-l, u);
    if (k & 1) { K("pow", pow(I((T)l, (T)u), k), P(l), P(u)) } else { K("pow", pow(I((T)l, (T)u), k), P(pl), P(pu)) } K("pow 0", pow(x, 0), 1) }
  vh::op(o = "predicates"); bool meet = std::max(al, bl) <= std::min(au, bu);
  tr(in(n, x), al <= t && t <= au); tr(zero_in(x), al <= 0 && 0 <= au); tr(overlap(x, y), meet); tr(subset(x, y), bl <= al && au <= bu); tr(proper_subset(x, y), bl <= al && au <= bu && (al != bl || au != bu)); tr(singleton(x), al == au); tr(equal(x, y), al == bl && au == bu);
  if (meet) { K("intersect", intersect(x, y), std::max(al, bl), std::min(au, bu)) }
  vh::op(o = "scalars"); tr((long)width(x) == au - al, true); tr((long)norm(x) == uu, true);
  { T m = median(x); tr((long)m >= al && (long)m <= au && std::labs(2 * (long)m - al - au) <= 1, true); }
  { using namespace il::compare::certain; vh::op(o = "certain"); tr(x < y, au < bl); tr(x <= y, au <= bl); tr(x > n, al > t); tr(x != y, !meet); }
  { using namespace il::compare::lexicographic; vh::op(o = "lexicographic"); tr(x < y, al < bl || (al == bl && au < bu)); }
  // conversion from an interval of another type whose values are representable
  { bn::interval<double> d((double)al, (double)au); K("I(interval<double>)", I(d), al, au) bn::interval<long long> q(al, au); K("I(interval<long long>)", I(q), al, au) K("I(double,double)", I((double)al, (double)au), al, au) }
}
VH_GROUP(ints, "built-in integer types", 60000, 2000000) {
  switch (idx % 4) {
  case 0: integers<int>(r, "int", 30000, 12); break; case 1: integers<long long>(r, "long long", 1L << 30, 12); break;
  case 2: integers<short>(r, "short", 120, 2); break; default: integers<long>(r, "long", 1L << 20, 3);
  }
}

// ------------------------------------------- the functions of the exact rounding class, called directly
template<class T> static void exactfn(Rng &r, const char *tn) {
  typename il::unprotect<bn::interval<T, il::policies<il::save_state_nothing<il::rounded_arith_exact<T> >, il::checking_base<T> > > >::type::traits_type::rounding rnd;
  long p = r.range(-4000, 4000), q = r.range(-4000, 4000), k = r.range(-60, 60) * (r.chance(1, 2) ? 16 : 1); const T a = T(p) / 16, b = T(q) / 16, c = T(k) / 16;
  long fl = k >= 0 ? k / 16 : -((-k + 15) / 16), ce = k >= 0 ? (k + 15) / 16 : -(-k / 16);
  std::string w = vh::fmt("%ld/16 %ld/16 %ld/16", p, q, k); vh::nontrivial(vh::hstr(w.c_str()) ^ sizeof(T));
#define XF(NAME, E, V) vh::op("rounded_arith_exact"); { vh::eval(); T z = rnd.E; if (!(z == T(V))) vh::fail(std::string("exactfn/") + NAME + "/" + tn, std::string(NAME) + " of " + w + vh::fmt(" gives %.20g, should be %.20g", (double)z, (double)T(V))); }
  XF("add_down", add_down(a, b), (p + q) / 16.0) XF("add_up", add_up(a, b), (p + q) / 16.0) XF("sub_down", sub_down(a, b), (p - q) / 16.0) XF("sub_up", sub_up(a, b), (p - q) / 16.0)
  XF("mul_down", mul_down(a, b), (double)p * q / 256) XF("mul_up", mul_up(a, b), (double)p * q / 256)
  if (q) { T m = a * b; XF("div_down", div_down(m, b), p / 16.0) XF("div_up", div_up(m, b), p / 16.0) }
  { T s = a * a; XF("sqrt_down", sqrt_down(s), (p < 0 ? -p : p) / 16.0) XF("sqrt_up", sqrt_up(s), (p < 0 ? -p : p) / 16.0) }
  XF("median", median(a, b), (p + q) / 32.0) XF("int_down", int_down(c), fl) XF("int_up", int_up(c), ce)
  XF("conv_down", conv_down(a), p / 16.0) XF("conv_up", conv_up(a), p / 16.0)
}
VH_GROUP(exactfns, "functions of the exact rounding class", 20000, 400000) {
  switch (idx % 3) { case 0: exactfn<float>(r, "float"); break; case 1: exactfn<double>(r, "double"); break; default: exactfn<long double>(r, "long double"); }
}

// ------------------------------------------- a type with nothing but the documented operations
// Comparisons with a constant zero are noted: signs have their own predicates.
static uint64_t zerocmp, npred; static uint64_t ncmp;
struct Ar {
  double v; bool lit, opd; // lit: a literal zero; opd: a bound of an operand
  Ar() : v(1e300), lit(false), opd(false) {}
  template<class U, class = typename std::enable_if<std::is_same<U, int>::value>::type> Ar(U x) : v(x), lit(x == 0), opd(false) {}
  Ar(const Ar &o) : v(o.v), lit(false), opd(o.opd) {}
  Ar &operator=(const Ar &o) { v = o.v; lit = false; opd = o.opd; return *this; }
  static Ar raw(double d) { Ar a; a.v = d; return a; }
};
static Ar operator-(const Ar &a) { return Ar::raw(-a.v); }
#define AC(OP) static bool operator OP(const Ar &a, const Ar &b) { ++ncmp; if ((a.lit && b.opd) || (b.lit && a.opd)) ++zerocmp; return a.v OP b.v; }
AC(<) AC(<=) AC(>) AC(>=) AC(==) AC(!=)
namespace boost { namespace numeric { namespace interval_lib {
namespace user {
template<> inline bool is_zero<Ar>(Ar const &v) { ++npred; return v.v == 0; }
template<> inline bool is_neg<Ar>(Ar const &v) { ++npred; return v.v < 0; }
template<> inline bool is_pos<Ar>(Ar const &v) { ++npred; return v.v > 0; }
}
namespace constants {
#define CN(F) template<> inline Ar F<Ar>() { return Ar::raw(F<double>()); }
CN(pi_lower) CN(pi_upper) CN(pi_half_lower) CN(pi_half_upper) CN(pi_twice_lower) CN(pi_twice_upper)
}
} } }
typedef il::save_state<il::rounded_transc_opp<double> > DR;
static int alive;
struct ArRnd { // written by the user, without any of the predefined classes
  std::unique_ptr<DR> d;
  ArRnd() : d(new DR) { ++alive; } ~ArRnd() { --alive; }
  ArRnd(const ArRnd &) = delete;
  typedef struct ArUnp unprotected_rounding;
#define U1(F) Ar F##_down(const Ar &x) { return Ar::raw(R().F##_down(x.v)); } Ar F##_up(const Ar &x) { return Ar::raw(R().F##_up(x.v)); }
#define U2(F) Ar F##_down(const Ar &x, const Ar &y) { return Ar::raw(R().F##_down(x.v, y.v)); } Ar F##_up(const Ar &x, const Ar &y) { return Ar::raw(R().F##_up(x.v, y.v)); }
#define ALLF U2(add) U2(sub) U2(mul) U2(div) U1(sqrt) U1(int) U1(exp) U1(log) U1(sin) U1(cos) U1(tan) U1(asin) U1(acos) U1(atan) U1(sinh) U1(cosh) U1(tanh) U1(asinh) U1(acosh) U1(atanh) \
  Ar median(const Ar &x, const Ar &y) { return Ar::raw(R().median(x.v, y.v)); } \
  Ar conv_down(int x) { return Ar::raw(R().conv_down(x)); } Ar conv_up(int x) { return Ar::raw(R().conv_up(x)); } Ar conv_down(double x) { return Ar::raw(x); } Ar conv_up(double x) { return Ar::raw(x); }
  DR &R() { return *d; }
  ALLF
};
struct ArUnp { ArUnp() { if (alive < 1) vh::fail("archetype/unprotected", "unprotected rounding object without a protected one"); }
  typedef ArUnp unprotected_rounding; typename DR::unprotected_rounding u; typename DR::unprotected_rounding &R() { return u; } ALLF };
struct ArChk {
  static Ar pos_inf() { return Ar::raw(HUGE_VAL); } static Ar neg_inf() { return Ar::raw(-HUGE_VAL); } static Ar nan() { return Ar::raw(std::nan("")); }
  static bool is_nan(const Ar &x) { return x.v != x.v; } static Ar empty_lower() { return nan(); } static Ar empty_upper() { return nan(); }
  static bool is_empty(const Ar &l, const Ar &u) { return !(l.v <= u.v); }
};
typedef bn::interval<Ar, il::policies<ArRnd, ArChk> > IA;
typedef bn::interval<double, il::policies<DR, il::checking_base<double> > > ID;

static Ar ar(double d) { Ar a = Ar::raw(d); a.opd = true; return a; }
static bool sameb(double a, double b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)) || (a == 0 && b == 0); }
static void agree(const char *op, const std::string &w, const IA &z, const ID &k) {
  vh::eval();
  bool e = isempty(k), f = ArChk::is_empty(z.lower(), z.upper());
  if (e != f || (!e && (!sameb(z.lower().v, k.lower()) || !sameb(z.upper().v, k.upper())))) vh::fail(std::string("archetype/result/") + op, std::string(op) + " " + w + vh::fmt(" = [%a,%a], with double [%a,%a]", z.lower().v, z.upper().v, k.lower(), k.upper()));
  if (zerocmp) { vh::fail(std::string("archetype/zerocmp/") + op, std::string(op) + " " + w + ": a number was compared with zero without the user's predicates"); zerocmp = 0; }
  if (alive) { vh::fail(std::string("archetype/alive/") + op, "rounding objects left"); alive = 0; }
}
template<class V> static void agreev(const char *op, const std::string &w, V a, V b) {
  vh::eval(); if (!(a == b || (a != a && b != b))) vh::fail(std::string("archetype/result/") + op, std::string(op) + " " + w);
  if (zerocmp) { vh::fail(std::string("archetype/zerocmp/") + op, std::string(op) + " " + w + ": a number was compared with zero without the user's predicates"); zerocmp = 0; }
}
template<class F> static int guard(F f) { try { return f(); } catch (const il::comparison_error &) { return 2; } }
template<class A, class B> static int c6(int k, const A &a, const B &b) { switch (k) { case 0: return a < b; case 1: return a <= b; case 2: return a > b; case 3: return a >= b; case 4: return a == b; default: return a != b; } }
namespace q1 { using namespace il::compare::certain; template<class A, class B> int c6(int k, const A &a, const B &b) { switch (k) { case 0: return a < b; case 1: return a <= b; case 2: return a > b; case 3: return a >= b; case 4: return a == b; default: return a != b; } } }
namespace q2 { using namespace il::compare::possible; template<class A, class B> int c6(int k, const A &a, const B &b) { switch (k) { case 0: return a < b; case 1: return a <= b; case 2: return a > b; case 3: return a >= b; case 4: return a == b; default: return a != b; } } }
namespace q3 { using namespace il::compare::lexicographic; template<class A, class B> int c6(int k, const A &a, const B &b) { switch (k) { case 0: return a < b; case 1: return a <= b; case 2: return a > b; case 3: return a >= b; case 4: return a == b; default: return a != b; } } }
namespace q4 { using namespace il::compare::set; template<class A, class B> int c6(int k, const A &a, const B &b) { switch (k) { case 0: return a < b; case 1: return a <= b; case 2: return a > b; case 3: return a >= b; case 4: return a == b; default: return a != b; } } }

VH_GROUP(archetype, "type with the documented operations only", 60000, 1500000) {
  (void)idx;
  gen::B<double> a = gen::ival<double>(r), b = r.chance(1, 8) ? gen::B<double>{-1, 1} : gen::ival<double>(r);
  if (r.chance(1, 2)) { a = gen::B<double>{r.range(-8, 8) / 4.0, 0}; a.u = a.l + r.below(9) / 4.0; }
  if (r.chance(1, 3)) { b = gen::B<double>{r.range(-8, 8) / 4.0, 0}; b.u = b.l + r.below(9) / 4.0; }
  double t = r.chance(1, 2) ? r.range(-6, 6) / 2.0 : gen::fin<double>(r);
  if (r.chance(1, 60)) a.l = a.u = std::nan("");
  zerocmp = 0; uint64_t p0 = npred;
  const IA x(ar(a.l), ar(a.u)), y(ar(b.l), ar(b.u)); const ID X(a.l, a.u), Y(b.l, b.u); const Ar n = ar(t);
  std::string w = a.s() + " " + b.s() + " " + gen::str(t), wa = a.s(); const char *o;
  vh::nontrivial(gen::hash(a) ^ vh::mix(gen::hash(b)));
#define A1(NAME, E, D) vh::op(o = NAME); agree(o, w, E, D);
#define B2(OPR) A1("x" #OPR "y", x OPR y, X OPR Y) A1("x" #OPR "t", x OPR n, X OPR t) A1("t" #OPR "x", n OPR x, t OPR X) A1("x" #OPR "=y", (IA(x) OPR##= y), (ID(X) OPR##= Y)) A1("x" #OPR "=t", (IA(x) OPR##= n), (ID(X) OPR##= t))
  B2(+) B2(-) B2(*) B2(/)
  A1("-x", -x, -X) A1("+x", +x, +X) A1("abs", abs(x), abs(X)) A1("square", square(x), square(X)) A1("sqrt", sqrt(x), sqrt(X))
  A1("min", MN(x, y), MN(X, Y)) A1("max", MX(x, y), MX(X, Y)) A1("min t", MN(x, n), MN(X, t)) A1("max t", MX(n, x), MX(t, X)) A1("hull", hull(x, y), hull(X, Y)) A1("hull t", hull(x, n), hull(X, t)) A1("hull tt", IA::hull(n, ar(b.l)), ID::hull(t, b.l)) A1("intersect", intersect(x, y), intersect(X, Y))
  A1("widen", widen(x, ar(std::fabs(t))), widen(X, std::fabs(t))) A1("inverse", il::multiplicative_inverse(x), il::multiplicative_inverse(X))
  { bool f, F; IA p = il::division_part1(x, y, f); ID P = il::division_part1(X, Y, F); agree("division_part1", w, p, P); agreev("division flag", w, (int)f, (int)F); if (f && F) { A1("division_part2", il::division_part2(x, y, f), il::division_part2(X, Y, F)) } }
  { int k = r.range(-7, 12); A1("pow", pow(x, k), pow(X, k)) int q = r.range(1, 7); if (std::isfinite(a.l) && std::isfinite(a.u)) { A1("nth_root", nth_root(x, q), nth_root(X, q)) } }
  if (t > 0 && std::isfinite(a.l) && std::isfinite(a.u) && std::fabs(a.l) < 1e18 * t) { A1("fmod", fmod(x, n), fmod(X, t)) }
  if (b.l > 0 && std::isfinite(b.u) && std::fabs(t) < 1e18 * b.l) { A1("fmod t y", fmod(n, y), fmod(t, Y)) }
  A1("exp", exp(x), exp(X)) A1("log", log(x), log(X)) A1("sinh", sinh(x), sinh(X)) A1("cosh", cosh(x), cosh(X)) A1("tanh", tanh(x), tanh(X)) A1("asin", asin(x), asin(X)) A1("acos", acos(x), acos(X)) A1("atan", atan(x), atan(X)) A1("asinh", asinh(x), asinh(X)) A1("acosh", acosh(x), acosh(X)) A1("atanh", atanh(x), atanh(X))
  if (std::fabs(a.l) < 1e300 && std::fabs(a.u) < 1e300) { A1("sin", sin(x), sin(X)) A1("cos", cos(x), cos(X)) A1("tan", tan(x), tan(X)) }
  A1("whole", IA::whole(), ID::whole()) A1("empty", IA::empty(), ID::empty()) A1("add", il::add<IA>(n, ar(b.l)), il::add<ID>(t, b.l)) A1("sub", il::sub<IA>(n, ar(b.l)), il::sub<ID>(t, b.l)) A1("mul", il::mul<IA>(n, ar(b.l)), il::mul<ID>(t, b.l)) A1("div", il::div<IA>(n, ar(b.l)), il::div<ID>(t, b.l))
  { IA z; ID Z; A1("default", z, Z) z = n; Z = t; A1("assign t", z, Z) z.assign(n, ar(b.l)); Z.assign(t, b.l); A1("assign", z, Z) z.set_whole(); Z.set_whole(); A1("set_whole", z, Z) z.set_empty(); Z.set_empty(); A1("set_empty", z, Z) A1("I(t)", IA(n), ID(t)) A1("I(int,int)", IA(1, 2), ID(1, 2)) }
  std::pair<IA, IA> z = bisect(x); std::pair<ID, ID> Z = bisect(X); agree("bisect", w, z.first, Z.first); agree("bisect", w, z.second, Z.second);
  agreev("median", w, median(x).v, median(X)); agreev("width", w, width(x).v, width(X)); agreev("norm", w, norm(x).v, norm(X)); agreev("checked_lower", w, bn::checked_lower(x).v, bn::checked_lower(X)); agreev("checked_upper", w, bn::checked_upper(x).v, bn::checked_upper(X)); agreev("lower", w, lower(x).v, lower(X)); agreev("upper", w, upper(x).v, upper(X));
  agreev("in", w, in(n, x), in(t, X)); agreev("zero_in", w, zero_in(x), zero_in(X)); agreev("subset", w, subset(x, y), subset(X, Y)); agreev("proper_subset", w, proper_subset(x, y), proper_subset(X, Y)); agreev("overlap", w, overlap(x, y), overlap(X, Y)); agreev("singleton", w, singleton(x), singleton(X)); agreev("equal", w, equal(x, y), equal(X, Y)); agreev("empty?", w, empty(x), empty(X));
  for (int k = 0; k < 6; ++k) {
    agreev("compare", w, guard([&] { return c6(k, x, y); }), guard([&] { return c6(k, X, Y); })); agreev("compare t", w, guard([&] { return c6(k, x, n); }), guard([&] { return c6(k, X, t); }));
    agreev("certain", w, guard([&] { return q1::c6(k, x, y); }), guard([&] { return q1::c6(k, X, Y); })); agreev("certain t", w, guard([&] { return q1::c6(k, x, n); }), guard([&] { return q1::c6(k, X, t); }));
    agreev("possible", w, guard([&] { return q2::c6(k, x, y); }), guard([&] { return q2::c6(k, X, Y); })); agreev("possible t", w, guard([&] { return q2::c6(k, x, n); }), guard([&] { return q2::c6(k, X, t); }));
    agreev("lexicographic", w, guard([&] { return q3::c6(k, x, y); }), guard([&] { return q3::c6(k, X, Y); })); agreev("lexicographic t", w, guard([&] { return q3::c6(k, x, n); }), guard([&] { return q3::c6(k, X, t); }));
    agreev("set", w, guard([&] { return q4::c6(k, x, y); }), guard([&] { return q4::c6(k, X, Y); }));
  }
  agreev("cerlt", w, il::cerlt(x, y), il::cerlt(X, Y)); agreev("posle", w, il::posle(x, n), il::posle(X, t)); agreev("cereq", w, il::cereq(x, y), il::cereq(X, Y)); agreev("posne", w, il::posne(n, x), il::posne(t, X));
  agreev("pi", w, il::pi<IA>().lower().v, il::pi<ID>().lower());
  vh::count("sign predicate calls", npred - p0);
}
