// P25: random programs and classic algorithms on intervals, against a shadow execution
// of the same program at points of the inputs with rigorous 320-bit balls.
#include "tr.hpp"
#include <boost/numeric/interval/ext/integer.hpp>
#include <stdexcept>
#include <vector>
#include <cfenv>
using vh::Rng; using gen::B;
#ifndef TSEL
#define TSEL 7
#endif
static const int MODES[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
static const char *mname(int m) { return m == FE_TONEAREST ? "nearest" : m == FE_UPWARD ? "upward" : m == FE_DOWNWARD ? "downward" : "zero"; }

// ---------------------------------------------------------------- shadow: one real number, enclosed by a tiny ball
struct Q { mpfr_t v; Q() { mpfr_init2(v, 320); mpfr_set_zero(v, 1); } Q(const Q &o) { mpfr_init2(v, 320); mpfr_set(v, o.v, MPFR_RNDN); }
  Q &operator=(const Q &o) { mpfr_set(v, o.v, MPFR_RNDN); return *this; } ~Q() { mpfr_clear(v); }
  void set(long double x, mpfr_rnd_t r = MPFR_RNDN) { mpfr_set_ld(v, x, r); } };
struct Ball { bool ok; Q lo, hi; Ball() : ok(false) {}
  explicit Ball(long double x) : ok(std::isfinite(x)) { lo.set(x); hi.set(x); }
  void check() { if (mpfr_nan_p(lo.v) || mpfr_nan_p(hi.v) || mpfr_inf_p(lo.v) || mpfr_inf_p(hi.v) || mpfr_greater_p(lo.v, hi.v)) ok = false; }
  std::string s() const { char b[200]; if (!ok) return "undefined"; mpfr_snprintf(b, sizeof b, "%.30Rg", lo.v); return b; } };
typedef int (*F2)(mpfr_t, mpfr_srcptr, mpfr_srcptr, mpfr_rnd_t);
typedef int (*F1)(mpfr_t, mpfr_srcptr, mpfr_rnd_t);
struct Near { int m; Near() : m(std::fegetround()) { std::fesetround(FE_TONEAREST); } ~Near() { std::fesetround(m); } };
static Ball b_inc(const Ball &a, F1 f) { Ball r; if (!a.ok) return r; r.ok = true; f(r.lo.v, a.lo.v, MPFR_RNDD); f(r.hi.v, a.hi.v, MPFR_RNDU); r.check(); return r; }
static Ball b_dec(const Ball &a, F1 f) { Ball r; if (!a.ok) return r; r.ok = true; f(r.lo.v, a.hi.v, MPFR_RNDD); f(r.hi.v, a.lo.v, MPFR_RNDU); r.check(); return r; }
static Ball b_add(const Ball &a, const Ball &b) { Ball r; r.ok = a.ok && b.ok; if (!r.ok) return r; mpfr_add(r.lo.v, a.lo.v, b.lo.v, MPFR_RNDD); mpfr_add(r.hi.v, a.hi.v, b.hi.v, MPFR_RNDU); r.check(); return r; }
static Ball b_neg(const Ball &a) { Ball r; r.ok = a.ok; if (!r.ok) return r; mpfr_neg(r.lo.v, a.hi.v, MPFR_RNDD); mpfr_neg(r.hi.v, a.lo.v, MPFR_RNDU); return r; }
static Ball b_sub(const Ball &a, const Ball &b) { return b_add(a, b_neg(b)); }
static Ball b_ends(const Ball &a, const Ball &b, F2 f) {
  Ball r; r.ok = a.ok && b.ok; if (!r.ok) return r; Q t; bool first = true;
  for (mpfr_srcptr x : {(mpfr_srcptr)a.lo.v, (mpfr_srcptr)a.hi.v}) for (mpfr_srcptr y : {(mpfr_srcptr)b.lo.v, (mpfr_srcptr)b.hi.v}) {
    f(t.v, x, y, MPFR_RNDD); if (first || mpfr_less_p(t.v, r.lo.v)) r.lo = t;
    f(t.v, x, y, MPFR_RNDU); if (first || mpfr_greater_p(t.v, r.hi.v)) r.hi = t;
    if (mpfr_nan_p(t.v)) { r.ok = false; return r; } first = false;
  }
  r.check(); return r;
}
static Ball b_mul(const Ball &a, const Ball &b) { return b_ends(a, b, mpfr_mul); }
static bool nonzero(const Ball &b) { return mpfr_sgn(b.lo.v) > 0 || mpfr_sgn(b.hi.v) < 0; }
static Ball b_div(const Ball &a, const Ball &b) { if (!b.ok || !nonzero(b)) return Ball(); return b_ends(a, b, mpfr_div); }
static Ball b_even(const Ball &a, const Ball &at_lo, const Ball &at_hi) { // increasing in |a|
  Ball r; r.ok = a.ok; if (!r.ok) return r;
  if (mpfr_sgn(a.lo.v) >= 0) { r.lo = at_lo.lo; r.hi = at_hi.hi; } else if (mpfr_sgn(a.hi.v) <= 0) { r.lo = at_hi.lo; r.hi = at_lo.hi; } else r.ok = false;
  r.check(); return r;
}
static Ball pt(const Q &q) { Ball r; r.ok = true; r.lo = q; r.hi = q; return r; }
static Ball b_abs(const Ball &a) { if (!a.ok) return Ball(); if (mpfr_sgn(a.lo.v) >= 0) return a; if (mpfr_sgn(a.hi.v) <= 0) return b_neg(a); return Ball(); }
static Ball b_powu(const Ball &a, unsigned n) { Ball r(1.0L), p = a; for (; n; n >>= 1) { if (n & 1) r = b_mul(r, p); p = b_mul(p, p); } return r; }
static Ball b_pow(const Ball &a, int n) { if (!a.ok) return Ball(); return n >= 0 ? b_powu(a, n) : b_div(Ball(1.0L), b_powu(a, -(unsigned)n)); }
static Ball b_root(const Ball &a, int k) {
  if (!a.ok) return Ball(); Ball r; r.ok = true;
  if (k % 2 == 0 && mpfr_sgn(a.lo.v) < 0) return Ball();
  mpfr_rootn_ui(r.lo.v, a.lo.v, k, MPFR_RNDD); mpfr_rootn_ui(r.hi.v, a.hi.v, k, MPFR_RNDU); r.check(); return r;
}
static Ball b_lip(const Ball &a, F1 f) { // |f'| <= 1
  if (!a.ok) return Ball(); Ball r; r.ok = true; Q w; mpfr_sub(w.v, a.hi.v, a.lo.v, MPFR_RNDU);
  f(r.lo.v, a.lo.v, MPFR_RNDD); f(r.hi.v, a.lo.v, MPFR_RNDU); mpfr_sub(r.lo.v, r.lo.v, w.v, MPFR_RNDD); mpfr_add(r.hi.v, r.hi.v, w.v, MPFR_RNDU); r.check(); return r;
}
static Ball b_fn(int f, const Ball &a) {
  if (!a.ok || mpfr_get_exp(a.hi.v) > 20000) { if (!a.ok || !mpfr_zero_p(a.hi.v)) return Ball(); }
  switch (f) {
    case tr::SIN: return b_lip(a, mpfr_sin);
    case tr::COS: return b_lip(a, mpfr_cos);
    case tr::TAN: { Ball c = b_lip(a, mpfr_cos), s = b_lip(a, mpfr_sin); return b_div(s, c); }
    case tr::ACOS: return b_dec(a, mpfr_acos);
    case tr::COSH: { Ball e = b_inc(a, mpfr_exp), i = b_div(Ball(1.0L), e); return b_mul(b_add(e, i), Ball(0.5L)); }
    case tr::ACOSH: case tr::LOG: case tr::ASIN: case tr::ATANH: default: return b_inc(a, tr::mpfn(f));
  }
}
// ---------------------------------------------------------------- machine
static const int K = 4; // points followed
template<class I> struct Reg { I v; Ball p[K]; };
template<class T> struct throwing : il::checking_no_empty<T, il::checking_base<T> > { };
template<int P, class T> struct Pol;
template<class T> struct Pol<0, T> { typedef bn::interval<T, il::policies<tr::Rnd<T>, il::checking_base<T> > > I; };
template<class T> struct Pol<1, T> { typedef bn::interval<T, il::policies<tr::Rnd<T>, il::checking_strict<T> > > I; };
template<class T> struct Pol<2, T> { typedef bn::interval<T, il::policies<il::save_state<tr::MpTransc<T, il::rounded_arith_std<T> > >, il::checking_base<T> > > I; };

struct Env { int ambient; std::string log; std::string what; };
enum Op { ADD, SUB, MUL, DIV, ADDT, SUBT, MULT, DIVT, TADD, TSUB, TMUL, TDIV, CADD, CSUB, CMUL, CDIV, CADDT, CSUBT, CMULT, CDIVT, NEG, ABS, SQR, SQRT, POW, ROOT, MIN, MAX, MINT, MAXT,
  INV, FN, HULL, HULLT, INTER, ASSIGN, WIDEN, COPY, DPARTS, BISECT, NUMBERS, TMIN, TMAX, THULL, FMOD, FMODT, TFMOD, IADD, ISUB, SUBI, IMUL, DIVI, IDIV, XTIMESX, XMINUSX, CONSTANT, ADDTT, SUBTT, MULTT, DIVTT, HULLTT, SETT, SETTT, NOPS };
static const char *ON[] = {"x+y", "x-y", "x*y", "x/y", "x+t", "x-t", "x*t", "x/t", "t+x", "t-x", "t*x", "t/x", "z+=y", "z-=y", "z*=y", "z/=y", "z+=t", "z-=t", "z*=t", "z/=t", "-x", "abs", "square", "sqrt", "pow", "nth_root", "min", "max", "min(x,t)", "max(x,t)",
  "multiplicative_inverse", "function", "hull", "hull(x,t)", "intersect", "assign", "widen", "copy", "division_parts", "bisect", "median, lower, upper", "min(t,x)", "max(t,x)", "hull(t,x)", "fmod", "fmod(x,t)", "fmod(t,x)", "x+int", "int-x", "x-int", "int*x", "x/int", "int/x", "x*x", "x-x", "constant", "add(t,s)", "sub(t,s)", "mul(t,s)", "div(t,s)", "hull(t,s)", "z=t", "z.assign(t,s)"};

template<class I> NOIPA static void compute(int op, I &z, const I &x, const I &y, const typename I::base_type &t, const typename I::base_type &s, int n, I *extra) {
  switch (op) {
    case ADD: z = x + y; break; case SUB: z = x - y; break; case MUL: z = x * y; break; case DIV: z = x / y; break;
    case ADDT: z = x + t; break; case SUBT: z = x - t; break; case MULT: z = x * t; break; case DIVT: z = x / t; break;
    case TADD: z = t + x; break; case TSUB: z = t - x; break; case TMUL: z = t * x; break; case TDIV: z = t / x; break;
    case CADD: z += y; break; case CSUB: z -= y; break; case CMUL: z *= y; break; case CDIV: z /= y; break;
    case CADDT: z += t; break; case CSUBT: z -= t; break; case CMULT: z *= t; break; case CDIVT: z /= t; break;
    case NEG: z = -x; break; case ABS: z = abs(x); break; case SQR: z = square(x); break; case SQRT: z = sqrt(x); break;
    case POW: z = pow(x, n); break; case ROOT: z = nth_root(x, n); break;
    case MIN: z = min BOOST_PREVENT_MACRO_SUBSTITUTION(x, y); break; case MAX: z = max BOOST_PREVENT_MACRO_SUBSTITUTION(x, y); break;
    case MINT: z = min BOOST_PREVENT_MACRO_SUBSTITUTION(x, t); break; case MAXT: z = max BOOST_PREVENT_MACRO_SUBSTITUTION(x, t); break;
    case INV: z = il::multiplicative_inverse(x); break;
    case FN: switch (n) {
      case tr::EXP: z = exp(x); break; case tr::LOG: z = log(x); break; case tr::SIN: z = sin(x); break; case tr::COS: z = cos(x); break; case tr::TAN: z = tan(x); break;
      case tr::ASIN: z = asin(x); break; case tr::ACOS: z = acos(x); break; case tr::ATAN: z = atan(x); break; case tr::SINH: z = sinh(x); break; case tr::COSH: z = cosh(x); break;
      case tr::TANH: z = tanh(x); break; case tr::ASINH: z = asinh(x); break; case tr::ACOSH: z = acosh(x); break; default: z = atanh(x); } break;
    case HULL: z = hull(x, y); break; case HULLT: z = hull(x, t); break; case INTER: z = intersect(x, y); break;
    case ASSIGN: z.assign(x.lower(), x.upper()); break; case WIDEN: z = widen(x, t < 0 ? -t : t); break; case COPY: { I c(x); z = c; break; }
    case DPARTS: { bool b = false; I p = division_part1(x, y, b); extra[0] = p; if (b) { extra[1] = division_part2(x, y, b); n = 2; } else extra[1] = p; z = p; break; }
    case BISECT: { std::pair<I, I> p = bisect(x); extra[0] = p.first; extra[1] = p.second; z = x; break; }
    case NUMBERS: z = I(n == 0 ? median(x) : n == 1 ? lower(x) : upper(x)); break;
    case CONSTANT: z = n == 0 ? il::pi<I>() : n == 1 ? il::pi_half<I>() : il::pi_twice<I>(); break;
    case TMIN: z = min BOOST_PREVENT_MACRO_SUBSTITUTION(t, x); break; case TMAX: z = max BOOST_PREVENT_MACRO_SUBSTITUTION(t, x); break; case THULL: z = hull(t, x); break;
    case FMOD: z = fmod(x, y); break; case FMODT: z = fmod(x, t); break; case TFMOD: z = fmod(t, x); break;
    case IADD: z = x + n; break; case ISUB: z = n - x; break; case SUBI: z = x - n; break; case IMUL: z = n * x; break; case DIVI: z = x / n; break; case IDIV: z = n / x; break;
    case XTIMESX: z = x * x; break; case XMINUSX: z = x - x; break;
    case SUBTT: z = il::sub<I>(t, s); break; case HULLTT: z = I::hull(t, s); break; case SETT: z = t; break; case SETTT: if (t <= s) z.assign(t, s); else z = I(s, t); break;
    case ADDTT: z = il::add<I>(t, s); break; case MULTT: z = il::mul<I>(t, s); break; case DIVTT: z = il::div<I>(t, s); break;
  }
}
template<class T> static bool holds(T l, T u, const Ball &b) { // the number is (up to the tiny ball) in [l,u]
  if (!(l <= u)) return false;
  mp::M L(l), U(u); return mpfr_lessequal_p(L.v, b.hi.v) && mpfr_greaterequal_p(U.v, b.lo.v);
}
template<class T> static bool surely(T l, T u, const Ball &b) { mp::M L(l), U(u); return mpfr_lessequal_p(L.v, b.lo.v) && mpfr_greaterequal_p(U.v, b.hi.v); }

// the integer that fmod subtracts: the floor of the quotient, rounded down
template<class T> static bool fmod_n(T a, T b, mpfr_t n) {
  if (!std::isfinite((long double)a) || !std::isfinite((long double)b) || !(b > 0)) return false;
  mpfr_t q; mpfr_init2(q, std::numeric_limits<T>::digits); mp::M A(a), C(b); mpfr_div(q, A.v, C.v, MPFR_RNDD);
  mp::M top((std::numeric_limits<T>::max)()); bool ok = mpfr_cmpabs(q, top.v) < 0; mpfr_rint_floor(n, q, MPFR_RNDD); mpfr_clear(q); return ok;
}
template<int P, class T> struct File {
  typedef typename Pol<P, T>::I I;
  enum { N = 5 };
  Reg<I> r[N];
};
template<class T> static T start(Rng &r) {
  switch (r.below(8)) { case 0: return T(r.range(-9, 9)); case 1: return gen::fin<T>(r); case 2: return T(r.range(-40, 40)) / 8; default: return std::ldexp(gen::mant<T>(r), r.range(-6, 5)) * (r.chance(1, 2) ? 1 : -1); }
}
template<class I> static void fresh(Rng &r, Reg<I> &g) {
  typedef typename I::base_type T; Near k;
  T a = start<T>(r), b = a;
  switch (r.below(6)) { case 0: break; case 1: b = gen::up(a); break; case 2: b = start<T>(r); break; case 3: b = a + std::ldexp(std::fabs(a), -r.range(1, 20)); break; default: for (int i = r.below(5); i >= 0; --i) b = gen::up(b); }
  if (!std::isfinite((long double)b)) b = a;
  B<T> z = gen::ord(a, b);
  g.v = I(z.l, z.u);
  for (int i = 0; i < K; ++i) {
    T f = std::ldexp((T)r.below(1u << 20), -20), p = i == 0 ? z.l : i == 1 ? z.u : z.l * (1 - f) + z.u * f;
    if (!(p >= z.l && p <= z.u)) p = z.l;
    g.p[i] = Ball((long double)p);
  }
}
// the mode of the surrounding code, observed through arithmetic
static NOIPA void native(int ambient, const std::string &pol, const char *after) {
  volatile double one = 1, three = 3, mthree = -3; double a = one / three, b = one / mthree;
  int m = std::fegetround(); std::fesetround(FE_TONEAREST);
  static const double lo = 0x1.5555555555555p-2, hi = 0x1.5555555555556p-2;
  double wa = ambient == FE_UPWARD ? hi : lo, wb = ambient == FE_DOWNWARD ? -hi : -lo;
  vh::eval(); vh::count("surrounding computations");
  if (m != ambient || a != wa || b != wb) vh::fail("surroundings/" + pol + "/" + after, vh::fmt("after %s: ambient mode %s, found %s; 1/3 = %a, 1/-3 = %a", after, mname(ambient), mname(m), a, b));
  std::fesetround(ambient);
}
template<int P, class T> struct Step {
  typedef typename Pol<P, T>::I I; typedef Reg<I> R;
  // one operation; true when it threw
  static void go(Rng &r, R *f, int n, const std::string &pol, std::string &hist, int ambient, bool guarded) {
    int op = r.below(NOPS); if (op == FN && r.chance(1, 4)) op = r.below(4); if (op < FN && r.chance(1, 8)) op = FN;
    int zi = r.below(n), xi = r.below(n), yi = r.below(n);
    R z = f[zi], x = f[xi], y = f[yi];
    T t = start<T>(r), s = start<T>(r); int k = 0; Ball bt((long double)t), bs((long double)s);
    switch (op) { case POW: k = r.range(-6, 9); break; case ROOT: k = r.range(1, 7); break; case FN: k = r.below(tr::NFN); break; case IADD: case ISUB: case SUBI: case IMUL: case DIVI: case IDIV: k = r.chance(1, 3) ? r.range(-4000, 4000) : r.range(-9, 9); if (op == DIVI && k == 0) k = 2; break; case NUMBERS: case CONSTANT: k = r.below(3); break;
      case ROOT + 1000: break; case WIDEN: t = std::fabs(t) * T(0.001); bt = Ball((long double)t); break; }
    if (op == DIVTT && s == 0) op = MULTT;
    if (op == FMODT && t <= 0) { t = t == 0 ? T(1) : -t; bt = Ball((long double)t); }
    if ((op == FMOD && !(y.v.lower() > 0)) || (op == TFMOD && !(x.v.lower() > 0))) op = SQR;
    I ex[2], res = z.v; bool threw = false, noemp = P == 1;
    I X = x.v, Y = y.v, Z = z.v;
    vh::op(ON[op]);
    escape(X); escape(Y); escape(Z); escape(t); escape(s);
    int before = std::fegetround();
    try {
      // aliased operands now and then: the destination is one of the operands
      if (xi == zi && r.chance(1, 2)) { res = X; compute<I>(op, res, res, Y, t, s, k, ex); }
      else if (yi == zi && r.chance(1, 2)) { res = Y; compute<I>(op, res, X, res, t, s, k, ex); }
      else { res = Z; compute<I>(op, res, X, Y, t, s, k, ex); }
    } catch (const std::runtime_error &) { threw = true; } catch (const std::invalid_argument &) { threw = true; }
    int after = std::fegetround();
    std::string key = pol + "/" + ON[op] + "/" + gen::Tn<T>::name();
    if (after != before && P != 102) { vh::fail("mode/" + key, vh::fmt("%s changed the rounding mode %s into %s", ON[op], mname(before), mname(after))); std::fesetround(before); }
    int save = after; std::fesetround(FE_TONEAREST);
    finish(r, f, op, k, zi, z, x, y, t, s, bt, bs, X, Y, res, ex, threw, noemp, key, hist);
    std::fesetround(save);
  }
  static void finish(Rng &r, R *f, int op, int k, int zi, R &z, R &x, R &y, T t, T s, Ball &bt, Ball &bs, I &X, I &Y, I &res, I *ex, bool threw, bool noemp, const std::string &key, std::string &hist) {
    (void)s;
    R nz; nz.v = res; bool any = false;
    int pick = r.below(2);
    for (int i = 0; i < K; ++i) {
      const Ball &a = x.p[i], &b = y.p[i], &c = z.p[i]; Ball q;
      switch (op) {
        case ADD: q = b_add(a, b); break; case SUB: q = b_sub(a, b); break; case MUL: q = b_mul(a, b); break; case DIV: case DPARTS: q = b_div(a, b); break;
        case ADDT: case TADD: q = b_add(a, bt); break; case SUBT: q = b_sub(a, bt); break; case MULT: case TMUL: q = b_mul(a, bt); break; case DIVT: q = b_div(a, bt); break;
        case TSUB: q = b_sub(bt, a); break; case TDIV: q = b_div(bt, a); break;
        case CADD: q = b_add(c, b); break; case CSUB: q = b_sub(c, b); break; case CMUL: q = b_mul(c, b); break; case CDIV: q = b_div(c, b); break;
        case CADDT: q = b_add(c, bt); break; case CSUBT: q = b_sub(c, bt); break; case CMULT: q = b_mul(c, bt); break; case CDIVT: q = b_div(c, bt); break;
        case NEG: q = b_neg(a); break; case ABS: q = b_abs(a); break; case SQR: q = b_mul(a, a); break; case SQRT: q = b_root(a, 2); break;
        case POW: q = b_pow(a, k); break; case ROOT: q = b_root(a, k); break;
        case MIN: case MAX: { if (!a.ok || !b.ok) break; bool less = mpfr_lessequal_p(a.hi.v, b.lo.v), more = mpfr_lessequal_p(b.hi.v, a.lo.v); if (less) q = op == MIN ? a : b; else if (more) q = op == MIN ? b : a; break; }
        case MINT: case MAXT: { if (!a.ok) break; bool less = mpfr_lessequal_p(a.hi.v, bt.lo.v), more = mpfr_lessequal_p(bt.hi.v, a.lo.v); if (less) q = op == MINT ? a : bt; else if (more) q = op == MINT ? bt : a; break; }
        case INV: q = b_div(Ball(1.0L), a); break; case FN: q = b_fn(k, a); break;
        case HULL: q = pick ? a : b; break; case HULLT: q = pick ? a : bt; break;
        case INTER: if (a.ok && surely<T>(Y.lower(), Y.upper(), a)) q = a; else if (b.ok && surely<T>(X.lower(), X.upper(), b)) q = b; break;
        case ASSIGN: case COPY: case BISECT: q = a; break;
        case WIDEN: q = pick ? b_add(a, bt) : r.chance(1, 2) ? b_sub(a, bt) : a; break;
        case NUMBERS: if (!threw && !isempty(res)) q = Ball((long double)res.lower()); break;
        case CONSTANT: { q.ok = true; mpfr_const_pi(q.lo.v, MPFR_RNDD); mpfr_const_pi(q.hi.v, MPFR_RNDU); if (k) { mpfr_mul_2si(q.lo.v, q.lo.v, k == 1 ? -1 : 1, MPFR_RNDD); mpfr_mul_2si(q.hi.v, q.hi.v, k == 1 ? -1 : 1, MPFR_RNDU); } break; }
        case TMIN: case TMAX: { if (!a.ok) break; bool less = mpfr_lessequal_p(a.hi.v, bt.lo.v), more = mpfr_lessequal_p(bt.hi.v, a.lo.v); if (less) q = op == TMIN ? a : bt; else if (more) q = op == TMIN ? bt : a; break; }
        case THULL: q = pick ? a : bt; break;
        case FMOD: case FMODT: case TFMOD: { const Ball &u = op == TFMOD ? bt : a, &w = op == FMOD ? b : op == FMODT ? bt : a; T xl = op == TFMOD ? t : X.lower(); const I &D = op == FMOD ? Y : X;
          T d = op == FMODT ? t : xl < 0 ? D.lower() : D.upper(); Ball n; if (!u.ok || !w.ok || !fmod_n<T>(xl, d, n.lo.v)) break; n.hi = n.lo; n.ok = true; q = b_sub(u, b_mul(n, w)); break; }
        case IADD: q = b_add(a, Ball((long double)k)); break; case ISUB: q = b_sub(Ball((long double)k), a); break; case SUBI: q = b_sub(a, Ball((long double)k)); break;
        case IMUL: q = b_mul(a, Ball((long double)k)); break; case DIVI: q = b_div(a, Ball((long double)k)); break; case IDIV: q = b_div(Ball((long double)k), a); break;
        case XTIMESX: q = b_mul(a, a); break; case XMINUSX: if (a.ok) q = Ball(0.0L); break;
        case SUBTT: q = b_sub(bt, bs); break; case HULLTT: case SETTT: q = pick ? bt : bs; break; case SETT: q = bt; break;
        case ADDTT: q = b_add(bt, bs); break; case MULTT: q = b_mul(bt, bs); break; case DIVTT: q = b_div(bt, bs); break;
      }
      if (i && (op == CONSTANT || op >= ADDTT)) q = nz.p[0];
      nz.p[i] = q; any |= q.ok;
      if (!q.ok) continue;
      vh::eval();
      bool good;
      std::string got = istr(res);
      if (threw) { good = false; got = "an exception"; }
      else if (op == DPARTS || op == BISECT) { good = (!isempty(ex[0]) && holds<T>(ex[0].lower(), ex[0].upper(), q)) || (!isempty(ex[1]) && holds<T>(ex[1].lower(), ex[1].upper(), q)); got = istr(ex[0]) + istr(ex[1]); }
      else if (op == NUMBERS) good = holds<T>(X.lower(), X.upper(), q) || !std::isfinite((long double)res.lower());
      else good = holds<T>(res.lower(), res.upper(), q);
      if (!good) {
        vh::fail(key, vh::fmt("%s k=%d t=%s s=%s x=", ON[op], k, gen::str(t).c_str(), gen::str(s).c_str()) + istr(X) + " y=" + istr(Y) + " old z=" + istr(z.v) + " gives " + got + ", the exact value is " + q.s() + " after: " + hist);
        nz.p[i].ok = false; break;
      }
    }
    if (threw) { vh::count("operations left by an exception"); return; } // the register keeps its value
    if (op == DPARTS || op == BISECT) { // continue in the part that holds the points followed first
      int h = -1; for (int i = 0; i < K && h < 0; ++i) if (nz.p[i].ok) h = holds<T>(ex[0].lower(), ex[0].upper(), nz.p[i]) ? 0 : 1;
      if (h < 0) h = 0;
      nz.v = ex[h];
      for (int i = 0; i < K; ++i) if (nz.p[i].ok && !(!isempty(nz.v) && surely<T>(nz.v.lower(), nz.v.upper(), nz.p[i]))) nz.p[i].ok = false;
    }
    f[zi] = nz;
    if (hist.size() < 500) hist += std::string(op == FN ? tr::fname(k) : ON[op]) + "; ";
    T l = nz.v.lower(), u = nz.v.upper();
    bool fine = any && l <= u && std::isfinite((long double)l) && std::isfinite((long double)u);
    if (fine) {
      vh::nontrivial(gen::bits(l) ^ vh::mix(gen::bits(u)) ^ op * 7919);
      vh::count("results compared with exact values");
      if (u - l <= std::fabs(l) * T(1e-3)) vh::count("of these within 0.1%");
      if (r.below(60000) == 0) vh::sample(key + " -> " + istr(nz.v) + " exact " + nz.p[0].s() + " after: " + hist.substr(0, 200));
    }
    if (!fine || r.chance(1, 60)) fresh(r, f[zi]);
  }
};
// unprotected twin of a step: the same registers, unprotected type, inside the scope of a rounding object
template<int P, class T> struct UStep {
  typedef typename Pol<P, T>::I I; typedef typename il::unprotect<I>::type U;
  static void segment(Rng &r, Reg<I> *f, int n, const std::string &pol, std::string &hist, int len) {
    typename I::traits_type::rounding guard; (void)guard;
    int inside = std::fegetround();
    Reg<U> g[File<P, T>::N];
    for (int i = 0; i < n; ++i) { g[i].v = f[i].v; for (int k = 0; k < K; ++k) g[i].p[k] = f[i].p[k]; }
    typedef UPol<P, T> D;
    for (int j = 0; j < len; ++j) {
      D::go(r, g, n, pol, hist, inside, true);
      if (r.chance(1, 5)) { // a protected operation in between
        I q, a = f[r.below(n)].v, ex[2]; T t = 3; escape(a); inside = std::fegetround();
        try { compute<I>(r.below(FN), q, a, a, t, t, 3, ex); } catch (const std::exception &) {}
        if (std::fegetround() != inside) { vh::fail("mode/" + pol + "/nested", "a protected operation inside an unprotected region changed the mode"); std::fesetround(inside); }
        vh::count("protected operations in unprotected regions");
      }
    }
    for (int i = 0; i < n; ++i) { f[i].v = g[i].v; for (int k = 0; k < K; ++k) f[i].p[k] = g[i].p[k]; }
  }
  template<int Q_, class T_> struct UPol : Step<100 + Q_, T_> {};
};
template<class T> struct Pol<100, T> { typedef typename il::unprotect<typename Pol<0, T>::I>::type I; };
template<class T> struct Pol<101, T> { typedef typename il::unprotect<typename Pol<1, T>::I>::type I; };
template<class T> struct Pol<102, T> { typedef typename il::unprotect<typename Pol<2, T>::I>::type I; };

// conversions between the register files
template<class D, class S> static void move(Rng &r, Reg<D> &d, const Reg<S> &s, const std::string &pol, std::string &hist) {
  typedef typename D::base_type T; S a = s.v; escape(a); D z; int ambient = std::fegetround();
  try { if (r.chance(1, 2)) z = D(a); else z = a; } catch (const std::exception &) { return; }
  if (std::fegetround() != ambient) { vh::fail("mode/" + pol + "/conversion", "a conversion changed the mode"); std::fesetround(ambient); }
  Near k;
  d.v = z;
  for (int i = 0; i < K; ++i) {
    d.p[i] = s.p[i]; if (!s.p[i].ok) continue; vh::eval();
    if (!holds<T>(z.lower(), z.upper(), s.p[i])) { vh::fail(pol + "/conversion/" + gen::Tn<T>::name(), "conversion of " + istr(a) + " gives " + istr(z) + ", the exact value is " + s.p[i].s() + " after: " + hist); d.p[i].ok = false; }
  }
  vh::count("conversions");
  if (!(z.lower() <= z.upper()) || !std::isfinite((long double)z.lower()) || !std::isfinite((long double)z.upper())) fresh(r, d);
}
template<int P> static void program(Rng &r, const char *name) {
  std::string pol = name, hist;
  File<P, float> f; File<P, double> d; File<P, long double> l;
  for (int i = 0; i < 5; ++i) { fresh(r, f.r[i]); fresh(r, d.r[i]); fresh(r, l.r[i]); }
  int ambient = MODES[r.below(4)], len = 5 + r.below(r.chance(1, 5) ? 300 : 40);
  std::fesetround(ambient);
  for (int j = 0; j < len; ++j) {
    int ty = r.below(3);
    if (r.chance(1, 10)) switch (r.below(6)) {
      case 0: move(r, f.r[r.below(5)], d.r[r.below(5)], pol, hist); break; case 1: move(r, d.r[r.below(5)], f.r[r.below(5)], pol, hist); break;
      case 2: move(r, l.r[r.below(5)], d.r[r.below(5)], pol, hist); break; case 3: move(r, d.r[r.below(5)], l.r[r.below(5)], pol, hist); break;
      case 4: move(r, f.r[r.below(5)], l.r[r.below(5)], pol, hist); break; default: move(r, l.r[r.below(5)], f.r[r.below(5)], pol, hist); }
    else if (r.chance(1, 12)) {
      int n = 1 + r.below(12); std::string up = pol + " unprotected"; vh::count("unprotected regions");
      switch (ty) { case 0: UStep<P, float>::segment(r, f.r, 5, up, hist, n); break; case 1: UStep<P, double>::segment(r, d.r, 5, up, hist, n); break; default: UStep<P, long double>::segment(r, l.r, 5, up, hist, n); }
      j += n;
    }
    else switch (ty) { case 0: Step<P, float>::go(r, f.r, 5, pol, hist, ambient, false); break; case 1: Step<P, double>::go(r, d.r, 5, pol, hist, ambient, false); break; default: Step<P, long double>::go(r, l.r, 5, pol, hist, ambient, false); }
    if (r.chance(1, 4)) native(ambient, pol, "a step");
  }
  std::fesetround(FE_TONEAREST);
  vh::count("programs");
}
#if TSEL & 1
VH_GROUP(p0, "programs", 6000, 200000) { (void)idx; program<0>(r, "opp"); }
#endif
#if TSEL & 2
VH_GROUP(p1, "throwing", 6000, 200000) { (void)idx; program<1>(r, "strict"); }
#endif
#if TSEL & 8
VH_GROUP(p2, "std", 6000, 200000) { (void)idx; program<2>(r, "std"); }
#endif

// ---------------------------------------------------------------- algorithms on one type
template<class I> static bool enc(const std::string &key, const std::string &what, const I &x, const Ball &b) {
  typedef typename I::base_type T; vh::eval();
  if (!b.ok) return true;
  if (!isempty(x) && holds<T>(x.lower(), x.upper(), b)) { vh::nontrivial(gen::bits(x.lower()) ^ vh::mix(gen::bits(x.upper())) ^ vh::hstr(key.c_str())); return true; }
  vh::fail(key, what + " gives " + istr(x) + ", the exact value is " + b.s()); return false;
}
template<class I> struct Alg {
  typedef typename I::base_type T;
  // interval Newton: every root of prod (x - root) in the box stays in one of the boxes
  template<class V> static NOIPA I poly(const std::vector<V> &c, const I &x) { I s(c.back()); for (size_t k = c.size() - 1; k-- > 0;) s = s * x + I(c[k]); return s; }
  static void newton(Rng &r, const std::string &key, int &ambient) {
    int n = 1 + r.below(5); std::vector<long> root; std::vector<long> c(1, 1); // in units of 1/1
    for (int k = 0; k < n; ++k) { long q = r.range(-12, 12); root.push_back(q); std::vector<long> d(c.size() + 1, 0); for (size_t j = 0; j < c.size(); ++j) { d[j + 1] += c[j]; d[j] -= q * c[j]; } c = d; }
    std::vector<T> cf(c.begin(), c.end()), df; for (size_t j = 1; j < c.size(); ++j) df.push_back(T((long)j * c[j]));
    std::vector<I> work(1, I(-13 - (T)r.below(3), 13 + T(r.below(9)) / 8)), done;
    int steps = 0;
    std::fesetround(ambient);
    while (!work.empty() && steps++ < 300) {
      I x = work.back(); work.pop_back();
      if (isempty(x)) continue;
      if (width(x) <= std::ldexp(norm(x) + T(0.01), -12 - (int)(key.size() % 5)) || steps > 220) { done.push_back(x); continue; }
      I fx = poly(cf, x); if (!zero_in(fx)) continue;
      T m = median(x); I fm = poly(cf, I(m)), dx = poly(df, x); bool b = false;
      if (zero_in(fm) && zero_in(dx)) { std::pair<I, I> s = bisect(x); work.push_back(s.first); work.push_back(s.second); continue; } // the quotient of a zero by a zero slope could be anything
      I q1 = il::division_part1(fm, dx, b), p1 = intersect(I(m) - q1, x), p2 = I::empty();
      if (b) { I q2 = il::division_part2(fm, dx, b); p2 = intersect(I(m) - q2, x); }
      I h = hull(p1, p2);
      if (isempty(h)) continue;
      if (!b && width(p1) < width(x) * T(0.7)) work.push_back(p1);
      else if (b && (width(p1) + width(p2)) < width(x) * T(0.9)) { work.push_back(p1); work.push_back(p2); }
      else { std::pair<I, I> s = bisect(h); work.push_back(s.first); work.push_back(s.second); }
    }
    int a = std::fegetround(); std::fesetround(FE_TONEAREST);
    if (a != ambient) vh::fail("mode/" + key, "interval Newton changed the rounding mode");
    done.insert(done.end(), work.begin(), work.end());
    for (long q : root) {
      bool found = false; vh::eval(); for (const I &x : done) if (!isempty(x) && x.lower() <= T(q) && T(q) <= x.upper()) found = true;
      if (!found) { std::string s; for (long z : root) s += vh::fmt("%ld ", z); vh::fail(key, "interval Newton lost the root " + vh::fmt("%ld", q) + " of the polynomial with roots " + s); }
      vh::nontrivial(vh::hstr(key.c_str()) ^ q * 31 ^ vh::mix(r.next()));
    }
    vh::count("roots followed", root.size());
  }
  static void dot(Rng &r, const std::string &key, int &ambient) { // long sums of products, protected or in one rounding scope
    typedef typename il::unprotect<I>::type U;
    int n = 1 + r.below(r.chance(1, 8) ? 400 : 40); std::vector<I> a, b; Ball s(0.0L); T scale = std::ldexp(T(1), r.range(-30, 30));
    for (int k = 0; k < n; ++k) { T p = gen::mant<T>(r) * scale * (r.chance(1, 2) ? 1 : -1), q = std::ldexp(gen::mant<T>(r), r.range(-20, 20)) * (r.chance(1, 2) ? 1 : -1);
      a.push_back(I(p)); b.push_back(r.chance(1, 2) ? I(q) : I(gen::down(q), gen::up(q))); s = b_add(s, b_mul(Ball((long double)p), Ball((long double)q))); }
    std::fesetround(ambient);
    I res(T(0));
    if (r.chance(1, 2)) { for (int k = 0; k < n; ++k) res += a[k] * b[k]; }
    else { typename I::traits_type::rounding rnd; (void)rnd; U u(T(0)); for (int k = 0; k < n; ++k) { U x = a[k], y = b[k]; u += x * y; } res = u; }
    int m = std::fegetround(); std::fesetround(FE_TONEAREST);
    if (m != ambient) vh::fail("mode/" + key, "a sum of products changed the rounding mode");
    enc(key, vh::fmt("dot product of %d terms", n), res, s);
  }
  static void horner(Rng &r, const std::string &key, int &ambient) {
    int n = 1 + r.below(20); std::vector<T> c; for (int k = 0; k < n; ++k) c.push_back(std::ldexp(gen::mant<T>(r), r.range(-6, 6)) * (r.chance(1, 2) ? 1 : -1));
    T a = std::ldexp(gen::mant<T>(r), r.range(-3, 2)) * (r.chance(1, 2) ? 1 : -1), b = a; for (int k = r.below(6); k > 0; --k) b = gen::up(b);
    T p = r.chance(1, 2) ? a : b; Ball s(0.0L), bp((long double)p); for (int k = n - 1; k >= 0; --k) s = b_add(b_mul(s, bp), Ball((long double)c[k]));
    I x(a, b), v(T(0)), w(T(0)); std::fesetround(ambient);
    v = poly(c, x);
    for (int k = 0; k < n; ++k) w += pow(x, k) * c[k];
    std::fesetround(FE_TONEAREST);
    enc(key, vh::fmt("Horner's scheme of degree %d", n - 1), v, s); enc(key + " powers", vh::fmt("sum of powers of degree %d", n - 1), w, s);
    I both = intersect(v, w); enc(key + " intersection", "intersection of two evaluations", both, s);
  }
  static void logistic(Rng &r, const std::string &key, int &ambient) {
    T a = T(r.range(2048, 4096)) / 1024, p = T(r.below(1024) + 1) / 1026; I x(p), mu(a); Ball s((long double)p), one(1.0L), ba((long double)a);
    int n = 5 + r.below(60);
    for (int k = 0; k < n; ++k) {
      std::fesetround(ambient); x = mu * x * (T(1) - x); std::fesetround(FE_TONEAREST); s = b_mul(b_mul(ba, s), b_sub(one, s));
      if (!enc(key, vh::fmt("logistic map, step %d of a=%s", k, gen::str(a).c_str()), x, s)) return;
      if (!(width(x) < T(4))) break;
    }
  }
  static void solve(Rng &r, const std::string &key, int &ambient) { // Gaussian elimination; the shadow runs the same steps
    enum { N = 4 }; int n = 2 + r.below(N - 1); I A[N][N + 1]; Ball S[N][N + 1];
    for (int i = 0; i < n; ++i) for (int j = 0; j <= n; ++j) { T v = i == j ? T(r.range(8, 40)) : T(r.range(-20, 20)) / 7; T u = gen::up(v); bool w = r.chance(1, 2); A[i][j] = w ? I(v, u) : I(v); S[i][j] = Ball((long double)(w && r.chance(1, 2) ? u : v)); }
    std::fesetround(ambient);
    for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) if (i != k) {
      I f = A[i][k] / A[k][k]; for (int j = k; j <= n; ++j) A[i][j] -= f * A[k][j];
      Near nr; Ball g = b_div(S[i][k], S[k][k]); for (int j = k; j <= n; ++j) S[i][j] = b_sub(S[i][j], b_mul(g, S[k][j]));
    }
    I x[N]; for (int i = 0; i < n; ++i) x[i] = A[i][n] / A[i][i];
    int m = std::fegetround(); std::fesetround(FE_TONEAREST);
    if (m != ambient) vh::fail("mode/" + key, "elimination changed the rounding mode");
    for (int i = 0; i < n; ++i) enc(key, vh::fmt("unknown %d of %d", i, n), x[i], b_div(S[i][n], S[i][i]));
  }
  static void series(Rng &r, const std::string &key, int &ambient) { // e and pi from series, with a rigorous remainder
    int n = 10 + r.below(40); std::fesetround(ambient);
    I e(T(1)), term(T(1)); for (int k = 1; k < n; ++k) { term /= T(k); e += term; }
    e += term * I(T(0), T(2)) / T(n);
    I pi4(T(0)); for (int q = 0; q < 2; ++q) { T d = q ? 239 : 5; I x = T(1) / I(d), x2 = square(x), p = x, s(T(0)); int m = n < 25 ? 25 : n;
      for (int k = 0; k < m; ++k) { I t = p / T(2 * k + 1); if (k % 2) s -= t; else s += t; p *= x2; } s += p * I(T(-1), T(1)); if (q) pi4 -= s; else pi4 += s * T(4); }
    std::fesetround(FE_TONEAREST);
    Ball be, bp; be.ok = bp.ok = true; Q one; mpfr_set_ui(one.v, 1, MPFR_RNDN); mpfr_exp(be.lo.v, one.v, MPFR_RNDD); mpfr_exp(be.hi.v, one.v, MPFR_RNDU); mpfr_const_pi(bp.lo.v, MPFR_RNDD); mpfr_const_pi(bp.hi.v, MPFR_RNDU);
    enc(key + " e", vh::fmt("series of %d terms for e", n), e, be); enc(key + " pi", "Machin's formula", pi4 * T(4), bp);
    I d = pi4 * T(4) - il::pi<I>(); vh::eval(); if (!zero_in(d)) vh::fail(key + " pi", "Machin's formula and the constant pi disagree: " + istr(d));
  }
  static void continued(Rng &r, const std::string &key, int &ambient) { // continued fractions with large and small quotients
    int n = 1 + r.below(40); std::vector<T> q; for (int k = 0; k < n; ++k) q.push_back(T(1 + (int)r.below(r.chance(1, 4) ? 100000 : 5)));
    std::fesetround(ambient); I x(q[n - 1]); for (int k = n - 2; k >= 0; --k) x = r.chance(1, 2) ? q[k] + T(1) / x : I(q[k]) + il::multiplicative_inverse(x); std::fesetround(FE_TONEAREST);
    Ball s((long double)q[n - 1]); for (int k = n - 2; k >= 0; --k) s = b_add(Ball((long double)q[k]), b_div(Ball(1.0L), s));
    enc(key, vh::fmt("continued fraction of %d terms", n), x, s);
  }
  static void go(Rng &r, const char *pol) {
    std::string p = std::string(pol) + "/" + gen::Tn<T>::name(); int ambient = MODES[r.below(4)];
    switch (r.below(8)) { case 0: newton(r, "newton/" + p, ambient); break; case 1: dot(r, "dot product/" + p, ambient); break; case 2: horner(r, "horner/" + p, ambient); break;
      case 3: logistic(r, "logistic map/" + p, ambient); break; case 4: solve(r, "elimination/" + p, ambient); break; case 5: series(r, "series/" + p, ambient); break; case 6: continued(r, "continued fraction/" + p, ambient); break;
      default: newton(r, "newton/" + p, ambient); }
    vh::count("algorithms");
  }
};
template<int P> static void algs(Rng &r, const char *n) { switch (r.below(3)) { case 0: Alg<typename Pol<P, float>::I>::go(r, n); break; case 1: Alg<typename Pol<P, double>::I>::go(r, n); break; default: Alg<typename Pol<P, long double>::I>::go(r, n); } }
#if TSEL & 4
VH_GROUP(a, "algorithms", 40000, 1000000) { (void)idx; algs<0>(r, "opp"); }
#endif
#if TSEL & 8
VH_GROUP(a2, "std algorithms", 20000, 500000) { (void)idx; algs<2>(r, "std"); }
#endif
