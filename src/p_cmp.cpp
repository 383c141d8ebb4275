// P11: comparisons implement their for-all / exists meaning.
// P12 (-DORDERS): lexicographic and set comparisons are the orders they claim to be.
#include "ops.hpp"
using vh::Rng; using gen::B;

// a user-written policy: its own empties and invalid numbers
template<class T> struct UserChecking {
  // (for double and long double they look like ordered bounds)
  static const bool ORD = std::numeric_limits<T>::digits > 30 && !std::numeric_limits<T>::is_integer;
  static T EL() { return ORD ? T(-76.53125) : T(77); } static T EU() { return ORD ? T(77.28125) : T(-76); } static T NA() { return T(-12345); }
  static T pos_inf() { return std::numeric_limits<T>::max(); }
  static T neg_inf() { return -std::numeric_limits<T>::max(); }
  static T nan() { return NA(); }
  static bool is_nan(const T &x) { return x == NA(); }
  static T empty_lower() { return EL(); }
  static T empty_upper() { return EU(); }
  static bool is_empty(const T &l, const T &u) { return l == EL() && u == EU(); }
};
template<class T> struct Pol {
  typedef bn::interval<T, il::policies<il::rounded_math<T>, il::checking_base<T> > > A;
  typedef bn::interval<T> S;                                                               // all defaults: cannot be empty
  typedef bn::interval<T, il::policies<il::rounded_math<T>, UserChecking<T> > > U;
  typedef bn::interval<T, il::policies<il::save_state_nothing<il::rounded_arith_exact<T> >, il::checking_catch_nan<T> > > C; // no rounding at all
};
template<class I> struct Trait { static const bool can_empty = true, user = false, catches = false; };
template<class T> struct Trait<bn::interval<T> > { static const bool can_empty = false, user = false, catches = true; };
template<class T> struct Trait<bn::interval<T, il::policies<il::rounded_math<T>, UserChecking<T> > > > { static const bool can_empty = true, user = true, catches = false; };
template<class T> struct Trait<bn::interval<T, il::policies<il::save_state_nothing<il::rounded_arith_exact<T> >, il::checking_catch_nan<T> > > > { static const bool can_empty = true, user = false, catches = true; };
template<class I> static I make(B<typename I::base_type> b, bool e) {
  typedef typename I::base_type T;
  if (e) return I::empty();
  I z; z = I(b.l, b.u, true); (void)T(); return z;
}
template<class T> static T bad(bool user) { return user ? UserChecking<T>::NA() : std::numeric_limits<T>::quiet_NaN(); }
template<class T> struct Nm { static std::string f(T x) { return gen::str(x); } static const char *n() { return gen::Tn<T>::name(); } };
#define NM(T, N) template<> struct Nm<T> { static std::string f(T x) { return std::to_string(x); } static const char *n() { return N; } };
NM(int, "int") NM(unsigned, "unsigned") NM(long long, "long long") NM(short, "short")
#undef NM
template<class T> static std::string bs(B<T> b, bool e) { return e ? std::string("{}") : "[" + Nm<T>::f(b.l) + "," + Nm<T>::f(b.u) + "]"; }

// the second operand is the first one itself where they are equal, every other time
static unsigned turn = 0;
template<class I, class J> static const J &share(const I &, const J &b, bool) { return b; }
template<class I> static const I &share(const I &a, const I &b, bool both_empty) {
  if (!((both_empty || (a.lower() == b.lower() && a.upper() == b.upper())) && (++turn & 1))) return b;
  vh::count("an interval compared with itself"); return a;
}
template<class I> static const typename I::base_type &share_num(const I &a, const typename I::base_type &t) {
  if ((t == a.lower() || t == a.upper()) && (++turn & 1)) { vh::count("an interval compared with its own bound"); return t == a.lower() ? a.lower() : a.upper(); }
  return t;
}
enum { LT, LE, GT, GE, EQ, NE };
static const char *ON[] = {"<", "<=", ">", ">=", "==", "!="};
template<class A, class C> static bool rel(int o, const A &x, const C &y) {
  switch (o) { case LT: return x < y; case LE: return x <= y; case GT: return x > y; case GE: return x >= y; case EQ: return x == y; default: return x != y; }
}
// truth for all / for some pair of points
template<class T> static void truth(int o, B<T> x, B<T> y, bool &all, bool &some) {
  T a[2] = {x.l, x.u}, b[2] = {y.l, y.u};
  if (o == EQ || o == NE) {
    bool over = x.l <= y.u && y.l <= x.u, single = x.l == x.u && y.l == y.u && x.l == y.l;
    all = o == EQ ? single : !over; some = o == EQ ? over : !single;
    return;
  }
  all = true; some = false;
  for (T p : a) for (T q : b) { bool v = rel(o, p, q); all &= v; some |= v; }
}
enum { TRUE_ = 1, FALSE_ = 0, IND = 2, THROW = 3, OTHER = 4 };
static const char *VN[] = {"false", "true", "indeterminate", "comparison_error", "another exception"};
#define SIX(F, NS) template<class A, class C> static NOIPA int F(int o, const A &x, const C &y) { \
  try { switch (o) { case LT: return ops::b3(NS::lt(x, y)); case LE: return ops::b3(NS::le(x, y)); case GT: return ops::b3(NS::gt(x, y)); \
    case GE: return ops::b3(NS::ge(x, y)); case EQ: return ops::b3(NS::eq(x, y)); default: return ops::b3(NS::ne(x, y)); } } \
  catch (const il::comparison_error &) { return THROW; } catch (...) { return OTHER; } }
SIX(c_def, ops::cmpdef) SIX(c_cer, ops::cmpcer) SIX(c_pos, ops::cmppos) SIX(c_tri, ops::cmptri) SIX(c_lex, ops::cmplex) SIX(c_set, ops::cmpset)
template<class A, class C> static NOIPA int c_expcer(int o, const A &x, const C &y) {
  switch (o) { case LT: return il::cerlt(x, y); case LE: return il::cerle(x, y); case GT: return il::cergt(x, y); case GE: return il::cerge(x, y); case EQ: return il::cereq(x, y); default: return il::cerne(x, y); }
}
template<class A, class C> static NOIPA int c_exppos(int o, const A &x, const C &y) {
  switch (o) { case LT: return il::poslt(x, y); case LE: return il::posle(x, y); case GT: return il::posgt(x, y); case GE: return il::posge(x, y); case EQ: return il::poseq(x, y); default: return il::posne(x, y); }
}
template<class T> static std::string descr(const char *fam, int o, const std::string &a, const std::string &b) { return std::string(fam) + "/" + Nm<T>::n() + " " + a + " " + ON[o] + " " + b; }
template<class T> static void judge(const char *fam, const char *form, int o, const std::string &a, const std::string &b, int got, int want) {
  vh::eval();
  if (got != want) vh::fail(std::string(fam) + "/" + form + "/" + ON[o] + "/" + Nm<T>::n(), descr<T>(fam, o, a, b) + " (" + form + ") gives " + VN[got] + ", should give " + VN[want]);
}
#ifndef ORDERS
template<class I, class J> static void pair(B<typename I::base_type> x, bool ex, B<typename I::base_type> y, bool ey, int badnum) {
  typedef typename I::base_type T;
  if ((ex && !Trait<I>::can_empty) || (ey && !Trait<J>::can_empty)) return;
  vh::op("comparison");
  I a = make<I>(x, ex); J b_ = make<J>(y, ey);
  T t_ = badnum ? bad<T>(Trait<I>::user) : y.l;
  bool nan = badnum && (Trait<I>::user || std::numeric_limits<T>::has_quiet_NaN) && Trait<I>::can_empty;
  std::string sx = bs(x, ex), sy = bs(y, ey), st = nan ? "invalid" : Nm<T>::f(t_);
  escape(a); escape(b_); escape(t_);
  const J &b = share(a, b_, ex && ey); const T &t = share_num(a, t_);
  for (int o = 0; o < 6; ++o) {
    bool all = false, some = false;
    if (!ex && !ey) truth<T>(o, x, y, all, some);
    int third = all ? 1 : some ? 2 : 0;
    bool e = ex || ey;
    judge<T>("default", "II", o, sx, sy, c_def(o, a, b), e || third == 2 ? THROW : third);
    judge<T>("certain", "II", o, sx, sy, c_cer(o, a, b), e ? THROW : all);
    judge<T>("possible", "II", o, sx, sy, c_pos(o, a, b), e ? THROW : some);
    judge<T>("tribool", "II", o, sx, sy, c_tri(o, a, b), e ? THROW : third);
    if (!e) { judge<T>("cer", "II", o, sx, sy, c_expcer(o, a, b), all); judge<T>("pos", "II", o, sx, sy, c_exppos(o, a, b), some);
      vh::count(third == 2 ? "uncertain" : third ? "certainly true" : "certainly false"); } else vh::count("empty operand");
    // with a number
    if (badnum && !nan) continue;
    if (nan && ex && Trait<I>::catches) continue; // both wrong: either error will do
    if (!ex && !nan) truth<T>(o, x, B<T>{t, t}, all, some);
    third = all ? 1 : some ? 2 : 0;
    e = ex || nan;
    int THROW = nan && !ex && Trait<I>::catches ? OTHER : ::THROW; // the policy's own exception
    judge<T>("default", "IT", o, sx, st, c_def(o, a, t), e || third == 2 ? THROW : third);
    judge<T>("certain", "IT", o, sx, st, c_cer(o, a, t), e ? THROW : all);
    judge<T>("possible", "IT", o, sx, st, c_pos(o, a, t), e ? THROW : some);
    judge<T>("tribool", "IT", o, sx, st, c_tri(o, a, t), e ? THROW : third);
    if (!e) {
      judge<T>("cer", "IT", o, sx, st, c_expcer(o, a, t), all); judge<T>("pos", "IT", o, sx, st, c_exppos(o, a, t), some);
      truth<T>(o, B<T>{t, t}, x, all, some);
      judge<T>("cer", "TI", o, st, sx, c_expcer(o, t, a), all); judge<T>("pos", "TI", o, st, sx, c_exppos(o, t, a), some);
    } else if (nan) vh::count("invalid number operand");
  }
}
#else
template<class T> static bool lexrel(int o, B<T> x, B<T> y) {
  int c = x.l < y.l ? -1 : x.l > y.l ? 1 : x.u < y.u ? -1 : x.u > y.u ? 1 : 0;
  return rel(o, c, 0);
}
template<class T> static bool sub(B<T> x, bool ex, B<T> y, bool ey) { return ex || (!ey && y.l <= x.l && x.u <= y.u); }
template<class T> static bool setrel(int o, B<T> x, bool ex, B<T> y, bool ey) {
  bool s = sub(x, ex, y, ey), t = sub(y, ey, x, ex);
  switch (o) { case LT: return s && !t; case LE: return s; case GT: return t && !s; case GE: return t; case EQ: return s && t; default: return !(s && t); }
}
template<class I, class J> static void pair(B<typename I::base_type> x, bool ex, B<typename I::base_type> y, bool ey, int badnum) {
  typedef typename I::base_type T;
  if ((ex && !Trait<I>::can_empty) || (ey && !Trait<J>::can_empty)) return;
  vh::op("comparison");
  I a = make<I>(x, ex); J b_ = make<J>(y, ey);
  T t_ = badnum ? bad<T>(Trait<I>::user) : y.l;
  bool nan = badnum && (Trait<I>::user || std::numeric_limits<T>::has_quiet_NaN) && Trait<I>::can_empty;
  std::string sx = bs(x, ex), sy = bs(y, ey), st = nan ? "invalid" : Nm<T>::f(t_);
  escape(a); escape(b_); escape(t_);
  const J &b = share(a, b_, ex && ey); const T &t = share_num(a, t_);
  int lex[6];
  for (int o = 0; o < 6; ++o) {
    bool e = ex || ey;
    lex[o] = c_lex(o, a, b);
    judge<T>("lexicographic", "II", o, sx, sy, lex[o], e ? (int)THROW : (int)lexrel<T>(o, x, y));
    judge<T>("set", "II", o, sx, sy, c_set(o, a, b), setrel<T>(o, x, ex, y, ey));
    if (e) vh::count("empty operand");
    if (badnum && !nan) continue;
    if (nan && ex && Trait<I>::catches) continue; // both wrong: either error will do
    e = ex || nan;
    int THROW = nan && !ex && Trait<I>::catches ? OTHER : ::THROW; // the policy's own exception
    judge<T>("lexicographic", "IT", o, sx, st, c_lex(o, a, t), e ? (int)THROW : (int)lexrel<T>(o, x, B<T>{t, t}));
    judge<T>("set", "IT", o, sx, st, c_set(o, a, t), ::THROW);
    if (nan) vh::count("invalid number operand");
  }
  if (!ex && !ey) { // the six agree with each other and with the mirrored operands
    vh::eval();
    int r[6]; for (int o = 0; o < 6; ++o) r[o] = c_lex(o, b, a);
    bool ok = lex[LT] + lex[EQ] + lex[GT] == 1 && lex[LE] == (lex[LT] | lex[EQ]) && lex[GE] == (lex[GT] | lex[EQ]) && lex[NE] == !lex[EQ]
      && r[LT] == lex[GT] && r[GT] == lex[LT] && r[LE] == lex[GE] && r[GE] == lex[LE] && r[EQ] == lex[EQ] && r[NE] == lex[NE];
    if (!ok) vh::fail(std::string("lexicographic/total/") + Nm<T>::n(), "the lexicographic operators disagree with each other on " + sx + " and " + sy);
  }
  // the named functions
  vh::eval(3);
  if (subset(a, b) != sub(x, ex, y, ey)) vh::fail(std::string("subset/") + Nm<T>::n(), "subset(" + sx + "," + sy + ") is wrong");
  if (proper_subset(a, b) != setrel<T>(LT, x, ex, y, ey)) vh::fail(std::string("proper_subset/") + Nm<T>::n(), "proper_subset(" + sx + "," + sy + ") is wrong");
  if (equal(a, b) != setrel<T>(EQ, x, ex, y, ey)) vh::fail(std::string("equal/") + Nm<T>::n(), "equal(" + sx + "," + sy + ") is wrong");
}
#endif
template<class T> static void pols(int k, B<T> x, bool ex, B<T> y, bool ey, int badnum) {
  typedef Pol<T> P;
  switch (k) {
  case 0: pair<typename P::A, typename P::A>(x, ex, y, ey, badnum); break;
  case 1: pair<typename P::S, typename P::S>(x, ex, y, ey, badnum); break;
  case 2: pair<typename P::U, typename P::U>(x, ex, y, ey, badnum); break;
  case 3: pair<typename P::A, typename P::U>(x, ex, y, ey, badnum); break;
  case 4: pair<typename P::U, typename P::A>(x, ex, y, ey, badnum); break;
  case 5: pair<typename P::S, typename P::U>(x, ex, y, ey, badnum); break;
  case 6: pair<typename P::A, typename P::S>(x, ex, y, ey, badnum); break;
  case 7: pair<typename P::C, typename P::A>(x, ex, y, ey, badnum); break;
  default: pair<typename P::C, typename P::C>(x, ex, y, ey, badnum); break;
  }
}
static const int NP = 9;
// ---- the complete table of a small grid: all pairs of intervals with bounds in -2..2 and infinities, and the empty set
template<class T> static void grid(uint64_t idx) {
  static std::vector<B<T> > v; // the empty one last
  if (v.empty()) {
    std::vector<T> p; for (int i = -2; i <= 2; ++i) p.push_back(T(i));
    if (std::numeric_limits<T>::has_infinity) { p.push_back(std::numeric_limits<T>::denorm_min()); p.push_back(-std::numeric_limits<T>::denorm_min()); }
    for (T a : p) for (T b : p) if (a <= b) v.push_back(B<T>{a, b});
    if (std::numeric_limits<T>::has_infinity) { T inf = std::numeric_limits<T>::infinity(); for (T a : p) v.push_back(B<T>{a, inf}), v.push_back(B<T>{-inf, a}); v.push_back(B<T>{-inf, inf}); v.push_back(B<T>{T(-0.0), T(0)}); }
    v.push_back(B<T>{T(0), T(0)});
  }
  size_t n = v.size();
  if (idx >= n * n) return;
  size_t i = idx / n, j = idx % n;
  for (int k = 0; k < NP; ++k) for (int b = 0; b < 2; ++b) pols<T>(k, v[i], i == n - 1, v[j], j == n - 1, b);
  vh::nontrivial(vh::mix(idx) ^ vh::hstr(Nm<T>::n()));
  vh::count("grid pairs");
}
VH_GROUP(gi, "grid int", 300, 300) { (void)r; grid<int>(idx); }
VH_GROUP(gf, "grid float", 2200, 2200) { (void)r; grid<float>(idx); }
VH_GROUP(gd, "grid double", 2200, 2200) { (void)r; grid<double>(idx); }
VH_GROUP(gl, "grid ldouble", 2200, 2200) { (void)r; grid<long double>(idx); }

template<class T> static void rnd(Rng &r) {
  B<T> x = gen::ival<T>(r), y = r.chance(1, 2) ? gen::ival<T>(r) : gen::related<T>(r, x);
  if (r.chance(1, 2)) std::swap(x, y);
  bool ex = r.chance(1, 12), ey = r.chance(1, 12);
  int m = r.below(4); static const int MODES[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
  std::fesetround(MODES[m]);
  pols<T>(r.below(NP), x, ex, y, ey, r.chance(1, 10));
  std::fesetround(FE_TONEAREST);
  vh::nontrivial(gen::hash(x) ^ vh::mix(gen::hash(y)) ^ sizeof(T) * 77);
  if (r.below(10000) == 0) vh::sample(bs(x, ex) + " with " + bs(y, ey));
}
VH_GROUP(f, "float", 300000, 6000000) { (void)idx; rnd<float>(r); }
VH_GROUP(d, "double", 300000, 6000000) { (void)idx; rnd<double>(r); }
VH_GROUP(l, "ldouble", 200000, 4000000) { (void)idx; rnd<long double>(r); }

// integers of every magnitude
template<class T> static T anyint(Rng &r, const T *near) {
  typedef std::numeric_limits<T> L;
  if (near && r.chance(1, 3)) { T v = near[r.below(2)]; switch (r.below(3)) { case 0: return v; case 1: return v < L::max() ? T(v + 1) : v; default: return v > L::min() ? T(v - 1) : v; } }
  switch (r.below(6)) {
  case 0: return T(L::max() - (T)r.below(3)); case 1: return T(L::min() + (T)r.below(3)); case 2: return T((long long)r.below(5) - (L::is_signed ? 2 : 0));
  case 3: return T(T(1) << r.below(L::digits)); case 4: return T(L::max() / 2 + (T)r.below(3)); default: return (T)r.next();
  }
}
template<class T> static void rint(Rng &r) {
  T v[4]; v[0] = anyint<T>(r, 0); v[1] = anyint<T>(r, 0); v[2] = anyint<T>(r, v); v[3] = r.chance(1, 6) ? v[2] : anyint<T>(r, v);
  for (T &t : v) if (t == UserChecking<T>::EL() || t == UserChecking<T>::EU() || t == UserChecking<T>::NA()) t = 1;
  B<T> x{std::min(v[0], v[1]), std::max(v[0], v[1])}, y{std::min(v[2], v[3]), std::max(v[2], v[3])};
  if (r.chance(1, 2)) std::swap(x, y);
  pols<T>(r.below(NP), x, r.chance(1, 20), y, r.chance(1, 20), r.chance(1, 10));
  vh::nontrivial(vh::mix((uint64_t)x.l) ^ vh::mix((uint64_t)x.u * 3) ^ vh::mix((uint64_t)y.l * 5) ^ (uint64_t)y.u ^ sizeof(T) * 77);
}
VH_GROUP(ri, "integers", 400000, 6000000) { switch (idx % 4) { case 0: rint<int>(r); break; case 1: rint<unsigned>(r); break; case 2: rint<long long>(r); break; default: rint<short>(r); } }

#ifdef ORDERS
// transitivity of chains: sorting with the operators gives a sorted sequence
template<class T> static void chain(Rng &r) {
  typedef typename Pol<T>::A I;
  std::vector<I> v;
  for (int i = 0, n = 3 + r.below(6); i < n; ++i) { B<T> b = r.chance(1, 2) || v.empty() ? gen::ival<T>(r) : gen::related<T>(r, B<T>{v.back().lower(), v.back().upper()}); v.push_back(I(b.l, b.u, true)); }
  for (size_t i = 1; i < v.size(); ++i) for (size_t j = i; j > 0 && ops::cmplex::lt(v[j], v[j - 1]); --j) std::swap(v[j], v[j - 1]);
  for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) {
    vh::eval();
    if (!ops::cmplex::le(v[i], v[j]) || !ops::cmplex::ge(v[j], v[i])) vh::fail(std::string("lexicographic/transitive/") + Nm<T>::n(), "a chain sorted with < is not sorted: " + istr(v[i]) + " and " + istr(v[j]));
  }
  vh::nontrivial(r.next());
}
VH_GROUP(ch, "chains", 60000, 1000000) { switch (idx % 3) { case 0: chain<float>(r); break; case 1: chain<double>(r); break; default: chain<long double>(r); } }
#endif
