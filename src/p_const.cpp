// P18: constants and numeric limits.
#include "mp.hpp"
#include "lib.hpp"
#include <boost/numeric/interval/limits.hpp>
#include "tr.hpp"
#include <boost/rational.hpp>
using gen::B; using mp::M;

// constants read during static initialisation, before main, in another mode
struct Early {
  float f[6]; double d[6]; long double l[6]; int m;
  template<class T> static void get(T *p) {
    typedef bn::interval<T> I; I a = il::pi<I>(), b = il::pi_half<I>(), c = il::pi_twice<I>();
    p[0] = a.lower(); p[1] = a.upper(); p[2] = b.lower(); p[3] = b.upper(); p[4] = c.lower(); p[5] = c.upper();
  }
  explicit Early(int mode) : m(mode) { int s = std::fegetround(); std::fesetround(mode); get(f); get(d); get(l); std::fesetround(s); }
};
__attribute__((init_priority(150))) static Early early_up(FE_UPWARD);
__attribute__((init_priority(151))) static Early early_down(FE_DOWNWARD);
static Early early_near(FE_TONEAREST), early_zero(FE_TOWARDZERO);

static const mpfr_prec_t HP = 400;
struct Pi : M { explicit Pi(int e, mpfr_rnd_t r) : M(HP) { mpfr_const_pi(v, r); mpfr_mul_2si(v, v, e, r); } };

template<class T> static void tightest(const std::string &what, T l, T u, int e) {
  vh::eval(); vh::nontrivial(vh::hstr(what.c_str()));
  Pi lo(e, MPFR_RNDD), hi(e, MPFR_RNDU);
  M a(HP), b(HP);
  if (sizeof(T) <= 8) {
    T bl = mp::rd<T>(lo), bu = mp::ru<T>(hi);
    if (!(l == bl && u == bu)) vh::fail(what, what + " = " + B<T>{l, u}.s() + ", the tightest is " + B<T>{bl, bu}.s());
  } else { // long double: at least as good as double
    bool in = M(l) < lo && M(u) > hi;
    double dl = mp::rd<double>(lo), du = mp::ru<double>(hi);
    if (!in || l < dl || u > du) vh::fail(what, what + " = " + B<T>{l, u}.s() + " does not contain the constant within double precision");
  }
}
template<class I> static void consts(const char *tag) {
  typedef typename I::base_type T;
  const int modes[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
  for (int m : modes) {
    std::fesetround(m);
    I a = il::pi<I>(), b = il::pi_half<I>(), c = il::pi_twice<I>();
    int k = std::fegetround();
    std::fesetround(FE_TONEAREST);
    std::string s = std::string(tag) + vh::fmt("/mode %d", m);
    if (k != m) vh::fail("mode " + s, "the rounding mode was changed by a constant");
    tightest<T>("pi " + s, a.lower(), a.upper(), 0);
    tightest<T>("pi_half " + s, b.lower(), b.upper(), -1);
    tightest<T>("pi_twice " + s, c.lower(), c.upper(), 1);
    // doubling and halving relate the three
    vh::eval();
    if (!(a.lower() * 2 == c.lower() && a.upper() * 2 == c.upper() && b.lower() * 2 == a.lower() && b.upper() * 2 == a.upper())) vh::fail("related " + s, "the three constants are not multiples of each other");
    vh::sample("pi " + s + " = " + B<T>{a.lower(), a.upper()}.s());
  }
}
template<class I> static void integral_consts(const char *tag) {
  typedef typename I::base_type T;
  I a = il::pi<I>(), b = il::pi_half<I>(), c = il::pi_twice<I>();
  vh::eval(3); vh::nontrivial(vh::hstr(tag));
  if (!(a.lower() == T(3) && a.upper() == T(4))) vh::fail(std::string("pi/") + tag, std::string("pi of ") + tag + " is not [3,4]");
  if (!(b.lower() == T(1) && b.upper() == T(2))) vh::fail(std::string("pi_half/") + tag, std::string("pi_half of ") + tag + " is not [1,2]");
  if (!(c.lower() == T(6) && c.upper() == T(7))) vh::fail(std::string("pi_twice/") + tag, std::string("pi_twice of ") + tag + " is not [6,7]");
}
struct Num { // a user type with a numeric_limits specialisation of its own
  int v; Num(int x = 0) : v(x) {}
};
inline bool operator<(Num a, Num b) { return a.v < b.v; } inline bool operator>(Num a, Num b) { return a.v > b.v; }
inline bool operator<=(Num a, Num b) { return a.v <= b.v; } inline bool operator>=(Num a, Num b) { return a.v >= b.v; }
inline bool operator==(Num a, Num b) { return a.v == b.v; } inline bool operator!=(Num a, Num b) { return a.v != b.v; }
inline Num operator-(Num a) { return Num(-a.v); }
namespace std { template<> class numeric_limits<Num> : public numeric_limits<int> { public:
  static const bool is_specialized = true, has_infinity = true, has_quiet_NaN = false, is_iec559 = true; static const int digits = 17;
  static const float_round_style round_style = round_to_nearest;
  static Num min() { return Num(-99); } static Num max() { return Num(99); } static Num epsilon() { return Num(7); } static Num denorm_min() { return Num(3); }
  static Num infinity() { return Num(1000); } static Num quiet_NaN() { return Num(77777); }
  static Num signaling_NaN() { return Num(77778); } }; }
struct NumChk { static Num pos_inf() { return Num(1000); } static Num neg_inf() { return Num(-1000); } static Num nan() { return Num(77777); } static bool is_nan(Num a) { return a.v > 70000; }
  static Num empty_lower() { return Num(5); } static Num empty_upper() { return Num(-5); } static bool is_empty(Num l, Num u) { return l.v == 5 && u.v == -5; } };

template<class I> static bool single(const I &x, const typename I::base_type &v) { return x.lower() == v && x.upper() == v; }
#define EQ(M_) do { vh::eval(); if (!(L::M_ == (decltype(L::M_))K::M_)) vh::fail(std::string("trait " #M_ "/") + tag, std::string("numeric_limits of interval of ") + tag + ": " #M_ " differs from the base type"); } while (0)
template<class I> static void traits(const char *tag) {
  typedef typename I::base_type T; typedef std::numeric_limits<I> L; typedef std::numeric_limits<T> K;
  EQ(is_specialized); EQ(digits); EQ(digits10); EQ(is_signed); EQ(is_integer); EQ(is_exact); EQ(radix); EQ(min_exponent); EQ(min_exponent10); EQ(max_exponent); EQ(max_exponent10);
  EQ(has_infinity); EQ(has_quiet_NaN); EQ(has_signaling_NaN); EQ(is_bounded); EQ(is_modulo); EQ(traps); EQ(tinyness_before); EQ(has_denorm_loss); EQ(has_denorm); EQ(max_digits10);
  vh::eval(2);
  if (L::is_iec559) vh::fail(std::string("iec559/") + tag, "an interval type claims to be IEC 559");
  if (L::round_style != std::round_indeterminate) vh::fail(std::string("round_style/") + tag, "the rounding style of an interval type is not indeterminate");
}
template<class I> static void limits(const char *tag, bool nans) {
  typedef typename I::base_type T; typedef std::numeric_limits<I> L; typedef std::numeric_limits<T> K;
  const int modes[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
  for (int m : modes) {
    std::fesetround(m);
    I mn = (L::min)(), mx = (L::max)(), ep = L::epsilon(), dm = L::denorm_min(), in = L::infinity();
    std::fesetround(FE_TONEAREST);
    vh::eval(5); vh::nontrivial(vh::hstr(tag) ^ m);
    std::string s = std::string("/") + tag;
    if (!single<I>(mn, (K::min)())) vh::fail("min" + s, "numeric_limits::min is not the singleton of the base type");
    if (!single<I>(mx, (K::max)())) vh::fail("max" + s, "numeric_limits::max is not the singleton of the base type");
    if (!single<I>(ep, K::epsilon())) vh::fail("epsilon" + s, "numeric_limits::epsilon is not the singleton of the base type");
    if (!single<I>(dm, K::denorm_min())) vh::fail("denorm_min" + s, "numeric_limits::denorm_min is not the singleton of the base type");
    I w = I::whole();
    if (!(in.lower() == w.lower() && in.upper() == w.upper())) vh::fail("infinity" + s, "numeric_limits::infinity is not the whole line");
    if (nans) {
      vh::eval(2);
      std::fesetround(m);
      I q = L::quiet_NaN(), g = L::signaling_NaN();
      std::fesetround(FE_TONEAREST);
      if (!empty(q)) vh::fail("quiet_NaN" + s, "numeric_limits::quiet_NaN is not empty");
      if (!empty(g)) vh::fail("signaling_NaN" + s, "numeric_limits::signaling_NaN is not empty");
    }
  }
  traits<I>(tag);
}
// the bounds of the base type reach the limits of its interval type exactly
template<class T> static void flt(const char *tag) {
  typedef typename Types<T>::S S; typedef typename Types<T>::B Bt;
  typedef bn::interval<T, il::policies<tr::Rnd<T>, il::checking_base<T> > > Tr;
  typedef bn::interval<T, il::policies<il::save_state<il::rounded_transc_std<T> >, il::checking_no_nan<T, il::checking_base<T> > > > St;
  typedef typename il::unprotect<S>::type Un;
  consts<S>(tag); consts<Bt>((std::string(tag) + " base").c_str()); consts<Tr>((std::string(tag) + " tr").c_str()); consts<St>((std::string(tag) + " std").c_str()); consts<Un>((std::string(tag) + " unprotected").c_str());
  limits<Bt>((std::string(tag) + " base").c_str(), true); limits<Tr>((std::string(tag) + " tr").c_str(), true); limits<S>(tag, false); limits<Un>((std::string(tag) + " unprotected").c_str(), false);
  traits<St>(tag);
  // infinity and the NaNs are the sets of reals they stand for
  vh::eval(3);
  Bt in = std::numeric_limits<Bt>::infinity();
  if (!(in.lower() == -gen::inf<T>() && in.upper() == gen::inf<T>())) vh::fail(std::string("infinity/") + tag, "numeric_limits::infinity of an interval is " + istr(in));
  // a policy that forbids empties raises its exception, which reaches the caller
  for (int k = 0; k < 2; ++k) {
    bool thrown = false;
    vh::op(k ? "numeric_limits::signaling_NaN" : "numeric_limits::quiet_NaN");
    typedef bn::interval<T, il::policies<il::rounded_math<T>, il::checking_no_empty<T> > > Q;
    try { Q q = k ? std::numeric_limits<Q>::signaling_NaN() : std::numeric_limits<Q>::quiet_NaN(); (void)q; }
    catch (const std::runtime_error &) { thrown = true; }
    if (!thrown) vh::fail(std::string(k ? "signaling_NaN strict/" : "quiet_NaN strict/") + tag, "the NaN of an interval type without empties raised no exception");
    if (std::fegetround() != FE_TONEAREST) vh::fail(std::string("NaN mode/") + tag, "rounding mode lost");
  }
  vh::op("");
}
VH_GROUP(early, "static initialisation", 1, 1) {
  (void)r; (void)idx;
  const Early *e[] = {&early_up, &early_down, &early_near, &early_zero};
  for (int k = 0; k < 4; ++k) {
    std::string s = vh::fmt("before main, mode %d", e[k]->m);
    for (int j = 0; j < 3; ++j) {
      int ex = j == 0 ? 0 : j == 1 ? -1 : 1;
      static const char *n[] = {"pi ", "pi_half ", "pi_twice "};
      tightest<float>(n[j] + s + " float", e[k]->f[2 * j], e[k]->f[2 * j + 1], ex);
      tightest<double>(n[j] + s + " double", e[k]->d[2 * j], e[k]->d[2 * j + 1], ex);
      tightest<long double>(n[j] + s + " ldouble", e[k]->l[2 * j], e[k]->l[2 * j + 1], ex);
    }
  }
}

VH_GROUP(f, "float", 1, 1) { (void)r; (void)idx; flt<float>("float"); }
VH_GROUP(d, "double", 1, 1) { (void)r; (void)idx; flt<double>("double"); }
VH_GROUP(l, "long d", 1, 1) { (void)r; (void)idx; flt<long double>("long double"); }
VH_GROUP(o, "other types", 1, 1) {
  (void)r; (void)idx;
  integral_consts<bn::interval<int> >("int"); integral_consts<bn::interval<short> >("short"); integral_consts<bn::interval<long long> >("long long");
  integral_consts<bn::interval<boost::rational<int> > >("rational<int>"); integral_consts<bn::interval<boost::rational<long long> > >("rational<long long>");
  typedef bn::interval<Num, il::policies<il::rounded_math<Num>, NumChk> > N;
  integral_consts<N>("user type");
  limits<N>("user type", false);
  vh::eval(2);
  N q = std::numeric_limits<N>::quiet_NaN(), g = std::numeric_limits<N>::signaling_NaN(), in = std::numeric_limits<N>::infinity();
  if (!(q.lower() == NumChk::empty_lower() && q.upper() == NumChk::empty_upper())) vh::fail("quiet_NaN/user type", "quiet_NaN is not the empty interval of the checking policy");
  if (!(g.lower() == NumChk::empty_lower() && g.upper() == NumChk::empty_upper())) vh::fail("signaling_NaN/user type", "signaling_NaN is not the empty interval of the checking policy");
  if (!(in.lower() == NumChk::neg_inf() && in.upper() == NumChk::pos_inf())) vh::fail("infinity/user type", "infinity is not the whole line of the checking policy");
  traits<bn::interval<int> >("int"); traits<bn::interval<unsigned char> >("unsigned char"); traits<bn::interval<long long> >("long long");
  typedef bn::interval<int, il::policies<il::rounded_math<int>, il::checking_base<int> > > NI;
  typedef std::numeric_limits<NI> L; typedef std::numeric_limits<int> K;
  vh::eval(4);
  if (!single<NI>((L::min)(), (K::min)()) || !single<NI>((L::max)(), (K::max)()) || !single<NI>(L::epsilon(), 0) || !single<NI>(L::denorm_min(), 0)) vh::fail("limits/int", "numeric_limits of interval<int> are not the singletons of the base type");
  if (!empty(L::quiet_NaN())) vh::fail("quiet_NaN/int", "quiet_NaN of interval<int> is not empty");
}
