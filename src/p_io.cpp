// P23: stream output.  The expected text is put together from the bounds, each
// printed alone by another stream of the same format.
#include "lib.hpp"
#include <boost/numeric/interval/io.hpp>
#include <boost/rational.hpp>
#include <sstream>
#include <iomanip>
#include <locale>
#include <iostream>
using vh::Rng;

// a buffer that takes a number of characters, then fails or throws
template<class C, class Tr> struct Lim : std::basic_streambuf<C, Tr> {
  std::basic_string<C, Tr> got; long left; bool thr; int syncs = 0;
  Lim(long n, bool t) : left(n), thr(t) {}
  typedef typename Tr::int_type It;
  It overflow(It c) override { if (left == 0) { if (thr) throw std::runtime_error("buffer"); return Tr::eof(); } --left; got.push_back(Tr::to_char_type(c)); return c; }
  int sync() override { ++syncs; return 0; }
};
template<class C> struct Punct : std::numpunct<C> {
  int k; explicit Punct(int k_) : std::numpunct<C>(std::size_t(0)), k(k_) {}
  C do_decimal_point() const override { return k & 1 ? C(',') : C('.'); }
  C do_thousands_sep() const override { return k & 1 ? C('.') : C('\''); }
  std::string do_grouping() const override { return k & 2 ? "\3" : k & 4 ? "\1\2" : ""; }
};
struct Traits2 : std::char_traits<char> {};   // another class of streams

// a number type with its own output, sensitive to the stream it gets
static const int SLOT = std::ios_base::xalloc();
struct Un { double v; Un(double x = 0) : v(x) {} };
static bool operator<(Un a, Un b) { return a.v < b.v; } static bool operator<=(Un a, Un b) { return a.v <= b.v; } static bool operator>(Un a, Un b) { return a.v > b.v; } static bool operator>=(Un a, Un b) { return a.v >= b.v; } static bool operator==(Un a, Un b) { return a.v == b.v; } static bool operator!=(Un a, Un b) { return a.v != b.v; }
static Un operator-(Un a) { return Un(-a.v); }
template<class C, class Tr> std::basic_ostream<C, Tr> &operator<<(std::basic_ostream<C, Tr> &o, const Un &u) {
  if (u.v == 7.25) throw std::out_of_range("unprintable");
  switch (o.iword(SLOT)) { case 1: return o << 'u' << o.widen('<') << u.v << '>'; case 2: { typename std::basic_ostream<C, Tr>::sentry s(o); if (s) { auto w = o.width(0); o << "<" << u.v << ">"; (void)w; } return o; } default: return o << u.v; }
}
struct UnChk { static Un pos_inf() { return HUGE_VAL; } static Un neg_inf() { return -HUGE_VAL; } static Un nan() { return Un(std::nan("")); } static bool is_nan(Un x) { return x.v != x.v; } static Un empty_lower() { return 99; } static Un empty_upper() { return 11; } static bool is_empty(Un a, Un b) { return a.v == 99 && b.v == 11; } };
struct UnRnd { typedef UnRnd unprotected_rounding; };
typedef bn::interval<Un, il::policies<UnRnd, UnChk> > IUn;

template<class C, class Tr> static void format(Rng &r, std::basic_ostream<C, Tr> &o, int &width) {
  typedef std::ios_base I;
  if (r.chance(1, 2)) o.precision(r.chance(1, 8) ? r.range(20, 60) : r.range(0, 19));
  switch (r.below(6)) { case 0: o.setf(I::fixed, I::floatfield); break; case 1: o.setf(I::scientific, I::floatfield); break; case 2: o.setf(I::fixed | I::scientific, I::floatfield); break; default: break; }
  switch (r.below(6)) { case 0: o.setf(I::hex, I::basefield); break; case 1: o.setf(I::oct, I::basefield); break; default: break; }
  switch (r.below(5)) { case 0: o.setf(I::left, I::adjustfield); break; case 1: o.setf(I::right, I::adjustfield); break; case 2: o.setf(I::internal, I::adjustfield); break; default: break; }
  const I::fmtflags fl[] = {I::showpos, I::showpoint, I::showbase, I::uppercase, I::boolalpha, I::skipws, I::unitbuf}; for (auto f : fl) if (r.chance(1, 4)) { if (r.chance(3, 4)) o.setf(f); else o.unsetf(f); }
  if (r.chance(1, 4)) o.imbue(std::locale(o.getloc(), new Punct<C>(r.below(8))));
  if (std::is_same<Tr, Traits2>::value) o.imbue(std::locale(o.getloc(), new std::num_put<char, std::ostreambuf_iterator<char, Traits2> >));
  o.iword(SLOT) = r.below(3);
  o.fill(C('*')); width = r.chance(1, 3) ? (int)r.below(30) : 0; o.width(width);
}
template<class C, class Tr> static std::string nar(const std::basic_string<C, Tr> &s) { std::string z; for (C c : s) z += (unsigned long)c < 127 && c > 0 ? (char)c : '?'; return z.size() > 300 ? z.substr(0, 300) : z; }
template<class C, class Tr> static std::basic_string<C, Tr> nostar(const std::basic_string<C, Tr> &s) { std::basic_string<C, Tr> z; for (C c : s) if (c != C('*')) z.push_back(c); return z; }
// what one number looks like under the format of o
template<class C, class Tr, class T> static std::basic_string<C, Tr> alone(std::basic_ostream<C, Tr> &o, const T &v) { std::basic_ostringstream<C, Tr> s; s.copyfmt(o); s.exceptions(std::ios_base::goodbit); s.width(0); s << v; return s.str(); }

template<class C, class Tr, class I> static void show(Rng &r, const char *cls, const I &x, bool em, bool prints = true) {
  typedef std::basic_string<C, Tr> S; typedef std::basic_ostringstream<C, Tr> O; std::string k = cls;
  O o; int w; format(r, o, w); const O &co = o;
  static const int M[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; const int mode = r.chance(1, 4) ? M[r.below(4)] : FE_TONEAREST;
  std::fesetround(mode);
  S want; if (em) want = S{C('['), C(']')}; else if (prints) want = S(1, C('[')) + alone(o, x.lower()) + S(1, C(',')) + alone(o, x.upper()) + S(1, C(']'));
  const auto fl = o.flags(); const auto pr = o.precision(); const auto lc = o.getloc(); const long iw = o.iword(SLOT); const I before = x;
  vh::eval(); vh::count(k + (em ? " empty" : "")); vh::nontrivial(vh::hstr(nar(want).c_str()) ^ vh::hstr(cls) ^ vh::mix(fl) ^ vh::mix(w * 31));
  if (!prints) { // the output of a bound throws: it passes through
    bool got = false; o.exceptions(std::ios_base::goodbit); try { o << x; } catch (std::out_of_range &) { got = true; }
    if (!got) vh::fail("stream/exception/" + k, "an exception of the output of a bound did not come out"); std::fesetround(FE_TONEAREST); return;
  }
  std::basic_ostream<C, Tr> &base = o; std::basic_ostream<C, Tr> *ret = &(base << x);
  if (ret != &base) vh::fail("stream/return/" + k, "another stream was returned");
  S got = o.str();
  if (w == 0 ? got != want : nostar(got) != nostar(want)) vh::fail("stream/text/" + k, "printed \"" + nar(got) + "\", the bounds print \"" + nar(want) + "\"" + vh::fmt(" width %d flags %lx precision %ld", w, (unsigned long)fl, (long)pr));
  if (o.flags() != fl || o.precision() != pr || co.fill() != C('*') || !(o.getloc() == lc) || o.iword(SLOT) != iw) vh::fail("stream/format/" + k, "the format of the stream changed, printing " + nar(want));
  if (o.width() != 0) vh::fail("stream/width/" + k, "the field width stayed");
  if (!o.good()) vh::fail("stream/state/" + k, "the stream is not good after printing " + nar(want));
  if (std::fegetround() != mode) vh::fail("stream/mode/" + k, "the rounding mode changed");
  // again behind other output, and twice in a chain
  { O p; p.copyfmt(o); p << C('A') << x << C('B') << x; S t = S(1, C('A')) + want + S(1, C('B')) + want; if (p.str() != t) vh::fail("stream/chain/" + k, "a chain printed \"" + nar(p.str()) + "\""); }
  // a full buffer: what was delivered is right, and the error shows
  { const long n = want.size() ? (long)r.below(want.size() + 2) : 0; const bool thr = r.chance(1, 4), exc = r.chance(1, 3); Lim<C, Tr> b(n, thr); std::basic_ostream<C, Tr> p(&b); p.copyfmt(o); p.exceptions(std::ios_base::goodbit); if (exc) p.exceptions(std::ios_base::badbit);
    bool thrown = false; try { p << x; } catch (...) { thrown = true; }
    vh::count(n < (long)want.size() ? "full buffers" : "buffers that suffice");
    if (b.got != want.substr(0, n)) vh::fail("stream/prefix/" + k, vh::fmt("with room for %ld characters the buffer got \"", n) + nar(b.got) + "\" of \"" + nar(want) + "\"");
    if (n < (long)want.size()) { if (!p.bad()) vh::fail("stream/error/" + k, "a write error left the stream good, printing " + nar(want)); if (exc && !thrown) vh::fail("stream/errorexc/" + k, "a write error was not thrown although the stream asks for it"); if (!exc && thrown) vh::fail("stream/errorexc/" + k, "a write error was thrown although the stream does not ask for it"); }
    else if (!p.good() || thrown) vh::fail("stream/error/" + k, "an error without a reason");
  }
  // a stream that is already bad or failed prints nothing and keeps its state
  { Lim<C, Tr> b(1000000, false); std::basic_ostream<C, Tr> p(&b); auto st = r.chance(1, 2) ? std::ios_base::failbit : std::ios_base::badbit; p.setstate(st); p << x; if (!b.got.empty() || !(p.rdstate() & st)) vh::fail("stream/failed/" + k, "a failed stream printed \"" + nar(b.got) + "\""); }
  // unitbuf and tie
  { Lim<C, Tr> b(1000000, false), c(1000000, false); std::basic_ostream<C, Tr> p(&b), t(&c); p.tie(&t); p << x; if (b.got.empty() || c.syncs == 0) vh::fail("stream/tie/" + k, "the tied stream was not flushed"); }
  if (!(before.lower() == x.lower() || em || x.lower() != x.lower())) vh::fail("stream/operand/" + k, "the interval changed");
  std::fesetround(FE_TONEAREST);
}
template<class I> static void every(Rng &r, const char *cls, const I &x, bool em, bool prints = true) {
  switch (r.below(4)) { case 0: show<wchar_t, std::char_traits<wchar_t> >(r, cls, x, em, prints); break; case 1: show<char, Traits2>(r, cls, x, em, prints); break; default: show<char, std::char_traits<char> >(r, cls, x, em, prints); }
}
// empty intervals with ordered bounds
template<class T> struct OrdEmpty: il::checking_base<T> { static T empty_lower() { return T(-1000.5); } static T empty_upper() { return T(1000.5); } static bool is_empty(const T &l, const T &u) { return l == empty_lower() && u == empty_upper(); } };
template<class T> static void flo(Rng &r, const char *cls) {
  typedef bn::interval<T, il::policies<il::rounded_math<T>, il::checking_base<T> > > A; typedef bn::interval<T> D; typedef bn::interval<T, il::policies<il::rounded_math<T>, il::checking_no_empty<T, il::checking_base<T> > > > NE; typedef bn::interval<T, il::policies<il::save_state<il::rounded_transc_std<T> >, il::checking_catch_nan<T> > > S;
  gen::B<T> b = gen::ival<T>(r); if (r.chance(1, 3)) b = gen::ord(T(r.range(-2000, 2000)) / 16, T(r.range(-2000, 2000)) / 16);
  if (r.chance(1, 12)) b.l = T(-0.0), b.u = std::fabs(b.u);
  typedef bn::interval<T, il::policies<il::rounded_math<T>, OrdEmpty<T> > > OE;
  switch (r.below(8)) {
  case 6: { const bool em = r.chance(1, 2); OE z = em ? OE::empty() : OE(b.l, b.u); every(r, cls, z, em); break; }
  case 0: every(r, cls, A::empty(), true); break;
  case 1: { T nan = std::numeric_limits<T>::quiet_NaN(); A e(r.chance(1, 2) ? nan : b.l, nan, true); every(r, cls, e, true); break; }
  case 2: { D z(b.l, b.u); every(r, cls, z, false); break; }
  case 3: { NE z(b.l, b.u); every(r, cls, z, false); break; }
  case 4: { S z(b.l, b.u); every(r, cls, z, false); break; }
  case 5: { typename il::unprotect<A>::type z(b.l, b.u); every(r, cls, z, false); break; }
  default: { A z(b.l, b.u); every(r, cls, z, false); }
  }
}
template<class T> static void integral(Rng &r, const char *cls) {
  long a = (long)(r.next() >> r.below(63)), b = (long)(r.next() >> r.below(63)); if (r.chance(1, 2)) a = -a; T l = (T)a, u = (T)b; if (u < l) std::swap(l, u); if (r.chance(1, 6)) u = l; if (l < T(0) && r.chance(1, 4)) u = T(0);
  if (sizeof(T) == 1) { l = T('a' + r.below(10)); u = T(l + r.below(10)); } // printed as characters
  typedef bn::interval<T> I; typedef bn::interval<T, il::policies<il::rounded_math<T>, il::checking_base<T> > > J; I x(l, u);
  every(r, cls, x, false); (void)sizeof(J);
}
VH_GROUP(floats, "floating point", 12000, 300000) { switch (idx % 3) { case 0: flo<float>(r, "float"); break; case 1: flo<double>(r, "double"); break; default: flo<long double>(r, "long double"); } }
VH_GROUP(intsg, "integers and characters", 8000, 200000) { switch (idx % 7) { case 0: integral<int>(r, "int"); break; case 1: integral<long>(r, "long"); break; case 2: integral<unsigned>(r, "unsigned"); break; case 3: integral<short>(r, "short"); break; case 4: integral<long long>(r, "long long"); break; case 5: integral<unsigned long>(r, "unsigned long"); break; default: { Rng q(r.next()); typedef bn::interval<char> I; char c = (char)('a' + q.below(9)); I x(c, (char)(c + q.below(9))); if (r.chance(1, 2)) show<char, std::char_traits<char> >(r, "char", x, false); else show<wchar_t, std::char_traits<wchar_t> >(r, "char", x, false); } } }
VH_GROUP(users, "user types", 8000, 200000) {
  (void)idx;
  if (r.chance(1, 3)) { typedef boost::rational<long> Q; typedef bn::interval<Q, il::policies<il::rounded_math<Q>, il::checking_no_empty<Q, il::checking_base<Q> > > > I; Q a(r.range(-500, 500), 1 + r.below(90)), b = a + Q(r.below(90), 1 + r.below(70)); I x(a, b); if (r.chance(1, 2)) show<char, std::char_traits<char> >(r, "rational", x, false); else show<wchar_t, std::char_traits<wchar_t> >(r, "rational", x, false); return; }
  double a = r.range(-80, 80) / 4.0, b = a + r.below(50) / 4.0; bool em = r.chance(1, 5); if (a == 99 && b == 11) em = true;
  bool pr = em || (a != 7.25 && b != 7.25); IUn x(em ? Un(99) : Un(a), em ? Un(11) : Un(b), true); every(r, "user number", x, em, pr);
}
