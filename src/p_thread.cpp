// P20: threads running interval programs at the same time.
#include "ops.hpp"
#include <thread>
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <sys/wait.h>
#include <memory>
using vh::Rng;
static const int MODES[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};

// a rounding control that lets other threads run between a change of mode and
// the computation that needs it
static thread_local uint64_t yields = 0, nyield = 0;
static inline void maybe_yield() { yields = yields * 6364136223846793005ull + 1442695040888963407ull; if ((yields >> 60) == 0) { ++nyield; sched_yield(); } }
template<class T> struct YieldControl : il::rounding_control<T> {
  typedef il::rounding_control<T> Base;
  static void upward() { Base::upward(); maybe_yield(); }
  static void downward() { Base::downward(); maybe_yield(); }
  static void to_nearest() { Base::to_nearest(); maybe_yield(); }
  static void toward_zero() { Base::toward_zero(); maybe_yield(); }
  static void get_rounding_mode(typename Base::rounding_mode &m) { Base::get_rounding_mode(m); maybe_yield(); }
  static void set_rounding_mode(typename Base::rounding_mode m) { Base::set_rounding_mode(m); maybe_yield(); }
};
template<class T> struct Pol {
  typedef il::checking_base<T> CB; typedef il::checking_catch_nan<T, il::checking_no_empty<T> > CC;
  typedef bn::interval<T, il::policies<il::rounded_math<T>, CB> > Def;
  typedef bn::interval<T> Strict;
  typedef bn::interval<T, il::policies<il::rounded_math<T>, CC> > Catch;
  typedef bn::interval<T, il::policies<il::save_state<il::rounded_transc_opp<T, il::rounded_arith_opp<T, YieldControl<T> > > >, CB> > Yopp;
  typedef bn::interval<T, il::policies<il::save_state<il::rounded_transc_std<T, il::rounded_arith_std<T, YieldControl<T> > > >, CC> > Ystd;
};
struct Res { int kind, f; unsigned char b[4][16]; Res() { memset(this, 0, sizeof *this); } bool operator==(const Res &o) const { return !memcmp(this, &o, sizeof *this); } };
template<class T> static void put(Res &r, int i, T v) { if (v != v) v = std::numeric_limits<T>::quiet_NaN(); if (v == 0) v = 0; memcpy(r.b[i], &v, sizeof(T) > 10 ? 10 : sizeof(T)); if (v != v) memset(r.b[i], 0x7f, 10); }
template<class I> static Res pack(const ops::Out<I> &o) {
  Res r; r.kind = o.kind; r.f = o.f;
  if (o.kind == ops::K_I || o.kind == ops::K_II) { put(r, 0, o.a.lower()); put(r, 1, o.a.upper()); }
  if (o.kind == ops::K_II) { put(r, 2, o.b.lower()); put(r, 3, o.b.upper()); }
  if (o.kind == ops::K_N) put(r, 0, o.v);
  return r;
}
struct Step { int type, pol, op; uint64_t seed; int mode; bool bad; int shared; };
static const int NSH = 16;
// intervals read by every thread, never written after they were made
struct Shared { std::vector<std::unique_ptr<bn::interval<double, il::policies<il::rounded_math<double>, il::checking_base<double> > > > > d; };
static Shared shared;

struct Log { std::vector<Res> res; std::vector<std::string> bad; uint64_t exc = 0, yields = 0; };
template<class I, bool TR> static Res exec(const Step &s, std::string *what) {
  typedef typename I::base_type T;
  const std::vector<ops::Op<I> > &cat = ops::Cat<I, TR>::all();
  const ops::Op<I> &op = cat[s.op % cat.size()];
  Rng r(s.seed);
  std::fesetround(FE_TONEAREST); // the operands do not depend on the mode
  ops::Raw<T> q = ops::raw<T>(r, op.flags);
  if (op.flags & ops::TR) for (T *p : {&q.x.l, &q.x.u}) if (!std::isfinite((long double)*p)) *p = *p < 0 ? T(-2) : T(2);
  if (!(q.x.l <= q.x.u)) std::swap(q.x.l, q.x.u);
  ops::Args<I> a = ops::args<I>(q);
  if (s.bad) { const T nan = std::numeric_limits<T>::quiet_NaN(); if (r.chance(1, 2)) a.x = I(nan, nan, true); else a.t = nan; }
  ops::Out<I> o;
  void (*volatile f)(ops::Args<I> &, ops::Out<I> &) = op.fn;
  if (what) *what = ops::astr(op, a);
  std::fesetround(s.mode);
  ops::run<I>(f, a, o);
  return pack(o);
}
template<class T> static Res exec_t(const Step &s, std::string *w) {
  switch (s.pol) {
  case 0: return exec<typename Pol<T>::Def, false>(s, w);
  case 1: return exec<typename Pol<T>::Strict, false>(s, w);
  case 2: return exec<typename Pol<T>::Catch, false>(s, w);
  case 3: return exec<typename Pol<T>::Yopp, true>(s, w);
  default: return exec<typename Pol<T>::Ystd, true>(s, w);
  }
}
// operations on the shared intervals, by const reference only
static Res exec_shared(const Step &s) try {
  typedef bn::interval<double, il::policies<il::rounded_math<double>, il::checking_base<double> > > I;
  const I &x = *shared.d[s.shared], &y = *shared.d[s.seed % NSH];
  ops::Out<I> o; std::fesetround(s.mode);
  switch ((s.seed >> 20) % 22) {
  case 0: o = x + y; break; case 1: o = x - y; break; case 2: o = x * y; break; case 3: o = x / y; break;
  case 4: o = I(x); break; case 5: o.num(width(x)); break; case 6: o.num(median(x)); break; case 7: o = hull(x, y); break; case 8: o = intersect(x, y); break;
  case 9: o = pow(x, 3); break; case 10: o = square(x); break; case 11: o = sqrt(x); break; case 12: o.boolean(subset(x, y)); break; case 13: o = max BOOST_PREVENT_MACRO_SUBSTITUTION(x, y); break;
  case 14: o.two(bisect(x).first, bisect(x).second); break; case 15: { il::unprotect<I>::type u(x); I z; { I::traits_type::rounding rnd; z = (u * u + u) / u; (void)rnd; } o = z; break; }
  case 16: { bn::interval<float> f(x); o = I(f.lower(), f.upper(), true); break; } case 17: o = fmod(I(1, 2), il::pi<I>()); break; case 18: o = il::pi_twice<I>() * x; break;
  case 19: o.num(norm(x)); break; case 20: { using namespace il::compare::certain; o.boolean(x < y); break; } default: o = nth_root(I(1, 1 + s.shared), 3); break;
  }
  return pack(o);
} catch (const std::runtime_error &) { Res r; r.kind = ops::K_EXC; return r; }
static Res exec_any(const Step &s, std::string *w) {
  if (s.shared >= 0) { if (w) *w = vh::fmt("shared operation %llu", (unsigned long long)((s.seed >> 20) % 22)); return exec_shared(s); }
  switch (s.type) { case 0: return exec_t<float>(s, w); case 1: return exec_t<double>(s, w); default: return exec_t<long double>(s, w); }
}
static void program(const std::vector<Step> &p, Log &log) {
  int ambient = std::fegetround();
  yields = p.size() ? p[0].seed : 1; nyield = 0;
  for (size_t i = 0; i < p.size(); ++i) {
    int now = std::fegetround();
    if (now != ambient) log.bad.push_back(vh::fmt("mode %d found instead of %d between two operations (step %zu)", now, ambient, i));
    Res r = exec_any(p[i], 0);
    now = std::fegetround();
    if (now != p[i].mode) log.bad.push_back(vh::fmt("mode %d left instead of %d by step %zu", now, p[i].mode, i));
    ambient = p[i].mode;
    std::fesetround(ambient);
    if (r.kind == ops::K_EXC) log.exc++;
    log.res.push_back(r);
  }
  log.yields = nyield;
  std::fesetround(FE_TONEAREST);
}
static std::vector<Step> make_program(Rng &r, int n, int focus) {
  std::vector<Step> p;
  for (int i = 0; i < n; ++i) {
    Step s; s.type = r.below(3); s.pol = r.below(5); s.op = r.below(100000); s.seed = r.next(); s.mode = MODES[r.below(4)];
    s.bad = (s.pol == 0 || s.pol >= 2) && r.chance(1, 6); s.shared = r.chance(1, 4) ? (int)r.below(NSH) : -1;
    if (focus >= 0 && r.chance(3, 4)) { s.shared = -1; s.pol = focus % 5; s.type = focus / 5 % 3; }
    if (s.pol == 1) s.bad = false; // outside the contract of the strict policy
    p.push_back(s);
  }
  return p;
}
static void warm_catalogue() { // the harness's own tables, not the library
  gen::specials<float>(); gen::specials<double>(); gen::specials<long double>();
  ops::Cat<Pol<float>::Def, false>::all(); ops::Cat<Pol<float>::Strict, false>::all(); ops::Cat<Pol<float>::Catch, false>::all(); ops::Cat<Pol<float>::Yopp, true>::all(); ops::Cat<Pol<float>::Ystd, true>::all();
  ops::Cat<Pol<double>::Def, false>::all(); ops::Cat<Pol<double>::Strict, false>::all(); ops::Cat<Pol<double>::Catch, false>::all(); ops::Cat<Pol<double>::Yopp, true>::all(); ops::Cat<Pol<double>::Ystd, true>::all();
  ops::Cat<Pol<long double>::Def, false>::all(); ops::Cat<Pol<long double>::Strict, false>::all(); ops::Cat<Pol<long double>::Catch, false>::all(); ops::Cat<Pol<long double>::Yopp, true>::all(); ops::Cat<Pol<long double>::Ystd, true>::all();
}
static void make_shared(Rng &r) {
  shared.d.clear();
  typedef bn::interval<double, il::policies<il::rounded_math<double>, il::checking_base<double> > > I;
  for (int i = 0; i < NSH; ++i) { gen::B<double> b = i < 4 ? gen::B<double>{-1.0 * i, 1.0 + i} : gen::ival<double>(r); shared.d.emplace_back(i == 7 ? new I(std::nan(""), std::nan(""), true) : new I(b.l, b.u, true)); }
}
// runs the programs at the same time, then one after the other
static int round_(Rng &r, int nth, int len, int focus, std::vector<std::string> *msgs, uint64_t *exc, uint64_t *yl) {
  make_shared(r);
  std::vector<std::vector<Step> > progs;
  for (int i = 0; i < nth; ++i) progs.push_back(make_program(r, len, focus));
  if (r.chance(1, 4)) for (int i = 1; i < nth; ++i) progs[i] = progs[0]; // the same work everywhere
  std::vector<Log> par(nth), ser(nth);
  pthread_barrier_t bar; pthread_barrier_init(&bar, 0, nth);
  std::vector<std::thread> th;
  int inherited[4]; (void)inherited;
  std::fesetround(MODES[r.below(4)]); // threads start in the mode of their creator
  for (int i = 0; i < nth; ++i) th.emplace_back([&, i] { pthread_barrier_wait(&bar); program(progs[i], par[i]); });
  for (auto &t : th) t.join();
  pthread_barrier_destroy(&bar);
  std::fesetround(FE_TONEAREST);
  int nbad = 0;
  for (int i = 0; i < nth; ++i) {
    program(progs[i], ser[i]);
    for (auto &m : par[i].bad) { ++nbad; if (msgs) msgs->push_back("mode: thread " + std::to_string(i) + ": " + m); }
    for (auto &m : ser[i].bad) { ++nbad; if (msgs) msgs->push_back("mode-alone: " + m); }
    for (size_t k = 0; k < par[i].res.size(); ++k) if (!(par[i].res[k] == ser[i].res[k])) {
      ++nbad;
      if (msgs) { std::string w; exec_any(progs[i][k], &w); std::fesetround(FE_TONEAREST); msgs->push_back("result: " + w + vh::fmt(" differs from the same run alone (type %d, policy %d, mode %d)", progs[i][k].type, progs[i][k].pol, progs[i][k].mode)); }
    }
    if (exc) *exc += par[i].exc; if (yl) *yl += par[i].yields;
  }
  return nbad;
}
// must come first: in these child processes the library has never been used
VH_GROUP(first, "first use from several threads", 32, 400) {
  warm_catalogue();
  (void)idx;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    signal(SIGVTALRM, SIG_IGN);
    std::vector<std::string> msgs; int bad = round_(r, 4 + r.below(5), 3 + r.below(20), -1, &msgs, 0, 0);
    for (auto &m : msgs) fprintf(stderr, "%s\n", m.c_str());
    fflush(stderr);
    exit(bad ? 66 : 0);
  }
  int st = 0; waitpid(pid, &st, 0);
  vh::eval(4); vh::nontrivial(r.next()); vh::count("processes started for a first use");
  if (st != 0) {
    if (WIFEXITED(st) && WEXITSTATUS(st) == 96) vh::fail("firstuse/race", "data race reported by ThreadSanitizer in a first use");
    else vh::fail("firstuse", vh::fmt("first use from several threads: wait status %d", st));
  }
}
static void conc(Rng &r, uint64_t idx, int len) {
  warm_catalogue();
  int nth = 2 + r.below(9), focus = r.chance(1, 2) ? (int)r.below(15) : -1;
  std::vector<std::string> msgs; uint64_t exc = 0, yl = 0;
  uint64_t h = r.s;
  round_(r, nth, len, focus, &msgs, &exc, &yl);
  for (auto &m : msgs) vh::fail("threads/" + m.substr(0, m.find(':')), m);
  vh::eval(2ull * nth * len); for (int i = 0; i < nth; ++i) vh::nontrivial(h ^ vh::mix(i));
  vh::count("threads run", nth); vh::count("operations run at the same time as others", (uint64_t)nth * len); vh::count("operations left by an exception", exc); vh::count("injected yields between mode change and use", yl);
  if (idx % 50 == 0) vh::sample(vh::fmt("%d threads, %d operations each, %llu exceptions, %llu injected yields", nth, len, (unsigned long long)exc, (unsigned long long)yl));
}
VH_GROUP(conc1, "concurrent programs", 300, 6000) { conc(r, idx, 150); }
VH_GROUP(conc2, "long concurrent programs", 40, 600) { conc(r, idx, 1500); }
