// Framework of the runtime monitors: deterministic cases, shards, reports.
//
// A harness registers groups; a group is a function that runs ONE case, made
// only from hash(seed, group, index).  A shard runs the indexes i with
// i % nshards == shard.  Violations are printed as JSON lines on stdout.
#ifndef VH_HPP
#define VH_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <cfenv>
#include <string>
#include <vector>
#include <utility>
#include <map>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace vh {

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t hstr(const char *s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
  return h;
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
  uint32_t below(uint32_t n) { return (uint32_t)(((next() >> 32) * (uint64_t)n) >> 32); }
  int range(int a, int b) { return a + (int)below((uint32_t)(b - a + 1)); }
  bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
};

// ---------------------------------------------------------------- statistics
// a small map (std::map calls into libstdc++.so, which MSan cannot follow)
template<class V> struct SMap {
  typedef std::pair<std::string, V> E;
  std::vector<E *> v;   // the values stay where they are
  V &operator[](const std::string &k) {
    size_t lo = 0, hi = v.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m]->first < k) lo = m + 1; else hi = m; }
    if (lo == v.size() || v[lo]->first != k) v.insert(v.begin() + lo, new E(k, V()));
    return v[lo]->second;
  }
  ~SMap() { for (E *e : v) delete e; }
  size_t size() const { return v.size(); }
  typename std::vector<E *>::const_iterator begin() const { return v.begin(); }
  typename std::vector<E *>::const_iterator end() const { return v.end(); }
};
static const uint32_t BITS = 24;
struct Stats {
  uint64_t evals = 0, nontriv = 0;
  std::vector<uint64_t> bitmap;
  SMap<uint64_t> counters;
  std::vector<std::string> samples;
  uint64_t nviol = 0;
  SMap<int> perkey;
};
inline Stats &st() { static Stats s; return s; }

struct Current {
  const char *group = "";
  uint64_t idx = 0;
  const char *volatile op = "";
  uint64_t tick = 0;
};
inline Current &cur() { static Current c; return c; }

inline void eval(uint64_t n = 1) { st().evals += n; }
// a distinct non-trivial case, identified by its hash
inline void nontrivial(uint64_t h) {
  Stats &s = st();
  s.nontriv++;
  if (s.bitmap.empty()) s.bitmap.resize((1u << BITS) / 64);
  uint64_t b = mix(h) >> (64 - BITS);
  s.bitmap[b >> 6] |= 1ull << (b & 63);
}
inline void count(const std::string &k, uint64_t n = 1) { st().counters[k] += n; }

inline std::string jesc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r;
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
  char b[2048];
  va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  return b;
}
inline void sample(const std::string &s) {
  if (st().samples.size() < 6) st().samples.push_back(s);
}
// reports a violation of the property; key identifies the kind of failure
inline void fail(const std::string &key, const std::string &msg) {
  Stats &s = st();
  s.nviol++;
  int &n = s.perkey[key];
  if (++n > 3 || s.perkey.size() > 60) return;
  printf("{\"t\":\"viol\",\"key\":\"%s\",\"group\":\"%s\",\"idx\":%llu,\"msg\":\"%s\"}\n",
         jesc(key).c_str(), jesc(cur().group).c_str(), (unsigned long long)cur().idx, jesc(msg).c_str());
  fflush(stdout);
}
inline void op(const char *o) { cur().op = o; }

// ---------------------------------------------------------------- groups
typedef void (*GroupFn)(Rng &, uint64_t idx);
struct Group { const char *name; uint64_t quick, thorough; GroupFn fn; };
inline std::vector<Group> &groups() { static std::vector<Group> g; return g; }
struct Reg { Reg(const char *n, uint64_t q, uint64_t t, GroupFn f) { groups().push_back(Group{n, q, t, f}); } };
#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
#define VH_GROUP(ID, NAME, QUICK, THOROUGH)                                    \
  static void VH_CAT(grp_, ID)(vh::Rng & r, uint64_t idx);                     \
  static vh::Reg VH_CAT(reg_, ID)(NAME, QUICK, THOROUGH, VH_CAT(grp_, ID));    \
  static void VH_CAT(grp_, ID)(vh::Rng & r, uint64_t idx)

// ---------------------------------------------------------------- crashes
inline void emit_raw(const char *kind, int sig) {
  char b[512];
  int n = snprintf(b, sizeof b, "\n{\"t\":\"%s\",\"sig\":%d,\"group\":\"%s\",\"idx\":%llu,\"op\":\"%s\"}\n", kind, sig,
                   cur().group, (unsigned long long)cur().idx, cur().op);
  if (write(1, b, n) < 0) {}
}
inline void on_crash(int sig) { emit_raw("crash", sig); _exit(77); }
static const int HANG_CPU_S = 25;
inline void on_tick(int) {
  static uint64_t last_idx = ~0ull, n = 0;
  static const char *last_group = 0;
  static uint64_t last_tick = ~0ull;
  if (cur().idx == last_idx && cur().group == last_group && cur().tick == last_tick) {
    if (++n >= (uint64_t)HANG_CPU_S) { emit_raw("hang", 0); _exit(78); }
  } else n = 0;
  last_idx = cur().idx; last_group = cur().group; last_tick = cur().tick;
}
inline void install() {
  static char stk[1 << 16];
  stack_t ss; memset(&ss, 0, sizeof ss);
  ss.ss_sp = stk; ss.ss_size = sizeof stk;
  sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS};
  for (int s : sigs) sigaction(s, &sa, 0);
  sa.sa_handler = on_tick; sa.sa_flags = SA_ONSTACK | SA_RESTART;
  sigaction(SIGVTALRM, &sa, 0);
  struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
  setitimer(ITIMER_VIRTUAL, &it, 0);
}

inline int run(int argc, char **argv) {
  uint64_t seed = 1; unsigned shard = 0, nsh = 1; bool thorough = false; double scale = 1;
  const char *only = 0; long long onlyidx = -1; const char *bm = 0;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
    else if (a == "--shard") { shard = atoi(argv[++i]); nsh = atoi(argv[++i]); }
    else if (a == "--thorough") thorough = true;
    else if (a == "--scale") scale = atof(argv[++i]);
    else if (a == "--group") only = argv[++i];
    else if (a == "--index") onlyidx = atoll(argv[++i]);
    else if (a == "--bitmap") bm = argv[++i];
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
  }
  install();
  for (const Group &g : groups()) {
    if (only && strcmp(only, g.name)) continue;
#if defined(__clang__) && defined(__OPTIMIZE__)
    // clang moves x87 instructions across calls of fesetround: no long double
    if (strstr(g.name, "ldouble") || strstr(g.name, "gridl")) continue;
#endif
    uint64_t n = thorough ? g.thorough : g.quick;
    if (scale != 1) { uint64_t m = (uint64_t)(n * scale); n = m < 1 ? 1 : m; }
    cur().group = g.name;
    uint64_t e0 = st().evals;
    for (uint64_t i = shard; i < n; i += nsh) {
      if (onlyidx >= 0) i = (uint64_t)onlyidx;
      cur().idx = i; cur().op = "";
      Rng r(mix(seed * 0x51ed270b9f2d13c5ull ^ hstr(g.name)) ^ mix(i + 0x1234567));
      g.fn(r, i);
      std::fesetround(FE_TONEAREST);
      if (onlyidx >= 0) break;
    }
    count(std::string("group ") + g.name, st().evals - e0);
  }
  Stats &s = st();
  if (bm && !s.bitmap.empty()) {
    FILE *f = fopen(bm, "wb");
    if (f) { fwrite(s.bitmap.data(), 8, s.bitmap.size(), f); fclose(f); }
  }
  printf("{\"t\":\"stats\",\"evals\":%llu,\"nontriv\":%llu,\"nviol\":%llu,\"counters\":{", (unsigned long long)s.evals,
         (unsigned long long)s.nontriv, (unsigned long long)s.nviol);
  bool first = true;
  for (auto &kv : s.counters) { printf("%s\"%s\":%llu", first ? "" : ",", jesc(kv->first).c_str(), (unsigned long long)kv->second); first = false; }
  printf("},\"samples\":[");
  first = true;
  for (auto &x : s.samples) { printf("%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; }
  printf("]}\n");
  fflush(stdout);
  return 0;
}

} // namespace vh

#ifndef VH_NO_MAIN
int main(int argc, char **argv) { return vh::run(argc, argv); }
#endif
#endif
