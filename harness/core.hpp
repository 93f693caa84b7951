// Explicit-state model checking of the real library code.
//
// A "system" S lives entirely inside a fixed arena (containers, elements, bucket arrays,
// reference model).  A state is the memory image of the arena.  The explorer does a breadth
// first search over the operation alphabet of S, restoring the image before each transition,
// executing the REAL operation, comparing every observation with the reference model, and
// deduplicating by an exact canonical form of the resulting memory image (pointers into the
// arena are renamed to (object number, offset), so two states with the same key have the same
// futures up to a renaming of interchangeable elements).
#ifndef MC_CORE_HPP
#define MC_CORE_HPP
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csetjmp>
#include <csignal>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <set>
#include <algorithm>
#include <stdexcept>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <time.h>

#ifndef BOOST_ENABLE_ASSERT_HANDLER
#error "compile with -DBOOST_ENABLE_ASSERT_HANDLER"
#endif

namespace mc {

struct Violation { std::string cat, msg; };

inline std::string strf(const char* f, ...) {
  char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
[[noreturn]] inline void fail(const char* cat, const std::string& m) { throw Violation{cat, m}; }
// Violation categories.  A check decides only some of them: requirements of the others are still evaluated, but a
// failed one is skipped (inside a transition), ends the current group of checks (SUB), or ends that path.
static std::set<std::string> g_cats;          // empty: all
static std::string g_opcat;                   // extra category of the running operation (e.g. "swap", "clone")
static bool g_soft = false;
static size_t g_ignored = 0;
inline bool active(const std::string& c) { return g_cats.empty() || g_cats.count(c) || c == "internal" || c == "crash" || c == "assert" || c == "hang" || c == "replay"; }
inline void req_fail(const char* cat, const std::string& m, bool soft) {
  if (active(cat)) throw Violation{cat, m};
  if (!g_opcat.empty() && active(g_opcat)) throw Violation{g_opcat, m};
  ++g_ignored; if (!soft) throw Violation{cat, m};
}
struct Hard { bool s; Hard() : s(g_soft) { g_soft = false; } ~Hard() { g_soft = s; } };
#define REQ(cat, cond, ...) do{ if(!(cond)) ::mc::req_fail(cat, std::string(#cond " -- ") + ::mc::strf(__VA_ARGS__), ::mc::g_soft); }while(0)
#define REQS(cat, cond, ...) do{ if(!(cond)) ::mc::req_fail(cat, std::string(#cond " -- ") + ::mc::strf(__VA_ARGS__), true); }while(0)
#define SUB try {
#define END_SUB } catch (::mc::Violation& v_) { if (::mc::active(v_.cat)) throw; }

// exception thrown by user functors of the harness (fault injection)
struct UserThrow { int n; };

//---------------------------------------------------------------- traps
static sigjmp_buf g_jb;
static volatile sig_atomic_t g_armed = 0;
static char g_trap_cat[32], g_trap_msg[512];
static volatile int g_ticks = 0, g_tick_limit = 40;
static volatile int g_expect_assert = 0;     // a misuse probe expects the configured assertion

#ifndef MC_ON_TRAP          // race.cpp: signal handlers and traps are not part of the code under test
#define MC_ON_TRAP
#define MC_HANDLER
#endif
[[noreturn]] MC_HANDLER inline void trap(const char* cat, const char* msg) {
  MC_ON_TRAP;
  if (!g_armed) { fprintf(stderr, "TRAP outside of a transition: %s %s\n", cat, msg); _exit(70); }
  snprintf(g_trap_cat, sizeof g_trap_cat, "%s", cat);
  snprintf(g_trap_msg, sizeof g_trap_msg, "%s", msg);
  siglongjmp(g_jb, 1);
}
MC_HANDLER static void on_sig(int s) {
  MC_ON_TRAP;
  char m[64]; snprintf(m, sizeof m, "signal %d (%s)", s, s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : "SIGILL");
  trap("crash", m);
}
MC_HANDLER static void on_tick(int) {
  if (g_armed && ++g_ticks > g_tick_limit) trap("hang", "operation does not terminate");
}
inline void on_terminate() { trap("crash", "std::terminate called"); }
inline void install_traps() {
  static char altstack[1 << 16];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL};
  for (int s : sigs) sigaction(s, &sa, 0);
  sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART; sigaction(SIGVTALRM, &sa, 0);
  struct itimerval it; it.it_interval.tv_sec = 0; it.it_interval.tv_usec = 50000; it.it_value = it.it_interval;
  setitimer(ITIMER_VIRTUAL, &it, 0);
  std::set_terminate(on_terminate);
}

// runs f and reports whether the library raised the configured assertion (misuse probe)
template<class F> inline bool raises_assert(F f) {
  sigjmp_buf save; memcpy(&save, &g_jb, sizeof save);
  volatile bool fired = false, other = false;
  if (sigsetjmp(g_jb, 1) == 0) { g_expect_assert = 1; f(); g_expect_assert = 0; }
  else { g_expect_assert = 0; if (!strcmp(g_trap_cat, "expected-assert")) fired = true; else other = true; }
  memcpy(&g_jb, &save, sizeof save);
  if (other) siglongjmp(g_jb, 1);
  return fired;
}

//---------------------------------------------------------------- ops, arena
struct Op { uint8_t k; int8_t a[7]; };
inline Op mk(int k, int a = 0, int b = 0, int c = 0, int d = 0, int e = 0, int f = 0) {
  Op o; o.k = (uint8_t)k; o.a[0] = (int8_t)a; o.a[1] = (int8_t)b; o.a[2] = (int8_t)c; o.a[3] = (int8_t)d; o.a[4] = (int8_t)e; o.a[5] = (int8_t)f; o.a[6] = 0; return o;
}

#ifndef MC_ARENA
#define MC_ARENA (1 << 16)
#endif
alignas(4096) static char g_arena[MC_ARENA];
static unsigned char g_fill = 0xA5;

// canonical image of a set of objects.  Each object is a byte range in the arena.
struct Canon {
  struct R { const char* p; size_t n; };
  std::vector<R> objs;        // objects a pointer may designate, canonical order
  std::vector<R> hashed;      // ranges whose contents enter the key, in order
  bool selfrel = false;       // words hold self relative offsets
  void obj(const void* p, size_t n) { objs.push_back(R{(const char*)p, n}); }
  void range(const void* p, size_t n) { hashed.push_back(R{(const char*)p, n}); }
  std::string key() const {
    std::string k; k.reserve(256);
    std::vector<std::pair<const char*, int>> idx;
    for (size_t i = 0; i < objs.size(); ++i) idx.push_back(std::make_pair(objs[i].p, (int)i));
    std::sort(idx.begin(), idx.end());
    for (auto& r : hashed) {
      size_t i = 0;
      for (; i + 8 <= r.n; i += 8) {
        uint64_t w; memcpy(&w, r.p + i, 8);
        const char* t = selfrel ? r.p + i + (int64_t)w : (const char*)w;
        bool done = false;
        if (t >= g_arena && t < g_arena + MC_ARENA) {
          auto it = std::upper_bound(idx.begin(), idx.end(), std::make_pair(t, 1 << 30));
          if (it != idx.begin()) {
            --it; size_t off = (size_t)(t - it->first);
            if (off < objs[it->second].n) {
              k.push_back((char)1); k.push_back((char)it->second);
              if (objs.size() > 250) k.push_back((char)(it->second >> 8));
              k.push_back((char)off); k.push_back((char)(off >> 8)); done = true;
            }
          }
        }
        if (!done) {
          if (w == 0) k.push_back((char)2);
          else if (w < 256) { k.push_back((char)3); k.push_back((char)w); }
          else { k.push_back((char)0); k.append((const char*)&w, 8); }
        }
      }
      if (i < r.n) k.append(r.p + i, r.n - i);
    }
    return k;
  }
};

//---------------------------------------------------------------- explorer
struct Opts {
  size_t max_states = 200000; int max_depth = 1000; size_t max_validate = 30000; size_t image_budget = (size_t)3 << 30;
  double max_seconds = 600; const char* replay = 0; const char* label = "";
};
struct Report {
  size_t states = 0, transitions = 0, validated = 0, terminal_checks = 0, pruned = 0; int depth = 0; bool complete = true; std::string cap;
  std::map<std::string, size_t> opcount;
  std::map<std::string, size_t> counters;
  struct V { std::string cat, msg, op; std::vector<std::string> hist; std::vector<Op> ops; int variant; };
  std::vector<V> viols; std::map<std::string, int> percat; size_t nviol = 0;
  std::vector<std::string> samples; std::set<std::string> distinct_outcomes;
};
static Report* g_rep = 0;
inline void count(const char* what, size_t n = 1) { if (g_rep) g_rep->counters[what] += n; }

static std::set<std::string> g_known;      // findings listed in known_findings.json (given by the driver)
inline bool known(const std::string& key) { if (!g_known.count(key)) return false; count(("known:" + key).c_str()); return true; }

inline std::string jesc(const std::string& s) {
  std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += c; } return o;
}
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

template<class F> inline bool guarded(F f, Violation& v, int limit = 40) {
  bool bad = false; g_soft = false; g_opcat.clear();
  g_ticks = 0; g_tick_limit = limit; g_expect_assert = 0;
  if (sigsetjmp(g_jb, 1) == 0) {
    g_armed = 1;
    try { f(); } catch (Violation& x) { v = x; bad = true; } catch (UserThrow&) { v = Violation{"throw", "user exception escaped unexpectedly"}; bad = true; }
    g_armed = 0;
  } else {
    g_armed = 0; v = Violation{g_trap_cat, g_trap_msg}; bad = true;
  }
  g_expect_assert = 0; g_soft = false; g_opcat.clear();
  return bad;
}

inline void hash128(const std::string& k, uint64_t o[2]) {
  uint64_t h1 = 0x9E3779B97F4A7C15ull, h2 = 0xC2B2AE3D27D4EB4Full; size_t n = k.size(), i = 0;
  auto mix = [](uint64_t h, uint64_t w) { h ^= w; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 29; return h; };
  for (; i + 8 <= n; i += 8) { uint64_t w; memcpy(&w, k.data() + i, 8); h1 = mix(h1, w); h2 = mix(h2 + 0x1234567, w ^ 0x5555555555555555ull); }
  uint64_t w = n; for (size_t s = 8; i < n; ++i, s += 8) w ^= (uint64_t)(unsigned char)k[i] << (s & 63);
  h1 = mix(h1, w); h2 = mix(h2, ~w); o[0] = h1; o[1] = h2;
}
struct K128 { uint64_t a, b; bool operator==(const K128& o) const { return a == o.a && b == o.b; } };
struct K128H { size_t operator()(const K128& k) const { return (size_t)(k.a ^ (k.b * 0x9E3779B97F4A7C15ull)); } };
inline K128 k128(const std::string& s) { uint64_t o[2]; hash128(s, o); return K128{o[0], o[1]}; }

// S: static size_t image_size(); void init(int variant); void ops(std::vector<Op>&); bool step(Op) -- returns false
//    when the transition is a terminal probe (successor not explored); void check(); std::string canon();
//    std::string name(Op); int variants();
template<class S> inline auto check_state_of(S& s, int) -> decltype(s.check_state(), void()) { s.check_state(); }   // checked once per state
template<class S> inline void check_state_of(S&, long) {}
template<class S> inline auto opcat_of(S& s, const Op& op, int) -> decltype(std::string(s.opcat(op))) { return s.opcat(op); }
template<class S> inline std::string opcat_of(S&, const Op&, long) { return std::string(); }
template<class S> struct Explorer {
  S& s; Opts o; Report& r;
  struct Node { int parent; Op op; int16_t depth; int16_t variant; };
  std::vector<Node> nodes; std::vector<char> images; std::vector<K128> keys;
  std::unordered_map<K128, int, K128H> seen;
  Explorer(S& s_, Opts o_, Report& r_) : s(s_), o(o_), r(r_) {}
  std::vector<Op> history(int i) { std::vector<Op> h; while (nodes[i].parent >= 0) { h.push_back(nodes[i].op); i = nodes[i].parent; } std::reverse(h.begin(), h.end()); return h; }
  void report(const Violation& v, int state, const Op* op, int variant) {
    ++r.nviol;
    std::string opn = op ? s.name(*op) : std::string("init");
    std::string base = opn.substr(0, opn.find('('));
    std::string kk = v.cat + "|" + base;
    if (++r.percat[kk] > 2 || r.viols.size() > 60) return;
    Report::V x; x.cat = v.cat; x.msg = v.msg; x.op = opn; x.variant = variant;
    if (state >= 0) { x.ops = history(state); for (auto& h : x.ops) x.hist.push_back(s.name(h)); }
    if (op) x.ops.push_back(*op);
    r.viols.push_back(x);
  }
  bool restore(int i) { size_t n = S::image_size(); memcpy(g_arena, &images[(size_t)i * n], n); s.restored(); return true; }
  int add(const std::string& key, int parent, const Op& op, int depth, int variant) {
    size_t n = S::image_size(); int id = (int)nodes.size();
    K128 k = k128(key); seen.emplace(k, id); keys.push_back(k);
    nodes.push_back(Node{parent, op, (int16_t)depth, (int16_t)variant});
    images.resize(images.size() + n); memcpy(&images[(size_t)id * n], g_arena, n);
    return id;
  }
  void transit(const Op& op, bool& keep) { g_soft = true; g_opcat = opcat_of(s, op, 0); keep = s.step(op); g_soft = false; if (keep) s.check(); g_opcat.clear(); }
  void run() {
    double t0 = now(); size_t n = S::image_size(); int hangs = 0;
    std::vector<Op> ops; Violation v;
    for (int var = 0; var < s.variants(); ++var) {
      std::string key;
      if (guarded([&] { s.init(var); s.check(); key = s.canon(); }, v)) { if (active(v.cat)) report(v, -1, 0, var); continue; }
      key += (char)var;
      if (seen.count(k128(key))) continue;
      add(key, -1, Op(), 0, var);
    }
    for (size_t i = 0; i < nodes.size(); ++i) {
      if (nodes[i].depth >= o.max_depth) { r.complete = false; r.cap = strf("depth %d", o.max_depth); continue; }
      if ((i & 63) == 0 && now() - t0 > o.max_seconds) { r.complete = false; r.cap = strf("time %.0fs after %zu expanded states", o.max_seconds, i); break; }
      restore((int)i);
      if (guarded([&] { check_state_of(s, 0); }, v)) { if (v.cat == "hang") ++hangs; if (active(v.cat)) report(v, (int)i, 0, nodes[i].variant); if (hangs >= 2 || r.nviol > 300) { r.complete = false; r.cap = "stopped after violations"; goto done; } }
      ops.clear(); restore((int)i); s.ops(ops);
      int var = nodes[i].variant, depth = nodes[i].depth;
      for (size_t j = 0; j < ops.size(); ++j) {
        Op op = ops[j]; std::string key; bool keep = false;
        restore((int)i);
        bool bad = guarded([&] { transit(op, keep); if (keep) { key = s.canon(); } }, v);
        if (bad && v.cat == "hang") {   // alone, with a ten times longer limit, before it is believed
          restore((int)i);
          bad = guarded([&] { transit(op, keep); if (keep) { key = s.canon(); } }, v, 400);
          if (bad && v.cat == "hang") ++hangs;
        }
        ++r.transitions; ++r.opcount[opbase(op)];
        if (bad && !active(v.cat)) { ++r.pruned; continue; }
        if (bad) { report(v, (int)i, &op, var); if (hangs >= 2 || r.nviol > 300) { r.complete = false; r.cap = "stopped after violations"; goto done; } continue; }
        if (!keep) { ++r.terminal_checks; continue; }
        key += (char)var;
        if (!seen.count(k128(key))) {
          if (nodes.size() >= o.max_states || (nodes.size() + 1) * n > o.image_budget) { r.complete = false; r.cap = strf("state cap %zu", nodes.size()); continue; }
          add(key, (int)i, op, depth + 1, var);
          if (depth + 1 > r.depth) r.depth = depth + 1;
        }
      }
    }
  done:
    r.states += nodes.size();
    // conformance: every state's history is replayed from a fresh construction, without snapshots
    size_t stride = nodes.size() <= o.max_validate ? 1 : nodes.size() / o.max_validate + 1;
    for (size_t i = 0; i < nodes.size() && now() - t0 < o.max_seconds * 1.5; i += stride) {
      std::vector<Op> h = history((int)i); std::string key; int var = nodes[i].variant;
      bool bad = guarded([&] { memset(g_arena, 0x5a, n); s.init(var); for (auto& op : h) { bool keep; g_soft = true; g_opcat = opcat_of(s, op, 0); keep = s.step(op); (void)keep; } g_soft = false; s.check(); g_opcat.clear(); key = s.canon(); key += (char)var; }, v, 400);
      if (bad && !active(v.cat)) continue;
      if (bad) { report(Violation{v.cat, "during replay without snapshots: " + v.msg}, (int)i, 0, var); if (r.nviol > 300) break; continue; }
      if (!(k128(key) == keys[i])) { report(Violation{"replay", "replaying the history from a fresh construction gives a different state"}, (int)i, 0, var); if (r.nviol > 300) break; continue; }
      ++r.validated;
    }
    for (int q = 1; q <= 3 && nodes.size() > 3; ++q) {
      size_t i = nodes.size() * q / 3 - 1; std::string t; for (auto& h : history((int)i)) { t += s.name(h); t += "; "; } r.samples.push_back(t);
    }
  }
  std::unordered_map<int, std::string> basecache;
  const std::string& opbase(const Op& op) { auto it = basecache.find(op.k); if (it != basecache.end()) return it->second; std::string n = s.name(op); return basecache[op.k] = n.substr(0, n.find('(')); }
};

inline void emit(const Report& r, const char* label, double wall) {
  printf("{\"label\":\"%s\",\"states\":%zu,\"transitions\":%zu,\"validated\":%zu,\"depth\":%d,\"complete\":%s,\"cap\":\"%s\",\"nviol\":%zu,\"pruned\":%zu,\"ignored\":%zu,\"wall\":%.2f,", jesc(label).c_str(), r.states, r.transitions, r.validated, r.depth, r.complete ? "true" : "false", jesc(r.cap).c_str(), r.nviol, r.pruned, g_ignored, wall);
  printf("\"ops\":{"); bool f = true; for (auto& p : r.opcount) { printf("%s\"%s\":%zu", f ? "" : ",", jesc(p.first).c_str(), p.second); f = false; } printf("},");
  printf("\"counters\":{"); f = true; for (auto& p : r.counters) { printf("%s\"%s\":%zu", f ? "" : ",", jesc(p.first).c_str(), p.second); f = false; } printf("},");
  printf("\"samples\":["); f = true; for (auto& p : r.samples) { printf("%s\"%s\"", f ? "" : ",", jesc(p).c_str()); f = false; } printf("],");
  printf("\"violations\":["); f = true;
  for (auto& v : r.viols) {
    printf("%s{\"cat\":\"%s\",\"op\":\"%s\",\"msg\":\"%s\",\"variant\":%d,\"history\":[", f ? "" : ",", jesc(v.cat).c_str(), jesc(v.op).c_str(), jesc(v.msg).c_str(), v.variant); f = false;
    bool g = true; for (auto& h : v.hist) { printf("%s\"%s\"", g ? "" : ",", jesc(h).c_str()); g = false; }
    printf("],\"ops\":["); g = true; for (auto& h : v.ops) { printf("%s[%d,%d,%d,%d,%d,%d,%d,%d]", g ? "" : ",", h.k, h.a[0], h.a[1], h.a[2], h.a[3], h.a[4], h.a[5], h.a[6]); g = false; }
    printf("]}");
  }
  printf("]}\n"); fflush(stdout);
}

// replays one violation: argv "--replay variant k,a,b,c,d,e,f,g k,..."
template<class S> int replay_main(S& s, int argc, char** argv, int at) {
  int variant = atoi(argv[at]); std::vector<Op> ops;
  for (int i = at + 1; i < argc; ++i) { int v[8] = {0}; sscanf(argv[i], "%d,%d,%d,%d,%d,%d,%d,%d", v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7); Op o; o.k = (uint8_t)v[0]; for (int j = 0; j < 7; ++j) o.a[j] = (int8_t)v[j + 1]; ops.push_back(o); }
  Violation v; std::string where = "init";
  bool bad = guarded([&] { s.init(variant); s.check(); }, v, 400);
  for (size_t i = 0; !bad && i < ops.size(); ++i) { where = s.name(ops[i]); printf("step %s\n", where.c_str()); bool keep = false; bad = guarded([&] { g_soft = true; g_opcat = opcat_of(s, ops[i], 0); keep = s.step(ops[i]); g_soft = false; if (keep) { s.check(); g_opcat.clear(); check_state_of(s, 0); } }, v, 400); }
  if (bad) { printf("REPRODUCED at %s: [%s] %s\n", where.c_str(), v.cat.c_str(), v.msg.c_str()); return 1; }
  printf("not reproduced\n"); return 0;
}

template<class S> int engine_main(int argc, char** argv, S& s, Opts o, const char* label) {
  install_traps();
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "--known")) { std::string k = argv[++i]; size_t p = 0; while (p < k.size()) { size_t q = k.find(',', p); if (q == std::string::npos) q = k.size(); if (q > p) g_known.insert(k.substr(p, q - p)); p = q + 1; } }
    else if (!strcmp(argv[i], "--cats")) { std::string k = argv[++i]; size_t p = 0; while (p < k.size()) { size_t q = k.find(',', p); if (q == std::string::npos) q = k.size(); if (q > p) g_cats.insert(k.substr(p, q - p)); p = q + 1; } }
    else if (!strcmp(argv[i], "--replay")) return replay_main(s, argc, argv, i + 1);
    if (!strcmp(argv[i], "--max-states")) o.max_states = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--max-depth")) o.max_depth = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--seconds")) o.max_seconds = atof(argv[++i]);
  }
  Report r; g_rep = &r; double t0 = now();
  Explorer<S> e(s, o, r); e.run();
  emit(r, label, now() - t0);
  return 0;
}
} // namespace mc

namespace boost {
inline void mc_assert(char const* e, char const* fn, char const* file, long line, const char* m) {
  (void)fn; char b[400]; const char* sl = strrchr(file, '/'); snprintf(b, sizeof b, "assertion %s%s%s at %s:%ld", e, m ? " " : "", m ? m : "", sl ? sl + 1 : file, line);
  mc::trap(mc::g_expect_assert ? "expected-assert" : "assert", b);
}
void assertion_failed(char const* e, char const* fn, char const* file, long line) { mc_assert(e, fn, file, line, 0); }
void assertion_failed_msg(char const* e, char const* m, char const* fn, char const* file, long line) { mc_assert(e, fn, file, line, m); }
}
#endif
