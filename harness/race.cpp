// C21: memory footprints and interleavings.  This file is compiled with -fsanitize=thread instrumentation at -O0 but linked with the
// runtime below instead of the sanitizer's: every load and store of the library calls __tsan_readN/__tsan_writeN here, which records it
// and is a scheduling point of a cooperative two-thread scheduler.
//  In every reachable state of two containers X, Y (of one type) over N elements:
//   1. every const operation on X writes nothing but its own stack                                    (so readers never conflict)
//   2. every operation on X touches only X, X's buckets, X's elements and its argument, reads (never writes) static data
//   3. no two operations, one on X and one on Y (or two const ones on X), have conflicting accesses: one Mazurkiewicz trace per pair;
//   4. the real operations are executed under every schedule with one preemption (all switch points), strict alternation at every
//      access, and (small states) every schedule with two preemptions; results and final memory equal the sequential execution
//  MC_KIND 0 list 1 slist(cache_last) 2 slist linear 3 set 4 multiset(optimize_size) 5 avl 6 bs 7 splay 8 sg 9 treap 10.. unordered
//  MC_AUTO 1: auto-unlink hooks
#ifndef MC_N
#define MC_N 4
#endif
#ifndef MC_KIND
#define MC_KIND 3
#endif
#ifndef MC_AUTO
#define MC_AUTO 0
#endif
static int cur = -1, mode;
#define MC_HANDLER __attribute__((no_sanitize("thread")))
#define MC_ON_TRAP (cur = -1, mode = 0)
#include "core.hpp"
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
namespace bi = boost::intrusive;
enum { N = MC_N };
#define LIST (MC_KIND <= 2)
#define TREE (MC_KIND >= 3 && MC_KIND <= 9)
#define HASH (MC_KIND >= 10)
#if MC_AUTO
typedef bi::link_mode<bi::auto_unlink> LM; typedef bi::constant_time_size<false> CT;
#else
typedef bi::link_mode<bi::safe_link> LM; typedef bi::constant_time_size<true> CT;
#endif
#if MC_KIND == 0
typedef bi::list_base_hook<LM> H;
#elif MC_KIND <= 2
typedef bi::slist_base_hook<LM> H;
#elif MC_KIND == 3
typedef bi::set_base_hook<LM> H;
#elif MC_KIND == 4
typedef bi::set_base_hook<LM, bi::optimize_size<true>> H;
#elif MC_KIND == 5
typedef bi::avl_set_base_hook<LM, bi::optimize_size<true>> H;
#elif TREE
typedef bi::bs_set_base_hook<LM> H;
#else
#define K_MULTI (MC_KIND == 11 || MC_KIND == 13)
typedef bi::unordered_set_base_hook<LM, bi::store_hash<(MC_KIND == 11 || MC_KIND == 13)>, bi::optimize_multikey<(MC_KIND == 11)>> H;
#endif
struct E : H { int key; explicit E(int k = 0) : key(k) {} bool operator<(const E& o) const { return key < o.key; } bool operator==(const E& o) const { return key == o.key; } };
struct Hash { size_t operator()(const E& e) const { return (size_t)e.key * 5 + 1; } };
struct Prio { bool operator()(const E& a, const E& b) const { return (a.key * 3 + 1) % 4 < (b.key * 3 + 1) % 4; } };
typedef bi::base_hook<H> BH; typedef bi::hash<Hash> HH;
#if MC_KIND == 0
typedef bi::list<E, BH, CT> T;
#elif MC_KIND == 1
typedef bi::slist<E, BH, CT, bi::cache_last<!MC_AUTO>> T;
#elif MC_KIND == 2
typedef bi::slist<E, BH, CT, bi::linear<true>, bi::cache_last<true>> T;
#elif MC_KIND == 3
typedef bi::set<E, BH, CT> T;
#elif MC_KIND == 4
typedef bi::multiset<E, BH, CT> T;
#elif MC_KIND == 5
typedef bi::avl_multiset<E, BH, CT> T;
#elif MC_KIND == 6
typedef bi::bs_multiset<E, BH, CT> T;
#elif MC_KIND == 7
typedef bi::splay_multiset<E, BH, CT> T;
#elif MC_KIND == 8
typedef bi::sg_set<E, BH, bi::floating_point<true>> T;
#elif MC_KIND == 9
typedef bi::treap_multiset<E, BH, CT, bi::priority<Prio>> T;
#elif MC_KIND == 10
typedef bi::unordered_set<E, BH, HH, CT> T;
#elif MC_KIND == 11
typedef bi::unordered_multiset<E, BH, HH, CT> T;
#elif MC_KIND == 12
typedef bi::unordered_set<E, BH, HH, CT, bi::incremental<true>, bi::power_2_buckets<true>> T;
#elif MC_KIND == 13
typedef bi::unordered_multiset<E, BH, HH, bi::constant_time_size<true>, bi::cache_begin<true>, bi::compare_hash<true>, bi::power_2_buckets<true>> T;
#elif MC_KIND == 14
typedef bi::unordered_set<E, BH, HH, CT, bi::fastmod_buckets<true>> T;
#else
typedef bi::unordered_multiset<E, BH, HH, CT, bi::linear_buckets<true>> T;
#endif
#if MC_KIND == 3 || MC_KIND == 8 || MC_KIND == 10 || MC_KIND == 12 || MC_KIND == 14
#define KEY(i) (i)
#else
#define KEY(i) ((i) / 2)
#endif
struct Box {
  alignas(16) char mem[sizeof(T)];
#if HASH
  alignas(16) char b[2 * 8 * sizeof(T::bucket_type)]; int8_t buf;
#endif
  T& c() { return *(T*)mem; }
};
struct Slot { alignas(8) char mem[sizeof(E)]; E& e() { return *(E*)mem; } };
struct W { Box x[2]; Slot el[N]; int8_t where[N]; };
static W& w() { return *(W*)mc::g_arena; }
static E& el(int i) { return w().el[i].e(); }
static int idx(const E* p) { for (int i = 0; i < N; ++i) if (p == &el(i)) return i; return 90; }
#if HASH
static T::bucket_traits bt(int c, int which) { typedef T::bucket_type BT; return T::bucket_traits((BT*)w().x[c].b + which * 8, (MC_KIND >= 12 && MC_KIND <= 13 ? (which ? 4 : 2) : MC_KIND == 14 ? T::suggested_upper_bucket_count(0) : (which ? 3 : 2)) + T::bucket_overhead); }
#endif
//---------------------------------------------------------------- recording and scheduling
#define NOSAN __attribute__((no_sanitize("thread"), noinline))
struct Acc { const char* p; uint8_t n; bool wr; };
enum { MAXA = 1 << 14, STK = 1 << 16 };
static Acc acc[2][MAXA]; static int nacc[2]; static bool rec;
alignas(64) static char stk[2][STK]; static void* sp_co[2]; static void* sp_main; static bool co_done[2];   // cur: running thread, -1 none
static int switch_at[2]; static int steps[2]; static char* main_lo; static char* main_hi;
extern "C" void mc_switch(void** save, void* to);
asm(".text\n.globl mc_switch\nmc_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
NOSAN static bool mine(const char* p) { return (p >= stk[0] && p < stk[2 - 1] + STK) || (p >= main_lo && p < main_hi); }
static char* g_tls;
NOSAN static void access(const void* a, int n, bool wr) {
  if (cur < 0) return; const char* p = (const char*)a; if (mine(p)) return;
  const int t = cur; 
  if (mode) {   // a scheduling point before the access
    bool sw = mode == 3 ? !co_done[1 - t] : (steps[t] == switch_at[t] && !co_done[1 - t]);
    ++steps[t];
    if (sw) { cur = 1 - t; mc_switch(&sp_co[t], sp_co[1 - t]); }
  }
  if (rec && nacc[t] < MAXA) { Acc& x = acc[t][nacc[t]++]; x.p = p; x.n = (uint8_t)n; x.wr = wr; }
}
extern "C" {
NOSAN void __tsan_init() {} NOSAN void __tsan_func_entry(void*) {} NOSAN void __tsan_func_exit() {}
#define RW(n) NOSAN void __tsan_read##n(void* p) { access(p, n, false); } NOSAN void __tsan_write##n(void* p) { access(p, n, true); } \
  NOSAN void __tsan_unaligned_read##n(void* p) { access(p, n, false); } NOSAN void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
  NOSAN void __tsan_volatile_read##n(void* p) { access(p, n, false); } NOSAN void __tsan_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
NOSAN void __tsan_read_range(void* p, long n) { for (long i = 0; i < n; i += 64) access((char*)p + i, (int)(n - i < 64 ? n - i : 64), false); }
NOSAN void __tsan_write_range(void* p, long n) { for (long i = 0; i < n; i += 64) access((char*)p + i, (int)(n - i < 64 ? n - i : 64), true); }
NOSAN void __tsan_vptr_update(void* p, void*) { access(p, 8, true); } NOSAN void __tsan_vptr_read(void* p) { access(p, 8, false); }
NOSAN uint8_t __tsan_atomic8_load(const volatile uint8_t* p, int) { access((const void*)p, 1, false); return *p; }
NOSAN void __tsan_atomic8_store(volatile uint8_t* p, uint8_t v, int) { access((const void*)p, 1, true); *p = v; }
NOSAN int __tsan_atomic32_load(const volatile int* p, int) { access((const void*)p, 4, false); return *p; }
NOSAN void __tsan_atomic32_store(volatile int* p, int v, int) { access((const void*)p, 4, true); *p = v; }
NOSAN int __tsan_atomic32_fetch_add(volatile int* p, int v, int) { access((const void*)p, 4, true); int o = *p; *p += v; return o; }
NOSAN long __tsan_atomic64_load(const volatile long* p, int) { access((const void*)p, 8, false); return *p; }
NOSAN void __tsan_atomic64_store(volatile long* p, long v, int) { access((const void*)p, 8, true); *p = v; }
NOSAN long __tsan_atomic64_fetch_add(volatile long* p, long v, int) { access((const void*)p, 8, true); long o = *p; *p += v; return o; }
}
//---------------------------------------------------------------- operations
struct O2 { uint8_t k; int8_t a, b; };
static O2 g_op[2]; static int g_on[2]; static uint64_t g_res[2];
struct Hs { uint64_t h; Hs() : h(1469598103934665603ull) {} void add(uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; } };
enum { R_FWD, R_REV, R_SIZE, R_EMPTY, R_EQ, R_LINKED, R_IT, R_FRONT, R_FIND, R_LB, R_UB, R_EQR, R_COUNT, R_BOUND, R_CHECK, R_ROOT, R_LOCAL, R_BUCKET, R_INSCHECK, R_END,
       W_INS, W_ERA, W_CLEAR, W_ERAKEY, W_UNLINK, W_FIND, W_REHASH, W_SORT, W_REV, W_POPF, W_POPB, W_SPLAY, W_REB, W_INSB, W_INCR, W_REPL };
static const char* const nm[] = {"const iteration", "const reverse iteration", "size", "empty", "==,<", "is_linked", "iterator_to", "front/back", "find", "lower_bound", "upper_bound", "equal_range", "count", "bounded_range", "check", "root/top", "local iteration", "bucket", "insert_check", "?", "insert", "erase", "clear", "erase(key)", "unlink", "find", "rehash", "sort", "reverse", "pop_front", "pop_back", "splay", "rebalance", "insert_before", "incremental_rehash", "replace_node"};
static int wh(int i) { return w().where[i]; }   // 0 free, 1 X, 2 Y (reference, not part of the library)
static uint64_t exec(const O2& o, int c) {
  Hs h; T& m = w().x[c].c(); const T& k = m;
#define PUT(it) h.add((it) == k.end() ? 99 : (uint64_t)idx(&*(it)))
  switch (o.k) {
    case R_FWD: for (T::const_iterator i = k.begin(), z = k.end(); i != z; ++i) h.add(idx(&*i)); for (auto i = k.cbegin(); i != k.cend(); ++i) h.add(idx(&*i)); break;
    case R_SIZE: h.add(k.size()); break;
    case R_EMPTY: h.add(k.empty()); break;
    case R_EQ: h.add(k == k); 
#if !HASH
      h.add(k < k); h.add(k != k);
#endif
      break;
    case R_LINKED: h.add(el(o.a).is_linked()); break;
    case R_IT: { const E& e = el(o.a); T::const_iterator i = k.iterator_to(e); h.add(idx(&*i)); 
#if LIST || TREE
      T::const_iterator j = T::s_iterator_to(e); h.add(idx(&*j)); 
#endif
      break; }
#if !LIST
    case R_FIND: { E q(o.a); auto i = k.find(q); h.add(i == k.end() ? 99 : KEY(idx(&*i))); break; }
    case R_COUNT: { E q(o.a); h.add(k.count(q)); break; }
    case R_EQR: { E q(o.a); auto r = k.equal_range(q); for (auto i = r.first; i != r.second; ++i) h.add(idx(&*i)); break; }
    case W_FIND: { E q(o.a); auto i = m.find(q); h.add(i == m.end() ? 99 : KEY(idx(&*i))); break; }
    case W_ERAKEY: { E q(o.a); h.add(m.erase(q)); break; }
    case W_INS: {
#if MC_KIND == 3 || MC_KIND == 8 || MC_KIND == 10 || MC_KIND == 12 || MC_KIND == 14
      h.add(m.insert(el(o.a)).second);
#else
      h.add(idx(&*m.insert(el(o.a))));
#endif
      break; }
#endif
#if MC_KIND == 0 || TREE
    case R_REV: for (auto i = k.rbegin(), z = k.rend(); i != z; ++i) h.add(idx(&*i)); break;
#endif
#if TREE
    case R_LB: { E q(o.a); auto i = k.lower_bound(q); PUT(i); break; }
    case R_UB: { E q(o.a); auto i = k.upper_bound(q); PUT(i); break; }
    case R_BOUND: { E q(o.a), z(o.b); auto r = k.bounded_range(q, z, true, o.a == o.b); for (auto i = r.first; i != r.second; ++i) h.add(idx(&*i)); break; }
    case R_CHECK: k.check(); break;
    case R_ROOT: { auto i = k.root(); PUT(i);
#if MC_KIND == 9
      if (!k.empty()) { auto t = k.top(); PUT(t); }
#endif
      break; }
#if MC_KIND == 7
    case W_SPLAY: m.splay_up(m.iterator_to(el(o.a))); break;
#endif
#if MC_KIND >= 6 && MC_KIND <= 8
    case W_REB: m.rebalance(); break;
#endif
    case W_INSB: h.add(idx(&*m.insert(m.end(), el(o.a)))); break;
#endif
#if HASH
    case R_BUCKET: { E q(o.a); h.add(k.bucket(q)); h.add(k.bucket_count()); for (size_t b = 0; b < k.bucket_count(); ++b) h.add(k.bucket_size(b)); h.add(k.hash_function()(q)); break; }
    case R_LOCAL: for (size_t b = 0; b < k.bucket_count(); ++b) { for (auto i = k.begin(b), z = k.end(b); i != z; ++i) h.add(idx(&*i)); } break;
    case R_CHECK: h.add(k.split_count()); break;
    case W_REHASH: m.rehash(bt(c, o.a)); break;
#if MC_KIND == 12
    case W_INCR: h.add(m.incremental_rehash(o.a)); break;
#endif
#else
    case R_FRONT: if (!k.empty()) { 
#if LIST
      h.add(idx(&k.front())); 
#if MC_KIND == 0
      h.add(idx(&k.back()));
#endif
#else
      h.add(idx(&*k.begin()));
#endif
      } break;
#endif
#if LIST
#if MC_KIND == 0
    case W_INS: h.add(idx(&*m.insert(m.begin(), el(o.a)))); break;
    case W_INSB: m.push_back(el(o.a)); break;
    case W_POPB: m.pop_back(); break;
#else
    case W_INS: m.push_front(el(o.a)); break;
#if MC_KIND == 2 || !MC_AUTO
    case W_INSB: m.push_back(el(o.a)); break;
#endif
#endif
    case W_SORT: m.sort(); break;
    case W_REV: m.reverse(); break;
    case W_POPF: m.pop_front(); break;
#endif
    case W_ERA: m.erase(m.iterator_to(el(o.a))); break;
    case W_CLEAR: m.clear(); break;
#if MC_AUTO
    case W_UNLINK: el(o.a).unlink(); break;
#endif
  }
  return h.h;
}
static void members(int c, std::vector<int>& v) { v.clear(); for (int i = 0; i < N; ++i) if (wh(i) == c + 1) v.push_back(i); }
static void readers(int c, std::vector<O2>& o) {
  auto add = [&](int k, int a = 0, int b = 0) { o.push_back(O2{(uint8_t)k, (int8_t)a, (int8_t)b}); };
  add(R_FWD); add(R_SIZE); add(R_EMPTY); add(R_EQ); std::vector<int> m; members(c, m); for (int e : m) { add(R_LINKED, e); add(R_IT, e); }
  const int KM = KEY(N - 1);
  if (!LIST) for (int q = -1; q <= KM + 1; ++q) { add(R_FIND, q); add(R_COUNT, q); add(R_EQR, q); }
  if (TREE || MC_KIND == 0) add(R_REV);
  if (TREE) { for (int q = -1; q <= KM + 1; ++q) { add(R_LB, q); add(R_UB, q); add(R_BOUND, q, q); add(R_BOUND, q, KM + 1); } add(R_CHECK); add(R_ROOT); }
  if (HASH) { add(R_BUCKET, 0); add(R_BUCKET, 1); add(R_LOCAL); add(R_CHECK); } else add(R_FRONT);
}
static void writers(int c, std::vector<O2>& o, const std::vector<int>& fr) {
  auto add = [&](int k, int a = 0, int b = 0) { o.push_back(O2{(uint8_t)k, (int8_t)a, (int8_t)b}); };
  std::vector<int> m; members(c, m); const int KM = KEY(N - 1);
  for (int e : fr) { add(W_INS, e); if (!HASH && !(MC_KIND == 1 && MC_AUTO)) add(W_INSB, e); }
  for (int e : m) { add(W_ERA, e); if (MC_AUTO) add(W_UNLINK, e); if (MC_KIND == 7) add(W_SPLAY, e); }
  if (m.size()) add(W_CLEAR);
  if (!LIST) for (int q = 0; q <= KM; ++q) add(W_ERAKEY, q);
  if (MC_KIND == 7) for (int q = 0; q <= KM; ++q) add(W_FIND, q);
  if (MC_KIND >= 6 && MC_KIND <= 8 && m.size()) add(W_REB);
#if HASH
  if (MC_KIND != 14) add(W_REHASH, !w().x[c].buf);
#endif
  if (MC_KIND == 12) { add(W_INCR, 1); add(W_INCR, 0); }
  if (LIST && m.size()) { add(W_SORT); add(W_REV); add(W_POPF); if (MC_KIND == 0) add(W_POPB); }
}
static uint64_t g_schedules, g_pairs;
NOSAN static void co_entry() {
  int t = cur; g_res[t] = exec(g_op[t], g_on[t]); t = cur; co_done[t] = true;
  if (mode && !co_done[1 - t]) { cur = 1 - t; void* d; mc_switch(&d, sp_co[1 - t]); }
  cur = -1; void* d; mc_switch(&d, sp_main);
}
NOSAN static void co_make(int t) { void** s = (void**)(stk[t] + STK - 64); *--s = 0; *--s = (void*)co_entry; s -= 6; for (int i = 0; i < 6; ++i) s[i] = 0; sp_co[t] = s; co_done[t] = false; nacc[t] = 0; steps[t] = 0; }
// runs both operations under the schedule (mode 1: thread 0 is preempted at its a-th access, thread 1 at its b-th; mode 3: strict alternation)
NOSAN static void run2(int md, int a, int b) { mode = md; rec = false; switch_at[0] = a; switch_at[1] = b; co_make(0); co_make(1); cur = 0; mc_switch(&sp_main, sp_co[0]); cur = -1; mode = 0; ++g_schedules; }
NOSAN static void run1(int t) { mode = 0; rec = true; co_make(t); cur = t; mc_switch(&sp_main, sp_co[t]); cur = -1; rec = false; }
static bool in(const char* p, const void* b, size_t n) { return p >= (const char*)b && p < (const char*)b + n; }
static std::string where(const char* p) {
  for (int c = 0; c < 2; ++c) { if (in(p, w().x[c].mem, sizeof(T))) return mc::strf("container %c offset %d", 'X' + c, int(p - w().x[c].mem)); if (in(p, &w().x[c], sizeof(Box))) return mc::strf("buckets of %c", 'X' + c); }
  for (int i = 0; i < N; ++i) if (in(p, &w().el[i], sizeof(Slot))) return mc::strf("element %d offset %d", i, int(p - w().el[i].mem));
  return "static or foreign memory";
}
// footprint of the operation just run as thread t on container c, with argument element e (or -1)
static void own(int t, int c, int e, bool reader, const std::string& n) {
  for (int i = 0; i < nacc[t]; ++i) {
    const Acc& a = acc[t][i];
    if (reader) REQ("readonly", !a.wr, "%s of container %c writes %s", n.c_str(), 'X' + c, where(a.p).c_str());
    if (!in(a.p, mc::g_arena, sizeof(W))) { REQ("static", !a.wr, "%s writes memory that belongs to neither the container nor its elements", n.c_str()); continue; }
    bool ok = in(a.p, &w().x[c], sizeof(Box)) || in(a.p, w().where, sizeof w().where);
    for (int j = 0; j < N && !ok; ++j) if (in(a.p, &w().el[j], sizeof(Slot))) ok = j == e || wh(j) == c + 1;
    REQ("footprint", ok, "%s on container %c %s %s", n.c_str(), 'X' + c, a.wr ? "writes" : "reads", where(a.p).c_str());
  }
  REQ("internal", nacc[t] < MAXA, "access buffer too small");
}
struct Fp { std::vector<std::pair<uint32_t, uint32_t>> r, wr; uint64_t res; int n; std::string post; };
static void fp_of(int t, Fp& f) { f.r.clear(); f.wr.clear(); f.n = nacc[t]; f.res = g_res[t]; for (int i = 0; i < nacc[t]; ++i) { const Acc& a = acc[t][i]; if (!in(a.p, mc::g_arena, sizeof(W))) continue; uint32_t o = (uint32_t)(a.p - mc::g_arena); (a.wr ? f.wr : f.r).push_back(std::make_pair(o, o + a.n)); } auto fix = [](std::vector<std::pair<uint32_t, uint32_t>>& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }; fix(f.r); fix(f.wr); }
static bool overlap(const std::vector<std::pair<uint32_t, uint32_t>>& a, const std::vector<std::pair<uint32_t, uint32_t>>& b) { for (auto& x : a) for (auto& y : b) if (x.first < y.second && y.first < x.second) return true; return false; }
static std::string opn(const O2& o, int c) { return mc::strf("%s(%d,%d)@%c", nm[o.k], o.a, o.b, 'X' + c); }
static int g_pb2 = 2, g_pbr = 2;
struct Sys {
  static size_t image_size() { return sizeof(W); }
  void restored() {}
  int variants() { return 1; }
  enum { INS, ERA, FINDW, REHASH, INCR, SORT, PAIRS };
  std::string name(const mc::Op& o) { static const char* n[] = {"insert", "erase", "find", "rehash", "incremental_rehash", "reverse", "pairs"}; return mc::strf("%s(%c,%d)", n[o.k], 'X' + o.a[0], o.a[1]); }
  void init(int) {
    memset(mc::g_arena, mc::g_fill, sizeof(W)); for (int i = 0; i < N; ++i) { new (w().el[i].mem) E(KEY(i)); w().where[i] = 0; }
    for (int c = 0; c < 2; ++c) {
#if HASH
      typedef T::bucket_type BT; for (int i = 0; i < 16; ++i) new ((BT*)w().x[c].b + i) BT(); w().x[c].buf = 0; new (w().x[c].mem) T(bt(c, 0));
#else
      new (w().x[c].mem) T();
#endif
    }
  }
  void ops(std::vector<mc::Op>& o) {
    for (int c = 0; c < 2; ++c) {
      int n = 0; for (int i = 0; i < N; ++i) n += wh(i) == c + 1;
      for (int i = 0; i < N; ++i) { if (!wh(i)) { o.push_back(mc::mk(INS, c, i, 0)); if (LIST && n) o.push_back(mc::mk(INS, c, i, 1)); } else if (wh(i) == c + 1) o.push_back(mc::mk(ERA, c, i)); }
#if MC_KIND == 7
      for (int q = 0; q <= KEY(N - 1); ++q) o.push_back(mc::mk(FINDW, c, q));
#endif
#if HASH && MC_KIND != 14
      o.push_back(mc::mk(REHASH, c, !w().x[c].buf));
#endif
#if MC_KIND == 12
      o.push_back(mc::mk(INCR, c, 1)); o.push_back(mc::mk(INCR, c, 0));
#endif
    }
    o.push_back(mc::mk(PAIRS));
  }
  bool step(const mc::Op& o) {
    const int c = o.a[0], e = o.a[1];
    switch (o.k) {
      case INS: { if (LIST && o.a[2]) { exec(O2{W_REV, 0, 0}, c); exec(O2{W_INS, (int8_t)e, 0}, c); exec(O2{W_REV, 0, 0}, c); w().where[e] = c + 1; return true; }
        exec(O2{W_INS, (int8_t)e, 0}, c); w().where[e] = c + 1; return true; }
      case ERA: exec(O2{W_ERA, (int8_t)e, 0}, c); w().where[e] = 0; return true;
      case FINDW: exec(O2{W_FIND, (int8_t)e, 0}, c); return true;
      case REHASH: exec(O2{W_REHASH, (int8_t)e, 0}, c);
#if HASH
        w().x[c].buf = (int8_t)e;
#endif
        return true;
      case INCR: exec(O2{W_INCR, (int8_t)e, 0}, c); return true;
      case PAIRS: pairs(); return false;
    }
    return false;
  }
  static void load(const std::string& s) { memcpy(mc::g_arena, s.data(), sizeof(W)); }
  void pairs() {
    static std::vector<O2> rd[2], wr[2]; static std::vector<Fp> fr[2], fw[2];
    std::string img(mc::g_arena, sizeof(W)); std::vector<int> fre, half[2]; for (int i = 0; i < N; ++i) if (!wh(i)) fre.push_back(i);
    const int used = N - (int)fre.size();
    for (int c = 0; c < 2; ++c) {
      rd[c].clear(); wr[c].clear(); fr[c].clear(); fw[c].clear(); readers(c, rd[c]); writers(c, wr[c], fre);
      for (auto& o : rd[c]) { load(img); g_op[c] = o; g_on[c] = c; run1(c); own(c, c, -1, true, opn(o, c)); REQ("readonly", !memcmp(mc::g_arena, img.data(), sizeof(W)), "%s changed memory", opn(o, c).c_str()); Fp f; fp_of(c, f); fr[c].push_back(f); mc::count("reader footprints"); }
      for (auto& o : wr[c]) { load(img); g_op[c] = o; g_on[c] = c; run1(c); int e = o.k == W_INS || o.k == W_INSB ? o.a : -1; own(c, c, e, false, opn(o, c)); Fp f; fp_of(c, f); f.post.assign(mc::g_arena, sizeof(W)); fw[c].push_back(f); mc::count("writer footprints"); }
    }
    auto pair = [&](const O2& a, int ca, const Fp& fa, const O2& b, int cb, const Fp& fb) {
      ++g_pairs; mc::count("pairs");
      std::string n = opn(a, ca) + " || " + opn(b, cb);
      REQ("race", !overlap(fa.wr, fb.wr) && !overlap(fa.wr, fb.r) && !overlap(fa.r, fb.wr), "conflicting accesses of %s", n.c_str());
      // expected final memory: both effects (they are disjoint)
      std::string want = img; for (const Fp* f : {&fa, &fb}) if (!f->post.empty()) for (size_t i = 0; i < sizeof(W); ++i) if (f->post[i] != img[i]) want[i] = f->post[i];
      auto sched = [&](int md, int i, int j) {
        load(img); g_op[0] = a; g_op[1] = b; g_on[0] = ca; g_on[1] = cb; run2(md, i, j); mc::count("schedules");
        REQ("schedule", g_res[0] == fa.res && g_res[1] == fb.res, "%s: results differ from the sequential execution (schedule %d/%d/%d)", n.c_str(), md, i, j);
        REQ("schedule", !memcmp(mc::g_arena, want.data(), sizeof(W)), "%s: memory differs from the sequential execution (schedule %d/%d/%d)", n.c_str(), md, i, j);
      };
      sched(3, 0, 0); 
      const bool rr = fa.post.empty() && fb.post.empty();
      if ((fa.post.empty() || fb.post.empty()) && used > g_pbr) return;   // a reader takes part: every schedule only in the small states
      for (int i = 0; i < fa.n; ++i) { sched(1, i, -1); if (used <= g_pb2 && !rr) for (int j = 0; j < fb.n; ++j) sched(1, i, j); }
    };
    for (size_t i = 0; i < wr[0].size(); ++i) for (size_t j = 0; j < wr[1].size(); ++j) {
      const O2 &a = wr[0][i], &b = wr[1][j]; if ((a.k == W_INS || a.k == W_INSB) && (b.k == W_INS || b.k == W_INSB) && a.a == b.a) continue;
      pair(a, 0, fw[0][i], b, 1, fw[1][j]);
    }
    for (size_t i = 0; i < rd[0].size(); ++i) for (size_t j = 0; j < wr[1].size(); ++j) pair(rd[0][i], 0, fr[0][i], wr[1][j], 1, fw[1][j]);
    for (size_t i = 0; i < rd[0].size(); ++i) for (size_t j = 0; j < rd[0].size(); ++j) pair(rd[0][i], 0, fr[0][i], rd[0][j], 0, fr[0][j]);
    load(img);
  }
  void check() {}
  std::string canon() {
    mc::Canon c; W& x = w(); c.obj(&x.x[0], sizeof(Box)); c.obj(&x.x[1], sizeof(Box)); for (int i = 0; i < N; ++i) c.obj(&x.el[i], sizeof(Slot)); c.range(mc::g_arena, sizeof(W)); return c.key();
  }
};
NOSAN static void stack_bounds() { char c; main_lo = &c - (1 << 20); main_hi = &c + (1 << 16); }
int main(int argc, char** argv) {
  stack_bounds(); static Sys s; mc::Opts o; o.max_states = 100000; 
  for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--pb2")) g_pb2 = atoi(argv[i + 1]);
  for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--pbr")) g_pbr = atoi(argv[i + 1]);
  return mc::engine_main(argc, argv, s, o, "race");
}
