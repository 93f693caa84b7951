// Default functors: every history of insertions and erasures (each element toggled, up to a depth) on containers declared
// without compare / hash / equal / priority options, compared after every step with operator<, operator== and priority_order.
// Macros: MC_PART 0 ordered containers, 1 unordered containers with integral keys, 2 with other keys; MC_DEPTH
#include "core.hpp"
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/hashtable.hpp>
#include <functional>
#include <memory>
#include <limits>
#include <cmath>
#include <type_traits>
#ifndef MC_PART
#define MC_PART 0
#endif
#ifndef MC_DEPTH
#define MC_DEPTH 6
#endif
namespace bi = boost::intrusive;
static mc::Report R; static int g_depth = MC_DEPTH;
static void bad(const std::string& type, const std::vector<int>& h, const mc::Violation& v) {
  if (!mc::active(v.cat)) return;
  R.nviol += v.cat == "hang" ? 60 : 1; if (++R.percat[v.cat + type] > 3) return;
  std::string s; for (int i : h) s += mc::strf(" %d", i);
  mc::Report::V r; r.cat = v.cat; r.op = type; r.msg = type + " with default functors, after toggling elements" + s + ": " + v.msg; r.variant = 0; r.hist.push_back(r.msg); R.viols.push_back(r);
}
#define CK(c, ...) do { if (!(c)) mc::fail("default", mc::strf(__VA_ARGS__)); } while (0)
// all sequences of toggles over n elements up to g_depth; Sys(): construct, toggle(i), check(), end()
template<class Sys> static void histories(const std::string& type, int n) {
  std::vector<int> h;
  std::function<void()> rec = [&] {
    if (R.nviol > 300) return;
    mc::Violation v; ++R.states; ++R.validated; R.transitions += h.size(); R.opcount[type] += 1;
    if (mc::guarded([&] { Sys s; for (int i : h) { s.toggle(i); s.check(); } s.check(); s.end(); }, v)) { bad(type, h, v); return; }
    if (h.size() == 4 && R.samples.size() < 3 && R.states % 37 == 5) { std::string t = type + ":"; for (int i : h) t += mc::strf(" %d", i); R.samples.push_back(t); }
    if ((int)h.size() < g_depth) for (int i = 0; i < n; ++i) { h.push_back(i); rec(); h.pop_back(); }
  };
  rec();
}
#if MC_PART == 0
// ------------------------------------------------------------------------------------------- ordered containers
enum { NE = 4 };
static const int KV[NE] = {3, 1, 3, 2}, PV[NE] = {2, 5, 1, 5};
static int TARGETS[8];
template<class Hook> struct ElA : Hook { int key, prio, id; };                       // operator< only; priority_order found by ADL
template<class H> bool operator<(const ElA<H>& a, const ElA<H>& b) { return a.key < b.key; }
template<class H> bool priority_order(const ElA<H>& a, const ElA<H>& b) { return a.prio > b.prio; }
template<class Hook> struct ElB : Hook { int key, prio, id; };                       // operator< only, priority is operator< as well
template<class H> bool operator<(const ElB<H>& a, const ElB<H>& b) { return a.key < b.key; }
template<class Hook> struct ElC : Hook { int key, prio, id; const int* ptr; short half; unsigned char uc; double dbl; };   // nothing: key_of_value / priority_of_value of built-in types
template<class E> struct KInt { typedef int type; const int& operator()(const E& e) const { return e.key; } };
template<class E> struct KPtr { typedef const int* type; const type& operator()(const E& e) const { return e.ptr; } };
template<class E> struct KNeg { typedef short type; const type& operator()(const E& e) const { return e.half; } };
template<class E> struct KUc { typedef unsigned char type; const type& operator()(const E& e) const { return e.uc; } };
template<class E> struct KDbl { typedef double type; const type& operator()(const E& e) const { return e.dbl; } };
template<class E> struct PInt { typedef int type; const int& operator()(const E& e) const { return e.prio; } };
template<class E> void setup(E& e, int i) { e.key = KV[i]; e.prio = PV[i]; e.id = i; }
template<class H> void setup(ElC<H>& e, int i) { e.key = KV[i]; e.prio = PV[i]; e.id = i; e.ptr = &TARGETS[KV[i]]; e.half = (short)(KV[i] * 20000 - 40000 + (KV[i] == 3 ? -65536 * 0 : 0)); e.uc = (unsigned char)(KV[i] * 80); e.dbl = KV[i] == 3 ? (i ? -0.0 : 0.0) : KV[i] == 1 ? -1e300 : -4.9e-324; }
struct Fam { bool unique, treap; };
// how the default order sees an element: rank in the expected order (equal ranks are equivalent), and priority rank (smaller is higher)
template<class E> struct Rank { static int key(int i) { return KV[i]; } static int prio(int i) { return -PV[i]; } };
template<class H> struct Rank<ElB<H>> { static int key(int i) { return KV[i]; } static int prio(int i) { return KV[i]; } };
template<class H> struct Rank<ElC<H>> { static int key(int i) { return KV[i]; } static int prio(int i) { return PV[i]; } };
template<class C> auto topof(C& c, int) -> decltype(&*c.top()) { return &*c.top(); }
template<class C> typename C::pointer topof(C&, ...) { return 0; }
template<class C, bool U, bool TREAP, class KOV> struct Ord {
  typedef typename C::value_type E; typedef typename C::key_type K;
  E e[NE]; C c; std::vector<int> m;      // m: ids in expected order
  Ord() { for (int i = 0; i < NE; ++i) setup(e[i], i); }
  const K& k(int i) { return KOV()(e[i]); }
  void toggle(int i) {
    for (size_t p = 0; p < m.size(); ++p) if (m[p] == i) { c.erase(c.iterator_to(e[i])); m.erase(m.begin() + p); return; }
    size_t p = 0; while (p < m.size() && Rank<E>::key(m[p]) <= Rank<E>::key(i)) ++p;
    if (U) { bool dup = p && Rank<E>::key(m[p - 1]) == Rank<E>::key(i); insu(i, dup, std::integral_constant<bool, U>()); if (dup) return; } else insu(i, false, std::integral_constant<bool, U>());
    m.insert(m.begin() + p, i);
  }
  void insu(int i, bool dup, std::true_type) { auto r = c.insert(e[i]); CK(r.second == !dup, "insert of %d returned %d", i, r.second); CK(r.first->id == (dup ? dupof(i) : i), "insert returned another element"); }
  void insu(int i, bool, std::false_type) { auto r = c.insert(e[i]); CK(r->id == i, "insert returned another element"); }
  int dupof(int i) { for (int j : m) if (Rank<E>::key(j) == Rank<E>::key(i)) return j; return -1; }
  void check() {
    std::vector<int> g; for (auto& x : c) g.push_back(x.id); CK(g == m, "order differs from the order of operator<"); CK(c.size() == m.size(), "size");
    for (int i = 0; i < NE; ++i) {
      int lo = 0, hi = 0; for (int j : m) { lo += Rank<E>::key(j) < Rank<E>::key(i); hi += Rank<E>::key(j) <= Rank<E>::key(i); }
      auto pos = [&](int p) { auto it = c.begin(); while (p--) ++it; return it; };
      CK(c.lower_bound(k(i)) == pos(lo), "lower_bound(%d)", i); CK(c.upper_bound(k(i)) == pos(hi), "upper_bound(%d)", i); CK((int)c.count(k(i)) == hi - lo, "count(%d)", i);
      auto f = c.find(k(i)); CK(hi > lo ? f != c.end() && Rank<E>::key(f->id) == Rank<E>::key(i) : f == c.end(), "find(%d)", i);
      for (int j = 0; j < NE; ++j) {
        bool want = Rank<E>::key(i) < Rank<E>::key(j); auto vc = c.value_comp(); auto kc = c.key_comp(); decltype(vc) vc2(vc); vc2 = vc; decltype(kc) kc2(kc); kc2 = kc;
        CK(kc(k(i), k(j)) == want && kc2(k(i), k(j)) == want, "key_comp()(%d,%d)", i, j); CK(vc(e[i], e[j]) == want && vc2(e[i], e[j]) == want, "value_comp()(%d,%d)", i, j);
      }
    }
    if (TREAP && !m.empty()) { E* t = boost::movelib::to_raw_pointer(topof(c, 0)); for (int j : m) CK(Rank<E>::prio(t->id) <= Rank<E>::prio(j), "top() is %d although %d has a higher priority", t->id, j); }
    c.check();
  }
  void end() { c.clear(); }
};
template<class E> struct Self { const E& operator()(const E& e) const { return e; } };
#define FAMILY(NAME, HOOK, SET, MSET, TREAP, ...) \
  histories<Ord<bi::SET<ElA<bi::HOOK<>>>, true, TREAP, Self<ElA<bi::HOOK<>>>>>(NAME "set, operator<", NE); \
  histories<Ord<bi::MSET<ElA<bi::HOOK<>>>, false, TREAP, Self<ElA<bi::HOOK<>>>>>(NAME "multiset, operator<", NE); \
  histories<Ord<bi::MSET<ElB<bi::HOOK<>>>, false, TREAP, Self<ElB<bi::HOOK<>>>>>(NAME "multiset, operator< only", NE); \
  { typedef ElC<bi::HOOK<>> E; histories<Ord<bi::SET<E, bi::key_of_value<KInt<E>> __VA_ARGS__>, true, TREAP, KInt<E>>>(NAME "set, int keys", NE); \
    histories<Ord<bi::MSET<E, bi::key_of_value<KPtr<E>> __VA_ARGS__>, false, TREAP, KPtr<E>>>(NAME "multiset, pointer keys", NE); \
    histories<Ord<bi::SET<E, bi::key_of_value<KUc<E>> __VA_ARGS__>, true, TREAP, KUc<E>>>(NAME "set, unsigned char keys", NE); \
    histories<Ord<bi::MSET<E, bi::key_of_value<KNeg<E>> __VA_ARGS__>, false, TREAP, KNeg<E>>>(NAME "multiset, short keys", NE); }
static void all() {
  FAMILY("", set_base_hook, set, multiset, false) FAMILY("avl_", avl_set_base_hook, avl_set, avl_multiset, false) FAMILY("bs_", bs_set_base_hook, bs_set, bs_multiset, false)
  FAMILY("splay_", bs_set_base_hook, splay_set, splay_multiset, false) FAMILY("sg_", bs_set_base_hook, sg_set, sg_multiset, false)
#define POV , bi::priority_of_value<PInt<E>>
  FAMILY("treap_", bs_set_base_hook, treap_set, treap_multiset, true, POV)
}
#else
// ------------------------------------------------------------------------------------------- unordered containers
namespace user {
struct Adl { int v; friend bool operator==(const Adl& a, const Adl& b) { return a.v == b.v; } friend std::size_t hash_value(const Adl& a) { return (std::size_t)a.v * 7; } };
struct ByBoost { int v; friend bool operator==(const ByBoost& a, const ByBoost& b) { return a.v == b.v; } };
enum Plain { P0 = -2, P1 = 0, P2 = 70000 }; enum class Scoped : unsigned char { A = 0, B = 200, C = 255 }; enum class Wide : long long { A = -1, B = 1LL << 40, C = 3 };
}
#include <boost/container_hash/hash.hpp>   // this Boost.Move does not count pointers, enums and nullptr_t as scalar: they take the documented boost::hash fallback
namespace boost { template<> struct hash<user::ByBoost> { std::size_t operator()(const user::ByBoost& b) const { return (std::size_t)b.v + 11; } }; }
template<class T> static bool same(const T& a, const T& b) { return a == b; }
template<class T, std::size_t N> static bool same(const T (&a)[N], const T (&b)[N]) { for (std::size_t i = 0; i < N; ++i) if (!same(a[i], b[i])) return false; return true; }
template<class T> struct ArrEq { bool operator()(const T& a, const T& b) const { return same(a, b); } };
enum { NV = 4 };
template<class K, class Hook> struct El : Hook { K key; int id; };
template<class E, class K> struct KOV { typedef K type; const K& operator()(const E& e) const { return e.key; } };
template<class K> struct Vals;      // fill(K&, i): NV values, some of them equal with another representation
template<class K> struct EqOpt { typedef bi::equal<bi::value_equal<K>> explicit_type; };
template<class C, class K, bool U> struct Uno {
  typedef typename C::value_type E; typedef typename C::bucket_type B;
  B b1[4], b2[4]; E e[NV]; std::unique_ptr<C> c; std::vector<int> m; bool second = false;
  Uno() { for (int i = 0; i < NV; ++i) { memset((void*)&e[i].key, 0x5A + i * 33, sizeof(K)); Vals<K>::fill(e[i].key, i); e[i].id = i; } c.reset(new C(typename C::bucket_traits(b1, 2))); }
  void toggle(int i) {
    for (size_t p = 0; p < m.size(); ++p) if (m[p] == i) { c->erase(c->iterator_to(e[i])); m.erase(m.begin() + p); return; }
    int dup = -1; for (int j : m) if (same(e[j].key, e[i].key)) dup = j;
    if (ins(i, dup, std::integral_constant<bool, U>())) m.push_back(i);
    if (m.size() == 2 || m.size() == 3) { c->rehash(typename C::bucket_traits(second ? b1 : b2, second ? 2 : 4)); second = !second; }
  }
  bool ins(int i, int dup, std::true_type) { auto r = c->insert(e[i]); CK(r.second == (dup < 0), "insert of an element %s returned %d", dup < 0 ? "without equal" : "equal to another", r.second); CK(r.first->id == (dup < 0 ? i : dup), "insert returned another element"); return dup < 0; }
  bool ins(int i, int, std::false_type) { auto r = c->insert(e[i]); CK(r->id == i, "insert returned another element"); return true; }
  void check() {
    CK(c->size() == m.size(), "size"); size_t n = 0; for (auto& x : *c) { ++n; bool in = false; for (int j : m) in |= j == x.id; CK(in, "foreign element"); } CK(n == m.size(), "iteration");
    for (int i = 0; i < NV; ++i) {
      size_t want = 0; for (int j : m) want += same(e[j].key, e[i].key);
      const K& k = e[i].key; CK(c->count(k) == want, "count(value %d) is %zu, %zu elements are equal to it", i, (size_t)c->count(k), want);
      auto f = c->find(k); CK(want ? f != c->end() && same(f->key, k) : f == c->end(), "find(value %d)", i);
      auto r = c->equal_range(k); size_t g = 0; for (; r.first != r.second; ++r.first, ++g) CK(same(r.first->key, k), "equal_range"); CK(g == want, "equal_range size");
      for (int j = 0; j < NV; ++j) if (same(e[i].key, e[j].key)) CK(c->hash_function()(e[i].key) == c->hash_function()(e[j].key), "equal values %d and %d have different hashes", i, j);
      for (int j = 0; j < NV; ++j) CK((bool)c->key_eq()(e[i].key, e[j].key) == same(e[i].key, e[j].key), "key_eq()(%d,%d)", i, j);
    }
  }
  void end() { c->clear(); }
};
template<class K, class H, bool SH, bool ARR> struct Cont { typedef El<K, H> E; typedef bi::unordered_set<E, bi::key_of_value<KOV<E, K>>> U; typedef bi::unordered_multiset<E, bi::key_of_value<KOV<E, K>>, bi::compare_hash<SH>> M; };
template<class K, class H, bool SH> struct Cont<K, H, SH, true> { typedef El<K, H> E; typedef bi::unordered_set<E, bi::key_of_value<KOV<E, K>>, bi::equal<ArrEq<K>>> U; typedef bi::unordered_multiset<E, bi::key_of_value<KOV<E, K>>, bi::compare_hash<SH>, bi::equal<ArrEq<K>>> M; };
template<class K> static void keytype(const char* name) {
  typedef bi::unordered_set_base_hook<> H0; typedef bi::unordered_set_base_hook<bi::store_hash<true>, bi::optimize_multikey<true>> H1;
  histories<Uno<typename Cont<K, H0, false, std::is_array<K>::value>::U, K, true>>(std::string("unordered_set of ") + name, NV);
  histories<Uno<typename Cont<K, H0, false, std::is_array<K>::value>::M, K, false>>(std::string("unordered_multiset of ") + name, NV);
  histories<Uno<typename Cont<K, H1, true, std::is_array<K>::value>::U, K, true>>(std::string("unordered_set (stored hash) of ") + name, NV);
  histories<Uno<typename Cont<K, H1, true, std::is_array<K>::value>::M, K, false>>(std::string("unordered_multiset (stored and compared hash) of ") + name, NV);
}
#define VALS(K, A, B, C_, D) template<> struct Vals<K> { static void fill(K& k, int i) { switch (i) { case 0: k = (A); break; case 1: k = (B); break; case 2: k = (C_); break; default: k = (D); } } };
template<class F> static void flt(F& k, int i, size_t bytes) { F v = i == 0 ? F(0) : i == 1 ? -F(0) : i == 2 ? std::numeric_limits<F>::infinity() : F(-1.5); memcpy((void*)&k, &v, bytes); }   // the padding of long double keeps its garbage
VALS(bool, false, true, false, true) VALS(char, 0, -1, 65, -1) VALS(signed char, -128, 127, 0, -128) VALS(unsigned char, 0, 255, 128, 255) VALS(short, -32768, 32767, -1, -1) VALS(unsigned short, 0, 65535, 32768, 0)
VALS(int, -1, 1, -2147483647 - 1, -1) VALS(unsigned, 0, 4294967295u, 7, 7) VALS(long, -1, 1L << 40, 3, -1) VALS(unsigned long, ~0ul, 0, 1ul << 63, ~0ul) VALS(long long, -1, 1LL << 62, -1, 2) VALS(unsigned long long, ~0ull, 5, 5, 1ull << 63)
VALS(wchar_t, L'a', L'b', L'a', 0) VALS(char16_t, 1, 65535, 1, 0) VALS(char32_t, 1, 65536, 1, 0)
static int g_t[3]; static const char* const g_s = "abc"; static void fn1() {} static void fn2() {} typedef void (*Fn)(); typedef int* IP; typedef const void* CVP; typedef std::nullptr_t NUL;
VALS(IP, &g_t[0], &g_t[1], (int*)0, &g_t[0]) VALS(CVP, g_s, g_s + 1, g_s, (const void*)0) VALS(Fn, &fn1, &fn2, (Fn)0, &fn1) VALS(NUL, nullptr, nullptr, nullptr, nullptr)
VALS(user::Plain, user::P0, user::P1, user::P2, user::P0) VALS(user::Scoped, user::Scoped::A, user::Scoped::B, user::Scoped::C, user::Scoped::B) VALS(user::Wide, user::Wide::A, user::Wide::B, user::Wide::C, user::Wide::A)
VALS(user::Adl, user::Adl{1}, user::Adl{2}, user::Adl{1}, user::Adl{-9}) VALS(user::ByBoost, user::ByBoost{1}, user::ByBoost{2}, user::ByBoost{1}, user::ByBoost{-9})
template<> struct Vals<float> { static void fill(float& k, int i) { flt(k, i, sizeof k); } }; template<> struct Vals<double> { static void fill(double& k, int i) { flt(k, i, sizeof k); } };
template<> struct Vals<long double> { static void fill(long double& k, int i) { if (i == 3) { long double v = 0; memcpy((void*)&k, &v, 10); } else flt(k, i, std::numeric_limits<long double>::digits == 64 ? 10 : sizeof k); } };
template<class T, std::size_t N> struct Vals<T[N]> { static void fill(T (&a)[N], int i) { for (std::size_t j = 0; j < N; ++j) Vals<T>::fill(a[j], j == N - 1 ? i : i / 2); } };
template<class T> static void exact() {        // every value of a small type: the hash depends on the value only, whatever bytes surround it
  std::map<T, std::size_t> seen; bi::detail::internal_hash_functor<T> h;
  for (int round = 0; round < 2; ++round) for (long v = std::numeric_limits<T>::min(); v <= (long)std::numeric_limits<T>::max(); ++v) { struct { unsigned char a; T t; unsigned char b; } s; memset(&s, round ? 0xFF : 0, sizeof s); s.t = (T)v; ++R.transitions; auto r = seen.insert(std::make_pair(s.t, h(s.t))); if (r.first->second != h(s.t)) mc::fail("default", mc::strf("hash of %ld differs between two evaluations", v)); }
}
template<class T> static void direct(const char* name, T a, T b) {      // the hash functions of the kinds of scalar types themselves: a == b, b elsewhere in memory
  std::size_t h1 = bi::detail::hash_value(a), h2; { volatile char pad[64] = {1}; (void)pad; T c = b; h2 = bi::detail::hash_value(c); } ++R.transitions; CK(h1 == h2, "hash_value of two equal %s differs", name);
}
static void directs() {
  direct<int*>("pointers", &g_t[1], &g_t[1]); direct<const char*>("pointers", g_s, g_s); direct<void*>("pointers", 0, 0); direct<Fn>("function pointers", &fn1, &fn1); direct<NUL>("nullptr_t", nullptr, nullptr);
  direct("enums", user::P2, user::P2); direct("enums", user::Wide::B, user::Wide::B); direct("enums", user::Scoped::C, user::Scoped::C); direct("floats", 0.0f, -0.0f); direct("doubles", 0.0, -0.0); direct("long doubles", 0.0L, -0.0L);
  std::map<std::size_t, int> m; for (int k = 0; k < 3; ++k) ++m[bi::detail::hash_value(&g_t[k])]; CK(m.size() == 3, "pointers into an array hash alike");
  m.clear(); for (int k = 0; k < 1000; ++k) ++m[bi::detail::hash_value((user::Wide)k)]; CK(m.size() > 100, "enumerators hash alike"); m.clear(); for (int k = 0; k < 1000; ++k) ++m[bi::detail::hash_value(k / 8.0)]; CK(m.size() > 100, "doubles hash alike");
  m.clear(); for (int k = 0; k < 1000; ++k) ++m[bi::detail::hash_value((long long)k << 40)]; CK(m.size() > 100, "integers hash alike");
}
static void all() {
#define KT(K) keytype<K>(#K);
#if MC_PART == 1
  KT(bool) KT(char) KT(signed char) KT(unsigned char) KT(short) KT(unsigned short) KT(int) KT(unsigned) KT(long) KT(unsigned long) KT(long long) KT(unsigned long long) KT(wchar_t) KT(char16_t) KT(char32_t)
#else
  KT(IP) KT(CVP) KT(Fn) KT(NUL) KT(user::Plain) KT(user::Scoped) KT(user::Wide) KT(user::Adl) KT(user::ByBoost) KT(float) KT(double) KT(long double) KT(int[3]) KT(float[2]) KT(long double[2]) KT(unsigned char[2][2]) KT(user::Adl[2])
#endif
  mc::Violation v; if (mc::guarded([&] { exact<signed char>(); exact<unsigned char>(); exact<short>(); exact<unsigned short>(); directs(); }, v)) bad("hash functor", {}, v);
}
#endif
int main(int argc, char** argv) {
  mc::install_traps(); double t0 = mc::now(); bool rep = false;
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "--cats")) { std::string k = argv[++i]; size_t p = 0; while (p < k.size()) { size_t q = k.find(',', p); if (q == std::string::npos) q = k.size(); mc::g_cats.insert(k.substr(p, q - p)); p = q + 1; } }
    else if (!strcmp(argv[i], "--deep")) g_depth = MC_DEPTH + 2;
    else if (!strcmp(argv[i], "--replay")) rep = true;
  }
  mc::g_rep = &R; R.depth = g_depth; all();
  if (R.nviol > 300) { R.complete = false; R.cap = "stopped after violations"; }
  if (rep) { for (auto& v : R.viols) printf("REPRODUCED [%s] %s\n", v.cat.c_str(), v.msg.c_str()); return !R.viols.empty(); }
  mc::emit(R, "defaults", mc::now() - t0);
}
