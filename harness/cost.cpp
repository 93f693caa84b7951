// C22: documented complexity, measured through counting node traits and counting functors.
// Every position of every structure of up to MC_SMALL elements, and every position of structures of MC_BIG elements.
// MC_KIND 0 list, 1 slist, 2 tree, 3 unordered;   MC_SAFE link mode safe / normal;   MC_CTS constant_time_size
// list/slist: MC_LINEAR MC_CACHE;  tree: MC_TREE 0 bs 1 rb 2 avl 3 splay 4 sg 5 treap;
// unordered: MC_API 0 unique, 1 multi; MC_SH MC_MK MC_CB MC_LB MC_POL (0 modulo, 1 power of two, 2 incremental, 3 fastmod)
#ifndef MC_KIND
#define MC_KIND 0
#endif
#ifndef MC_SAFE
#define MC_SAFE 1
#endif
#ifndef MC_CTS
#define MC_CTS 1
#endif
#ifndef MC_LINEAR
#define MC_LINEAR 0
#endif
#ifndef MC_CACHE
#define MC_CACHE 0
#endif
#ifndef MC_TREE
#define MC_TREE 1
#endif
#ifndef MC_API
#define MC_API 1
#endif
#ifndef MC_SH
#define MC_SH 0
#endif
#ifndef MC_MK
#define MC_MK 0
#endif
#ifndef MC_CB
#define MC_CB 0
#endif
#ifndef MC_LB
#define MC_LB 0
#endif
#ifndef MC_POL
#define MC_POL 0
#endif
#ifndef MC_SMALL
#define MC_SMALL 10
#endif
#ifndef MC_BIG
#define MC_BIG 300
#endif
#include "core.hpp"
#include <functional>
#include <memory>
#include <cmath>
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/hashtable.hpp>
namespace bi = boost::intrusive;
static size_t g_acc; static long g_cmp, g_pri, g_hash, g_eq;
static const bi::link_mode_type LM = MC_SAFE ? bi::safe_link : bi::normal_link;
enum { SMALL = MC_SMALL, BIG = MC_BIG, K = 64 };      // K: what "constant" may cost at most; BIG is several times larger
static mc::Report R; static std::string g_state;
struct Meter { size_t a = g_acc; long c = g_cmp, p = g_pri, h = g_hash, e = g_eq; };
static void reset() { g_acc = 0; g_cmp = g_pri = g_hash = g_eq = 0; }
// one measured operation: `acc` node accesses and `fun` functor calls are allowed
static void over(const char* op, const std::string& what) {
  if (!mc::active("cost")) return; ++R.nviol; if (++R.percat[op] > 3) return;
  mc::Report::V r; r.cat = "cost"; r.op = op; r.msg = std::string(op) + " on " + g_state + ": " + what; r.variant = 0; r.hist.push_back(r.msg); R.viols.push_back(r);
}
static size_t g_worst; static std::string g_worst_op;
template<class F> static void op(const char* name, size_t acc, long fun, F f) {
  reset(); f(); size_t a = g_acc; long c = g_cmp + g_pri + g_hash + g_eq; ++R.transitions; ++R.opcount[name];
  if (a > acc) over(name, mc::strf("%zu node accesses, at most %zu are documented", a, acc));
  if (c > fun) over(name, mc::strf("%ld functor calls, at most %ld are documented", c, fun));
}
#define ST(...) (g_state = mc::strf(__VA_ARGS__))
template<class F> static void guard(F f) {
  if (R.nviol > 5000) { R.complete = false; R.cap = "stopped after violations"; return; }
  mc::Violation v; if (mc::guarded(f, v, 400) && mc::active(v.cat)) { ++R.nviol; mc::Report::V r; r.cat = v.cat; r.op = "sequence"; r.msg = g_state + ": " + v.msg; r.variant = 0; r.hist.push_back(r.msg); R.viols.push_back(r); }
  if (v.cat == "hang") R.nviol += 2501;
}
static void state() { ++R.states; ++R.validated; if (R.samples.size() < 6) R.samples.push_back(g_state); }
static std::vector<int> positions(int n) { std::vector<int> v; for (int i = 0; i <= n; ++i) v.push_back(i); return v; }
static const int SIZES[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, BIG};

#if MC_KIND <= 1
#if MC_KIND == 0
typedef bi::list_node_traits<void*> BT;
#else
typedef bi::slist_node_traits<void*> BT;
#endif
struct CNT : BT {
  typedef BT::node_ptr node_ptr; typedef BT::const_node_ptr const_node_ptr;
  static node_ptr get_next(const const_node_ptr& n) { ++g_acc; return BT::get_next(n); }
  static void set_next(const node_ptr& n, const node_ptr& v) { ++g_acc; BT::set_next(n, v); }
#if MC_KIND == 0
  static node_ptr get_previous(const const_node_ptr& n) { ++g_acc; return BT::get_previous(n); }
  static void set_previous(const node_ptr& n, const node_ptr& v) { ++g_acc; BT::set_previous(n, v); }
#endif
};
struct E : BT::node { int key; };
static inline bool operator<(const E& a, const E& b) { ++g_cmp; return a.key < b.key; }
static inline bool operator==(const E& a, const E& b) { ++g_eq; return a.key == b.key; }
struct VT { typedef CNT node_traits; typedef E value_type; typedef BT::node_ptr node_ptr; typedef BT::const_node_ptr const_node_ptr; typedef E* pointer; typedef const E* const_pointer; static const bi::link_mode_type link_mode = LM;
  static node_ptr to_node_ptr(E& e) { return &e; } static const_node_ptr to_node_ptr(const E& e) { return &e; } static pointer to_value_ptr(const node_ptr& n) { return static_cast<E*>(n); } static const_pointer to_value_ptr(const const_node_ptr& n) { return static_cast<const E*>(n); } };
struct Less { bool operator()(const E& a, const E& b) const { return a < b; } };
struct Pred { int m; bool operator()(const E& e) const { ++g_eq; return e.key % m == 0; } };
struct Dis { void operator()(E*) const {} };
#if MC_KIND == 0
typedef bi::list<E, bi::value_traits<VT>, bi::constant_time_size<MC_CTS != 0> > L;
#else
typedef bi::slist<E, bi::value_traits<VT>, bi::constant_time_size<MC_CTS != 0>, bi::linear<MC_LINEAR != 0>, bi::cache_last<MC_CACHE != 0> > L;
#endif
struct S { std::vector<E> a, b; E x; L l, m; int n, k;
  S(int n_, int k_) : a(n_), b(k_), n(n_), k(k_) { for (auto* v : {&a, &b}) for (auto& e : *v) clean(e); clean(x); x.key = 1; for (int i = 0; i < n; ++i) { a[i].key = 2 * i; } for (int i = 0; i < k; ++i) b[i].key = 2 * i + 1; fill(l, a); fill(m, b); }
  static void clean(E& e) { L::node_algorithms::init(&e); }
  static void fill(L& l, std::vector<E>& v) { for (size_t i = v.size(); i; --i) l.push_front(v[i - 1]); }
  ~S() { l.clear(); m.clear(); } };
template<class It> static It adv(It i, int n) { while (n--) ++i; return i; }
static const int LK = K;
static void all() {
  for (int n : SIZES) for (int k : {0, 1, 3, (int)BIG}) {
    if (n != BIG && k == BIG && n > 3) continue;
    ST("a list of %d elements and another of %d", n, k); state();
    guard([&] {
    const size_t RNG = LK;
    { S s(n, k); op("default construction", LK, 0, [&] { L t; (void)t; }); op("begin/end", LK, 0, [&] { s.l.begin(); s.l.end(); s.l.cbegin(); s.l.cend(); }); op("empty", LK, 0, [&] { (void)s.l.empty(); });
      op("size", MC_CTS ? LK : LK + 4 * n, 0, [&] { (void)s.l.size(); }); op("swap", (MC_KIND == 0 || MC_LINEAR || MC_CACHE) ? LK : LK + 4 * (n + k), 0, [&] { s.l.swap(s.m); }); }
    { S s(n, k); op("move construction", (MC_KIND == 0 || MC_LINEAR || MC_CACHE) ? LK : LK + 4 * n, 0, [&] { L t(boost::move(s.l)); s.l.swap(t); }); }
    { S s(n, k); op("push_front", LK, 0, [&] { s.l.push_front(s.x); }); op("pop_front", LK, 0, [&] { s.l.pop_front(); }); op("push_front", LK, 0, [&] { s.l.push_front(s.x); }); op("front", LK, 0, [&] { (void)s.l.front(); }); op("pop_front_and_dispose", LK, 0, [&] { s.l.pop_front_and_dispose(Dis()); }); }
    if (n) { S s(n, k); op("iterator_to", LK, 0, [&] { (void)s.l.iterator_to(s.a[n - 1]); (void)L::s_iterator_to(s.a[0]); }); }
#if MC_KIND == 0 || MC_CACHE
    { S s(n, k); op("push_back", LK, 0, [&] { s.l.push_back(s.x); }); op("back", LK, 0, [&] { (void)s.l.back(); }); }
#endif
#if MC_KIND == 0
    { S s(n, k); op("push_back", LK, 0, [&] { s.l.push_back(s.x); }); op("pop_back", LK, 0, [&] { s.l.pop_back(); }); op("push_back", LK, 0, [&] { s.l.push_back(s.x); }); op("pop_back_and_dispose", LK, 0, [&] { s.l.pop_back_and_dispose(Dis()); }); }
    { S s(n, k); op("rbegin/rend", LK, 0, [&] { if (n) (void)*s.l.rbegin(); s.l.rend(); }); }
    for (int c : {0, 1, 2}) { S s(n, k); op("shift_forward", LK + 8 * c, 0, [&] { s.l.shift_forward(c); }); op("shift_backwards", LK + 8 * c, 0, [&] { s.l.shift_backwards(c); }); }
#else
    for (int c : {0, 1, 2}) { S s(n, k); op("shift_forward", LK + 8 * n + 8 * c, 0, [&] { s.l.shift_forward(c); }); op("shift_backwards", LK + 8 * n + 8 * c, 0, [&] { s.l.shift_backwards(c); }); }
#if MC_CACHE
    { S s(n, k); op("last", LK, 0, [&] { s.l.last(); s.l.clast(); }); op("previous(end)", LK, 0, [&] { s.l.previous(s.l.end()); }); op("insert(end)", LK, 0, [&] { s.l.insert(s.l.end(), s.x); }); }
#endif
#endif
    { S s(n, k); op("clear", MC_SAFE ? LK + 6 * n : LK, 0, [&] { s.l.clear(); }); }
    { S s(n, k); op("clear_and_dispose", LK + 8 * n, 0, [&] { s.l.clear_and_dispose(Dis()); }); }
    { S s(n, k); op("reverse", LK + 24 * n, 0, [&] { s.l.reverse(); }); }
    { S s(n, k); op("sort", 2000 + 60 * n * (std::log2(n + 2) + 1), 2 * n * (std::log2(n + 2) + 1) + 2, [&] { s.l.sort(); }); s.l.reverse(); op("sort", 2000 + 60 * n * (std::log2(n + 2) + 1), 2 * n * (std::log2(n + 2) + 1) + 2, [&] { s.l.sort(Less()); }); }
    { S s(n, k); op("merge", LK + 16 * (n + k), n + k ? n + k - 1 : 0, [&] { s.l.merge(s.m); }); }
    { S s(n, k); op("remove_if", LK + 10 * n, n, [&] { s.l.remove_if(Pred{3}); }); }
    { S s(n, k); op("remove_and_dispose_if", LK + 10 * n, n, [&] { s.l.remove_and_dispose_if(Pred{3}, Dis()); }); }
    { S s(n, k); for (auto& e : s.a) e.key /= 4; op("unique", LK + 10 * n, n ? n - 1 : 0, [&] { s.l.unique(); }); }
    { S s(n, k); op("iteration", LK + 2 * n, 0, [&] { for (auto i = s.l.begin(); i != s.l.end(); ++i) {} }); }
    for (int p : positions(n)) {
#if MC_KIND == 0
      { S s(n, k); L::iterator i = adv(s.l.begin(), p); op("insert", LK, 0, [&] { i = s.l.insert(i, s.x); }); op("erase", LK, 0, [&] { s.l.erase(i); }); }
      { S s(n, k); L::iterator i = adv(s.l.begin(), p); op("splice all", LK, 0, [&] { s.l.splice(i, s.m); }); }
      if (k) { S s(n, k); L::iterator i = adv(s.l.begin(), p), j = adv(s.m.begin(), k / 2); op("splice one", LK, 0, [&] { s.l.splice(i, s.m, j); }); }
      for (int c : {0, 1, k}) if (c <= k) {
        { S s(n, k); L::iterator i = adv(s.l.begin(), p), e = adv(s.m.begin(), c); op("splice range", MC_CTS ? RNG + 4 * c : RNG, 0, [&] { s.l.splice(i, s.m, s.m.begin(), e); }); }
        { S s(n, k); L::iterator i = adv(s.l.begin(), p), e = adv(s.m.begin(), c); op("splice range with n", RNG, 0, [&] { s.l.splice(i, s.m, s.m.begin(), e, c); }); }
        { S s(n, k); L::iterator i = adv(s.l.begin(), p); s.m.clear(); op("insert range", RNG + 16 * c, 0, [&] { s.l.insert(i, s.b.begin(), s.b.begin() + c); }); }
      }
      if (p < n) for (int c : {1, 2, n - p}) if (p + c <= n) {
        { S s(n, k); L::iterator i = adv(s.l.begin(), p), e = adv(i, c); op("erase range", (MC_SAFE || MC_CTS) ? RNG + 6 * c : RNG, 0, [&] { s.l.erase(i, e); }); }
        { S s(n, k); L::iterator i = adv(s.l.begin(), p), e = adv(i, c); op("erase range with n", MC_SAFE ? RNG + 6 * c : RNG, 0, [&] { s.l.erase(i, e, c); }); }
        { S s(n, k); L::iterator i = adv(s.l.begin(), p), e = adv(i, c); op("erase_and_dispose range", RNG + 8 * c, 0, [&] { s.l.erase_and_dispose(i, e, Dis()); }); }
      }
#else
      { S s(n, k); L::iterator i = adv(s.l.before_begin(), p); op("insert_after", LK, 0, [&] { s.l.insert_after(i, s.x); }); op("erase_after", LK, 0, [&] { s.l.erase_after(i); }); op("insert_after", LK, 0, [&] { s.l.insert_after(i, s.x); }); op("erase_after_and_dispose", LK, 0, [&] { s.l.erase_after_and_dispose(i, Dis()); }); }
      { S s(n, k); L::iterator i = adv(s.l.before_begin(), p); op("splice_after all", (MC_CACHE || (MC_LINEAR && n == 0)) ? LK : LK + 4 * k, 0, [&] { s.l.splice_after(i, s.m); }); }
      if (k) { S s(n, k); L::iterator i = adv(s.l.before_begin(), p), j = adv(s.m.before_begin(), k / 2); op("splice_after one", LK, 0, [&] { s.l.splice_after(i, s.m, j); }); }
      for (int c : {0, 1, k}) if (c <= k) {
        { S s(n, k); L::iterator i = adv(s.l.before_begin(), p), e = adv(s.m.before_begin(), c); op("splice_after range", MC_CTS ? RNG + 4 * c : RNG, 0, [&] { s.l.splice_after(i, s.m, s.m.before_begin(), e); }); }
        { S s(n, k); L::iterator i = adv(s.l.before_begin(), p), e = adv(s.m.before_begin(), c); op("splice_after range with n", RNG, 0, [&] { s.l.splice_after(i, s.m, s.m.before_begin(), e, c); }); }
        { S s(n, k); L::iterator i = adv(s.l.before_begin(), p); s.m.clear(); if (c) { for (int q = 0; q + 1 < c; ++q) BT::set_next(&s.b[q], &s.b[q + 1]); 
          op("incorporate_after with n", LK, 0, [&] { s.l.incorporate_after(i, &s.b[0], &s.b[c - 1], c); }); } }
        { S s(n, k); L::iterator i = adv(s.l.before_begin(), p); s.m.clear(); if (c) { for (int q = 0; q + 1 < c; ++q) BT::set_next(&s.b[q], &s.b[q + 1]);
          op("incorporate_after", MC_CTS ? LK + 4 * c : LK, 0, [&] { s.l.incorporate_after(i, &s.b[0], &s.b[c - 1]); }); } }
      }
      if (p < n) for (int c : {1, 2, n - p}) if (p + c <= n) {
        { S s(n, k); L::iterator i = adv(s.l.before_begin(), p), e = adv(s.l.begin(), p + c); op("erase_after range", (MC_SAFE || MC_CTS) ? RNG + 6 * c : RNG, 0, [&] { s.l.erase_after(i, e); }); }
        { S s(n, k); L::iterator i = adv(s.l.before_begin(), p), e = adv(s.l.begin(), p + c); op("erase_after range with n", MC_SAFE ? RNG + 6 * c : RNG, 0, [&] { s.l.erase_after(i, e, c); }); }
        { S s(n, k); L::iterator i = adv(s.l.before_begin(), p), e = adv(s.l.begin(), p + c); op("erase_after_and_dispose range", RNG + 8 * c, 0, [&] { s.l.erase_after_and_dispose(i, e, Dis()); }); }
        { S s(n, k); L::iterator i = adv(s.l.begin(), p), e = adv(i, c); op("erase range", RNG + 6 * (p + c), 0, [&] { s.l.erase(i, e); }); }
        { S s(n, k); L::iterator i = adv(s.l.begin(), p), e = adv(i, c); op("erase range with n", (!MC_SAFE && MC_CTS) ? RNG + 4 * p : RNG + 6 * (p + c), 0, [&] { s.l.erase(i, e, c); }); }
      }
      { S s(n, k); L::iterator i = adv(s.l.begin(), p); op("insert", LK + 3 * p, 0, [&] { i = s.l.insert(i, s.x); }); op("erase", LK + 3 * p, 0, [&] { s.l.erase(i); }); }
      { S s(n, k); L::iterator i = adv(s.l.begin(), p); op("previous", LK + 3 * p, 0, [&] { s.l.previous(i); }); }
      { S s(n, k); L::iterator i = adv(s.l.before_begin(), p), j = adv(i, p < n ? 1 : 0); if (p < n) op("previous(from)", LK, 0, [&] { s.l.previous(i, j); }); }
#endif
    } });
  }
}
#elif MC_KIND == 2
typedef std::pair<int, int> II;
#if MC_TREE == 1
typedef bi::rbtree_node_traits<void*> BT;
#elif MC_TREE == 2
typedef bi::avltree_node_traits<void*> BT;
#else
typedef bi::tree_node_traits<void*> BT;
#endif
#if 1
struct CNT : BT {
  typedef BT::node_ptr node_ptr; typedef BT::const_node_ptr const_node_ptr;
  static node_ptr get_parent(const const_node_ptr& n) { ++g_acc; return BT::get_parent(n); } static void set_parent(const node_ptr& n, const node_ptr& v) { ++g_acc; BT::set_parent(n, v); }
  static node_ptr get_left(const const_node_ptr& n) { ++g_acc; return BT::get_left(n); } static void set_left(const node_ptr& n, const node_ptr& v) { ++g_acc; BT::set_left(n, v); }
  static node_ptr get_right(const const_node_ptr& n) { ++g_acc; return BT::get_right(n); } static void set_right(const node_ptr& n, const node_ptr& v) { ++g_acc; BT::set_right(n, v); }
};
#endif
struct E : BT::node { int key; unsigned prio; };
struct VT { typedef CNT node_traits; typedef E value_type; typedef BT::node_ptr node_ptr; typedef BT::const_node_ptr const_node_ptr; typedef E* pointer; typedef const E* const_pointer; static const bi::link_mode_type link_mode = LM;
  static node_ptr to_node_ptr(E& e) { return &e; } static const_node_ptr to_node_ptr(const E& e) { return &e; } static pointer to_value_ptr(const node_ptr& n) { return static_cast<E*>(n); } static const_pointer to_value_ptr(const const_node_ptr& n) { return static_cast<const E*>(n); } };
struct Less { bool operator()(const E& a, const E& b) const { ++g_cmp; return a.key < b.key; } bool operator()(int a, const E& b) const { ++g_cmp; return a < b.key; } bool operator()(const E& a, int b) const { ++g_cmp; return a.key < b; } bool operator()(int a, int b) const { ++g_cmp; return a < b; } };
struct Prio { bool operator()(const E& a, const E& b) const { ++g_pri; return a.prio > b.prio; } bool operator()(unsigned a, unsigned b) const { ++g_pri; return a > b; } };
struct KOV { typedef int type; const int& operator()(const E& e) const { return e.key; } };
struct POV { typedef unsigned type; const unsigned& operator()(const E& e) const { return e.prio; } };
#define OPTS bi::value_traits<VT>, bi::key_of_value<KOV>, bi::compare<Less>
#if MC_TREE == 0
typedef bi::bs_set<E, OPTS, bi::constant_time_size<MC_CTS != 0> > U; typedef bi::bs_multiset<E, OPTS, bi::constant_time_size<MC_CTS != 0> > M;
#elif MC_TREE == 1
typedef bi::set<E, OPTS, bi::constant_time_size<MC_CTS != 0> > U; typedef bi::multiset<E, OPTS, bi::constant_time_size<MC_CTS != 0> > M;
#elif MC_TREE == 2
typedef bi::avl_set<E, OPTS, bi::constant_time_size<MC_CTS != 0> > U; typedef bi::avl_multiset<E, OPTS, bi::constant_time_size<MC_CTS != 0> > M;
#elif MC_TREE == 3
typedef bi::splay_set<E, OPTS, bi::constant_time_size<MC_CTS != 0> > U; typedef bi::splay_multiset<E, OPTS, bi::constant_time_size<MC_CTS != 0> > M;
#elif MC_TREE == 4
typedef bi::sg_set<E, OPTS> U; typedef bi::sg_multiset<E, OPTS> M;
#else
typedef bi::treap_set<E, OPTS, bi::priority<Prio>, bi::priority_of_value<POV>, bi::constant_time_size<MC_CTS != 0> > U; typedef bi::treap_multiset<E, OPTS, bi::priority<Prio>, bi::priority_of_value<POV>, bi::constant_time_size<MC_CTS != 0> > M;
#endif
struct Dis { void operator()(E*) const {} };
static int height(BT::const_node_ptr n) { if (!n) return 0; return 1 + std::max(height(BT::get_left(n)), height(BT::get_right(n))); }
template<class C> static int hgt(const C& c) { if (c.empty()) return 0; return height(BT::node_ptr(const_cast<E*>(&*c.croot()))); }
// the documented height: 2 log2(n + 1) for red-black trees, 1.44 log2(n + 2) for AVL trees, log base 1/alpha for scapegoat trees (alpha 0.7); for the others the actual height
static int logh(int n, int h) {
  if (MC_TREE == 1) return (int)(2 * std::log2(n + 1.0)) + 1; if (MC_TREE == 2) return (int)(1.4405 * std::log2(n + 2.0)) + 1; if (MC_TREE == 4) return (int)(std::log2(n + 1.0) / std::log2(1 / 0.7)) + 2; return h;
}
static std::vector<std::vector<int> > orders(int n, bool full) {    // insertion orders
  std::vector<std::vector<int> > r; std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i;
  if (full) { do r.push_back(p); while (std::next_permutation(p.begin(), p.end())); return r; }
  r.push_back(p); r.push_back(std::vector<int>(p.rbegin(), p.rend())); std::vector<int> z; for (int i = 0, j = n - 1; i <= j; ++i, --j) { z.push_back(i); if (i != j) z.push_back(j); } r.push_back(z); std::reverse(z.begin(), z.end()); r.push_back(z);
  std::vector<int> b; int w = 1; while (w < n) w *= 2; for (int s = w; s >= 1; s /= 2) for (int i = s - 1; i < n; i += 2 * s) b.push_back(i); r.push_back(b);
  std::vector<int> m; for (int i = 0; i < n; ++i) m.push_back((int)((long long)i * 61 % n)); std::sort(p.begin(), p.end()); if (std::set<int>(m.begin(), m.end()).size() == (size_t)n) r.push_back(m);
  return r;
}
template<class C> struct S { std::vector<E> e; E x, y, z; C c, d; int n;
  S(const std::vector<int>& o, int dup, unsigned pr) : e(o.size()), n((int)o.size()) { for (auto& q : e) clean(q); clean(x); clean(y); clean(z); for (int i = 0; i < n; ++i) { e[i].key = 4 * (i / dup) + 4; e[i].prio = pr == 0 ? i : pr == 1 ? 100000 - i : (unsigned)(i * 7919u % 100003u); } for (int i : o) ins(e[i]); x.prio = y.prio = z.prio = 50000; y.key = 4; ins2(y); }
  void ins(E& q) { c.insert(q); } void ins2(E& q) { d.insert(q); }
  static void clean(E& q) { C::node_algorithms::init(&q); }
  void keys(int k) { x.key = k; }
  ~S() { c.clear(); d.clear(); } };
static size_t RB(int h) { return K + 40 * (size_t)h; }                       // accesses of one insertion or erasure with its rebalancing
static const bool WORST = MC_TREE == 0 || MC_TREE == 1 || MC_TREE == 2;      // rebalancing is limited by the height in the worst case (scapegoat and splay trees: only amortised)
template<class C> static void one(const std::vector<int>& o, int dup, unsigned pr, bool multi, bool big) {
  const int n = (int)o.size();
  auto mk = [&](auto f) { S<C> s(o, dup, pr); f(s, s.c); };
  int h = 0; mk([&](S<C>&, C& c) { h = hgt(c); }); const int H = logh(n, h);
  if (h > H) over("height", mc::strf("height %d with %d elements", h, n));
  const bool SPL = MC_TREE == 3; const int A = SPL ? n : H;        // what one lookup may visit
  mk([&](S<C>& s, C& c) { const C& q = c;
    op("begin/end", K, 0, [&] { q.begin(); q.end(); q.cbegin(); q.cend(); c.begin(); if (n) (void)*q.begin(); }); op("rbegin/rend", K + (n ? 20 * h : 0), 0, [&] { q.rbegin(); q.rend(); if (n) (void)*q.rbegin(); }); op("empty", K, 0, [&] { (void)q.empty(); });
    op("size", (MC_CTS || MC_TREE == 4) ? K : K + 8 * n, 0, [&] { (void)q.size(); }); op("root", K, 0, [&] { q.root(); }); if (n) op("iterator_to", K, 0, [&] { (void)q.iterator_to(s.e[n / 2]); (void)C::s_iterator_to(s.e[0]); });
    op("swap", K, 0, [&] { c.swap(s.d); }); op("swap", K, 0, [&] { c.swap(s.d); });
    op("move construction", K, 0, [&] { C t(boost::move(c)); c.swap(t); });
    op("iteration", K + 16 * (size_t)n, 0, [&] { for (auto i = q.begin(); i != q.end(); ++i) {} }); op("reverse iteration", K + 16 * (size_t)n, 0, [&] { for (auto i = q.end(); i != q.begin(); --i) {} });
    if (n) op("replace_node", K, 0, [&] { s.x.key = s.e[n / 2].key; s.x.prio = s.e[n / 2].prio; c.replace_node(c.iterator_to(s.e[n / 2]), s.x); }); });
  for (int k = 2; k <= 4 * n / dup + 6; k += (big ? 2 * (1 + n / 64) : 2)) { mk([&](S<C>&, C& c) { const C& q = c; int cnt = 0; for (auto& e : q) cnt += e.key == k; g_state = mc::strf("%s of %d elements (%d per key, order %d.., height %d), key %d", multi ? "a multiset" : "a set", n, dup, n ? o[0] : 0, h, k);
    op("find const", K + 8 * H, H + 2, [&] { q.find(k); }); op("lower_bound const", K + 8 * H, H + 2, [&] { q.lower_bound(k); }); op("upper_bound const", K + 8 * H, H + 2, [&] { q.upper_bound(k); });
    op("equal_range const", K + 16 * H, 2 * H + 4, [&] { q.equal_range(k); }); op("count const", K + 16 * H + 8 * cnt, 2 * H + 4 + cnt, [&] { q.count(k); }); op("bounded_range const", K + 16 * H, 2 * H + 4, [&] { q.bounded_range(k, k + 4, true, true); }); });
    mk([&](S<C>&, C& c) { op("find", K + 40 * A, 3 * A + 4, [&] { c.find(k); }); }); mk([&](S<C>&, C& c) { op("lower_bound", K + 40 * A, 4 * A + 4, [&] { c.lower_bound(k); }); }); mk([&](S<C>&, C& c) { op("equal_range", K + 60 * A, 5 * A + 6, [&] { c.equal_range(k); }); });
    int cnt = 0; mk([&](S<C>&, C& c) { for (auto& e : c) cnt += e.key == k; });
    mk([&](S<C>&, C& c) { op("erase(key)", MC_TREE == 0 ? K + 16 * h + (size_t)cnt * (60 + 8 * h) : WORST ? K + 16 * h + (size_t)cnt * (60 + RB(H)) : K + 100 * (size_t)(n + 2) * (cnt + 1), (SPL ? 5 * (n + 2) : 2 * H + 6) + (MC_TREE == 5 ? 2 * h * cnt + 2 : 0) + cnt, [&] { c.erase(k); }); });
    mk([&](S<C>& s, C& c) { s.keys(k); op("insert", WORST ? RB(H) : K + 100 * (size_t)(n + 2), (SPL ? 5 * (n + 2) : H + 3) + (MC_TREE == 5 ? h + 2 : 0), [&] { c.insert(s.x); }); });
    // hinted: the hint is the upper bound
    if (!SPL) mk([&](S<C>& s, C& c) { s.keys(k); auto hint = static_cast<const C&>(c).upper_bound(k); if (multi || !cnt) op("insert with the right hint", WORST ? RB(H) : K + 100 * (size_t)(n + 2), 2 + (MC_TREE == 5 ? h + 2 : 0), [&] { c.insert(hint, s.x); }); });
  }
  // positional insertion, erasure through an iterator, commit: no comparison at all
  for (int p = 0; p <= n; p += (big ? 1 + n / 64 : 1)) {
    g_state = mc::strf("%s of %d elements (%d per key, order %d.., height %d), position %d", multi ? "a multiset" : "a set", n, dup, n ? o[0] : 0, h, p);
    auto at = [&](C& c) { auto i = c.begin(); for (int q = 0; q < p; ++q) ++i; return i; };
    const size_t A1 = WORST ? RB(H) : K + 100 * (size_t)(n + 2); const long F1 = MC_TREE == 5 ? 2 * h + 2 : 0;
    mk([&](S<C>& s, C& c) { auto i = at(c); s.keys(4 * (p / dup) + 2); if (i != c.end() && i->key < s.x.key) s.x.key = i->key; if (i != c.begin()) { auto j = i; --j; if (s.x.key < j->key) s.x.key = j->key; } op("insert_before", A1, F1, [&] { c.insert_before(i, s.x); }); });
    if (p < n) { mk([&](S<C>&, C& c) { auto i = at(c); op("erase(iterator)", A1, F1, [&] { c.erase(i); }); }); mk([&](S<C>&, C& c) { auto i = at(c); op("erase_and_dispose(iterator)", A1, F1, [&] { c.erase_and_dispose(i, Dis()); }); }); }
  }
  for (int f = 0; f < 2; ++f) mk([&](S<C>& s, C& c) { s.keys(f ? 1 : 4 * n + 10); op(f ? "push_front" : "push_back", WORST ? RB(H) : K + 100 * (size_t)(n + 2), MC_TREE == 5 ? h + 2 : 0, [&] { if (f) c.push_front(s.x); else c.push_back(s.x); }); });
  g_state = mc::strf("%s of %d elements (%d per key, order %d.., height %d)", multi ? "a multiset" : "a set", n, dup, n ? o[0] : 0, h);
  mk([&](S<C>&, C& c) { op("clear", MC_SAFE ? K + 16 * (size_t)n : K, 0, [&] { c.clear(); }); });
  mk([&](S<C>&, C& c) { op("clear_and_dispose", K + 16 * (size_t)n, 0, [&] { c.clear_and_dispose(Dis()); }); });
  // amortised: whole sequences
  const size_t SEQ = MC_TREE == 3 || MC_TREE == 4 || MC_TREE == 5 ? (size_t)(n + 1) * (size_t)(K + 60 * (std::log2(n + 2.0) + (MC_TREE == 5 || MC_TREE == 3 ? h : 0))) : (size_t)(n + 1) * (120 + (MC_TREE == 0 ? 8 * h : 0));
  mk([&](S<C>&, C& c) { op("erase all from the front", SEQ, MC_TREE == 5 ? 2 * (long)(n + 1) * (h + 1) : 0, [&] { while (!c.empty()) c.erase(c.begin()); }); });
  mk([&](S<C>&, C& c) { op("erase all from the back", SEQ, MC_TREE == 5 ? 2 * (long)(n + 1) * (h + 1) : 0, [&] { while (!c.empty()) { auto i = c.end(); --i; c.erase(i); } }); });
  mk([&](S<C>&, C& c) { if (MC_TREE == 4) return; op("unlink_leftmost_without_rebalance", K + 40 * (size_t)(n + 1), 0, [&] { while (c.unlink_leftmost_without_rebalance()) {} }); });
  mk([&](S<C>& s, C& c) { c.clear(); op("push_back all", SEQ, MC_TREE == 5 ? 4 * (n + 1) + (long)n * (pr == 1 ? 1 : 2) : 0, [&] { for (int i = 0; i < n; ++i) c.push_back(s.e[i]); }); });
  mk([&](S<C>& s, C& c) { c.clear(); op("insert a sorted range", SEQ, 3 * (n + 1) + (MC_TREE == 3 ? 6 * (n + 1) : 0) + (MC_TREE == 5 ? 6 * (n + 1) : 0), [&] { c.insert(s.e.begin(), s.e.end()); }); });
}
template<class C> static void commits(const std::vector<int>& o, unsigned pr, bool big) {
  const int n = (int)o.size();
  for (int k = 2; k <= 4 * n + 6; k += (big ? 4 * (1 + n / 64) : 4)) for (int hinted = 0; hinted < 2; ++hinted) { S<C> s(o, 1, pr); C& c = s.c; s.keys(k); typename C::insert_commit_data d; int h = hgt(c), H = logh(n, h);
    g_state = mc::strf("a set of %d elements (order %d..), key %d", n, n ? o[0] : 0, k); bool ok = false; auto hint = static_cast<const C&>(c).upper_bound(k);
#if MC_TREE == 5
    auto chk = [&] { ok = hinted ? c.insert_check(hint, k, Less(), s.x.prio, Prio(), d).second : c.insert_check(k, Less(), s.x.prio, Prio(), d).second; };
#else
    auto chk = [&] { ok = hinted ? c.insert_check(hint, k, Less(), d).second : c.insert_check(k, Less(), d).second; };
#endif
    op(hinted ? "insert_check with the right hint" : "insert_check", MC_TREE == 3 ? K + 60 * (size_t)(n + 1) : hinted && MC_TREE != 5 ? K + 8 * H : K + 20 * H, (hinted && MC_TREE != 3 ? 2 : MC_TREE == 3 ? 5 * (n + 2) : H + 3) + (MC_TREE == 5 ? h + 2 : 0), chk);
    if (!ok) { over("insert_check", "refused"); continue; }
    op("insert_commit", WORST ? RB(H) : K + 100 * (size_t)(n + 2), 0, [&] { c.insert_commit(s.x, d); });
  }
}
// whole histories at a size where an amortised cost above logarithmic shows: LARGE insertions in several orders, then all erasures
#ifndef MC_LARGE
#define MC_LARGE 12000
#endif
template<class C> static void large() {
  if (MC_TREE == 0) return; const int n = MC_LARGE; const double L = std::log2(n + 2.0);
  for (int pat = 0; pat < 6; ++pat) for (int how = 0; how < 3; ++how) {
    static const char* const names[] = {"ascending", "descending", "from both ends inwards", "from the middle outwards", "in runs", "strided"}; ST("%d insertions, keys %s", n, names[pat]); state();
    if (how && pat > 1) continue;
    std::vector<E> e(n); C c; for (auto& q : e) C::node_algorithms::init(&q);
    for (int i = 0; i < n; ++i) { e[i].key = pat == 0 ? i : pat == 1 ? n - i : pat == 2 ? (i & 1 ? n - i : i) : pat == 3 ? (i & 1 ? i : -i) : pat == 4 ? (i % 100) * 1000 + i / 100 : (int)((long long)i * 7919 % n); e[i].prio = (unsigned)(i * 2654435761u) >> 8; }
    const bool amort = MC_TREE >= 3; const size_t A = (size_t)(n * (amort ? 64 + 60 * L : 120 + 8 * 2 * L)); const long F = (long)(n * (MC_TREE == 3 ? 12 + 5 * L : MC_TREE == 5 ? 6 + 8 * L : 3 + 2 * L));
    op(how == 0 ? "insert, many" : how == 1 ? "push_back/push_front, many" : "insert with the right hint, many", how && MC_TREE < 3 ? (size_t)n * 140 : A, how && MC_TREE != 3 ? (MC_TREE == 5 ? (long)(n * (6 + 8 * L)) : 3 * n) : F, [&] { for (auto& q : e) { if (!how) c.insert(q); else if (how == 1) { if (pat) c.push_front(q); else c.push_back(q); } else c.insert(pat ? c.begin() : c.end(), q); } });
    if ((int)c.size() != n) over("insert, many", "elements lost");
    op("find, many", A, F, [&] { if (MC_TREE != 3) for (auto& q : e) static_cast<const C&>(c).find(q.key); else for (auto& q : e) c.find(q.key); });
    // (a splay tree only splays in lookups and insertions: erasing finds the next element through parents, which can be linear)
    if (MC_TREE != 3) op("erase, many", A, MC_TREE == 5 ? (long)(n * (6 + 8 * L)) : 0, [&] { for (auto& q : e) c.erase(c.iterator_to(q)); });
  }
}
static void all() {
  guard([&] { large<U>(); large<M>(); });
  for (int n = 0; n <= 6; ++n) for (auto& o : orders(n, true)) guard([&] { for (unsigned pr = 0; pr < (MC_TREE == 5 ? 3 : 1); ++pr) { ST("%d elements", n); state(); if (n <= 5) { one<U>(o, 1, pr, false, false); one<M>(o, 1, pr, true, false); if (n > 1) one<M>(o, 2, pr, true, false); } commits<U>(o, pr, false); } });
  for (int n : {7, 15, 16, 31, 33, 64, (int)BIG, 2 * (int)BIG + 1}) for (auto& o : orders(n, false)) guard([&] { for (unsigned pr = 0; pr < (MC_TREE == 5 ? 3 : 1); ++pr) { ST("%d elements", n); state(); one<U>(o, 1, pr, false, true); one<M>(o, 1, pr, true, true); one<M>(o, 3, pr, true, true); commits<U>(o, pr, true); } });
}
#else
#include "cost_hash.hpp"
#endif
int main(int argc, char** argv) {
  mc::install_traps(); double t0 = mc::now(); bool rep = false;
  for (int i = 1; i < argc; ++i) { if (!strcmp(argv[i], "--cats")) { std::string k = argv[++i]; size_t p = 0; while (p < k.size()) { size_t q = k.find(',', p); if (q == std::string::npos) q = k.size(); mc::g_cats.insert(k.substr(p, q - p)); p = q + 1; } } else if (!strcmp(argv[i], "--replay")) rep = true; }
  mc::g_rep = &R; R.depth = 1; all();
  if (rep) { for (auto& v : R.viols) printf("REPRODUCED [%s] %s\n", v.cat.c_str(), v.msg.c_str()); return !R.viols.empty(); }
  mc::emit(R, "cost", mc::now() - t0);
}
