// C18 (trees): the documented node algorithms over user-defined node traits, on every tree of up to MC_N nodes and every pair of trees
// with up to MC_M nodes together.  Shapes are built link by link: every binary tree (plain, splay, scapegoat), every red-black colouring,
// every AVL tree, every heap-ordered assignment of priorities (treap).
// MC_ALGO 0 rb, 1 avl, 2 bs, 3 splay, 4 treap, 5 sg;  MC_PTR 0 raw, 1 self-relative
#ifndef MC_ALGO
#define MC_ALGO 0
#endif
#ifndef MC_N
#define MC_N 6
#endif
#ifndef MC_M
#define MC_M 5
#endif
#ifndef MC_PTR
#define MC_PTR 0
#endif
#include "core.hpp"
#include <boost/intrusive/rbtree_algorithms.hpp>
#include <boost/intrusive/avltree_algorithms.hpp>
#include <boost/intrusive/bstree_algorithms.hpp>
#include <boost/intrusive/splaytree_algorithms.hpp>
#include <boost/intrusive/treap_algorithms.hpp>
#include <boost/intrusive/sgtree_algorithms.hpp>
#include <functional>
#if MC_PTR == 1
#include "relptr.hpp"
template<class T> using Ptr = mc::rel_ptr<T>;
#else
template<class T> using Ptr = T*;
#endif
namespace bi = boost::intrusive;
enum { MAXN = (MC_N > MC_M ? MC_N : MC_M), POOL = 2 * MAXN + 4, HA = 0, HB = 1, FIRST = 2 };   // node numbers: two headers, tree nodes, outside nodes
struct Node { uint32_t canary; Ptr<Node> r; int meta; Ptr<Node> p; int key, prio; Ptr<Node> l; uint32_t canary2; };
static Node g[POOL]; static size_t g_acc;
template<class P> static Node* raw(const P& p) { return !p ? (Node*)0 : const_cast<Node*>(&*p); }
static Node* chk(Node* n) { ++g_acc; if (n < g || n >= g + POOL) mc::trap("crash", "a node algorithm used a pointer that is not a node"); return n; }
struct Traits {
  typedef Node node; typedef Ptr<Node> node_ptr; typedef Ptr<const Node> const_node_ptr;
  static node_ptr get_parent(const const_node_ptr& n) { return chk(raw(n))->p; }
  static void set_parent(const node_ptr& n, const node_ptr& v) { chk(raw(n))->p = v; }
  static node_ptr get_left(const const_node_ptr& n) { return chk(raw(n))->l; }
  static void set_left(const node_ptr& n, const node_ptr& v) { chk(raw(n))->l = v; }
  static node_ptr get_right(const const_node_ptr& n) { return chk(raw(n))->r; }
  static void set_right(const node_ptr& n, const node_ptr& v) { chk(raw(n))->r = v; }
#if MC_ALGO == 0
  enum color { RED = 7, BLACK = 11 };
  static color get_color(const const_node_ptr& n) { return (color)chk(raw(n))->meta; }
  static void set_color(const node_ptr& n, color c) { chk(raw(n))->meta = c; }
  static color black() { return BLACK; }
  static color red() { return RED; }
#elif MC_ALGO == 1
  enum balance { NEG = 5, ZERO = 9, POS = 2 };
  static balance get_balance(const const_node_ptr& n) { return (balance)chk(raw(n))->meta; }
  static void set_balance(const node_ptr& n, balance b) { chk(raw(n))->meta = b; }
  static balance negative() { return NEG; }
  static balance zero() { return ZERO; }
  static balance positive() { return POS; }
#endif
};
typedef Traits::node_ptr NP; typedef Traits::const_node_ptr CNP;
static NP P(int i) { return i < 0 ? NP() : boost::intrusive::pointer_traits<NP>::pointer_to(g[i]); }
static CNP CP(int i) { return i < 0 ? CNP() : boost::intrusive::pointer_traits<CNP>::pointer_to(g[i]); }
template<class X> static int idx(const X& p) { Node* r = raw(p); if (!r) return -1; if (r < g || r >= g + POOL) return -2; return int(r - g); }
static size_t g_cmp;
struct Cmp { bool operator()(const CNP& a, const CNP& b) const { ++g_cmp; return a->key < b->key; } bool operator()(int a, const CNP& b) const { ++g_cmp; return a < b->key; } bool operator()(const CNP& a, int b) const { ++g_cmp; return a->key < b; } };
struct PCmp { bool operator()(const CNP& a, const CNP& b) const { return a->prio > b->prio; } bool operator()(int a, const CNP& b) const { return a > b->prio; } bool operator()(const CNP& a, int b) const { return a->prio > b; } };
#if MC_ALGO == 0
typedef bi::rbtree_algorithms<Traits> A; static const char* ANAME = "rbtree_algorithms";
#elif MC_ALGO == 1
typedef bi::avltree_algorithms<Traits> A; static const char* ANAME = "avltree_algorithms";
#elif MC_ALGO == 2
typedef bi::bstree_algorithms<Traits> A; static const char* ANAME = "bstree_algorithms";
#elif MC_ALGO == 3
typedef bi::splaytree_algorithms<Traits> A; static const char* ANAME = "splaytree_algorithms";
#elif MC_ALGO == 4
typedef bi::treap_algorithms<Traits> A; static const char* ANAME = "treap_algorithms";
#else
typedef bi::sgtree_algorithms<Traits> A; static const char* ANAME = "sgtree_algorithms";
#endif
typedef bi::bstree_algorithms<Traits> BA;
//---------------------------------------------------------------- shapes: preorder lists over in-order positions
struct Tree { int n = 0, root = -1; std::vector<int> l, r, meta, prio; };   // in-order position numbers
typedef std::vector<Tree> Trees;
static Tree join(const Tree& a, const Tree& b, int meta, int prio = 0) {
  Tree t; t.n = a.n + 1 + b.n; t.root = a.n; t.l = a.l; t.r = a.r; t.meta = a.meta; t.prio = a.prio;
  t.l.push_back(a.root); t.r.push_back(b.root < 0 ? -1 : b.root + a.n + 1); t.meta.push_back(meta); t.prio.push_back(prio);
  for (int i = 0; i < b.n; ++i) { t.l.push_back(b.l[i] < 0 ? -1 : b.l[i] + a.n + 1); t.r.push_back(b.r[i] < 0 ? -1 : b.r[i] + a.n + 1); t.meta.push_back(b.meta[i]); t.prio.push_back(b.prio[i]); }
  return t;
}
static const Trees& shapes(int n);
#if MC_ALGO == 0
// colour of the root and black height
static const Trees& rb(int n, bool red, int bh) {
  static std::map<std::vector<int>, Trees> memo; std::vector<int> k = {n, red, bh}; auto it = memo.find(k); if (it != memo.end()) return it->second;
  Trees v; if (n == 0) { if (!red && bh == 0) v.push_back(Tree()); return memo[k] = v; }
  if (bh < 0 || (!red && bh == 0)) return memo[k] = v;
  for (int a = 0; a < n; ++a) for (int ca = 0; ca < (red ? 1 : 2); ++ca) for (int cb = 0; cb < (red ? 1 : 2); ++cb) { int h = bh - !red; Trees x = rb(a, ca, h), y = rb(n - 1 - a, cb, h); for (auto& p : x) for (auto& q : y) v.push_back(join(p, q, red ? Traits::RED : Traits::BLACK)); }
  return memo[k] = v;
}
static const Trees& shapes(int n) { static std::map<int, Trees> memo; if (!memo.count(n)) { Trees v; for (int h = 0; h <= 5; ++h) { const Trees& x = rb(n, false, h); v.insert(v.end(), x.begin(), x.end()); } memo[n] = v; } return memo[n]; }
#elif MC_ALGO == 1
static const Trees& avl(int n, int h) {
  static std::map<std::pair<int, int>, Trees> memo; std::pair<int, int> k(n, h); auto it = memo.find(k); if (it != memo.end()) return it->second;
  Trees v; if (h < 0 || n < 0) return memo[k] = v; if (n == 0) { if (h == 0) v.push_back(Tree()); return memo[k] = v; } if (h == 0) return memo[k] = v;
  for (int a = 0; a < n; ++a) for (int d = -1; d <= 1; ++d) { int ha = d > 0 ? h - 2 : h - 1, hb = d < 0 ? h - 2 : h - 1; Trees x = avl(a, ha), y = avl(n - 1 - a, hb); for (auto& p : x) for (auto& q : y) v.push_back(join(p, q, d < 0 ? Traits::NEG : d > 0 ? Traits::POS : Traits::ZERO)); }
  return memo[k] = v;
}
static const Trees& shapes(int n) { static std::map<int, Trees> memo; if (!memo.count(n)) { Trees v; for (int h = 0; h <= 6; ++h) { const Trees& x = avl(n, h); v.insert(v.end(), x.begin(), x.end()); } memo[n] = v; } return memo[n]; }
#elif MC_ALGO == 4
// priorities: every heap-ordered assignment of up to MC_P values (ties included), and every permutation
#ifndef MC_P
#define MC_P 3
#endif
static const Trees& heap(int n, int maxp, int P) {
  static std::map<std::vector<int>, Trees> memo; std::vector<int> k = {n, maxp, P}; auto it = memo.find(k); if (it != memo.end()) return it->second;
  Trees v; if (n == 0) { v.push_back(Tree()); return memo[k] = v; }
  for (int p = 0; p <= maxp; ++p) for (int a = 0; a < n; ++a) { Trees x = heap(a, p, P), y = heap(n - 1 - a, p, P); for (auto& q : x) for (auto& w : y) v.push_back(join(q, w, 0, p)); }
  return memo[k] = v;
}
static Tree cart(const std::vector<int>& pr, int b, int e) { if (b == e) return Tree(); int m = std::max_element(pr.begin() + b, pr.begin() + e) - pr.begin(); return join(cart(pr, b, m), cart(pr, m + 1, e), 0, pr[m]); }
static const Trees& shapes(int n) { static std::map<int, Trees> memo; if (!memo.count(n)) { Trees v; if (n <= 4) v = heap(n, MC_P - 1, MC_P); std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; if (n > 3) do v.push_back(cart(p, 0, n)); while (std::next_permutation(p.begin(), p.end())); memo[n] = v; } return memo[n]; }
#else
static const Trees& shapes(int n) { static std::map<int, Trees> memo; if (!memo.count(n)) { Trees v; if (n == 0) v.push_back(Tree()); for (int a = 0; a < n; ++a) for (auto& p : shapes(a)) for (auto& q : shapes(n - 1 - a)) v.push_back(join(p, q, 0)); memo[n] = v; } return memo[n]; }
#endif
//---------------------------------------------------------------- building and reading back
static mc::Report R; static const Tree *TA, *TB; static unsigned MASK; /* bit i: positions i and i+1 of tree A have equal keys */ static int OUT;   // first outside node
static std::string show(const Tree& t, int i) { if (i < 0) return "."; std::string s = "(" + show(t, t.l[i]) + mc::strf("%d", i); if (MC_ALGO == 0) s += t.meta[i] == 7 ? "r" : "b"; if (MC_ALGO == 4) s += mc::strf("^%d", t.prio[i]); return s + show(t, t.r[i]) + ")"; }
// node numbers: position i of tree a is FIRST + i, of tree b FIRST + na + i
static void put(const Tree& t, int h, int base) {
  for (int i = 0; i < t.n; ++i) { Node& n = g[base + i]; n.l = P(t.l[i] < 0 ? -1 : base + t.l[i]); n.r = P(t.r[i] < 0 ? -1 : base + t.r[i]); n.meta = t.meta[i]; n.prio = t.prio[i] * 2; if (t.l[i] >= 0) g[base + t.l[i]].p = P(base + i); if (t.r[i] >= 0) g[base + t.r[i]].p = P(base + i); }
  A::init_header(P(h));
  if (t.n) { g[h].p = P(base + t.root); g[base + t.root].p = P(h); g[h].l = P(base); g[h].r = P(base + t.n - 1); }
}
static int keyof(int i) { int k = 4; for (int j = 0; j < i; ++j) if (!(MASK >> j & 1)) k += 4; return k; }
static int lower(int k) { int p = 0; while (p < TA->n && keyof(p) < k) ++p; return p; }
static int upper(int k) { int p = 0; while (p < TA->n && keyof(p) <= k) ++p; return p; }
static void build() {
  memset((void*)g, 0x5a, sizeof g);
  for (int i = 0; i < POOL; ++i) { g[i].canary = 0xC0FFEE00u + i; g[i].canary2 = 0xBEEF0000u + i; new (&g[i].p) NP(); new (&g[i].l) NP(); new (&g[i].r) NP(); g[i].meta = 0x33; g[i].prio = 1000 + i; g[i].key = -1000; }
  put(*TA, HA, FIRST); put(*TB, HB, FIRST + TA->n); OUT = FIRST + TA->n + TB->n;
  for (int i = 0; i < TA->n; ++i) g[FIRST + i].key = keyof(i); for (int i = 0; i < TB->n; ++i) g[FIRST + TA->n + i].key = 4 * i + 4;
}
struct Img { std::vector<int> p, l, r, m; };
static Img image() { Img i; for (int k = 0; k < POOL; ++k) { i.p.push_back(idx(g[k].p)); i.l.push_back(idx(g[k].l)); i.r.push_back(idx(g[k].r)); i.m.push_back(g[k].meta); } return i; }
// the tree under header h must hold exactly the nodes `want` in that order and satisfy the invariants of the algorithm
typedef std::vector<int> V;
static int walk(int h, int n, int parent, V& out, int depth, int& height) {
  if (n < 0) { height = 0; return MC_ALGO == 0 ? 0 : 0; }
  if (n == -2 || n < FIRST) mc::fail("struct", "a child link leads outside the nodes"); if (depth > POOL || out.size() > POOL) mc::fail("struct", "the tree is not finite");
  if (idx(g[n].p) != parent) mc::fail("struct", mc::strf("parent of node %d is %d, expected %d", n, idx(g[n].p), parent));
  int hl, hr; int L = idx(g[n].l), Rr = idx(g[n].r); if (L == -2 || Rr == -2) mc::fail("struct", "a child link leads outside the nodes");
  int bl = walk(h, L, n, out, depth + 1, hl); out.push_back(n); int br = walk(h, Rr, n, out, depth + 1, hr); height = std::max(hl, hr) + 1;
#if MC_ALGO == 0
  if (g[n].meta != Traits::RED && g[n].meta != Traits::BLACK) mc::fail("balance", mc::strf("node %d has no colour", n));
  if (bl != br) mc::fail("balance", mc::strf("black heights %d and %d under node %d", bl, br, n));
  if (g[n].meta == Traits::RED) for (int c : {L, Rr}) if (c >= 0 && g[c].meta == Traits::RED) mc::fail("balance", mc::strf("red node %d has the red child %d", n, c));
  return bl + (g[n].meta == Traits::BLACK);
#elif MC_ALGO == 1
  int d = hr - hl; if (d < -1 || d > 1) mc::fail("balance", mc::strf("heights %d and %d under node %d", hl, hr, n));
  if (g[n].meta != (d < 0 ? Traits::NEG : d > 0 ? Traits::POS : Traits::ZERO)) mc::fail("balance", mc::strf("balance factor of node %d does not match heights %d and %d", n, hl, hr));
#elif MC_ALGO == 4
  for (int c : {L, Rr}) if (c >= 0 && g[c].prio > g[n].prio) mc::fail("heap", mc::strf("node %d is below %d but has a higher priority", c, n));
#endif
  (void)bl; (void)br; return 0;
}
static bool g_balanced = true;
static V order(int h, int* heightp = 0) {
  V out; int height, root = idx(g[h].p); if (root == -2) mc::fail("struct", "header"); 
  walk(h, root, h, out, 0, height); if (heightp) *heightp = height;
#if MC_ALGO == 0
  if (root >= 0 && g[root].meta != Traits::BLACK) mc::fail("balance", "the root is red");
  if (g[h].meta != Traits::RED) mc::fail("balance", "the header is not red any more");
#endif
  int lm = out.empty() ? h : out.front(), rm = out.empty() ? h : out.back();
  if (idx(g[h].l) != lm || idx(g[h].r) != rm) mc::fail("struct", mc::strf("header %d designates %d and %d as first and last, expected %d and %d", h, idx(g[h].l), idx(g[h].r), lm, rm));
  return out;
}
static std::string vs(const V& v) { std::string s; for (int x : v) s += mc::strf("%d ", x); return s; }
static void holds(int h, const V& want, int* height = 0) {
  V o = order(h, height); if (o != want) mc::fail("order", mc::strf("tree %d holds %sexpected %s", h, vs(o).c_str(), vs(want).c_str()));
  if ((int)A::size(CP(h)) != (int)want.size()) mc::fail("ret", "size");
}
static void bytes() { for (int i = 0; i < POOL; ++i) if (g[i].canary != 0xC0FFEE00u + i || g[i].canary2 != 0xBEEF0000u + i) mc::fail("bytes", "other bytes of a node changed"); }
static V na() { V v; for (int i = 0; i < TA->n; ++i) v.push_back(FIRST + i); return v; }
static V nb() { V v; for (int i = 0; i < TB->n; ++i) v.push_back(FIRST + TA->n + i); return v; }
static bool g_soft_tree = false;
template<class F> static void T(const char* op, const std::function<std::string()>& args, F f, size_t bound = 0) {
  mc::Violation v; build(); g_acc = 0; ++R.transitions; ++R.opcount[op];
  bool bad = mc::guarded([&] { f(); size_t a = g_acc; bytes(); g_acc = a; }, v);
  if (bad && mc::active(v.cat)) {
    R.nviol += v.cat == "hang" ? 60 : 1; if (++R.percat[v.cat + op] > 3) return;
    mc::Report::V r; r.cat = v.cat; r.op = op; r.msg = std::string(ANAME) + "::" + op + "(" + args() + ") on trees " + show(*TA, TA->root) + (MASK ? mc::strf(" (equal keys: mask %u)", MASK) : std::string()) + " and " + show(*TB, TB->root) + ": " + v.msg; r.variant = 0; r.hist.push_back(r.msg); R.viols.push_back(r);
  }
}
#define REQC(c, ...) do { if (!(c)) mc::fail("ret", mc::strf(__VA_ARGS__)); } while (0)
#define ARG(...) [&] { return mc::strf(__VA_ARGS__); }
static void cost(size_t bound) { if (g_acc > bound) mc::fail("cost", mc::strf("%zu link accesses where %zu are enough", g_acc, bound)); }
// adaptors for the arguments that treaps and scapegoat trees need
struct HAlpha { size_t operator()(size_t n) const { size_t h = 0; double x = 1; while (x * 1.4142135623730951 <= (double)n) { x *= 1.4142135623730951; ++h; } return h; } };
struct AMax { size_t operator()(size_t n) const { return (size_t)(n * 0.70710678118654752); } };
static size_t g_max;   // scapegoat: maximum size since the last rebalance
static void ins_before(int h, int pos, int n, int size) {
#if MC_ALGO == 4
  A::insert_before(P(h), P(pos), P(n), PCmp());
#elif MC_ALGO == 5
  g_max = size; A::insert_before(P(h), P(pos), P(n), size, HAlpha(), g_max);
#else
  A::insert_before(P(h), P(pos), P(n));
#endif
}
static void pushb(int h, int n, int size, bool front) {
#if MC_ALGO == 4
  if (front) A::push_front(P(h), P(n), PCmp()); else A::push_back(P(h), P(n), PCmp());
#elif MC_ALGO == 5
  g_max = size; if (front) A::push_front(P(h), P(n), size, HAlpha(), g_max); else A::push_back(P(h), P(n), size, HAlpha(), g_max);
#else
  if (front) A::push_front(P(h), P(n)); else A::push_back(P(h), P(n));
#endif
}
static int ins_eq(int h, int n, int size, int how, int hint) {
#if MC_ALGO == 4
  return idx(how == 0 ? A::insert_equal_upper_bound(P(h), P(n), Cmp(), PCmp()) : how == 1 ? A::insert_equal_lower_bound(P(h), P(n), Cmp(), PCmp()) : A::insert_equal(P(h), P(hint), P(n), Cmp(), PCmp()));
#elif MC_ALGO == 5
  g_max = size; return idx(how == 0 ? A::insert_equal_upper_bound(P(h), P(n), Cmp(), size, HAlpha(), g_max) : how == 1 ? A::insert_equal_lower_bound(P(h), P(n), Cmp(), size, HAlpha(), g_max) : A::insert_equal(P(h), P(hint), P(n), Cmp(), size, HAlpha(), g_max));
#else
  return idx(how == 0 ? A::insert_equal_upper_bound(P(h), P(n), Cmp()) : how == 1 ? A::insert_equal_lower_bound(P(h), P(n), Cmp()) : A::insert_equal(P(h), P(hint), P(n), Cmp()));
#endif
}
static int ins_unique(int h, int n, int size, int hint) {   // -1 inserted, otherwise the equivalent node
  A::insert_commit_data d;
#if MC_ALGO == 4
  std::pair<NP, bool> r = hint < 0 ? A::insert_unique_check(CP(h), g[n].key, Cmp(), g[n].prio, PCmp(), d) : A::insert_unique_check(CP(h), P(hint), g[n].key, Cmp(), g[n].prio, PCmp(), d);
  if (r.second) A::insert_unique_commit(P(h), P(n), d);
#elif MC_ALGO == 5
  g_max = size; std::pair<NP, bool> r = hint < 0 ? A::insert_unique_check(CP(h), g[n].key, Cmp(), d) : A::insert_unique_check(CP(h), P(hint), g[n].key, Cmp(), d);
  if (r.second) A::insert_unique_commit(P(h), P(n), d, size, HAlpha(), g_max);
#elif MC_ALGO == 3
  std::pair<NP, bool> r = hint < 0 ? A::insert_unique_check(P(h), g[n].key, Cmp(), d) : A::insert_unique_check(P(h), P(hint), g[n].key, Cmp(), d);
  if (r.second) A::insert_unique_commit(P(h), P(n), d);
#else
  std::pair<NP, bool> r = hint < 0 ? A::insert_unique_check(CP(h), g[n].key, Cmp(), d) : A::insert_unique_check(CP(h), P(hint), g[n].key, Cmp(), d);
  if (r.second) A::insert_unique_commit(P(h), P(n), d);
#endif
  return r.second ? -1 : idx(r.first);
}
static void erase(int h, int n, int size) {
#if MC_ALGO == 4
  A::erase(P(h), P(n), PCmp());
#elif MC_ALGO == 5
  g_max = size; A::erase(P(h), P(n), size, g_max, AMax());
#else
  A::erase(P(h), P(n));
#endif
}
struct Cln { int* next; int at; int* calls; NP operator()(const CNP& n) const { if ((*calls)++ == at) throw mc::UserThrow{1}; int k = (*next)++; g[k].key = n->key; g[k].prio = n->prio; g[k].canary2 = 0xBEEF0000u + k; return P(k); } };
struct Dsp { V* out; void operator()(const NP& n) const { out->push_back(idx(n)); } };
static V without(V v, int x) { v.erase(std::find(v.begin(), v.end(), x)); return v; }
static int at(const V& v, int i, int h) { return i < (int)v.size() ? v[i] : h; }
static int parent_pos(const Tree& t, int i) { for (int j = 0; j < t.n; ++j) if (t.l[j] == i || t.r[j] == i) return j; return -1; }
static void same(const Img& a, const V& nodes) { Img b = image(); for (int n : nodes) if (a.p[n] != b.p[n] || a.l[n] != b.l[n] || a.r[n] != b.r[n] || a.m[n] != b.m[n]) mc::fail("links", mc::strf("node %d changed", n)); }
static void exact(const Img& w, const char* what) { Img b = image(); for (int n = 0; n < OUT; ++n) if (w.p[n] != b.p[n] || w.l[n] != b.l[n] || w.r[n] != b.r[n] || (n >= FIRST && w.m[n] != b.m[n] && (MC_ALGO < 2))) mc::fail("links", mc::strf("%s: node %d is (parent %d, left %d, right %d, %d), expected (%d, %d, %d, %d)", what, n, b.p[n], b.l[n], b.r[n], b.m[n], w.p[n], w.l[n], w.r[n], w.m[n])); }
// the image with nodes a and b exchanged (a or b may be an outside node)
static Img exchanged(const Img& w, int a, int b) {
  Img r = w; auto f = [&](int x) { return x == a ? b : x == b ? a : x; };
  for (int n = 0; n < POOL; ++n) { int k = f(n); r.p[k] = f(w.p[n]); r.l[k] = f(w.l[n]); r.r[k] = f(w.r[n]); r.m[k] = w.m[n]; }
  return r;
}
static int hgt(int i) { return i < 0 ? 0 : 1 + std::max(hgt(TA->l[i]), hgt(TA->r[i])); }
static void single() {    // operations on tree A (B is empty)
  const int n = TA->n; V a = na();
  T("traversal", ARG(""), [&] {
    holds(HA, a); holds(HB, V()); Img im = image();
    REQC(idx(A::begin_node(CP(HA))) == at(a, 0, HA) && idx(A::end_node(CP(HA))) == HA, "begin/end"); REQC(idx(BA::root_node(CP(HA))) == (n ? FIRST + TA->root : (int)HA), "root_node");
    REQC(A::unique(CP(HA)) == (n == 0), "unique(header)"); REQC(A::is_header(CP(HA)), "is_header(header)"); REQC(idx(A::get_header(CP(HA))) == HA, "get_header(header)");
    if (n) REQC(idx(A::prev_node(P(HA))) == a.back(), "prev_node(header)");
    for (int i = 0; i < n; ++i) { int x = a[i];
      REQC(idx(A::next_node(P(x))) == at(a, i + 1, HA), "next_node(%d)", x); if (i) REQC(idx(A::prev_node(P(x))) == a[i - 1], "prev_node(%d)", x);
      REQC(!A::is_header(CP(x)), "is_header(%d)", x); REQC(idx(A::get_header(CP(x))) == HA, "get_header(%d)", x); REQC(!A::unique(CP(x)), "unique(%d)", x); REQC(!BA::inited(CP(x)), "inited(%d)", x);
      int lo = i, hi = i; while (TA->l[lo] >= 0) lo = TA->l[lo]; while (TA->r[hi] >= 0) hi = TA->r[hi]; REQC(idx(BA::minimum(P(x))) == FIRST + lo && idx(BA::maximum(P(x))) == FIRST + hi, "minimum/maximum(%d)", x);
      int d = 0; for (int j = i; j != TA->root; j = parent_pos(*TA, j)) ++d; REQC((int)BA::depth(CP(x)) == d + 1 || (int)BA::depth(CP(x)) == d, "depth(%d)", x);
    }
    A::init(P(OUT)); REQC(BA::inited(CP(OUT)), "inited after init"); REQC(A::unique(CP(OUT)), "unique after init");
    same(im, a); });
  int maxkey = 4 * n + 6;
  for (int k = 2; k <= maxkey; k += 2) {   // even keys between and equal to the keys 4, 8, ...
    int lbp = lower(k), ubp = upper(k);
    T("lookup", ARG("%d", k), [&] { Img im = image(); CNP h = CP(HA);
      REQC(idx(A::lower_bound(h, k, Cmp())) == at(a, lbp, HA), "lower_bound"); REQC(idx(A::upper_bound(h, k, Cmp())) == at(a, ubp, HA), "upper_bound"); REQC(idx(A::find(h, k, Cmp())) == (lbp != ubp ? a[lbp] : (int)HA), "find");
      std::pair<NP, NP> q = A::equal_range(h, k, Cmp()); REQC(idx(q.first) == at(a, lbp, HA) && idx(q.second) == at(a, ubp, HA), "equal_range"); REQC((int)A::count(h, k, Cmp()) == ubp - lbp, "count");
      q = BA::lower_bound_range(h, k, Cmp()); REQC(idx(q.first) == at(a, lbp, HA) && idx(q.second) == at(a, lbp + (lbp != ubp), HA), "lower_bound_range");
      for (int k2 = k; k2 <= maxkey; k2 += 2) { int l2 = lower(k2), u2 = upper(k2);
        for (int c = 0; c < 4; ++c) { if (k == k2 && c == 0) continue; q = A::bounded_range(h, k, k2, Cmp(), c & 1, (c & 2) != 0); REQC(idx(q.first) == at(a, c & 1 ? lbp : ubp, HA) && idx(q.second) == at(a, c & 2 ? u2 : l2, HA), "bounded_range(%d, %d, %d)", k, k2, c); } }
      same(im, a); same(im, V(1, HA)); });
    T("lookup cost", ARG("%d", k), [&] { CNP h = CP(HA); const size_t H = hgt(TA->root); auto c = [&](const char* w, size_t cmp, size_t acc) { size_t q = g_cmp, r = g_acc; if (q > cmp) mc::fail("cost", mc::strf("%s makes %zu comparisons, %zu are enough in a tree of height %zu", w, q, cmp, H)); if (r > acc) mc::fail("cost", mc::strf("%s makes %zu accesses to nodes, %zu are enough in a tree of height %zu", w, r, acc, H)); g_cmp = g_acc = 0; };
      const size_t dup = ubp - lbp; g_cmp = g_acc = 0; (void)A::find(h, k, Cmp()); c("find", H + 2, 64 + 8 * H); (void)A::lower_bound(h, k, Cmp()); c("lower_bound", H + 2, 64 + 8 * H); (void)A::upper_bound(h, k, Cmp()); c("upper_bound", H + 2, 64 + 8 * H);
      (void)A::equal_range(h, k, Cmp()); c("equal_range", 2 * H + 4, 64 + 16 * H); (void)A::count(h, k, Cmp()); c("count", 2 * H + 4 + dup, 64 + 16 * H + 8 * dup); (void)A::bounded_range(h, k, k + 4, Cmp(), true, true); c("bounded_range", 2 * H + 4, 64 + 16 * H); });
    for (int pr : {0, 1, 2, 3, 5, 20}) { if (MC_ALGO != 4 && pr) break;
      auto ins = [&](V v, int pos) { v.insert(v.begin() + pos, OUT); return v; };
      T("insert_equal_upper_bound", ARG("key %d priority %d", k, pr), [&] { g[OUT].key = k; g[OUT].prio = pr; REQC(ins_eq(HA, OUT, n, 0, -1) == OUT, "returned node"); holds(HA, ins(a, ubp)); });
      T("insert_equal_lower_bound", ARG("key %d priority %d", k, pr), [&] { g[OUT].key = k; g[OUT].prio = pr; REQC(ins_eq(HA, OUT, n, 1, -1) == OUT, "returned node"); holds(HA, ins(a, lbp)); });
      for (int h = -1; h <= n; ++h) {
        if (h >= 0) T("insert_equal", ARG("hint %d, key %d priority %d", h, k, pr), [&] { g[OUT].key = k; g[OUT].prio = pr; REQC(ins_eq(HA, OUT, n, 2, at(a, h, HA)) == OUT, "returned node"); if (lbp <= h && h <= ubp) holds(HA, ins(a, h)); else { V o = order(HA); size_t at_ = std::find(o.begin(), o.end(), (int)OUT) - o.begin(); if ((int)at_ < lbp || (int)at_ > ubp) mc::fail("order", mc::strf("inserted at position %zu", at_)); holds(HA, ins(a, at_)); } });
        if (!MASK) T("insert_unique", ARG("hint %d, key %d priority %d", h, k, pr), [&] { g[OUT].key = k; g[OUT].prio = pr; Img im = image(); int r = ins_unique(HA, OUT, n, h < 0 ? -1 : at(a, h, HA)); if (lbp != ubp) { REQC(r == a[lbp], "refused with %d", r); holds(HA, a); if (MC_ALGO != 3) same(im, a); } else { REQC(r == -1, "refused"); holds(HA, ins(a, lbp)); } });
      }
    }
  }
  for (int pr : {0, 1, 2, 3, 5, 20}) { if (MC_ALGO != 4 && pr) break;
    for (int i = 0; i <= n; ++i) T("insert_before", ARG("%d, priority %d", i, pr), [&] { g[OUT].prio = pr; g[OUT].key = 4 * i + 2; ins_before(HA, at(a, i, HA), OUT, n); V w = a; w.insert(w.begin() + i, OUT); holds(HA, w); });
    for (int f = 0; f < 2; ++f) T(f ? "push_front" : "push_back", ARG("priority %d", pr), [&] { g[OUT].prio = pr; g[OUT].key = f ? 0 : 4 * n + 8; pushb(HA, OUT, n, f); V w = a; w.insert(f ? w.begin() : w.end(), OUT); holds(HA, w); });
  }
  T("unlink_leftmost_without_rebalance", ARG(""), [&] {
    for (int i = 0; i < n; ++i) { int r = idx(A::unlink_leftmost_without_rebalance(P(HA))); REQC(r == a[i], "call %d gives %d, expected %d", i, r, a[i]); int b = idx(A::begin_node(CP(HA))); REQC(b == at(a, i + 1, HA), "begin after call %d is %d", i, b); }
    REQC(idx(A::unlink_leftmost_without_rebalance(P(HA))) == -1, "an empty tree gives null"); REQC(A::unique(CP(HA)) && idx(g[HA].l) == HA && idx(g[HA].r) == HA, "the header is that of an empty tree"); if (MC_ALGO != 5) {} });
  T("clear_and_dispose", ARG(""), [&] { V out; A::clear_and_dispose(P(HA), Dsp{&out}); std::sort(out.begin(), out.end()); REQC(out == a, "disposed nodes"); holds(HA, V()); });
  for (int i = 0; i < n; ++i) {
    int x = a[i];
    T("erase", ARG("%d", x), [&] { erase(HA, x, n); holds(HA, without(a, x)); });
    for (int j = 0; j < n; ++j) if (j != i && n <= MC_M) T("erase_two", ARG("%d, %d", x, a[j]), [&] { erase(HA, x, n); erase(HA, a[j], n - 1); holds(HA, without(without(a, x), a[j])); });
#if MC_ALGO == 4
    T("unlink", ARG("%d", x), [&] { A::unlink(P(x), PCmp()); holds(HA, without(a, x)); });
#elif MC_ALGO != 5
    T("unlink", ARG("%d", x), [&] { A::unlink(P(x)); holds(HA, without(a, x)); });
#endif
    for (int ver = 0; ver < 2; ++ver) T("replace_node", ARG("%d%s", x, ver ? " with header" : ""), [&] { Img w = exchanged(image(), x, OUT); g[OUT].key = g[x].key; g[OUT].prio = g[x].prio; g_acc = 0; if (ver) { A::replace_node(P(x), P(HA), P(OUT)); cost(30); } else A::replace_node(P(x), P(OUT)); V v = a; v[i] = OUT; w.p[x] = w.l[x] = w.r[x] = w.m[x] = 0; Img b = image(); for (int q = 0; q <= OUT; ++q) if (q != x && (w.p[q] != b.p[q] || w.l[q] != b.l[q] || w.r[q] != b.r[q] || (q >= FIRST && MC_ALGO < 2 && w.m[q] != b.m[q]))) mc::fail("links", mc::strf("node %d is (parent %d, left %d, right %d, %d), expected (%d, %d, %d, %d)", q, b.p[q], b.l[q], b.r[q], b.m[q], w.p[q], w.l[q], w.r[q], w.m[q])); holds(HA, v); });
#if MC_ALGO == 2 || MC_ALGO == 3 || MC_ALGO == 5
    T("rebalance_subtree", ARG("%d", x), [&] { int lo = i, hi = i; while (TA->l[lo] >= 0) lo = TA->l[lo]; while (TA->r[hi] >= 0) hi = TA->r[hi]; int pp = idx(g[x].p); Img im = image(); int nr = idx(A::rebalance_subtree(P(x))); holds(HA, a);
      REQC(nr >= FIRST + lo && nr <= FIRST + hi && idx(g[nr].p) == pp, "new root of the subtree is %d", nr); V sub; int hh; walk(HA, nr, pp, sub, 0, hh); REQC((int)sub.size() == hi - lo + 1 && sub.front() == FIRST + lo, "the subtree holds other nodes"); int best = 0; while ((1 << best) - 1 < hi - lo + 1) ++best; if (hh > best) mc::fail("rebalance", mc::strf("height %d for %d nodes, %d is enough", hh, hi - lo + 1, best));
      for (int y : a) if (y < FIRST + lo || y > FIRST + hi) { Img b = image(); auto f = [&](int q) { return q == x || q == nr ? -7 : q; }; if (im.p[y] != b.p[y] || f(im.l[y]) != f(b.l[y]) || f(im.r[y]) != f(b.r[y])) mc::fail("links", mc::strf("node %d is outside of the subtree and changed", y)); } });
#endif
#if MC_ALGO == 3
    T("splay_up", ARG("%d", x), [&] { A::splay_up(P(x), P(HA)); holds(HA, a); if (idx(g[HA].p) != x) mc::fail("splay", mc::strf("the root is %d", idx(g[HA].p))); });
#endif
  }
#if MC_ALGO == 2 || MC_ALGO == 3 || MC_ALGO == 5
  T("rebalance", ARG(""), [&] { A::rebalance(P(HA)); int h = 0; holds(HA, a, &h); int best = 0; while ((1 << best) - 1 < n) ++best; if (h > best) mc::fail("rebalance", mc::strf("height %d for %d nodes, %d is enough", h, n, best)); });
#endif
#if MC_ALGO == 3
  for (int k = 2; n && k <= maxkey; k += 2) {
    T("splay_down", ARG("%d", k), [&] { bool f = false; int r = idx(A::splay_down(P(HA), k, Cmp(), &f)); holds(HA, a); int root = idx(g[HA].p); REQC(r == root, "returns the new root"); REQC(f == (lower(k) != upper(k)), "found"); if (f && g[root].key != k) mc::fail("splay", "the node found is not the root"); if (!f) { int lo = lower(k), pos = root - FIRST; if (pos != lo && pos != lo - 1) mc::fail("splay", mc::strf("the root after an unsuccessful splay to %d is %d", k, root)); } });
    T("splaying_lookup", ARG("%d", k), [&] { int lbp = lower(k), ubp = upper(k); NP h = P(HA);
      for (int w = 0; w < 7; ++w) { build();
        if (w == 0) { REQC(idx(A::lower_bound(h, k, Cmp())) == at(a, lbp, HA), "lower_bound"); } else if (w == 1) { REQC(idx(A::upper_bound(h, k, Cmp())) == at(a, ubp, HA), "upper_bound"); } else if (w == 2) { REQC(idx(A::find(h, k, Cmp())) == (lbp != ubp ? a[lbp] : (int)HA), "find"); }
        else if (w == 3) { std::pair<NP, NP> q = A::equal_range(h, k, Cmp()); REQC(idx(q.first) == at(a, lbp, HA) && idx(q.second) == at(a, ubp, HA), "equal_range"); } else if (w == 4) { REQC((int)A::count(h, k, Cmp()) == ubp - lbp, "count"); }
        else if (w == 5) { std::pair<NP, NP> q = A::lower_bound_range(h, k, Cmp()); REQC(idx(q.first) == at(a, lbp, HA) && idx(q.second) == at(a, lbp + (lbp != ubp), HA), "lower_bound_range"); } else if (w == 6) { std::pair<NP, NP> q = A::bounded_range(h, k, k + 4, Cmp(), true, true); int u2 = upper(k + 4); REQC(idx(q.first) == at(a, lbp, HA) && idx(q.second) == at(a, u2, HA), "bounded_range"); }
        holds(HA, a); } });
  }
#endif
  // clone into an empty and into a non-empty tree, the cloner throws at each call
  for (int at_ = -1; at_ < n; ++at_) T("clone", ARG("throw at call %d", at_), [&] { Img im = image(); int nextn = OUT, calls = 0; V disp; bool threw = false;
    try { A::clone(CP(HA), P(HB), Cln{&nextn, at_, &calls}, Dsp{&disp}); } catch (mc::UserThrow&) { threw = true; }
    same(im, a); holds(HA, a); REQC(threw == (at_ >= 0), "exception");
    if (!threw) { REQC(nextn == OUT + n && disp.empty(), "clones and disposals"); V cl; int hh; if (n) walk(HB, idx(g[HB].p), HB, cl, 0, hh); std::map<int, int> m; m[-1] = -1; m[HA] = HB; if ((int)cl.size() != n) mc::fail("clone", "number of clones"); for (int i = 0; i < n; ++i) m[a[i]] = cl[i];
      for (int x : a) if (idx(g[m[x]].p) != m[idx(g[x].p)] || idx(g[m[x]].l) != m[idx(g[x].l)] || idx(g[m[x]].r) != m[idx(g[x].r)] || g[m[x]].key != g[x].key || (MC_ALGO < 2 && g[m[x]].meta != g[x].meta)) mc::fail("clone", mc::strf("the clone of node %d differs", x)); order(HB); }
    else { std::sort(disp.begin(), disp.end()); V w; for (int i = OUT; i < nextn; ++i) w.push_back(i); REQC(disp == w, "every clone is disposed once after an exception"); holds(HB, V()); } });
}
static void pairs() {     // operations on the two trees
  const int n = TA->n, m = TB->n; V a = na(), b = nb(), all = a; all.insert(all.end(), b.begin(), b.end());
  auto hdr = [&](int x) { return x < FIRST + n ? (int)HA : (int)HB; };
  T("swap_tree", ARG(""), [&] { Img im = image(); g_acc = 0; A::swap_tree(P(HA), P(HB)); cost(40); holds(HA, b); holds(HB, a); Img w = image(); for (int x : all) { auto f = [&](int q) { return q == HA ? (int)HB : q == HB ? (int)HA : q; }; if (f(im.p[x]) != w.p[x] || im.l[x] != w.l[x] || im.r[x] != w.r[x] || im.m[x] != w.m[x]) mc::fail("links", mc::strf("node %d changed", x)); } });
  T("swap_tree", ARG("same"), [&] { Img im = image(); A::swap_tree(P(HA), P(HA)); same(im, all); same(im, V{HA, HB}); });
  for (int x : all) for (int y : all) for (int ver = 0; ver < 2; ++ver) T("swap_nodes", ARG("%d, %d%s", x, y, ver ? " with headers" : ""), [&] { Img w = exchanged(image(), x, y); std::swap(g[x].key, g[y].key); std::swap(g[x].prio, g[y].prio); g_acc = 0; if (ver) { A::swap_nodes(P(x), P(hdr(x)), P(y), P(hdr(y))); cost(60); } else A::swap_nodes(P(x), P(y)); exact(w, "swap_nodes"); V va = a, vb = b; for (V* v : {&va, &vb}) for (int& q : *v) q = q == x ? y : q == y ? x : q; holds(HA, va); holds(HB, vb); });
  for (int x : b) { int pos = x - FIRST - n; (void)pos;
    for (int delta : {-2, 0, 2}) for (int u = 0; u < 2; ++u) T(u ? "transfer_unique" : "transfer_equal", ARG("%d with key %+d", x, delta), [&] {
      // shift tree B's keys so that x falls between, at or beyond the keys of A
      for (int q : b) g[q].key += delta; int k = g[x].key; int lbp = 0; while (lbp < n && 4 * lbp + 4 < k) ++lbp; int ubp = lbp; if (ubp < n && 4 * ubp + 4 == k) ++ubp;
      bool moved = true; size_t mx1 = n, mx2 = m; (void)mx1; (void)mx2;
#if MC_ALGO == 4
      if (u) moved = A::transfer_unique(P(HA), Cmp(), PCmp(), P(HB), P(x)); else A::transfer_equal(P(HA), Cmp(), PCmp(), P(HB), P(x));
#elif MC_ALGO == 5
      if (u) moved = A::transfer_unique(P(HA), Cmp(), n, mx1, P(HB), P(x), m, mx2, HAlpha(), AMax()); else A::transfer_equal(P(HA), Cmp(), n, mx1, P(HB), P(x), m, mx2, HAlpha(), AMax());
#else
      if (u) moved = A::transfer_unique(P(HA), Cmp(), P(HB), P(x)); else A::transfer_equal(P(HA), Cmp(), P(HB), P(x));
#endif
      REQC(moved == (!u || lbp == ubp), "transferred"); if (moved) { V w = a; w.insert(w.begin() + ubp, x); holds(HA, w); holds(HB, without(b, x)); } else { holds(HA, a); holds(HB, b); } });
  }
  for (int x : a) if (n + m <= MC_M) T("erase", ARG("%d", x), [&] { Img im = image(); erase(HA, x, n); holds(HA, without(a, x)); same(im, b); holds(HB, b); });
  T("clone", ARG("into a non-empty tree"), [&] { int nextn = OUT, calls = 0; V disp; if (OUT + n > POOL) return; A::clone(CP(HA), P(HB), Cln{&nextn, -1, &calls}, Dsp{&disp}); std::sort(disp.begin(), disp.end()); REQC(disp == b, "the old nodes of the target are disposed once"); REQC((int)order(HB).size() == n, "size of the clone"); holds(HA, a); });
}
int main(int argc, char** argv) {
  mc::install_traps(); double t0 = mc::now(); bool rep = false;
  for (int i = 1; i < argc; ++i) { if (!strcmp(argv[i], "--cats")) { std::string k = argv[++i]; size_t p = 0; while (p < k.size()) { size_t q = k.find(',', p); if (q == std::string::npos) q = k.size(); mc::g_cats.insert(k.substr(p, q - p)); p = q + 1; } } else if (!strcmp(argv[i], "--replay")) rep = true; }
  mc::g_rep = &R; R.depth = 1; Tree empty; static const Trees none(1, empty);
  for (int n = 0; n <= MC_N && R.nviol < 300; ++n) for (auto& t : shapes(n)) { TA = &t; TB = &none[0]; OUT = FIRST + n; for (MASK = 0; MASK < (n <= MC_M && n > 1 ? 1u << (n - 1) : 1u) && R.nviol < 300; ++MASK) { ++R.states; ++R.validated; single(); } MASK = 0; if (R.samples.size() < 3 && n == MC_N && R.states % 7 == 3) R.samples.push_back(show(t, t.root)); if (R.nviol > 300) break; }
  for (int n = 0; n <= MC_M; ++n) for (int m = 0; n + m <= MC_M; ++m) for (auto& x : shapes(n)) for (auto& y : shapes(m)) { if (R.nviol > 300) break; TA = &x; TB = &y; OUT = FIRST + n + m; ++R.states; ++R.validated; pairs(); }
  if (R.nviol > 300) { R.complete = false; R.cap = "stopped after violations"; }
  if (rep) { for (auto& v : R.viols) printf("REPRODUCED [%s] %s\n", v.cat.c_str(), v.msg.c_str()); return !R.viols.empty(); }
  mc::emit(R, "treealgo", mc::now() - t0);
}
