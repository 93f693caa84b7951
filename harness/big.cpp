// Sweep of large structures: every size of a list of sizes x every input pattern x every operation (positions from a grid),
// each executed on the real code and compared with a reference sequence.
// MC_KIND 0 list, 1 slist, 2 ordered, 3 unordered;  MC_CTS constant_time_size;  MC_U8 8 bit size_type
// slist: MC_LINEAR MC_CACHE;  ordered: MC_TREE 0 bs 1 rb 2 avl 3 splay 4 sg 5 treap, MC_FIXED (sg: no floating point), MC_OPT (optimize_size)
// unordered: MC_API 0 unique 1 multi; MC_SH (1 store, 2 compare) MC_MK MC_CB MC_LB MC_POL (0 modulo, 1 power of two, 2 incremental, 3 fastmod)
#ifndef MC_KIND
#define MC_KIND 0
#endif
#ifndef MC_CTS
#define MC_CTS 1
#endif
#ifndef MC_U8
#define MC_U8 0
#endif
#ifndef MC_LINEAR
#define MC_LINEAR 0
#endif
#ifndef MC_CACHE
#define MC_CACHE 0
#endif
#ifndef MC_TREE
#define MC_TREE 1
#endif
#ifndef MC_FIXED
#define MC_FIXED 0
#endif
#ifndef MC_OPT
#define MC_OPT 1
#endif
#ifndef MC_API
#define MC_API 1
#endif
#ifndef MC_SH
#define MC_SH 0
#endif
#ifndef MC_MK
#define MC_MK 0
#endif
#ifndef MC_CB
#define MC_CB 0
#endif
#ifndef MC_LB
#define MC_LB 0
#endif
#ifndef MC_POL
#define MC_POL 0
#endif
#include "core.hpp"
#include <memory>
#include <cmath>
#include <list>
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
namespace bi = boost::intrusive;
#if MC_U8
#define SZT , bi::size_type<unsigned char>
#else
#define SZT
#endif
static mc::Report R; static std::string g_state; static bool g_deep = false;
#define ST(...) (g_state = mc::strf(__VA_ARGS__))
static void fail(const std::string& cat, const char* op, const std::string& m) {
  ++R.nviol; if (++R.percat[cat + op] > 2 || R.viols.size() > 40) return; mc::Report::V r; r.cat = cat; r.op = op; r.msg = g_state + ": " + m; r.variant = 0; r.hist.push_back(r.msg); R.viols.push_back(r);
}
// one case: the operation with all the requirements evaluated after it (opcat: the property category of the operation)
template<class F> static void run(const char* op, const char* opcat, F f) {
  if (R.nviol > 300) { R.complete = false; R.cap = "stopped after violations"; return; }
  ++R.transitions; ++R.opcount[op]; mc::Violation v;
  if (mc::guarded([&] { mc::g_soft = true; mc::g_opcat = opcat; f(); }, v, 300) && (mc::active(v.cat) || mc::active(opcat))) fail(mc::active(v.cat) ? v.cat : opcat, op, std::string(op) + ": " + v.msg);
  if (v.cat == "hang") R.nviol += 150;   // (a hang costs 15 s: two end the sweep)
  mc::g_soft = false; mc::g_opcat.clear();
}
static void state() { ++R.states; ++R.validated; if (R.samples.size() < 6 && R.states % 37 == 1) R.samples.push_back(g_state); }
static std::vector<int> sizes(int lim) { std::vector<int> v; for (int i = 0; i <= 33; ++i) v.push_back(i); for (int i : {47, 63, 64, 65, 100, 127, 128, 129, 200, 240, 254, 255, 256, 257, 300, 511, 513, 1000}) v.push_back(i); std::vector<int> r; for (int i : v) if (i <= lim && (!MC_U8 || i <= 240)) r.push_back(i); return r; }
static std::vector<int> grid(int n) { std::vector<int> v; if (n <= 9) { for (int i = 0; i <= n; ++i) v.push_back(i); return v; } for (int i : {0, 1, 2, n / 3, n / 2, n - 2, n - 1, n}) v.push_back(i); return v; }
enum { NPAT = 9 };
static int pat(int p, int i, int n) {
  switch (p) {
    case 0: return i; case 1: return n - 1 - i; case 2: return 0; case 3: return i & 1; case 4: return i < n / 2 ? i : n - 1 - i; case 5: return (i + n / 2) % (n ? n : 1);
    case 6: return (int)((long long)i * 61 % (n ? n : 1)); case 7: return i % 7; default: return i / 5 % 3;
  }
}
static bool EXC = false;
#if MC_KIND <= 1
#if MC_KIND == 0
struct E : bi::list_base_hook<> { int key, id, sub; bool dead; E() : key(0), id(0), sub(0), dead(false) {} friend bool operator<(const E& a, const E& b) { return a.key < b.key; } friend bool operator>(const E& a, const E& b) { return a.key > b.key; } friend bool operator==(const E& a, const E& b) { return a.key == b.key && a.sub == b.sub; } };
typedef bi::list<E, bi::constant_time_size<MC_CTS != 0> SZT> L;
#else
struct E : bi::slist_base_hook<> { int key, id, sub; bool dead; E() : key(0), id(0), sub(0), dead(false) {} friend bool operator<(const E& a, const E& b) { return a.key < b.key; } friend bool operator>(const E& a, const E& b) { return a.key > b.key; } friend bool operator==(const E& a, const E& b) { return a.key == b.key && a.sub == b.sub; } };
typedef bi::slist<E, bi::constant_time_size<MC_CTS != 0>, bi::linear<MC_LINEAR != 0>, bi::cache_last<MC_CACHE != 0> SZT> L;
#endif
typedef std::vector<E*> V;
struct Less { bool operator()(const E& a, const E& b) const { return a.key < b.key; } };
struct Greater { bool operator()(const E& a, const E& b) const { return a.key > b.key; } };
struct ModP { int m; bool operator()(const E& e) const { return e.id % m == 0; } };
struct EqD { int d; bool operator()(const E& a, const E& b) const { return a.key / d == b.key / d; } };
struct Rec { V* v; void operator()(E* e) const { REQ("disposer", !e->dead, "disposed twice"); REQ("disposer", !e->is_linked(), "still linked when disposed"); e->dead = true; v->push_back(e); } };
struct Cl { std::list<E>* pool; int* left; E* operator()(const E& e) const { if (--*left < 0) throw mc::UserThrow{1}; pool->push_back(E()); pool->back().key = e.key; pool->back().id = e.id; return &pool->back(); } };
struct S { std::vector<E> a, b; L l, m; V l_, m_;
  S(int n, int k, int p = 0) : a(n), b(k) { for (int i = 0; i < n; ++i) { a[i].key = pat(p, i, n); a[i].id = i; } for (int i = 0; i < k; ++i) { b[i].key = 2 * i + 1; b[i].id = 100000 + i; } for (int i = n; i; --i) l.push_front(a[i - 1]); for (int i = k; i; --i) m.push_front(b[i - 1]); for (auto& e : a) l_.push_back(&e); for (auto& e : b) m_.push_back(&e); }
  ~S() { drop(l); drop(m); }
  static void drop(L& l) { if (EXC) { for (;;) { if (l.empty()) break; l.pop_front(); } } else l.clear(); } };
static L::iterator at(L& l, int p) { L::iterator i = l.begin(); while (p--) ++i; return i; }
#if MC_KIND == 1
static L::iterator bat(L& l, int p) { L::iterator i = l.before_begin(); while (p--) ++i; return i; }
#endif
static void check(L& l, const V& v, const char* n) {
  const L& c = l; size_t i = 0;
  for (L::const_iterator it = c.begin(); it != c.end(); ++it, ++i) { REQ("order", i < v.size(), "%s has more than %zu elements", n, v.size()); if (i >= v.size()) break; REQ("order", &*it == v[i], "%s: element %d at position %zu, expected %d", n, it->id, i, v[i]->id); }
  REQ("order", i == v.size(), "%s ends after %zu of %zu elements", n, i, v.size());
  REQ("size", (size_t)c.size() == v.size(), "%s: size() %zu, %zu elements", n, (size_t)c.size(), v.size()); REQ("size", c.empty() == v.empty(), "%s: empty()", n);
  if (!v.empty()) { REQ("ret", &c.front() == v[0], "%s: front()", n);
#if MC_KIND == 0 || MC_CACHE
    REQ("ret", &c.back() == v.back(), "%s: back() is element %d, expected %d", n, c.back().id, v.back()->id);
#endif
  }
#if MC_KIND == 0
  i = v.size(); for (L::const_reverse_iterator it = c.rbegin(); it != c.rend(); ++it) { REQ("order", i > 0, "%s backwards too long", n); if (!i) break; --i; REQ("order", &*it == v[i], "%s backwards: position %zu", n, i); } REQ("order", i == 0, "%s backwards too short", n);
#endif
  for (size_t q = 0; q < v.size(); ++q) if (!(MC_KIND == 1 && MC_LINEAR && q + 1 == v.size())) REQ("linked", v[q]->is_linked(), "%s: element %d not linked", n, v[q]->id);
  c.check();
}
static void check2(S& s) { check(s.l, s.l_, "l"); check(s.m, s.m_, "m"); }
static void freed(const V& v) { for (E* e : v) REQ("linked", !e->is_linked(), "removed element %d is linked", e->id); }
static void sorts(int n) {
  for (int p = 0; p < NPAT; ++p) for (int rev = 0; rev < 2; ++rev) { ST("%d elements, pattern %d", n, p); state();
    run(rev ? "sort(greater)" : "sort", "", [&] { S s(n, 3, p); if (rev) { s.l.sort(Greater()); std::stable_sort(s.l_.begin(), s.l_.end(), [](E* x, E* y) { return x->key > y->key; }); } else { s.l.sort(); std::stable_sort(s.l_.begin(), s.l_.end(), [](E* x, E* y) { return x->key < y->key; }); } check2(s); }); }
}
static void merges(int n, int k) {
  for (int p = 0; p < 6; ++p) { ST("lists of %d and %d elements, pattern %d", n, k, p); state();
    run("merge", "", [&] { S s(n, k); for (int i = 0; i < n; ++i) s.a[i].key = p == 0 ? i : p == 1 ? i + k : p == 2 ? 2 * i : p == 3 ? 0 : p == 4 ? i / 3 * 2 : i * (k + 1); for (int i = 0; i < k; ++i) s.b[i].key = p == 0 ? i + n : p == 1 ? i : p == 2 ? 2 * i + 1 : p == 3 ? 0 : p == 4 ? i / 2 : i * (n + 1) + 1;
#if MC_KIND == 1
      L::iterator last; bool gave = false; (void)last; (void)gave;
#endif
      if (p & 1) s.l.merge(s.m); else s.l.merge(s.m, Less()); V r(n + k); std::merge(s.l_.begin(), s.l_.end(), s.m_.begin(), s.m_.end(), r.begin(), [](E* x, E* y) { return x->key < y->key; }); s.l_ = r; s.m_.clear(); check2(s); }); }
}
static void edits(int n) {
  ST("%d elements", n); state(); const int k = n % 5 + 2;
  for (int q : {1, 2, 3, 7}) {
    run("remove_if", "", [&] { S s(n, k); s.l.remove_if(ModP{q}); V g; V r; for (E* e : s.l_) (e->id % q ? r : g).push_back(e); s.l_ = r; check2(s); freed(g); });
    run("remove_and_dispose_if", "disposer", [&] { S s(n, k); V d; s.l.remove_and_dispose_if(ModP{q}, Rec{&d}); V g, r; for (E* e : s.l_) (e->id % q ? r : g).push_back(e); s.l_ = r; std::sort(d.begin(), d.end()); REQ("disposer", d == g, "wrong elements disposed"); check2(s); });
    run("unique", "", [&] { S s(n, k); s.l.unique(EqD{q}); V r, g; for (E* e : s.l_) { if (r.empty() || r.back()->key / q != e->key / q) r.push_back(e); else g.push_back(e); } s.l_ = r; check2(s); freed(g); });
    run("unique_and_dispose", "disposer", [&] { S s(n, k); V d; s.l.unique_and_dispose(EqD{q}, Rec{&d}); V r, g; for (E* e : s.l_) { if (r.empty() || r.back()->key / q != e->key / q) r.push_back(e); else g.push_back(e); } s.l_ = r; std::sort(d.begin(), d.end()); REQ("disposer", d == g, "wrong elements disposed"); check2(s); });
    run("remove(value)", "", [&] { S s(n, k); for (auto& e : s.a) e.key = e.id % q; E x; x.key = 0; s.l.remove(x); V r, g; for (E* e : s.l_) (e->key ? r : g).push_back(e); s.l_ = r; check2(s); freed(g); });
  }
  run("reverse", "", [&] { S s(n, k); s.l.reverse(); std::reverse(s.l_.begin(), s.l_.end()); check2(s); });
  for (int c : {0, 1, 2, 3, n / 2, n - 1, n, n + 1, 2 * n + 1}) if (c >= 0 && !(MC_U8 && c > 255)) for (int f = 0; f < 2; ++f) run(f ? "shift_forward" : "shift_backwards", "", [&] { S s(n, k); if (f) s.l.shift_forward(c); else s.l.shift_backwards(c); if (n) std::rotate(s.l_.begin(), s.l_.begin() + (f ? c % n : (n - c % n) % n), s.l_.end()); check2(s); });
  run("swap", "swap", [&] { S s(n, k); s.l.swap(s.m); s.l_.swap(s.m_); check2(s); }); 
  run("move", "swap", [&] { S s(n, k); L t(boost::move(s.l)); check(t, s.l_, "t"); V e; check(s.l, e, "moved from"); s.m = boost::move(t); check(s.m, s.l_, "m"); s.m.clear(); s.l_.clear(); s.m_.clear(); s.l.clear(); check2(s); });
  run("pop_front all", "", [&] { S s(n, k); while (!s.l_.empty()) { s.l.pop_front(); s.l_.erase(s.l_.begin()); if (s.l_.size() < 40) check2(s); } check2(s); });
  run("clear_and_dispose", "disposer", [&] { S s(n, k); V d; s.l.clear_and_dispose(Rec{&d}); std::sort(d.begin(), d.end()); REQ("disposer", d == s.l_, "wrong elements disposed"); s.l_.clear(); check2(s); });
  run("clear", "", [&] { S s(n, k); s.l.clear(); freed(s.l_); s.l_.clear(); check2(s); });
  for (int t : {-1, 0, n / 2, n - 1}) if (t < n) run("clone_from", "clone", [&] { S s(k, n); std::list<E> pool; int left = t < 0 ? n + 1 : t; bool thrown = false; V d; EXC = true; try { s.l.clone_from(s.m, Cl{&pool, &left}, Rec{&d}); } catch (mc::UserThrow&) { thrown = true; } EXC = false; REQ("clone", thrown == (t >= 0), "exception lost");
      if (thrown) { REQ("clone", d.size() == (size_t)(k + t), "%zu elements disposed", d.size()); s.l_.clear(); } else { REQ("clone", d.size() == (size_t)k, "%zu elements disposed", d.size()); s.l_.clear(); for (auto& e : pool) s.l_.push_back(&e); size_t i = 0; for (E* e : s.l_) { REQ("clone", e->id == s.m_[i]->id, "clone %zu", i); ++i; } }
      check2(s); s.l.clear(); s.l_.clear(); });
  run("assign", "", [&] { S s(k, n); s.m.clear(); s.l.assign(s.b.begin(), s.b.end()); freed(s.l_); s.l_ = s.m_; s.m_.clear(); check2(s); });
  for (int p : grid(n)) {
#if MC_KIND == 0
    run("insert", "", [&] { S s(n, k); E x; L::iterator i = s.l.insert(at(s.l, p), x); REQ("ret", &*i == &x, "insert"); s.l_.insert(s.l_.begin() + p, &x); check2(s); s.l.erase(i); s.l_.erase(s.l_.begin() + p); check2(s); });
    run("insert range", "", [&] { S s(n, k); s.m.clear(); s.l.insert(at(s.l, p), s.b.begin(), s.b.end()); s.l_.insert(s.l_.begin() + p, s.m_.begin(), s.m_.end()); s.m_.clear(); check2(s); });
    run("splice all", "", [&] { S s(n, k); s.l.splice(at(s.l, p), s.m); s.l_.insert(s.l_.begin() + p, s.m_.begin(), s.m_.end()); s.m_.clear(); check2(s); });
    for (int e : grid(n)) if (e >= p) {
      run("erase range", "", [&] { S s(n, k); V g(s.l_.begin() + p, s.l_.begin() + e); L::iterator r = s.l.erase(at(s.l, p), at(s.l, e)); REQ("ret", r == at(s.l, p), "erase"); s.l_.erase(s.l_.begin() + p, s.l_.begin() + e); check2(s); freed(g); });
      run("erase range with count", "", [&] { S s(n, k); s.l.erase(at(s.l, p), at(s.l, e), e - p); s.l_.erase(s.l_.begin() + p, s.l_.begin() + e); check2(s); });
      run("erase_and_dispose", "disposer", [&] { S s(n, k); V g(s.l_.begin() + p, s.l_.begin() + e), d; s.l.erase_and_dispose(at(s.l, p), at(s.l, e), Rec{&d}); REQ("disposer", d == g, "wrong elements disposed"); s.l_.erase(s.l_.begin() + p, s.l_.begin() + e); check2(s); });
      run("splice range", "", [&] { S s(n, k); s.m.splice(at(s.m, 1), s.l, at(s.l, p), at(s.l, e)); s.m_.insert(s.m_.begin() + 1, s.l_.begin() + p, s.l_.begin() + e); s.l_.erase(s.l_.begin() + p, s.l_.begin() + e); check2(s); });
      run("splice range with count", "", [&] { S s(n, k); s.m.splice(at(s.m, k), s.l, at(s.l, p), at(s.l, e), e - p); s.m_.insert(s.m_.end(), s.l_.begin() + p, s.l_.begin() + e); s.l_.erase(s.l_.begin() + p, s.l_.begin() + e); check2(s); });
      for (int to : {0, p, e, n}) if (to <= p || to >= e) run("splice range in itself", "", [&] { S s(n, k); s.l.splice(at(s.l, to), s.l, at(s.l, p), at(s.l, e)); V g(s.l_.begin() + p, s.l_.begin() + e); if (to >= e) { s.l_.insert(s.l_.begin() + to, g.begin(), g.end()); s.l_.erase(s.l_.begin() + p, s.l_.begin() + e); } else { s.l_.erase(s.l_.begin() + p, s.l_.begin() + e); s.l_.insert(s.l_.begin() + to, g.begin(), g.end()); } check2(s); });
    }
#else
    run("insert_after", "", [&] { S s(n, k); E x; L::iterator i = s.l.insert_after(bat(s.l, p), x); REQ("ret", &*i == &x, "insert"); s.l_.insert(s.l_.begin() + p, &x); check2(s); s.l.erase_after(bat(s.l, p)); s.l_.erase(s.l_.begin() + p); check2(s); });
    run("insert", "", [&] { S s(n, k); E x; s.l.insert(at(s.l, p), x); s.l_.insert(s.l_.begin() + p, &x); check2(s); s.l.erase(s.l.iterator_to(x)); s.l_.erase(s.l_.begin() + p); check2(s); });
    run("insert_after range", "", [&] { S s(n, k); s.m.clear(); s.l.insert_after(bat(s.l, p), s.b.begin(), s.b.end()); s.l_.insert(s.l_.begin() + p, s.m_.begin(), s.m_.end()); s.m_.clear(); check2(s); });
    run("splice_after all", "", [&] { S s(n, k); L::iterator r = s.l.before_begin(); s.l.splice_after(bat(s.l, p), s.m); r = s.l.iterator_to(*s.m_.back()); REQ("ret", &*r == s.m_.back(), "last spliced element"); s.l_.insert(s.l_.begin() + p, s.m_.begin(), s.m_.end()); s.m_.clear(); check2(s); });
    run("splice all", "", [&] { S s(n, k); s.l.splice(at(s.l, p), s.m); s.l_.insert(s.l_.begin() + p, s.m_.begin(), s.m_.end()); s.m_.clear(); check2(s); });
    run("previous", "", [&] { S s(n, k); if (p) { L::iterator i = s.l.previous(at(s.l, p)); REQ("ret", &*i == s.l_[p - 1], "previous"); } });
    for (int e : grid(n)) if (e >= p) {
      run("erase_after range", "", [&] { S s(n, k); V g(s.l_.begin() + p, s.l_.begin() + e); s.l.erase_after(bat(s.l, p), at(s.l, e)); s.l_.erase(s.l_.begin() + p, s.l_.begin() + e); check2(s); freed(g); });
      run("erase range", "", [&] { S s(n, k); s.l.erase(at(s.l, p), at(s.l, e)); s.l_.erase(s.l_.begin() + p, s.l_.begin() + e); check2(s); });
      run("erase_after range with count", "", [&] { S s(n, k); s.l.erase_after(bat(s.l, p), at(s.l, e), e - p); s.l_.erase(s.l_.begin() + p, s.l_.begin() + e); check2(s); });
      run("erase_after_and_dispose", "disposer", [&] { S s(n, k); V g(s.l_.begin() + p, s.l_.begin() + e), d; s.l.erase_after_and_dispose(bat(s.l, p), at(s.l, e), Rec{&d}); REQ("disposer", d == g, "wrong elements disposed"); s.l_.erase(s.l_.begin() + p, s.l_.begin() + e); check2(s); });
      run("splice_after range", "", [&] { S s(n, k); s.m.splice_after(bat(s.m, 1), s.l, bat(s.l, p), bat(s.l, e)); s.m_.insert(s.m_.begin() + 1, s.l_.begin() + p, s.l_.begin() + e); s.l_.erase(s.l_.begin() + p, s.l_.begin() + e); check2(s); });
      run("splice_after range with count", "", [&] { S s(n, k); s.m.splice_after(bat(s.m, k), s.l, bat(s.l, p), bat(s.l, e), e - p); s.m_.insert(s.m_.end(), s.l_.begin() + p, s.l_.begin() + e); s.l_.erase(s.l_.begin() + p, s.l_.begin() + e); check2(s); });
      for (int to : {0, p, e, n}) if (to <= p || to >= e) run("splice_after range in itself", "", [&] { S s(n, k); s.l.splice_after(bat(s.l, to), s.l, bat(s.l, p), bat(s.l, e)); V g(s.l_.begin() + p, s.l_.begin() + e); if (to >= e) { s.l_.insert(s.l_.begin() + to, g.begin(), g.end()); s.l_.erase(s.l_.begin() + p, s.l_.begin() + e); } else { s.l_.erase(s.l_.begin() + p, s.l_.begin() + e); s.l_.insert(s.l_.begin() + to, g.begin(), g.end()); } check2(s); });
    }
#endif
    // comparison with a list that differs in one place (or is a prefix)
    run("compare", "rel", [&] { S s(n, n); for (int i = 0; i < n; ++i) s.b[i].key = s.a[i].key; REQ("rel", s.l == s.m && !(s.l != s.m) && !(s.l < s.m) && s.l <= s.m && s.l >= s.m && !(s.l > s.m), "equal lists"); if (p < n) { s.b[p].key += 1; REQ("rel", s.l != s.m && !(s.l == s.m) && s.l < s.m && s.m > s.l && !(s.m < s.l) && !(s.m <= s.l) && s.l <= s.m, "difference at %d", p); s.b[p].key -= 1; s.l.erase(s.l.iterator_to(s.a[n - 1])); REQ("rel", s.l != s.m && s.l < s.m && !(s.m < s.l) && s.m > s.l, "prefix"); } });
  }
}
// every pair of lists of up to 3 (deep: 4) elements; == of the elements is finer than their order
static void finer() {
  typedef std::pair<int, int> P; const size_t L = g_deep ? 4 : 3; std::vector<std::vector<P> > all(1); for (size_t i = 0; i < all.size(); ++i) if (all[i].size() < L) for (int k = 0; k < 3; ++k) for (int v = 0; v < 2; ++v) { std::vector<P> q = all[i]; q.push_back(P(k, v)); all.push_back(q); }
  ST("comparison of all pairs of lists of up to %zu elements", L); state();
  for (auto& p : all) run("compare elements", "rel", [&] { std::vector<E> a(p.size()); ::L x; for (size_t i = p.size(); i--;) { a[i].key = p[i].first; a[i].sub = p[i].second; x.push_front(a[i]); }
    for (auto& q : all) { std::vector<E> b(q.size()); ::L y; for (size_t i = q.size(); i--;) { b[i].key = q[i].first; b[i].sub = q[i].second; y.push_front(b[i]); }
      const bool eq = p == q; int r = 0; for (size_t i = 0; !r; ++i) { if (i == p.size() || i == q.size()) { r = p.size() < q.size() ? -1 : p.size() > q.size() ? 1 : 2; break; } int u = p[i].first, w = q[i].first; r = u < w ? -1 : u > w ? 1 : 0; }
      auto show = [](const std::vector<P>& v) { std::string s; for (auto& i : v) s += mc::strf("(%d,%d)", i.first, i.second); return s; };
      REQ("rel", (x == y) == eq && (x != y) != eq, "== of %s and %s", show(p).c_str(), show(q).c_str());
      REQ("rel", (x < y) == (r == -1) && (x > y) == (r == 1) && (x <= y) == (r != 1) && (x >= y) == (r != -1), "order of %s and %s", show(p).c_str(), show(q).c_str()); y.clear(); } x.clear(); });
}
static void all() {
  finer();
  for (int n : sizes(100000)) { sorts(n); edits(n); }
  if (!MC_U8) for (int n : {2048, 2049, 4095, 4097, 65535, 65537, 131075}) sorts(n);
  if (!MC_U8) { ST("1048579 elements"); state(); run("sort", "", [&] { S s(1048579, 0, 6); s.l.sort(); std::stable_sort(s.l_.begin(), s.l_.end(), [](E* x, E* y) { return x->key < y->key; }); check2(s); }); }
  for (int n : {0, 1, 2, 3, 4, 5, 8, 15, 17, 33, 64, 129}) for (int k : {0, 1, 2, 3, 4, 5, 8, 15, 17, 33, 64, 129}) if (!MC_U8 || n + k < 255) merges(n, k);
}
#elif MC_KIND == 2
#include "big_tree.hpp"
#else
#include "big_hash.hpp"
#endif
int main(int argc, char** argv) {
  mc::install_traps(); double t0 = mc::now(); bool rep = false;
  for (int i = 1; i < argc; ++i) { if (!strcmp(argv[i], "--cats")) { std::string k = argv[++i]; size_t p = 0; while (p < k.size()) { size_t q = k.find(',', p); if (q == std::string::npos) q = k.size(); mc::g_cats.insert(k.substr(p, q - p)); p = q + 1; } } else if (!strcmp(argv[i], "--replay")) rep = true; else if (!strcmp(argv[i], "--deep")) g_deep = true; }
  mc::g_rep = &R; R.depth = 1; all();
  if (rep) { for (auto& v : R.viols) printf("REPRODUCED [%s] %s\n", v.cat.c_str(), v.msg.c_str()); return !R.viols.empty(); }
  mc::emit(R, "big", mc::now() - t0);
}
