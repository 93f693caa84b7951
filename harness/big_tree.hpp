// ordered containers, see big.cpp
template<class N> struct KP { int key, id; unsigned prio; bool dead; };
#define PAYLOAD int key, id, sub; unsigned prio; bool dead; E() : key(0), id(0), sub(0), prio(0), dead(false) {} \
  friend bool operator<(const E& a, const E& b) { return a.key + a.sub < b.key + b.sub; } friend bool operator==(const E& a, const E& b) { return a.key == b.key && a.sub == b.sub; }
struct Less { bool operator()(const int& a, const int& b) const { return a < b; } };
struct KOV { typedef int type; const int& operator()(const struct E& e) const; };
#define COPTS bi::compare<Less>, bi::key_of_value<KOV> SZT
#if MC_TREE == 0
struct E : bi::bs_set_base_hook<> { PAYLOAD }; typedef bi::bs_set<E, COPTS, bi::constant_time_size<MC_CTS != 0> > U; typedef bi::bs_multiset<E, COPTS, bi::constant_time_size<MC_CTS != 0> > M;
#elif MC_TREE == 1
struct E : bi::set_base_hook<bi::optimize_size<MC_OPT != 0> > { PAYLOAD }; typedef bi::set<E, COPTS, bi::constant_time_size<MC_CTS != 0> > U; typedef bi::multiset<E, COPTS, bi::constant_time_size<MC_CTS != 0> > M;
#elif MC_TREE == 2
struct E : bi::avl_set_base_hook<bi::optimize_size<MC_OPT != 0> > { PAYLOAD }; typedef bi::avl_set<E, COPTS, bi::constant_time_size<MC_CTS != 0> > U; typedef bi::avl_multiset<E, COPTS, bi::constant_time_size<MC_CTS != 0> > M;
#elif MC_TREE == 3
struct E : bi::bs_set_base_hook<> { PAYLOAD }; typedef bi::splay_set<E, COPTS, bi::constant_time_size<MC_CTS != 0> > U; typedef bi::splay_multiset<E, COPTS, bi::constant_time_size<MC_CTS != 0> > M;
#elif MC_TREE == 4
struct E : bi::bs_set_base_hook<> { PAYLOAD }; typedef bi::sg_set<E, COPTS, bi::floating_point<!MC_FIXED> > U; typedef bi::sg_multiset<E, COPTS, bi::floating_point<!MC_FIXED> > M;
#else
struct Prio { bool operator()(unsigned a, unsigned b) const { return a < b; } bool operator()(const struct E& a, const struct E& b) const; };
struct POV { typedef unsigned type; const unsigned& operator()(const struct E& e) const; };
struct E : bi::bs_set_base_hook<> { PAYLOAD }; typedef bi::treap_set<E, COPTS, bi::priority<Prio>, bi::priority_of_value<POV>, bi::constant_time_size<MC_CTS != 0> > U; typedef bi::treap_multiset<E, COPTS, bi::priority<Prio>, bi::priority_of_value<POV>, bi::constant_time_size<MC_CTS != 0> > M;
inline bool Prio::operator()(const E& a, const E& b) const { return a.prio < b.prio; } inline const unsigned& POV::operator()(const E& e) const { return e.prio; }
#endif
inline const int& KOV::operator()(const E& e) const { return e.key; }
typedef std::vector<E*> V; typedef U::node_traits NT; typedef NT::node_ptr NP; typedef NT::const_node_ptr CNP;
struct Rec { V* v; void operator()(E* e) const { REQ("disposer", !e->dead, "disposed twice"); REQ("disposer", !e->is_linked(), "still linked when disposed"); e->dead = true; v->push_back(e); } };
struct Cl { std::list<E>* pool; int* left; E* operator()(const E& e) const { if (--*left < 0) throw mc::UserThrow{1}; pool->push_back(E()); E& x = pool->back(); x.key = e.key; x.id = e.id; x.prio = e.prio; return &x; } };
static E& val(NP n) { return *U::value_traits::to_value_ptr(n); }
struct Shape { int h, bh; size_t n; };
static Shape walk(NP n, NP parent, const char* name, const V& v, size_t& at, int depth) {
  Shape r = {0, 1, 0}; if (!n) return r; REQ("struct", depth < 3000, "%s too deep", name); if (depth >= 3000) return r;
  REQ("struct", NT::get_parent(n) == parent, "%s: parent link of element %d", name, val(n).id);
  Shape a = walk(NT::get_left(n), n, name, v, at, depth + 1);
  REQ("struct", at < v.size() && &val(n) == v[at], "%s: in-order position %zu", name, at); ++at;
  Shape b = walk(NT::get_right(n), n, name, v, at, depth + 1);
  r.h = 1 + std::max(a.h, b.h); r.n = 1 + a.n + b.n;
#if MC_TREE == 1
  bool red = NT::get_color(n) == NT::red(); for (NP c : {NT::get_left(n), NT::get_right(n)}) if (c) REQ("balance", !red || NT::get_color(c) != NT::red(), "%s: red element %d has a red child", name, val(n).id);
  REQ("balance", a.bh == b.bh, "%s: black heights %d and %d below element %d", name, a.bh, b.bh, val(n).id); r.bh = a.bh + !red;
#elif MC_TREE == 2
  REQ("balance", std::abs(a.h - b.h) <= 1, "%s: heights %d and %d below element %d", name, a.h, b.h, val(n).id); NT::balance w = a.h == b.h ? NT::zero() : a.h < b.h ? NT::positive() : NT::negative(); REQ("balance", NT::get_balance(n) == w, "%s: balance factor of element %d", name, val(n).id);
#elif MC_TREE == 5
  for (NP c : {NT::get_left(n), NT::get_right(n)}) if (c) REQ("heap", !(val(c).prio < val(n).prio), "%s: element %d has a child of higher priority", name, val(n).id);
#endif
  return r;
}
static bool g_heights = true;
template<class C> static NP hdr(const C& c) { return const_cast<C&>(c).end().pointed_node(); }
template<class C> static void check(C& c, const V& v, const char* n) {
  const C& k = c; size_t i = 0;
  for (typename C::const_iterator it = k.begin(); it != k.end(); ++it, ++i) { REQ("order", i < v.size(), "%s has more than %zu elements", n, v.size()); if (i >= v.size()) break; REQ("order", &*it == v[i], "%s: element %d (key %d) at position %zu, expected %d (key %d)", n, it->id, it->key, i, v[i]->id, v[i]->key); }
  REQ("order", i == v.size(), "%s ends after %zu of %zu elements", n, i, v.size()); i = v.size();
  for (typename C::const_reverse_iterator it = k.rbegin(); it != k.rend(); ++it) { REQ("order", i > 0, "%s backwards too long", n); if (!i) break; --i; REQ("order", &*it == v[i], "%s backwards: position %zu", n, i); } REQ("order", i == 0, "%s backwards too short", n);
  REQ("size", (size_t)k.size() == v.size(), "%s: size() %zu, %zu elements", n, (size_t)k.size(), v.size()); REQ("size", k.empty() == v.empty(), "%s: empty()", n);
  for (E* e : v) REQ("linked", e->is_linked(), "%s: element %d not linked", n, e->id);
  NP h = hdr(c); NP root = NT::get_parent(h); size_t at = 0; Shape s = walk(root, h, n, v, at, 0); REQ("struct", at == v.size(), "%s: tree of %zu nodes", n, at);
  REQ("struct", NT::get_left(h) == (v.empty() ? h : C::value_traits::to_node_ptr(*v[0])) && NT::get_right(h) == (v.empty() ? h : C::value_traits::to_node_ptr(*v.back())), "%s: leftmost/rightmost", n);
#if MC_TREE == 1
  if (root) REQ("balance", NT::get_color(root) == NT::black(), "%s: red root", n);
#elif MC_TREE == 4
  if (g_heights) REQ("balance", s.h <= 2 * std::log2(v.size() + 1.0) + 3, "%s: height %d with %zu elements", n, s.h, v.size());
#elif MC_TREE == 5
  if (root) REQ("heap", &*k.top() == &val(root), "%s: top()", n);
#endif
  c.check();
}
static void freed(const V& v) { for (E* e : v) REQ("linked", !e->is_linked(), "removed element %d is linked", e->id); }
static bool lk(E* a, E* b) { return a->key < b->key; }
static V::iterator lb(V& v, int k) { return std::lower_bound(v.begin(), v.end(), k, [](E* a, int k) { return a->key < k; }); }
static V::iterator ub(V& v, int k) { return std::upper_bound(v.begin(), v.end(), k, [](int k, E* a) { return k < a->key; }); }
enum { NORD = 6 };
static std::vector<int> order(int o, int n) {
  std::vector<int> p(n), r; for (int i = 0; i < n; ++i) p[i] = i;
  switch (o) {
    case 0: return p; case 1: return std::vector<int>(p.rbegin(), p.rend());
    case 2: for (int i = 0, j = n - 1; i <= j; ++i, --j) { r.push_back(i); if (i != j) r.push_back(j); } return r;
    case 3: for (int i = 0, j = n - 1; i <= j; ++i, --j) { r.push_back(i); if (i != j) r.push_back(j); } std::reverse(r.begin(), r.end()); return r;
    case 4: { int w = 1; while (w < n) w *= 2; for (int s = w; s >= 1; s /= 2) for (int i = s - 1; i < n; i += 2 * s) r.push_back(i); return r; }
    default: { std::vector<char> seen(n); long long q = 0; for (int i = 0; i < n; ++i) { q = (q * 5 + 17) % (n ? n : 1); while (seen[q]) q = (q + 1) % n; seen[q] = 1; r.push_back((int)q); } return r; }
  }
}
static unsigned prio(int i, int n, int o) { return MC_TREE != 5 ? 0 : o % 4 == 0 ? (unsigned)(i * 7919u % 1009u) : o % 4 == 1 ? i : o % 4 == 2 ? n - i : i % 3; }
template<class C> struct S { std::vector<E> a, b; C c, d; V c_, d_; int n;
  // n elements, `dup` per key (keys 4, 8, ...), inserted in order o; k elements with keys 6, 10, ... in the other container
  S(int n_, int dup, int o, int k = 3) : a(n_), b(k), n(n_) {
    for (int i = 0; i < n; ++i) { a[i].key = 4 * (i / dup) + 4; a[i].id = i; } for (int i = 0; i < k; ++i) { b[i].key = 4 * i + 6; b[i].id = 100000 + i; b[i].prio = prio(i, k, o + 1); }
    int q = 0; for (int i : order(o, n)) { a[i].prio = prio(q++, n, o); c.insert(a[i]); c_.insert(ub(c_, a[i].key), &a[i]); } for (auto& e : b) { d.insert(e); d_.push_back(&e); }
  }
  void both() { check(c, c_, "c"); check(d, d_, "d"); }
  ~S() { c.clear(); d.clear(); } };
template<class C> static typename C::iterator at(C& c, int p) { typename C::iterator i = c.begin(); while (p--) ++i; return i; }
template<class C, bool MULTI> static void lookups(int n, int dup, int o) {
  run("lookups", "lookup", [&] { S<C> s(n, dup, o); C& c = s.c; const C& q = c; V& v = s.c_; const int top = 4 * (n / dup) + 10;
    for (int k = 2; k <= top; k += 2) { if (n > 70 && k > 12 && k < top - 12 && k % (4 * (n / 40 + 1)) > 2) continue;
      V::iterator l = lb(v, k), u = ub(v, k); auto node = [&](V::iterator i) { return i == v.end() ? 0 : *i; }; auto ptr = [&](typename C::const_iterator i) { return i == q.end() ? (const E*)0 : &*i; };
      E* L = node(l); E* H = node(u); E* F = l == u ? 0 : L;
      REQ("lookup", ptr(q.lower_bound(k)) == L, "lower_bound(%d)", k); REQ("lookup", ptr(q.upper_bound(k)) == H, "upper_bound(%d)", k); REQ("lookup", q.count(k) == (size_t)(u - l), "count(%d)", k);
      const E* f = ptr(q.find(k)); REQ("lookup", MULTI ? (f ? f->key == k && F : !F) : f == F, "find(%d)", k); auto e = q.equal_range(k); REQ("lookup", ptr(e.first) == L && ptr(e.second) == H, "equal_range(%d)", k);
      REQ("lookup", ptr(c.lower_bound(k)) == L, "lower_bound(%d)", k); f = ptr(c.find(k)); REQ("lookup", f ? f->key == k && F : !F, "find(%d)", k); REQ("lookup", ptr(c.upper_bound(k)) == H, "upper_bound(%d)", k); REQ("lookup", c.count(k) == (size_t)(u - l), "count(%d)", k); e = c.equal_range(k); REQ("lookup", ptr(e.first) == L && ptr(e.second) == H, "equal_range(%d)", k);
      for (int w : {0, 2, 4, 16, 100}) for (int cl = 0; cl < 4; ++cl) { if (!w && cl != 3) continue; auto r = q.bounded_range(k, k + w, cl & 1, cl & 2); REQ("lookup", ptr(r.first) == node(cl & 1 ? lb(v, k) : ub(v, k)) && ptr(r.second) == node(cl & 2 ? ub(v, k + w) : lb(v, k + w)), "bounded_range(%d, %d, %d, %d)", k, k + w, cl & 1, cl >> 1); }
    }
    s.both(); });
}
template<class C, bool MULTI> static void one(int n, int dup, int o) {
  const char* name = MULTI ? "a multiset" : "a set"; ST("%s of %d elements (%d per key, order %d)", name, n, dup, o); state();
  typedef typename C::iterator It; typedef S<C> T; const int K = n / dup;
  run("insert", "", [&] { T s(n, dup, o); s.both(); });
  if (n <= 40) run("insert, checked after every one", "", [&] { std::vector<E> a(n); C c; V v; int q = 0; for (int i : order(o, n)) { E& e = a[i]; e.key = 4 * (i / dup) + 4; e.id = i; e.prio = prio(q++, n, o); c.insert(e); v.insert(ub(v, e.key), &e); check(c, v, "c"); } c.clear(); });
  lookups<C, MULTI>(n, dup, o);
  for (int eo = 0; eo < NORD; ++eo) run("erase one by one", "", [&] { T s(n, dup, o); int q = 0; for (int i : order(eo, n)) { s.c.erase(s.c.iterator_to(s.a[i])); s.c_.erase(std::find(s.c_.begin(), s.c_.end(), &s.a[i])); REQ("linked", !s.a[i].is_linked(), "erased element linked"); if (n <= 33 || ++q % (n / 12) == 0 || s.c_.size() < 8) s.both(); } s.both(); });
  run("erase the root", "", [&] { T s(n, dup, o); while (!s.c.empty()) { E* e = &*s.c.root(); s.c.erase_and_dispose(s.c.root(), [](E*) {}); s.c_.erase(std::find(s.c_.begin(), s.c_.end(), e)); if (n <= 33 || s.c_.size() % 16 == 0) s.both(); } });
  run("erase and insert again", "insert", [&] { T s(n, dup, o); for (int i : order(5, n)) { s.c.erase(s.c.iterator_to(s.a[i])); s.c_.erase(std::find(s.c_.begin(), s.c_.end(), &s.a[i])); s.c.insert(s.a[i]); s.c_.insert(ub(s.c_, s.a[i].key), &s.a[i]); if (n <= 33 || i % 16 == 0) s.both(); } s.both(); });
  run("clear_and_dispose", "disposer", [&] { T s(n, dup, o); V d; s.c.clear_and_dispose(Rec{&d}); std::sort(d.begin(), d.end()); V w = s.c_; std::sort(w.begin(), w.end()); REQ("disposer", d == w, "wrong elements disposed"); s.c_.clear(); s.both(); });
  run("clear", "", [&] { T s(n, dup, o); s.c.clear(); freed(s.c_); s.c_.clear(); s.both(); });
#if MC_TREE != 4
  run("unlink_leftmost_without_rebalance", "", [&] { T s(n, dup, o); size_t i = 0; while (E* e = s.c.unlink_leftmost_without_rebalance()) { REQ("ret", i < s.c_.size() && e == s.c_[i], "position %zu", i); ++i; } REQ("ret", i == s.c_.size(), "ended after %zu", i); s.c_.clear(); check(s.c, s.c_, "c"); });
#endif
  for (int t : {-1, 0, 1, n / 2, n - 1}) if (t < n) run("clone_from", "clone", [&] { T s(n, dup, o); std::list<E> pool; int left = t < 0 ? n + 1 : t; bool thrown = false; V d; try { s.d.clone_from(s.c, Cl{&pool, &left}, Rec{&d}); } catch (mc::UserThrow&) { thrown = true; } REQ("clone", thrown == (t >= 0), "exception lost"); REQ("clone", d.size() == (size_t)(3 + (t < 0 ? 0 : t)), "%zu elements disposed", d.size()); s.d_.clear();
      if (!thrown) { for (auto& e : s.d) s.d_.push_back(&e); REQ("clone", s.d_.size() == s.c_.size(), "%zu clones", s.d_.size()); for (size_t i = 0; i < s.d_.size() && i < s.c_.size(); ++i) REQ("clone", s.d_[i]->id == s.c_[i]->id, "clone %zu", i); } s.both(); s.d.clear(); s.d_.clear(); });
  run("swap", "swap", [&] { T s(n, dup, o); s.c.swap(s.d); s.c_.swap(s.d_); s.both(); E x; x.key = 5; x.id = -1; s.d.insert(x); s.d_.insert(ub(s.d_, 5), &x); s.both(); s.d.erase(s.d.iterator_to(x)); });
  run("move", "swap", [&] { T s(n, dup, o); C t(boost::move(s.c)); check(t, s.c_, "t"); V none; check(s.c, none, "moved from"); s.d = boost::move(t); check(s.d, s.c_, "d"); s.d_ = s.c_; s.d.clear(); s.c.clear(); s.c_.clear(); s.d_.clear(); t.clear(); s.both(); });
  for (int k : {0, 1, 5, 17, 40}) run("merge", "insert", [&] { T s(n, dup, o, k); if (MC_U8 && n + k > 254) return; for (int f = 0; f < 2; ++f) { C& x = f ? s.d : s.c; C& y = f ? s.c : s.d; V& xv = f ? s.d_ : s.c_; V& yv = f ? s.c_ : s.d_; x.merge(y); V left; for (E* e : yv) { V::iterator l = lb(xv, e->key), u = ub(xv, e->key); if (!MULTI && l != u) left.push_back(e); else xv.insert(u, e); } yv = left; s.both(); } });
  run("merge with equivalent elements", "insert", [&] { T s(n, dup, o, 40); if (MC_U8 && n > 200) return; s.d.clear(); s.d_.clear(); for (int i = 0; i < 40; ++i) { s.b[i].key = 4 * (i / 2) + 4; bool ok = true; if (!MULTI) ok = i % 2 == 0; s.d.insert(s.b[i]); if (ok) s.d_.push_back(&s.b[i]); } s.c.merge(s.d); V left; for (E* e : s.d_) { V::iterator l = lb(s.c_, e->key), u = ub(s.c_, e->key); if (!MULTI && l != u) left.push_back(e); else s.c_.insert(u, e); } s.d_ = left; s.both(); });
  for (int k = 1; k <= K + 1; k += 1 + K / 12) run("erase(key)", "", [&] { T s(n, dup, o); int key = 4 * k; V::iterator l = lb(s.c_, key), u = ub(s.c_, key); V g(l, u); size_t r = s.c.erase(key); REQ("ret", r == g.size(), "erase(%d) returned %zu", key, r); s.c_.erase(l, u); freed(g); s.both(); });
  for (int p : grid(n)) {
    // every kind of hint for an element that goes to position p
    for (int h : {0, p - 1, p, p + 1, n}) if (h >= 0 && h <= n) run("insert with a hint", "insert", [&] { T s(n, dup, o); E x; x.id = -1; x.key = p < n ? s.c_[p]->key - 2 : 4 * K + 10; x.prio = (unsigned)p; It i = s.c.insert(at(s.c, h), x); REQ("ret", &*i == &x, "insert"); s.c_.insert(lb(s.c_, x.key), &x); s.both(); s.c.erase(i); s.c_.erase(std::find(s.c_.begin(), s.c_.end(), &x)); s.both(); });
    if (MULTI && p < n) for (int h : {0, p, n}) run("insert an equivalent element with a hint", "insert", [&] { T s(n, dup, o); E x; x.id = -1; x.key = s.c_[p]->key; V::iterator l = lb(s.c_, x.key), u = ub(s.c_, x.key); int w = h; if (w < l - s.c_.begin()) w = (int)(l - s.c_.begin()); if (w > u - s.c_.begin()) w = (int)(u - s.c_.begin()); s.c.insert(at(s.c, h), x); s.c_.insert(s.c_.begin() + w, &x); s.both(); s.c.erase(s.c.iterator_to(x)); });
    run("insert_before", "insert", [&] { T s(n, dup, o); E x; x.id = -1; x.key = p < n ? s.c_[p]->key : 4 * K + 10; if (!MULTI || dup == 1) x.key -= 2; x.prio = 3; It i = s.c.insert_before(at(s.c, p), x); REQ("ret", &*i == &x, "insert_before"); s.c_.insert(s.c_.begin() + p, &x); s.both(); s.c.erase(i); });
    run(p & 1 ? "push_back" : "push_front", "insert", [&] { T s(n, dup, o); E x[3]; for (int j = 0; j < 3; ++j) { x[j].key = p & 1 ? 4 * K + 10 + j : -j; x[j].prio = j + p; if (p & 1) { s.c.push_back(x[j]); s.c_.push_back(&x[j]); } else { s.c.push_front(x[j]); s.c_.insert(s.c_.begin(), &x[j]); } s.both(); } s.c.clear(); });
    for (int e : grid(n)) if (e >= p) { run("erase range", "", [&] { T s(n, dup, o); V g(s.c_.begin() + p, s.c_.begin() + e); s.c.erase(at(s.c, p), at(s.c, e)); s.c_.erase(s.c_.begin() + p, s.c_.begin() + e); freed(g); s.both(); });
      run("erase_and_dispose range", "disposer", [&] { T s(n, dup, o); V g(s.c_.begin() + p, s.c_.begin() + e), d; s.c.erase_and_dispose(at(s.c, p), at(s.c, e), Rec{&d}); std::sort(d.begin(), d.end()); std::sort(g.begin(), g.end()); REQ("disposer", d == g, "wrong elements disposed"); s.c_.erase(s.c_.begin() + p, s.c_.begin() + e); s.both(); }); }
    if (p < n) { run("replace_node", "", [&] { T s(n, dup, o); E x; x.id = -1; x.key = s.c_[p]->key; x.prio = s.c_[p]->prio; E* old = s.c_[p]; s.c.replace_node(at(s.c, p), x); s.c_[p] = &x; s.both(); REQ("linked", MC_TREE < 0 || x.is_linked(), "replacement not linked"); (void)old; C::node_algorithms::init(C::value_traits::to_node_ptr(*old)); s.c.erase(s.c.iterator_to(x)); s.c_.erase(s.c_.begin() + p); s.both(); });
#if MC_TREE == 0 || MC_TREE == 3 || MC_TREE == 4
      run("rebalance_subtree", "rebalance", [&] { T s(n, dup, o); It i = s.c.rebalance_subtree(at(s.c, p)); s.both(); REQ("rebalance", i != s.c.end(), "rebalance_subtree"); });
#endif
#if MC_TREE == 3
      run("splay_up", "splay", [&] { T s(n, dup, o); s.c.splay_up(at(s.c, p)); REQ("splay", &*s.c.root() == s.c_[p], "root"); s.both(); });
      run("splay_down", "splay", [&] { T s(n, dup, o); E* r = &*s.c.splay_down(s.c_[p]->key); REQ("splay", r->key == s.c_[p]->key && &*s.c.root() == r, "root"); s.both(); });
#endif
    }
    run("compare", "rel", [&] { T s(n, dup, o, n); for (int i = 0; i < n; ++i) s.b[i].key = s.c_[i]->key; C& x = s.c; C& y = s.d; s.d.clear(); if (!MULTI && dup > 1) return; for (auto& e : s.b) s.d.push_back(e); REQ("rel", x == y && !(x != y) && !(x < y) && x <= y && x >= y && !(x > y), "equal containers"); if (p < n) { s.b[p].key += 1; REQ("rel", x != y && !(x == y) && x < y && y > x && !(y < x) && x <= y && !(x >= y), "difference at %d", p); s.b[p].key -= 1; y.erase(y.iterator_to(s.b[n - 1])); REQ("rel", x != y && y < x && !(x < y) && x > y, "prefix"); } s.d_.clear(); s.d.clear(); });
  }
#if MC_TREE == 0 || MC_TREE == 3 || MC_TREE == 4
  run("rebalance", "rebalance", [&] { T s(n, dup, o); s.c.rebalance(); s.both(); NP h = hdr(s.c); size_t q = 0; Shape r = walk(NT::get_parent(h), h, "c", s.c_, q, 0); REQ("rebalance", r.h <= (int)std::ceil(std::log2(n + 1.0)), "height %d", r.h); });
#endif
#if MC_TREE == 5
  run("pop", "", [&] { T s(n, dup, o); while (!s.c.empty()) { It t = s.c.top(); for (E* e : s.c_) REQ("heap", !(e->prio < t->prio), "top() is not the highest priority"); s.c_.erase(std::find(s.c_.begin(), s.c_.end(), &*t)); s.c.erase(t); if (n <= 33 || s.c_.size() % 16 == 0) s.both(); } });
#endif
}
#if MC_TREE == 4
// the depth of every newly inserted element stays within the documented bound while the tree grows to 2^LG elements
static void grow(int lg, int pattern, float alpha) {
  if (MC_U8) return; const int n = 1 << lg; ST("a set growing to %d elements, pattern %d, balance factor %g", n, pattern, alpha); state();
  run("insert", "", [&] { std::vector<E> a(n); M c;
#if !MC_FIXED
    if (alpha) c.balance_factor(alpha);
#endif
    const double f = alpha ? alpha : std::sqrt(0.5); NP h = hdr(c);
    for (int i = 0; i < n; ++i) { E& e = a[i]; e.id = i; e.key = pattern == 0 ? i : pattern == 1 ? -i : pattern == 2 ? (i & 1 ? i : -i) : (i & 255) * 65536 + i; c.insert(e); int d = 0; for (NP x = M::value_traits::to_node_ptr(e); NT::get_parent(x) != h && d < 10000; x = NT::get_parent(x)) { if (x == h) break; ++d; if (NT::get_parent(NT::get_parent(x)) == x) break; }
      REQ("balance", d <= 1.05 * std::log2(i + 1.0) / -std::log2(f) + 1.5, "element %d inserted at depth %d", i, d); }
    REQ("size", c.size() == (size_t)n, "size"); int k = -2147483647; for (auto& e : c) { REQ("order", k <= e.key, "order"); k = e.key; } c.clear(); });
}
#endif
// the operators of the elements are not the ordering of the container: every pair of sequences of up to 3 (deep: 4) elements with keys 0, 10
// and values 0, 20, 40, where == compares both, < compares the sum, and the container is ordered by the key alone
static void finer() {
  typedef std::pair<int, int> P; const size_t L = g_deep ? 4 : 3; std::vector<std::vector<P> > all(1); for (size_t i = 0; i < all.size(); ++i) if (all[i].size() < L) for (int k = all[i].empty() ? 0 : all[i].back().first; k <= 10; k += 10) for (int v : {0, 20, 40}) { std::vector<P> q = all[i]; q.push_back(P(k, v)); all.push_back(q); }
  ST("comparison of all pairs of sequences of up to %zu elements", L); state();
  for (auto& p : all) run("compare elements", "rel", [&] { std::vector<E> a(p.size()); M x; for (size_t i = 0; i < p.size(); ++i) { a[i].key = p[i].first; a[i].sub = p[i].second; a[i].prio = (unsigned)(i * 7) % 3; x.insert(a[i]); }
    for (auto& q : all) { std::vector<E> b(q.size()); M y; for (size_t i = 0; i < q.size(); ++i) { b[i].key = q[i].first; b[i].sub = q[i].second; b[i].prio = (unsigned)(i * 5) % 3; y.insert(b[i]); }
      const bool eq = p == q; int r = 0; for (size_t i = 0; !r; ++i) { if (i == p.size() || i == q.size()) { r = p.size() < q.size() ? -1 : p.size() > q.size() ? 1 : 2; break; } int u = p[i].first + p[i].second, w = q[i].first + q[i].second; r = u < w ? -1 : u > w ? 1 : 0; }
      auto show = [](const std::vector<P>& v) { std::string s; for (auto& i : v) s += mc::strf("(%d,%d)", i.first, i.second); return s; };
      REQ("rel", (x == y) == eq && (x != y) != eq, "== of %s and %s", show(p).c_str(), show(q).c_str());
      REQ("rel", (x < y) == (r == -1) && (x > y) == (r == 1) && (x <= y) == (r != 1) && (x >= y) == (r != -1), "order of %s and %s", show(p).c_str(), show(q).c_str()); y.clear(); } x.clear(); });
}
static void all() {
  finer();
#if MC_TREE == 4
  for (int p = 0; p < 4; ++p) { grow(g_deep ? 20 : 17, p, 0); if (!MC_FIXED) for (float f : {0.51f, 0.55f, 0.6f, 0.8f, 0.9f}) grow(f < 0.55f ? 10 : g_deep ? 17 : 14, p, f); }
#endif
  const int lim = g_deep ? 1000 : MC_TREE == 0 || MC_TREE == 5 || MC_TREE == 3 ? 65 : 130;
  for (int n : sizes(lim)) for (int o = 0; o < NORD; ++o) { if (!g_deep && n > 16 && n < 60 && (n + o) % 3) continue; one<U, false>(n, 1, o); one<M, true>(n, 1, o); if (n > 1) { one<M, true>(n, 2, o); if (n > 6 && (n + o) % 2) one<M, true>(n, 5, o); if (o == 0) one<M, true>(n, n, o); } }
}
