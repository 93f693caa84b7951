// unordered containers, see big.cpp
#define HK bi::store_hash<MC_SH != 0>, bi::optimize_multikey<MC_MK != 0>
struct E : bi::unordered_set_base_hook<HK> { int key, id, sub; bool dead; E() : key(0), id(0), sub(0), dead(false) {} friend bool operator==(const E& a, const E& b) { return a.key == b.key && a.sub == b.sub; } };
static int g_mode;    // 0 identity, 1 constant, 2 four values, 3 multiples of 1024, 4 spread over the whole size_t
struct Hash { size_t operator()(const int& k) const { switch (g_mode) { case 0: return (size_t)k; case 1: return 6; case 2: return (size_t)(k & 3); case 3: return (size_t)k * 1024; default: return (size_t)k * 0x9E3779B97F4A7C15ull; } } };
struct Eq { bool operator()(const int& a, const int& b) const { return a == b; } };
struct KOV { typedef int type; const int& operator()(const E& e) const { return e.key; } };
#define OPTS bi::hash<Hash>, bi::equal<Eq>, bi::key_of_value<KOV>, bi::constant_time_size<MC_CTS != 0>, bi::cache_begin<MC_CB != 0>, bi::linear_buckets<MC_LB != 0>, bi::compare_hash<MC_SH == 2>, \
  bi::power_2_buckets<MC_POL == 1>, bi::incremental<MC_POL == 2>, bi::fastmod_buckets<MC_POL == 3> SZT
#if MC_API == 0
typedef bi::unordered_set<E, OPTS> C;
#else
typedef bi::unordered_multiset<E, OPTS> C;
#endif
static const bool MULTI = MC_API == 1, INCR = MC_POL == 2;
typedef C::bucket_type B; typedef C::bucket_traits BT; enum { OV = C::bucket_overhead };
typedef std::vector<E*> V;
struct Rec { V* v; void operator()(E* e) const { REQ("disposer", !e->dead, "disposed twice"); REQ("disposer", !e->is_linked(), "still linked when disposed"); e->dead = true; v->push_back(e); } };
struct Cl { std::list<E>* pool; int* left; E* operator()(const E& e) const { if (--*left < 0) throw mc::UserThrow{1}; pool->push_back(E()); E& x = pool->back(); x.key = e.key; x.id = e.id; return &x; } };
static std::vector<int> counts() {
  std::vector<int> r;
  if (MC_POL == 0) for (int i : {1, 2, 3, 4, 5, 7, 8, 16, 17, 61, 100, 256, 1000}) r.push_back(i);
  else if (MC_POL == 3) { for (size_t i : {(size_t)1, (size_t)4, (size_t)10, (size_t)30, (size_t)100, (size_t)500}) { int c = (int)(C::size_type)C::suggested_upper_bucket_count((C::size_type)i); if (r.empty() || r.back() != c) r.push_back(c); } }
  else for (int i : {1, 2, 4, 8, 16, 32, 64, 256, 1024}) { if (MC_POL == 2 && i < 2) continue; r.push_back(i); }
  std::vector<int> q; for (int c : r) if (!MC_U8 || c + OV <= 255) q.push_back(c); return q;
}
struct Arr { std::unique_ptr<B[]> b; int n; explicit Arr(int c) : b(new B[c + OV + 1]), n(c) {} BT t() { return BT(&b[0], n + OV); } };
struct S { std::vector<E> a, e; std::list<Arr> arr; C c, d; V c_, d_; 
  S(int n, int dup, int nb, int k = 3) : a(n), e(k), c((arr.push_back(Arr(nb)), arr.back().t())), d((arr.push_back(Arr(nb)), arr.back().t())) {
    for (int i = 0; i < n; ++i) { a[i].key = i / dup; a[i].id = i; } for (int i = 0; i < k; ++i) { e[i].key = 2 * i + 1; e[i].id = 100000 + i; }
    for (int i = 0; i < n; ++i) { int j = dup > 1 ? (i * dup) % n + (i * dup) / n : i; if (dup > 1 && n % dup) j = i; c.insert(a[j]); c_.push_back(&a[j]); } for (auto& x : e) { d.insert(x); d_.push_back(&x); }
  }
  Arr& add(int nb) { arr.push_back(Arr(nb)); return arr.back(); }
  void both();
  ~S() { c.clear(); d.clear(); } };
static void check(C& c, const V& v, const char* n) {
  const C& k = c; size_t i = 0; std::set<E*> w(v.begin(), v.end()), s; std::set<int> keys; int last = -1; const size_t nb = k.bucket_count(); size_t lb = 0;
  for (C::const_iterator it = k.begin(); it != k.end(); ++it, ++i) { REQ("order", i < v.size(), "%s has more than %zu elements", n, v.size()); if (i >= v.size()) break; E* e = const_cast<E*>(&*it); REQ("order", w.count(e), "%s: foreign element %d", n, e->id); REQ("order", s.insert(e).second, "%s: element %d twice", n, e->id);
    if (e->key != last || !i) { REQ("order", keys.insert(e->key).second, "%s: equivalent elements of key %d are not adjacent", n, e->key); last = e->key; } else REQ("order", MULTI, "%s: duplicate key %d", n, e->key);
    REQ("bucket", k.bucket(e->key) >= lb, "%s: bucket order", n); lb = k.bucket(e->key); }
  REQ("order", i == v.size(), "%s ends after %zu of %zu elements", n, i, v.size());
  REQ("size", (size_t)k.size() == v.size(), "%s: size() %zu, %zu elements", n, (size_t)k.size(), v.size()); REQ("size", k.empty() == v.empty(), "%s: empty()", n);
  if (!MC_LB) for (E* e : v) REQ("linked", e->is_linked(), "%s: element %d not linked", n, e->id);
  size_t tot = 0; for (size_t b = 0; b < nb; ++b) { size_t cnt = 0; for (C::const_local_iterator l = k.begin((C::size_type)b); l != k.end((C::size_type)b); ++l) { REQ("bucket", cnt < v.size(), "%s: bucket %zu too long", n, b); if (cnt >= v.size()) break; REQ("bucket", k.bucket(l->key) == b, "%s: element %d in bucket %zu instead of %zu", n, l->id, b, (size_t)k.bucket(l->key)); ++cnt; } REQ("bucket", cnt == (size_t)k.bucket_size((C::size_type)b), "%s: bucket_size(%zu)", n, b); tot += cnt; }
  REQ("bucket", tot == v.size(), "%s: buckets hold %zu elements", n, tot);
  for (E* e : v) { if (v.size() > 70 && e->id % 16 > 1) continue; size_t h = Hash()(e->key); if (MC_POL == 0) REQ("bucket", k.bucket(e->key) == h % nb, "%s: bucket(%d)", n, e->key); if (MC_POL == 1) REQ("bucket", k.bucket(e->key) == (h & (nb - 1)), "%s: bucket(%d)", n, e->key); if (MC_POL == 2) { size_t sp = k.split_count(), m = h & (2 * (nb / 2) - 1); if (m >= sp) m = h & (nb / 2 - 1); REQ("bucket", k.bucket(e->key) == m, "%s: bucket(%d) with split %zu of %zu", n, e->key, sp, nb); } if (MC_POL == 3) REQ("bucket", k.bucket(e->key) < nb, "%s: bucket(%d)", n, e->key); }
  c.check();
}
void S::both() { check(c, c_, "c"); check(d, d_, "d"); }
static void lookups(S& s, C& c, const V& v, int top) {
  const C& q = c; std::map<int, V> m; for (E* e : v) m[e->key].push_back(e);
  for (int k = 0; k <= top; ++k) { if (top > 90 && k % 7 > 2) continue; V w = m.count(k) ? m[k] : V(); std::sort(w.begin(), w.end());
    C::const_iterator f = q.find(k); REQ("lookup", (f == q.end()) == w.empty(), "find(%d)", k); if (f != q.end()) REQ("lookup", f->key == k, "find(%d)", k); REQ("lookup", q.count(k) == w.size(), "count(%d)", k);
    V g; auto r = q.equal_range(k); size_t lim = 0; for (C::const_iterator i = r.first; i != r.second && lim <= w.size(); ++i, ++lim) g.push_back(const_cast<E*>(&*i)); std::sort(g.begin(), g.end()); REQ("lookup", g == w, "equal_range(%d)", k); if (!w.empty()) { C::const_iterator e = r.first; for (size_t i = 0; i < w.size(); ++i) ++e; REQ("lookup", e == r.second, "end of equal_range(%d)", k); REQ("lookup", r.first == f, "find(%d) is not the first", k); } }
}
static void remove(V& v, E* e) { V::iterator i = std::find(v.begin(), v.end(), e); if (i != v.end()) v.erase(i); }
static C::iterator at(C& c, int p) { C::iterator i = c.begin(); while (p--) ++i; return i; }
static V seq(C& c) { V v; for (auto& e : c) v.push_back(&e); return v; }
static void one(int n, int dup, int nb) {
  ST("%s of %d elements (%d per key) in %d buckets, hash %d", MULTI ? "an unordered_multiset" : "an unordered_set", n, dup, nb, g_mode); state();
  const int K = dup ? (n + dup - 1) / dup : 0;
  run("insert", "", [&] { S s(n, dup, nb); s.both(); lookups(s, s.c, s.c_, K + 3); });
  if (n <= 20) run("insert, checked after every one", "", [&] { S s(n, dup, nb); s.c.clear(); s.c_.clear(); for (int i = n - 1; i >= 0; --i) { int j = i * 7 % n; while (std::find(s.c_.begin(), s.c_.end(), &s.a[j]) != s.c_.end()) j = (j + 1) % n; s.c.insert(s.a[j]); s.c_.push_back(&s.a[j]); check(s.c, s.c_, "c"); } });
  for (int o = 0; o < 4; ++o) run("erase one by one", "", [&] { S s(n, dup, nb); for (int i = 0; i < n; ++i) { E* e; if (o == 0) e = &s.a[i]; else if (o == 1) e = &s.a[n - 1 - i]; else if (o == 2) e = &*s.c.begin(); else { C::iterator q = s.c.begin(); for (int j = 0; j < (int)s.c_.size() / 2; ++j) ++q; e = &*q; }
      s.c.erase(s.c.iterator_to(*e)); remove(s.c_, e); REQ("linked", !e->is_linked(), "erased element linked"); if (n <= 20 || i % (n / 8) == 0 || i > n - 4) { check(s.c, s.c_, "c"); if (n <= 20) lookups(s, s.c, s.c_, K); } } s.both(); });
  run("erase(key)", "", [&] { S s(n, dup, nb); for (int k = 0; k <= K; ++k) { V g; for (E* e : s.c_) if (e->key == k) g.push_back(e); size_t r = s.c.erase(k); REQ("ret", r == g.size(), "erase(%d) returned %zu", k, r); for (E* e : g) { remove(s.c_, e); REQ("linked", !e->is_linked(), "erased element linked"); } if (k < 20 || k % 16 == 0) s.both(); } });
  run("insert refused or again", "ret", [&] { S s(n, dup, nb); for (int k = 0; k <= K; k += 1 + K / 9) { std::list<E> x; for (int j = 0; j < 2; ++j) { x.push_back(E()); x.back().key = k; x.back().id = -k;
#if MC_API == 0
      auto r = s.c.insert(x.back()); bool had = false; for (E* e : s.c_) had |= e->key == k; REQ("ret", r.second == !had && r.first->key == k, "insert(%d)", k); if (!had) s.c_.push_back(&x.back()); C::insert_commit_data cd; auto r2 = s.c.insert_check(k, Hash(), Eq(), cd); REQ("ret", !r2.second && r2.first->key == k, "insert_check(%d)", k);
#else
      C::iterator i = s.c.insert(x.back()); REQ("ret", &*i == &x.back(), "insert(%d)", k); s.c_.push_back(&x.back());
#endif
      s.both(); } for (auto& e : x) { if (std::find(s.c_.begin(), s.c_.end(), &e) != s.c_.end()) { s.c.erase(s.c.iterator_to(e)); remove(s.c_, &e); } } s.both(); } });
#if MC_API == 0
  run("insert_check and insert_commit", "", [&] { S s(n, dup, nb); E x; x.key = K + 5; C::insert_commit_data cd; auto r = s.c.insert_check(x.key, Hash(), Eq(), cd); REQ("ret", r.second, "insert_check refused"); C::iterator i = s.c.insert_commit(x, cd); REQ("ret", &*i == &x, "insert_commit"); s.c_.push_back(&x); s.both(); s.c.erase(i); });
#endif
  for (int p : grid(n)) for (int e : grid(n)) if (e >= p) {
    run("erase range", "", [&] { S s(n, dup, nb); V q = seq(s.c); s.c.erase(at(s.c, p), at(s.c, e)); for (int i = p; i < e; ++i) { remove(s.c_, q[i]); REQ("linked", !q[i]->is_linked(), "erased element linked"); } s.both(); lookups(s, s.c, s.c_, K); });
    run("erase_and_dispose range", "disposer", [&] { S s(n, dup, nb); V q = seq(s.c), d; V g(q.begin() + p, q.begin() + e); s.c.erase_and_dispose(at(s.c, p), at(s.c, e), Rec{&d}); std::sort(d.begin(), d.end()); std::sort(g.begin(), g.end()); REQ("disposer", d == g, "wrong elements disposed"); for (E* x : g) remove(s.c_, x); s.both(); });
  }
  run("clear_and_dispose", "disposer", [&] { S s(n, dup, nb); V d; s.c.clear_and_dispose(Rec{&d}); std::sort(d.begin(), d.end()); V w = s.c_; std::sort(w.begin(), w.end()); REQ("disposer", d == w, "wrong elements disposed"); s.c_.clear(); s.both(); });
  run("clear", "", [&] { S s(n, dup, nb); s.c.clear(); for (E* e : s.c_) REQ("linked", !e->is_linked(), "linked"); s.c_.clear(); s.both(); });
  for (int k : counts()) { run("rehash", "rehash", [&] { S s(n, dup, nb); V before = seq(s.c); s.c.rehash(s.add(k).t()); REQ("rehash", s.c.bucket_count() == (size_t)k, "bucket_count"); s.both(); lookups(s, s.c, s.c_, K); s.c.rehash(s.add(nb).t()); s.both(); s.c.full_rehash(); s.both(); });
    for (int t : {-1, n / 2}) if (t < n) run("clone_from", "clone", [&] { S s(n, dup, nb); std::list<E> pool; int left = t < 0 ? n + 1 : t; bool thrown = false; V d; C x(s.add(k).t()); try { x.clone_from(s.c, Cl{&pool, &left}, Rec{&d}); } catch (mc::UserThrow&) { thrown = true; } REQ("clone", thrown == (t >= 0), "exception lost"); REQ("clone", d.size() == (size_t)(t < 0 ? 0 : t), "%zu elements disposed", d.size()); V w; if (!thrown) { for (auto& e : pool) w.push_back(&e); REQ("clone", w.size() == (size_t)n, "%zu clones", w.size()); } check(x, w, "x"); s.both(); if (!thrown) { REQ("clone", x == s.c, "clone differs"); } x.clear(); });
    run("swap", "swap", [&] { S s(n, dup, nb); s.d.rehash(s.add(k).t()); s.c.swap(s.d); s.c_.swap(s.d_); s.both(); E x; x.key = 2; s.d.insert(x); bool had = false; for (E* e : s.d_) had |= e->key == 2; if (MULTI || !had) s.d_.push_back(&x); s.both(); if (MULTI || !had) s.d.erase(s.d.iterator_to(x)); });
    run("compare", "rel", [&] { S s(n, dup, nb, n); C& x = s.c; C& y = s.d; y.clear(); s.d_.clear(); y.rehash(s.add(k).t()); for (int i = n - 1; i >= 0; --i) { s.e[i].key = s.a[i].key; y.insert(s.e[i]); } REQ("rel", x == y && y == x && !(x != y), "equal containers"); if (n) { y.erase(y.iterator_to(s.e[n / 2])); REQ("rel", !(x == y) && !(y == x) && x != y, "one element less"); s.e[n / 2].key = K + 3; y.insert(s.e[n / 2]); REQ("rel", !(x == y) && !(y == x) && x != y, "one element different"); } y.clear(); });
  }
  run("move", "swap", [&] { S s(n, dup, nb); C t(boost::move(s.c)); check(t, s.c_, "t"); lookups(s, t, s.c_, K); s.d.clear(); s.d_.clear(); s.d = boost::move(t); s.d_ = s.c_; s.c_.clear(); check(s.d, s.d_, "d"); E x; x.key = K + 4; s.d.insert(x); s.d_.push_back(&x); check(s.d, s.d_, "d"); s.d.erase(s.d.iterator_to(x)); });
#if MC_POL == 2
  run("incremental_rehash", "rehash", [&] { S s(n, dup, nb); while (s.c.incremental_rehash(false)) { if (nb <= 64 || s.c.split_count() % 32 < 2) check(s.c, s.c_, "shrinking"); } s.both(); REQ("rehash", s.c.split_count() == (size_t)(nb / 2), "shrunk to %zu", (size_t)s.c.split_count()); lookups(s, s.c, s.c_, K);
    while (s.c.incremental_rehash(true)) { if (nb <= 64 || s.c.split_count() % 32 < 2) check(s.c, s.c_, "growing"); } s.both(); REQ("rehash", s.c.split_count() == (size_t)nb, "grown to %zu", (size_t)s.c.split_count()); lookups(s, s.c, s.c_, K); });
  run("incremental_rehash(new buckets)", "rehash", [&] { S s(n, dup, nb); while (s.c.incremental_rehash(true)) {} Arr& w = s.add(2 * nb); REQ("rehash", s.c.incremental_rehash(w.t()), "larger array refused"); s.both(); for (int i = 0; i < nb / 2 + 1; ++i) s.c.incremental_rehash(true); s.both(); E x; x.key = 1; s.c.insert(x); bool had = false; for (E* e : s.c_) had |= e->key == 1; if (MULTI || !had) { s.c_.push_back(&x); s.both(); s.c.erase(s.c.iterator_to(x)); remove(s.c_, &x); } while (s.c.incremental_rehash(false)) {} s.both(); Arr& z = s.add(nb); REQ("rehash", s.c.incremental_rehash(z.t()), "smaller array refused"); s.both(); lookups(s, s.c, s.c_, K); });
#endif
}
// == of the elements is finer than the equality of the keys: every pair of sequences of up to 4 (deep: 5) values out of 3
// inserted under one key, next to another key in the same bucket, in containers of different bucket counts
static void finer() {
  const int L = MULTI ? g_deep ? 5 : 4 : 1; std::vector<std::vector<int> > all(1); for (size_t i = 0; i < all.size(); ++i) if ((int)all[i].size() < L) for (int v = 0; v < 3; ++v) { std::vector<int> q = all[i]; q.push_back(v); all.push_back(q); }
  std::vector<int> nb = counts(); g_mode = 1; ST("comparison of all pairs of sequences of up to %d values out of 3 under one key", L); state();
  for (auto& p : all) for (auto& q : all) { if (!g_deep && p.size() != q.size() && p.size() + q.size() > 5) continue;
    run("compare values under one key", "rel", [&] { Arr u(nb[0]), w(nb[1]); std::vector<E> a(p.size() + 1), b(q.size() + 1); C x(u.t()), y(w.t()); a[0].key = b[0].key = 9; x.insert(a[0]); y.insert(b[0]);
      for (size_t i = 0; i < p.size(); ++i) { a[i + 1].key = 4; a[i + 1].sub = p[i]; x.insert(a[i + 1]); } for (size_t i = 0; i < q.size(); ++i) { b[i + 1].key = 4; b[i + 1].sub = q[i]; y.insert(b[i + 1]); }
      std::vector<int> P = p, Q = q; std::sort(P.begin(), P.end()); std::sort(Q.begin(), Q.end()); const bool r = P == Q; auto show = [](const std::vector<int>& v) { std::string s; for (int i : v) s += (char)('0' + i); return s; };
      REQ("rel", (x == y) == r && (y == x) == r && (x != y) != r && (y != x) != r, "values %s and %s of one key", show(p).c_str(), show(q).c_str()); x.clear(); y.clear(); });
  }
}
static void all() {
  finer(); const int lim = g_deep ? 300 : 40;
  for (g_mode = 0; g_mode < 5; ++g_mode) for (int nb : counts()) for (int n : sizes(lim)) {
    if (!g_deep && n > 9 && (n + nb + g_mode) % 5) continue; if (g_deep && n > 17 && (n + nb) % 3) continue;
    one(n, 1, nb); if (MULTI) for (int dup : {2, 3, 10}) if (n >= dup && (n < 10 || (n + dup) % 3 == 0)) one(n, dup, nb); if (MULTI && n > 3) one(n, n, nb); }
  if (!g_deep) for (g_mode = 0; g_mode < 5; ++g_mode) for (int n : {100, 240}) { one(n, 1, counts().back()); if (MULTI) { one(n, 7, counts()[counts().size() / 2]); one(n, 30, counts()[1]); } }
}
