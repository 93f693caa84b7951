typedef bi::unordered_node_traits<void*, MC_SH != 0, MC_MK != 0> BT;
struct CNT : BT {
  typedef BT::node_ptr node_ptr; typedef BT::const_node_ptr const_node_ptr;
  static node_ptr get_next(const const_node_ptr& n) { ++g_acc; return BT::get_next(n); }
  template<class P> static node_ptr get_next(const P& n) { ++g_acc; return BT::get_next(n); }
  static void set_next(const node_ptr& n, const node_ptr& v) { ++g_acc; BT::set_next(n, v); }
};
struct E : BT::node { int key; };
struct VT { typedef CNT node_traits; typedef E value_type; typedef BT::node_ptr node_ptr; typedef BT::const_node_ptr const_node_ptr; typedef E* pointer; typedef const E* const_pointer; static const bi::link_mode_type link_mode = LM;
  static node_ptr to_node_ptr(E& e) { return &e; } static const_node_ptr to_node_ptr(const E& e) { return &e; } static pointer to_value_ptr(const node_ptr& n) { return static_cast<E*>(n); } static const_pointer to_value_ptr(const const_node_ptr& n) { return static_cast<const E*>(n); } };
static int g_mode;    // 0 identity, 1 everything in one bucket, 2 four hash values
struct Hash { static size_t of(int k) { return g_mode == 0 ? (size_t)k : g_mode == 1 ? 0 : (size_t)(k & 3); } size_t operator()(const E& e) const { ++g_hash; return of(e.key); } size_t operator()(int k) const { ++g_hash; return of(k); } };
struct Eq { bool operator()(const E& a, const E& b) const { ++g_eq; return a.key == b.key; } bool operator()(int a, const E& b) const { ++g_eq; return a == b.key; } bool operator()(const E& a, int b) const { ++g_eq; return a.key == b; } };
struct KOV { typedef int type; const int& operator()(const E& e) const { return e.key; } };
struct Dis { void operator()(E*) const {} };
struct EqK { bool operator()(int a, int b) const { ++g_eq; return a == b; } bool operator()(const E& a, const E& b) const { ++g_eq; return a.key == b.key; } };
#define OPTS bi::value_traits<VT>, bi::hash<Hash>, bi::equal<EqK>, bi::key_of_value<KOV>, bi::constant_time_size<MC_CTS != 0>, bi::cache_begin<MC_CB != 0>, bi::linear_buckets<MC_LB != 0>, bi::compare_hash<MC_SH == 2>, \
  bi::power_2_buckets<MC_POL == 1>, bi::incremental<MC_POL == 2>, bi::fastmod_buckets<MC_POL == 3>
#if MC_API == 0
typedef bi::unordered_set<E, OPTS> C;
#else
typedef bi::unordered_multiset<E, OPTS> C;
#endif
typedef C::bucket_type B; typedef C::bucket_traits BTr;
enum { OV = C::bucket_overhead };
static const int SMALLB = MC_POL == 1 || MC_POL == 2 ? 4 : MC_POL == 3 ? 7 : 5, BIGB = MC_POL == 1 || MC_POL == 2 ? 512 : MC_POL == 3 ? 389 : 400;
struct S { std::vector<E> e; E x; std::unique_ptr<B[]> b1, b2, b3; int nb; C c, d; int n;
  S(int n_, int dup, int nb_) : e(n_), b1(new B[nb_ + OV]), b2(new B[1024]), b3(new B[nb_ + OV]), nb(nb_), c(BTr(&b1[0], nb_ + OV)), d(BTr(&b3[0], nb_ + OV)), n(n_) { for (auto& q : e) clean(q); clean(x); for (int i = 0; i < n; ++i) { e[i].key = i / dup; c.insert(e[i]); } x.key = -1; }
  static void clean(E& q) { BT::set_next(&q, BT::node_ptr()); }
  ~S() { c.clear(); d.clear(); } };
static void all() {
  for (g_mode = 0; g_mode < 3; ++g_mode) for (int nb : {SMALLB, BIGB}) for (int dup : {1, 2, 50}) for (int n : SIZES) {
    if (MC_API == 0 && dup > 1) continue; if (dup == 50 && n < 50) continue;
    ST("%s of %d elements (%d per key) in %d buckets, hash %s", MC_API ? "an unordered_multiset" : "an unordered_set", n, dup, nb, g_mode == 0 ? "spread" : g_mode == 1 ? "constant" : "with four values"); state();
    guard([&] {
    const int NB = MC_POL == 2 ? nb : nb; auto mk = [&](auto f) { S s(n, dup, nb); f(s, s.c); };
    const size_t BK = MC_LB ? 4 : 3;   // accesses per bucket looked at
    mk([&](S& s, C& c) { const C& q = c; op("default range ends", K, 0, [&] { q.end(); q.cend(); c.end(); });
      // leading empty buckets
      size_t lead = 0; if (n) { size_t fb = nb; for (auto& e : s.e) fb = std::min(fb, (size_t)c.bucket(e.key)); lead = fb; } else lead = nb;
      op("begin", MC_CB ? K : K + BK * (lead + 1), 0, [&] { q.begin(); }); op("empty", MC_CB || MC_CTS ? K : K + BK * (lead + 1), 0, [&] { (void)q.empty(); });
      op("size", MC_CTS ? K : K + 8 * (size_t)n + 4 * BK * nb, 0, [&] { (void)q.size(); }); op("bucket_count", K, 0, [&] { (void)q.bucket_count(); (void)q.bucket_pointer(); if (MC_POL == 2) (void)q.split_count(); });
      if (n) { E& m = s.e[n / 2]; op("iterator_to", K, MC_LB && !MC_SH ? 2 : 0, [&] { (void)q.iterator_to(m); (void)C::s_local_iterator_to(m); (void)q.local_iterator_to(m); }); }
      op("bucket", K, 1, [&] { (void)q.bucket(3); }); op("begin(bucket)/end(bucket)", K, 0, [&] { q.begin(0); q.end(nb - 1); q.cbegin(0); q.cend(0); });
      op("swap", K, 0, [&] { c.swap(s.d); }); op("swap", K, 0, [&] { c.swap(s.d); });
      op("move construction", K, 0, [&] { C t(boost::move(c)); c.swap(t); });
      op("iteration", K + 16 * (size_t)n + 4 * BK * nb, MC_SH || MC_LB ? 0 : n, [&] { for (auto i = q.begin(); i != q.end(); ++i) {} }); });
    std::map<size_t, std::set<int> > keysin; std::map<size_t, size_t> sz; mk([&](S& s, C& c) { for (auto& e : s.e) { size_t k = c.bucket(e.key); keysin[k].insert(e.key); ++sz[k]; } });
    std::vector<int> ks; for (int k = -1; k <= (n + dup - 1) / dup + 1; ++k) if (n <= 20 || k % 7 == 0 || k < 3 || k > n / dup - 2) ks.push_back(k);
    for (int k : ks) mk([&](S& s, C& c) { const C& q = c; size_t b = c.bucket(k); size_t in = sz.count(b) ? sz[b] : 0, gr = keysin.count(b) ? keysin[b].size() : 0, cnt = 0; for (auto& e : s.e) cnt += e.key == k;
      ST("%s of %d elements (%d per key) in %d buckets, hash %s, key %d (%zu elements of %zu keys in its bucket)", MC_API ? "an unordered_multiset" : "an unordered_set", n, dup, nb, g_mode == 0 ? "spread" : g_mode == 1 ? "constant" : "with four values", k, in, gr);
      const long vis = MC_MK ? gr : in;        // elements that one search may compare
      const size_t acc = K + 8 * (MC_MK ? gr : in);
      op("find", acc, 1 + vis, [&] { q.find(k); }); op("find", acc, 1 + vis, [&] { c.find(k); });
      op("count", acc + 8 * cnt, 1 + vis + (MC_MK ? 0 : cnt + 1), [&] { q.count(k); });
      op("equal_range", acc + 8 * cnt + BK * 2 * nb, 1 + vis + (MC_MK ? 0 : cnt + 1) + 1, [&] { q.equal_range(k); });
      s.x.key = k; 
      { C::iterator it; bool ins = false; op("insert", acc + 8 * cnt, 1 + vis, [&] {
#if MC_API == 0
        auto r = c.insert(s.x); ins = r.second; it = r.first;
#else
        it = c.insert(s.x); ins = true;
#endif
        });
        if (ins) op("erase(iterator)", K + 8 * (in + 1) + (MC_CB ? BK * nb : 0), MC_SH ? 0 : 1, [&] { c.erase(it); }); if (ins) { c.insert(s.x); op("erase_and_dispose(iterator)", K + 8 * (in + 1) + (MC_CB ? BK * nb : 0), MC_SH ? 0 : 1, [&] { c.erase_and_dispose(c.iterator_to(s.x), Dis()); }); } }
#if MC_API == 0
      { C::insert_commit_data d; bool ok = false; op("insert_check", acc, 1 + vis, [&] { ok = c.insert_check(k, Hash(), EqK(), d).second; }); if (ok) { op("insert_commit", K, 0, [&] { c.insert_commit(s.x, d); }); op("erase(key)", K + 8 * (in + 1) + (MC_CB ? BK * nb : 0), 2 + vis + 1, [&] { c.erase(k); }); } }
#else
      op("erase(key)", K + 16 * (in + 1) + (MC_CB ? BK * nb : 0), 1 + vis + (MC_MK ? 0 : cnt + 1), [&] { c.erase(k); });
#endif
    });
    ST("%s of %d elements (%d per key) in %d buckets, hash %s", MC_API ? "an unordered_multiset" : "an unordered_set", n, dup, nb, g_mode == 0 ? "spread" : g_mode == 1 ? "constant" : "with four values");
    mk([&](S&, C& c) { op("clear", (MC_SAFE ? K + 12 * (size_t)n : K) + 6 * BK * nb, 0, [&] { c.clear(); }); });
    mk([&](S&, C& c) { op("clear_and_dispose", K + 16 * (size_t)n + 6 * BK * nb, 0, [&] { c.clear_and_dispose(Dis()); }); });
    mk([&](S&, C& c) { op("erase everything (range)", K + 24 * (size_t)n + 8 * BK * nb, MC_SH ? 0 : 2, [&] { c.erase(c.begin(), c.end()); }); });
    if (g_mode == 0) {
      const int ob = MC_POL == 1 || MC_POL == 2 ? 64 : MC_POL == 3 ? 97 : 100;
      size_t quad = 0; for (auto& p : sz) quad += (MC_MK ? 1 : 0) * 0; (void)quad;
      mk([&](S& s, C& c) { op("rehash", K + 40 * (size_t)n + 10 * BK * (nb + ob), MC_SH ? 0 : 2 * n, [&] { c.rehash(BTr(&s.b2[0], ob + OV)); }); s.c.clear(); BTr t(&s.b1[0], s.nb + OV); c.rehash(t); });
      mk([&](S&, C& c) { op("full_rehash", K + 40 * (size_t)n + 10 * BK * nb, 2 * n, [&] { c.full_rehash(); }); });
    }
#if MC_POL == 2
    if (g_mode == 0) mk([&](S&, C& c) { for (bool up : {false, true}) for (int q = 0; q < nb; ++q) { size_t sp = c.split_count(); size_t m = 0; for (size_t k = 0; k < c.bucket_count(); ++k) m = std::max(m, (size_t)c.bucket_size(k)); op("incremental_rehash", K + 24 * m + 16 * m, MC_SH ? 0 : (long)m * 1, [&] { c.incremental_rehash(up); }); if (c.split_count() == sp) break; } });
#endif
    });
  }
}
