// C18 (lists): the documented node algorithms over user-defined node traits, on every state.
//  circular lists : a state of N nodes is a choice of unlinked (inited) nodes and a permutation of the others; all of them are built and
//                   every operation with every argument is executed on each
//  linear lists   : a state is a set of disjoint chains
// MC_PTR 0 raw pointers, 1 self-relative pointers; MC_N nodes; MC_KIND 0 circular doubly, 1 circular singly, 2 linear singly
#ifndef MC_N
#define MC_N 6
#endif
#ifndef MC_KIND
#define MC_KIND 0
#endif
#ifndef MC_PTR
#define MC_PTR 0
#endif
#include "core.hpp"
#include <boost/intrusive/circular_list_algorithms.hpp>
#include <boost/intrusive/circular_slist_algorithms.hpp>
#include <boost/intrusive/linear_slist_algorithms.hpp>
#include <functional>
#if MC_PTR == 1
#include "relptr.hpp"
template<class T> using Ptr = mc::rel_ptr<T>;
#else
template<class T> using Ptr = T*;
#endif
namespace bi = boost::intrusive;
enum { N = MC_N };
struct Node { uint32_t canary; Ptr<Node> prv; uint32_t id; Ptr<Node> nxt; uint32_t canary2; };
static Node g[N + 2]; static size_t g_acc;
template<class P> static Node* raw(const P& p) { return !p ? (Node*)0 : const_cast<Node*>(&*p); }
static const Node* chk(const Node* n) { ++g_acc; if (n < g + 1 || n >= g + 1 + N) mc::trap("crash", "a node algorithm used a pointer that is not a node"); return n; }
struct Traits {
  typedef Node node; typedef Ptr<Node> node_ptr; typedef Ptr<const Node> const_node_ptr;
  static node_ptr get_next(const const_node_ptr& n) { return chk(raw(n))->nxt; }
  static void set_next(const node_ptr& n, const node_ptr& v) { chk(raw(n)); raw(n)->nxt = v; }
  static node_ptr get_previous(const const_node_ptr& n) { return chk(raw(n))->prv; }
  static void set_previous(const node_ptr& n, const node_ptr& v) { chk(raw(n)); raw(n)->prv = v; }
};
typedef Traits::node_ptr NP; typedef Traits::const_node_ptr CNP;
static NP P(int i) { return i < 0 ? NP() : boost::intrusive::pointer_traits<NP>::pointer_to(g[1 + i]); }
static CNP CP(int i) { return i < 0 ? CNP() : boost::intrusive::pointer_traits<CNP>::pointer_to(g[1 + i]); }
template<class X> static int idx(const X& p) { Node* r = raw(p); if (!r) return -1; if (r < g + 1 || r >= g + 1 + N) return -2; return int(r - (g + 1)); }
enum { ANY = -9 };
typedef std::vector<int> V;
struct St { int nx[N], pv[N]; };
static mc::Report R; static const St* cur; static std::string g_args;
static std::string show(const St& s) { std::string r; for (int i = 0; i < N; ++i) r += mc::strf("%d>%d ", i, s.nx[i]); return r; }
static void build(const St& s) {
  memset((void*)g, 0x5a, sizeof g);
  for (int i = 0; i < N + 2; ++i) { g[i].canary = 0xC0FFEE00u + i; g[i].canary2 = 0xBEEF0000u + i; g[i].id = i; new (&g[i].prv) NP(); new (&g[i].nxt) NP(); }
  for (int i = 0; i < N; ++i) { g[1 + i].nxt = P(s.nx[i]); g[1 + i].prv = P(s.pv[i]); }
}
static void derive(St& s) { for (int i = 0; i < N; ++i) s.pv[i] = -1; if (MC_KIND == 0) for (int i = 0; i < N; ++i) if (s.nx[i] >= 0) s.pv[s.nx[i]] = i; }
// expected next links (ANY: the operation leaves them unspecified); the previous links follow
static void expect(const V& nx, const V* free_ = 0) {
  for (int i = 0; i < N; ++i) {
    if (g[1 + i].canary != 0xC0FFEE00u + i + 1 || g[1 + i].canary2 != 0xBEEF0000u + i + 1 || g[1 + i].id != (uint32_t)i + 1) mc::fail("bytes", "other bytes of a node changed");
    if (nx[i] == ANY) continue;
    int a = idx(g[1 + i].nxt); if (a != nx[i]) mc::fail("links", mc::strf("next of node %d is %d, expected %d", i, a, nx[i]));
  }
  if (MC_KIND == 0) {
    V pv(N, -1), set(N, 0); for (int i = 0; i < N; ++i) if (nx[i] >= 0) { pv[nx[i]] = i; set[nx[i]] = 1; }
    for (int i = 0; i < N; ++i) { if (nx[i] == ANY) continue; int a = idx(g[1 + i].prv); if (a != pv[i]) mc::fail("links", mc::strf("previous of node %d is %d, expected %d", i, a, pv[i])); }
  } else for (int i = 0; i < N; ++i) if (idx(g[1 + i].prv) != -1) mc::fail("bytes", "a singly linked algorithm wrote a previous pointer");
}
static size_t g_maxacc; static std::map<std::string, size_t> maxacc;
template<class F> static void T(const char* op, const std::function<std::string()>& args, F f, size_t bound = 0) {
  mc::Violation v; build(*cur); g_acc = 0; ++R.transitions; ++R.opcount[op];
  bool bad = mc::guarded([&] { f(); }, v);
  if (!bad && bound && g_acc > bound) { v.cat = "cost"; v.msg = mc::strf("%zu link accesses, a constant-time operation needs no more than %zu", g_acc, bound); bad = true; }
  if (bad && mc::active(v.cat)) {
    R.nviol += v.cat == "hang" ? 60 : 1; if (++R.percat[v.cat + op] > 3) return;
    mc::Report::V r; r.cat = v.cat; r.op = op; r.msg = std::string(op) + "(" + args() + ") on state {" + show(*cur) + "}: " + v.msg; r.variant = 0; r.hist.push_back(r.msg); R.viols.push_back(r);
  }
}
#define REQC(c, ...) do { if (!(c)) mc::fail("ret", mc::strf(__VA_ARGS__)); } while (0)
static V cyc(const St& s, int p) { V r; int i = p; do { r.push_back(i); i = s.nx[i]; } while (i != p && i >= 0); return r; }
static V nxof(const St& s) { return V(s.nx, s.nx + N); }
static void setcyc(V& nx, const V& c) { for (size_t i = 0; i < c.size(); ++i) nx[c[i]] = c[(i + 1) % c.size()]; }
static void setchain(V& nx, const V& c) { for (size_t i = 0; i < c.size(); ++i) nx[c[i]] = i + 1 < c.size() ? c[i + 1] : -1; }
static bool has(const V& v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
struct Disp { V* out; void operator()(const NP& n) const { out->push_back(idx(n)); } };
struct Thr { unsigned mask; int at; int* calls; bool operator()(const NP& n) const { if ((*calls)++ == at) throw mc::UserThrow{1}; return mask >> idx(n) & 1; } };
#if MC_KIND == 0
typedef bi::circular_list_algorithms<Traits> A;
#elif MC_KIND == 1
typedef bi::circular_slist_algorithms<Traits> A;
#else
typedef bi::linear_slist_algorithms<Traits> A;
#endif
#define ARG(...) [&] { return mc::strf(__VA_ARGS__); }
#if MC_KIND < 2
static V swapped(const St& s, int a, int b) { V nx(N); for (int i = 0; i < N; ++i) { int j = i == a ? b : i == b ? a : i; int t = s.nx[i]; nx[j] = t == a ? b : t == b ? a : t; } return nx; }
// range of the cycle of b from b (included) to e (excluded)
static V range(const St& s, int b, int e) { V r; for (int i = b; i != e; i = s.nx[i]) r.push_back(i); return r; }
static void run_state(const St& s, bool heavy) {
  cur = &s;
  for (int a = 0; a < N; ++a) {
    const bool in = s.nx[a] < 0; V c = in ? V() : cyc(s, a); const int m = (int)c.size();
    T("init", ARG("%d", a), [&] { A::init(P(a)); V nx = nxof(s); nx[a] = -1; for (int i = 0; i < N; ++i) if (i != a && s.nx[i] == a) nx[i] = ANY; for (int i = 0; i < N; ++i) if (i != a && idx(g[1 + i].nxt) != s.nx[i]) mc::fail("links", "init changed another node"); if (idx(g[1 + a].nxt) != -1 || (MC_KIND == 0 && idx(g[1 + a].prv) != -1)) mc::fail("links", "init"); REQC(A::inited(CP(a)), "inited"); }, 4);
    T("init_header", ARG("%d", a), [&] { A::init_header(P(a)); if (idx(g[1 + a].nxt) != a || (MC_KIND == 0 && idx(g[1 + a].prv) != a)) mc::fail("links", "init_header"); for (int i = 0; i < N; ++i) if (i != a && idx(g[1 + i].nxt) != s.nx[i]) mc::fail("links", "another node changed"); REQC(A::is_empty(CP(a)) && A::unique(CP(a)) && !A::inited(CP(a)), "a header alone"); }, 6);
    T("queries", ARG("%d", a), [&] {
      REQC(A::inited(CP(a)) == in, "inited"); REQC(A::unique(CP(a)) == (in || m == 1), "unique"); REQC(A::is_empty(CP(a)) == (!in && m == 1), "is_empty");
      if (!in) { REQC((int)A::count(CP(a)) == m, "count is %zu, expected %d", (size_t)A::count(CP(a)), m); }
#if MC_KIND == 1
      REQC(A::is_sentinel(CP(a)) == in, "is_sentinel"); REQC(idx(A::end_node(CP(a))) == a, "end_node");
      if (!in) { REQC(idx(A::get_previous_node(P(a))) == c[m - 1], "get_previous_node"); REQC(idx(A::get_previous_previous_node(P(a))) == c[(2 * m - 2) % m], "get_previous_previous_node"); }
#endif
      expect(nxof(s)); });
    for (int b = 0; b < N; ++b) {
      T("swap_nodes", ARG("%d, %d", a, b), [&] { A::swap_nodes(P(a), P(b)); expect(swapped(s, a, b)); }, MC_KIND == 0 ? 32 : 0);
      if (in || s.nx[b] < 0) continue;
      V cb = cyc(s, b);
      if (!has(c, b)) continue;
      T("distance", ARG("%d, %d", a, b), [&] {
#if MC_KIND == 0
        REQC(A::distance(CP(a), CP(b)) == range(s, a, b).size(), "distance");
#else
        REQC(idx(A::get_previous_node(P(b), P(a))) == c[m - 1], "get_previous_node(%d,%d)", b, a);
        REQC(idx(A::get_previous_previous_node(P(b), P(a))) == c[(2 * m - 2) % m] , "get_previous_previous_node(%d,%d)", b, a);
#endif
        expect(nxof(s)); });
    }
    // link one node
    if (in) for (int b = 0; b < N; ++b) if (s.nx[b] >= 0) {
      V cb = cyc(s, b);
      T("link_before", ARG("%d, %d", b, a), [&] { A::link_before(P(b), P(a)); V q = cb; q.push_back(a); V nx = nxof(s); setcyc(nx, q); expect(nx); }, MC_KIND == 0 ? 8 : 0);
      T("link_after", ARG("%d, %d", b, a), [&] { A::link_after(P(b), P(a)); V q = cb; q.insert(q.begin() + 1, a); V nx = nxof(s); setcyc(nx, q); expect(nx); }, 8);
    }
#if MC_KIND == 1
    if (in) T("unlink", ARG("%d (inited)", a), [&] { A::unlink(P(a)); expect(nxof(s)); });
#endif
    if (in) continue;
    T("unlink", ARG("%d", a), [&] {
      V q(c.begin() + 1, c.end()), nx = nxof(s); if (m > 1) { setcyc(nx, q); nx[a] = ANY; } else nx[a] = a;
#if MC_KIND == 0
      int r = idx(A::unlink(P(a))); REQC(r == s.nx[a], "unlink returns %d", r);
#else
      A::unlink(P(a));
#endif
      expect(nx); }, MC_KIND == 0 ? 8 : 0);
    T("reverse", ARG("%d", a), [&] { A::reverse(P(a)); V q = c; std::reverse(q.begin() + 1, q.end()); V nx = nxof(s); setcyc(nx, q); expect(nx); });
    for (int n = 0; n <= 2 * m + 2; ++n) {
      V q(c.begin() + 1, c.end()); int k = q.empty() ? 0 : n % (m - 1); std::rotate(q.begin(), q.begin() + k, q.end()); V back = q; back.insert(back.begin(), a);
      V w(c.begin() + 1, c.end()); std::rotate(w.begin(), w.begin() + (w.empty() ? 0 : (m - 1 - k) % (m - 1)), w.end()); V fwd = w; fwd.insert(fwd.begin(), a);
      for (int dir = 0; dir < 2; ++dir) {
        const V& want = dir ? fwd : back; bool moved = m > 2 && k != 0;
        T(dir ? "move_forward" : "move_backwards", ARG("%d, %d", a, n), [&] {
#if MC_KIND == 0
          if (dir) A::move_forward(P(a), n); else A::move_backwards(P(a), n); (void)moved;
#else
          int r = idx(dir ? A::move_forward(P(a), n) : A::move_backwards(P(a), n));
          REQC(r == (moved ? want.back() : -1), "returned %d, expected %d", r, moved ? want.back() : -1);
#endif
          V nx = nxof(s); setcyc(nx, want); expect(nx); });
      }
    }
#if MC_KIND == 1
    T("unlink_after", ARG("%d", a), [&] { A::unlink_after(P(a)); V nx = nxof(s); if (m > 1) { int x = c[1]; V q = c; q.erase(q.begin() + 1); setcyc(nx, q); nx[x] = ANY; } expect(nx); }, 4);
    T("detach_and_dispose", ARG("%d", a), [&] { V out; size_t n = A::detach_and_dispose(P(a), Disp{&out}); REQC(out == V(c.begin() + 1, c.end()), "disposed nodes"); REQC((int)n == m - 1, "disposed count %zu", n); V nx = nxof(s); for (int x : c) nx[x] = ANY; nx[a] = a; expect(nx); });
    for (int b = 0; b < N; ++b) if (s.nx[b] >= 0 && has(c, b)) {   // (a, b) of one circular list, b == a means everything else
      T("unlink_after", ARG("%d, %d", a, b), [&] { V q; q.push_back(b); for (int x = s.nx[b]; x != s.nx[a]; x = s.nx[x]) { q.push_back(x); } if (b == a) q = V(1, a); V nx = nxof(s); for (int x : c) nx[x] = ANY; setcyc(nx, q); A::unlink_after(P(a), P(b)); expect(nx); }, 4);
    }
#endif
    // transfers
    for (int b = 0; b < N; ++b) { if (s.nx[b] < 0) continue; V cb = cyc(s, b);
#if MC_KIND == 0
      if (a == b || cb.size() > 1)      // a node that is alone in its list is an empty list, it is not a node of one
      T("transfer1", ARG("%d, %d", a, b), [&] { A::transfer(P(a), P(b)); V nx = nxof(s); if (a != b && s.nx[b] != a) { V q(cb.begin() + 1, cb.end()); if (has(cb, a)) { q.insert(std::find(q.begin(), q.end(), a), b); setcyc(nx, q); } else { if (!q.empty()) setcyc(nx, q); V d = c; d.push_back(b); setcyc(nx, d); } } expect(nx); }, 16);
      for (int e = 0; e < N; ++e) if (s.nx[e] >= 0 && has(cb, e)) {
        V mv = range(s, b, e); if (has(mv, a) && a != b) continue;      // p must not be inside [b, e)
        T("transfer", ARG("%d, %d, %d", a, b, e), [&] { A::transfer(P(a), P(b), P(e)); V nx = nxof(s);
          if (!mv.empty() && a != b && a != e) { V rest; for (int x : cb) if (!has(mv, x)) rest.push_back(x);
            if (has(rest, a)) { V d; for (int x : rest) { if (x == a) d.insert(d.end(), mv.begin(), mv.end()); d.push_back(x); } setcyc(nx, d); }
            else { setcyc(nx, rest); V d = mv; d.insert(d.end(), c.begin(), c.end()); setcyc(nx, d); } }
          expect(nx); }, 16);
        if (a == b) T("unlink_range", ARG("%d, %d", b, e), [&] { A::unlink(P(b), P(e)); V nx = nxof(s); if (b != e) { V rest; for (int x : cb) if (!has(mv, x)) rest.push_back(x); for (int x : mv) nx[x] = ANY; setcyc(nx, rest); } expect(nx); }, 8);
      }
#else
      if (!has(c, b)) T("transfer_after_all", ARG("%d, %d", a, b), [&] { A::transfer_after(P(a), P(b)); V nx = nxof(s); if (cb.size() > 1) { V d = c; d.insert(d.begin() + 1, cb.begin() + 1, cb.end()); setcyc(nx, d); nx[b] = b; } expect(nx); });
      for (int e = 0; e < N; ++e) if (s.nx[e] >= 0 && has(cb, e)) {    // moves (b, e] after p
        V mv = b == e ? V() : range(s, s.nx[b], s.nx[e]); if (s.nx[e] == s.nx[b]) mv.clear(); if (b != e && mv.empty()) continue;
        if (has(mv, a) && a != e) continue;
        T("transfer_after", ARG("%d, %d, %d", a, b, e), [&] { A::transfer_after(P(a), P(b), P(e)); V nx = nxof(s);
          if (!mv.empty() && a != b && a != e) { V rest; for (int x : cb) if (!has(mv, x)) rest.push_back(x);
            if (has(rest, a)) { V d; for (int x : rest) { d.push_back(x); if (x == a) d.insert(d.end(), mv.begin(), mv.end()); } setcyc(nx, d); }
            else { setcyc(nx, rest); V d = c; d.insert(d.begin() + 1, mv.begin(), mv.end()); setcyc(nx, d); } }
          expect(nx); }, 16);
      }
#endif
    }
    // partition of the nodes after the header a (everything else of its list), every predicate, every throwing call
    if (heavy && a == *std::min_element(c.begin(), c.end())) {
      V q(c.begin() + 1, c.end()); int L = (int)q.size();
      for (unsigned mask = 0; mask < 1u << L; ++mask) { unsigned nm = 0; for (int i = 0; i < L; ++i) if (mask >> i & 1) nm |= 1u << q[i];
        for (int at = -1; at < L; ++at) for (int b = 0; b <= L; ++b) for (int e = b; e <= L; ++e) { if (!(b == 0 && e == L) && (at >= e - b || L > 4)) continue; if (at >= e - b) continue;
          auto nd = [&](int i) { return i == L ? a : q[i]; };
          T("stable_partition", ARG("[%d, %d) of the list of %d, predicate %x, throw at call %d", b, e, a, mask, at), [&] { int calls = 0; A::stable_partition_info info; bool threw = false;
            try {
#if MC_KIND == 0
              A::stable_partition(P(nd(b)), P(nd(e)), Thr{nm, at, &calls}, info);
#else
              A::stable_partition(P(b ? q[b - 1] : a), P(nd(e)), Thr{nm, at, &calls}, info);
#endif
            } catch (mc::UserThrow&) { threw = true; }
            V d(q.begin(), q.begin() + b), x, y; REQC(threw == (at >= 0), "exception");
            if (!threw) { for (int i = b; i < e; ++i) (mask >> i & 1 ? x : y).push_back(q[i]); }
            else { // the values examined before the exception are partitioned, the rest stays where it is
              for (int i = b; i < b + at; ++i) (mask >> i & 1 ? x : y).push_back(q[i]); for (int i = b + at; i < e; ++i) y.push_back(q[i]); }
            d.insert(d.end(), x.begin(), x.end()); d.insert(d.end(), y.begin(), y.end()); d.insert(d.end(), q.begin() + e, q.end()); d.insert(d.begin(), a);
            if (!threw) { REQC(info.num_1st_partition == x.size() && info.num_2nd_partition == y.size(), "partition sizes %zu %zu", (size_t)info.num_1st_partition, (size_t)info.num_2nd_partition); REQC(idx(info.beg_2st_partition) == (y.empty() ? nd(e) : y[0]), "start of the second part");
#if MC_KIND != 0
              int lastpos = y.empty() ? (x.empty() ? (b ? q[b - 1] : a) : x.back()) : y.back(); REQC(idx(info.new_last_node) == lastpos, "new last node is %d, expected %d", idx(info.new_last_node), lastpos);
#endif
            }
            if (!threw) { V nx = nxof(s); setcyc(nx, d); expect(nx); }
            else { // valid list of the same nodes
              V nx(N); for (int i = 0; i < N; ++i) { nx[i] = idx(g[1 + i].nxt); if (nx[i] == -2) mc::fail("throw", "bad link"); } V seen; int i = a; do { if (i < 0 || seen.size() > (size_t)N) { mc::fail("throw", "the list is broken after an exception"); } seen.push_back(i); i = nx[i]; } while (i != a); std::sort(seen.begin(), seen.end()); V all = c; std::sort(all.begin(), all.end()); if (seen != all) mc::fail("throw", "nodes were lost by an exception"); expect(nx); }
          });
        } }
    }
  }
#if MC_KIND == 1
  T("set_sentinel", ARG("0"), [&] { A::set_sentinel(P(0)); REQC(A::is_sentinel(CP(0)) && !A::is_empty(CP(0)), "sentinel"); for (int i = 1; i < N; ++i) if (idx(g[1 + i].nxt) != s.nx[i]) mc::fail("links", "another node changed"); }, 4);
#endif
}
#else
static V chain(const St& s, int a) { V r; for (int i = a; i >= 0; i = s.nx[i]) r.push_back(i); return r; }
static void run_state(const St& s, bool) {
  cur = &s; V head(N, 1); for (int i = 0; i < N; ++i) if (s.nx[i] >= 0) head[s.nx[i]] = 0;
  V hd(N); for (int h = 0; h < N; ++h) if (head[h]) for (int x : chain(s, h)) hd[x] = h;
  for (int a = 0; a < N; ++a) { V c = chain(s, a); const int m = (int)c.size();
    T("init", ARG("%d", a), [&] { A::init(P(a)); V nx = nxof(s); nx[a] = -1; expect(nx); REQC(A::inited(CP(a)) && A::is_empty(CP(a)) && A::unique(CP(a)), "an empty list"); }, 6);
    T("init_header", ARG("%d", a), [&] { A::init_header(P(a)); V nx = nxof(s); nx[a] = -1; expect(nx); }, 2);
    T("set_sentinel", ARG("%d", a), [&] { A::set_sentinel(P(a)); REQC(A::is_sentinel(CP(a)) && !A::is_empty(CP(a)), "sentinel"); V nx = nxof(s); nx[a] = a; expect(nx); }, 4);
    T("queries", ARG("%d", a), [&] { REQC(A::is_empty(CP(a)) == (m == 1), "is_empty"); REQC(A::inited(CP(a)) == (m == 1), "inited"); REQC(A::unique(CP(a)) == (m == 1), "unique"); REQC(!A::is_sentinel(CP(a)), "is_sentinel"); REQC((int)A::count(CP(a)) == m, "count"); REQC(!A::end_node(CP(a)), "end_node");
      for (int i = 1; i < m; ++i) REQC(idx(A::get_previous_node(P(a), P(c[i]))) == c[i - 1], "get_previous_node"); REQC(idx(A::get_previous_node(P(a), NP())) == c[m - 1], "get_previous_node of the end"); expect(nxof(s)); });
    if (m > 1) T("unlink_after", ARG("%d", a), [&] { A::unlink_after(P(a)); V nx = nxof(s); nx[a] = nx[c[1]]; nx[c[1]] = ANY; expect(nx); }, 4);
    for (int i = 1; i <= m; ++i) T("unlink_after", ARG("%d, %d", a, i < m ? c[i] : -1), [&] { int l = i < m ? c[i] : -1; A::unlink_after(P(a), P(l)); V nx = nxof(s); for (int j = 1; j < i; ++j) nx[c[j]] = ANY; nx[a] = l; expect(nx); }, 4);
    T("detach_and_dispose", ARG("%d", a), [&] { V out; size_t n = A::detach_and_dispose(P(a), Disp{&out}); REQC(out == V(c.begin() + 1, c.end()) && (int)n == m - 1, "disposed nodes"); V nx = nxof(s); for (int x : c) nx[x] = ANY; nx[a] = -1; expect(nx); });
    for (int b = 0; b < N; ++b) if (b != a) {
      V cb = chain(s, b);
      if (hd[a] != hd[b]) {
        if (head[b] && cb.size() == 1) T("link_after", ARG("%d, %d", a, b), [&] { A::link_after(P(a), P(b)); V nx = nxof(s); nx[b] = nx[a]; nx[a] = b; expect(nx); }, 6);
        T("swap_trailing_nodes", ARG("%d, %d", a, b), [&] { A::swap_trailing_nodes(P(a), P(b)); V nx = nxof(s); std::swap(nx[a], nx[b]); expect(nx); }, 6);
        if (head[b]) T("transfer_after_all", ARG("%d, %d", a, b), [&] { A::transfer_after(P(a), P(b)); V nx = nxof(s); if (cb.size() > 1) { nx[b] = -1; nx[cb.back()] = nx[a]; nx[a] = cb[1]; } expect(nx); });
      }
      for (size_t k = 1; k < cb.size(); ++k) { int e = cb[k]; V mv(cb.begin() + 1, cb.begin() + k + 1); if (has(mv, a)) continue;
        T("transfer_after", ARG("%d, %d, %d", a, b, e), [&] { A::transfer_after(P(a), P(b), P(e)); V nx = nxof(s); int ne = nx[e]; 
          if (a != b) { V nx2 = nx; nx2[b] = ne; int t = nx2[a]; nx2[a] = mv[0]; nx2[e] = t; nx = nx2; } expect(nx); }, 16);
      }
    }
    if (head[a]) {
      T("reverse", ARG("%d", a), [&] { int r = idx(A::reverse(P(a))); V q = c; std::reverse(q.begin(), q.end()); REQC(r == q[0], "new first %d", r); V nx = nxof(s); setchain(nx, q); expect(nx); });
      for (int n = 0; n <= 2 * m + 2; ++n) for (int dir = 0; dir < 2; ++dir) T(dir ? "move_first_n_forward" : "move_first_n_backwards", ARG("%d, %d", a, n), [&] {
        V q = c; int k = n % m; std::rotate(q.begin(), q.begin() + (dir ? (m - k) % m : k), q.end()); A::node_pair r = dir ? A::move_first_n_forward(P(a), n) : A::move_first_n_backwards(P(a), n);
        bool mv = m > 1 && k; REQC(idx(r.first) == (mv ? q[0] : -1) && idx(r.second) == (mv ? q.back() : -1), "returned (%d, %d)", idx(r.first), idx(r.second)); V nx = nxof(s); setchain(nx, q); expect(nx); });
    }
  }
  T("reverse", ARG("null"), [&] { REQC(!A::reverse(NP()), "reverse of nothing"); A::node_pair r = A::move_first_n_forward(NP(), 3); REQC(!r.first && !r.second, "null pair"); r = A::move_first_n_backwards(NP(), 3); REQC(!r.first && !r.second, "null pair"); });
}
#endif
static void all_states() {
  // nx is a partial injection: circular: a permutation of a subset (the rest is inited); linear: an acyclic partial injection
  St s; V nx(N, -1), used(N, 0);
  std::function<void(int)> rec = [&](int i) {
    if (R.nviol > 300) return;
    if (i == N) {
      if (MC_KIND < 2) { for (int k = 0; k < N; ++k) if ((nx[k] < 0) != !used[k]) return; }
      else { for (int k = 0; k < N; ++k) { int j = k, c = 0; while (j >= 0 && c <= N) { j = nx[j]; ++c; } if (j >= 0) return; } }
      for (int k = 0; k < N; ++k) s.nx[k] = nx[k]; derive(s); ++R.states; ++R.validated; run_state(s, true);
      if (R.samples.size() < 3 && R.states % 97 == 50) R.samples.push_back(show(s)); return;
    }
    nx[i] = -1; rec(i + 1);
    for (int j = 0; j < N; ++j) if (!used[j] && (MC_KIND < 2 || j != i)) { used[j] = 1; nx[i] = j; rec(i + 1); used[j] = 0; nx[i] = -1; }
  };
  rec(0);
}
int main(int argc, char** argv) {
  mc::install_traps(); double t0 = mc::now(); bool rep = false;
  for (int i = 1; i < argc; ++i) { if (!strcmp(argv[i], "--cats")) { std::string k = argv[++i]; size_t p = 0; while (p < k.size()) { size_t q = k.find(',', p); if (q == std::string::npos) q = k.size(); mc::g_cats.insert(k.substr(p, q - p)); p = q + 1; } } else if (!strcmp(argv[i], "--replay")) rep = true; }
  mc::g_rep = &R; R.depth = 1;
  all_states();
  if (R.nviol > 300) { R.complete = false; R.cap = "stopped after violations"; }
  if (rep) { for (auto& v : R.viols) printf("REPRODUCED [%s] %s\n", v.cat.c_str(), v.msg.c_str()); return !R.viols.empty(); }
  mc::emit(R, "listalgo", mc::now() - t0);
}
