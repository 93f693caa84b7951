// C20: objects with many hooks, in three containers at once; any-hook objects moving between three kinds of containers.
//  MC_A, MC_B, MC_D : container codes (see Cont<>), MC_N elements, keys i/2
//  MC_ANY 0: separate hooks, 1: one any_base_hook, 2: one any_member_hook, 3: any_base_hook with normal_link, 4: any_base_hook with self-relative pointers
// Requirements: contents and links of every container equal the reference after every operation; an operation on one container changes
// no byte outside that container, its bucket array and its own hook in the elements that are (or become, or were) its members.
#ifndef MC_N
#define MC_N 3
#endif
#ifndef MC_ANY
#define MC_ANY 0
#endif
#include "core.hpp"
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/any_hook.hpp>
#include <type_traits>
#include "relptr.hpp"
namespace bi = boost::intrusive;
enum { N = MC_N };
struct TA; struct TB; struct TC;
enum Kind { LIST, SLIST, TREEU, TREEM, HASHU, HASHM };
enum Link { NORMAL, SAFE, AUTO };
#if !MC_ANY
typedef bi::link_mode<bi::safe_link> SL; typedef bi::link_mode<bi::auto_unlink> AU; typedef bi::link_mode<bi::normal_link> NL;
typedef bi::list_base_hook<bi::tag<TA>, SL> HLA; typedef bi::list_base_hook<bi::tag<TB>, AU> HLB; typedef bi::list_member_hook<NL> HLM;
typedef bi::slist_base_hook<bi::tag<TA>, SL> HSA; typedef bi::slist_member_hook<AU> HSM;
typedef bi::set_base_hook<bi::tag<TA>, SL, bi::optimize_size<true>> HRA; typedef bi::set_base_hook<bi::tag<TB>, AU, bi::optimize_size<false>> HRB; typedef bi::set_member_hook<SL, bi::optimize_size<true>> HRM;
typedef bi::avl_set_base_hook<bi::tag<TA>, SL, bi::optimize_size<true>> HVA; typedef bi::avl_set_member_hook<AU, bi::optimize_size<false>> HVM;
typedef bi::bs_set_base_hook<SL> HBD; typedef bi::bs_set_base_hook<bi::tag<TB>, AU> HBB; typedef bi::bs_set_member_hook<SL> HBM;
typedef bi::unordered_set_base_hook<SL, bi::store_hash<true>, bi::optimize_multikey<true>> HUD; typedef bi::unordered_set_base_hook<bi::tag<TB>, AU, bi::store_hash<true>> HUB; typedef bi::unordered_set_member_hook<SL, bi::optimize_multikey<true>> HUM;
struct E : HLA, HLB, HSA, HRA, HRB, HVA, HBD, HBB, HUD, HUB {
  uint32_t c0; HLM lm; uint32_t c1; HSM sm; char c2[3]; HRM rm; uint16_t c3; HVM vm; char c4; HBM bm; uint32_t c5; HUM um; uint64_t c6; int key; 
  explicit E(int k = 0) : c0(0xA0A0A0A0), c1(0xB1B1B1B1), c2{1, 2, 3}, c3(0xC3C3), c4(0x44), c5(0xD5D5D5D5), c6(0xE6E6E6E6E6E6E6E6ull), key(k) {}
  bool operator<(const E& o) const { return key < o.key; } bool operator==(const E& o) const { return key == o.key; }
};
#else
#if MC_ANY == 2
typedef bi::any_member_hook<> AH;
struct E { uint32_t c0; AH h; uint32_t c1; int key; explicit E(int k = 0) : c0(0xA0A0A0A0), c1(0xB1B1B1B1), key(k) {}
#elif MC_ANY == 3
typedef bi::any_base_hook<bi::link_mode<bi::normal_link>> AH;
struct B0 { uint64_t b0 = 0x1111; };
struct E : B0, AH { uint32_t c0, c1; int key; explicit E(int k = 0) : c0(0xA0A0A0A0), c1(0xB1B1B1B1), key(k) {}
#elif MC_ANY == 4
typedef bi::any_base_hook<bi::void_pointer<mc::rel_ptr<void>>> AH;
struct B0 { uint64_t b0 = 0x1111; };
struct E : B0, AH { uint32_t c0, c1; int key; explicit E(int k = 0) : c0(0xA0A0A0A0), c1(0xB1B1B1B1), key(k) {}
#else
typedef bi::any_base_hook<bi::tag<TC>> AH;
struct B0 { uint64_t b0 = 0x1111; };
struct E : B0, AH { uint32_t c0, c1; int key; explicit E(int k = 0) : c0(0xA0A0A0A0), c1(0xB1B1B1B1), key(k) {}
#endif
  bool operator<(const E& o) const { return key < o.key; } bool operator==(const E& o) const { return key == o.key; }
};
#endif
struct Hash { size_t operator()(const E& e) const { return (size_t)e.key * 3; } };
struct Prio { bool operator()(const E& a, const E& b) const { return a.key % 2 < b.key % 2 || (a.key % 2 == b.key % 2 && a.key > b.key); } };
typedef bi::constant_time_size<false> CF; typedef bi::hash<Hash> HH; typedef bi::priority<Prio> PR;
template<int c> struct Cont;
#define CONT(code, T, K, L, HOOKEXPR) template<> struct Cont<code> { typedef T type; enum { kind = K, link = L }; static auto& hook(E& e) { return HOOKEXPR; } };
#define C_ ,
#if !MC_ANY
#define BASE(H) static_cast<H&>(e)
CONT(0, bi::list<E C_ bi::base_hook<HLA>>, LIST, SAFE, BASE(HLA))
CONT(1, bi::list<E C_ bi::base_hook<HLB> C_ CF>, LIST, AUTO, BASE(HLB))
CONT(2, bi::list<E C_ bi::member_hook<E C_ HLM C_ &E::lm>>, LIST, NORMAL, e.lm)
CONT(3, bi::slist<E C_ bi::base_hook<HSA> C_ bi::cache_last<true>>, SLIST, SAFE, BASE(HSA))
CONT(4, bi::slist<E C_ bi::member_hook<E C_ HSM C_ &E::sm> C_ CF>, SLIST, AUTO, e.sm)
CONT(5, bi::set<E C_ bi::base_hook<HRA>>, TREEU, SAFE, BASE(HRA))
CONT(6, bi::multiset<E C_ bi::base_hook<HRB> C_ CF>, TREEM, AUTO, BASE(HRB))
CONT(7, bi::multiset<E C_ bi::member_hook<E C_ HRM C_ &E::rm>>, TREEM, SAFE, e.rm)
CONT(8, bi::avl_set<E C_ bi::base_hook<HVA>>, TREEU, SAFE, BASE(HVA))
CONT(9, bi::avl_multiset<E C_ bi::member_hook<E C_ HVM C_ &E::vm> C_ CF>, TREEM, AUTO, e.vm)
CONT(10, bi::splay_multiset<E C_ bi::base_hook<HBD>>, TREEM, SAFE, BASE(HBD))
CONT(11, bi::bs_multiset<E C_ bi::base_hook<HBB> C_ CF>, TREEM, AUTO, BASE(HBB))
CONT(12, bi::sg_set<E C_ bi::member_hook<E C_ HBM C_ &E::bm>>, TREEU, SAFE, e.bm)
CONT(13, bi::treap_multiset<E C_ bi::base_hook<HBD> C_ PR>, TREEM, SAFE, BASE(HBD))
CONT(14, bi::unordered_multiset<E C_ bi::base_hook<HUD> C_ HH>, HASHM, SAFE, BASE(HUD))
CONT(15, bi::unordered_set<E C_ bi::base_hook<HUB> C_ HH C_ CF>, HASHU, AUTO, BASE(HUB))
CONT(16, bi::unordered_multiset<E C_ bi::member_hook<E C_ HUM C_ &E::um> C_ HH C_ bi::linear_buckets<true>>, HASHM, SAFE, e.um)
struct FH { typedef HLM hook_type; typedef HLM* hook_ptr; typedef const HLM* const_hook_ptr; typedef E value_type; typedef E* pointer; typedef const E* const_pointer;
  static hook_ptr to_hook_ptr(E& v) { return &v.lm; } static const_hook_ptr to_hook_ptr(const E& v) { return &v.lm; }
  static pointer to_value_ptr(hook_ptr n) { return bi::get_parent_from_member<E>(n, &E::lm); } static const_pointer to_value_ptr(const_hook_ptr n) { return bi::get_parent_from_member<E>(n, &E::lm); } };
CONT(17, bi::list<E C_ bi::function_hook<FH>>, LIST, NORMAL, e.lm)
#else
#if MC_ANY == 2
typedef bi::member_hook<E, AH, &E::h> OP0;
#define HEX e.h
#define ALINK SAFE
#else
typedef bi::base_hook<AH> OP0;
#define HEX static_cast<AH&>(e)
#define ALINK (MC_ANY == 3 ? NORMAL : SAFE)
#endif
CONT(0, bi::list<E C_ bi::any_to_list_hook<OP0>>, LIST, ALINK, HEX)
CONT(1, bi::slist<E C_ bi::any_to_slist_hook<OP0> C_ bi::cache_last<true>>, SLIST, ALINK, HEX)
CONT(2, bi::set<E C_ bi::any_to_set_hook<OP0>>, TREEU, ALINK, HEX)
CONT(3, bi::multiset<E C_ bi::any_to_set_hook<OP0> C_ CF>, TREEM, ALINK, HEX)
CONT(4, bi::avl_multiset<E C_ bi::any_to_avl_set_hook<OP0>>, TREEM, ALINK, HEX)
CONT(5, bi::bs_set<E C_ bi::any_to_bs_set_hook<OP0>>, TREEU, ALINK, HEX)
CONT(6, bi::splay_multiset<E C_ bi::any_to_bs_set_hook<OP0>>, TREEM, ALINK, HEX)
CONT(7, bi::sg_set<E C_ bi::any_to_bs_set_hook<OP0>>, TREEU, ALINK, HEX)
CONT(8, bi::treap_multiset<E C_ bi::any_to_bs_set_hook<OP0> C_ PR>, TREEM, ALINK, HEX)
CONT(9, bi::unordered_multiset<E C_ bi::any_to_unordered_set_hook<OP0> C_ HH>, HASHM, ALINK, HEX)
CONT(10, bi::unordered_set<E C_ bi::any_to_unordered_set_hook<OP0> C_ HH C_ bi::linear_buckets<true>>, HASHU, ALINK, HEX)
CONT(11, bi::slist<E C_ bi::any_to_slist_hook<OP0> C_ CF>, SLIST, ALINK, HEX)
#endif
// the last element of a linear bucket has no next link and looks unlinked: finding unordered-linear-safe-link-last, decided by C11
static constexpr int codes[3] = {MC_A, MC_B, MC_D};
#define LINB(k) (codes[k] == (MC_ANY ? 10 : 16))
typedef Cont<MC_A> K0; typedef Cont<MC_B> K1; typedef Cont<MC_D> K2;
template<int k> using KK = typename std::conditional<k == 0, K0, typename std::conditional<k == 1, K1, K2>::type>::type;
template<class K, bool h> struct Store { alignas(16) char c[sizeof(typename K::type)]; uint32_t can; alignas(8) char b[8]; };
template<class K> struct Store<K, true> { alignas(16) char c[sizeof(typename K::type)]; uint32_t can; alignas(8) char b[2 * 6 * sizeof(typename K::type::bucket_type)]; };
template<class K> using St = Store<K, (K::kind >= HASHU)>;
struct Slot { uint32_t can0; alignas(8) char mem[sizeof(E)]; uint32_t can1; E& e() { return *(E*)mem; } };
struct Ref { int8_t n[3]; int8_t ord[3][N]; int8_t buf[3]; };
struct W { St<K0> s0; uint32_t x0; St<K1> s1; uint32_t x1; St<K2> s2; uint32_t x2; Slot el[N]; Ref ref; };
static W& w() { return *(W*)mc::g_arena; }
template<int k> static auto& C() { typedef typename KK<k>::type T; return *(T*)(k == 0 ? w().s0.c : k == 1 ? w().s1.c : w().s2.c); }
template<int k> static char* B() { return k == 0 ? w().s0.b : k == 1 ? w().s1.b : w().s2.b; }
static E& el(int i) { return w().el[i].e(); }
template<int k> struct Tr { typedef KK<k> K; typedef typename K::type T; enum { kind = K::kind, link = K::link, hash = K::kind >= HASHU, list = K::kind <= SLIST, tree = K::kind == TREEU || K::kind == TREEM, uniq = K::kind == TREEU || K::kind == HASHU }; };
template<int k, class F, class... A> static auto disp2(int i, F f, A... a) { if (i == 0) return f(std::integral_constant<int, 0>(), a...); if (i == 1) return f(std::integral_constant<int, 1>(), a...); return f(std::integral_constant<int, 2>(), a...); }
#define ON(kk, body) disp2<0>(kk, [&](auto kc_) { constexpr int k = decltype(kc_)::value; typedef Tr<k> t; auto& c = C<k>(); (void)c; body })
template<int k> static void* hookp(int i) { return (void*)&Tr<k>::K::hook(el(i)); }
template<int k> static size_t hookn() { return sizeof(Tr<k>::K::hook(el(0))); }
typedef std::vector<int> V;
static V ref(int k) { Ref& r = w().ref; return V(r.ord[k], r.ord[k] + r.n[k]); }
static void setref(int k, const V& v) { Ref& r = w().ref; memset(r.ord[k], -1, N); r.n[k] = (int8_t)v.size(); for (size_t i = 0; i < v.size(); ++i) r.ord[k][i] = (int8_t)v[i]; }
static bool has(const V& v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
static int key(int i) { return i / 2; }
static int idx(const E* p) { for (int i = 0; i < N; ++i) if (p == &el(i)) return i; return -1; }
template<int k, int which> static typename Tr<k>::T::bucket_traits bt() { typedef typename Tr<k>::T T; typedef typename T::bucket_type BT; return typename T::bucket_traits(bi::pointer_traits<typename T::bucket_ptr>::pointer_to(*((BT*)B<k>() + which * 6)), which ? 3 + T::bucket_overhead : 2 + T::bucket_overhead); }
struct Sys {
  enum { INS, ERA, CLEAR, REV, SORT, ERAKEY, UNLINK, FIND, REHASH, DESTROY, COPY, ASSIGN, POPF, MOVE };
  static size_t image_size() { return sizeof(W); }
  void restored() {}
  int variants() { return 1; }
  std::string name(const mc::Op& o) { static const char* nm[] = {"insert", "erase", "clear", "reverse", "sort", "erase_key", "unlink", "find", "rehash", "destroy", "copy_construct", "assign", "pop_front", "move_between"}; return mc::strf("%s(%d,%d,%d)", nm[o.k], o.a[0], o.a[1], o.a[2]); }
  void init(int) {
    memset(mc::g_arena, mc::g_fill, sizeof(W)); W& x = w(); x.x0 = x.x1 = x.x2 = 0x77777777;
    for (int i = 0; i < N; ++i) { x.el[i].can0 = 0x10101010; x.el[i].can1 = 0x20202020; new (x.el[i].mem) E(key(i)); }
    for (int kk = 0; kk < 3; ++kk) { x.ref.buf[kk] = 0; setref(kk, V()); ON(kk, { typedef typename t::T T; if constexpr (t::hash) { typedef typename T::bucket_type BT; for (int i = 0; i < 12; ++i) new ((BT*)B<k>() + i) BT(); new (&c) T(bt<k, 0>()); } else new (&c) T(); return 0; }); }
    x.s0.can = x.s1.can = x.s2.can = 0x66666666;
  }
  bool insertable(int kk, int e) {
    if (has(ref(kk), e)) return false;
#if MC_ANY
    for (int q = 0; q < 3; ++q) if (has(ref(q), e)) return false;
#endif
    return true;
  }
  void ops(std::vector<mc::Op>& o) {
    for (int kk = 0; kk < 3; ++kk) {
      V r = ref(kk); int n = (int)r.size();
      ON(kk, {
        for (int e = 0; e < N; ++e) {
          if (insertable(kk, e)) for (int p = 0; p <= (t::list ? n : 0); ++p) o.push_back(mc::mk(INS, kk, e, p));
          if (has(r, e)) { o.push_back(mc::mk(ERA, kk, e)); if (t::link == AUTO) o.push_back(mc::mk(UNLINK, kk, e)); }
          if (has(r, e)) for (int q = 0; q < 3; ++q) if (q != kk && (MC_ANY || !has(ref(q), e))) o.push_back(mc::mk(MOVE, kk, e, q));
        }
        if (n) o.push_back(mc::mk(CLEAR, kk));
        if (t::list && n > 1) { o.push_back(mc::mk(REV, kk)); o.push_back(mc::mk(SORT, kk)); }
        if (t::list && n) o.push_back(mc::mk(POPF, kk));
        if (!t::list) for (int q = 0; q <= (N - 1) / 2; ++q) { o.push_back(mc::mk(ERAKEY, kk, q)); o.push_back(mc::mk(FIND, kk, q)); }
        if (t::hash) o.push_back(mc::mk(REHASH, kk));
        return 0; });
    }
    for (int e = 0; e < N; ++e) {
      bool ok = true;
      for (int kk = 0; kk < 3; ++kk) if (has(ref(kk), e)) ON(kk, { if (t::link != AUTO) ok = false; return 0; });
      if (ok) o.push_back(mc::mk(DESTROY, e));
      o.push_back(mc::mk(COPY, e)); for (int f = 0; f < N; ++f) o.push_back(mc::mk(ASSIGN, e, f));
    }
  }
  // --- one insertion / removal on container kk with the reference
  void insert(int kk, int e, int p) {
    V r = ref(kk);
    ON(kk, {
      if constexpr (t::list) {
        auto it = c.begin(); 
        if constexpr (int(t::kind) == LIST) { for (int i = 0; i < p; ++i) ++it; auto q = c.insert(it, el(e)); REQ("ret", idx(&*q) == e, "insert returned another element"); }
        else { if (p == 0) c.push_front(el(e)); else { for (int i = 1; i < p; ++i) ++it; auto q = c.insert_after(it, el(e)); REQ("ret", idx(&*q) == e, "insert_after returned another element"); } }
        r.insert(r.begin() + p, e);
      } else if constexpr (t::uniq) {
        int dup = -1; for (int q : r) if (key(q) == key(e)) dup = q;
        auto q = c.insert(el(e)); REQ("ret", q.second == (dup < 0) && idx(&*q.first) == (dup < 0 ? e : dup), "unique insertion");
        if (dup < 0) { if (t::hash) r.push_back(e); else { size_t i = 0; while (i < r.size() && key(r[i]) < key(e)) ++i; r.insert(r.begin() + i, e); } }
      } else {
        auto q = c.insert(el(e)); REQ("ret", idx(&*q) == e, "insert returned another element");
        if (t::hash) r.push_back(e); else { size_t i = 0; while (i < r.size() && key(r[i]) <= key(e)) ++i; r.insert(r.begin() + i, e); }
      }
      return 0; });
    setref(kk, r);
  }
  void erase(int kk, int e) {
    V r = ref(kk); size_t at = std::find(r.begin(), r.end(), e) - r.begin();
    ON(kk, { auto it = c.iterator_to(el(e)); REQ("ret", idx(&*it) == e, "iterator_to"); 
      if constexpr (t::hash) c.erase(it); else { auto n = c.erase(it); int nx = n == c.end() ? -1 : idx(&*n); REQ("ret", nx == (at + 1 < r.size() ? r[at + 1] : -1), "erase returned element %d", nx); }
      return 0; });
    r.erase(r.begin() + at); setref(kk, r);
  }
  struct Rg { char* p; size_t n; };
  bool step(const mc::Op& o) {
    static char pre[sizeof(W)], post[sizeof(W)]; memcpy(pre, mc::g_arena, sizeof(W));
    std::vector<Rg> ok; auto allow = [&](void* p, size_t n) { ok.push_back(Rg{(char*)p, n}); };
    allow(&w().ref, sizeof(Ref));
    auto allow_k = [&](int kk) { V m = ref(kk); ON(kk, { allow(&c, sizeof c); if constexpr (t::hash) allow(B<k>(), 12 * sizeof(typename t::T::bucket_type)); for (int e : m) allow(hookp<k>(e), hookn<k>()); return 0; }); };
    const int kk = o.a[0], e = o.a[1];
    switch (o.k) {
      case INS: allow_k(kk); insert(kk, e, o.a[2]); allow_k(kk); break;
      case ERA: allow_k(kk); erase(kk, e); break;
      case MOVE: allow_k(kk); allow_k(o.a[2]); erase(kk, e); insert(o.a[2], e, 0); allow_k(o.a[2]); break;
      case CLEAR: allow_k(kk); ON(kk, { c.clear(); return 0; }); setref(kk, V()); break;
      case REV: { allow_k(kk); ON(kk, { if constexpr (t::list) c.reverse(); return 0; }); V r = ref(kk); std::reverse(r.begin(), r.end()); setref(kk, r); break; }
      case SORT: { allow_k(kk); ON(kk, { if constexpr (t::list) c.sort(); return 0; }); V r = ref(kk); std::stable_sort(r.begin(), r.end(), [](int a, int b) { return key(a) < key(b); }); setref(kk, r); break; }
      case POPF: { allow_k(kk); ON(kk, { if constexpr (t::list) c.pop_front(); return 0; }); V r = ref(kk); r.erase(r.begin()); setref(kk, r); break; }
      case ERAKEY: { allow_k(kk); E kx(e); size_t n = 0; ON(kk, { if constexpr (!t::list) n = c.erase(kx); return 0; }); V r = ref(kk), q; for (int x : r) if (key(x) != e) q.push_back(x); REQ("ret", n == r.size() - q.size(), "erase(key) returned %zu", n); setref(kk, q); break; }
      case FIND: { allow_k(kk); E kx(e); int f = -2; ON(kk, { if constexpr (!t::list) { auto i = c.find(kx); f = i == c.end() ? -1 : idx(&*i); } return 0; }); bool any = false; for (int x : ref(kk)) any |= key(x) == e; REQ("ret", any ? f >= 0 && key(f) == e && has(ref(kk), f) : f == -1, "find(%d) is %d", e, f); break; }
      case UNLINK: { allow_k(kk); ON(kk, { if constexpr (int(t::link) == AUTO) t::K::hook(el(e)).unlink(); return 0; }); V r = ref(kk); r.erase(std::find(r.begin(), r.end(), e)); setref(kk, r); break; }
      case REHASH: { allow_k(kk); int to = !w().ref.buf[kk]; ON(kk, { if constexpr (t::hash) { if (to) c.rehash(bt<k, 1>()); else c.rehash(bt<k, 0>()); } return 0; }); w().ref.buf[kk] = (int8_t)to; break; }
      case DESTROY: { int x = kk; for (int q = 0; q < 3; ++q) if (has(ref(q), x)) { allow_k(q); V r = ref(q); r.erase(std::find(r.begin(), r.end(), x)); setref(q, r); }
        allow(&el(x), sizeof(E)); el(x).~E(); memset(w().el[x].mem, mc::g_fill, sizeof(E)); new (w().el[x].mem) E(key(x)); break; }
      case COPY: { E tmp(el(kk)); REQ("linked", unlinked(tmp), "a copy of a linked object is linked"); break; }
      case ASSIGN: { E tmp(9); if (e == kk) { tmp = el(kk); REQ("linked", unlinked(tmp), "assigning from a linked object links the target"); } else { int kx = el(kk).key; el(kk) = el(e); el(kk).key = kx; } break; }
      default: return false;
    }
    memcpy(post, mc::g_arena, sizeof(W));
    for (auto& r : ok) { size_t off = r.p - mc::g_arena; memset(pre + off, 0, r.n); memset(post + off, 0, r.n); }
    if (memcmp(pre, post, sizeof(W))) { size_t i = 0; while (pre[i] == post[i]) ++i; REQ("bytes", false, "byte %zu of the arena (%s) changed by an operation on another container or hook", i, where(i).c_str()); }
    return true;
  }
  static std::string where(size_t i) {
    const char* p = mc::g_arena + i; W& x = w();
    for (int e = 0; e < N; ++e) if (p >= (char*)&x.el[e] && p < (char*)(&x.el[e] + 1)) {
      for (int kk = 0; kk < 3; ++kk) { std::string r; ON(kk, { if (p >= (char*)hookp<k>(e) && p < (char*)hookp<k>(e) + hookn<k>()) r = mc::strf("element %d, hook of container %d", e, k); return 0; }); if (!r.empty()) return r; }
      return mc::strf("element %d offset %d", e, int(p - x.el[e].mem)); }
    for (int kk = 0; kk < 3; ++kk) { std::string r; ON(kk, { if (p >= (char*)&c && p < (char*)(&c + 1)) r = mc::strf("container %d", k); return 0; }); if (!r.empty()) return r; }
    return "outside";
  }
  static bool unlinked(E& e) { bool r = true; for (int kk = 0; kk < 3; ++kk) ON(kk, { if constexpr (int(t::link) != NORMAL) if (t::K::hook(e).is_linked()) r = false; return 0; }); return r; }
  void check() {
    for (int kk = 0; kk < 3; ++kk) {
      V r = ref(kk);
      ON(kk, {
        V got; for (auto i = c.begin(); i != c.end() && got.size() <= N; ++i) { int x = idx(&*i); REQ("order", x >= 0, "container %d holds an object that is none of ours", k); got.push_back(x); }
        if (t::hash) { V a = got; V b = r; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); REQ("order", a == b, "contents of unordered container %d", k); for (size_t i = 0; i < got.size(); ++i) for (size_t j = i + 1; j < got.size(); ++j) if (key(got[i]) == key(got[j])) REQ("order", key(got[j - 1]) == key(got[i]), "equivalent elements are not adjacent in container %d", k); }
        else REQ("order", got == r, "contents of container %d", k);
        REQ("size", c.size() == r.size() && c.empty() == r.empty(), "size of container %d is %zu, expected %zu", k, (size_t)c.size(), r.size());
        if constexpr (int(t::kind) == LIST || t::tree) { V rev; for (auto i = c.rbegin(); i != c.rend() && rev.size() <= N; ++i) rev.push_back(idx(&*i)); std::reverse(rev.begin(), rev.end()); REQ("order", rev == r, "reverse iteration of container %d", k); }
        if constexpr (t::tree) c.check();
        if constexpr (int(t::kind) == SLIST) { if constexpr (t::T::cache_last) if (!r.empty()) REQ("order", idx(&c.back()) == r.back(), "back of container %d", k); }
        for (int e : r) { auto i = c.iterator_to(el(e)); REQ("ret", &*i == &el(e), "iterator_to in container %d", k); const auto& cc = c; auto ci = cc.iterator_to(static_cast<const E&>(el(e))); REQ("ret", &*ci == &el(e), "const iterator_to in container %d", k); }
#if !MC_ANY
        if constexpr (int(t::link) != NORMAL) for (int e = 0; e < N; ++e) REQ("linked", t::K::hook(el(e)).is_linked() == has(r, e) || (LINB(k) && has(r, e)), "is_linked of element %d through the hook of container %d", e, k);
#endif
        return 0; });
    }
#if MC_ANY && MC_ANY != 3
    for (int e = 0; e < N; ++e) { bool in = false; for (int q = 0; q < 3; ++q) in |= has(ref(q), e); REQ("linked", K0::hook(el(e)).is_linked() == in || (in && (LINB(0) || LINB(1) || LINB(2))), "is_linked of element %d", e); }
#endif
    for (int e = 0; e < N; ++e) REQ("bytes", el(e).key == key(e) && el(e).c0 == 0xA0A0A0A0 && el(e).c1 == 0xB1B1B1B1 && w().el[e].can0 == 0x10101010 && w().el[e].can1 == 0x20202020, "other members of element %d", e);
    REQ("bytes", w().x0 == 0x77777777 && w().x1 == 0x77777777 && w().x2 == 0x77777777 && w().s0.can == 0x66666666 && w().s1.can == 0x66666666 && w().s2.can == 0x66666666, "bytes between the containers");
  }
  std::string canon() {
    mc::Canon c; c.selfrel = MC_ANY == 4; W& x = w();
    c.obj(&x.s0, sizeof x.s0); c.obj(&x.s1, sizeof x.s1); c.obj(&x.s2, sizeof x.s2); for (int i = 0; i < N; ++i) c.obj(&x.el[i], sizeof(Slot));
    c.range(mc::g_arena, sizeof(W)); return c.key();
  }
};
int main(int argc, char** argv) {
  static Sys s; mc::Opts o; o.max_states = 400000; static_assert(sizeof(W) < MC_ARENA, ""); return mc::engine_main(argc, argv, s, o, "multi");
}
