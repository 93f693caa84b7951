// Model checking of boost::intrusive::list and slist.
// Macros: MC_SLIST MC_LINK(0 normal,1 safe,2 auto) MC_CTS MC_HOOK(0 base,1 member,2 function,3 stateful value
// traits,4 derivation value traits,5 trivial value traits) MC_PTR(0 raw,1 self-relative) MC_LINEAR MC_CACHE
// MC_KEYS "0,0,1" MC_SIZET MC_HH MC_GROUPS (bit mask of alphabets) MC_FILL
#include "core.hpp"
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/derivation_value_traits.hpp>
#include <boost/intrusive/member_value_traits.hpp>
#include <boost/intrusive/trivial_value_traits.hpp>
#include <boost/intrusive/parent_from_member.hpp>
#if MC_PTR == 1
#include "relptr.hpp"
#endif
namespace bi = boost::intrusive;
#ifndef MC_SLIST
#define MC_SLIST 0
#endif
#ifndef MC_LINK
#define MC_LINK 1
#endif
#ifndef MC_CTS
#define MC_CTS (MC_LINK != 2)
#endif
#ifndef MC_HOOK
#define MC_HOOK 0
#endif
#ifndef MC_PTR
#define MC_PTR 0
#endif
#ifndef MC_LINEAR
#define MC_LINEAR 0
#endif
#ifndef MC_CACHE
#define MC_CACHE 0
#endif
#ifndef MC_KEYS
#define MC_KEYS 0,0,1,1,2
#endif
#ifndef MC_SIZET
#define MC_SIZET std::size_t
#endif
#ifndef MC_HH
#define MC_HH 0
#endif
#ifndef MC_GROUPS
#define MC_GROUPS 0xffff
#endif
// alphabets
enum { G_SEQ = 1, G_RANGE = 2, G_SPLICE = 4, G_ALG = 8, G_DISPOSE = 16, G_CLONE = 32, G_SWAP = 64, G_MISUSE = 128, G_AUTO = 256, G_THROW = 512, G_RELOC = 1024, G_SWAPNODES = 2048 };
static const int GROUPS = MC_GROUPS;
static const int KEYTAB[] = {MC_KEYS};
enum { N = sizeof(KEYTAB) / sizeof(KEYTAB[0]), CL = N };   // CL: extra elements for clones (never in the main state)
static const bi::link_mode_type LM = MC_LINK == 0 ? bi::normal_link : MC_LINK == 1 ? bi::safe_link : bi::auto_unlink;
static const bool HAS_LINKED = MC_LINK != 0 && MC_HOOK <= 2;

#if MC_PTR == 1
typedef mc::rel_ptr<void> VP;
#else
typedef void* VP;
#endif
struct Tag;
#if MC_SLIST
typedef bi::slist_base_hook<bi::link_mode<LM>, bi::void_pointer<VP>, bi::tag<Tag> > BaseH;
typedef bi::slist_member_hook<bi::link_mode<LM>, bi::void_pointer<VP> > MemH;
typedef bi::slist_node<VP> RawNode; typedef bi::slist_node_traits<VP> RawNT; typedef bi::circular_slist_algorithms<RawNT> RawAlgo;
#else
typedef bi::list_base_hook<bi::link_mode<LM>, bi::void_pointer<VP>, bi::tag<Tag> > BaseH;
typedef bi::list_member_hook<bi::link_mode<LM>, bi::void_pointer<VP> > MemH;
typedef bi::list_node<VP> RawNode; typedef bi::list_node_traits<VP> RawNT; typedef bi::circular_list_algorithms<RawNT> RawAlgo;
#endif

static const uint32_t CAN1 = 0xC0FFEE01u, CAN2 = 0xBADF00D2u;
struct Elem;
#if MC_HOOK == 0
struct Elem : BaseH {
#elif MC_HOOK == 4
struct Elem : RawNode {
#elif MC_HOOK == 5
typedef bi::pointer_traits<VP>::rebind_pointer<Elem>::type EP; typedef bi::pointer_traits<VP>::rebind_pointer<const Elem>::type CEP;
struct Elem { EP next_; EP prev_;
#else
struct Elem {
#endif
  uint32_t can1; 
#if MC_HOOK == 1
  MemH hook;
#elif MC_HOOK == 2
  struct Inner { uint32_t pad; MemH hook; } in;
#elif MC_HOOK == 6
  RawNode node;
#endif
  uint32_t can2; uint8_t key, id; 
  Elem() : can1(0), can2(0), key(0), id(0) {}   // header nodes of trivial traits
  Elem(int k, int i) : can1(CAN1), can2(CAN2), key((uint8_t)k), id((uint8_t)i) {
#if MC_HOOK == 2
    in.pad = CAN1;
#endif
#if MC_HOOK == 6 && MC_LINK == 1
    RawAlgo::init(bi::pointer_traits<RawNT::node_ptr>::pointer_to(node));
#endif
#if MC_HOOK == 4 && MC_LINK == 1
    RawAlgo::init(bi::pointer_traits<RawNT::node_ptr>::pointer_to(static_cast<RawNode&>(*this)));
#endif
#if MC_HOOK == 5 && MC_LINK == 1
    next_ = prev_ = EP();
#endif
  }
  friend bool operator<(const Elem& a, const Elem& b);
  friend bool operator==(const Elem& a, const Elem& b);
};
// functor call counting and fault injection
static long g_calls, g_throw_at = -1;
static inline void fcall() { ++g_calls; if (g_throw_at >= 0 && g_calls > g_throw_at) { throw mc::UserThrow{1}; } }
inline bool operator<(const Elem& a, const Elem& b) { fcall(); return a.key < b.key; }
inline bool operator==(const Elem& a, const Elem& b) { fcall(); return a.key == b.key; }
struct Greater { bool operator()(const Elem& a, const Elem& b) const { fcall(); return a.key > b.key; } };
struct HalfLess { bool operator()(const Elem& a, const Elem& b) const { fcall(); return a.key / 2 < b.key / 2; } };
struct HalfEq { bool operator()(const Elem& a, const Elem& b) const { fcall(); return a.key / 2 == b.key / 2; } };

#if MC_HOOK == 0
typedef bi::base_hook<BaseH> VOpt;
#elif MC_HOOK == 1
typedef bi::member_hook<Elem, MemH, &Elem::hook> VOpt;
#elif MC_HOOK == 2
struct FH {
  typedef MemH hook_type; typedef bi::pointer_traits<VP>::rebind_pointer<hook_type>::type hook_ptr; typedef bi::pointer_traits<VP>::rebind_pointer<const hook_type>::type const_hook_ptr;
  typedef Elem value_type; typedef bi::pointer_traits<VP>::rebind_pointer<Elem>::type pointer; typedef bi::pointer_traits<VP>::rebind_pointer<const Elem>::type const_pointer;
  static hook_ptr to_hook_ptr(value_type& v) { return bi::pointer_traits<hook_ptr>::pointer_to(v.in.hook); }
  static const_hook_ptr to_hook_ptr(const value_type& v) { return bi::pointer_traits<const_hook_ptr>::pointer_to(v.in.hook); }
  static pointer to_value_ptr(hook_ptr n) { return bi::pointer_traits<pointer>::pointer_to(*bi::get_parent_from_member<Elem>(bi::get_parent_from_member<Elem::Inner>(&*n, &Elem::Inner::hook), &Elem::in)); }
  static const_pointer to_value_ptr(const_hook_ptr n) { return bi::pointer_traits<const_pointer>::pointer_to(*bi::get_parent_from_member<Elem>(bi::get_parent_from_member<Elem::Inner>(&*n, &Elem::Inner::hook), &Elem::in)); }
};
typedef bi::function_hook<FH> VOpt;
#elif MC_HOOK == 3
enum { ESTRIDE = (sizeof(Elem) + 15) / 16 * 16 };
struct SVT {      // stateful: nodes live in a separate array
  typedef RawNT node_traits; typedef RawNT::node node; typedef RawNT::node_ptr node_ptr; typedef RawNT::const_node_ptr const_node_ptr;
  typedef Elem value_type; typedef bi::pointer_traits<node_ptr>::rebind_pointer<Elem>::type pointer; typedef bi::pointer_traits<node_ptr>::rebind_pointer<const Elem>::type const_pointer;
  static const bi::link_mode_type link_mode = LM;
  Elem* vals; node* nodes;
  SVT() : vals(0), nodes(0) {}
  SVT(Elem* v, node* n) : vals(v), nodes(n) {}
  node_ptr to_node_ptr(value_type& v) const { return bi::pointer_traits<node_ptr>::pointer_to(nodes[((char*)&v - (char*)vals) / ESTRIDE]); }
  const_node_ptr to_node_ptr(const value_type& v) const { return bi::pointer_traits<const_node_ptr>::pointer_to(nodes[((const char*)&v - (const char*)vals) / ESTRIDE]); }
  pointer to_value_ptr(const node_ptr& n) const { return bi::pointer_traits<pointer>::pointer_to(*(Elem*)((char*)vals + (boost::movelib::to_raw_pointer(n) - nodes) * ESTRIDE)); }
  const_pointer to_value_ptr(const const_node_ptr& n) const { return bi::pointer_traits<const_pointer>::pointer_to(*(Elem*)((char*)vals + (boost::movelib::to_raw_pointer(n) - nodes) * ESTRIDE)); }
};
typedef bi::value_traits<SVT> VOpt;
#elif MC_HOOK == 4
typedef bi::value_traits<bi::derivation_value_traits<Elem, RawNT, LM> > VOpt;
#elif MC_HOOK == 6
typedef bi::value_traits<bi::member_value_traits<Elem, RawNT, &Elem::node, LM> > VOpt;
#elif MC_HOOK == 5
struct ENT {
  typedef Elem node; typedef EP node_ptr; typedef CEP const_node_ptr;
  static node_ptr get_next(const_node_ptr n) { return n->next_; } static void set_next(node_ptr n, node_ptr x) { n->next_ = x; }
  static node_ptr get_previous(const_node_ptr n) { return n->prev_; } static void set_previous(node_ptr n, node_ptr x) { n->prev_ = x; }
};
typedef bi::value_traits<bi::trivial_value_traits<ENT, LM> > VOpt;
#endif

#if MC_HH
// header node held by pointer in a pool inside the arena
struct HPool { uint64_t used[2]; RawNode slot[96]; };
static HPool* hpool();
struct AHolder {
  typedef RawNT node_traits; typedef RawNT::node node; typedef RawNT::node_ptr node_ptr; typedef RawNT::const_node_ptr const_node_ptr;
  struct Slot { node n; };
  node* p;
  AHolder() { for (int i = 0; i < 96; ++i) if (!(hpool()->used[i / 64] >> (i % 64) & 1)) { hpool()->used[i / 64] |= 1ull << (i % 64); p = &hpool()->slot[i]; return; } abort(); }
  AHolder(const AHolder&) = delete; AHolder& operator=(const AHolder&) = delete;
  ~AHolder() { int i = (int)(p - hpool()->slot); hpool()->used[i / 64] &= ~(1ull << (i % 64)); memset((void*)p, 0x77, sizeof *p); }
  const_node_ptr get_node() const { return bi::pointer_traits<const_node_ptr>::pointer_to(*p); }
  node_ptr get_node() { return bi::pointer_traits<node_ptr>::pointer_to(*p); }
};
#define HHOPT , bi::header_holder_type<AHolder>
#else
#define HHOPT
#endif

#if MC_SLIST
typedef bi::slist<Elem, VOpt, bi::constant_time_size<MC_CTS != 0>, bi::size_type<MC_SIZET>, bi::linear<MC_LINEAR != 0>, bi::cache_last<MC_CACHE != 0> HHOPT> C;
#else
typedef bi::list<Elem, VOpt, bi::constant_time_size<MC_CTS != 0>, bi::size_type<MC_SIZET> HHOPT> C;
#endif
#if MC_HOOK == 3
#define CARGS (SVT(W()->el(0), W()->nodes))
#else
#define CARGS
#endif

using mc::Op; using mc::mk; using mc::strf;
struct Seq {
  uint8_t n; uint8_t v[2 * N];
  void ins(int p, int x) { memmove(v + p + 1, v + p, n - p); v[p] = (uint8_t)x; ++n; }
  int del(int p) { int x = v[p]; memmove(v + p, v + p + 1, n - p - 1); --n; v[n] = 0; return x; }
  int find(int x) const { for (int i = 0; i < n; ++i) if (v[i] == x) return i; return -1; }
  std::vector<int> vec() const { return std::vector<int>(v, v + n); }
  void set(const std::vector<int>& w) { memset(v, 0, sizeof v); n = (uint8_t)w.size(); for (int i = 0; i < n; ++i) v[i] = (uint8_t)w[i]; }
};
struct Model { Seq s[2]; };
struct alignas(16) World {
  uint64_t g0; alignas(8) char c[2][(sizeof(C) + 15) / 8 * 8]; uint64_t g1;
#if MC_HOOK == 3
  RawNode nodes[N + CL]; uint64_t g2;
#endif
#if MC_HH
  HPool hp; uint64_t g3;
#endif
  alignas(16) char e[N + CL][(sizeof(Elem) + 15) / 16 * 16];
  Model m;
  C& cont(int i) { return *reinterpret_cast<C*>(c[i]); }
  Elem* el(int i) { return reinterpret_cast<Elem*>(e[i]); }
};
static inline World* W() { return reinterpret_cast<World*>(mc::g_arena); }
#if MC_HH
static HPool* hpool() { return &W()->hp; }
#endif
static char g_fresh[N + CL][sizeof(((World*)0)->e[0])];
static char g_freshnode[sizeof(RawNode)];

// a free element is destroyed and rebuilt from patterned memory, so that nobody can rely on its old contents
static void fresh_elem(int i, int key) {
  char* p = W()->e[i]; memset(p, mc::g_fill, sizeof W()->e[i]);
#if MC_HOOK == 3
  memset((void*)&W()->nodes[i], mc::g_fill, sizeof(RawNode));
#if MC_LINK == 1
  RawAlgo::init(bi::pointer_traits<RawNT::node_ptr>::pointer_to(W()->nodes[i]));
#endif
#endif
  new (p) Elem(key, i);
}
static bool is_fresh(int i) {
  bool ok = !memcmp(W()->e[i], g_fresh[i], sizeof W()->e[i]);
#if MC_HOOK == 3 && MC_PTR == 0
  ok = ok && !memcmp((void*)&W()->nodes[i], g_freshnode, sizeof(RawNode));
#endif
  return ok;
}
static bool linked(int i) {
#if MC_LINK != 0 && MC_HOOK == 0
  return static_cast<BaseH*>(W()->el(i))->is_linked();
#elif MC_LINK != 0 && MC_HOOK == 1
  return W()->el(i)->hook.is_linked();
#elif MC_LINK != 0 && MC_HOOK == 2
  return W()->el(i)->in.hook.is_linked();
#else
  (void)i; return false;
#endif
}
static void destroy_elem(int i) { W()->el(i)->~Elem(); }

struct DerefIt {   // forward iterator over ids yielding Elem&
  const int* p; typedef std::forward_iterator_tag iterator_category; typedef Elem value_type; typedef Elem& reference; typedef Elem* pointer; typedef std::ptrdiff_t difference_type;
  Elem& operator*() const { return *W()->el(*p); } DerefIt& operator++() { ++p; return *this; } DerefIt operator++(int) { DerefIt t = *this; ++p; return t; }
  bool operator==(const DerefIt& o) const { return p == o.p; } bool operator!=(const DerefIt& o) const { return p != o.p; }
};

// disposers record, verify the element is already unlinked, and then destroy it or move it elsewhere
static int g_disposed[64], g_nd, g_dmode, g_dlinked, g_dnull; static C* g_dtarget;
static int rid(const Elem* e) { for (int i = 0; i < N + CL; ++i) if (W()->el(i) == e) return i; return -1; }
static void do_dispose(Elem* e) {
  int i = rid(e); if (i < 0) { ++g_dnull; return; }
  if (HAS_LINKED && linked(i)) ++g_dlinked;
  if (g_nd < 64) g_disposed[g_nd++] = i;
  if (g_dmode == 0) { int k = e->key; if (!(HAS_LINKED && linked(i))) { destroy_elem(i); fresh_elem(i, k); } }
  else if (!(HAS_LINKED && linked(i))) { int k = e->key; destroy_elem(i); fresh_elem(i, k); g_dtarget->push_front(*W()->el(i)); }
}
struct Disposer {
  typedef C::pointer pointer;
  void operator()(pointer p) const { do_dispose(boost::movelib::to_raw_pointer(p)); }
};
static void dispose_begin(int mode, C* target) { g_nd = g_dlinked = g_dnull = 0; g_dmode = mode; g_dtarget = target; }

struct PosPred { // selects elements by id mask
  uint32_t mask; bool operator()(const Elem& e) const { fcall(); return mask >> e.id & 1; }
};
struct KeyPred { int k; bool operator()(const Elem& e) const { fcall(); return e.key == k; } };

static int g_clone_next, g_clone_calls, g_clone_throw, g_clone_seq[64]; static bool g_clone_mut;
struct Cloner {
  C::pointer operator()(const Elem& e) const {
    if (g_clone_calls == g_clone_throw) throw mc::UserThrow{2};
    g_clone_seq[g_clone_calls++] = e.id;
    int i = N + g_clone_next++; W()->el(i)->key = e.key;
    return bi::pointer_traits<C::pointer>::pointer_to(*W()->el(i));
  }
};
struct ClonerMut { C::pointer operator()(Elem& e) const { g_clone_mut = true; return Cloner()(e); } };

enum { PUSH_BACK = 1, PUSH_FRONT, POP_BACK, POP_FRONT, POP_BACK_D, POP_FRONT_D, INSERT, INSERT_RANGE, ERASE, ERASE_IT, ERASE_RANGE, ERASE_RANGE_N, ERASE_D, ERASE_D_IT, ERASE_RANGE_D,
  CLEAR, CLEAR_D, ASSIGN, DASSIGN, SPLICE_ALL, SPLICE_ONE, SPLICE_RANGE, SPLICE_RANGE_N, SHIFT_F, SHIFT_B, SORT, SORT_P, MERGE, MERGE_P, REVERSE, REMOVE, REMOVE_OWN, REMOVE_D, REMOVE_IF, REMOVE_IF_D,
  UNIQUE, UNIQUE_P, UNIQUE_D, UNIQUE_PD, SWAP, SWAP_FREE, SWAP_SELF, MOVE_CTOR, MOVE_ASSIGN, MOVE_ASSIGN_EMPTY, CLONE, CLONE_RV, CTOR_RANGE, UNLINK, DESTROY_AUTO, MISUSE_PUSH, MISUSE_DESTROY, SWAP_NODES, DTOR_CONT, RELOC,
  INSERT_AFTER, INSERT_RANGE_AFTER, ERASE_AFTER, ERASE_RANGE_AFTER, ERASE_RANGE_AFTER_N, ERASE_AFTER_D, ERASE_RANGE_AFTER_D, SPLICE_AFTER_ALL, SPLICE_AFTER_ALL_L, SPLICE_AFTER_ONE, SPLICE_AFTER_RANGE, SPLICE_AFTER_RANGE_N, MERGE_L, COPY_HOOK,
  T_SORT, T_SORT_P, T_MERGE, T_MERGE_P, T_REMOVE, T_REMOVE_IF, T_REMOVE_IF_D, T_UNIQUE, T_UNIQUE_PD, S_INSERT_AFTER, S_ERASE_AFTER_D, MISUSE_INSERT, INCORPORATE, OP_MAX };
static const char* OPN[] = {"?","push_back","push_front","pop_back","pop_front","pop_back_and_dispose","pop_front_and_dispose","insert","insert_range","erase","erase_it","erase_range","erase_range_n","erase_and_dispose","erase_and_dispose_it","erase_and_dispose_range",
  "clear","clear_and_dispose","assign","dispose_and_assign","splice_all","splice_one","splice_range","splice_range_n","shift_forward","shift_backwards","sort","sort_pred","merge","merge_pred","reverse","remove","remove_own","remove_and_dispose","remove_if","remove_and_dispose_if",
  "unique","unique_pred","unique_and_dispose","unique_and_dispose_pred","swap","swap_free","swap_self","move_ctor","move_assign","move_assign_from_temp","clone_from","clone_from_rv","ctor_range","hook_unlink","destroy_linked_auto","misuse_push_linked","misuse_destroy_linked","hook_swap_nodes","container_dtor","relocate",
  "insert_after","insert_after_range","erase_after","erase_after_range","erase_after_range_n","erase_after_and_dispose","erase_after_and_dispose_range","splice_after_all","splice_after_all_l","splice_after_one","splice_after_range","splice_after_range_n","merge_l","copy_assign_element",
  "throwing_sort","throwing_sort_pred","throwing_merge","throwing_merge_pred","throwing_remove","throwing_remove_if","throwing_remove_and_dispose_if","throwing_unique","throwing_unique_and_dispose","s_insert_after","s_erase_after_and_dispose","misuse_insert_linked","incorporate_after"};

#define CATCH_ORDER "order"
struct Sys {
  static size_t image_size() { return sizeof(World); }
  int variants() { return 1; }
  void restored() { g_throw_at = -1; }
  const char* opcat(const Op& o) {
    switch (o.k) {
    case POP_BACK_D: case POP_FRONT_D: case ERASE_D: case ERASE_D_IT: case ERASE_RANGE_D: case CLEAR_D: case DASSIGN: case REMOVE_D: case REMOVE_IF_D: case UNIQUE_D: case UNIQUE_PD: case ERASE_AFTER_D: case ERASE_RANGE_AFTER_D: case S_ERASE_AFTER_D: return "disposer";
    case SWAP: case SWAP_FREE: case SWAP_SELF: case MOVE_CTOR: case MOVE_ASSIGN: case MOVE_ASSIGN_EMPTY: return "swap";
    case CLONE: case CLONE_RV: return "clone";
    case UNLINK: case DESTROY_AUTO: return "auto";
    case RELOC: return "reloc";
    }
    return o.k >= T_SORT && o.k <= T_UNIQUE_PD ? "throw" : "";
  }
  std::string name(const Op& o) { return strf("%s(c%d %d %d %d %d)", OPN[o.k], o.a[0], o.a[1], o.a[2], o.a[3], o.a[4]); }
  Model& m() { return W()->m; }
  C& c(int i) { return W()->cont(i); }
  Elem& e(int i) { return *W()->el(i); }
  int key(int i) { return W()->el(i)->key; }

  void init(int) {
    memset(mc::g_arena, mc::g_fill, sizeof(World));
    W()->g0 = W()->g1 = 0x1122334455667788ull;
#if MC_HOOK == 3
    W()->g2 = 0x1122334455667788ull;
#endif
#if MC_HH
    W()->hp.used[0] = W()->hp.used[1] = 0; memset((void*)W()->hp.slot, 0x77, sizeof W()->hp.slot); W()->g3 = 0x1122334455667788ull;
#endif
    for (int i = 0; i < N + CL; ++i) { fresh_elem(i, i < N ? KEYTAB[i] : 0); memcpy(g_fresh[i], W()->e[i], sizeof g_fresh[i]); }
#if MC_HOOK == 3
    memcpy(g_freshnode, (void*)&W()->nodes[0], sizeof g_freshnode);
#endif
    for (int i = 0; i < 2; ++i) new (W()->c[i]) C CARGS;
    memset((void*)&W()->m, 0, sizeof(Model));
    g_throw_at = -1;
  }
  std::vector<int> free_ids() {
    std::vector<int> f; bool used[N] = {0};
    for (int c = 0; c < 2; ++c) for (int i = 0; i < m().s[c].n; ++i) used[m().s[c].v[i]] = true;
    for (int i = 0; i < N; ++i) if (!used[i]) f.push_back(i);
    return f;
  }
  int free_with_key(int k) { for (int i : free_ids()) if (KEYTAB[i] == k) return i; return -1; }
  std::vector<int> free_keys() { std::vector<int> r; for (int i : free_ids()) { bool s = false; for (int k : r) s |= k == KEYTAB[i]; if (!s) r.push_back(KEYTAB[i]); } return r; }
  bool sorted(int c, int mode) { for (int i = 1; i < m().s[c].n; ++i) { int a = key(m().s[c].v[i - 1]), b = key(m().s[c].v[i]); if (mode == 0 ? b < a : mode == 1 ? b > a : b / 2 < a / 2) return false; } return true; }

  // canonical key ------------------------------------------------------------------------------
  std::string canon() {
    mc::Canon k; k.selfrel = MC_PTR == 1;
    std::vector<int> order;
    for (int c = 0; c < 2; ++c) for (int i = 0; i < m().s[c].n; ++i) order.push_back(m().s[c].v[i]);
    std::string pre; pre += (char)m().s[0].n; pre += (char)m().s[1].n;
    for (int i : order) pre += (char)key(i);
    for (int c = 0; c < 2; ++c) { k.obj(W()->c[c], sizeof W()->c[c]); k.range(W()->c[c], sizeof(C) / 8 * 8); if (sizeof(C) % 8) k.range(W()->c[c] + sizeof(C) / 8 * 8, sizeof(C) % 8); }
#if MC_HH
    for (int i = 0; i < 96; ++i) if (hpool()->used[i / 64] >> (i % 64) & 1) { k.obj(&hpool()->slot[i], sizeof(RawNode)); k.range(&hpool()->slot[i], sizeof(RawNode)); }
#endif
    for (int i : order) {
#if MC_HOOK == 3
      k.obj(&W()->nodes[i], sizeof(RawNode)); k.range(&W()->nodes[i], sizeof(RawNode));
#else
      k.obj(W()->e[i], sizeof W()->e[i]);
      k.range(W()->e[i], (const char*)&e(i).key - W()->e[i]);
#endif
    }
    // free elements are in their fresh state (checked), they contribute nothing
    return pre + k.key();
  }

  // full observation ---------------------------------------------------------------------------
  template<class It> void same_elem(It it, int id, const char* what) { REQ("order", &*it == W()->el(id), "%s designates element %d, expected %d", what, rid(&*it), id); }
  void check_cont(int ci, C& x, const Seq& s) {
    mc::Hard hard; const C& cx = x; int i = 0;
    SUB
    for (C::iterator it = x.begin(); it != x.end(); ++it, ++i) { REQ("order", i < s.n, "c%d iterates past its %d elements", ci, (int)s.n); same_elem(it, s.v[i], "forward iteration"); }
    REQ("order", i == s.n, "c%d: forward iteration gave %d of %d", ci, i, (int)s.n);
    i = 0; for (C::const_iterator it = cx.begin(); it != cx.end(); it++, ++i) { REQ("order", i < s.n, "const iteration too long"); same_elem(it, s.v[i], "const iteration"); }
    REQ("order", i == s.n, "const iteration short"); 
    i = 0; for (C::const_iterator it = x.cbegin(); it != x.cend(); ++it, ++i) if (i >= s.n) break; REQ("order", i == s.n, "cbegin/cend");
    END_SUB
    REQS("size", x.empty() == (s.n == 0), "c%d empty()", ci);
    REQS("size", (size_t)x.size() == s.n, "c%d size()=%zu expected %d", ci, (size_t)x.size(), (int)s.n);
    SUB
    if (s.n) { REQ("order", &x.front() == W()->el(s.v[0]) && &cx.front() == W()->el(s.v[0]), "front"); }
#if !MC_SLIST
    if (s.n) { REQ("order", &x.back() == W()->el(s.v[s.n - 1]) && &cx.back() == W()->el(s.v[s.n - 1]), "back"); }
    i = s.n; for (C::reverse_iterator it = x.rbegin(); it != x.rend(); ++it) { REQ("order", i > 0, "reverse too long"); same_elem(it, s.v[--i], "reverse"); } REQ("order", i == 0, "reverse short");
    i = s.n; for (C::const_reverse_iterator it = cx.rbegin(); it != cx.rend(); ++it) { REQ("order", i > 0, "reverse too long"); same_elem(it, s.v[--i], "const reverse"); } REQ("order", i == 0, "reverse short");
    i = s.n; for (C::const_reverse_iterator it = x.crbegin(); it != x.crend(); it++) { REQ("order", i > 0, "reverse too long"); --i; } REQ("order", i == 0, "crbegin");
    i = s.n; for (C::iterator it = x.end(); it != x.begin();) { --it; REQ("order", i > 0, "backward too long"); same_elem(it, s.v[--i], "backward"); } REQ("order", i == 0, "backward short");
    i = s.n; for (C::const_iterator it = cx.end(); it != cx.begin();) { C::const_iterator o = it--; REQ("order", i > 0, "backward too long"); same_elem(it, s.v[--i], "backward"); C::const_iterator q = it; REQ("iter", ++q == o, "-- then ++"); }
    x.check();
#else
    x.check();
    { C::iterator b = x.before_begin(); REQ("iter", b == x.before_begin() && x.cbefore_begin() == cx.before_begin(), "before_begin"); ++b; REQ("iter", b == x.begin(), "++before_begin"); }
    { C::const_iterator prev = x.cbefore_begin(); C::const_iterator it = cx.begin(); for (i = 0; i <= s.n; ++i) {
        REQ("order", cx.previous(it) == prev, "previous(%d) (const)", i); REQ("order", cx.previous(cx.before_begin(), it) == prev, "previous(before_begin,%d)", i); REQ("order", cx.previous(prev, it) == prev, "previous(prev,%d)", i);
        REQ("order", x.previous(it.unconst()) == prev.unconst(), "previous(iterator)"); REQ("order", x.previous(x.cbefore_begin(), it.unconst()) == prev.unconst(), "previous(p,iterator)");
        if (i < s.n) { prev = it; ++it; } } }
#if MC_CACHE
    if (s.n) { REQ("order", &x.back() == W()->el(s.v[s.n - 1]) && &cx.back() == W()->el(s.v[s.n - 1]), "back"); same_elem(x.last(), s.v[s.n - 1], "last"); same_elem(cx.last(), s.v[s.n - 1], "clast"); REQ("order", x.clast() == cx.last(), "clast"); }
    else { REQ("order", x.last() == x.before_begin() && x.clast() == x.cbefore_begin(), "last() of an empty list is before_begin()"); }
#endif
#endif
    END_SUB
    SUB
#if MC_HOOK != 3 && !MC_HH && !(MC_SLIST && MC_LINEAR)
    REQ("iter", &C::container_from_end_iterator(x.end()) == &x, "container_from_end_iterator"); REQ("iter", &C::container_from_end_iterator(cx.end()) == &x, "const container_from_end_iterator");
#endif
#if MC_HOOK == 3 && !MC_HH && !(MC_SLIST && MC_LINEAR)
    REQ("iter", &C::container_from_end_iterator(x.end()) == &x, "container_from_end_iterator");
#endif
    C::iterator it = x.begin();
    for (i = 0; i < s.n; ++i, ++it) {
      Elem& el = e(s.v[i]);
      REQ("iter", x.iterator_to(el) == it && cx.iterator_to((const Elem&)el) == C::const_iterator(it), "iterator_to(%d)", s.v[i]);
#if MC_HOOK != 3
      REQ("iter", C::s_iterator_to(el) == it && C::s_iterator_to((const Elem&)el) == C::const_iterator(it), "s_iterator_to(%d)", s.v[i]);
#endif
      REQ("iter", boost::movelib::to_raw_pointer(it.operator->()) == &el, "operator->");
      if (HAS_LINKED && !linked(s.v[i]) && !(MC_SLIST && MC_LINEAR && i == s.n - 1 && mc::known("slist-linear-safe-link-last"))) REQS("linked", false, "element %d (position %d of %d) in c%d is_linked()==false", s.v[i], i, (int)s.n, ci);
    }
    END_SUB
  }
  void check() {
    for (int k = 0; k < 2; ++k) check_cont(k, c(k), m().s[k]);
    REQS("bytes", W()->g0 == 0x1122334455667788ull && W()->g1 == 0x1122334455667788ull, "guard words");
    for (int k = 0; k < 2; ++k) for (int i = 0; i < m().s[k].n; ++i) { Elem& x = e(m().s[k].v[i]); REQS("bytes", x.can1 == CAN1 && x.can2 == CAN2 && x.id == m().s[k].v[i] && x.key == KEYTAB[x.id], "bytes of element %d outside the hook changed", m().s[k].v[i]); }
    for (int i : free_ids()) if (HAS_LINKED) REQS("linked", !linked(i), "removed element %d still is_linked()", i);
    // relational operators
    { int r = 0; const Seq &a = m().s[0], &b = m().s[1]; int i = 0; for (; i < a.n && i < b.n; ++i) { int x = key(a.v[i]), y = key(b.v[i]); if (x != y) { r = x < y ? -1 : 1; break; } } if (!r) r = a.n < b.n ? -1 : a.n > b.n ? 1 : 0;
      const C &x = c(0), &y = c(1);
      REQS("rel", (x == y) == (r == 0) && (y == x) == (r == 0) && (x != y) == (r != 0) && (x < y) == (r < 0) && (x > y) == (r > 0) && (x <= y) == (r <= 0) && (x >= y) == (r >= 0) && (y < x) == (r > 0) && x == x && !(x < x) && x <= x, "relational operators, expected %d", r); }
    // iterator value semantics
    SUB
    for (int q = 0; q < 2; ++q) if (m().s[q].n) { C::iterator az; az = c(q).begin(); same_elem(az, m().s[q].v[0], "assigned iterator"); C::const_iterator ac; ac = c(q).cbegin(); same_elem(ac, m().s[q].v[0], "assigned const_iterator"); ac = az; same_elem(ac, m().s[q].v[0], "const_iterator assigned from iterator"); }
    { C::iterator z = C::iterator(), z2 = C::iterator(); REQ("iter", z == z2, "value initialised iterators"); C::const_iterator cz = C::const_iterator(), cz2 = C::const_iterator(); REQ("iter", cz == cz2, "value initialised const iterators"); C::const_iterator conv(c(0).begin()); REQ("iter", conv == c(0).cbegin() && conv.unconst() == c(0).begin(), "conversion"); }
    END_SUB
  }
  // after the transition: free elements must not have been touched since their disposal; others are recycled
  void recycle(bool disposed_only_fresh = false) {
    for (int i : free_ids()) {
      if (HAS_LINKED) REQ("linked", !linked(i), "removed element %d still is_linked()", i);
      if (disposed_only_fresh) { bool d = false; for (int j = 0; j < g_nd; ++j) d |= g_disposed[j] == i; if (d) REQ("disposer", is_fresh(i), "disposed element %d was written after its disposal", i); }
      destroy_elem(i); fresh_elem(i, KEYTAB[i]);
    }
    for (int i = N; i < N + CL; ++i) { destroy_elem(i); fresh_elem(i, 0); }
  }
  void disposed_is(std::vector<int> exp, const char* what) {
    std::vector<int> got(g_disposed, g_disposed + g_nd); std::vector<int> g = got; std::sort(g.begin(), g.end()); std::sort(exp.begin(), exp.end());
    std::string gs; for (int x : got) gs += strf(" %d", x);
    REQ("disposer", g == exp, "%s disposed%s, expected %zu elements", what, gs.c_str(), exp.size());
    REQ("disposer", g_dlinked == 0 && g_dnull == 0, "%s: disposer called with a still linked or foreign element", what);
  }
  void move_disposed(int o) { for (int i = 0; i < g_nd; ++i) m().s[o].ins(0, g_disposed[i]); }

  C::iterator it(int k, int p) { C::iterator i = c(k).begin(); while (p-- > 0) ++i; return i; }
  C::const_iterator cit(int k, int p) { C::const_iterator i = c(k).cbegin(); while (p-- > 0) ++i; return i; }
#if MC_SLIST
  C::const_iterator bit(int k, int p) { C::const_iterator i = c(k).cbefore_begin(); while (p-- > 0) ++i; return i; }  // 0: before_begin
#endif
  void it_at(C::iterator i, int k, int p, const char* what) { REQ("ret", i == it(k, p), "%s returned the wrong iterator (expected position %d)", what, p); }

  void ops(std::vector<Op>& v) {
    std::vector<int> fk = free_keys(), fr = free_ids();
    for (int k = 0; k < 2; ++k) {
      int n = m().s[k].n, o = 1 - k, n2 = m().s[o].n;
      if (GROUPS & G_SEQ) {
        for (int f : fk) { if (!MC_SLIST || MC_CACHE) v.push_back(mk(PUSH_BACK, k, f)); v.push_back(mk(PUSH_FRONT, k, f)); }
        if (n) { if (!MC_SLIST) v.push_back(mk(POP_BACK, k)); v.push_back(mk(POP_FRONT, k)); }
        for (int f : fk) for (int p = 0; p <= n; ++p) { v.push_back(mk(INSERT, k, p, f)); if (MC_SLIST) { v.push_back(mk(INSERT_AFTER, k, p, f)); if (!MC_CTS && !MC_CACHE && MC_HOOK != 3) v.push_back(mk(S_INSERT_AFTER, k, p, f)); } }
        for (int p = 0; p < n; ++p) { v.push_back(mk(ERASE, k, p)); v.push_back(mk(ERASE_IT, k, p)); if (MC_SLIST) v.push_back(mk(ERASE_AFTER, k, p)); }
        v.push_back(mk(CLEAR, k)); 
      }
      if (GROUPS & G_DISPOSE) for (int mode = 0; mode < 2; ++mode) {
        if (n) { if (!MC_SLIST) v.push_back(mk(POP_BACK_D, k, mode)); v.push_back(mk(POP_FRONT_D, k, mode)); }
        for (int p = 0; p < n; ++p) { v.push_back(mk(ERASE_D, k, p, 0, mode)); v.push_back(mk(ERASE_D_IT, k, p, 0, mode)); if (MC_SLIST) { v.push_back(mk(ERASE_AFTER_D, k, p, 0, mode)); if (!MC_CTS && !MC_CACHE && MC_HOOK != 3) v.push_back(mk(S_ERASE_AFTER_D, k, p, 0, mode)); } }
        for (int a = 0; a <= n; ++a) for (int b = a; b <= n; ++b) { v.push_back(mk(ERASE_RANGE_D, k, a, b, mode)); if (MC_SLIST) v.push_back(mk(ERASE_RANGE_AFTER_D, k, a, b, mode)); }
        v.push_back(mk(CLEAR_D, k, mode));
        if (mode == 0 || 1) { v.push_back(mk(DASSIGN, k, (int)std::min<size_t>(2, fr.size()), 0, mode)); }
        for (int q = 0; q < 3; ++q) v.push_back(mk(REMOVE_D, k, q, 0, mode));
        for (int q = 0; q < (1 << n); ++q) v.push_back(mk(REMOVE_IF_D, k, q, 0, mode));
        v.push_back(mk(UNIQUE_D, k, 0, 0, mode)); v.push_back(mk(UNIQUE_PD, k, 0, 0, mode));
      }
      if (GROUPS & G_RANGE) {
        for (int p = 0; p <= n; ++p) for (int q = 0; q <= 3 && q <= (int)fr.size(); ++q) { v.push_back(mk(INSERT_RANGE, k, p, q)); if (MC_SLIST) v.push_back(mk(INSERT_RANGE_AFTER, k, p, q)); if (MC_SLIST && q) for (int w = 0; w < 2; ++w) v.push_back(mk(INCORPORATE, k, p, q, w)); }
        for (int a = 0; a <= n; ++a) for (int b = a; b <= n; ++b) { v.push_back(mk(ERASE_RANGE, k, a, b)); v.push_back(mk(ERASE_RANGE_N, k, a, b)); if (MC_SLIST) { v.push_back(mk(ERASE_RANGE_AFTER, k, a, b)); v.push_back(mk(ERASE_RANGE_AFTER_N, k, a, b)); } }
        for (int q = 0; q <= 3 && q <= (int)fr.size(); ++q) v.push_back(mk(ASSIGN, k, q));
        for (int q = 0; q <= 3 && q <= (int)fr.size(); ++q) v.push_back(mk(CTOR_RANGE, 0, q));
      }
      if (GROUPS & G_SPLICE) {
        for (int p = 0; p <= n; ++p) {
          v.push_back(mk(SPLICE_ALL, k, p)); if (MC_SLIST) { v.push_back(mk(SPLICE_ALL, k, p, 1)); v.push_back(mk(SPLICE_AFTER_ALL, k, p)); v.push_back(mk(SPLICE_AFTER_ALL_L, k, p)); }
          for (int i = 0; i < n2; ++i) { v.push_back(mk(SPLICE_ONE, k, p, i, o)); if (MC_SLIST) v.push_back(mk(SPLICE_AFTER_ONE, k, p, i, o)); }
          for (int i = 0; i < n; ++i) { if (!MC_SLIST) v.push_back(mk(SPLICE_ONE, k, p, i, k)); else { v.push_back(mk(SPLICE_ONE, k, p, i, k)); v.push_back(mk(SPLICE_AFTER_ONE, k, p, i, k)); } }
          for (int src = 0; src < 2; ++src) { int x = src ? k : o, nx = m().s[x].n;
            for (int a = 0; a <= nx; ++a) for (int b = a; b <= nx; ++b) {
              if (src && p > a && p < b) continue;
              v.push_back(mk(SPLICE_RANGE, k, p, a, b, x)); v.push_back(mk(SPLICE_RANGE_N, k, p, a, b, x));
              if (MC_SLIST) { v.push_back(mk(SPLICE_AFTER_RANGE, k, p, a, b, x)); v.push_back(mk(SPLICE_AFTER_RANGE_N, k, p, a, b, x)); } } }
        }
      }
      if (GROUPS & G_ALG) {
        for (int q = 0; q <= 2 * n + 1; ++q) { v.push_back(mk(SHIFT_F, k, q)); v.push_back(mk(SHIFT_B, k, q)); }
        v.push_back(mk(SORT, k)); v.push_back(mk(SORT_P, k, 1)); v.push_back(mk(SORT_P, k, 2)); v.push_back(mk(REVERSE, k));
        if (sorted(k, 0) && sorted(o, 0)) { v.push_back(mk(MERGE, k)); if (MC_SLIST) v.push_back(mk(MERGE_L, k)); }
        if (sorted(k, 1) && sorted(o, 1)) v.push_back(mk(MERGE_P, k, 1));
        if (sorted(k, 2) && sorted(o, 2)) v.push_back(mk(MERGE_P, k, 2));
        for (int q = 0; q < 4; ++q) v.push_back(mk(REMOVE, k, q));
        for (int p = 0; p < n; ++p) v.push_back(mk(REMOVE_OWN, k, p));
        for (int q = 0; q < (1 << n); ++q) v.push_back(mk(REMOVE_IF, k, q));
        v.push_back(mk(UNIQUE, k)); v.push_back(mk(UNIQUE_P, k));
      }
      if (GROUPS & G_SWAP) { v.push_back(mk(SWAP, k)); v.push_back(mk(SWAP_FREE, k)); v.push_back(mk(SWAP_SELF, k)); v.push_back(mk(MOVE_CTOR, k)); v.push_back(mk(MOVE_ASSIGN, k)); v.push_back(mk(MOVE_ASSIGN_EMPTY, k)); v.push_back(mk(DTOR_CONT, k)); }
      if ((GROUPS & G_CLONE) && (MC_HOOK != 3 || 1)) { for (int t = 0; t <= n2; ++t) { v.push_back(mk(CLONE, k, t)); v.push_back(mk(CLONE_RV, k, t)); } }
      if ((GROUPS & G_MISUSE) && MC_LINK == 1) { for (int p = 0; p < n; ++p) { v.push_back(mk(MISUSE_PUSH, k, p, 0)); v.push_back(mk(MISUSE_PUSH, k, p, 1)); v.push_back(mk(MISUSE_PUSH, k, p, 2)); if (HAS_LINKED) v.push_back(mk(MISUSE_DESTROY, k, p)); v.push_back(mk(MISUSE_INSERT, k, p, 0)); v.push_back(mk(MISUSE_INSERT, k, p, 1)); v.push_back(mk(MISUSE_INSERT, k, p, 2)); v.push_back(mk(MISUSE_INSERT, k, p, 3)); } }
      if ((GROUPS & G_AUTO) && MC_LINK == 2 && HAS_LINKED) for (int p = 0; p < n; ++p) { v.push_back(mk(UNLINK, k, p)); v.push_back(mk(DESTROY_AUTO, k, p)); }
      if ((GROUPS & G_AUTO) && HAS_LINKED) for (int p = 0; p < n; ++p) v.push_back(mk(COPY_HOOK, k, p));
      if ((GROUPS & G_THROW)) {
        for (int t = 0; t <= 14; ++t) {
          if (n > 1) { v.push_back(mk(T_SORT, k, t)); v.push_back(mk(T_SORT_P, k, t)); }
          if (t <= n + n2 && n && n2) { if (sorted(k, 0) && sorted(o, 0)) v.push_back(mk(T_MERGE, k, t)); if (sorted(k, 1) && sorted(o, 1)) v.push_back(mk(T_MERGE_P, k, t)); }
          if (t < n) { for (int q = 0; q < (1 << n); ++q) { v.push_back(mk(T_REMOVE_IF, k, t, q)); v.push_back(mk(T_REMOVE_IF_D, k, t, q)); } v.push_back(mk(T_UNIQUE, k, t)); v.push_back(mk(T_UNIQUE_PD, k, t)); }
        }
      }
    }
    if ((GROUPS & G_AUTO) && MC_LINK == 2 && HAS_LINKED) { for (int i : fr) { v.push_back(mk(UNLINK, 2, i)); v.push_back(mk(DESTROY_AUTO, 2, i)); } }
    if ((GROUPS & G_SWAPNODES) && MC_LINK != 0 && MC_HOOK <= 1 && !(MC_SLIST && (MC_LINEAR || MC_CACHE))) {
      std::vector<std::pair<int, int> > pos; for (int k = 0; k < 2; ++k) for (int p = 0; p < m().s[k].n; ++p) pos.push_back(std::make_pair(k, p)); if (!fr.empty()) pos.push_back(std::make_pair(2, fr[0])); if (fr.size() > 1) pos.push_back(std::make_pair(2, fr[1]));
      for (auto& a : pos) for (auto& b : pos) { if (a == b) continue; if (MC_SLIST == 1 && a == b) continue; v.push_back(mk(SWAP_NODES, a.first, a.second, b.first, b.second)); }
    }
    if ((GROUPS & G_RELOC) && MC_PTR == 1 && MC_HOOK != 3 && !MC_HH) v.push_back(mk(RELOC, 0));
  }

  // post-throw: read the structure actually left behind, require it to be consistent, and adopt it as the model
  void adopt(bool may_lose) {
    bool seen[N] = {0}; Seq ns[2]; memset((void*)ns, 0, sizeof ns);
    for (int k = 0; k < 2; ++k) {
      for (C::iterator i = c(k).begin(); i != c(k).end(); ++i) {
        int id = rid(&*i); REQ("throw", id >= 0 && id < N, "foreign element in c%d after a throw", k); REQ("throw", !seen[id], "element %d reached twice after a throw", id); seen[id] = true;
        bool was = m().s[0].find(id) >= 0 || m().s[1].find(id) >= 0; REQ("throw", was, "element %d appeared after a throw", id);
        ns[k].ins(ns[k].n, id);
      }
      REQ("throw", (size_t)c(k).size() == ns[k].n, "size() %zu after a throw, %d elements", (size_t)c(k).size(), (int)ns[k].n);
    }
    int before = m().s[0].n + m().s[1].n, after = ns[0].n + ns[1].n;
    if (!may_lose) REQ("throw", before == after, "a throwing functor lost elements: %d before, %d after", before, after);
    if (HAS_LINKED) for (int i = 0; i < N; ++i) if (!(MC_SLIST && MC_LINEAR && seen[i] && (i == ns[0].v[ns[0].n - 1] || i == ns[1].v[ns[1].n - 1]))) REQ("throw", linked(i) == seen[i], "is_linked()==%d but membership %d of element %d after a throw", (int)linked(i), (int)seen[i], i);
    m().s[0] = ns[0]; m().s[1] = ns[1];
    try { check(); } catch (mc::Violation& v) { v.cat = "throw"; throw; }
  }
  template<class F> bool throwing(int t, F f) {
    g_calls = 0; g_throw_at = t; bool thrown = false;
    try { f(); } catch (mc::UserThrow&) { thrown = true; }
    g_throw_at = -1; return thrown;
  }
  std::vector<int> pre_it_ids; std::vector<C::iterator> pre_its;

  bool step(const Op& op) {
    static std::vector<C::iterator> its; static std::vector<int> ids; its.clear(); ids.clear();
    for (int k = 0; k < 2; ++k) for (int p = 0; p < m().s[k].n; ++p) { ids.push_back(m().s[k].v[p]); its.push_back(it(k, p)); }
    g_nd = 0;
    bool keep = do_step(op);
    if (!keep) return false;
    // iterators taken before the operation still designate their elements and move along the current order
    if (MC_HOOK != 3 || (op.k != MOVE_CTOR && op.k != MOVE_ASSIGN_EMPTY && op.k != RELOC)) if (op.k != RELOC)
    for (size_t q = 0; q < ids.size(); ++q) for (int k = 0; k < 2; ++k) { int p = m().s[k].find(ids[q]); if (p < 0) continue;
      REQ("iter", &*its[q] == W()->el(ids[q]), "an old iterator to element %d designates another one", ids[q]); C::iterator nx = its[q]; ++nx;
      if (p + 1 < m().s[k].n) REQ("iter", &*nx == W()->el(m().s[k].v[p + 1]), "++ on an old iterator"); else REQ("iter", nx == c(k).end(), "++ on an old iterator to the last element");
#if !MC_SLIST
      C::iterator pv = its[q]; if (p) { --pv; REQ("iter", &*pv == W()->el(m().s[k].v[p - 1]), "-- on an old iterator"); }
#endif
    }
    recycle(g_nd > 0);
    return true;
  }
  bool do_step(const Op& op) {
    int k = op.a[0] & 1, o = 1 - k, a = op.a[1], b = op.a[2], cc = op.a[3], d = op.a[4];
    C& x = c(k); C& y = c(o); Seq& s = m().s[k]; Seq& t = m().s[o];
    switch (op.k) {
    case PUSH_BACK: {
#if !MC_SLIST || MC_CACHE
      int f = free_with_key(a); x.push_back(e(f)); s.ins(s.n, f);
#endif
      return true; }
    case PUSH_FRONT: { int f = free_with_key(a); x.push_front(e(f)); s.ins(0, f); return true; }
    case POP_BACK: {
#if !MC_SLIST
      x.pop_back(); s.del(s.n - 1);
#endif
      return true; }
    case POP_FRONT: x.pop_front(); s.del(0); return true;
    case POP_BACK_D: {
#if !MC_SLIST
      dispose_begin(a, &y); int id = s.v[s.n - 1]; x.pop_back_and_dispose(Disposer()); s.del(s.n - 1); disposed_is({id}, "pop_back_and_dispose"); if (a) move_disposed(o);
#endif
      return true; }
    case POP_FRONT_D: { dispose_begin(a, &y); int id = s.v[0]; x.pop_front_and_dispose(Disposer()); s.del(0); disposed_is({id}, "pop_front_and_dispose"); if (a) move_disposed(o); return true; }
    case INSERT: { int f = free_with_key(b); C::iterator r = x.insert(cit(k, a), e(f)); s.ins(a, f); it_at(r, k, a, "insert"); return true; }
    case INSERT_RANGE: { std::vector<int> fr = free_ids(); fr.resize(b); fr.push_back(0); DerefIt i0{fr.data()}, i1{fr.data() + b}; x.insert(cit(k, a), i0, i1); for (int i = 0; i < b; ++i) s.ins(a + i, fr[i]); return true; }
    case ERASE: { C::iterator r = x.erase(cit(k, a)); s.del(a); it_at(r, k, a, "erase"); return true; }
    case ERASE_IT: { C::iterator r = x.erase(it(k, a)); s.del(a); it_at(r, k, a, "erase"); return true; }
    case ERASE_RANGE: { C::iterator r = x.erase(cit(k, a), cit(k, b)); for (int i = a; i < b; ++i) s.del(a); it_at(r, k, a, "erase range"); return true; }
    case ERASE_RANGE_N: { C::iterator r = x.erase(cit(k, a), cit(k, b), (C::size_type)(b - a)); for (int i = a; i < b; ++i) s.del(a); it_at(r, k, a, "erase range n"); return true; }
    case ERASE_D: case ERASE_D_IT: { dispose_begin(cc, &y); int id = s.v[a]; C::iterator r = op.k == ERASE_D ? x.erase_and_dispose(cit(k, a), Disposer()) : x.erase_and_dispose(it(k, a), Disposer()); s.del(a); disposed_is({id}, "erase_and_dispose"); it_at(r, k, a, "erase_and_dispose"); if (cc) move_disposed(o); return true; }
    case ERASE_RANGE_D: { dispose_begin(cc, &y); std::vector<int> exp(s.v + a, s.v + b); C::iterator r = x.erase_and_dispose(cit(k, a), cit(k, b), Disposer()); for (int i = a; i < b; ++i) s.del(a); disposed_is(exp, "erase_and_dispose range"); it_at(r, k, a, "erase_and_dispose range"); if (cc) move_disposed(o); return true; }
    case CLEAR: x.clear(); s.set({}); return true;
    case CLEAR_D: { dispose_begin(a, &y); std::vector<int> exp = s.vec(); x.clear_and_dispose(Disposer()); s.set({}); disposed_is(exp, "clear_and_dispose"); if (a) move_disposed(o); return true; }
    case ASSIGN: { std::vector<int> fr = free_ids(); fr.resize(a); fr.push_back(0); x.assign(DerefIt{fr.data()}, DerefIt{fr.data() + a}); s.set(std::vector<int>(fr.begin(), fr.end() - 1)); return true; }
    case DASSIGN: { dispose_begin(cc, &y); std::vector<int> exp = s.vec(); std::vector<int> fr = free_ids(); fr.resize(a); fr.push_back(0); x.dispose_and_assign(Disposer(), DerefIt{fr.data()}, DerefIt{fr.data() + a}); s.set(std::vector<int>(fr.begin(), fr.end() - 1)); disposed_is(exp, "dispose_and_assign"); if (cc) move_disposed(o); return true; }
    case CTOR_RANGE: { std::vector<int> fr = free_ids(); fr.resize(a); fr.push_back(0); {
#if MC_HOOK == 3
        C tmp(DerefIt{fr.data()}, DerefIt{fr.data() + a}, SVT(W()->el(0), W()->nodes));
#else
        C tmp(DerefIt{fr.data()}, DerefIt{fr.data() + a});
#endif
        Seq q; q.set(std::vector<int>(fr.begin(), fr.end() - 1)); check_cont(9, tmp, q); }
      return true; }
    case SPLICE_ALL: { 
#if MC_SLIST
      if (b) { C::const_iterator l; C::const_iterator pv = bit(k, a); x.splice(cit(k, a), y, &l); C::const_iterator exp = t.n ? C::const_iterator(x.iterator_to(e(t.v[t.n - 1]))) : pv; REQ("ret", l == exp, "splice(it,x,&l)"); }
      else
#endif
      x.splice(cit(k, a), y); std::vector<int> w = t.vec(); t.set({}); for (size_t i = 0; i < w.size(); ++i) s.ins(a + (int)i, w[i]); return true; }
    case SPLICE_ONE: { Seq& src = m().s[cc]; 
      x.splice(cit(k, a), c(cc), cit(cc, b));
      if (cc != k) s.ins(a, src.del(b)); else { int id = src.v[b]; src.del(b); s.ins(a > b ? a - 1 : a, id); } return true; }
    case SPLICE_RANGE: case SPLICE_RANGE_N: { int x2 = d; int p = a, f = b, l = cc; Seq& src = m().s[x2];
      C::size_type n = (C::size_type)(l - f);
      if (op.k == SPLICE_RANGE) x.splice(cit(k, p), c(x2), cit(x2, f), cit(x2, l)); else x.splice(cit(k, p), c(x2), cit(x2, f), cit(x2, l), n);
      model_splice(s, p, src, f, l, x2 == k); return true; }
    case SHIFT_F: case SHIFT_B: { if (op.k == SHIFT_F) { if (a == 1) x.shift_forward(); else x.shift_forward((C::size_type)a); } else { if (a == 1) x.shift_backwards(); else x.shift_backwards((C::size_type)a); }
      if (s.n) { std::vector<int> w = s.vec(); int n = s.n, r = a % n; std::rotate(w.begin(), w.begin() + (op.k == SHIFT_F ? r : (n - r) % n), w.end()); s.set(w); } return true; }
    case SORT: case SORT_P: { std::vector<int> w = s.vec(); if (op.k == SORT) { x.sort(); std::stable_sort(w.begin(), w.end(), [&](int p, int q) { return key(p) < key(q); }); }
      else if (a == 1) { x.sort(Greater()); std::stable_sort(w.begin(), w.end(), [&](int p, int q) { return key(p) > key(q); }); }
      else { x.sort(HalfLess()); std::stable_sort(w.begin(), w.end(), [&](int p, int q) { return key(p) / 2 < key(q) / 2; }); }
      s.set(w); return true; }
    case MERGE: case MERGE_P: case MERGE_L: { std::vector<int> p = s.vec(), q = t.vec(), w; int mode = op.k == MERGE_P ? a : 0;
      auto lt = [&](int u, int v) { int ku = key(u), kv = key(v); return mode == 0 ? ku < kv : mode == 1 ? ku > kv : ku / 2 < kv / 2; };
      if (op.k == MERGE) x.merge(y);
#if MC_SLIST
      else if (op.k == MERGE_L) { C::const_iterator l; x.merge(y, std::less<Elem>(), &l); 
        if (t.n) REQ("ret", l == C::const_iterator(x.iterator_to(e(t.v[t.n - 1]))), "merge's l is the last transferred element"); else REQ("ret", l == x.cend(), "merge's l is end() when x is empty"); }
#endif
      else if (mode == 1) x.merge(y, Greater()); else x.merge(y, HalfLess());
      std::merge(p.begin(), p.end(), q.begin(), q.end(), std::back_inserter(w), lt); s.set(w); t.set({}); return true; }
    case REVERSE: { x.reverse(); std::vector<int> w = s.vec(); std::reverse(w.begin(), w.end()); s.set(w); return true; }
    case REMOVE: case REMOVE_D: { int saved = -1; (void)saved; static char tmp[sizeof(Elem) + 16]; alignas(16) static char tb[sizeof(World::e[0])]; (void)tmp; memset(tb, 0, sizeof tb); Elem* probe = new (tb) Elem(a, 99);
      std::vector<int> w, exp; for (int id : s.vec()) if (key(id) == a) exp.push_back(id); else w.push_back(id);
      if (op.k == REMOVE) x.remove(*probe); else { dispose_begin(cc, &y); x.remove_and_dispose(*probe, Disposer()); disposed_is(exp, "remove_and_dispose"); }
      s.set(w); if (op.k == REMOVE_D && cc) move_disposed(o); return true; }
    case REMOVE_OWN: { int kk = key(s.v[a]); x.remove(e(s.v[a])); std::vector<int> w; for (int id : s.vec()) if (key(id) != kk) w.push_back(id); s.set(w); return true; }
    case REMOVE_IF: case REMOVE_IF_D: { uint32_t mask = 0; std::vector<int> w, exp; for (int i = 0; i < s.n; ++i) if (a >> i & 1) { mask |= 1u << s.v[i]; exp.push_back(s.v[i]); } else w.push_back(s.v[i]);
      if (op.k == REMOVE_IF) x.remove_if(PosPred{mask}); else { dispose_begin(cc, &y); x.remove_and_dispose_if(PosPred{mask}, Disposer()); disposed_is(exp, "remove_and_dispose_if"); }
      s.set(w); if (op.k == REMOVE_IF_D && cc) move_disposed(o); return true; }
    case UNIQUE: case UNIQUE_P: case UNIQUE_D: case UNIQUE_PD: { bool half = op.k == UNIQUE_P || op.k == UNIQUE_PD; std::vector<int> w, exp;
      for (int id : s.vec()) { if (!w.empty() && (half ? key(w.back()) / 2 == key(id) / 2 : key(w.back()) == key(id))) exp.push_back(id); else w.push_back(id); }
      if (op.k == UNIQUE) x.unique(); else if (op.k == UNIQUE_P) x.unique(HalfEq()); else { dispose_begin(cc, &y); if (op.k == UNIQUE_D) x.unique_and_dispose(Disposer()); else x.unique_and_dispose(HalfEq(), Disposer()); disposed_is(exp, "unique_and_dispose"); }
      s.set(w); if ((op.k == UNIQUE_D || op.k == UNIQUE_PD) && cc) move_disposed(o); return true; }
    case SWAP: { x.swap(y); std::swap(s, t); return true; }
    case SWAP_FREE: { using std::swap; swap(x, y); std::swap(s, t); return true; }
    case SWAP_SELF: { x.swap(x); return true; }
    case MOVE_CTOR: { { C tmp(boost::move(x)); check_cont(9, tmp, s); Seq z; z.set({}); check_cont(k, x, z); x = boost::move(tmp); } return true; }
    case MOVE_ASSIGN: { x = boost::move(y); std::swap(s, t); return true; }
    case MOVE_ASSIGN_EMPTY: { { C tmp CARGS; x = boost::move(tmp); check_cont(9, tmp, s); Seq z; z.set({}); check_cont(k, x, z); } s.set({}); return true; }
    case DTOR_CONT: {
      Seq z; z.set({});
      x.~C(); if (HAS_LINKED && MC_LINK == 1) for (int i : s.vec()) REQ("linked", !linked(i), "element %d still linked after its container's destruction", i);
      if (MC_LINK == 2 && HAS_LINKED) for (int i : s.vec()) REQ("linked", !linked(i), "element %d still linked after its container's destruction", i);
      memset(W()->c[k], mc::g_fill, sizeof W()->c[k]); new (W()->c[k]) C CARGS; s.set({}); return true; }
    case CLONE: case CLONE_RV: { // clone y into x with the cloner throwing at call a (a == size: no throw)
      g_clone_next = g_clone_calls = 0; g_clone_throw = a; g_clone_mut = false; dispose_begin(0, &y); bool thrown = false; std::vector<int> exp = s.vec();
      std::string before; { before.assign((char*)W()->c[o], sizeof W()->c[o]); for (int i : t.vec()) before.append(W()->e[i], sizeof W()->e[i]); }
      try { if (op.k == CLONE) x.clone_from(static_cast<const C&>(y), Cloner(), Disposer()); else x.clone_from(boost::move(y), ClonerMut(), Disposer()); } catch (mc::UserThrow&) { thrown = true; }
      REQ("clone", thrown == (a < t.n), "cloner exception propagates");
      if (op.k == CLONE_RV && t.n && a > 0) REQ("clone", g_clone_mut, "rvalue clone_from must pass mutable references");
      for (int i = 0; i < g_clone_calls; ++i) REQ("clone", g_clone_seq[i] == t.v[i], "cloner call %d got element %d", i, g_clone_seq[i]);
      std::vector<int> clones; for (int i = 0; i < g_clone_next; ++i) clones.push_back(N + i);
      std::vector<int> de(g_disposed, g_disposed + g_nd); std::sort(de.begin(), de.end()); std::vector<int> ex2 = exp; if (thrown) ex2.insert(ex2.end(), clones.begin(), clones.end()); std::sort(ex2.begin(), ex2.end());
      REQ("clone", de == ex2 && g_dlinked == 0, "clone_from disposed %zu elements, expected %zu, each exactly once and unlinked", de.size(), ex2.size());
      { std::string after((char*)W()->c[o], sizeof W()->c[o]); for (int i : t.vec()) after.append(W()->e[i], sizeof W()->e[i]); REQ("clone", before == after, "clone_from changed the source"); }
      Seq q; q.set(thrown ? std::vector<int>() : clones); try { check_cont(k, x, q); check_cont(o, y, t); if (!thrown) REQ("clone", x == y, "clone is not equal"); } catch (mc::Violation& v) { v.cat = "clone"; throw; }
      x.clear(); s.set({}); return true; }
    case UNLINK: case DESTROY_AUTO: {
#if MC_LINK == 2 && MC_HOOK <= 2
      int id = op.a[0] == 2 ? a : s.v[a]; if (op.a[0] != 2) s.del(a);
      if (op.k == UNLINK) {
#if MC_HOOK == 0
        e(id).BaseH::unlink();
#elif MC_HOOK == 1
        e(id).hook.unlink();
#else
        e(id).in.hook.unlink();
#endif
        REQ("linked", !linked(id), "is_linked() after unlink()");
      } else { destroy_elem(id); memset(W()->e[id], 0x3C, sizeof W()->e[id]); for (int q = 0; q < 2; ++q) check_cont(q, c(q), m().s[q]); fresh_elem(id, KEYTAB[id]); }
#endif
      return true; }
    case COPY_HOOK: { // copying or assigning elements must not touch membership
#if MC_LINK != 0 && MC_HOOK <= 2
      int id = s.v[a]; static char sp[sizeof(Elem)] __attribute__((aligned(16))); Elem* cp = new (sp) Elem(e(id));
#if MC_HOOK == 0
      REQ("linked", !static_cast<BaseH*>(cp)->is_linked(), "a copy of a linked element is linked");
#endif
      *cp = e(id); e(id) = *cp; cp->~Elem(); e(id).id = (uint8_t)id; if (!(MC_SLIST && MC_LINEAR && a == s.n - 1)) REQ("linked", linked(id), "assigning to a linked element unlinked it");
#endif
      return true; }
    case MISUSE_PUSH: { int id = s.v[a]; bool f = mc::raises_assert([&] {
        if (b == 0) x.push_front(e(id)); else if (b == 1) y.push_front(e(id)); else {
#if !MC_SLIST || MC_CACHE
          y.push_back(e(id));
#else
          y.push_front(e(id));
#endif
        } }); if (!f && MC_SLIST && MC_LINEAR && a == s.n - 1 && mc::known("slist-linear-safe-link-last")) return false; REQ("misuse", f, "inserting an already linked element raised no assertion"); return false; }
    case MISUSE_INSERT: { int id = s.v[a]; int arr[2] = {id, 0}; bool f = mc::raises_assert([&] {
        if (b == 0) y.insert(y.cend(), e(id)); else if (b == 1) y.insert(y.cend(), DerefIt{arr}, DerefIt{arr + 1}); else if (b == 2) x.insert(x.cend(), e(id)); else {
#if MC_SLIST
          y.insert_after(y.cbefore_begin(), e(id));
#else
          y.assign(DerefIt{arr}, DerefIt{arr + 1});
#endif
        } }); if (!f && MC_SLIST && MC_LINEAR && a == s.n - 1 && mc::known("slist-linear-safe-link-last")) return false; REQ("misuse", f, "inserting an already linked element raised no assertion"); return false; }
    case MISUSE_DESTROY: { int id = s.v[a]; bool f = mc::raises_assert([&] { destroy_elem(id); }); if (!f && MC_SLIST && MC_LINEAR && a == s.n - 1 && mc::known("slist-linear-safe-link-last")) return false; REQ("misuse", f, "destroying a linked safe-link element raised no assertion"); return false; }
    case SWAP_NODES: {
#if MC_HOOK <= 1 && MC_LINK != 0
      int k1 = op.a[0], p1 = op.a[1], k2 = op.a[2], p2 = op.a[3]; int i1 = k1 == 2 ? p1 : m().s[k1].v[p1], i2 = k2 == 2 ? p2 : m().s[k2].v[p2];
#if MC_HOOK == 0
      static_cast<BaseH&>(e(i1)).swap_nodes(e(i2));
#else
      e(i1).hook.swap_nodes(e(i2).hook);
#endif
      if (k1 != 2) m().s[k1].v[p1] = (uint8_t)i2; if (k2 != 2) m().s[k2].v[p2] = (uint8_t)i1;
#endif
      return true; }
    case RELOC: { // bitwise copy of the whole region to another address, keep working there
#if MC_PTR == 1
      static char other[sizeof(World) + 64] __attribute__((aligned(64))); memcpy(other, mc::g_arena, sizeof(World)); static char save[sizeof(World)]; memcpy(save, mc::g_arena, sizeof(World)); memset(mc::g_arena, 0xEE, sizeof(World));
      World* w2 = reinterpret_cast<World*>(other); memcpy((void*)&W()->m, save + ((char*)&((World*)0)->m - (char*)0), sizeof(Model));
      for (int q = 0; q < 2; ++q) { C& z = w2->cont(q); int i = 0; for (C::iterator j = z.begin(); j != z.end(); ++j, ++i) { REQ("reloc", i < m().s[q].n && &*j == w2->el(m().s[q].v[i]), "relocated iteration"); } REQ("reloc", i == m().s[q].n && (size_t)z.size() == m().s[q].n, "relocated size"); z.check(); }
      // operate at the new address, come back, and compare with the same operations done in place
      w2->cont(0).reverse(); if (!w2->cont(1).empty()) { w2->cont(0).splice(w2->cont(0).cbegin(), w2->cont(1)); }
      memcpy(save, other, sizeof(World)); memset(other, 0xEE, sizeof(World)); memcpy(mc::g_arena, save, sizeof(World));
      { std::vector<int> w = s.vec(); std::reverse(w.begin(), w.end()); std::vector<int> u = t.vec(); u.insert(u.end(), w.begin(), w.end()); s.set(u); t.set({}); }
#endif
      return true; }
#if MC_SLIST
    case INSERT_AFTER: { int f = free_with_key(b); C::iterator r = x.insert_after(bit(k, a), e(f)); s.ins(a, f); it_at(r, k, a, "insert_after"); return true; }
    case INSERT_RANGE_AFTER: { std::vector<int> fr = free_ids(); fr.resize(b); fr.push_back(0); x.insert_after(bit(k, a), DerefIt{fr.data()}, DerefIt{fr.data() + b}); for (int i = 0; i < b; ++i) s.ins(a + i, fr[i]); return true; }
    case INCORPORATE: { std::vector<int> fr = free_ids(); typedef C::node_traits NT; C::node_ptr f, l;   // a chain of b linked nodes that no list holds
      for (int i = b; i--;) { x.push_front(e(fr[i])); C::node_ptr q = x.begin().pointed_node(); x.pop_front(); if (i == b - 1) l = q; else NT::set_next(q, f); f = q; }
      if (cc) x.incorporate_after(bit(k, a), f, l, (C::size_type)b); else x.incorporate_after(bit(k, a), f, l); for (int i = 0; i < b; ++i) s.ins(a + i, fr[i]); return true; }
    case ERASE_AFTER: { C::iterator r = x.erase_after(bit(k, a)); s.del(a); it_at(r, k, a, "erase_after"); return true; }
    case ERASE_RANGE_AFTER: { C::iterator r = x.erase_after(bit(k, a), cit(k, b)); for (int i = a; i < b; ++i) s.del(a); it_at(r, k, a, "erase_after range"); return true; }
    case ERASE_RANGE_AFTER_N: { C::iterator r = x.erase_after(bit(k, a), cit(k, b), (C::size_type)(b - a)); for (int i = a; i < b; ++i) s.del(a); it_at(r, k, a, "erase_after range n"); return true; }
    case ERASE_AFTER_D: { dispose_begin(cc, &y); int id = s.v[a]; C::iterator r = x.erase_after_and_dispose(bit(k, a), Disposer()); s.del(a); disposed_is({id}, "erase_after_and_dispose"); it_at(r, k, a, "erase_after_and_dispose"); if (cc) move_disposed(o); return true; }
    case ERASE_RANGE_AFTER_D: { dispose_begin(cc, &y); std::vector<int> exp(s.v + a, s.v + b); C::iterator r = x.erase_after_and_dispose(bit(k, a), cit(k, b), Disposer()); for (int i = a; i < b; ++i) s.del(a); disposed_is(exp, "erase_after_and_dispose range"); it_at(r, k, a, "erase_after_and_dispose range"); if (cc) move_disposed(o); return true; }
    case SPLICE_AFTER_ALL: case SPLICE_AFTER_ALL_L: { if (op.k == SPLICE_AFTER_ALL) x.splice_after(bit(k, a), y); else { C::const_iterator l, pv = bit(k, a); x.splice_after(bit(k, a), y, &l); C::const_iterator exp = t.n ? C::const_iterator(x.iterator_to(e(t.v[t.n - 1]))) : pv; REQ("ret", l == exp, "splice_after(prev,x,&l)"); }
      std::vector<int> w = t.vec(); t.set({}); for (size_t i = 0; i < w.size(); ++i) s.ins(a + (int)i, w[i]); return true; }
    case SPLICE_AFTER_ONE: { Seq& src = m().s[cc]; x.splice_after(bit(k, a), c(cc), bit(cc, b)); if (cc != k) s.ins(a, src.del(b)); else { int id = src.v[b]; src.del(b); s.ins(a > b ? a - 1 : a, id); } return true; }
    case SPLICE_AFTER_RANGE: case SPLICE_AFTER_RANGE_N: { int x2 = d, p = a, f = b, l = cc; Seq& src = m().s[x2];
      if (op.k == SPLICE_AFTER_RANGE) x.splice_after(bit(k, p), c(x2), bit(x2, f), bit(x2, l)); else x.splice_after(bit(k, p), c(x2), bit(x2, f), bit(x2, l), (C::size_type)(l - f));
      model_splice(s, p, src, f, l, x2 == k); return true; }
#if !MC_CTS && !MC_CACHE && MC_HOOK != 3
    case S_INSERT_AFTER: { int f = free_with_key(b); C::iterator r = C::s_insert_after(bit(k, a), e(f)); s.ins(a, f); it_at(r, k, a, "s_insert_after"); return true; }
    case S_ERASE_AFTER_D: { dispose_begin(cc, &y); int id = s.v[a]; C::iterator r = C::s_erase_after_and_dispose(bit(k, a), Disposer()); s.del(a); disposed_is({id}, "s_erase_after_and_dispose"); it_at(r, k, a, "s_erase_after_and_dispose"); if (cc) move_disposed(o); return true; }
#endif
#endif
    case T_SORT: case T_SORT_P: { if (!throwing(a, [&] { if (op.k == T_SORT) x.sort(); else x.sort(Greater()); })) return false; adopt(true); return true; }
    case T_MERGE: case T_MERGE_P: { if (!throwing(a, [&] { if (op.k == T_MERGE) x.merge(y); else x.merge(y, Greater()); })) return false; adopt(false); return true; }
    case T_REMOVE_IF: case T_REMOVE_IF_D: { uint32_t mask = 0; for (int i = 0; i < s.n; ++i) if (b >> i & 1) mask |= 1u << s.v[i]; dispose_begin(0, &y);
      if (!throwing(a, [&] { if (op.k == T_REMOVE_IF) x.remove_if(PosPred{mask}); else x.remove_and_dispose_if(PosPred{mask}, Disposer()); })) return false;
      adopt(false); return true; }
    case T_UNIQUE: case T_UNIQUE_PD: { dispose_begin(0, &y); if (!throwing(a, [&] { if (op.k == T_UNIQUE) x.unique(); else x.unique_and_dispose(HalfEq(), Disposer()); })) return false; adopt(true); return true; }
    }
    mc::fail("internal", strf("unhandled op %d", op.k));
  }
  void model_splice(Seq& s, int p, Seq& src, int f, int l, bool self) {
    std::vector<int> w(src.v + f, src.v + l);
    if (!self) { for (int i = f; i < l; ++i) src.del(f); for (size_t i = 0; i < w.size(); ++i) s.ins(p + (int)i, w[i]); }
    else { for (int i = f; i < l; ++i) src.del(f); int q = p <= f ? p : p >= l ? p - (l - f) : f; for (size_t i = 0; i < w.size(); ++i) s.ins(q + (int)i, w[i]); }
  }
};

int main(int argc, char** argv) {
#ifdef MC_FILL
  mc::g_fill = MC_FILL;
#endif
  mc::Opts o; Sys s; (void)CATCH_ORDER;
  return mc::engine_main(argc, argv, s, o, "seq");
}
