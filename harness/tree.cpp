// Model checking of the ordered containers (set/multiset/raw tree of every family).
// Macros: MC_TREE(0 bs,1 rb,2 avl,3 splay,4 sg,5 treap) MC_API(0 set,1 multiset,2 raw tree) MC_LINK MC_CTS MC_HOOK(0 base,1 member,
// 2 function,3 stateful value traits,4 derivation value traits) MC_PTR MC_OPT(optimize_size) MC_KOV(key extractor) MC_FP(sg) MC_HH
// MC_SIZET MC_NA(max elements, one container) MC_NB(max elements, two containers) MC_GROUPS MC_VARIANTS
#ifndef MC_TREE
#define MC_TREE 1
#endif
#ifndef MC_API
#define MC_API 0
#endif
#ifndef MC_LINK
#define MC_LINK 1
#endif
#ifndef MC_CTS
#define MC_CTS (MC_LINK != 2)
#endif
#ifndef MC_HOOK
#define MC_HOOK 0
#endif
#ifndef MC_PTR
#define MC_PTR 0
#endif
#ifndef MC_OPT
#define MC_OPT 0
#endif
#ifndef MC_KOV
#define MC_KOV 0
#endif
#ifndef MC_FP
#define MC_FP 1
#endif
#ifndef MC_HH
#define MC_HH 0
#endif
#ifndef MC_SIZET
#define MC_SIZET std::size_t
#endif
#ifndef MC_NA
#define MC_NA 6
#endif
#ifndef MC_NB
#define MC_NB 4
#endif
#ifndef MC_GROUPS
#define MC_GROUPS 0xffff
#endif
#ifndef MC_LEAN
#define MC_LEAN 0   // 1: large containers, only single insertions and erasures; no lookups per state
#endif
#ifndef MC_VARIANTS
#define MC_VARIANTS 2
#endif
#include "core.hpp"
#if MC_TREE == 0
#include <boost/intrusive/bs_set.hpp>
#define T_SET bi::bs_set
#define T_MSET bi::bs_multiset
#define T_RAW bi::bstree
#define T_BASEHOOK bi::bs_set_base_hook
#define T_MEMHOOK bi::bs_set_member_hook
#elif MC_TREE == 1
#include <boost/intrusive/set.hpp>
#define T_SET bi::set
#define T_MSET bi::multiset
#define T_RAW bi::rbtree
#define T_BASEHOOK bi::set_base_hook
#define T_MEMHOOK bi::set_member_hook
#elif MC_TREE == 2
#include <boost/intrusive/avl_set.hpp>
#define T_SET bi::avl_set
#define T_MSET bi::avl_multiset
#define T_RAW bi::avltree
#define T_BASEHOOK bi::avl_set_base_hook
#define T_MEMHOOK bi::avl_set_member_hook
#elif MC_TREE == 3
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/bs_set_hook.hpp>
#define T_SET bi::splay_set
#define T_MSET bi::splay_multiset
#define T_RAW bi::splaytree
#define T_BASEHOOK bi::bs_set_base_hook
#define T_MEMHOOK bi::bs_set_member_hook
#elif MC_TREE == 4
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/bs_set_hook.hpp>
#define T_SET bi::sg_set
#define T_MSET bi::sg_multiset
#define T_RAW bi::sgtree
#define T_BASEHOOK bi::bs_set_base_hook
#define T_MEMHOOK bi::bs_set_member_hook
#elif MC_TREE == 5
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/bs_set_hook.hpp>
#define T_SET bi::treap_set
#define T_MSET bi::treap_multiset
#define T_RAW bi::treap
#define T_BASEHOOK bi::bs_set_base_hook
#define T_MEMHOOK bi::bs_set_member_hook
#endif
#include <boost/intrusive/derivation_value_traits.hpp>
#include <boost/intrusive/member_value_traits.hpp>
#include <boost/intrusive/parent_from_member.hpp>
#include <cmath>
#if MC_PTR == 1
#include "relptr.hpp"
#endif
namespace bi = boost::intrusive;
enum { G_INS = 1, G_HINT = 2, G_RANGE = 4, G_ERASE = 8, G_DISPOSE = 16, G_CLONE = 32, G_SWAP = 64, G_MISUSE = 128, G_AUTO = 256, G_THROW = 512, G_RELOC = 1024, G_SWAPNODES = 2048, G_MERGE = 4096, G_REB = 8192, G_LOOKUP = 16384 };
static const int GROUPS = MC_GROUPS;
#ifdef BOOST_DISABLE_ASSERTS
static const bool NOASSERT = true;    // insert_unique_commit (noexcept) calls the comparison inside an assertion
#else
static const bool NOASSERT = false;
#endif
enum { NA = MC_NA, NB = MC_NB, N = NA, CL = NA, NE = N + CL };
static const bi::link_mode_type LM = MC_LINK == 0 ? bi::normal_link : MC_LINK == 1 ? bi::safe_link : bi::auto_unlink;
static const bool HAS_LINKED = MC_LINK != 0 && MC_HOOK <= 2;
static const bool HAS_U = MC_API != 1, HAS_E = MC_API != 0, TREAP = MC_TREE == 5, SPLAY = MC_TREE == 3;

#if MC_PTR == 1
typedef mc::rel_ptr<void> VP;
#else
typedef void* VP;
#endif
struct Tag;
#if MC_TREE == 1 || MC_TREE == 2
#define HOPT bi::optimize_size<MC_OPT != 0>,
#else
#define HOPT
#endif
typedef T_BASEHOOK<HOPT bi::link_mode<LM>, bi::void_pointer<VP>, bi::tag<Tag> > BaseH;
typedef T_MEMHOOK<HOPT bi::link_mode<LM>, bi::void_pointer<VP> > MemH;
#if MC_TREE == 1
typedef bi::rbtree_node_traits<VP, MC_OPT != 0> RawNT; typedef bi::rbtree_algorithms<RawNT> RawAlgo;
#elif MC_TREE == 2
typedef bi::avltree_node_traits<VP, MC_OPT != 0> RawNT; typedef bi::avltree_algorithms<RawNT> RawAlgo;
#else
typedef bi::tree_node_traits<VP> RawNT; typedef bi::bstree_algorithms<RawNT> RawAlgo;
#endif
typedef RawNT::node RawNode;

static const uint32_t CAN1 = 0xC0FFEE01u, CAN2 = 0xBADF00D2u;
struct Key { uint8_t v; };
struct Prio { uint8_t v; };
#if MC_HOOK == 0
struct Elem : BaseH {
#elif MC_HOOK == 4
struct Elem : RawNode {
#else
struct Elem {
#endif
  uint32_t can1;
#if MC_HOOK == 1
  MemH hook;
#elif MC_HOOK == 2
  struct Inner { uint32_t pad; MemH hook; } in;
#elif MC_HOOK == 6
  RawNode node;
#endif
  uint32_t can2; Key key; Prio prio; uint8_t id;
  Elem(int k, int p, int i) : can1(CAN1), can2(CAN2), id((uint8_t)i) {
    key.v = (uint8_t)k; prio.v = (uint8_t)p;
#if MC_HOOK == 2
    in.pad = CAN1;
#endif
#if MC_HOOK == 6 && MC_LINK == 1
    RawAlgo::init(bi::pointer_traits<RawNT::node_ptr>::pointer_to(node));
#endif
#if MC_HOOK == 4 && MC_LINK == 1
    RawAlgo::init(bi::pointer_traits<RawNT::node_ptr>::pointer_to(static_cast<RawNode&>(*this)));
#endif
  }
};
static long g_calls, g_throw_at = -1;
static inline void fcall() { ++g_calls; if (g_throw_at >= 0 && g_calls > g_throw_at) throw mc::UserThrow{1}; }
inline bool operator<(const Elem& a, const Elem& b) { return a.key.v < b.key.v; }
inline bool operator==(const Elem& a, const Elem& b) { return a.key.v == b.key.v; }
struct F { uint8_t lo, hi, p; };   // foreign key: equivalent to every key in [lo,hi]
#if MC_KOV
typedef Key KA; typedef Prio PA; static inline int kv(const Key& k) { return k.v; } static inline int pv(const Prio& p) { return p.v; }
struct KoV { typedef Key type; const Key& operator()(const Elem& e) const { return e.key; } };
struct PoV { typedef Prio type; const Prio& operator()(const Elem& e) const { return e.prio; } };
#define KOVOPT , bi::key_of_value<KoV>
#define POVOPT , bi::priority_of_value<PoV>
#else
typedef Elem KA; typedef Elem PA; static inline int kv(const Elem& k) { return k.key.v; } static inline int pv(const Elem& k) { return k.prio.v; }
#define KOVOPT
#define POVOPT
#endif
struct Cmp { uint8_t desc; Cmp() : desc(0) {} explicit Cmp(int d) : desc((uint8_t)d) {}
  bool operator()(const KA& a, const KA& b) const { fcall(); return desc ? kv(a) > kv(b) : kv(a) < kv(b); } };
struct FCmp { uint8_t desc;
  bool operator()(const KA& a, const F& b) const { fcall(); return desc ? kv(a) > b.hi : kv(a) < b.lo; }
  bool operator()(const F& a, const KA& b) const { fcall(); return desc ? a.lo > kv(b) : a.hi < kv(b); }
  bool operator()(const F& a, const F& b) const { fcall(); return desc ? a.lo > b.hi : a.hi < b.lo; } };
struct PCmp { uint8_t desc; PCmp() : desc(0) {} explicit PCmp(int d) : desc((uint8_t)d) {}   // true: a has the higher priority
  bool operator()(const PA& a, const PA& b) const { fcall(); return desc ? pv(a) < pv(b) : pv(a) > pv(b); } };
struct PFCmp { uint8_t desc;
  bool operator()(const F& a, const PA& b) const { fcall(); return desc ? a.p < pv(b) : a.p > pv(b); }
  bool operator()(const PA& a, const F& b) const { fcall(); return desc ? pv(a) < b.p : pv(a) > b.p; } };

#if MC_HOOK == 0
typedef bi::base_hook<BaseH> VOpt;
#elif MC_HOOK == 1
typedef bi::member_hook<Elem, MemH, &Elem::hook> VOpt;
#elif MC_HOOK == 2
struct FH {
  typedef MemH hook_type; typedef bi::pointer_traits<VP>::rebind_pointer<hook_type>::type hook_ptr; typedef bi::pointer_traits<VP>::rebind_pointer<const hook_type>::type const_hook_ptr;
  typedef Elem value_type; typedef bi::pointer_traits<VP>::rebind_pointer<Elem>::type pointer; typedef bi::pointer_traits<VP>::rebind_pointer<const Elem>::type const_pointer;
  static hook_ptr to_hook_ptr(value_type& v) { return bi::pointer_traits<hook_ptr>::pointer_to(v.in.hook); }
  static const_hook_ptr to_hook_ptr(const value_type& v) { return bi::pointer_traits<const_hook_ptr>::pointer_to(v.in.hook); }
  static pointer to_value_ptr(hook_ptr n) { return bi::pointer_traits<pointer>::pointer_to(*bi::get_parent_from_member<Elem>(bi::get_parent_from_member<Elem::Inner>(&*n, &Elem::Inner::hook), &Elem::in)); }
  static const_pointer to_value_ptr(const_hook_ptr n) { return bi::pointer_traits<const_pointer>::pointer_to(*bi::get_parent_from_member<Elem>(bi::get_parent_from_member<Elem::Inner>(&*n, &Elem::Inner::hook), &Elem::in)); }
};
typedef bi::function_hook<FH> VOpt;
#elif MC_HOOK == 3
enum { ESTRIDE = (sizeof(Elem) + 15) / 16 * 16 };
struct SVT {
  typedef RawNT node_traits; typedef RawNT::node node; typedef RawNT::node_ptr node_ptr; typedef RawNT::const_node_ptr const_node_ptr;
  typedef Elem value_type; typedef bi::pointer_traits<node_ptr>::rebind_pointer<Elem>::type pointer; typedef bi::pointer_traits<node_ptr>::rebind_pointer<const Elem>::type const_pointer;
  static const bi::link_mode_type link_mode = LM;
  Elem* vals; node* nodes;
  SVT() : vals(0), nodes(0) {}
  SVT(Elem* v, node* n) : vals(v), nodes(n) {}
  node_ptr to_node_ptr(value_type& v) const { return bi::pointer_traits<node_ptr>::pointer_to(nodes[((char*)&v - (char*)vals) / ESTRIDE]); }
  const_node_ptr to_node_ptr(const value_type& v) const { return bi::pointer_traits<const_node_ptr>::pointer_to(nodes[((const char*)&v - (const char*)vals) / ESTRIDE]); }
  pointer to_value_ptr(const node_ptr& n) const { return bi::pointer_traits<pointer>::pointer_to(*(Elem*)((char*)vals + (boost::movelib::to_raw_pointer(n) - nodes) * ESTRIDE)); }
  const_pointer to_value_ptr(const const_node_ptr& n) const { return bi::pointer_traits<const_pointer>::pointer_to(*(Elem*)((char*)vals + (boost::movelib::to_raw_pointer(n) - nodes) * ESTRIDE)); }
};
typedef bi::value_traits<SVT> VOpt;
#elif MC_HOOK == 4
typedef bi::value_traits<bi::derivation_value_traits<Elem, RawNT, LM> > VOpt;
#elif MC_HOOK == 6
typedef bi::value_traits<bi::member_value_traits<Elem, RawNT, &Elem::node, LM> > VOpt;
#endif
#if MC_HH
struct HPool { uint64_t used; RawNode slot[32]; };
static HPool* hpool();
struct AHolder {
  typedef RawNT node_traits; typedef RawNT::node node; typedef RawNT::node_ptr node_ptr; typedef RawNT::const_node_ptr const_node_ptr;
  node* p;
  AHolder() { for (int i = 0; i < 32; ++i) if (!(hpool()->used >> i & 1)) { hpool()->used |= 1ull << i; p = &hpool()->slot[i]; return; } abort(); }
  AHolder(const AHolder&) = delete; AHolder& operator=(const AHolder&) = delete;
  ~AHolder() { int i = (int)(p - hpool()->slot); hpool()->used &= ~(1ull << i); memset((void*)p, 0x77, sizeof *p); }
  const_node_ptr get_node() const { return bi::pointer_traits<const_node_ptr>::pointer_to(*p); }
  node_ptr get_node() { return bi::pointer_traits<node_ptr>::pointer_to(*p); }
};
#define HHOPT , bi::header_holder_type<AHolder>
#else
#define HHOPT
#endif
#if MC_TREE == 4
#define SPECOPT , bi::floating_point<MC_FP != 0>
#elif MC_TREE == 5
#define SPECOPT , bi::priority<PCmp> POVOPT
#else
#define SPECOPT
#endif
#if MC_TREE == 4
#define CTSOPT
#else
#define CTSOPT , bi::constant_time_size<MC_CTS != 0>
#endif
typedef T_SET<Elem, VOpt, bi::compare<Cmp>, bi::size_type<MC_SIZET> CTSOPT SPECOPT KOVOPT HHOPT> CSet;
typedef T_MSET<Elem, VOpt, bi::compare<Cmp>, bi::size_type<MC_SIZET> CTSOPT SPECOPT KOVOPT HHOPT> CMSet;
typedef T_RAW<Elem, VOpt, bi::compare<Cmp>, bi::size_type<MC_SIZET> CTSOPT SPECOPT KOVOPT HHOPT> CRaw;
#if MC_API == 0
typedef CSet C; typedef CMSet CX;
#define INS_U insert
#define CHK_U insert_check
#define COM_U insert_commit
#define INS_E insert_equal
#elif MC_API == 1
typedef CMSet C; typedef CSet CX;
#define INS_E insert
#define INS_U insert_unique
#define CHK_U insert_unique_check
#define COM_U insert_unique_commit
#else
typedef CRaw C; typedef CRaw CX;
#define INS_E insert_equal
#define INS_U insert_unique
#define CHK_U insert_unique_check
#define COM_U insert_unique_commit
#endif
typedef C::node_traits NT; typedef NT::node_ptr NP; typedef NT::const_node_ptr CNP;
#if MC_TREE == 5
#define PARG(pd) PCmp(pd),
#else
#define PARG(pd)
#endif
#if MC_HOOK == 3
#define VARG SVT(W()->el(0), W()->nodes)
#elif MC_TREE == 5
#define VARG C::value_traits()
#else
#define VARG C::value_traits()
#endif
#define CARGS(d, pd) (Cmp(d), PARG(pd) VARG)

using mc::Op; using mc::mk; using mc::strf;
struct Seq {
  uint8_t n; uint8_t v[2 * N];
  void ins(int p, int x) { memmove(v + p + 1, v + p, n - p); v[p] = (uint8_t)x; ++n; }
  int del(int p) { int x = v[p]; memmove(v + p, v + p + 1, n - p - 1); --n; v[n] = 0; return x; }
  int find(int x) const { for (int i = 0; i < n; ++i) if (v[i] == x) return i; return -1; }
  std::vector<int> vec() const { return std::vector<int>(v, v + n); }
  void set(const std::vector<int>& w) { memset(v, 0, sizeof v); n = (uint8_t)w.size(); for (int i = 0; i < n; ++i) v[i] = (uint8_t)w[i]; }
};
struct MC1 { Seq s; uint8_t desc, pdesc, alpha, raised; };   // model of one container; raised: alpha was raised, no shrink since
struct Model { MC1 k[2]; };
struct alignas(16) World {
  uint64_t g0; alignas(8) char c[2][(sizeof(C) + 15) / 8 * 8]; uint64_t g1;
#if MC_HOOK == 3
  RawNode nodes[NE]; uint64_t g2;
#endif
#if MC_HH
  HPool hp; uint64_t g3;
#endif
  alignas(16) char e[NE][(sizeof(Elem) + 15) / 16 * 16];
  Model m;
  C& cont(int i) { return *reinterpret_cast<C*>(c[i]); }
  Elem* el(int i) { return reinterpret_cast<Elem*>(e[i]); }
};
static inline World* W() { return reinterpret_cast<World*>(mc::g_arena); }
static_assert(sizeof(World) <= MC_ARENA, "arena");
#if MC_HH
static HPool* hpool() { return &W()->hp; }
#endif
static char g_fresh[NE][sizeof(((World*)0)->e[0])];
static void fresh_elem(int i) {
  char* p = W()->e[i]; memset(p, mc::g_fill, sizeof W()->e[i]);
#if MC_HOOK == 3
  memset((void*)&W()->nodes[i], mc::g_fill, sizeof(RawNode));
#if MC_LINK == 1
  RawAlgo::init(bi::pointer_traits<RawNT::node_ptr>::pointer_to(W()->nodes[i]));
#endif
#endif
  new (p) Elem(0, 0, i);
}
static bool linked(int i) {
#if MC_LINK != 0 && MC_HOOK == 0
  return static_cast<BaseH*>(W()->el(i))->is_linked();
#elif MC_LINK != 0 && MC_HOOK == 1
  return W()->el(i)->hook.is_linked();
#elif MC_LINK != 0 && MC_HOOK == 2
  return W()->el(i)->in.hook.is_linked();
#else
  (void)i; return false;
#endif
}
static bool unlinked_ok(int i) {   // safe mode without a hook object: the node must be in its initialised state
#if MC_LINK == 1 && MC_HOOK == 3
  return RawAlgo::unique(bi::pointer_traits<RawNT::const_node_ptr>::pointer_to(W()->nodes[i]));
#elif MC_LINK == 1 && MC_HOOK == 6
  return RawAlgo::unique(bi::pointer_traits<RawNT::const_node_ptr>::pointer_to(W()->el(i)->node));
#elif MC_LINK == 1 && MC_HOOK == 4
  return RawAlgo::unique(bi::pointer_traits<RawNT::const_node_ptr>::pointer_to(static_cast<RawNode&>(*W()->el(i))));
#else
  return !(HAS_LINKED && linked(i));
#endif
}
static int rid(const Elem* e) { for (int i = 0; i < NE; ++i) if (W()->el(i) == e) return i; return -1; }
struct DerefIt {
  const int* p; typedef std::forward_iterator_tag iterator_category; typedef Elem value_type; typedef Elem& reference; typedef Elem* pointer; typedef std::ptrdiff_t difference_type;
  Elem& operator*() const { return *W()->el(*p); } DerefIt& operator++() { ++p; return *this; } DerefIt operator++(int) { DerefIt t = *this; ++p; return t; }
  bool operator==(const DerefIt& o) const { return p == o.p; } bool operator!=(const DerefIt& o) const { return p != o.p; }
};
static Elem* probe_elem(int slot, int prio, int w = 0) { static char b[4][sizeof(W()->e[0])]; static bool init = false; if (!init) { init = true; for (int i = 0; i < 4; ++i) { memset(b[i], 0, sizeof b[i]); new (b[i]) Elem(0, 0, 255); } } Elem* e = (Elem*)b[w]; e->key.v = (uint8_t)slot; e->prio.v = (uint8_t)prio; return e; }
#if MC_KOV
static Key g_kk[4]; static Prio g_pp[4];
static const KA& KEYV(int slot, int w = 0) { g_kk[w].v = (uint8_t)slot; return g_kk[w]; }
static const PA& PRIOV(int p, int w = 0) { g_pp[w].v = (uint8_t)p; return g_pp[w]; }
#else
static const KA& KEYV(int slot, int w = 0) { return *probe_elem(slot, 0, w); }
static const PA& PRIOV(int p, int w = 0) { return *probe_elem(0, p, 2 + w); }
#endif

static int g_disposed[128], g_nd, g_dmode, g_dlinked, g_dnull; static C* g_dtarget; static MC1* g_dmodel;
static void do_dispose(Elem* e);
struct Disposer { typedef C::pointer pointer; void operator()(pointer p) const { do_dispose(boost::movelib::to_raw_pointer(p)); } };
static int g_clone_next, g_clone_calls, g_clone_throw, g_clone_seq[128]; static bool g_clone_mut;
struct Cloner {
  C::pointer operator()(const Elem& e) const {
    if (g_clone_calls == g_clone_throw) throw mc::UserThrow{2};
    g_clone_seq[g_clone_calls++] = e.id;
    int i = N + g_clone_next++; W()->el(i)->key = e.key; W()->el(i)->prio = e.prio;
    return bi::pointer_traits<C::pointer>::pointer_to(*W()->el(i));
  }
};
struct ClonerMut { C::pointer operator()(Elem& e) const { g_clone_mut = true; return Cloner()(e); } };

enum { INSU = 1, INSU_H, CHECK_, CHECK_H, CHECK_F, CHECK_FH, INSU_RANGE, INSE, INSE_H, INSE_RANGE, INS_BEFORE, PUSH_BACK, PUSH_FRONT, CTOR_RANGE,
  ERASE, ERASE_IT, ERASE_RANGE, ERASE_KEY, ERASE_F, ERASE_D, ERASE_D_IT, ERASE_RANGE_D, ERASE_KEY_D, ERASE_F_D, CLEAR, CLEAR_D, UNLINK_LEFT, REPLACE, REMOVE_NODE, REB, REB_SUB, SPLAY_UP, SPLAY_DOWN, SPLAY_DOWN_F,
  LK_FIND, LK_LB, LK_UB, LK_ER, LK_LBR, LK_BR, LK_COUNT, LK_FINDF, LK_ERF, ALPHA, MERGE_U, MERGE_E, MERGE_X, SWAP, SWAP_FREE, SWAP_SELF, MOVE_CTOR, MOVE_ASSIGN, MOVE_ASSIGN_TMP, CLONE, CLONE_RV, DTOR_CONT, UNLINK, DESTROY_AUTO, COPY_HOOK,
  MIS_INS, MIS_DESTROY, SWAP_NODES, RELOC, T_INSU, T_INSU_H, T_CHECKF, T_INSE, T_INSE_H, T_LOOKUP, T_ERASEF, T_MERGE, T_POS, OP_MAX };
static const char* OPN[] = {"?","insert_unique","insert_unique_hint","insert_check_commit","insert_check_hint_commit","insert_check_foreign_commit","insert_check_foreign_hint_commit","insert_unique_range","insert_equal","insert_equal_hint","insert_equal_range","insert_before","push_back","push_front","ctor_range",
  "erase","erase_it","erase_range","erase_key","erase_foreign","erase_and_dispose","erase_and_dispose_it","erase_and_dispose_range","erase_and_dispose_key","erase_and_dispose_foreign","clear","clear_and_dispose","unlink_leftmost_without_rebalance","replace_node","remove_node","rebalance","rebalance_subtree","splay_up","splay_down","splay_down_foreign",
  "find","lower_bound","upper_bound","equal_range","lower_bound_range","bounded_range","count","find_foreign","equal_range_foreign","balance_factor","merge_unique","merge_equal","merge_other_kind","swap","swap_free","swap_self","move_ctor","move_assign","move_assign_from_temp","clone_from","clone_from_rv","container_dtor","hook_unlink","destroy_linked_auto","copy_assign_element",
  "misuse_insert_linked","misuse_destroy_linked","hook_swap_nodes","relocate","throwing_insert_unique","throwing_insert_unique_hint","throwing_insert_check_foreign","throwing_insert_equal","throwing_insert_equal_hint","throwing_lookup","throwing_erase_foreign","throwing_merge","throwing_positional"};
static const float ALPHAS[] = {0.70711f, 0.6f, 0.85f};

struct Sys {
  static size_t image_size() { return sizeof(World); }
  int variants() { return MC_VARIANTS; }
  void restored() { g_throw_at = -1; }
  const char* opcat(const Op& o) {
    int k = o.k;
    if (k >= INSU && k <= CTOR_RANGE) return "insert";
    if (k >= MERGE_U && k <= MERGE_X) return "insert";
    if (k >= ERASE_D && k <= ERASE_F_D) return "disposer";
    if (k == CLEAR_D) return "disposer";
    if (k >= SWAP && k <= MOVE_ASSIGN_TMP) return "swap";
    if (k == CLONE || k == CLONE_RV) return "clone";
    if (k == UNLINK || k == DESTROY_AUTO) return "auto";
    if (k == REB || k == REB_SUB) return "rebalance";
    if (k >= LK_FIND && k <= LK_ERF) return "lookup";
    if (k >= T_INSU) return "throw";
    if (k == RELOC) return "reloc";
    return "";
  }
  std::string name(const Op& o) { return strf("%s(c%d %d %d %d %d %d)", OPN[o.k], o.a[0], o.a[1], o.a[2], o.a[3], o.a[4], o.a[5]); }
  MC1& mk_(int i) { return W()->m.k[i]; }
  Seq& ms(int i) { return W()->m.k[i].s; }
  C& c(int i) { return W()->cont(i); }
  Elem& e(int i) { return *W()->el(i); }
  int key(int i) { return W()->el(i)->key.v; }
  int prio(int i) { return W()->el(i)->prio.v; }
  // relative order as container k sees it
  static bool ltv(int desc, int a, int b) { return desc ? a > b : a < b; }

  void init(int var) {
    memset(mc::g_arena, mc::g_fill, sizeof(World)); W()->g0 = W()->g1 = 0x1122334455667788ull; g_throw_at = -1;
#if MC_HOOK == 3
    W()->g2 = 0x1122334455667788ull;
#endif
#if MC_HH
    W()->hp.used = 0; memset((void*)W()->hp.slot, 0x77, sizeof W()->hp.slot); W()->g3 = 0x1122334455667788ull;
#endif
    for (int i = 0; i < NE; ++i) { fresh_elem(i); memcpy(g_fresh[i], W()->e[i], sizeof g_fresh[i]); }
    memset((void*)&W()->m, 0, sizeof(Model));
    for (int i = 0; i < 2; ++i) { int d = var == 1 && i == 1, pd = TREAP && d; mk_(i).desc = (uint8_t)d; mk_(i).pdesc = (uint8_t)pd; if (var == 0 && i == 0 && MC_HOOK != 3) new (W()->c[i]) C(); else new (W()->c[i]) C CARGS(d, pd); }
  }
  std::vector<int> free_ids() { std::vector<int> f; for (int i = 0; i < N; ++i) if (ms(0).find(i) < 0 && ms(1).find(i) < 0) f.push_back(i); return f; }
  uint32_t free_mask() { uint32_t m = 0; for (int i : free_ids()) m |= 1u << i; return m; }
  int nslots() { std::set<int> s; for (int k = 0; k < 2; ++k) for (int i : ms(k).vec()) s.insert(key(i)); return 2 * (int)s.size() + 1; }
  int nprios() { if (!TREAP) return 1; std::set<int> s; for (int k = 0; k < 2; ++k) for (int i : ms(k).vec()) s.insert(prio(i)); return 2 * (int)s.size() + 1; }
  void renumber() {
    std::map<int, int> r, q; for (int k = 0; k < 2; ++k) for (int i : ms(k).vec()) { r[key(i)] = 0; q[prio(i)] = 0; }
    int n = 0; for (auto& p : r) p.second = 2 * n++ + 1; n = 0; for (auto& p : q) p.second = 2 * n++ + 1;
    for (int k = 0; k < 2; ++k) for (int i : ms(k).vec()) { e(i).key.v = (uint8_t)r[key(i)]; e(i).prio.v = (uint8_t)(TREAP ? q[prio(i)] : 0); }
  }
  // model positions
  int lb(int k, int slot) { Seq& s = ms(k); int i = 0; while (i < s.n && ltv(mk_(k).desc, key(s.v[i]), slot)) ++i; return i; }
  int ub(int k, int slot) { Seq& s = ms(k); int i = 0; while (i < s.n && !ltv(mk_(k).desc, slot, key(s.v[i]))) ++i; return i; }
  int lbf(int k, F f) { Seq& s = ms(k); int i = 0; while (i < s.n && (mk_(k).desc ? key(s.v[i]) > f.hi : key(s.v[i]) < f.lo)) ++i; return i; }
  int ubf(int k, F f) { Seq& s = ms(k); int i = 0; while (i < s.n && !(mk_(k).desc ? f.lo > key(s.v[i]) : f.hi < key(s.v[i]))) ++i; return i; }
  int hintpos(int k, int h, int slot) { Seq& s = ms(k); int d = mk_(k).desc;
    if (h == s.n || !ltv(d, key(s.v[h]), slot)) { if (h == 0 || !ltv(d, slot, key(s.v[h - 1]))) return h; return ub(k, slot); } return lb(k, slot); }
  int total() { return ms(0).n + ms(1).n; }
  bool room(int k, int cnt = 1) { int o = 1 - k; if (ms(o).n == 0) return ms(k).n + cnt <= (k == 0 ? (int)NA : (int)NB); return total() + cnt <= NB; }
  bool small() { return total() <= NB; }

  std::string canon() {
    mc::Canon k; k.selfrel = MC_PTR == 1; std::vector<int> order;
    for (int c = 0; c < 2; ++c) for (int i : ms(c).vec()) order.push_back(i);
    std::string pre; for (int c = 0; c < 2; ++c) { pre += (char)ms(c).n; pre += (char)mk_(c).raised; }
    for (int i : order) { pre += (char)key(i); pre += (char)prio(i); }
    for (int c = 0; c < 2; ++c) { k.obj(W()->c[c], sizeof W()->c[c]); k.range(W()->c[c], sizeof(C) / 8 * 8); if (sizeof(C) % 8) k.range(W()->c[c] + sizeof(C) / 8 * 8, sizeof(C) % 8); }
#if MC_HH
    for (int i = 0; i < 32; ++i) if (hpool()->used >> i & 1) { k.obj(&hpool()->slot[i], sizeof(RawNode)); k.range(&hpool()->slot[i], sizeof(RawNode)); }
#endif
    for (int i : order) {
#if MC_HOOK == 3
      k.obj(&W()->nodes[i], sizeof(RawNode)); k.range(&W()->nodes[i], sizeof(RawNode));
#else
      k.obj(W()->e[i], sizeof W()->e[i]); k.range(W()->e[i], (const char*)&e(i).key - W()->e[i]);
#endif
    }
    return pre + k.key();
  }

  // structural oracle --------------------------------------------------------------------------
  struct Walk { std::vector<const void*> order; int h; };
  typedef const RawNode* RP;
  static RP raw(CNP n) { return boost::movelib::to_raw_pointer(n); }
  int walk(CNP n, CNP parent, int k, std::vector<RP>& out, int depth, int& bh) {
    if (!n) { bh = 1; return 0; }
    REQ("struct", depth < 2 * NE + 4, "tree deeper than its elements (cycle)");
    REQ("struct", raw(NT::get_parent(n)) == raw(parent), "parent link of a node does not point to its parent");
    CNP l = NT::get_left(n), r = NT::get_right(n); int bl, br;
    int hl = walk(l, n, k, out, depth + 1, bl); out.push_back(raw(n)); REQ("struct", (int)out.size() <= NE, "tree has more nodes than elements"); int hr = walk(r, n, k, out, depth + 1, br);
#if MC_TREE == 1
    bool red = NT::get_color(n) == NT::red();
    REQS("balance", bl == br, "unequal black height %d/%d", bl, br);
    if (red) { REQS("balance", !l || NT::get_color(l) == NT::black(), "red node with a red left child"); REQS("balance", !r || NT::get_color(r) == NT::black(), "red node with a red right child"); }
    bh = bl + !red;
#elif MC_TREE == 2
    REQS("balance", hl - hr <= 1 && hr - hl <= 1, "AVL sibling heights %d and %d", hl, hr);
    NT::balance b = NT::get_balance(n); REQS("balance", b == (hl == hr ? NT::zero() : hl > hr ? NT::negative() : NT::positive()), "AVL balance factor wrong, heights %d %d", hl, hr);
#elif MC_TREE == 5
    Elem* me = val(k, n); int pd = g_wpd;
    if (l) REQS("heap", !higher(pd, val(k, l)->prio.v, me->prio.v), "left child's priority %d ordered before its parent's %d", val(k, l)->prio.v, me->prio.v);
    if (r) REQS("heap", !higher(pd, val(k, r)->prio.v, me->prio.v), "right child's priority %d ordered before its parent's %d", val(k, r)->prio.v, me->prio.v);
#endif
    return 1 + std::max(hl, hr);
  }
  int g_wpd;
  static bool higher(int pd, int a, int b) { return pd ? a < b : a > b; }
  Elem* val(int, CNP n) {
#if MC_HOOK == 3
    return W()->el((int)(raw(n) - W()->nodes));
#else
    return const_cast<Elem*>(boost::movelib::to_raw_pointer(C::value_traits::to_value_ptr(bi::pointer_traits<NP>::const_cast_from(n))));
#endif
  }
  static int min_height(int n) { int h = 0; while (n) { ++h; n >>= 1; } return h; }
  int shape_height(int k) { std::vector<RP> o; int bh; g_wpd = mk_(k).pdesc; C& x = c(k); NP h = x.end().pointed_node(); return walk(NT::get_parent(h), h, k, o, 0, bh); }
  void structure(int ci, C& x, const MC1& m) {
    const Seq& s = m.s; g_wpd = m.pdesc;
    NP h = x.end().pointed_node(); std::vector<RP> o; int bh = 0;
    NP root = NT::get_parent(h); int height = walk(root, h, ci, o, 0, bh);
    REQ("struct", (int)o.size() == s.n, "c%d: in-order walk has %zu nodes, expected %d", ci, o.size(), (int)s.n);
    for (int i = 0; i < s.n; ++i) REQ("order", val(ci, CNP(bi::pointer_traits<CNP>::pointer_to(*o[i]))) == W()->el(s.v[i]), "c%d: in-order position %d is not element %d", ci, i, s.v[i]);
    if (s.n) { REQ("struct", raw(NT::get_left(h)) == o[0], "c%d: leftmost link is not the minimum", ci); REQ("struct", raw(NT::get_right(h)) == o[s.n - 1], "c%d: rightmost link is not the maximum", ci); }
    else REQ("struct", raw(NT::get_left(h)) == raw(h) && raw(NT::get_right(h)) == raw(h), "c%d: empty header", ci);
#if MC_TREE == 1
    if (root) REQS("balance", NT::get_color(root) == NT::black(), "root is red");
#elif MC_TREE == 4
    { double a = m.alpha == 0 ? 0.70710678 : ALPHAS[m.alpha]; size_t M = x.get_max_tree_size();
      REQS("balance", M >= s.n, "max_tree_size %zu smaller than size %d", M, (int)s.n);
      REQS("balance", M <= (size_t)NE, "max_tree_size %zu never reached", M);
      if (s.n && !m.raised) REQS("balance", s.n >= (int)std::floor(a * (double)M - 1e-3), "size %d below alpha times %zu without a rebuild", (int)s.n, M);
      if (M) { int lim = (int)std::floor(std::log((double)M) / std::log(1.0 / a) + 1e-3) + 1; REQS("balance", height <= lim + 1, "height %d exceeds the bound %d for max size %zu", height, lim + 1, M); } }
#elif MC_TREE == 5
    if (s.n) { Elem* t = &*x.top(); for (int i : s.vec()) REQS("heap", !higher(m.pdesc, prio(i), t->prio.v), "top() has priority %d but %d is higher", t->prio.v, prio(i));
      const C& cx = x; REQS("heap", cx.top() == C::const_iterator(x.top()) && cx.ctop() == cx.top() && &*cx.top() == t, "const top");
      bool rt = x.rtop() != x.rend() && boost::movelib::to_raw_pointer((--x.rtop().base()).pointed_node()) == boost::movelib::to_raw_pointer(x.top().pointed_node());
      if (!rt && !mc::known("treap-rtop")) REQS("heap", rt, "rtop() does not designate the element of highest priority"); }
    else REQS("heap", x.top() == x.end() || !x.top(), "top of an empty treap");
#endif
    (void)height;
    if (s.n) { REQ("iter", x.root().pointed_node() == root, "root()"); const C& cx = x; REQ("iter", cx.root() == C::const_iterator(x.root()) && x.croot() == cx.root(), "croot()"); }
  }

  template<class It> void same_elem(It it, int id, const char* what) { REQ("order", &*it == W()->el(id), "%s designates element %d, expected %d", what, rid(&*it), id); }
  void check_cont(int ci, C& x, const MC1& m, bool cmp = true) {
    mc::Hard hard; const Seq& s = m.s; const C& cx = x; int i = 0;
    SUB structure(ci, x, m); END_SUB
    SUB
    for (C::iterator it = x.begin(); it != x.end(); ++it, ++i) { REQ("order", i < s.n, "c%d iterates past its %d elements", ci, (int)s.n); same_elem(it, s.v[i], "forward iteration"); }
    REQ("order", i == s.n, "c%d: forward iteration gave %d of %d", ci, i, (int)s.n);
    for (i = 1; i < s.n; ++i) REQ("order", !ltv(m.desc, key(s.v[i]), key(s.v[i - 1])), "model not sorted");
    i = 0; for (C::const_iterator it = cx.begin(); it != cx.end(); it++, ++i) { REQ("order", i < s.n, "const iteration too long"); same_elem(it, s.v[i], "const iteration"); }
    REQ("order", i == s.n, "const iteration short");
    END_SUB
    REQS("size", x.empty() == (s.n == 0), "c%d empty()", ci);
    REQS("size", (size_t)x.size() == s.n, "c%d size()=%zu expected %d", ci, (size_t)x.size(), (int)s.n);
    SUB
    i = s.n; for (C::reverse_iterator it = x.rbegin(); it != x.rend(); ++it) { REQ("order", i > 0, "reverse too long"); same_elem(it, s.v[--i], "reverse"); } REQ("order", i == 0, "reverse short");
    i = s.n; for (C::const_reverse_iterator it = cx.rbegin(); it != cx.rend(); it++) { REQ("order", i > 0, "reverse too long"); same_elem(it, s.v[--i], "const reverse"); } REQ("order", i == 0, "reverse short");
    REQ("order", C::const_reverse_iterator(x.rbegin()) == x.crbegin() && x.crend() == cx.rend() && x.cbegin() == cx.begin() && x.cend() == cx.end(), "c-iterators");
    i = s.n; for (C::iterator it = x.end(); it != x.begin();) { --it; REQ("order", i > 0, "backward too long"); same_elem(it, s.v[--i], "backward"); } REQ("order", i == 0, "backward short");
    i = s.n; for (C::const_iterator it = cx.end(); it != cx.begin();) { C::const_iterator o = it--; REQ("order", i > 0, "backward too long"); same_elem(it, s.v[--i], "backward"); C::const_iterator q = it; REQ("iter", ++q == o, "-- then ++"); }
    x.check();
    END_SUB
    SUB
    if (cmp) { REQS("functor", x.key_comp().desc == m.desc && x.value_comp().key_comp().desc == m.desc, "c%d key_comp direction %d, expected %d", ci, x.key_comp().desc, m.desc);
#if MC_TREE == 5
      REQS("functor", x.priority_comp().desc == m.pdesc, "c%d priority_comp direction", ci);
#endif
#if MC_TREE == 4
      { float a = x.balance_factor(); REQS("functor", m.alpha == 0 ? (a > 0.7070f && a < 0.7072f) : a == ALPHAS[m.alpha], "c%d balance_factor %f", ci, a); }
#endif
    }
#if !MC_HH
    REQ("iter", &C::container_from_end_iterator(x.end()) == &x && &C::container_from_end_iterator(cx.end()) == &x, "container_from_end_iterator");
#endif
    C::iterator it = x.begin();
    for (i = 0; i < s.n; ++i, ++it) {
      Elem& el = e(s.v[i]);
      REQ("iter", x.iterator_to(el) == it && cx.iterator_to((const Elem&)el) == C::const_iterator(it), "iterator_to(%d)", s.v[i]);
#if MC_HOOK != 3
      REQ("iter", C::s_iterator_to(el) == it && C::s_iterator_to((const Elem&)el) == C::const_iterator(it), "s_iterator_to(%d)", s.v[i]);
#endif
#if !MC_HH
      REQ("iter", &C::container_from_iterator(it) == &x && &C::container_from_iterator(C::const_iterator(it)) == &x, "container_from_iterator(%d)", s.v[i]);
#endif
      REQ("iter", boost::movelib::to_raw_pointer(it.operator->()) == &el, "operator->");
      { typedef C::node_traits NT; C::iterator g1(it), g2(it), g3(it); C::const_iterator g4(it); REQ("iter", g1.go_left().pointed_node() == NT::get_left(it.pointed_node()) && g2.go_right().pointed_node() == NT::get_right(it.pointed_node()) && g3.go_parent().pointed_node() == NT::get_parent(it.pointed_node()) && g4.go_left().pointed_node() == g1.pointed_node() && g1.pointed_node() == NT::get_left(it.pointed_node()) && g2.pointed_node() == NT::get_right(it.pointed_node()) && g3.pointed_node() == NT::get_parent(it.pointed_node()) && (bool)g1 == !!NT::get_left(it.pointed_node()), "go_left/go_right/go_parent"); }
      if (HAS_LINKED) REQS("linked", linked(s.v[i]), "element %d (position %d of %d) in c%d is_linked()==false", s.v[i], i, (int)s.n, ci);
    }
    END_SUB
  }
  void check() {
    for (int k = 0; k < 2; ++k) check_cont(k, c(k), mk_(k));
    REQS("bytes", W()->g0 == 0x1122334455667788ull && W()->g1 == 0x1122334455667788ull, "guard words");
    for (int k = 0; k < 2; ++k) for (int i : ms(k).vec()) { Elem& x = e(i); REQS("bytes", x.can1 == CAN1 && x.can2 == CAN2 && x.id == i, "bytes of element %d outside the hook changed", i); }
    { int r = 0; const Seq &a = ms(0), &b = ms(1); int i = 0; for (; i < a.n && i < b.n; ++i) { int x = key(a.v[i]), y = key(b.v[i]); if (x != y) { r = x < y ? -1 : 1; break; } } if (!r) r = a.n < b.n ? -1 : a.n > b.n ? 1 : 0;
      const C &x = c(0), &y = c(1);
      REQS("rel", (x == y) == (r == 0) && (y == x) == (r == 0) && (x != y) == (r != 0) && (x < y) == (r < 0) && (x > y) == (r > 0) && (x <= y) == (r <= 0) && (x >= y) == (r >= 0) && (y < x) == (r > 0) && x == x && !(x < x) && x <= x, "relational operators, expected %d", r); }
    SUB
    for (int q = 0; q < 2; ++q) if (ms(q).n) { C::iterator az; az = c(q).begin(); REQ("iter", !!az, "operator! of an iterator to an element"); same_elem(az, ms(q).v[0], "assigned iterator"); C::const_iterator ac; ac = c(q).cbegin(); same_elem(ac, ms(q).v[0], "assigned const_iterator"); ac = az; same_elem(ac, ms(q).v[0], "const_iterator assigned from iterator"); }
    { C::iterator z = C::iterator(), z2 = C::iterator(); REQ("iter", z == z2 && !z, "value initialised iterators"); C::const_iterator conv(c(0).begin()); REQ("iter", conv == c(0).cbegin() && conv.unconst() == c(0).begin(), "conversion"); }
    END_SUB
  }
  // lookups: executed once in every state, on the const container and (where they do not restructure) on the non-const one
  std::vector<C::const_iterator> positions(int k) { std::vector<C::const_iterator> v; for (C::const_iterator i = c(k).cbegin(); ; ++i) { v.push_back(i); if (i == c(k).cend()) break; if (v.size() > 2 * NE) mc::fail("hang", "iteration does not end"); } return v; }
  void at(const std::vector<C::const_iterator>& P, C::const_iterator got, int exp, const char* what, int k, int a, int b) {
    if (P[exp] == got) return; int g = -1; for (size_t i = 0; i < P.size(); ++i) if (P[i] == got) g = (int)i;
    REQS("lookup", g == exp, "%s(%d,%d) on c%d returned position %d, expected %d", what, a, b, k, g, exp); }
  template<class Q> void lookups(Q& q, int k, const std::vector<C::const_iterator>& P) {
    int S = nslots(); FCmp fc = {mk_(k).desc};
    const bool con = std::is_const<Q>::value; long lim = lookup_limit(ms(k).n);
    for (int s = 0; s < S; ++s) {
      int l = lb(k, s), u = ub(k, s); const KA& K = KEYV(s);
      long c0 = g_calls;
      at(P, q.lower_bound(K), l, "lower_bound", k, s, con); at(P, q.upper_bound(K), u, "upper_bound", k, s, con); at(P, q.find(K), l == u ? ms(k).n : l, "find", k, s, con);
      if (lim) REQS("cost", g_calls - c0 <= 3 * lim, "three lookups in %d elements used %ld comparisons", (int)ms(k).n, g_calls - c0);
      { auto r = q.equal_range(K); at(P, r.first, l, "equal_range.first", k, s, con); at(P, r.second, u, "equal_range.second", k, s, con); }
      { auto r = q.lower_bound_range(K); at(P, r.first, l, "lower_bound_range.first", k, s, con); at(P, r.second, l + (l != u), "lower_bound_range.second", k, s, con); }
      REQ("lookup", (int)q.count(K) == u - l, "count(%d) on c%d is %d, expected %d", s, k, (int)q.count(K), u - l);
    }
    for (int a = 0; a < S; ++a) for (int b = a; b < S; ++b) {
      if (b - a > 4 && b - a < S - 2 && S > 11) continue;
      F f = {(uint8_t)a, (uint8_t)b, 0}; int l = lbf(k, f), u = ubf(k, f);
      at(P, q.lower_bound(f, fc), l, "lower_bound(foreign)", k, a, b); at(P, q.upper_bound(f, fc), u, "upper_bound(foreign)", k, a, b); at(P, q.find(f, fc), l == u ? ms(k).n : l, "find(foreign)", k, a, b);
      { auto r = q.equal_range(f, fc); at(P, r.first, l, "equal_range(foreign).first", k, a, b); at(P, r.second, u, "equal_range(foreign).second", k, a, b); }
      REQ("lookup", (int)q.count(f, fc) == u - l, "count(foreign [%d,%d]) on c%d is %d, expected %d", a, b, k, (int)q.count(f, fc), u - l);
      if (a == b) { auto r = q.lower_bound_range(f, fc); at(P, r.first, l, "lower_bound_range(foreign).first", k, a, b); at(P, r.second, l + (l != u), "lower_bound_range(foreign).second", k, a, b); }
    }
    for (int a = 0; a < S; ++a) for (int b = a; b < S; ++b) for (int m = 0; m < 4; ++m) {
      if (a == b && m == 0) continue; int lo = mk_(k).desc ? b : a, hi = mk_(k).desc ? a : b; bool lc = m & 1, rc = m & 2;
      int x = lc ? lb(k, lo) : ub(k, lo), y = rc ? ub(k, hi) : lb(k, hi);
      { auto r = q.bounded_range(KEYV(lo, 0), KEYV(hi, 1), lc, rc); at(P, r.first, x, "bounded_range.first", k, lo * 32 + hi, m); at(P, r.second, y, "bounded_range.second", k, lo * 32 + hi, m); }
      F f1 = {(uint8_t)lo, (uint8_t)lo, 0}, f2 = {(uint8_t)hi, (uint8_t)hi, 0};
      { auto r = q.bounded_range(f1, f2, fc, lc, rc); at(P, r.first, x, "bounded_range(foreign).first", k, lo * 32 + hi, m); at(P, r.second, y, "bounded_range(foreign).second", k, lo * 32 + hi, m); }
    }
    if (S <= 9) for (int a = 0; a < S; ++a) for (int b = a; b < S; ++b) for (int d = b + 1; d <= S; ++d) for (int f = d; f < S + (d == S); ++f) for (int m = 0; m < 4; ++m) {   // partitioning keys [a,b] and [d,f], and the same key twice
      bool same = d == S; if (same && m == 0) continue; if (!same && f >= S) continue;
      F f1 = {(uint8_t)a, (uint8_t)b, 0}, f2 = same ? f1 : F{(uint8_t)d, (uint8_t)f, 0}; if (mk_(k).desc) std::swap(f1, f2); bool lc = m & 1, rc = m & 2;
      int x = lc ? lbf(k, f1) : ubf(k, f1), y = rc ? ubf(k, f2) : lbf(k, f2); if (y < x) continue;
      auto r = q.bounded_range(f1, f2, fc, lc, rc); at(P, r.first, x, "bounded_range(partition).first", k, a * 16 + b, m); at(P, r.second, y, "bounded_range(partition).second", k, d * 16 + f, m);
    }
  }
  long lookup_limit(int n) {   // comparisons one lookup may use: height bound plus the final test
#if MC_TREE == 1
    return (long)(2 * std::log2(n + 1.0) + 2.001);
#elif MC_TREE == 2
    return (long)(1.4405 * std::log2(n + 2.0) + 2);
#elif MC_TREE == 4
    return 0;
#else
    (void)n; return 0;
#endif
  }
  void check_state() {
#if MC_LEAN
    return;
#endif
    static char before[sizeof(World)]; memcpy(before, mc::g_arena, sizeof(World));
    for (int k = 0; k < 2; ++k) { auto P = positions(k); SUB lookups(const_cast<const C&>(c(k)), k, P); END_SUB }
    REQS("readonly", !memcmp(before, mc::g_arena, sizeof(World)), "const lookups wrote to the container or its elements");
    if (!SPLAY) { for (int k = 0; k < 2; ++k) { auto P = positions(k); SUB lookups(c(k), k, P); END_SUB } REQS("readonly", !memcmp(before, mc::g_arena, sizeof(World)), "lookups wrote to the container or its elements"); }
  }

  //----------------------------------------------------------------------------------------------
  void settle(uint32_t before_free, bool touched) {
#if MC_TREE == 4
    for (int k = 0; k < 2; ++k) { size_t M = c(k).get_max_tree_size(); if (ms(k).n == 0 && M) mk_(k).raised = 1; else if (M <= ms(k).n) mk_(k).raised = 0; }   // emptying leaves the recorded maximum: no rebuild is due
#endif
    for (int i : free_ids()) {
      if (HAS_LINKED) REQ("linked", !linked(i), "removed element %d still is_linked()", i);
      if (MC_LINK == 1) REQ("linked", unlinked_ok(i), "removed element %d is not in the default state", i);
      REQ("bytes", e(i).can1 == CAN1 && e(i).can2 == CAN2 && e(i).id == i, "bytes of removed element %d", i);
      if ((before_free >> i & 1) && !touched) { e(i).key.v = e(i).prio.v = 0; REQ("bytes", !memcmp(W()->e[i], g_fresh[i], sizeof g_fresh[i]), "element %d, in no container, was written", i); }
      e(i).~Elem(); fresh_elem(i);
    }
    for (int i = N; i < NE; ++i) { if (HAS_LINKED) REQ("linked", !linked(i), "clone %d left linked", i); e(i).~Elem(); fresh_elem(i); }
    renumber();
  }
  void dispose_begin(int mode, int other) { g_nd = g_dlinked = g_dnull = 0; g_dmode = mode; g_dtarget = &c(other); g_dmodel = &mk_(other); }
  void disposed_is(const std::vector<int>& exp, const char* what, bool ordered) {
    std::vector<int> got(g_disposed, g_disposed + g_nd), g = got, x = exp; if (!ordered) { std::sort(g.begin(), g.end()); std::sort(x.begin(), x.end()); }
    std::string gs; for (int i : got) gs += strf(" %d", i);
    REQ("disposer", g == x, "%s disposed%s, expected %zu elements%s", what, gs.c_str(), exp.size(), ordered ? " in order" : "");
    REQ("disposer", g_dlinked == 0 && g_dnull == 0, "%s: disposer called with a still linked or foreign element", what);
  }
  C::iterator it(int k, int p) { C::iterator i = c(k).begin(); while (p-- > 0) ++i; return i; }
  C::const_iterator cit(int k, int p) { C::const_iterator i = c(k).cbegin(); while (p-- > 0) ++i; return i; }
  void it_at(C::iterator i, int k, int p, const char* what) { REQ("ret", i == it(k, p), "%s returned the wrong iterator (expected position %d)", what, p); }
  int fresh(int slot, int pr) { int i = free_ids().at(0); e(i).key.v = (uint8_t)slot; e(i).prio.v = (uint8_t)pr; return i; }
  int fresh2(int nth, int slot, int pr) { int i = free_ids().at(nth); e(i).key.v = (uint8_t)slot; e(i).prio.v = (uint8_t)pr; return i; }
  void root_is(int k, int id, const char* what) { if (!SPLAY) return; REQ("splay", &*c(k).root() == &e(id), "%s did not bring the element to the root", what); }

  void ops(std::vector<Op>& v) {
#if MC_LEAN
    { int n = ms(0).n;
      if (n < NA) for (int p = 0; p < nprios(); ++p) for (int h = 0; h <= n; ++h) { v.push_back(mk(HAS_E ? INSE_H : INSU, 0, h < n ? key(ms(0).v[h]) - !HAS_E : n ? key(ms(0).v[n - 1]) + !HAS_E : 0, p, h)); }
      for (int p = 0; p < n; ++p) v.push_back(mk(ERASE, 0, p));
      for (int a = 0; a <= n; ++a) for (int b = a + 2; b <= n; ++b) v.push_back(mk(ERASE_RANGE, 0, a, b));
      if (MC_TREE == 0 || MC_TREE == 3 || MC_TREE == 4) for (int p = 0; p < n; ++p) v.push_back(mk(REB_SUB, 0, p));
      if (SPLAY) for (int p = 0; p < n; ++p) v.push_back(mk(SPLAY_UP, 0, p)); return; }
#endif
    int S = nslots(), P = nprios(); std::vector<int> fr = free_ids(); int nf = (int)fr.size();
    for (int k = 0; k < 2; ++k) {
      int n = ms(k).n, o = 1 - k, n2 = ms(o).n; bool two = small();
      if (k == 1 && n == 0 && total() > NB) continue;
      if (nf && room(k)) for (int s = 0; s < S; ++s) for (int p = 0; p < P; ++p) {
        if (GROUPS & G_INS) { if (HAS_U) { v.push_back(mk(INSU, k, s, p)); v.push_back(mk(CHECK_, k, s, p)); v.push_back(mk(CHECK_F, k, s, p)); } if (HAS_E) v.push_back(mk(INSE, k, s, p));
          int d = mk_(k).desc; Seq& q = ms(k);
          for (int h = 0; h <= n; ++h) { bool okl = h == 0 || !ltv(d, s, key(q.v[h - 1])), okr = h == n || !ltv(d, key(q.v[h]), s); if (MC_API == 0) { okl = h == 0 || ltv(d, key(q.v[h - 1]), s); okr = h == n || ltv(d, s, key(q.v[h])); }
            if (okl && okr) { v.push_back(mk(INS_BEFORE, k, s, p, h)); if (h == n) v.push_back(mk(PUSH_BACK, k, s, p)); if (h == 0) v.push_back(mk(PUSH_FRONT, k, s, p)); } } }
        if (GROUPS & G_HINT) for (int h = 0; h <= n; ++h) { if (HAS_U) { v.push_back(mk(INSU_H, k, s, p, h)); v.push_back(mk(CHECK_H, k, s, p, h)); v.push_back(mk(CHECK_FH, k, s, p, h)); } if (HAS_E) v.push_back(mk(INSE_H, k, s, p, h)); }
        if ((GROUPS & G_THROW) && n <= 5) for (int t = 0; t < 3 + 2 * n; ++t) { if (HAS_U) { if (NOASSERT) v.push_back(mk(T_INSU, k, s, p, t)); v.push_back(mk(T_CHECKF, k, s, p, t)); } if (HAS_E) v.push_back(mk(T_INSE, k, s, p, t)); if (n <= 4) for (int h = 0; h <= n; ++h) { if (HAS_U && NOASSERT) v.push_back(mk(T_INSU_H, k, s, p, t, h)); if (HAS_E) v.push_back(mk(T_INSE_H, k, s, p, t, h)); } }
      }
      if ((GROUPS & G_RANGE) && nf >= 2 && room(k, 2) && n <= 4) for (int s = 0; s < S; ++s) for (int t = 0; t < S; ++t) { if (HAS_U) v.push_back(mk(INSU_RANGE, k, s, t)); if (HAS_E) v.push_back(mk(INSE_RANGE, k, s, t)); }
      if ((GROUPS & G_RANGE) && k == 0 && nf >= 3 && n + n2 <= 1) for (int s = 0; s < 27; ++s) v.push_back(mk(CTOR_RANGE, k, s));
      if (GROUPS & G_ERASE) {
        for (int p = 0; p < n; ++p) { v.push_back(mk(ERASE, k, p)); v.push_back(mk(ERASE_IT, k, p)); }
        for (int a = 0; a <= n; ++a) for (int b = a; b <= n; ++b) v.push_back(mk(ERASE_RANGE, k, a, b));
        for (int s = 0; s < S; ++s) { v.push_back(mk(ERASE_KEY, k, s)); for (int t = s; t < S; ++t) if (t - s <= 3) v.push_back(mk(ERASE_F, k, s, t)); }
        v.push_back(mk(CLEAR, k)); v.push_back(mk(UNLINK_LEFT, k));
        for (int p = 0; p < n; ++p) { if (nf) v.push_back(mk(REPLACE, k, p)); if (!MC_CTS && MC_TREE != 4 && MC_HOOK != 3) v.push_back(mk(REMOVE_NODE, k, p)); }
      }
      if (GROUPS & G_DISPOSE) for (int mode = 0; mode < 2; ++mode) { if (mode && !two) continue;
        for (int p = 0; p < n; ++p) { v.push_back(mk(ERASE_D, k, p, 0, mode)); v.push_back(mk(ERASE_D_IT, k, p, 0, mode)); }
        for (int a = 0; a <= n; ++a) for (int b = a; b <= n; ++b) v.push_back(mk(ERASE_RANGE_D, k, a, b, mode));
        for (int s = 0; s < S; ++s) { v.push_back(mk(ERASE_KEY_D, k, s, 0, mode)); for (int t = s; t < S; ++t) if (t - s <= 3) v.push_back(mk(ERASE_F_D, k, s, t, mode)); }
        v.push_back(mk(CLEAR_D, k, 0, 0, mode)); }
      if (GROUPS & G_REB) {
        if (MC_TREE == 0 || MC_TREE == 3 || MC_TREE == 4) { v.push_back(mk(REB, k)); for (int p = 0; p < n; ++p) v.push_back(mk(REB_SUB, k, p)); }
        if (SPLAY) { for (int p = 0; p < n; ++p) v.push_back(mk(SPLAY_UP, k, p)); if (n) for (int s = 0; s < S; ++s) { v.push_back(mk(SPLAY_DOWN, k, s)); v.push_back(mk(SPLAY_DOWN_F, k, s)); } }
        if (MC_TREE == 4 && MC_FP) for (int a = 0; a < 3; ++a) v.push_back(mk(ALPHA, k, a));
      }
      if ((GROUPS & G_LOOKUP) && SPLAY && n) for (int s = 0; s < S; ++s) { for (int q = LK_FIND; q <= LK_LBR; ++q) v.push_back(mk(q, k, s)); v.push_back(mk(LK_COUNT, k, s)); v.push_back(mk(LK_FINDF, k, s)); 
        for (int t = s; t < S; ++t) { v.push_back(mk(LK_ERF, k, s, t)); for (int m = 1; m < 4; ++m) v.push_back(mk(LK_BR, k, s, t, m)); } }
      if ((GROUPS & G_MERGE) && two && mk_(0).pdesc == mk_(1).pdesc) { if (HAS_U) v.push_back(mk(MERGE_U, k)); if (HAS_E) v.push_back(mk(MERGE_E, k));
        if (MC_API != 2 && k == 0 && n2 == 0 && nf >= 2 && n <= 3) for (int s = 0; s < S; ++s) for (int t = s; t < S; ++t) v.push_back(mk(MERGE_X, k, s, t));
        if ((GROUPS & G_THROW) && n && n2) for (int t = 0; t < 14; ++t) { if (HAS_U) v.push_back(mk(T_MERGE, k, 0, t)); if (HAS_E) v.push_back(mk(T_MERGE, k, 1, t)); } }
      if (GROUPS & G_SWAP) { v.push_back(mk(SWAP_SELF, k)); v.push_back(mk(MOVE_CTOR, k)); v.push_back(mk(SWAP, k)); v.push_back(mk(SWAP_FREE, k)); v.push_back(mk(MOVE_ASSIGN, k)); v.push_back(mk(DTOR_CONT, k)); v.push_back(mk(MOVE_ASSIGN_TMP, k)); }
      if (GROUPS & G_CLONE) for (int t = 0; t <= n2; ++t) { v.push_back(mk(CLONE, k, t)); v.push_back(mk(CLONE_RV, k, t)); }
      if ((GROUPS & G_MISUSE) && MC_LINK == 1 && !NOASSERT) for (int p = 0; p < n; ++p) { for (int q = 0; q < 7; ++q) v.push_back(mk(MIS_INS, k, p, q)); if (HAS_LINKED) v.push_back(mk(MIS_DESTROY, k, p)); }
      if ((GROUPS & G_AUTO) && HAS_LINKED) for (int p = 0; p < n; ++p) { if (MC_LINK == 2) { v.push_back(mk(UNLINK, k, p)); v.push_back(mk(DESTROY_AUTO, k, p)); } v.push_back(mk(COPY_HOOK, k, p)); }
      if ((GROUPS & G_THROW) && n && n <= 5) for (int s = 0; s < S; ++s) for (int q = 0; q < 14; ++q) for (int t = 0; t < 3 + 2 * n; ++t) v.push_back(mk(T_LOOKUP, k, s, q, t));
      if ((GROUPS & G_THROW) && n && n <= 5) for (int s = 0; s < S; ++s) for (int t = 0; t < 3 + 2 * n; ++t) v.push_back(mk(T_ERASEF, k, s, t));
      if ((GROUPS & G_THROW) && TREAP && n <= 5) for (int t = 0; t < 2 + n; ++t) {   // only the priority comparison can throw here
        for (int p = 0; p < n; ++p) { v.push_back(mk(T_POS, k, 0, p, t)); v.push_back(mk(T_POS, k, 1, p, t)); }
        for (int a = 0; a < n; ++a) for (int b = a + 1; b <= n; ++b) v.push_back(mk(T_POS, k, 2, a, t, b));
        if (nf && room(k)) for (int p = 0; p < P; ++p) { for (int h = 0; h <= n; ++h) v.push_back(mk(T_POS, k, 3, p, t, h)); v.push_back(mk(T_POS, k, 4, p, t)); v.push_back(mk(T_POS, k, 5, p, t)); } }
    }
    if ((GROUPS & G_AUTO) && MC_LINK == 2 && HAS_LINKED && nf) { v.push_back(mk(UNLINK, 2, fr[0])); v.push_back(mk(DESTROY_AUTO, 2, fr[0])); }
    if ((GROUPS & G_SWAPNODES) && MC_LINK != 0 && MC_HOOK <= 1 && !TREAP) {
      std::vector<std::pair<int, int> > pos; for (int k = 0; k < 2; ++k) for (int p = 0; p < ms(k).n; ++p) pos.push_back(std::make_pair(k, p)); if (nf) pos.push_back(std::make_pair(2, fr[0]));
      for (auto& a : pos) for (auto& b : pos) if (a != b) v.push_back(mk(SWAP_NODES, a.first, a.second, b.first, b.second));
    }
    if ((GROUPS & G_RELOC) && MC_PTR == 1 && MC_HOOK != 3 && !MC_HH) v.push_back(mk(RELOC, 0));
  }

  // f is run with the comparison throwing at call a; false: the throw was not reached
  template<class Fn> bool throwing(int a, Fn f) {
    bool thrown = false; g_calls = 0; g_throw_at = a;
    try { f(); } catch (mc::UserThrow&) { thrown = true; }
    g_throw_at = -1; return thrown;
  }
  void adopt() {   // read what is there, require it to be consistent, adopt it
    bool seen[N] = {0}; std::vector<int> w[2]; int before = total();
    for (int k = 0; k < 2; ++k) {
      for (C::iterator i = c(k).begin(); i != c(k).end(); ++i) { int id = rid(&*i); REQ("throw", id >= 0 && id < N && !seen[id] && (ms(0).find(id) >= 0 || ms(1).find(id) >= 0), "unexpected element %d after a throw", id); seen[id] = true; w[k].push_back(id); }
      REQ("throw", (size_t)c(k).size() == w[k].size(), "size() after a throw");
      for (size_t i = 1; i < w[k].size(); ++i) REQ("throw", !ltv(mk_(k).desc, key(w[k][i]), key(w[k][i - 1])), "not sorted after a throw");
    }
    REQ("throw", (int)(w[0].size() + w[1].size()) == before, "%zu elements after a throw, %d before", w[0].size() + w[1].size(), before);
    ms(0).set(w[0]); ms(1).set(w[1]);
  }
  void model_unique_insert(MC1& m, int id) { int i = 0; while (i < m.s.n && ltv(m.desc, key(m.s.v[i]), key(id))) ++i; if (i < m.s.n && key(m.s.v[i]) == key(id)) return; m.s.ins(i, id); }
  void model_equal_insert(MC1& m, int id) { int i = 0; while (i < m.s.n && !ltv(m.desc, key(id), key(m.s.v[i]))) ++i; m.s.ins(i, id); }

  bool g_touch;
  bool step(const Op& op) {
    uint32_t bf = free_mask(); g_touch = false; int tot = total();
    bool keep = step2(op);
    if (keep) { bool big = total() > NB && ms(1).n > 0 && tot > NB; settle(bf, g_touch); if (big) { check(); return false; } }
    return keep;
  }
  bool step2(const Op& op) {
    int k = op.a[0] & 1, a = op.a[1], b = op.a[2], cc = op.a[3], d = op.a[4], o = 1 - k; (void)d;
    C &x = c(k), &y = c(o); Seq &s = ms(k), &t = ms(o); MC1 &mx = mk_(k), &my = mk_(o); int n = s.n;
    FCmp fc = {mx.desc}; PFCmp pfc = {mx.pdesc}; (void)pfc;
    switch (op.k) {
    case INSU: case INSU_H: case CHECK_: case CHECK_H: case CHECK_F: case CHECK_FH: {
#if MC_API != 1
      int l = lb(k, a), u = ub(k, a); int f = fresh(a, b); std::pair<C::iterator, bool> r; C::insert_commit_data cd; F fk = {(uint8_t)a, (uint8_t)a, (uint8_t)b}; const char* nm = OPN[op.k];
      if (op.k == INSU) r = x.INS_U(e(f));
      else if (op.k == INSU_H) { C::iterator i = x.INS_U(cit(k, cc), e(f)); r = std::make_pair(i, &*i == &e(f)); }
#if MC_TREE == 5
      else if (op.k == CHECK_) r = x.CHK_U(KEYV(a), PRIOV(b), cd);
      else if (op.k == CHECK_H) r = x.CHK_U(cit(k, cc), KEYV(a), PRIOV(b), cd);
      else if (op.k == CHECK_F) r = x.CHK_U(fk, fc, fk, pfc, cd);
      else r = x.CHK_U(cit(k, cc), fk, fc, fk, pfc, cd);
#else
      else if (op.k == CHECK_) r = x.CHK_U(KEYV(a), cd);
      else if (op.k == CHECK_H) r = x.CHK_U(cit(k, cc), KEYV(a), cd);
      else if (op.k == CHECK_F) r = x.CHK_U(fk, fc, cd);
      else r = x.CHK_U(cit(k, cc), fk, fc, cd);
#endif
      REQ("ret", r.second == (l == u), "%s(%d) says %s", nm, a, r.second ? "insertable" : "not insertable");
      if (l != u) { // positions of equals: any equivalent element may be designated only when there is exactly one
        if (u - l == 1) it_at(r.first, k, l, nm); else { bool any = false; for (int i = l; i < u; ++i) any |= r.first == it(k, i); REQ("ret", any, "%s must return an equivalent element", nm); }
        return true; }
      if (op.k >= CHECK_) { for (int q = 0; q < 2; ++q) check_cont(q, c(q), mk_(q)); r.first = x.COM_U(e(f), cd); }
      s.ins(l, f); it_at(r.first, k, l, nm);
#endif
      return true; }
    case INSE: case INSE_H: {
#if MC_API != 0
      int p = op.k == INSE ? ub(k, a) : hintpos(k, cc, a); int f = fresh(a, b);
      C::iterator i = op.k == INSE ? x.INS_E(e(f)) : x.INS_E(cit(k, cc), e(f)); s.ins(p, f); it_at(i, k, p, OPN[op.k]);
#endif
      return true; }
    case INS_BEFORE: { int f = fresh(a, b); C::iterator i = x.insert_before(cit(k, cc), e(f)); s.ins(cc, f); it_at(i, k, cc, "insert_before"); root_is(k, f, "insert_before"); return true; }
    case PUSH_BACK: { int f = fresh(a, b); x.push_back(e(f)); s.ins(n, f); root_is(k, f, "push_back"); return true; }
    case PUSH_FRONT: { int f = fresh(a, b); x.push_front(e(f)); s.ins(0, f); root_is(k, f, "push_front"); return true; }
    case INSU_RANGE: case INSE_RANGE: { int id[2]; id[0] = fresh2(0, a, 0); id[1] = fresh2(1, b, 0);
#if MC_API != 1
      if (op.k == INSU_RANGE) { x.INS_U(DerefIt{id}, DerefIt{id + 2}); model_unique_insert(mx, id[0]); model_unique_insert(mx, id[1]); }
#endif
#if MC_API != 0
      if (op.k == INSE_RANGE) { x.INS_E(DerefIt{id}, DerefIt{id + 2}); model_equal_insert(mx, id[0]); model_equal_insert(mx, id[1]); }
#endif
      return true; }
    case CTOR_RANGE: { int id[3]; int q = a; for (int i = 0; i < 3; ++i) { id[i] = fresh2(i, 2 * (q % 3) + 1, 0); q /= 3; } g_touch = true;
      static char buf[sizeof(C)] __attribute__((aligned(16))); 
      for (int um = 0; um < 2; ++um) { if (um ? !HAS_U : !HAS_E) continue; MC1 m; memset((void*)&m, 0, sizeof m); m.desc = mx.desc; m.pdesc = mx.pdesc;
#if MC_API == 2
        C* z = new (buf) C(um != 0, DerefIt{id}, DerefIt{id + 3}, Cmp(mx.desc), PARG(mx.pdesc) VARG);
#else
        C* z = new (buf) C(DerefIt{id}, DerefIt{id + 3}, Cmp(mx.desc), PARG(mx.pdesc) VARG);
#endif
        for (int i = 0; i < 3; ++i) if (um) model_unique_insert(m, id[i]); else model_equal_insert(m, id[i]);
        check_cont(9, *z, m); z->clear(); z->~C(); if (MC_HOOK == 3 || MC_LINK == 0) for (int i = 0; i < 3; ++i) { int kk = key(id[i]); fresh_elem(id[i]); e(id[i]).key.v = (uint8_t)kk; } }
      return true; }
    case ERASE: { C::iterator i = x.erase(cit(k, a)); s.del(a); it_at(i, k, a, "erase"); return true; }
    case ERASE_IT: { C::iterator i = x.erase(it(k, a)); s.del(a); it_at(i, k, a, "erase"); return true; }
    case ERASE_RANGE: { C::iterator i = x.erase(cit(k, a), cit(k, b)); for (int q = a; q < b; ++q) s.del(a); it_at(i, k, a, "erase range"); return true; }
    case ERASE_KEY: case ERASE_F: case ERASE_KEY_D: case ERASE_F_D: { bool f = op.k == ERASE_F || op.k == ERASE_F_D, dis = op.k == ERASE_KEY_D || op.k == ERASE_F_D; F fk = {(uint8_t)a, (uint8_t)b, 0};
      int l = f ? lbf(k, fk) : lb(k, a), u = f ? ubf(k, fk) : ub(k, a); size_t r; std::vector<int> exp(s.v + l, s.v + u); if (dis) dispose_begin(cc, o);
      if (op.k == ERASE_KEY) r = x.erase(KEYV(a)); else if (op.k == ERASE_F) r = x.erase(fk, fc); else if (op.k == ERASE_KEY_D) r = x.erase_and_dispose(KEYV(a), Disposer()); else r = x.erase_and_dispose(fk, fc, Disposer());
      REQ("ret", (int)r == u - l, "erase by key returned %zu, expected %d", r, u - l); for (int q = l; q < u; ++q) s.del(l); if (dis) disposed_is(exp, OPN[op.k], true); return true; }
    case ERASE_D: case ERASE_D_IT: { dispose_begin(cc, o); int id = s.v[a]; C::iterator i = op.k == ERASE_D ? x.erase_and_dispose(cit(k, a), Disposer()) : x.erase_and_dispose(it(k, a), Disposer()); s.del(a); disposed_is({id}, "erase_and_dispose", true); it_at(i, k, a, "erase_and_dispose"); return true; }
    case ERASE_RANGE_D: { dispose_begin(cc, o); std::vector<int> exp(s.v + a, s.v + b); C::iterator i = x.erase_and_dispose(cit(k, a), cit(k, b), Disposer()); for (int q = a; q < b; ++q) s.del(a); disposed_is(exp, "erase_and_dispose range", true); it_at(i, k, a, "erase_and_dispose range"); return true; }
    case CLEAR: { x.clear(); s.set({}); mx.raised = 0; return true; }
    case CLEAR_D: { dispose_begin(cc, o); std::vector<int> exp = s.vec(); s.set({}); x.clear_and_dispose(Disposer()); disposed_is(exp, "clear_and_dispose", false); mx.raised = 0; return true; }
    case UNLINK_LEFT: { std::vector<int> w = s.vec(); for (size_t i = 0; i < w.size(); ++i) { C::pointer p = x.unlink_leftmost_without_rebalance(); REQ("ret", !!p && boost::movelib::to_raw_pointer(p) == &e(w[i]), "unlink_leftmost_without_rebalance: call %zu returned element %d, expected %d", i, !p ? -1 : rid(boost::movelib::to_raw_pointer(p)), w[i]);
        if (HAS_LINKED) REQ("linked", !linked(w[i]), "unlinked leftmost still linked"); if (MC_CTS) REQ("size", (size_t)x.size() == w.size() - 1 - i, "size() while unlinking leftmost"); }
      REQ("ret", !x.unlink_leftmost_without_rebalance(), "unlink_leftmost_without_rebalance on an empty tree"); return false; }
    case REPLACE: { int f = fresh(key(s.v[a]), prio(s.v[a])); int old = s.v[a]; x.replace_node(it(k, a), e(f)); s.v[a] = (uint8_t)f; (void)old; return true; }
    case REMOVE_NODE: {
#if !MC_CTS && MC_TREE != 4 && MC_HOOK != 3
      C::remove_node(e(s.v[a])); s.del(a); if (TREAP) { if (heap_broken(k) && mc::known("treap-unlink-heap")) return false; }
#endif
      return true; }
#if MC_TREE == 0 || MC_TREE == 3 || MC_TREE == 4
    case REB: { x.rebalance(); REQ("rebalance", shape_height(k) == min_height(n), "rebalance left height %d for %d elements", shape_height(k), n); return true; }
    case REB_SUB: { C::iterator i = it(k, a); std::vector<RP> sub, sub2; int bh; NP par = NT::get_parent(i.pointed_node()); g_wpd = 0; walk(i.pointed_node(), par, k, sub, 0, bh);
      std::string out0 = outside(k, sub); C::iterator r = x.rebalance_subtree(i); int h = walk(r.pointed_node(), par, k, sub2, 0, bh);
      REQ("rebalance", sub == sub2 && h == min_height((int)sub.size()), "rebalance_subtree: height %d for %zu nodes", h, sub.size()); REQ("rebalance", out0 == outside(k, sub), "rebalance_subtree touched nodes outside the subtree"); return true; }
#endif
#if MC_TREE == 3
    case SPLAY_UP: { x.splay_up(it(k, a)); root_is(k, s.v[a], "splay_up"); return true; }
    case SPLAY_DOWN: case SPLAY_DOWN_F: { F fk = {(uint8_t)a, (uint8_t)a, 0}; C::iterator r = op.k == SPLAY_DOWN ? x.splay_down(KEYV(a)) : x.splay_down(fk, fc); splayed(k, a, r == x.end() ? -1 : rid(&*r), "splay_down"); REQ("splay", r == x.root(), "splay_down returns the root"); return true; }
    case LK_FIND: case LK_FINDF: { F fk = {(uint8_t)a, (uint8_t)a, 0}; int l = lb(k, a), u = ub(k, a); C::iterator r = op.k == LK_FIND ? x.find(KEYV(a)) : x.find(fk, fc); it_at(r, k, l == u ? n : l, "find"); splayed(k, a, -1, "find"); return true; }
    case LK_LB: { it_at(x.lower_bound(KEYV(a)), k, lb(k, a), "lower_bound"); splayed(k, a, -1, "lower_bound"); return true; }
    case LK_UB: { it_at(x.upper_bound(KEYV(a)), k, ub(k, a), "upper_bound"); splayed(k, a, -1, "upper_bound"); return true; }
    case LK_ER: { auto r = x.equal_range(KEYV(a)); it_at(r.first, k, lb(k, a), "equal_range"); it_at(r.second, k, ub(k, a), "equal_range"); splayed(k, a, -1, "equal_range"); return true; }
    case LK_LBR: { auto r = x.lower_bound_range(KEYV(a)); int l = lb(k, a); it_at(r.first, k, l, "lower_bound_range"); it_at(r.second, k, l + (l != ub(k, a)), "lower_bound_range"); splayed(k, a, -1, "lower_bound_range"); return true; }
    case LK_ERF: { F fk = {(uint8_t)a, (uint8_t)b, 0}; auto r = x.equal_range(fk, fc); it_at(r.first, k, lbf(k, fk), "equal_range(foreign)"); it_at(r.second, k, ubf(k, fk), "equal_range(foreign)"); REQ("ret", (int)x.count(fk, fc) == ubf(k, fk) - lbf(k, fk), "count(foreign)"); return true; }
    case LK_COUNT: { REQ("ret", (int)x.count(KEYV(a)) == ub(k, a) - lb(k, a), "count"); return true; }
    case LK_BR: { int lo = mx.desc ? b : a, hi = mx.desc ? a : b; auto r = x.bounded_range(KEYV(lo, 0), KEYV(hi, 1), (cc & 1) != 0, (cc & 2) != 0); it_at(r.first, k, cc & 1 ? lb(k, lo) : ub(k, lo), "bounded_range"); it_at(r.second, k, cc & 2 ? ub(k, hi) : lb(k, hi), "bounded_range"); return true; }
#endif
#if MC_TREE == 4 && MC_FP
    case ALPHA: { float old = x.balance_factor(); x.balance_factor(ALPHAS[a]); mx.raised = (uint8_t)(ALPHAS[a] > old || (ALPHAS[a] == old && mx.raised)); mx.alpha = (uint8_t)a; REQ("ret", x.balance_factor() == ALPHAS[a], "balance_factor()"); return true; }
#endif
    case MERGE_U: case MERGE_E: {
      std::vector<int> src = t.vec();
#if MC_API == 2
      if (op.k == MERGE_U) x.merge_unique(y); else x.merge_equal(y);
#else
      x.merge(y);
#endif
      Seq rest; rest.set({}); for (int id : src) { int before = s.n; if (op.k == MERGE_U) model_unique_insert(mx, id); else model_equal_insert(mx, id); if (s.n == before) rest.ins(rest.n, id); } t = rest; 
      if (MC_TREE == 4) { mx.raised |= 0; } return true; }
    case MERGE_X: {
#if MC_API != 2
      g_touch = true; static char buf[sizeof(CX)] __attribute__((aligned(16))); CX* z = new (buf) CX CARGS(0, 0); int i0 = fresh2(0, a, 0), i1 = fresh2(1, b, 0); z->insert(e(i0)); if (MC_API == 0 || a != b) z->insert(e(i1));
      x.merge(*z); std::vector<int> left;
      { int before = s.n; if (MC_API == 0) model_unique_insert(mx, i0); else model_equal_insert(mx, i0); if (s.n == before) left.push_back(i0); }
      if (MC_API == 0 || a != b) { int before = s.n; if (MC_API == 0) model_unique_insert(mx, i1); else model_equal_insert(mx, i1); if (s.n == before) left.push_back(i1); }
      REQ("size", (size_t)z->size() == left.size(), "merge left %zu in the source, expected %zu", (size_t)z->size(), left.size()); size_t q = 0; for (typename CX::iterator i = z->begin(); i != z->end(); ++i, ++q) REQ("order", q < left.size() && &*i == &e(left[q]), "source after merge"); z->check();
      z->clear(); z->~CX();
#endif
      return true; }
    case SWAP: case SWAP_FREE: case MOVE_ASSIGN: { C::iterator b1 = x.begin(), b2 = y.begin();
      if (op.k == SWAP) x.swap(y); else if (op.k == MOVE_ASSIGN) x = boost::move(y); else { using std::swap; swap(x, y); }
      std::swap(mx, my); if (t.n) REQ("iter", b1 == y.begin() && &*b1 == &e(t.v[0]), "iterator after swap"); if (s.n) REQ("iter", b2 == x.begin(), "iterator after swap"); 
      for (int q = 0; q < t.n; ++q, ++b1) same_elem(b1, t.v[q], "iterator kept across swap"); if (t.n) REQ("iter", b1 == y.end(), "iterator kept across swap reaches the new end"); return true; }
    case SWAP_SELF: x.swap(x); return true;
    case MOVE_CTOR: { MC1 z; memset((void*)&z, 0, sizeof z); z.raised = 1; { alignas(16) char buf[sizeof(C)]; memset(buf, mc::g_fill, sizeof buf); C* tmp = new (buf) C(boost::move(x)); check_cont(9, *tmp, mx); check_cont(k, x, z, false); 
        if (free_ids().size() && tmp->size() + 1 <= 250) { int f = fresh(1, 1); x.push_back(e(f)); z.s.ins(0, f); check_cont(k, x, z, false); x.erase(x.begin()); z.s.del(0); check_cont(k, x, z, false); g_touch = true; if (MC_LINK == 0) fresh_elem(f); }
        x = boost::move(*tmp); check_cont(k, x, mx); check_cont(9, *tmp, z, false); tmp->~C(); } return true; }
    case MOVE_ASSIGN_TMP: { { alignas(16) char buf[sizeof(C)]; memset(buf, mc::g_fill, sizeof buf); C* tmp = new (buf) C CARGS(!mx.desc, !mx.pdesc && TREAP); x = boost::move(*tmp); MC1 z; memset((void*)&z, 0, sizeof z); z.desc = !mx.desc; z.pdesc = TREAP && !mx.pdesc; check_cont(9, *tmp, mx); check_cont(k, x, z); *tmp = boost::move(x); check_cont(9, *tmp, z); check_cont(k, x, mx); tmp->~C(); } return true; }
    case DTOR_CONT: { std::vector<int> w = s.vec(); x.~C(); if (HAS_LINKED) for (int i : w) REQ("linked", !linked(i), "element %d still linked after its container's destruction", i);
      memset(W()->c[k], mc::g_fill, sizeof W()->c[k]); new (W()->c[k]) C CARGS(mx.desc, mx.pdesc); s.set({}); mx.alpha = mx.raised = 0; return true; }
    case CLONE: case CLONE_RV: {
      g_clone_next = g_clone_calls = 0; g_clone_throw = a; g_clone_mut = false; dispose_begin(0, o); bool thrown = false; std::vector<int> exp = s.vec();
      std::string before; before.assign((char*)W()->c[o], sizeof W()->c[o]); for (int i : t.vec()) { before.append(W()->e[i], sizeof W()->e[i]);
#if MC_HOOK == 3
        before.append((char*)&W()->nodes[i], sizeof(RawNode));
#endif
      }
      try { if (op.k == CLONE) x.clone_from(static_cast<const C&>(y), Cloner(), Disposer()); else x.clone_from(boost::move(y), ClonerMut(), Disposer()); } catch (mc::UserThrow&) { thrown = true; }
      REQ("clone", thrown == (a < t.n), "cloner exception propagates");
      if (op.k == CLONE_RV && t.n && a > 0) REQ("clone", g_clone_mut, "rvalue clone_from must pass mutable references");
      { std::vector<int> sq(g_clone_seq, g_clone_seq + g_clone_calls), so = t.vec(); std::sort(sq.begin(), sq.end()); for (size_t i = 1; i < sq.size(); ++i) REQ("clone", sq[i] != sq[i - 1], "element cloned twice"); for (int i : sq) REQ("clone", t.find(i) >= 0, "foreign element cloned"); if (!thrown) REQ("clone", (int)sq.size() == t.n, "%zu clones of %d elements", sq.size(), (int)t.n); }
      std::map<int, int> cl; for (int i = 0; i < g_clone_calls; ++i) cl[g_clone_seq[i]] = N + i;
      std::vector<int> de(g_disposed, g_disposed + g_nd); std::sort(de.begin(), de.end()); std::vector<int> ex2 = exp; if (thrown) for (auto& p : cl) ex2.push_back(p.second); std::sort(ex2.begin(), ex2.end());
      REQ("clone", de == ex2 && g_dlinked == 0, "clone_from disposed %zu elements, expected %zu, each exactly once and unlinked", de.size(), ex2.size());
      { std::string after((char*)W()->c[o], sizeof W()->c[o]); for (int i : t.vec()) { after.append(W()->e[i], sizeof W()->e[i]);
#if MC_HOOK == 3
          after.append((char*)&W()->nodes[i], sizeof(RawNode));
#endif
        } REQ("clone", before == after, "clone_from changed the source"); }
      MC1 q = my; if (thrown) { q.s.set({}); q.desc = x.key_comp().desc;
#if MC_TREE == 5
        q.pdesc = x.priority_comp().desc;
#endif
        q.alpha = mx.alpha; q.raised = 0;
      } else { std::vector<int> w; for (int i : t.vec()) w.push_back(cl[i]); q.s.set(w); }
      try { check_cont(k, x, q); check_cont(o, y, my); if (!thrown) REQ("clone", x == y, "clone is not equal"); } catch (mc::Violation& v) { v.cat = "clone"; throw; }
      if (!thrown) { MC1 keep = mx; mx = q; SUB if (mc::active("clone") || mc::active("lookup")) { auto P = positions(k); lookups(const_cast<const C&>(x), k, P); }
          if (q.s.n) { x.erase(x.cbegin()); q.s.del(0); check_cont(k, x, q); } END_SUB mx = keep; }
      x.clear(); if (!thrown) { mx = q; } else { mx.desc = q.desc; mx.pdesc = q.pdesc; } s.set({}); mx.raised = 0; return true; }
    case UNLINK: case DESTROY_AUTO: {
#if MC_LINK == 2 && MC_HOOK <= 2
      int id = op.a[0] == 2 ? a : s.v[a]; if (op.a[0] != 2) s.del(a);
      if (op.k == UNLINK) {
#if MC_HOOK == 0
        e(id).BaseH::unlink();
#elif MC_HOOK == 1
        e(id).hook.unlink();
#else
        e(id).in.hook.unlink();
#endif
        REQ("linked", !linked(id), "is_linked() after unlink()");
      } else { e(id).~Elem(); memset(W()->e[id], 0x3C, sizeof W()->e[id]); if (!(TREAP && heap_broken(k))) for (int q = 0; q < 2; ++q) check_cont(q, c(q), mk_(q)); fresh_elem(id); }
      if (TREAP && heap_broken(k) && mc::known("treap-unlink-heap")) return false;
#endif
      return true; }
    case COPY_HOOK: {
#if MC_LINK != 0 && MC_HOOK <= 2
      int id = s.v[a]; static char sp[sizeof(Elem)] __attribute__((aligned(16))); Elem* cp = new (sp) Elem(e(id));
#if MC_HOOK == 0
      REQ("linked", !static_cast<BaseH*>(cp)->is_linked(), "a copy of a linked element is linked");
#endif
      *cp = e(id); e(id) = *cp; cp->~Elem(); REQ("linked", linked(id), "assigning to a linked element unlinked it");
#endif
      return true; }
    case MIS_INS: { int id = s.v[a]; C::insert_commit_data cd; int arr[1] = {id}; bool f = true; uint8_t kk = e(id).key.v;
      if (b == 0) f = mc::raises_assert([&] { y.insert_before(y.cend(), e(id)); }); else if (b == 1) f = mc::raises_assert([&] { y.push_back(e(id)); }); else if (b == 2) f = mc::raises_assert([&] { y.push_front(e(id)); });
#if MC_API != 1
      else if (b == 3) { if (lb(o, kk) != ub(o, kk)) return false; f = mc::raises_assert([&] { y.INS_U(e(id)); }); } else if (b == 4) { if (lb(o, kk) != ub(o, kk)) return false; f = mc::raises_assert([&] { y.INS_U(y.cend(), e(id)); }); }
#endif
#if MC_API != 0
      else if (b == 5) f = mc::raises_assert([&] { x.INS_E(e(id)); }); else if (b == 6) f = mc::raises_assert([&] { y.INS_E(y.cbegin(), e(id)); });
#endif
      (void)cd; (void)arr; REQ("misuse", f, "inserting an already linked element (form %d) raised no assertion", b); return false; }
    case MIS_DESTROY: { int id = s.v[a]; bool f = mc::raises_assert([&] { e(id).~Elem(); }); REQ("misuse", f, "destroying a linked safe-link element raised no assertion"); return false; }
    case SWAP_NODES: {
#if MC_HOOK <= 1 && MC_LINK != 0
      int k1 = op.a[0], p1 = op.a[1], k2 = op.a[2], p2 = op.a[3]; int i1 = k1 == 2 ? p1 : ms(k1).v[p1], i2 = k2 == 2 ? p2 : ms(k2).v[p2];
#if MC_HOOK == 0
      static_cast<BaseH&>(e(i1)).swap_nodes(e(i2));
#else
      e(i1).hook.swap_nodes(e(i2).hook);
#endif
      std::swap(e(i1).key, e(i2).key); g_touch = true;
      if (k1 != 2) ms(k1).v[p1] = (uint8_t)i2; if (k2 != 2) ms(k2).v[p2] = (uint8_t)i1;
#endif
      return true; }
    case RELOC: {
#if MC_PTR == 1 && !MC_HH
      static char other[sizeof(World) + 64] __attribute__((aligned(64))); static char save[sizeof(World)];
      memcpy(other, mc::g_arena, sizeof(World)); memcpy(save, mc::g_arena, sizeof(World)); memset(mc::g_arena, 0xEE, sizeof(World)); World* w2 = reinterpret_cast<World*>(other);
      std::string bad;
      for (int q = 0; q < 2 && bad.empty(); ++q) { C& z = w2->cont(q); Seq& zs = w2->m.k[q].s; int i = 0; for (C::iterator j = z.begin(); j != z.end(); ++j, ++i) if (i >= zs.n || &*j != w2->el(zs.v[i])) { bad = "relocated iteration"; break; } if (i != zs.n || (size_t)z.size() != zs.n) bad = "relocated size";
        if (bad.empty()) { z.check(); if (zs.n) { int kk = w2->el(zs.v[0])->key.v; if (z.count(KEYV(kk)) < 1) bad = "relocated lookup"; } } }
      // erase and reinsert at the new address, then come back
      if (bad.empty()) for (int q = 0; q < 2; ++q) { C& z = w2->cont(q); Seq& zs = w2->m.k[q].s; if (!zs.n) continue; Elem& el = *z.begin(); z.erase(z.begin()); z.insert_before(z.cbegin(), el); z.check(); if (&*z.begin() != &el) bad = "relocated reinsertion"; }
      memcpy(mc::g_arena, other, sizeof(World)); memset(other, 0xEE, sizeof(World)); REQ("reloc", bad.empty(), "%s", bad.c_str());
#endif
      return true; }
#if MC_API != 1
    case T_INSU: case T_INSU_H: case T_CHECKF: { int f = fresh(a, b); F fk = {(uint8_t)a, (uint8_t)a, (uint8_t)b}; C::insert_commit_data cd;
      if (!throwing(cc, [&] { if (op.k == T_INSU) x.INS_U(e(f)); else if (op.k == T_INSU_H) x.INS_U(cit(k, d), e(f)); else
#if MC_TREE == 5
        x.CHK_U(fk, fc, fk, pfc, cd);
#else
        x.CHK_U(fk, fc, cd);
#endif
      })) return false;
      if (HAS_LINKED) REQ("throw", !linked(f), "element left linked by a failed insertion"); return true; }
#endif
#if MC_API != 0
    case T_INSE: case T_INSE_H: { int f = fresh(a, b); if (!throwing(cc, [&] { if (op.k == T_INSE) x.INS_E(e(f)); else x.INS_E(cit(k, d), e(f)); })) return false; if (HAS_LINKED) REQ("throw", !linked(f), "element left linked by a failed insertion"); return true; }
#endif
    case T_LOOKUP: { const C& cx = x; F fk = {(uint8_t)a, (uint8_t)a, 0}; const KA& K = KEYV(a); if (!throwing(cc, [&] { switch (b) {
        case 0: x.find(K); break; case 1: x.lower_bound(K); break; case 2: x.upper_bound(K); break; case 3: x.equal_range(K); break; case 4: x.count(K); break; case 5: x.lower_bound_range(K); break; case 6: x.bounded_range(K, K, true, true); break;
        case 7: cx.find(K); break; case 8: cx.lower_bound(fk, fc); break; case 9: x.find(fk, fc); break; case 10: x.equal_range(fk, fc); break; case 11: x.count(fk, fc); break; case 12: cx.equal_range(K); break;
#if MC_TREE == 3
        case 13: x.splay_down(fk, fc); break;
#endif
        } })) return false; return true; }
    case T_ERASEF: { F fk = {(uint8_t)a, (uint8_t)a, 0}; int l = lb(k, a), u = ub(k, a); std::vector<int> w = s.vec(); if (!throwing(b, [&] { x.erase(fk, fc); })) return false;
      if (TREAP) {  // the priority comparison may throw after some of the range was erased
        std::vector<int> have; for (C::iterator i = x.begin(); i != x.end(); ++i) have.push_back(rid(&*i)); size_t gone = w.size() - have.size(); REQ("throw", have.size() <= w.size() && (int)gone <= u - l, "erase by key with a throwing comparison"); std::vector<int> ex(w.begin(), w.begin() + l); ex.insert(ex.end(), w.begin() + l + gone, w.end()); REQ("throw", have == ex, "erase by key with a throwing comparison left the wrong elements"); s.set(have); }
      return true; }
    case T_POS: { int form = a, t = cc, id = -1; std::vector<int> w = s.vec(); int slot = 0;
      if (form >= 3) { int h = form == 3 ? d : form == 4 ? n : 0; slot = h < n ? key(s.v[h]) - (MC_API == 0) : n ? key(s.v[n - 1]) + (MC_API == 0) * (mx.desc ? -1 : 1) : 0; if (mx.desc && h < n) slot = key(s.v[h]) + (MC_API == 0); id = fresh(slot, b); }
      if (form == 0 || form == 1) dispose_begin(0, o);
      if (!throwing(t, [&] { switch (form) { case 0: x.erase(cit(k, b)); break; case 1: x.erase_and_dispose(cit(k, b), Disposer()); break; case 2: x.erase(cit(k, b), cit(k, d)); break; case 3: x.insert_before(cit(k, d), e(id)); break; case 4: x.push_back(e(id)); break; case 5: x.push_front(e(id)); break; } })) return false;
      if (id >= 0 && HAS_LINKED) REQ("throw", !linked(id), "element left linked by a failed insertion");
      if (form == 1) REQ("throw", g_nd == 0, "disposer called although the erasure failed");
      if (form == 2) { // the elements already erased are gone and unlinked, the others stay
        std::vector<int> have; for (C::iterator i = x.begin(); i != x.end(); ++i) have.push_back(rid(&*i)); size_t gone = w.size() - have.size(); REQ("throw", have.size() <= w.size() && (int)gone < d - b, "range erasure with a throwing comparison"); std::vector<int> ex(w.begin(), w.begin() + b); ex.insert(ex.end(), w.begin() + b + gone, w.end()); REQ("throw", have == ex, "range erasure with a throwing comparison left the wrong elements"); s.set(have); }
      return true; }
    case T_MERGE: { if (!throwing(b, [&] {
#if MC_API == 2
        if (a == 0) x.merge_unique(y); else x.merge_equal(y);
#else
        x.merge(y);
#endif
      })) return false; adopt(); return true; }
    }
    mc::fail("internal", strf("unhandled op %d", op.k));
  }
  void splayed(int k, int slot, int, const char* what) {   // key present: an element with that key is the root; absent: a neighbour of the key
    int l = lb(k, slot), u = ub(k, slot); int r = rid(&*c(k).root()); int p = ms(k).find(r);
    if (l != u) REQ("splay", p >= l && p < u, "%s(%d): root is position %d, not an element with that key", what, slot, p);
    else REQ("splay", p == l || p == l - 1, "%s(%d): root is position %d, not a neighbour of the absent key", what, slot, p);
  }
  bool heap_broken(int k) {   // evaluated whatever the active categories are
    for (int i : ms(k).vec()) { NP n = c(k).iterator_to(e(i)).pointed_node(), ch[2] = {NT::get_left(n), NT::get_right(n)}; for (int j = 0; j < 2; ++j) if (ch[j] && higher(mk_(k).pdesc, val(k, ch[j])->prio.v, prio(i))) return true; }
    return false; }
  std::string outside(int k, const std::vector<RP>& sub) { std::string r; std::set<RP> in(sub.begin(), sub.end()); for (int i : ms(k).vec()) { CNP n = c(k).iterator_to(e(i)).pointed_node(); if (in.count(raw(n))) continue; RP q[3] = {raw(NT::get_parent(n)), raw(NT::get_left(n)), raw(NT::get_right(n))}; for (int j = 1; j < 3; ++j) if (in.count(q[j])) q[j] = 0; r.append((char*)q, sizeof q); } return r; }
};
static void do_dispose(Elem* e) {
  int i = rid(e); if (i < 0) { ++g_dnull; return; }
  bool l = HAS_LINKED ? linked(i) : MC_LINK == 1 ? !unlinked_ok(i) : false; if (l) ++g_dlinked;
  if (g_nd < 128) g_disposed[g_nd++] = i;
  if (l) return;
  int k = e->key.v, p = e->prio.v; e->~Elem(); fresh_elem(i); W()->el(i)->key.v = (uint8_t)k; W()->el(i)->prio.v = (uint8_t)p;
  if (g_dmode == 1) {
    MC1& m = *g_dmodel;
#if MC_API == 0
    int q = 0; while (q < m.s.n && Sys::ltv(m.desc, W()->el(m.s.v[q])->key.v, k)) ++q; if (q == m.s.n || W()->el(m.s.v[q])->key.v != k) { g_dtarget->INS_U(*W()->el(i)); m.s.ins(q, i); }
#else
    int q = 0; while (q < m.s.n && !Sys::ltv(m.desc, k, W()->el(m.s.v[q])->key.v)) ++q; g_dtarget->INS_E(*W()->el(i)); m.s.ins(q, i);
#endif
  }
}
int main(int argc, char** argv) {
#ifdef MC_FILL
  mc::g_fill = MC_FILL;
#endif
  mc::Opts o; Sys s; return mc::engine_main(argc, argv, s, o, "tree");
}
