// Model checking of the unordered containers.
// Macros: MC_API(0 unordered_set,1 unordered_multiset,2 raw hashtable) MC_LINK MC_CTS MC_HOOK(0 base,1 member,2 function,3 stateful value
// traits,4 derivation value traits) MC_PTR MC_SH(store_hash) MC_MK(optimize_multikey) MC_CB(cache_begin) MC_CH(compare_hash)
// MC_POL(0 modulo,1 power of two,2 incremental,3 fastmod) MC_LB(linear buckets) MC_KOV MC_SIZET MC_SUB(values with equal keys may differ)
// MC_NA/MC_NB(elements with one / two non-empty containers) MC_KEYS MC_GROUPS MC_VARIANTS
#ifndef MC_API
#define MC_API 0
#endif
#ifndef MC_LINK
#define MC_LINK 1
#endif
#ifndef MC_CTS
#define MC_CTS (MC_LINK != 2)
#endif
#ifndef MC_HOOK
#define MC_HOOK 0
#endif
#ifndef MC_PTR
#define MC_PTR 0
#endif
#ifndef MC_SH
#define MC_SH 0
#endif
#ifndef MC_MK
#define MC_MK 0
#endif
#ifndef MC_CB
#define MC_CB 0
#endif
#ifndef MC_CH
#define MC_CH 0
#endif
#ifndef MC_POL
#define MC_POL 0
#endif
#ifndef MC_LB
#define MC_LB 0
#endif
#ifndef MC_KOV
#define MC_KOV 0
#endif
#ifndef MC_SIZET
#define MC_SIZET std::size_t
#endif
#ifndef MC_SUB
#define MC_SUB 1
#endif
#ifndef MC_NA
#define MC_NA 4
#endif
#ifndef MC_NB
#define MC_NB 3
#endif
#ifndef MC_KEYS
#define MC_KEYS 4
#endif
#ifndef MC_GROUPS
#define MC_GROUPS 0xffff
#endif
#ifndef MC_VARIANTS
#define MC_VARIANTS 2
#endif
#include "core.hpp"
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/hashtable.hpp>
#include <boost/intrusive/derivation_value_traits.hpp>
#include <boost/intrusive/member_value_traits.hpp>
#include <boost/intrusive/parent_from_member.hpp>
#if MC_PTR == 1
#include "relptr.hpp"
#endif
namespace bi = boost::intrusive;
enum { G_INS = 1, G_RANGE = 2, G_ERASE = 4, G_DISPOSE = 8, G_REHASH = 16, G_CLONE = 32, G_SWAP = 64, G_MISUSE = 128, G_AUTO = 256, G_THROW = 512, G_RELOC = 1024 };
static const int GROUPS = MC_GROUPS;
#ifdef BOOST_DISABLE_ASSERTS
static const bool NOASSERT = true;
#else
static const bool NOASSERT = false;
#endif
enum { NA = MC_NA, NB = MC_NB, N = NA, CL = NA, NE = N + CL, KEYS = MC_KEYS };
static const bi::link_mode_type LM = MC_LINK == 0 ? bi::normal_link : MC_LINK == 1 ? bi::safe_link : bi::auto_unlink;
static const bool HAS_LINKED = MC_LINK != 0 && MC_HOOK <= 2;
static const bool HAS_U = MC_API != 1, HAS_E = MC_API != 0, INCR = MC_POL == 2, MULTI = MC_API != 0;
#if MC_POL == 3
static const int COUNTS[] = {3, 7}; enum { NCNT = 2, CAP = 7 };
#elif MC_POL == 0
static const int COUNTS[] = {1, 2, 3, 4}; enum { NCNT = 4, CAP = 4 };
#else
static const int COUNTS[] = {1, 2, 4, 8}; enum { NCNT = MC_POL == 2 ? 4 : 3, CAP = 8 };
#endif
// hash values: keys 0 and 1 share the whole hash value in table 0, key 2 collides with them for every power of two up to 4
static const std::size_t HT[3][6] = {{5, 5, 9, 2, 4, 0}, {2, 7, 1, 7, 3, 12}, {0, 1, 2, 3, 1, 2}};
static inline std::size_t hval(int salt, int k) { std::size_t h = HT[salt][k]; return MC_POL == 3 ? h + (k == 2 ? 4294967200u - 4294967200u % 21 : 0) : k == 2 ? h + ((std::size_t)1 << 40) : h; }

#if MC_PTR == 1
typedef mc::rel_ptr<void> VP;
#else
typedef void* VP;
#endif
struct Tag;
typedef bi::unordered_set_base_hook<bi::store_hash<MC_SH != 0>, bi::optimize_multikey<MC_MK != 0>, bi::link_mode<LM>, bi::void_pointer<VP>, bi::tag<Tag> > BaseH;
typedef bi::unordered_set_member_hook<bi::store_hash<MC_SH != 0>, bi::optimize_multikey<MC_MK != 0>, bi::link_mode<LM>, bi::void_pointer<VP> > MemH;
typedef bi::unordered_node_traits<VP, MC_SH != 0, MC_MK != 0> RawNT; typedef bi::circular_slist_algorithms<RawNT> RawAlgo; typedef RawNT::node RawNode;
static const uint32_t CAN1 = 0xC0FFEE01u, CAN2 = 0xBADF00D2u;
struct Key { uint8_t v; };
#if MC_HOOK == 0
struct Elem : BaseH {
#elif MC_HOOK == 4
struct Elem : RawNode {
#else
struct Elem {
#endif
  uint32_t can1;
#if MC_HOOK == 1
  MemH hook;
#elif MC_HOOK == 2
  struct Inner { uint32_t pad; MemH hook; } in;
#elif MC_HOOK == 6
  RawNode node;
#endif
  uint32_t can2; Key key; uint8_t sub, id;
  Elem(int k, int s, int i) : can1(CAN1), can2(CAN2), sub((uint8_t)s), id((uint8_t)i) {
    key.v = (uint8_t)k;
#if MC_HOOK == 2
    in.pad = CAN1;
#endif
#if MC_HOOK == 6 && MC_LINK == 1
    RawAlgo::init(bi::pointer_traits<RawNT::node_ptr>::pointer_to(node));
#endif
#if MC_HOOK == 4 && MC_LINK == 1
    RawAlgo::init(bi::pointer_traits<RawNT::node_ptr>::pointer_to(static_cast<RawNode&>(*this)));
#endif
  }
};
static long g_calls, g_throw_at = -1, g_hc, g_ec;
static inline void fcall() { ++g_calls; if (g_throw_at >= 0 && g_calls > g_throw_at) throw mc::UserThrow{1}; }
inline bool operator==(const Elem& a, const Elem& b) { return a.key.v == b.key.v && a.sub == b.sub; }
inline bool operator<(const Elem& a, const Elem& b) { return a.key.v < b.key.v; }
struct F { uint8_t v; };
#if MC_KOV
typedef Key KA; static inline int kv(const Key& k) { return k.v; }
struct KoV { typedef Key type; const Key& operator()(const Elem& e) const { return e.key; } };
#define KOVOPT , bi::key_of_value<KoV>
#else
typedef Elem KA; static inline int kv(const Elem& k) { return k.key.v; }
#define KOVOPT
#endif
static uint8_t g_salt_shift;      // a "language change": full_rehash must follow
struct Hash { uint8_t salt; Hash() : salt(0) {} explicit Hash(int s) : salt((uint8_t)s) {} std::size_t operator()(const KA& k) const; };
struct Eq { uint8_t tag; Eq() : tag(0) {} explicit Eq(int t) : tag((uint8_t)t) {} bool operator()(const KA& a, const KA& b) const { ++g_ec; fcall(); return kv(a) == kv(b); } };
struct FHash { uint8_t salt; std::size_t operator()(const F& k) const; };
struct FEq { bool operator()(const F& a, const KA& b) const { ++g_ec; fcall(); return a.v == kv(b); } bool operator()(const KA& a, const F& b) const { ++g_ec; fcall(); return kv(a) == b.v; } };

#if MC_HOOK == 0
typedef bi::base_hook<BaseH> VOpt;
#elif MC_HOOK == 1
typedef bi::member_hook<Elem, MemH, &Elem::hook> VOpt;
#elif MC_HOOK == 2
struct FH {
  typedef MemH hook_type; typedef bi::pointer_traits<VP>::rebind_pointer<hook_type>::type hook_ptr; typedef bi::pointer_traits<VP>::rebind_pointer<const hook_type>::type const_hook_ptr;
  typedef Elem value_type; typedef bi::pointer_traits<VP>::rebind_pointer<Elem>::type pointer; typedef bi::pointer_traits<VP>::rebind_pointer<const Elem>::type const_pointer;
  static hook_ptr to_hook_ptr(value_type& v) { return bi::pointer_traits<hook_ptr>::pointer_to(v.in.hook); }
  static const_hook_ptr to_hook_ptr(const value_type& v) { return bi::pointer_traits<const_hook_ptr>::pointer_to(v.in.hook); }
  static pointer to_value_ptr(hook_ptr n) { return bi::pointer_traits<pointer>::pointer_to(*bi::get_parent_from_member<Elem>(bi::get_parent_from_member<Elem::Inner>(&*n, &Elem::Inner::hook), &Elem::in)); }
  static const_pointer to_value_ptr(const_hook_ptr n) { return bi::pointer_traits<const_pointer>::pointer_to(*bi::get_parent_from_member<Elem>(bi::get_parent_from_member<Elem::Inner>(&*n, &Elem::Inner::hook), &Elem::in)); }
};
typedef bi::function_hook<FH> VOpt;
#elif MC_HOOK == 3
enum { ESTRIDE = (sizeof(Elem) + 15) / 16 * 16 };
struct SVT {
  typedef RawNT node_traits; typedef RawNT::node node; typedef RawNT::node_ptr node_ptr; typedef RawNT::const_node_ptr const_node_ptr;
  typedef Elem value_type; typedef bi::pointer_traits<node_ptr>::rebind_pointer<Elem>::type pointer; typedef bi::pointer_traits<node_ptr>::rebind_pointer<const Elem>::type const_pointer;
  static const bi::link_mode_type link_mode = LM;
  Elem* vals; node* nodes;
  SVT() : vals(0), nodes(0) {}
  SVT(Elem* v, node* n) : vals(v), nodes(n) {}
  node_ptr to_node_ptr(value_type& v) const { return bi::pointer_traits<node_ptr>::pointer_to(nodes[((char*)&v - (char*)vals) / ESTRIDE]); }
  const_node_ptr to_node_ptr(const value_type& v) const { return bi::pointer_traits<const_node_ptr>::pointer_to(nodes[((const char*)&v - (const char*)vals) / ESTRIDE]); }
  pointer to_value_ptr(const node_ptr& n) const { return bi::pointer_traits<pointer>::pointer_to(*(Elem*)((char*)vals + (boost::movelib::to_raw_pointer(n) - nodes) * ESTRIDE)); }
  const_pointer to_value_ptr(const const_node_ptr& n) const { return bi::pointer_traits<const_pointer>::pointer_to(*(Elem*)((char*)vals + (boost::movelib::to_raw_pointer(n) - nodes) * ESTRIDE)); }
};
typedef bi::value_traits<SVT> VOpt;
#elif MC_HOOK == 4
typedef bi::value_traits<bi::derivation_value_traits<Elem, RawNT, LM> > VOpt;
#elif MC_HOOK == 6
typedef bi::value_traits<bi::member_value_traits<Elem, RawNT, &Elem::node, LM> > VOpt;
#endif
#define POLOPT , bi::power_2_buckets<MC_POL == 1 || MC_POL == 2>, bi::incremental<MC_POL == 2>, bi::fastmod_buckets<MC_POL == 3>
#define COMMON VOpt, bi::hash<Hash>, bi::equal<Eq>, bi::size_type<MC_SIZET>, bi::constant_time_size<MC_CTS != 0>, bi::cache_begin<MC_CB != 0>, bi::compare_hash<MC_CH != 0>, bi::linear_buckets<MC_LB != 0> POLOPT KOVOPT
#if MC_API == 0
typedef bi::unordered_set<Elem, COMMON> C;
#define INS_U insert
#define CHK_U insert_check
#define COM_U insert_commit
#define FCOM_U insert_fast_commit
#elif MC_API == 1
typedef bi::unordered_multiset<Elem, COMMON> C;
#define INS_E insert
#else
typedef bi::hashtable<Elem, COMMON> C;
#define INS_E insert_equal
#define INS_U insert_unique
#define CHK_U insert_unique_check
#define COM_U insert_unique_commit
#define FCOM_U insert_unique_fast_commit
#endif
typedef C::node_traits NT; typedef C::bucket_type B; typedef C::bucket_ptr BP; typedef C::bucket_traits BT;
#if MC_HOOK == 3
#define VARG SVT(W()->el(0), W()->nodes)
#else
#define VARG C::value_traits()
#endif
using mc::Op; using mc::mk; using mc::strf;
struct Seq {
  uint8_t n; uint8_t v[2 * N];
  int find(int x) const { for (int i = 0; i < n; ++i) if (v[i] == x) return i; return -1; }
  void add(int x) { v[n++] = (uint8_t)x; }
  int del(int p) { int x = v[p]; memmove(v + p, v + p + 1, n - p - 1); --n; v[n] = 0; return x; }
  std::vector<int> vec() const { return std::vector<int>(v, v + n); }
  void set(const std::vector<int>& w) { memset(v, 0, sizeof v); n = (uint8_t)w.size(); for (int i = 0; i < n; ++i) v[i] = (uint8_t)w[i]; }
};
struct MC1 { Seq s; uint8_t arr, cnt, split, salt, tag; };     // v: the elements in iteration order
struct Model { MC1 k[2]; uint8_t shift; };
enum { SLOTS = CAP + 2, FILLB = 0xB7 };
struct alignas(16) World {
  uint64_t g0; alignas(8) char c[2][(sizeof(C) + 15) / 8 * 8]; uint64_t g1;
  alignas(16) char a[3][SLOTS * sizeof(B)]; uint64_t g2;
#if MC_HOOK == 3
  RawNode nodes[NE]; uint64_t g3;
#endif
  alignas(16) char e[NE][(sizeof(Elem) + 15) / 16 * 16];
  Model m;
  C& cont(int i) { return *reinterpret_cast<C*>(c[i]); }
  Elem* el(int i) { return reinterpret_cast<Elem*>(e[i]); }
  B* arr(int i) { return reinterpret_cast<B*>(a[i]); }
};
static inline World* W() { return reinterpret_cast<World*>(mc::g_arena); }
static_assert(sizeof(World) <= MC_ARENA, "arena");
std::size_t Hash::operator()(const KA& k) const { ++g_hc; fcall(); return hval((salt + g_salt_shift) % 3, kv(k)); }
std::size_t FHash::operator()(const F& k) const { ++g_hc; fcall(); return hval((salt + g_salt_shift) % 3, k.v); }
static char g_fresh[NE][sizeof(((World*)0)->e[0])];
static void fresh_elem(int i) {
  char* p = W()->e[i]; memset(p, mc::g_fill, sizeof W()->e[i]);
#if MC_HOOK == 3
  memset((void*)&W()->nodes[i], mc::g_fill, sizeof(RawNode));
#if MC_LINK == 1
  RawAlgo::init(bi::pointer_traits<RawNT::node_ptr>::pointer_to(W()->nodes[i]));
#endif
#endif
  new (p) Elem(0, 0, i);
}
static bool linked(int i) {
#if MC_LINK != 0 && MC_HOOK == 0
  return static_cast<BaseH*>(W()->el(i))->is_linked();
#elif MC_LINK != 0 && MC_HOOK == 1
  return W()->el(i)->hook.is_linked();
#elif MC_LINK != 0 && MC_HOOK == 2
  return W()->el(i)->in.hook.is_linked();
#else
  (void)i; return false;
#endif
}
static bool unlinked_ok(int i) {
#if MC_LINK == 1 && MC_HOOK == 3
  return !boost::movelib::to_raw_pointer(RawNT::get_next(bi::pointer_traits<RawNT::const_node_ptr>::pointer_to(W()->nodes[i])));
#elif MC_LINK == 1 && MC_HOOK == 6
  return !boost::movelib::to_raw_pointer(RawNT::get_next(bi::pointer_traits<RawNT::const_node_ptr>::pointer_to(W()->el(i)->node)));
#elif MC_LINK == 1 && MC_HOOK == 4
  return !boost::movelib::to_raw_pointer(RawNT::get_next(bi::pointer_traits<RawNT::const_node_ptr>::pointer_to(static_cast<RawNode&>(*W()->el(i)))));
#else
  return !(HAS_LINKED && linked(i));
#endif
}
static int rid(const Elem* e) { for (int i = 0; i < NE; ++i) if (W()->el(i) == e) return i; return -1; }
struct DerefIt {
  const int* p; typedef std::forward_iterator_tag iterator_category; typedef Elem value_type; typedef Elem& reference; typedef Elem* pointer; typedef std::ptrdiff_t difference_type;
  Elem& operator*() const { return *W()->el(*p); } DerefIt& operator++() { ++p; return *this; } DerefIt operator++(int) { DerefIt t = *this; ++p; return t; }
  bool operator==(const DerefIt& o) const { return p == o.p; } bool operator!=(const DerefIt& o) const { return p != o.p; }
};
#if MC_KOV
static Key g_kk; static const KA& KEYV(int k) { g_kk.v = (uint8_t)k; return g_kk; }
#else
static const KA& KEYV(int k) { alignas(16) static char b[sizeof(Elem)]; static bool init = false; if (!init) { init = true; new (b) Elem(0, 0, 255); } Elem* e = (Elem*)b; e->key.v = (uint8_t)k; return *e; }
#endif
static int g_disposed[128], g_nd, g_dmode, g_dlinked, g_dnull; static C* g_dtarget; static MC1* g_dmodel;
static void do_dispose(Elem* e);
struct Disposer { typedef C::pointer pointer; void operator()(pointer p) const { do_dispose(boost::movelib::to_raw_pointer(p)); } };
static int g_clone_next, g_clone_calls, g_clone_throw, g_clone_seq[128]; static bool g_clone_mut;
struct Cloner {
  C::pointer operator()(const Elem& e) const {
    if (g_clone_calls == g_clone_throw) throw mc::UserThrow{2};
    g_clone_seq[g_clone_calls++] = e.id;
    int i = N + g_clone_next++; W()->el(i)->key = e.key; W()->el(i)->sub = e.sub;
    return bi::pointer_traits<C::pointer>::pointer_to(*W()->el(i));
  }
};
struct ClonerMut { C::pointer operator()(Elem& e) const { g_clone_mut = true; return Cloner()(e); } };

enum { INSU = 1, CHECK_, CHECK_F, CHECK_FAST, CHECK_REHASH, INSU_RANGE, INSE, INSE_RANGE, CTOR_RANGE, ERASE, ERASE_RANGE, ERASE_KEY, ERASE_F, CLEAR, ERASE_D, ERASE_RANGE_D, ERASE_KEY_D, ERASE_F_D, CLEAR_D,
  REHASH, REHASH_SELF, FULL_REHASH, SALT, INC, INC_BT, SWAP, SWAP_FREE, SWAP_SELF, MOVE_CTOR, MOVE_ASSIGN, MOVE_ASSIGN_TMP, CLONE, CLONE_RV, DTOR_CONT, UNLINK, DESTROY_AUTO, COPY_HOOK, MIS_INS, MIS_DESTROY, RELOC,
  T_INSU, T_CHECKF, T_INSE, T_LOOKUP, T_ERASE, T_REHASH, T_FULL, T_INC, T_CLONE, OP_MAX };
static const char* OPN[] = {"?","insert_unique","insert_check_commit","insert_check_foreign_commit","insert_check_fast_commit","insert_check_rehash_commit","insert_unique_range","insert_equal","insert_equal_range","ctor_range","erase","erase_range","erase_key","erase_foreign","clear","erase_and_dispose","erase_and_dispose_range","erase_and_dispose_key","erase_and_dispose_foreign","clear_and_dispose",
  "rehash","rehash_same_traits","full_rehash","hash_change_full_rehash","incremental_rehash","incremental_rehash_traits","swap","swap_free","swap_self","move_ctor","move_assign","move_assign_from_temp","clone_from","clone_from_rv","container_dtor","hook_unlink","destroy_linked_auto","copy_assign_element","misuse_insert_linked","misuse_destroy_linked","relocate",
  "throwing_insert_unique","throwing_insert_check_foreign","throwing_insert_equal","throwing_lookup","throwing_erase","throwing_rehash","throwing_full_rehash","throwing_incremental_rehash","throwing_clone"};

struct Sys {
  static size_t image_size() { return sizeof(World); }
  int variants() { return MC_VARIANTS; }
  void restored() { g_throw_at = -1; g_salt_shift = W()->m.shift; }
  const char* opcat(const Op& o) {
    int k = o.k;
    if (k >= INSU && k <= CTOR_RANGE) return "insert";
    if (k >= ERASE_D && k <= CLEAR_D) return "disposer";
    if (k >= REHASH && k <= INC_BT) return "rehash";
    if (k >= SWAP && k <= MOVE_ASSIGN_TMP) return "swap";
    if (k == CLONE || k == CLONE_RV) return "clone";
    if (k == UNLINK || k == DESTROY_AUTO) return "auto";
    if (k >= T_INSU) return "throw";
    if (k == RELOC) return "reloc";
    return "";
  }
  std::string name(const Op& o) { return strf("%s(c%d %d %d %d %d %d)", OPN[o.k], o.a[0], o.a[1], o.a[2], o.a[3], o.a[4], o.a[5]); }
  MC1& mk_(int i) { return W()->m.k[i]; }
  Seq& ms(int i) { return W()->m.k[i].s; }
  C& c(int i) { return W()->cont(i); }
  Elem& e(int i) { return *W()->el(i); }
  int key(int i) { return W()->el(i)->key.v; }
  static std::size_t H(const MC1& m, int k) { return hval((m.salt + W()->m.shift) % 3, k); }
  static int bucket_of(const MC1& m, int k) {
    std::size_t h = H(m, k); if (!INCR) return (int)(h % m.cnt);
    std::size_t b = h % m.cnt; return (int)(b >= m.split ? b - m.cnt / 2 : b);
  }
  int spare() { return 3 - mk_(0).arr - mk_(1).arr; }
  static BT traits(int arr, int cnt) { return BT(bi::pointer_traits<BP>::pointer_to(*W()->arr(arr)), (std::size_t)(cnt + MC_LB)); }
  static int init_split(int cnt) { return INCR ? cnt / 2 : cnt; }
  static int keyc(const std::vector<int>& v, int k) { int n = 0; for (int i : v) n += W()->el(i)->key.v == k; return n; }

  void init(int var) {
    memset(mc::g_arena, mc::g_fill, sizeof(World)); W()->g0 = W()->g1 = W()->g2 = 0x1122334455667788ull; g_throw_at = -1; g_salt_shift = 0;
#if MC_HOOK == 3
    W()->g3 = 0x1122334455667788ull;
#endif
    memset(W()->a, FILLB, sizeof W()->a);
    for (int i = 0; i < NE; ++i) { fresh_elem(i); memcpy(g_fresh[i], W()->e[i], sizeof g_fresh[i]); }
    memset((void*)&W()->m, 0, sizeof(Model));
    for (int i = 0; i < 2; ++i) {
      MC1& m = mk_(i); m.arr = (uint8_t)i; m.cnt = (uint8_t)COUNTS[i == 0 ? NCNT - 1 : (NCNT > 2 ? 1 : 0)]; m.split = (uint8_t)init_split(m.cnt); m.salt = m.tag = (uint8_t)(var == 1 && i == 1);
      new (W()->c[i]) C(traits(m.arr, m.cnt), Hash(m.salt), Eq(m.tag), VARG);
    }
  }
  std::vector<int> free_ids() { std::vector<int> f; for (int i = 0; i < N; ++i) if (ms(0).find(i) < 0 && ms(1).find(i) < 0) f.push_back(i); return f; }
  uint32_t free_mask() { uint32_t m = 0; for (int i : free_ids()) m |= 1u << i; return m; }
  int total() { return ms(0).n + ms(1).n; }
  bool room(int k, int cnt = 1) { int o = 1 - k; if (ms(o).n == 0) return ms(k).n + cnt <= (k == 0 ? (int)NA : (int)NB); return total() + cnt <= NB; }
  bool small() { return total() <= NB; }
  bool has(int k, int q) { for (int i : ms(k).vec()) if (key(i) == q) return true; return false; }

  std::string canon() {
    mc::Canon k; k.selfrel = MC_PTR == 1; std::vector<int> order; std::string pre; pre += (char)W()->m.shift;
    for (int c = 0; c < 2; ++c) { for (int i : ms(c).vec()) order.push_back(i); MC1& m = mk_(c); pre += (char)m.s.n; pre += (char)m.cnt; pre += (char)m.split; pre += (char)m.salt; pre += (char)m.tag; }
    for (int i : order) { pre += (char)key(i); pre += (char)e(i).sub; }
    for (int c = 0; c < 2; ++c) { k.obj(W()->c[c], sizeof W()->c[c]); k.range(W()->c[c], sizeof(C)); }
    for (int c = 0; c < 3; ++c) { int a = c < 2 ? mk_(c).arr : spare(); k.obj(W()->a[a], sizeof W()->a[a]); if (c < 2) k.range(W()->a[a], (mk_(c).cnt + MC_LB) * sizeof(B)); }
    for (int i : order) {
#if MC_HOOK == 3
      k.obj(&W()->nodes[i], sizeof(RawNode)); k.range(&W()->nodes[i], sizeof(RawNode));
#else
      k.obj(W()->e[i], sizeof W()->e[i]); k.range(W()->e[i], (const char*)&e(i).key - W()->e[i]);
#endif
    }
    return pre + k.key();
  }

  //---------------------------------------------------------------------------------------- checks
  // true when the element is the last one of a linear bucket (listed finding: such an element has a null link)
  bool lin_last(C& x, const MC1& m, int id) {
#if MC_LB
    int n = bucket_of(m, key(id)); int last = -1; for (C::local_iterator i = x.begin(n); i != x.end(n); ++i) last = rid(&*i); return last == id;
#else
    (void)x; (void)m; (void)id; return false;
#endif
  }
  NT::const_node_ptr node_of(int id) {
#if MC_HOOK == 3
    return bi::pointer_traits<NT::const_node_ptr>::pointer_to(W()->nodes[id]);
#else
    return C::value_traits::to_node_ptr(const_cast<const Elem&>(e(id)));
#endif
  }
  void check_cont(int ci, C& x, const MC1& m, bool traits_ok = true) {
    mc::Hard hard; const Seq& s = m.s; const C& cx = x; int i = 0; int n = s.n;
    std::vector<int> got, want = s.vec();
    SUB
    for (C::iterator it = x.begin(); it != x.end(); ++it) { int id = rid(&*it); REQ("order", id >= 0, "c%d: iteration reaches a foreign object", ci); got.push_back(id); REQ("order", (int)got.size() <= n, "c%d iterates past its %d elements", ci, n); }
    { std::vector<int> a = got, b = want; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); REQ("order", a == b, "c%d: iteration visits %zu elements, expected the %d inserted ones", ci, a.size(), n); }
    { std::set<int> seen; int prev = -1; for (int id : got) { int q = key(id); if (q != prev) REQ("order", seen.insert(q).second, "c%d: equivalent elements are not adjacent", ci); prev = q; } }
    i = 0; for (C::const_iterator it = cx.begin(); it != cx.end(); it++, ++i) REQ("order", i < n && &*it == W()->el(got[i]), "const iteration differs");
    REQ("order", i == n, "const iteration short");
    i = 0; for (C::const_iterator it = x.cbegin(); it != x.cend(); ++it, ++i) REQ("order", i < n && &*it == W()->el(got[i]), "cbegin iteration differs");
    END_SUB
    REQS("size", x.empty() == (n == 0), "c%d empty()", ci);
    REQS("size", (size_t)x.size() == (size_t)n, "c%d size()=%zu expected %d", ci, (size_t)x.size(), n);
    if (!traits_ok) return;
    SUB
    REQ("bucket", (int)x.bucket_count() == m.cnt, "c%d bucket_count() %d, expected %d", ci, (int)x.bucket_count(), m.cnt);
    REQ("bucket", boost::movelib::to_raw_pointer(x.bucket_pointer()) == W()->arr(m.arr), "c%d bucket_pointer()", ci);
    if (INCR) REQ("bucket", (int)x.split_count() == m.split, "c%d split_count() %d, expected %d", ci, (int)x.split_count(), m.split);
    std::vector<int> seen; std::vector<int> per(m.cnt, 0);
    for (int b = 0; b < m.cnt; ++b) {
      int cntb = 0; std::set<int> ks; int prev = -1;
      for (C::local_iterator it = x.begin(b); it != x.end(b); ++it) { int id = rid(&*it); REQ("bucket", id >= 0 && s.find(id) >= 0, "c%d bucket %d holds a foreign object", ci, b); seen.push_back(id); ++cntb; REQ("bucket", cntb <= n, "c%d bucket %d longer than the container", ci, b);
        REQ("bucket", bucket_of(m, key(id)) == b, "c%d: element with key %d (hash %zu) lies in bucket %d of %d, its hash designates %d", ci, key(id), H(m, key(id)), b, m.cnt, bucket_of(m, key(id)));
        if (key(id) != prev) REQ("bucket", ks.insert(key(id)).second, "c%d: equivalent elements not adjacent in bucket %d", ci, b); prev = key(id); }
      per[b] = cntb;
      REQ("bucket", (int)x.bucket_size(b) == cntb, "c%d bucket_size(%d)=%d, its iterators give %d", ci, b, (int)x.bucket_size(b), cntb);
      int cc = 0; for (C::const_local_iterator it = cx.begin(b); it != cx.end(b); it++) ++cc; REQ("bucket", cc == cntb, "const local iteration of bucket %d", b);
      cc = 0; for (C::const_local_iterator it = cx.cbegin(b); it != cx.cend(b); ++it) { ++cc; REQ("bucket", &*it == &e(seen[seen.size() - cntb + cc - 1]), "cbegin(n)"); }
      REQ("bucket", (cx.begin(b) == cx.end(b)) == (cntb == 0) && (x.begin(b) == x.end(b)) == (cntb == 0), "local iterators of bucket %d", b);
    }
    { std::vector<int> a = seen, b = want; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); REQ("bucket", a == b, "c%d: the buckets hold %zu elements, expected %d", ci, a.size(), n); }
    for (int q = 0; q < KEYS; ++q) { REQ("bucket", (int)cx.bucket(KEYV(q)) == bucket_of(m, q), "c%d bucket(key %d)=%d, expected %d", ci, q, (int)cx.bucket(KEYV(q)), bucket_of(m, q)); F f = {(uint8_t)q}; FHash fh = {m.salt}; REQ("bucket", (int)cx.bucket(f, fh) == bucket_of(m, q), "bucket(foreign)"); }
    END_SUB
    SUB
    REQS("functor", x.hash_function().salt == m.salt && x.key_eq().tag == m.tag, "c%d functors: salt %d tag %d, expected %d %d", ci, x.hash_function().salt, x.key_eq().tag, m.salt, m.tag);
    i = 0;
    for (C::iterator it = x.begin(); it != x.end() && i < n; ++it, ++i) {
      Elem& el = *it;
      if (i < (int)got.size()) {
      REQ("iter", x.iterator_to(el) == it && cx.iterator_to((const Elem&)el) == C::const_iterator(it), "iterator_to(%d)", got[i]);
      { C::iterator j = x.iterator_to(el); ++j; REQ("iter", i + 1 < n ? j == x.iterator_to(e(got[i + 1])) : j == x.end(), "an iterator_to(%d) does not move along the container", got[i]); C::const_iterator cj = cx.iterator_to((const Elem&)el); cj++; REQ("iter", cj == C::const_iterator(j), "const iterator_to(%d)", got[i]); }
      { C::local_iterator l = x.local_iterator_to(el); REQ("iter", &*l == &el, "local_iterator_to"); int b = bucket_of(m, key(got[i])); bool in = false; for (C::local_iterator q = x.begin(b); q != x.end(b); ++q) if (q == l) in = true; REQ("iter", in, "local_iterator_to(%d) is not an iterator of its bucket", got[i]); REQ("iter", &*cx.local_iterator_to((const Elem&)el) == &el, "const local_iterator_to"); }
#if MC_HOOK != 3
      REQ("iter", C::s_local_iterator_to(el) == x.local_iterator_to(el) && C::s_local_iterator_to((const Elem&)el) == cx.local_iterator_to((const Elem&)el), "s_local_iterator_to");
#endif
      REQ("iter", boost::movelib::to_raw_pointer(it.operator->()) == &el && C::const_iterator(it).unconst() == it, "operator->/unconst");
      }
    }
    { C::iterator z = C::iterator(), z2 = C::iterator(); REQ("iter", z == z2, "value initialised iterators"); z = x.begin(); REQ("iter", z == x.begin(), "assigned iterator"); C::const_iterator cz; cz = z; REQ("iter", cz == x.cbegin(), "assigned const_iterator"); if (n) { ++z; C::iterator y = x.begin(); ++y; REQ("iter", z == y, "an assigned iterator increments"); } }
    END_SUB
    if (HAS_LINKED) for (int id : want) if (!linked(id)) { if (lin_last(x, m, id) && mc::known("unordered-linear-safe-link-last")) continue; REQS("linked", linked(id), "element %d in c%d is_linked()==false", id, ci); }
#if MC_SH
    for (int id : want) REQS("bucket", NT::get_hash(node_of(id)) == H(m, key(id)), "stored hash of element %d", id);
#endif
  }
  bool model_equal() { for (int q = 0; q < KEYS; ++q) { std::vector<int> a, b; for (int i : ms(0).vec()) if (key(i) == q) a.push_back(e(i).sub); for (int i : ms(1).vec()) if (key(i) == q) b.push_back(e(i).sub); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) return false; } return true; }
  void check() {
    for (int k = 0; k < 2; ++k) check_cont(k, c(k), mk_(k));
    REQS("bytes", W()->g0 == 0x1122334455667788ull && W()->g1 == 0x1122334455667788ull && W()->g2 == 0x1122334455667788ull, "guard words");
    for (int k = 0; k < 2; ++k) for (int i : ms(k).vec()) { Elem& x = e(i); REQS("bytes", x.can1 == CAN1 && x.can2 == CAN2 && x.id == i, "bytes of element %d outside the hook changed", i); }
    for (int a = 0; a < 3; ++a) { int used = a == mk_(0).arr ? mk_(0).cnt + MC_LB : a == mk_(1).arr ? mk_(1).cnt + MC_LB : 0; for (size_t j = used * sizeof(B); j < sizeof W()->a[a]; ++j) REQS("bytes", (unsigned char)W()->a[a][j] == FILLB, "memory outside the bucket range of a container was written (array %d byte %zu)", a, j); }
    { const C &x = c(0), &y = c(1); bool r = model_equal(); static char before[sizeof(World)]; memcpy(before, mc::g_arena, sizeof(World));
      REQS("rel", (x == y) == r && (y == x) == r && (x != y) == !r && (y != x) == !r && x == x && y == y && !(x != x), "operator==: expected %d", r);
      bool lt = std::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end()), gt = std::lexicographical_compare(y.begin(), y.end(), x.begin(), x.end());
      REQS("rel", (x < y) == lt && (y < x) == gt && (x > y) == gt && (y > x) == lt && (x <= y) == !gt && (x >= y) == !lt && !(x < x) && !(x > x) && x <= x && x >= x, "operator<, >, <=, >=: iteration orders compare %d, %d", lt, gt);
      REQS("rel", !memcmp(before, mc::g_arena, sizeof(World)), "comparing wrote to a container"); }
  }
  template<class Q> void lookups(Q& q, int k) {
    const bool con = std::is_const<Q>::value; MC1& m = mk_(k); std::vector<int> w = m.s.vec(); FHash fh = {m.salt}; FEq fe; typedef C::const_iterator CI;
    std::vector<CI> P; for (CI i = q.cbegin(); ; ++i) { P.push_back(i); if (i == q.cend()) break; if (P.size() > NE + 1) mc::fail("hang", "iteration does not end"); }
    for (int s = 0; s <= KEYS; ++s) {
      int kk = s < KEYS ? s : 5; if (s == KEYS && KEYS == 6) break; F f = {(uint8_t)kk}; const KA& K = KEYV(kk); int l = (int)P.size() - 1, u; for (int i = 0; i < (int)w.size(); ++i) if (key(rid(&*P[i])) == kk) { l = i; break; }
      for (u = l; u < (int)w.size() && key(rid(&*P[u])) == kk; ++u) {} int exp = u - l; int bs = (int)q.bucket_size(bucket_of(m, kk));
      g_hc = g_ec = 0; CI a = q.find(K); REQ("lookup", a == P[l], "find(%d) on c%d (const %d)", kk, k, con);
      REQS("cost", g_ec <= bs && g_hc <= 1 + (MC_SH ? 0 : 0), "find(%d) used %ld equality and %ld hash calls with %d elements in its bucket", kk, g_ec, g_hc, bs);
      g_hc = g_ec = 0; REQ("lookup", (int)q.count(K) == exp, "count(%d) on c%d is %d, expected %d", kk, k, (int)q.count(K), exp); REQS("cost", g_ec <= 4 * bs, "count");
      auto r = q.equal_range(K); if (exp) REQ("lookup", CI(r.first) == P[l] && CI(r.second) == P[u], "equal_range(%d) on c%d", kk, k); else REQ("lookup", r.first == r.second, "equal_range(%d) of an absent key on c%d", kk, k);
      if (exp) { CI i = r.first; for (int j = l; j < (int)P.size(); ++j) { REQ("lookup", i == P[j], "equal_range(%d).first does not iterate", kk); if (j + 1 < (int)P.size()) ++i; } i = r.second; for (int j = u; j < (int)P.size(); ++j) { REQ("lookup", i == P[j], "equal_range(%d).second does not iterate", kk); if (j + 1 < (int)P.size()) ++i; } }
      { CI i = a; for (int j = l; j < (int)P.size(); ++j) { REQ("lookup", i == P[j], "find(%d) does not iterate", kk); if (j + 1 < (int)P.size()) ++i; } }
      g_hc = g_ec = 0; REQ("lookup", CI(q.find(f, fh, fe)) == P[l], "find(foreign %d) on c%d", kk, k); REQS("cost", g_ec <= bs && g_hc <= 1, "foreign find"); REQ("lookup", (int)q.count(f, fh, fe) == exp, "count(foreign %d) on c%d", kk, k);
      auto rf = q.equal_range(f, fh, fe); REQ("lookup", rf.first == r.first && rf.second == r.second, "equal_range(foreign %d) on c%d", kk, k);
    }
  }
  void check_state() {
    static char before[sizeof(World)]; memcpy(before, mc::g_arena, sizeof(World));
    for (int k = 0; k < 2; ++k) { SUB lookups(const_cast<const C&>(c(k)), k); lookups(c(k), k); END_SUB }
    REQS("readonly", !memcmp(before, mc::g_arena, sizeof(World)), "lookups wrote to the container or its elements");
  }
  //----------------------------------------------------------------------------------------------
  void adopt_order(int k) { // the iteration order becomes the model order
    std::vector<int> w; for (C::iterator i = c(k).begin(); i != c(k).end() && (int)w.size() <= NE; ++i) w.push_back(rid(&*i)); std::vector<int> a = w, b = ms(k).vec(); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    if (a == b) ms(k).set(w); else { mc::Hard h; REQ("order", a == b, "c%d holds %zu elements, expected %zu (or other ones)", k, a.size(), b.size()); }
  }
  void settle(uint32_t before_free, bool touched) {
    for (int i : free_ids()) {
      if (HAS_LINKED) REQ("linked", !linked(i), "removed element %d still is_linked()", i);
      if (MC_LINK == 1) REQ("linked", unlinked_ok(i), "removed element %d is not in the default state", i);
      REQ("bytes", e(i).can1 == CAN1 && e(i).can2 == CAN2 && e(i).id == i, "bytes of removed element %d", i);
      if ((before_free >> i & 1) && !touched) { e(i).key.v = e(i).sub = 0; REQ("bytes", !memcmp(W()->e[i], g_fresh[i], sizeof g_fresh[i]), "element %d, in no container, was written", i); }
      e(i).~Elem(); fresh_elem(i);
    }
    for (int i = N; i < NE; ++i) { if (HAS_LINKED) REQ("linked", !linked(i), "clone %d left linked", i); e(i).~Elem(); fresh_elem(i); }
    for (int a = 0; a < 3; ++a) { // buckets given back to the user are reused for something else
      int used = a == mk_(0).arr ? mk_(0).cnt + MC_LB : a == mk_(1).arr ? mk_(1).cnt + MC_LB : 0; int was = m_used[a]; if (was > used) memset(W()->a[a] + used * sizeof(B), FILLB, (was - used) * sizeof(B)); }
    for (int k = 0; k < 2; ++k) adopt_order(k);
  }
  int m_used[3];
  void note_used() { for (int a = 0; a < 3; ++a) m_used[a] = a == mk_(0).arr ? mk_(0).cnt + MC_LB : a == mk_(1).arr ? mk_(1).cnt + MC_LB : 0; }
  void dispose_begin(int mode, int other) { g_nd = g_dlinked = g_dnull = 0; g_dmode = mode; g_dtarget = &c(other); g_dmodel = &mk_(other); }
  void disposed_is(const std::vector<int>& exp, const char* what) {
    std::vector<int> g(g_disposed, g_disposed + g_nd), x = exp; std::sort(g.begin(), g.end()); std::sort(x.begin(), x.end());
    REQ("disposer", g == x, "%s disposed %zu elements, expected %zu", what, g.size(), x.size());
    REQ("disposer", g_dlinked == 0 && g_dnull == 0, "%s: disposer called with a still linked or foreign element", what);
  }
  C::iterator it(int k, int p) { C::iterator i = c(k).begin(); while (p-- > 0) ++i; return i; }
  C::const_iterator cit(int k, int p) { C::const_iterator i = c(k).cbegin(); while (p-- > 0) ++i; return i; }
  int fresh(int kk, int sub = 0, int nth = 0) { int i = free_ids().at(nth); e(i).key.v = (uint8_t)kk; e(i).sub = (uint8_t)sub; return i; }
  void remove_ids(int k, const std::vector<int>& r) { std::vector<int> w; for (int i : ms(k).vec()) if (std::find(r.begin(), r.end(), i) == r.end()) w.push_back(i); ms(k).set(w); }
  std::vector<int> with_key(int k, int q) { std::vector<int> w; for (int i : ms(k).vec()) if (key(i) == q) w.push_back(i); return w; }
  void rehash_targets(int k, std::vector<std::pair<int, int> >& t) { for (int a = 0; a < 2; ++a) for (int j = 0; j < NCNT; ++j) t.push_back(std::make_pair(a, COUNTS[j])); (void)k; }

  void ops(std::vector<Op>& v) {
    std::vector<int> fr = free_ids(); int nf = (int)fr.size(); std::vector<std::pair<int, int> > rt; rehash_targets(0, rt);
    for (int k = 0; k < 2; ++k) {
      int n = ms(k).n, o = 1 - k, n2 = ms(o).n; bool two = small();
      if (k == 1 && n == 0 && total() > NB) continue;
      if (nf && room(k)) for (int s = 0; s < KEYS; ++s) for (int b = 0; b < MC_SUB; ++b) {
        if (GROUPS & G_INS) { if (HAS_U) { v.push_back(mk(INSU, k, s, b)); v.push_back(mk(CHECK_, k, s, b)); v.push_back(mk(CHECK_F, k, s, b)); v.push_back(mk(CHECK_FAST, k, s, b)); if (!has(k, s) && b == 0) for (auto& t : rt) v.push_back(mk(CHECK_REHASH, k, s, t.first, t.second)); } if (HAS_E) v.push_back(mk(INSE, k, s, b)); }
        if ((GROUPS & G_THROW) && b == 0) for (int t = 0; t < 2 + 2 * n; ++t) { if (HAS_U) { v.push_back(mk(T_INSU, k, s, t)); v.push_back(mk(T_CHECKF, k, s, t)); } if (HAS_E) v.push_back(mk(T_INSE, k, s, t)); }
      }
      if ((GROUPS & G_RANGE) && nf >= 2 && room(k, 2) && n <= 3) for (int s = 0; s < KEYS; ++s) for (int t = 0; t < KEYS; ++t) { if (HAS_U) v.push_back(mk(INSU_RANGE, k, s, t)); if (HAS_E) v.push_back(mk(INSE_RANGE, k, s, t)); }
      if ((GROUPS & G_RANGE) && MC_API != 2 && k == 0 && nf >= 3 && n + n2 <= 1) for (int s = 0; s < KEYS * KEYS * KEYS; ++s) v.push_back(mk(CTOR_RANGE, k, s));
      if (GROUPS & G_ERASE) {
        for (int p = 0; p < n; ++p) v.push_back(mk(ERASE, k, p));
        for (int a = 0; a <= n; ++a) for (int b = a; b <= n; ++b) v.push_back(mk(ERASE_RANGE, k, a, b));
        for (int s = 0; s < KEYS; ++s) { v.push_back(mk(ERASE_KEY, k, s)); v.push_back(mk(ERASE_F, k, s)); }
        v.push_back(mk(CLEAR, k));
      }
      if (GROUPS & G_DISPOSE) for (int mode = 0; mode < 2; ++mode) { if (mode && !two) continue;
        for (int p = 0; p < n; ++p) v.push_back(mk(ERASE_D, k, p, 0, mode));
        for (int a = 0; a <= n; ++a) for (int b = a; b <= n; ++b) v.push_back(mk(ERASE_RANGE_D, k, a, b, mode));
        for (int s = 0; s < KEYS; ++s) { v.push_back(mk(ERASE_KEY_D, k, s, 0, mode)); v.push_back(mk(ERASE_F_D, k, s, 0, mode)); }
        v.push_back(mk(CLEAR_D, k, 0, 0, mode)); }
      if (GROUPS & G_REHASH) {
        for (auto& t : rt) { v.push_back(mk(REHASH, k, t.first, t.second)); if (INCR) v.push_back(mk(INC_BT, k, t.first, t.second)); if ((GROUPS & G_THROW) && n) for (int q = 0; q < n; ++q) v.push_back(mk(T_REHASH, k, t.first, t.second, q)); }
        v.push_back(mk(FULL_REHASH, k)); if (k == 0) for (int s = 0; s < 3; ++s) v.push_back(mk(SALT, 0, s));
        if ((GROUPS & G_THROW) && n) for (int q = 0; q < n; ++q) v.push_back(mk(T_FULL, k, q));
        if (INCR) for (int g = 0; g < 2; ++g) { v.push_back(mk(INC, k, g)); if ((GROUPS & G_THROW) && n) for (int q = 0; q < n; ++q) v.push_back(mk(T_INC, k, g, q)); } }
      if (GROUPS & G_SWAP) { v.push_back(mk(SWAP_SELF, k)); v.push_back(mk(MOVE_CTOR, k)); v.push_back(mk(SWAP, k)); v.push_back(mk(SWAP_FREE, k)); v.push_back(mk(MOVE_ASSIGN, k)); v.push_back(mk(DTOR_CONT, k)); v.push_back(mk(MOVE_ASSIGN_TMP, k)); }
      if (GROUPS & G_CLONE) { for (int t = 0; t <= n2; ++t) { v.push_back(mk(CLONE, k, t)); v.push_back(mk(CLONE_RV, k, t)); } if (GROUPS & G_THROW) for (int t = 0; t < 3 * n2 + 1; ++t) v.push_back(mk(T_CLONE, k, t)); }
      if ((GROUPS & G_MISUSE) && MC_LINK == 1 && !NOASSERT) for (int p = 0; p < n; ++p) { for (int q = 0; q < 4; ++q) v.push_back(mk(MIS_INS, k, p, q)); if (HAS_LINKED) v.push_back(mk(MIS_DESTROY, k, p)); }
      if ((GROUPS & G_AUTO) && HAS_LINKED) for (int p = 0; p < n; ++p) { if (MC_LINK == 2) { v.push_back(mk(UNLINK, k, p)); v.push_back(mk(DESTROY_AUTO, k, p)); } v.push_back(mk(COPY_HOOK, k, p)); }
      if ((GROUPS & G_THROW) && n) for (int s = 0; s < KEYS; ++s) { for (int q = 0; q < 10; ++q) for (int t = 0; t < 2 + 2 * n; ++t) v.push_back(mk(T_LOOKUP, k, s, q, t)); for (int q = 0; q < 4; ++q) for (int t = 0; t < 2 + 2 * n; ++t) v.push_back(mk(T_ERASE, k, s, q, t)); }
    }
    if ((GROUPS & G_AUTO) && MC_LINK == 2 && HAS_LINKED && nf) { v.push_back(mk(UNLINK, 2, fr[0])); v.push_back(mk(DESTROY_AUTO, 2, fr[0])); }
    if ((GROUPS & G_RELOC) && MC_PTR == 1 && MC_HOOK != 3) v.push_back(mk(RELOC, 0));
  }
  template<class Fn> bool throwing(int a, Fn f) {
    bool thrown = false; g_calls = 0; g_throw_at = a;
    try { f(); } catch (mc::UserThrow&) { thrown = true; }
    g_throw_at = -1; return thrown;
  }
  bool g_touch;
  bool step(const Op& op) {
    uint32_t bf = free_mask(); g_touch = false; int tot = total(); note_used();
    bool keep = step2(op);
    if (keep) { bool big = total() > NB && ms(1).n > 0 && tot > NB; settle(bf, g_touch); if (big) { check(); return false; } }
    return keep;
  }
  void do_rehash_model(MC1& m, int which, int cnt) { int a = which == 0 ? m.arr : spare(); m.arr = (uint8_t)a; m.cnt = (uint8_t)cnt; m.split = (uint8_t)cnt; }
  bool step2(const Op& op) {
    int k = op.a[0] & 1, a = op.a[1], b = op.a[2], cc = op.a[3], d = op.a[4], o = 1 - k; (void)d;
    C &x = c(k), &y = c(o); Seq &s = ms(k), &t = ms(o); MC1 &mx = mk_(k), &my = mk_(o); int n = s.n; FHash fh = {mx.salt}; FEq fe;
    switch (op.k) {
    case INSU: case CHECK_: case CHECK_F: case CHECK_FAST: {
#if MC_API != 1
      std::vector<int> w = with_key(k, a); int f = fresh(a, b); std::pair<C::iterator, bool> r; C::insert_commit_data cd; F fk = {(uint8_t)a};
      if (op.k == INSU) r = x.INS_U(e(f)); else { if (op.k == CHECK_F) r = x.CHK_U(fk, fh, fe, cd); else r = x.CHK_U(KEYV(a), cd);
        REQ("ret", r.second == w.empty(), "insert_check(%d) returned %d", a, r.second);
        if (r.second) { g_hc = g_ec = 0; r.first = op.k == CHECK_FAST ? x.FCOM_U(e(f), cd) : x.COM_U(e(f), cd); REQS("cost", g_hc == 0 && g_ec == 0, "the commit called %ld hash and %ld equality functors", g_hc, g_ec); } }
      REQ("ret", r.second == w.empty(), "%s(%d) reported %d with %zu equivalent elements present", OPN[op.k], a, r.second, w.size());
      if (r.second) { REQ("ret", &*r.first == &e(f), "%s does not return the inserted element", OPN[op.k]); s.add(f); } else { REQ("ret", r.first != x.end() && std::find(w.begin(), w.end(), rid(&*r.first)) != w.end(), "%s does not return the equivalent element", OPN[op.k]); if (HAS_LINKED) REQ("linked", !linked(f), "rejected element linked"); }
      { int q = -1, p = 0; for (C::iterator i = x.begin(); i != x.end() && p <= n + 1; ++i, ++p) if (i == r.first) { q = p; C::iterator j = r.first; ++i; ++j; REQ("iter", i == j, "the returned iterator does not increment like one of the container"); break; } REQ("ret", q >= 0, "%s returned an iterator that is not reached by traversal", OPN[op.k]); }
#endif
      return true; }
    case CHECK_REHASH: {
#if MC_API != 1
      int f = fresh(a, 0); C::insert_commit_data cd; std::pair<C::iterator, bool> r = x.CHK_U(KEYV(a), cd); REQ("ret", r.second, "insert_check of an absent key");
      int arr = b == 0 ? mx.arr : spare(); x.rehash(traits(arr, cc)); do_rehash_model(mx, b, cc); C::iterator i = x.COM_U(e(f), cd); REQ("ret", &*i == &e(f), "commit after a rehash"); s.add(f);
#endif
      return true; }
    case INSU_RANGE: case INSE_RANGE: { int ids[2] = {fresh(a, 0, 0), fresh(b, 0, 1)}; DerefIt f = {ids}, l = {ids + 2};
#if MC_API == 0
      x.insert(f, l);
#elif MC_API == 1
      x.insert(f, l);
#else
      if (op.k == INSU_RANGE) x.insert_unique(f, l); else x.insert_equal(f, l);
#endif
      for (int i : ids) if (op.k == INSE_RANGE || !has(k, key(i))) s.add(i); return true; }
    case INSE: {
#if MC_API != 0
      int f = fresh(a, b); C::iterator i = x.INS_E(e(f)); s.add(f); REQ("ret", &*i == &e(f), "insert returned the wrong iterator"); { C::iterator j = x.begin(); int p = 0; while (j != i && j != x.end() && p++ <= n) ++j; REQ("ret", j == i, "insert returned an iterator that is not reached by traversal"); ++j; ++i; REQ("iter", i == j, "the returned iterator does not increment like one of the container"); }
#endif
      return true; }
    case CTOR_RANGE: {
#if MC_API != 2
      int ids[3]; int q = a; for (int i = 0; i < 3; ++i) { ids[i] = fresh(q % KEYS, 0, i); q /= KEYS; } DerefIt f = {ids}, l = {ids + 3};
      for (int i : s.vec()) { (void)i; } x.clear(); s.set({}); x.~C(); memset(W()->c[k], mc::g_fill, sizeof W()->c[k]);
      mx.split = (uint8_t)init_split(mx.cnt);
      new (W()->c[k]) C(f, l, traits(mx.arr, mx.cnt), Hash(mx.salt), Eq(mx.tag), VARG);
      for (int i : ids) if (MC_API == 1 || !has(k, key(i))) s.add(i);
#endif
      return true; }
    case ERASE: { x.erase(cit(k, a)); s.del(a); return true; }
    case ERASE_RANGE: { std::vector<int> w = s.vec(); x.erase(cit(k, a), cit(k, b)); remove_ids(k, std::vector<int>(w.begin() + a, w.begin() + b)); return true; }
    case ERASE_KEY: case ERASE_F: { std::vector<int> w = with_key(k, a); F f = {(uint8_t)a}; size_t r = op.k == ERASE_KEY ? (size_t)x.erase(KEYV(a)) : (size_t)x.erase(f, fh, fe); REQ("ret", r == w.size(), "erase(key %d) returned %zu, expected %zu", a, r, w.size()); remove_ids(k, w); return true; }
    case CLEAR: x.clear(); s.set({}); return true;
    case ERASE_D: { dispose_begin(cc, o); int id = s.v[a]; s.del(a); x.erase_and_dispose(cit(k, a), Disposer()); disposed_is({id}, "erase_and_dispose"); g_touch = true; return true; }
    case ERASE_RANGE_D: { std::vector<int> w = s.vec(); std::vector<int> r(w.begin() + a, w.begin() + b); remove_ids(k, r); dispose_begin(cc, o); x.erase_and_dispose(cit(k, a), cit(k, b), Disposer()); disposed_is(r, "erase_and_dispose(range)"); g_touch = true; return true; }
    case ERASE_KEY_D: case ERASE_F_D: { std::vector<int> w = with_key(k, a); remove_ids(k, w); dispose_begin(cc, o); F f = {(uint8_t)a}; size_t r = op.k == ERASE_KEY_D ? (size_t)x.erase_and_dispose(KEYV(a), Disposer()) : (size_t)x.erase_and_dispose(f, fh, fe, Disposer()); REQ("ret", r == w.size(), "erase_and_dispose(key %d) returned %zu, expected %zu", a, r, w.size()); disposed_is(w, "erase_and_dispose(key)"); g_touch = true; return true; }
    case CLEAR_D: { std::vector<int> w = s.vec(); s.set({}); dispose_begin(cc, o); x.clear_and_dispose(Disposer()); disposed_is(w, "clear_and_dispose"); g_touch = true; return true; }
    case REHASH: { int arr = a == 0 ? mx.arr : spare(); g_hc = g_ec = 0; x.rehash(traits(arr, b)); REQS("rehash", g_ec == 0, "rehash called the equality functor"); if (MC_SH) REQS("rehash", g_hc == 0, "rehash recomputed %ld hash values although they are stored", g_hc); else REQS("rehash", g_hc <= 2 * n, "rehash computed %ld hash values of %d elements", g_hc, n); do_rehash_model(mx, a, b); return true; }
    case FULL_REHASH: g_hc = g_ec = 0; x.full_rehash(); REQS("rehash", g_ec == 0, "full_rehash called the equality functor"); mx.split = mx.cnt; return true;
    case SALT: { W()->m.shift = (uint8_t)a; g_salt_shift = (uint8_t)a; c(0).full_rehash(); c(1).full_rehash(); mk_(0).split = mk_(0).cnt; mk_(1).split = mk_(1).cnt; return true; }
    case INC: {
#if MC_POL == 2
      bool can = a ? mx.split < mx.cnt : mx.split > mx.cnt / 2; g_hc = g_ec = 0; bool r = a ? (b & 1 ? x.incremental_rehash() : x.incremental_rehash(true)) : x.incremental_rehash(false); REQ("ret", r == can, "incremental_rehash(%d) returned %d with split %d of %d", a, r, mx.split, mx.cnt);
      if (MC_SH) REQS("rehash", g_hc == 0, "incremental_rehash recomputed stored hash values"); REQS("rehash", g_ec == 0, "incremental_rehash called the equality functor");
      if (r) mx.split = (uint8_t)(mx.split + (a ? 1 : -1));
#endif
      return true; }
    case INC_BT: {
#if MC_POL == 2
      bool can = (b == 2 * mx.cnt && mx.split == mx.cnt) || (2 * b == mx.cnt && mx.split == b); int arr = a == 0 ? mx.arr : spare(); if (mx.cnt == 1 && b == 1) can = false;
      std::vector<int> ord; for (C::iterator i = x.begin(); i != x.end(); ++i) ord.push_back(rid(&*i)); g_hc = g_ec = 0;
      bool r = x.incremental_rehash(traits(arr, b)); REQ("ret", r == can, "incremental_rehash(traits of %d) returned %d with split %d of %d", b, r, mx.split, mx.cnt); REQS("rehash", g_hc + g_ec == 0, "incremental_rehash(traits) called user functors");
      if (r) { mx.arr = (uint8_t)arr; mx.cnt = (uint8_t)b; }
#endif
      return true; }
    case SWAP: case SWAP_FREE: case MOVE_ASSIGN: { std::vector<int> w1 = s.vec(), w2 = t.vec(); if (op.k == SWAP) x.swap(y); else if (op.k == MOVE_ASSIGN) x = boost::move(y); else { using std::swap; swap(x, y); }
      std::swap(mx, my); order_is(x, w2, "swap"); order_is(y, w1, "swap"); return true; }
    case SWAP_SELF: { std::vector<int> w = s.vec(); x.swap(x); order_is(x, w, "self swap"); return true; }
    case MOVE_CTOR: { MC1 z = mx; z.s.set({}); { std::vector<int> w = s.vec(); alignas(16) char buf[sizeof(C)]; memset(buf, mc::g_fill, sizeof buf); C* tmp = new (buf) C(boost::move(x)); check_cont(9, *tmp, mx); order_is(*tmp, w, "move construction"); check_cont(k, x, z, false);
        const C& cx = x; REQ("swap", x.begin() == x.end() && cx.begin() == cx.end(), "a moved-from container is not empty"); x.clear(); dispose_begin(0, o); x.clear_and_dispose(Disposer()); REQ("swap", g_nd == 0, "a moved-from container disposed elements"); check_cont(k, x, z, false); check_cont(9, *tmp, mx);
        x = boost::move(*tmp); check_cont(k, x, mx); order_is(x, w, "move assignment"); check_cont(9, *tmp, z, false); tmp->~C(); check_cont(k, x, mx); } return true; }
    case MOVE_ASSIGN_TMP: { { std::vector<int> w = s.vec(); MC1 z; memset((void*)&z, 0, sizeof z); z.arr = (uint8_t)spare(); z.cnt = (uint8_t)COUNTS[0]; z.split = (uint8_t)init_split(z.cnt); z.salt = !mx.salt; z.tag = !mx.tag; alignas(16) char buf[sizeof(C)]; memset(buf, mc::g_fill, sizeof buf);
        C* tmp = new (buf) C(traits(z.arr, z.cnt), Hash(z.salt), Eq(z.tag), VARG); x = boost::move(*tmp); check_cont(9, *tmp, mx); check_cont(k, x, z); *tmp = boost::move(x); check_cont(9, *tmp, z); check_cont(k, x, mx); order_is(x, w, "move assignment"); tmp->~C(); memset(W()->a[z.arr], FILLB, (z.cnt + MC_LB) * sizeof(B)); } return true; }
    case DTOR_CONT: { std::vector<int> w = s.vec(); x.~C(); if (HAS_LINKED) for (int i : w) REQ("linked", !linked(i), "element %d still linked after its container's destruction", i);
      memset(W()->c[k], mc::g_fill, sizeof W()->c[k]); mx.split = (uint8_t)init_split(mx.cnt); memset(W()->a[mx.arr], FILLB, (mx.cnt + MC_LB) * sizeof(B)); new (W()->c[k]) C(traits(mx.arr, mx.cnt), Hash(mx.salt), Eq(mx.tag), VARG); s.set({}); return true; }
    case CLONE: case CLONE_RV: case T_CLONE: {
      g_clone_next = g_clone_calls = 0; g_clone_throw = op.k == T_CLONE ? 1000 : a; g_clone_mut = false; dispose_begin(0, o); bool thrown = false; std::vector<int> exp = s.vec();
      std::string before = image(o); g_hc = g_ec = 0; if (op.k == T_CLONE) { g_calls = 0; g_throw_at = a; }
      try { if (op.k != CLONE_RV) x.clone_from(static_cast<const C&>(y), Cloner(), Disposer()); else x.clone_from(boost::move(y), ClonerMut(), Disposer()); } catch (mc::UserThrow&) { thrown = true; }
      g_throw_at = -1; if (op.k == T_CLONE && !thrown) return false;
      if (op.k != T_CLONE) REQ("clone", thrown == (a < t.n), "cloner exception propagates");
      if (op.k == CLONE_RV && t.n && a > 0) REQ("clone", g_clone_mut, "rvalue clone_from must pass mutable references");
      if (MC_SH) REQS("clone", g_hc == 0, "clone_from computed %ld hash values although they are stored", g_hc);
      { std::vector<int> sq(g_clone_seq, g_clone_seq + g_clone_calls), so = t.vec(); std::sort(sq.begin(), sq.end()); for (size_t i = 1; i < sq.size(); ++i) REQ("clone", sq[i] != sq[i - 1], "element cloned twice"); for (int i : sq) REQ("clone", t.find(i) >= 0, "foreign element cloned"); if (!thrown) REQ("clone", (int)sq.size() == t.n, "%zu clones of %d elements", sq.size(), (int)t.n); }
      std::vector<int> ex2 = exp; if (thrown) for (int i = 0; i < g_clone_calls; ++i) ex2.push_back(N + i); std::sort(ex2.begin(), ex2.end());
      std::vector<int> de(g_disposed, g_disposed + g_nd); std::sort(de.begin(), de.end()); const char* ccat = op.k == T_CLONE ? "throw" : "clone";
      REQ(ccat, de == ex2 && g_dlinked == 0, "clone_from disposed %zu elements, expected %zu, each exactly once and unlinked", de.size(), ex2.size());
      REQ(ccat, before == image(o), "clone_from changed the source");
      MC1 q = mx; if (thrown) { q.s.set({}); q.salt = x.hash_function().salt; q.tag = x.key_eq().tag; } else { std::vector<int> w; for (int i = 0; i < g_clone_calls; ++i) w.push_back(N + i); q.s.set(w); q.salt = my.salt; q.tag = my.tag; }
      try { check_cont(k, x, q); check_cont(o, y, my); if (!thrown) REQ("clone", x == y && y == x, "clone is not equal"); } catch (mc::Violation& v) { if (v.cat != "linked") v.cat = ccat; throw; }
      if (!thrown) { MC1 keep = mx; mx = q; SUB if (mc::active("clone") || mc::active("lookup")) { lookups(const_cast<const C&>(x), k); } if (q.s.n) { int id = rid(&*x.begin()); x.erase(x.cbegin()); q.s.del(q.s.find(id)); check_cont(k, x, q); } END_SUB mx = keep; }
      x.clear(); mx.salt = q.salt; mx.tag = q.tag; s.set({}); return true; }
    case UNLINK: case DESTROY_AUTO: {
#if MC_LINK == 2 && MC_HOOK <= 2
      int id = op.a[0] == 2 ? a : s.v[a];
      if (MC_LB && op.a[0] != 2 && mc::known("unordered-linear-auto-unlink")) return false;
      if (op.a[0] != 2) s.del(a);
      if (op.k == UNLINK) {
#if MC_HOOK == 0
        e(id).BaseH::unlink();
#elif MC_HOOK == 1
        e(id).hook.unlink();
#else
        e(id).in.hook.unlink();
#endif
        REQ("linked", !linked(id), "is_linked() after unlink()");
      } else { e(id).~Elem(); memset(W()->e[id], 0x3C, sizeof W()->e[id]); for (int q = 0; q < 2; ++q) check_cont(q, c(q), mk_(q)); fresh_elem(id); }
#endif
      return true; }
    case COPY_HOOK: {
#if MC_LINK != 0 && MC_HOOK <= 2
      int id = s.v[a]; alignas(16) static char sp[sizeof(Elem)]; bool was = linked(id); Elem* cp = new (sp) Elem(e(id)); *cp = e(id); e(id) = *cp;
#if MC_HOOK == 0
      REQ("linked", !static_cast<BaseH*>(cp)->is_linked(), "a copy of a linked element is linked");
#endif
      cp->~Elem(); REQ("linked", linked(id) == was, "assigning to a linked element changed its membership");
#endif
      return true; }
    case MIS_INS: { int id = s.v[a]; bool f = true; if (lin_last(x, mx, id) && mc::known("unordered-linear-safe-link-last")) return false;
#if MC_API != 1
      if (b < 3 && has(o, key(id))) return false; C::insert_commit_data cd;
      if (b == 0) f = mc::raises_assert([&] { y.INS_U(e(id)); }); else if (b == 1) { y.CHK_U(KEYV(key(id)), cd); f = mc::raises_assert([&] { y.COM_U(e(id), cd); }); } else if (b == 2) { y.CHK_U(KEYV(key(id)), cd); f = mc::raises_assert([&] { y.FCOM_U(e(id), cd); }); }
#endif
#if MC_API != 0
      if (b == 3) f = mc::raises_assert([&] { y.INS_E(e(id)); });
#endif
      REQ("misuse", f, "inserting an already linked element (form %d) raised no assertion", b); return false; }
    case MIS_DESTROY: { int id = s.v[a]; if (lin_last(x, mx, id) && mc::known("unordered-linear-safe-link-last")) return false; bool f = mc::raises_assert([&] { e(id).~Elem(); }); REQ("misuse", f, "destroying a linked safe-link element raised no assertion"); return false; }
    case RELOC: {
#if MC_PTR == 1
      static char other[sizeof(World) + 64] __attribute__((aligned(64))); memcpy(other, mc::g_arena, sizeof(World)); memset(mc::g_arena, 0xEE, sizeof(World)); World* w2 = reinterpret_cast<World*>(other); std::string bad;
      for (int q = 0; q < 2 && bad.empty(); ++q) { C& z = w2->cont(q); Seq& zs = w2->m.k[q].s; int i = 0; for (C::iterator j = z.begin(); j != z.end(); ++j, ++i) if (i >= zs.n || &*j != w2->el(zs.v[i])) { bad = "relocated iteration"; break; } if (i != zs.n || (size_t)z.size() != zs.n) bad = "relocated size";
        if (bad.empty() && zs.n) { Elem& el = *z.begin(); if (z.count(KEYV(el.key.v)) < 1) bad = "relocated lookup"; z.erase(z.cbegin());
#if MC_API == 0
          z.insert(el);
#elif MC_API == 1
          z.insert(el);
#else
          z.insert_equal(el);
#endif
          if (z.find(KEYV(el.key.v)) == z.end() || (size_t)z.size() != zs.n) bad = "relocated reinsertion"; } }
      memcpy(mc::g_arena, other, sizeof(World)); memset(other, 0xEE, sizeof(World)); REQ("reloc", bad.empty(), "%s", bad.c_str());
#endif
      return true; }
#if MC_API != 1
    case T_INSU: case T_CHECKF: { int f = fresh(a, 0); F fk = {(uint8_t)a}; C::insert_commit_data cd; if (!throwing(b, [&] { if (op.k == T_INSU) x.INS_U(e(f)); else x.CHK_U(fk, fh, fe, cd); })) return false; if (HAS_LINKED) REQ("throw", !linked(f), "element left linked by a failed insertion"); return true; }
#endif
#if MC_API != 0
    case T_INSE: { int f = fresh(a, 0); if (!throwing(b, [&] { x.INS_E(e(f)); })) return false; if (HAS_LINKED) REQ("throw", !linked(f), "element left linked by a failed insertion"); return true; }
#endif
    case T_LOOKUP: { const C& cx = x; F f = {(uint8_t)a}; const KA& K = KEYV(a); if (!throwing(cc, [&] { switch (b) { case 0: x.find(K); break; case 1: cx.find(K); break; case 2: x.count(K); break; case 3: x.equal_range(K); break; case 4: cx.equal_range(K); break; case 5: x.find(f, fh, fe); break; case 6: x.equal_range(f, fh, fe); break; case 7: cx.count(f, fh, fe); break; case 8: cx.bucket(K); break; case 9: (void)(cx == static_cast<const C&>(y)); break; } })) return false; return true; }
    case T_ERASE: { F f = {(uint8_t)a}; dispose_begin(0, o); if (!throwing(cc, [&] { switch (b) { case 0: x.erase(KEYV(a)); break; case 1: x.erase(f, fh, fe); break; case 2: x.erase_and_dispose(KEYV(a), Disposer()); break; case 3: x.erase_and_dispose(f, fh, fe, Disposer()); break; } })) return false; REQ("throw", g_nd == 0, "disposer called although the erasure failed"); return true; }
    case T_REHASH: case T_FULL: case T_INC: { int arr = a == 0 ? mx.arr : spare(); if (!throwing(op.k == T_REHASH ? cc : op.k == T_FULL ? a : b, [&] { if (op.k == T_REHASH) x.rehash(traits(arr, b)); else if (op.k == T_FULL) x.full_rehash();
#if MC_POL == 2
        else x.incremental_rehash(a != 0);
#endif
      })) return false;
      // Basic guarantee: whatever is still in the container is consistent, the rest is properly unlinked
      std::vector<int> have; for (C::iterator i = x.begin(); i != x.end(); ++i) { int id = rid(&*i); REQ("throw", id >= 0 && s.find(id) >= 0 && std::find(have.begin(), have.end(), id) == have.end(), "foreign or repeated element after a failed rehash"); have.push_back(id); }
      for (int i : s.vec()) if (std::find(have.begin(), have.end(), i) == have.end()) { if (HAS_LINKED) REQ("throw", !linked(i), "a failed rehash lost element %d and left it linked", i); if (MC_LINK == 1) REQ("throw", unlinked_ok(i), "a failed rehash lost element %d", i); }
      s.set(have); { B* p = boost::movelib::to_raw_pointer(x.bucket_pointer()); REQ("throw", p == W()->arr(mx.arr) || (op.k == T_REHASH && p == W()->arr(arr)), "bucket array after a failed rehash"); int oc = mx.cnt; mx.arr = (uint8_t)(((char*)p - W()->a[0]) / sizeof W()->a[0]); mx.cnt = (uint8_t)x.bucket_count(); REQ("throw", mx.cnt == oc || (op.k == T_REHASH && mx.cnt == b), "bucket count after a failed rehash"); }
      if (INCR) { int ns = (int)x.split_count(); REQ("throw", ns >= mx.cnt / 2 && ns <= mx.cnt, "split count %d of %d after a failed rehash", ns, mx.cnt); mx.split = (uint8_t)ns; }
      else mx.split = mx.cnt;
      int used = mx.cnt + MC_LB; if (op.k == T_REHASH) { for (int q = 0; q < 3; ++q) if (q == arr) { int u = q == mx.arr ? used : 0; int w = b + MC_LB; if (w > u) memset(W()->a[q] + u * sizeof(B), FILLB, (w - u) * sizeof(B)); } }
      return true; }
    }
    mc::fail("internal", strf("unhandled op %d", op.k));
  }
  std::string image(int o) { MC1& m = mk_(o); std::string r(W()->c[o], sizeof W()->c[o]); r.append(W()->a[m.arr], (m.cnt + MC_LB) * sizeof(B)); for (int i : m.s.vec()) { r.append(W()->e[i], sizeof W()->e[i]);
#if MC_HOOK == 3
      r.append((char*)&W()->nodes[i], sizeof(RawNode));
#endif
    } return r; }
  void order_is(C& x, const std::vector<int>& w, const char* what) { size_t p = 0; for (C::iterator i = x.begin(); i != x.end(); ++i, ++p) REQ("order", p < w.size() && &*i == &e(w[p]), "%s changed the iteration", what); REQ("order", p == w.size(), "%s lost elements", what); }
};
static void do_dispose(Elem* e) {
  int i = rid(e); if (i < 0) { ++g_dnull; return; }
  bool l = HAS_LINKED ? linked(i) : MC_LINK == 1 ? !unlinked_ok(i) : false; if (l) ++g_dlinked;
  if (g_nd < 128) g_disposed[g_nd++] = i;
  if (l) return;
  int k = e->key.v, sb = e->sub; e->~Elem(); fresh_elem(i); W()->el(i)->key.v = (uint8_t)k; W()->el(i)->sub = (uint8_t)sb;
  if (g_dmode == 1) {
    MC1& m = *g_dmodel; bool hasq = false; for (int j : m.s.vec()) hasq = hasq || W()->el(j)->key.v == k;
#if MC_API == 0
    if (!hasq) { g_dtarget->insert(*W()->el(i)); m.s.add(i); }
#else
    (void)hasq; g_dtarget->INS_E(*W()->el(i)); m.s.add(i);
#endif
  }
}
int main(int argc, char** argv) {
#ifdef MC_FILL
  mc::g_fill = MC_FILL;
#endif
  mc::Opts o; Sys s; return mc::engine_main(argc, argv, s, o, "hash");
}
