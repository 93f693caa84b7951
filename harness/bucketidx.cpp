// C25: bucket-count suggestions and bucket indexing, by exhaustive enumeration of the inputs through the public interface.
//  suggest: every n of 8-, 16- and 32-bit size types (32 bit: all 2^32), every boundary of 64 bit
//  index  : containers with real (aliased) bucket arrays of every provided count below 2^32, every 32-bit hash
#include "core.hpp"
#include <boost/intrusive/unordered_set.hpp>
#include <thread>
#include <atomic>
#include <mutex>
#include <sys/mman.h>
#ifndef MC_SHARE
#define MC_SHARE 1        // fraction 1/MC_SHARE of the 2^32 hashes per prime: blocks of consecutive values
#endif
namespace bi = boost::intrusive;
typedef uint64_t u64;
static std::mutex g_mx; static mc::Report g_r; static std::atomic<u64> g_eval(0);
static std::atomic<u64> g_many(0);
// formatting is skipped once enough violations have been described
#define VIOL(cat, op, ...) do { if (g_many++ < 64) violation(cat, op, __VA_ARGS__); } while (0)
static void violation(const char* cat, const char* op, const std::string& msg) {
  std::lock_guard<std::mutex> l(g_mx);
  if (!mc::active(cat)) return;
  ++g_r.nviol; if (++g_r.percat[std::string(cat) + op] > 3) return;
  mc::Report::V v; v.cat = cat; v.op = op; v.msg = msg; v.variant = 0; g_r.viols.push_back(v);
}
static std::atomic<u64> g_known_lower(0), g_known_upper(0);
template<class F> static void parallel(u64 n, F f) {   // f(begin, end)
  unsigned T = std::max(1u, std::min(8u, std::thread::hardware_concurrency())); std::atomic<u64> next(0); u64 chunk = std::max<u64>(1, n / (T * 16));
  std::vector<std::thread> ts;
  for (unsigned t = 0; t < T; ++t) ts.emplace_back([&] { for (;;) { u64 b = next.fetch_add(chunk); if (b >= n) return; f(b, std::min(n, b + chunk)); } });
  for (auto& t : ts) t.join();
}
struct Elem : bi::unordered_set_base_hook<> { u64 k; };
struct Id { size_t operator()(u64 v) const { return v; } size_t operator()(const Elem& e) const { return e.k; } };
struct Eq { bool operator()(const Elem& a, const Elem& b) const { return a.k == b.k; } bool operator()(u64 a, const Elem& b) const { return a == b.k; } bool operator()(const Elem& b, u64 a) const { return a == b.k; } };
typedef bi::hash<Id> OH; typedef bi::equal<Eq> OE;
//---------------------------------------------------------------- suggestions
template<class C, class N> static N up(N n) { return C::suggested_upper_bucket_count(n); }
template<class C, class N> static N lo(N n) { return C::suggested_lower_bucket_count(n); }
template<class C> struct Sug {
  typedef typename C::size_type N; std::vector<N> P; const char* name;
  explicit Sug(const char* nm) : name(nm) {
    N n = 0; for (;;) { N u = up<C, N>(n); if (u < n || (!P.empty() && u <= P.back())) break; P.push_back(u); if (u == N(-1)) break; n = N(u + 1); if (P.size() > 1000) break; }
    if (P.empty()) violation("suggest", "upper", std::string(name) + ": no provided count");
    { std::lock_guard<std::mutex> l(g_mx); g_r.counters[std::string("provided:") + name] = P.size(); }
  }
  void one(N n, size_t i, u64& kl, u64& ku) const {   // i: index of the first provided count >= n
    static const bool knl = mc::g_known.count("suggested-lower-bucket-count"), knu = mc::g_known.count("suggested-upper-bucket-count-exact");
    N want = i < P.size() ? P[i] : P.back(), got = up<C, N>(n);
    if (got != want) {
      if (knu && i + 1 < P.size() && P[i] == n && got == P[i + 1]) ++ku;   // the known finding: a count that is itself provided
      else VIOL("suggest", "suggested_upper_bucket_count", mc::strf("%s: upper(%llu) gives %llu, the smallest provided count not below it is %llu", name, (u64)n, (u64)got, (u64)want));
    }
    N wl = i < P.size() && P[i] == n ? n : i ? P[i - 1] : P[0], gl = lo<C, N>(n);
    if (gl != wl) {
      if (knl && gl == want) ++kl;                                          // the known finding: the next larger provided count
      else VIOL("suggest", "suggested_lower_bucket_count", mc::strf("%s: lower(%llu) gives %llu, the largest provided count not above it is %llu", name, (u64)n, (u64)gl, (u64)wl));
    }
  }
  void range(u64 b, u64 e) const {
    size_t i = std::lower_bound(P.begin(), P.end(), (N)b) - P.begin(); u64 kl = 0, ku = 0;
    for (u64 n = b; n < e; ++n) { while (i < P.size() && (u64)P[i] < n) ++i; one((N)n, i, kl, ku); }
    g_known_lower += kl; g_known_upper += ku; g_eval += 2 * (e - b);
  }
  void exhaustive(u64 total) { parallel(total, [this](u64 b, u64 e) { range(b, e); }); ++g_r.states; }
  void boundaries() {
    std::vector<u64> v; for (N p : P) for (int d = -70; d <= 70; ++d) v.push_back((u64)p + d);
    for (int s = 0; s < 64; ++s) for (int d = -70; d <= 70; ++d) v.push_back((1ull << s) + d);
    for (int d = 1; d <= 70; ++d) v.push_back(0 - (u64)d);
    for (size_t i = 0; i + 1 < P.size(); ++i) { u64 a = P[i], w = P[i + 1] - P[i]; for (int k = 0; k <= 256; ++k) v.push_back(a + (u64)((__uint128_t)w * k / 256)); }
    u64 kl = 0, ku = 0; for (u64 n : v) one((N)n, std::lower_bound(P.begin(), P.end(), (N)n) - P.begin(), kl, ku);
    g_known_lower += kl; g_known_upper += ku;
    g_eval += 2 * v.size(); ++g_r.states;
  }
};
//---------------------------------------------------------------- huge bucket arrays: one physical block mapped again and again
struct Alias {
  char* base; size_t len;
  explicit Alias(size_t bytes) : base(0), len(0) {
    const size_t B = 4u << 20; len = (bytes + B - 1) / B * B;
    int fd = memfd_create("buckets", 0); if (fd < 0 || ftruncate(fd, B)) { len = 0; return; }
    base = (char*)mmap(0, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) { base = 0; len = 0; close(fd); return; }
    for (size_t o = 0; o < len; o += B) if (mmap(base + o, B, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { munmap(base, len); base = 0; len = 0; break; }
    close(fd);
  }
  ~Alias() { if (base) munmap(base, len); }
};
template<class C> struct Cont {
  Alias mem; C* c;
  typedef typename C::bucket_type bt;
  // the element bucket array is never released bucket by bucket: the container is abandoned (its destructor would walk the array again)
  explicit Cont(u64 count) : mem((size_t)count * sizeof(bt) + 64), c(0) { if (mem.base) c = new C(typename C::bucket_traits((bt*)mem.base, (size_t)count)); }
};
static void wide_hashes(std::vector<u64>& v) {
  std::set<u64> s; std::vector<u64> w; for (int i = 0; i < 32; ++i) for (int d = -2; d <= 2; ++d) w.push_back((uint32_t)((1u << i) + d));
  for (u64 h : w) for (u64 l : w) s.insert(h << 32 | l);
  v.assign(s.begin(), s.end());
}
template<class C> static void fastmod_all(const char* name, u64 maxp) {
  std::vector<typename C::size_type> P = Sug<C>(name).P; std::vector<u64> wide; wide_hashes(wide);
  for (u64 p : P) {
    if (p > maxp) break;
    Cont<C> k(p); if (!k.c) { violation("internal", name, mc::strf("cannot map %llu buckets", p)); break; }
    const C& c = *k.c; ++g_r.states; ++g_r.validated;
    const u64 total = 1ull << 32, blocks = 1u << 12, bl = total / blocks;
    parallel(blocks / MC_SHARE, [&](u64 b, u64 e) {
      for (u64 q = b; q < e; ++q) {
        u64 h = q * MC_SHARE * bl, end = h + bl, want = h % p, bad = ~0ull;
        for (; h < end; ++h) { if ((u64)c.bucket(h, Id()) != want) { bad = h; break; } if (++want == p) want = 0; }
        if (bad != ~0ull) { VIOL("index", name, mc::strf("%llu buckets: hash %llu is placed in bucket %llu, not %llu", p, bad, (u64)c.bucket(bad, Id()), bad % p)); return; }
        g_eval += bl;
      }
    });
    for (int s = 0; s < 32; ++s) for (int d = -3; d <= 3; ++d) { u64 h = (uint32_t)((1u << s) + d); if ((u64)c.bucket(h, Id()) != h % p) VIOL("index", name, mc::strf("%llu buckets: hash %llu is placed in bucket %llu", p, h, (u64)c.bucket(h, Id()))); }
    for (u64 m = 1; m * p < total && m < 1000; ++m) for (int d = -1; d <= 1; ++d) { u64 h = m * p + d; if (h < total && (u64)c.bucket(h, Id()) != h % p) VIOL("index", name, mc::strf("%llu buckets: hash %llu is placed in bucket %llu", p, h, (u64)c.bucket(h, Id()))); }
    for (u64 h : wide) { u64 b = c.bucket(h, Id()); if (b >= p || b != (u64)c.bucket(h, Id())) VIOL("index", name, mc::strf("%llu buckets: hash %llu is placed in bucket %llu", p, h, b)); }
    g_eval += wide.size();
  }
}
template<class C, class F> static void counts(const char* name, u64 from, u64 to, bool pow2, F want) {
  std::vector<u64> wide; wide_hashes(wide);
  parallel(to - from + 1, [&](u64 b0, u64 e0) {
    for (u64 n = from + b0; n < from + e0; ++n) {
      if (pow2 && (n & (n - 1))) continue;
      std::vector<typename C::bucket_type> bk(n + 1); C c(typename C::bucket_traits(&bk[0], n)); u64 ev = 0;
      { std::lock_guard<std::mutex> l(g_mx); ++g_r.states; ++g_r.validated; }
      auto test = [&](u64 h) { ++ev; u64 b = c.bucket(h, Id()); if (b != want(h, n)) VIOL("index", name, mc::strf("%llu buckets: hash %llu is placed in bucket %llu, not %llu", n, h, b, want(h, n))); };
      for (u64 h = 0; h < 4 * n + 70; ++h) test(h);
      for (int s = 0; s < 64; ++s) for (int d = -3; d <= 3; ++d) test((1ull << s) + d);
      for (u64 d = 1; d < 70; ++d) test(0 - d);
      if ((n & (n - 1)) == 0 || n % 37 == 0) for (u64 h : wide) test(h);
      g_eval += ev;
    }
  });
}
template<class C> static void incremental(const char* name, u64 maxb) {
  std::vector<u64> wide; wide_hashes(wide);
  for (u64 B = 2; B <= maxb; B *= 2) {
    std::vector<typename C::bucket_type> bk(B + 1); C c(typename C::bucket_traits(&bk[0], B));
    for (int pass = 0; pass < 3; ++pass) {      // as constructed, up to the full count, down to half of it
      for (;;) {
        u64 split = c.split_count(); ++g_r.states; ++g_r.validated; u64 ev = 0;
        if (split < B / 2 || split > B) VIOL("index", name, mc::strf("%llu buckets: split count %llu", B, split));
        auto test = [&](u64 h) { ++ev; u64 m = h % B, w = m < split ? m : m - B / 2, b = c.bucket(h, Id()); if (b != w) VIOL("index", name, mc::strf("%llu buckets, split count %llu: hash %llu is placed in bucket %llu, not %llu", B, split, h, b, w)); };
        for (u64 h = 0; h < 4 * B + 20; ++h) test(h);
        if (B <= 256) for (u64 h : wide) test(h);
        for (int s = 0; s < 64; ++s) for (int d = -3; d <= 3; ++d) test((1ull << s) + d);
        g_eval += ev;
        bool r = pass == 1 ? c.incremental_rehash(true) : pass == 2 ? c.incremental_rehash(false) : false;
        u64 ns = c.split_count();
        if (pass == 1 && (r != (split < B) || ns != split + r)) VIOL("index", name, mc::strf("%llu buckets, split count %llu: growing gives %d and split count %llu", B, split, r, ns));
        if (pass == 2 && (r != (split > B / 2) || ns != split - r)) VIOL("index", name, mc::strf("%llu buckets, split count %llu: shrinking gives %d and split count %llu", B, split, r, ns));
        if (!r) break;
      }
    }
  }
}
template<class N> struct SZ {
  typedef bi::unordered_set<Elem, OH, OE, bi::size_type<N>> Plain;
  typedef bi::unordered_set<Elem, OH, OE, bi::size_type<N>, bi::power_2_buckets<true>> Pow2;
  typedef bi::unordered_multiset<Elem, OH, OE, bi::size_type<N>, bi::fastmod_buckets<true>> Fast;
};
// the counts whose bucket arrays cannot be mapped: the internal table, when it exists under its usual name
struct prime_fmod_size {};
namespace boost { namespace intrusive { namespace mcprobe {
template<class T> auto table(int, const std::vector<u64>& P, const std::vector<u64>& hs) -> decltype(T::position(0, 0) + T::size(0) + T::lower_size_index(0), void()) {
  for (u64 p : P) { u64 i = T::lower_size_index(p); if (T::size(i) != p || p < (1ull << 32)) continue;
    ++g_r.states; for (u64 h : hs) for (u64 m = 0; m < 2; ++m) { u64 x = m ? h : h ^ p; if (T::position(x, i) != x % p) VIOL("index", "fastmod table", mc::strf("%llu buckets: hash %llu is placed in bucket %llu", p, x, (u64)T::position(x, i))); g_eval += 1; } }
}
template<class T> void table(long, const std::vector<u64>&, const std::vector<u64>&) { g_r.counters["large-table-not-reached"] = 1; }
inline void run(const std::vector<u64>& P, const std::vector<u64>& hs) { table<prime_fmod_size>(0, P, hs); }
}}}
int main(int argc, char** argv) {
  double t0 = mc::now(); bool full = true;
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "--known")) { std::string k = argv[++i]; size_t p = 0; while (p < k.size()) { size_t q = k.find(',', p); if (q == std::string::npos) q = k.size(); mc::g_known.insert(k.substr(p, q - p)); p = q + 1; } }
    else if (!strcmp(argv[i], "--cats")) { std::string k = argv[++i]; size_t p = 0; while (p < k.size()) { size_t q = k.find(',', p); if (q == std::string::npos) q = k.size(); mc::g_cats.insert(k.substr(p, q - p)); p = q + 1; } }
    else if (!strcmp(argv[i], "--quick")) full = false;
  }
  mc::g_rep = &g_r;
  mc::Violation v;
  mc::install_traps();
  bool bad = mc::guarded([&] {
#if MC_PART == 0
    Sug<SZ<uint8_t>::Plain>("modulo, 8 bit").exhaustive(1u << 8); Sug<SZ<uint8_t>::Pow2>("mask, 8 bit").exhaustive(1u << 8); Sug<SZ<uint8_t>::Fast>("fastmod, 8 bit").exhaustive(1u << 8);
    Sug<SZ<uint16_t>::Plain>("modulo, 16 bit").exhaustive(1u << 16); Sug<SZ<uint16_t>::Pow2>("mask, 16 bit").exhaustive(1u << 16); Sug<SZ<uint16_t>::Fast>("fastmod, 16 bit").exhaustive(1u << 16);
    Sug<SZ<size_t>::Plain> s64("modulo, 64 bit"); s64.boundaries(); Sug<SZ<size_t>::Fast> f64("fastmod, 64 bit"); f64.boundaries();
    s64.exhaustive(1u << 22); f64.exhaustive(1u << 22);
    Sug<SZ<uint32_t>::Plain> s32("modulo, 32 bit"); s32.boundaries(); Sug<SZ<uint32_t>::Fast> f32("fastmod, 32 bit"); f32.boundaries();
    s32.exhaustive(full ? 1ull << 32 : 1ull << 27); f32.exhaustive(full ? 1ull << 32 : 1ull << 27);
    std::vector<u64> w; wide_hashes(w); std::vector<u64> P(f64.P.begin(), f64.P.end()); boost::intrusive::mcprobe::run(P, w);
#elif MC_PART == 1
    counts<SZ<size_t>::Plain>("modulo", 1, full ? 6000 : 1500, false, [](u64 h, u64 n) { return h % n; });
    counts<SZ<size_t>::Pow2>("mask", 1, 1u << 14, true, [](u64 h, u64 n) { return h % n; });
    counts<SZ<uint8_t>::Plain>("modulo, 8 bit", 1, 255, false, [](u64 h, u64 n) { return h % n; });
    counts<SZ<uint8_t>::Pow2>("mask, 8 bit", 1, 128, true, [](u64 h, u64 n) { return h % n; });
    counts<SZ<uint16_t>::Pow2>("mask, 16 bit", 1, 1u << 15, true, [](u64 h, u64 n) { return h % n; });
    incremental<bi::unordered_set<Elem, OH, OE, bi::incremental<true>>>("incremental", full ? 1u << 11 : 1u << 9);
    incremental<bi::unordered_multiset<Elem, OH, OE, bi::incremental<true>, bi::cache_begin<true>>>("incremental, cached begin", 1u << 7);
    incremental<bi::unordered_set<Elem, OH, OE, bi::incremental<true>, bi::size_type<uint8_t>>>("incremental, 8 bit", 128);
    incremental<bi::unordered_set<Elem, OH, OE, bi::incremental<true>, bi::size_type<uint16_t>>>("incremental, 16 bit", 256);
#else
    fastmod_all<SZ<uint8_t>::Fast>("fastmod, 8 bit", 255); fastmod_all<SZ<uint16_t>::Fast>("fastmod, 16 bit", 65535);
    fastmod_all<SZ<size_t>::Fast>("fastmod", 0xffffffffu);
#endif
  }, v, full ? 120000 : 10000);
  if (bad) { g_r.complete = false; violation(v.cat.c_str(), "buckets", v.msg); }
  g_r.transitions = g_eval; if (g_known_lower) g_r.counters["known:suggested-lower-bucket-count"] = g_known_lower; if (g_known_upper) g_r.counters["known:suggested-upper-bucket-count-exact"] = g_known_upper;
  g_r.opcount["inputs evaluated"] = g_eval; g_r.depth = 1;
  g_r.samples.push_back(MC_PART == 0 ? "upper(n) and lower(n) for every n of the size type" : MC_PART == 1 ? "bucket(hash) in containers with every bucket count" : "bucket(hash) for every 32-bit hash and every provided bucket count");
  mc::emit(g_r, "bucketidx", mc::now() - t0);
  _exit(0);
}
