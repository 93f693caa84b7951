// self-relative fancy pointer: every link stored through it is an offset from its own address
#ifndef MC_RELPTR_HPP
#define MC_RELPTR_HPP
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <type_traits>
#include <boost/intrusive/pointer_traits.hpp>
#include <boost/intrusive/pointer_plus_bits.hpp>
namespace mc {
template<class T> struct rel_ref { typedef T& type; };
struct rel_nat { char c; };
template<> struct rel_ref<void> { typedef rel_nat& type; };
template<> struct rel_ref<const void> { typedef const rel_nat& type; };
template<class T> class rel_ptr {
  std::ptrdiff_t off_;                      // 1 means null
  void set(const volatile void* p) { uintptr_t t = (uintptr_t)p, me = (uintptr_t)this; asm volatile("" : "+r"(t), "+r"(me) : : "memory"); off_ = t ? (std::ptrdiff_t)(t - me) : 1; }
public:
  typedef T element_type; typedef T value_type; typedef std::ptrdiff_t difference_type;
  typedef rel_ptr<T> pointer; typedef typename rel_ref<T>::type reference; typedef std::random_access_iterator_tag iterator_category;
  template<class U> struct rebind { typedef rel_ptr<U> other; };
  rel_ptr() : off_(1) {}
  rel_ptr(std::nullptr_t) : off_(1) {}
  struct raw_tag {}; rel_ptr(T* p, raw_tag) { set(p); }
  rel_ptr(const rel_ptr& o) { set(o.get()); }
  template<class U, class = typename std::enable_if<std::is_convertible<U*, T*>::value>::type> rel_ptr(const rel_ptr<U>& o) { set(static_cast<T*>(o.get())); }
  rel_ptr& operator=(const rel_ptr& o) { set(o.get()); return *this; }
  template<class U, class = typename std::enable_if<std::is_convertible<U*, T*>::value>::type> rel_ptr& operator=(const rel_ptr<U>& o) { set(static_cast<T*>(o.get())); return *this; }
  T* get() const { if (off_ == 1) return (T*)0; uintptr_t t = (uintptr_t)this + (uintptr_t)off_; asm volatile("" : "+r"(t) : : "memory"); return (T*)t; }
  T* operator->() const { return get(); }
  reference operator*() const { return *get(); }
  reference operator[](std::ptrdiff_t i) const { return get()[i]; }
  explicit operator bool() const { return off_ != 1; }
  bool operator!() const { return off_ == 1; }
  rel_ptr& operator+=(std::ptrdiff_t n) { set(get() + n); return *this; }
  rel_ptr& operator-=(std::ptrdiff_t n) { set(get() - n); return *this; }
  rel_ptr& operator++() { return *this += 1; }
  rel_ptr& operator--() { return *this -= 1; }
  rel_ptr operator++(int) { rel_ptr t(*this); ++*this; return t; }
  rel_ptr operator--(int) { rel_ptr t(*this); --*this; return t; }
  friend rel_ptr operator+(const rel_ptr& p, std::ptrdiff_t n) { return rel_ptr(p.get() + n, typename rel_ptr::raw_tag()); }
  friend rel_ptr operator-(const rel_ptr& p, std::ptrdiff_t n) { return rel_ptr(p.get() - n, typename rel_ptr::raw_tag()); }
  template<class R> static rel_ptr pointer_to(R& r) { return rel_ptr(static_cast<T*>(std::addressof(r)), raw_tag()); }
  template<class U> static rel_ptr static_cast_from(const rel_ptr<U>& o) { return rel_ptr(static_cast<T*>(o.get()), raw_tag()); }
  template<class U> static rel_ptr const_cast_from(const rel_ptr<U>& o) { return rel_ptr(const_cast<T*>(o.get()), raw_tag()); }
  template<class U> static rel_ptr dynamic_cast_from(const rel_ptr<U>& o) { return rel_ptr(dynamic_cast<T*>(o.get()), raw_tag()); }
  // raw bits access for pointer_plus_bits
  std::ptrdiff_t raw() const { return off_; }
  void set_raw(std::ptrdiff_t v) { off_ = v; }
};
template<class T, class U> bool operator==(const rel_ptr<T>& a, const rel_ptr<U>& b) { return a.get() == b.get(); }
template<class T, class U> bool operator!=(const rel_ptr<T>& a, const rel_ptr<U>& b) { return a.get() != b.get(); }
template<class T, class U> bool operator<(const rel_ptr<T>& a, const rel_ptr<U>& b) { return (uintptr_t)a.get() < (uintptr_t)b.get(); }
template<class T, class U> bool operator<=(const rel_ptr<T>& a, const rel_ptr<U>& b) { return !(b < a); }
template<class T, class U> bool operator>(const rel_ptr<T>& a, const rel_ptr<U>& b) { return b < a; }
template<class T, class U> bool operator>=(const rel_ptr<T>& a, const rel_ptr<U>& b) { return !(a < b); }
template<class T> bool operator==(const rel_ptr<T>& a, std::nullptr_t) { return !a; }
template<class T> bool operator!=(const rel_ptr<T>& a, std::nullptr_t) { return (bool)a; }
template<class T, class U> std::ptrdiff_t operator-(const rel_ptr<T>& a, const rel_ptr<U>& b) { return a.get() - b.get(); }
template<class T> T* to_raw_pointer(const rel_ptr<T>& p) { return p.get(); }
} // namespace mc
namespace boost { namespace intrusive {
template<std::size_t A> struct max_pointer_plus_bits< ::mc::rel_ptr<void>, A> { static const std::size_t value = A >= 8 ? 2 : A >= 4 ? 1 : 0; };
template<class T, std::size_t N> struct pointer_plus_bits< ::mc::rel_ptr<T>, N> {
  typedef ::mc::rel_ptr<T> pointer;
  static const std::ptrdiff_t Mask = ((std::ptrdiff_t(1) << N) - 1) << 1;   // bit 0 is the null mark
  static pointer get_pointer(const pointer& n) { std::ptrdiff_t t = n.raw() & ~Mask; if (t == 1) return pointer(); uintptr_t a = (uintptr_t)&n + (uintptr_t)t; asm volatile("" : "+r"(a) : : "memory"); return pointer((T*)a, typename pointer::raw_tag()); }
  static void set_pointer(pointer& n, const pointer& p) { std::ptrdiff_t b = n.raw() & Mask; n = p; n.set_raw(n.raw() | b); }
  static std::size_t get_bits(const pointer& n) { return (std::size_t)((n.raw() & Mask) >> 1); }
  static void set_bits(pointer& n, std::size_t c) { n.set_raw((n.raw() & ~Mask) | ((std::ptrdiff_t)c << 1)); }
};
}}
#endif
