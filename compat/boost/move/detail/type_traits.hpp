// Written for this sandbox; not part of Boost. /repo needs
// boost::move_detail::is_unsigned, which apt's Boost 1.83 lacks. This takes the
// installed header and adds that one trait.
#include_next <boost/move/detail/type_traits.hpp>

#ifndef VP_COMPAT_MOVE_IS_UNSIGNED
#define VP_COMPAT_MOVE_IS_UNSIGNED
#include <boost/version.hpp>

#if BOOST_VERSION == 108300
namespace boost {
namespace move_detail {

template<class T, bool = is_integral<T>::value>
struct vp_is_unsigned_impl
{  static const bool value = false; };

template<class T>
struct vp_is_unsigned_impl<T, true>
{  static const bool value = static_cast<T>(-1) > static_cast<T>(0); };

template<class T>
struct is_unsigned
{  static const bool value = vp_is_unsigned_impl<typename remove_cv<T>::type>::value; };

}  //namespace move_detail
}  //namespace boost
#endif
#endif
