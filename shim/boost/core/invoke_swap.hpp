// The installed Boost is older than this library: boost::core::invoke_swap under its former name.
#ifndef VT_SHIM_INVOKE_SWAP
#define VT_SHIM_INVOKE_SWAP
#include <boost/core/swap.hpp>
namespace boost { namespace core { template<class T1, class T2> void invoke_swap(T1& a, T2& b) { boost::swap(a, b); } } }
#endif
