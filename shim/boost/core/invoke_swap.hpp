// Stand-in for boost/core/invoke_swap.hpp (Boost >= 1.84), which the Boost 1.83
// installed in this sandbox does not have. Semantics as in Boost.Core.
#ifndef VERIF_SHIM_BOOST_CORE_INVOKE_SWAP_HPP
#define VERIF_SHIM_BOOST_CORE_INVOKE_SWAP_HPP
#include <cstddef>
#include <utility>
#include <algorithm>
namespace boost_swap_impl_verif
{
  template<class T> void invoke_swap_(T &l, T &r) { using std::swap; swap(l, r); }
  template<class T, std::size_t N> void invoke_swap_(T (&l)[N], T (&r)[N])
  { for(std::size_t i = 0; i < N; ++i) invoke_swap_(l[i], r[i]); }
}
namespace boost { namespace core {
  template<class T> void invoke_swap(T &l, T &r) { ::boost_swap_impl_verif::invoke_swap_(l, r); }
}}
#endif
