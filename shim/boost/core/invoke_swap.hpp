// Stand-in for <boost/core/invoke_swap.hpp> (Boost >= 1.84), which the sandbox's
// Boost 1.83 does not have.  Found last (-idirafter): a real header wins.
#ifndef QBSIM_SHIM_INVOKE_SWAP_HPP
#define QBSIM_SHIM_INVOKE_SWAP_HPP
#include <boost/core/swap.hpp>
namespace boost {
namespace core {
template <class T> inline void invoke_swap(T& a, T& b) { ::boost::swap(a, b); }
}
}
#endif
