// Included in front of the library's sources: every random reordering asks the driver for the order to use.
#ifndef VP_SHUFFLE_SHIM_HPP
#define VP_SHUFFLE_SHIM_HPP
#include <algorithm>
#include <cstdlib>
#include <functional>
#include <iterator>
#include <numeric>
#include <random>
#include <vector>

extern "C" bool vp_order(size_t n, size_t *order);  // false: the generator decides

namespace std {
template <typename It>
bool vp_ordered(It b, It e) {
    vector<typename iterator_traits<It>::value_type> c(b, e);
    vector<size_t> o(c.size());
    if (!vp_order(c.size(), o.data())) return false;
    for (size_t i = 0; i < c.size(); i++) b[i] = c[o[i]];
    return true;
}
template <typename It, typename G>
void vp_shuffle(It b, It e, G &&g) {
    if (!vp_ordered(b, e)) shuffle(b, e, std::forward<G>(g));
}
}  // namespace std
#define shuffle vp_shuffle
#endif
