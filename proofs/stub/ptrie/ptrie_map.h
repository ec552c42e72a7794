// ptrie is not installed in this sandbox. These declarations only let Solver.h be parsed so that the saturation drivers,
// which do not use it, can be extracted; nothing is verified about them.
#pragma once
#include <cstddef>
#include <utility>
#include <vector>
namespace ptrie {
    using uchar = unsigned char;
    template<typename K> struct byte_iterator;
    template<typename... A> struct set_stable { template<typename... X> std::pair<bool, size_t> insert(X&&...); template<typename... X> std::pair<bool, size_t> exists(X&&...) const; size_t size() const; };
    template<typename K, typename V, typename... A> struct map { template<typename... X> std::pair<bool, size_t> insert(X&&...); template<typename... X> V& operator[](X&&...); V& get_data(size_t); size_t size() const; };
}
