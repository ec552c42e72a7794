// Instantiations of the real search utilities for extraction.
#include <pdaaal/utils/more_algorithms.h>
#include <pdaaal/utils/flags.h>
namespace pdaaal::verif {
    // an arbitrary ordered type: the rank gives the order, elements of equal rank need not be equal
    struct elem_t { long rank; long other; };
    inline bool operator<(const elem_t& a, const elem_t& b) { return a.rank < b.rank; }
    struct other_t { long key; long other; };
    struct mixed_comp {
        bool operator()(const elem_t& a, const elem_t& b) const { return a.rank < b.rank; }
        bool operator()(const elem_t& a, const other_t& b) const { return a.rank < b.key; }
        bool operator()(const other_t& a, const elem_t& b) const { return a.key < b.rank; }
        bool operator()(const other_t& a, const other_t& b) const { return a.key < b.key; }
    };
    struct weight_t { long w; long other; };
    struct weight_comp { bool operator()(const weight_t& a, const weight_t& b) const { return a.w < b.w; } };
    struct item_t { long a; item_t(); item_t(const item_t&) = default; bool operator==(const item_t&) const; };
}
namespace std { template<> struct hash<pdaaal::verif::item_t> { size_t operator()(const pdaaal::verif::item_t&) const; }; }
namespace pdaaal::verif {
    using pset = pdaaal::priority_set<weight_t, item_t, weight_comp>;
    inline bool use_utils(const std::vector<elem_t>& a, const std::vector<elem_t>& b, const std::vector<other_t>& c, pset& p, const weight_t& w, weight_t& w2, const item_t& e) {
        p.emplace(w, e); p.emplace(std::move(w2), e); p.pop(); p.pop_back(); p.top(); p.back(); p.empty();
        return is_disjoint(a, b) && is_disjoint(a, c, mixed_comp{});
    }
}
template class pdaaal::priority_set<pdaaal::verif::weight_t, pdaaal::verif::item_t, pdaaal::verif::weight_comp>;
