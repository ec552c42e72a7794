// Instantiations of the real refinement templates for extraction: arbitrary totally ordered element types.
#include <pdaaal/cegar/Refinement.h>
namespace pdaaal::verif {
    struct a_t { int k; };
    struct b_t { int k; };
    bool operator<(const a_t&, const a_t&); bool operator==(const a_t&, const a_t&); bool operator!=(const a_t&, const a_t&);
    bool operator<(const b_t&, const b_t&); bool operator==(const b_t&, const b_t&); bool operator!=(const b_t&, const b_t&);
}
namespace std { template<> struct hash<pdaaal::verif::b_t> { size_t operator()(const pdaaal::verif::b_t&) const; }; }
using pdaaal::verif::a_t; using pdaaal::verif::b_t;
template class pdaaal::Refinement<a_t>;
template class pdaaal::HeaderRefinement<a_t>;
void use_refine(std::vector<std::pair<a_t, b_t>>& X, std::vector<std::pair<a_t, b_t>>& Y, std::vector<a_t>& w) {
    pdaaal::make_refinement<pdaaal::refinement_option_t::best_refinement>(std::move(X), std::move(Y), 1, 2, std::move(w));
    pdaaal::make_refinement<pdaaal::refinement_option_t::fast_refinement>(std::move(X), std::move(Y), 1, 2, std::move(w));
}
