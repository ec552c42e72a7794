// Instantiation of the automata for extraction: symbols of an arbitrary totally ordered type.
#include <pdaaal/NFA.h>
namespace pdaaal::verif {
    struct sym_t { long s; };
    bool operator<(const sym_t&, const sym_t&); bool operator==(const sym_t&, const sym_t&); bool operator!=(const sym_t&, const sym_t&);
}
namespace std { template<> struct hash<pdaaal::verif::sym_t> { size_t operator()(const pdaaal::verif::sym_t&) const; }; }
namespace pdaaal::verif {
    using N = NFA<sym_t>; using S = N::state_t; using E = N::edge_t;
    void use(N& a, N& b, S* s, const S* c, const E& e, const sym_t& l, std::unordered_set<sym_t>& all, const std::vector<sym_t>& ls, std::vector<S*>& v, std::vector<const S*>& cv) {
        (void)e.empty(1); (void)e.wildcard(1); (void)e.contains(l); (void)e.follow_epsilon();
        (void)c->has_non_epsilon(); s->add_epsilon_edge(s); (void)c->prelabels(all);
        N::follow_epsilon(v); N::follow_epsilon(cv); (void)N::successor(v, l); (void)N::successor(cv, l);
        (void)N::has_as_successor(v, l, c); (void)N::has_as_successor(cv, l, c); (void)N::has_as_successor(c, l, c);
        (void)N::leads_to_by_epsilon(c, c);
        (void)N::intersect_edge_labels(v, c, ls); (void)N::intersect_edge_labels(cv, c, ls); (void)N::intersect_edge_labels(c, c, ls);
        (void)a.empty_accept(); a.compile(); a.concat(std::move(b)); a.or_extend(std::move(b)); a.question_extend(); a.plus_extend(); a.star_extend(); a.and_extend(std::move(b));
        a = b; N x(b); N y(true); N z(std::move(all), true); (void)a.states(); (void)a.initial(); (void)a.accepting();
    }
}
