// Instantiations of the P-automaton operations for extraction (unweighted systems).
#include "pdaaal/Solver.h"
namespace pdaaal::verif {
    using U = weight<void>;
    using A = internal::PAutomaton<U>;
    void use(A& a, A&& b, const A& c, const internal::PDA<U>& pda, const std::vector<uint32_t>& w, const std::vector<size_t>& s) {
        A x(pda, 0, w); A y(pda, s, true); A z(c); A m(std::move(b), pda);
        a.or_extend(std::move(m)); a.set_state_accepting(0); a.add_edge(0, 0, 0); a.add_epsilon_edge(0, 0); a.add_edges(0, 0, false, w); a.add_edges(s, 0, false, w);
        (void)a.accepts(0, w); (void)a.accept_path<Trace_Type::Any>(0, w); (void)a.find_path(); (void)a.has_accepting_state();
    }
}
