// The construction of a P-automaton from a stack automaton, for extraction (unweighted systems, numbered labels).
#include "pdaaal/Solver.h"
namespace pdaaal::verif {
    using U = weight<void>;
    using A = internal::PAutomaton<U>;
    void use(const internal::PDA<U>& pda, const NFA<uint32_t>& n, const std::vector<size_t>& s) { A x(pda, n, s); }
}
