// Instantiations of the saturation procedures for extraction (unweighted systems).
#include "pdaaal/Solver.h"
namespace pdaaal::verif {
    using U = weight<void>;
    void pre(internal::PAutomaton<U>& a, const internal::early_termination_fn2<U>& f) {
        internal::PreStarSaturation<U, false> s(a, f); s.step(); (void)s.workset_empty(); (void)s.found();
        internal::PreStarSaturation<U, true> t(a, f); t.step(); (void)t.workset_empty(); (void)t.found();
        (void)Solver::pre_star<Trace_Type::Any, U, false>(a, f); (void)Solver::pre_star<Trace_Type::Any, U, true>(a, f);
    }
    void post(internal::PAutomaton<U>& a, const internal::early_termination_fn<U>& f) {
        internal::PostStarSaturation<U, false> s(a, f); s.run(); internal::PostStarSaturation<U, true> t(a, f); t.run(); (void)Solver::post_star<Trace_Type::Any, U>(a);
    }
}
