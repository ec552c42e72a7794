// S04: fixed-point saturation against naive weighted fixed points (any weights, both directions, unbounded values).
#include "sat.h"
using namespace sat; static size_t skipped = 0; using WI = weight<int32_t>; using WU = weight<uint32_t>; using WL = weight<int64_t>;
template<class W, Trace_Type TT> static void cmp(const PAutomaton<W, TraceInfoType::Pair>& p, const WAut& want, const Sys& s, const Aut& a, const char* what) {
    constexpr bool MIN = TT != Trace_Type::Longest; using SW = internal::solver_weight<W, TT>;
    constexpr bool proper = !MIN || W::is_signed;
    auto got = wread(p, a.np, SW::bottom()); if (!proper) for (auto& [k, v] : got.w) v.inf = false;
    if (auto d = differ(got, want, s.nl)) VH_CHECK(false, what << ": configuration " << ph::show(*d) << " accepted=" << member(got, d->first, d->second) << " expected " << member(want, d->first, d->second));
    for (auto& w : all_stacks(s.nl, 3)) for (size_t q = 0; q < a.np; ++q) { auto x = best<MIN>(got, q, w), y = best<MIN>(want, q, w); auto sh = [](const std::optional<V>& v) { return !v ? std::string("none") : v->inf ? std::string("unbounded") : std::to_string(v->v); };
        VH_CHECK(x.has_value() == y.has_value() && (!x || (x->inf == y->inf && (x->inf || x->v == y->v))), what << ": extremal weight of " << ph::show(Conf{q, w}) << " is " << sh(y) << " but the automaton gives " << sh(x)); }
}
// unsigned overflow is silent: with push rules and an unbounded value the weights may grow exponentially
template<class W> static bool wraps(const Sys& s, const WAut& w) { if (W::is_signed) return false; bool push = false, inf = false; for (auto& r : s.rules) push |= r.op == PUSH; for (auto& [k, v] : w.w) inf |= v.inf; return push && inf; }
template<class W, Trace_Type TT> static void run(const Sys& s, const Aut& a, const char* nm) {
    constexpr bool MIN = TT != Trace_Type::Longest; auto pda = build<W>(s); if (a.np != pda.states().size()) return; std::string T = s.text() + " | " + a.text(); vh::area = nm;
    { vh::begin("pre* " + T, !s.rules.empty()); biggest = 0; auto want = wpre<MIN>(s, a); if (biggest > (1 << 28) || wraps<W>(s, want)) { ++skipped; goto post; } auto p = make<W, TraceInfoType::Pair>(pda, a); internal::PreStarFixedPointSaturation<W, TT> sat(p); vh::overflowed = false; sat.run(); if (vh::overflowed) { ++skipped; goto post; } cmp<W, TT>(p, want, s, a, "pre*"); }
    post: { vh::begin("post* " + T, !s.rules.empty()); biggest = 0; auto want = wpost<MIN>(s, a); if (biggest > (1 << 28) || wraps<W>(s, want)) { ++skipped; return; } auto p = make<W, TraceInfoType::Pair>(pda, a); internal::PostStarFixedPointSaturation<W, TT> sat(p); vh::overflowed = false; sat.run(); if (vh::overflowed) { ++skipped; return; } cmp<W, TT>(p, want, s, a, "post*"); }
}
int main(int c, char** v) { vh::init(c, v); vh::allow_overflow = true; size_t it = 0;
    while (vh::time_left() && vh::evals < 120000) { size_t np = 1 + vh::rnd(vh::coin(70) ? 3 : 5), nl = 1 + vh::rnd(2); bool neg = it % 4 != 3; auto s = random_sys(np, nl, vh::rnd(2 * np + 3), neg ? -2 : 0, vh::coin() ? 3 : 6); if (vh::coin(50)) for (auto& r : s.rules) if (neg && vh::coin(70)) r.weight = vh::rnd(3); if (neg && vh::coin(30)) { np = 1 + vh::rnd(2); s = random_sys(np, nl, 4 + vh::rnd(4), 0, 6); if (!s.rules.empty()) { auto& r = s.rules[vh::rnd(s.rules.size())]; r.op = NOOP; r.to = r.from; r.weight = -1; } if (it % 4 == 1) for (auto& r : s.rules) r.weight = -r.weight; s.weighted = true; } // a slow profitable loop among expensive rules
        auto a = random_aut(np, nl, vh::rnd(3), vh::rnd(5));
        switch (it++ % 4) { case 0: run<WI, Trace_Type::ShortestFixedPoint>(s, a, "min signed"); break; case 1: run<WI, Trace_Type::Longest>(s, a, "max signed"); break; case 2: run<WL, Trace_Type::ShortestFixedPoint>(s, a, "min signed64"); break; default: if (vh::coin()) run<WU, Trace_Type::Longest>(s, a, "max unsigned"); else run<WU, Trace_Type::ShortestFixedPoint>(s, a, "min unsigned"); } }
    return vh::finish(); }
