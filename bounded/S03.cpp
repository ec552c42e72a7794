// S03: shortest-trace saturation against naive weighted fixed points (non-negative weights).
#include "sat.h"
using namespace sat; using WU = weight<uint32_t>; using WI = weight<int32_t>;
template<class W> static void cmp(const PAutomaton<W>& p, const WAut& want, const Sys& s, const Aut& a, const char* what) {
    auto got = wread(p, a.np, (typename W::type)987654); if (auto d = differ(got, want, s.nl)) VH_CHECK(false, what << ": configuration " << ph::show(*d) << " accepted=" << member(got, d->first, d->second) << " expected " << member(want, d->first, d->second));
    for (auto& w : all_stacks(s.nl, 3)) for (size_t q = 0; q < a.np; ++q) { auto x = best<true>(got, q, w), y = best<true>(want, q, w); VH_CHECK(x == y, what << ": minimal weight of " << ph::show(Conf{q, w}) << " is " << (y ? std::to_string(y->v) : "none") << " but the automaton gives " << (x ? std::to_string(x->v) : "none"));
        if (!w.empty() || a.acc[q]) { auto [path, wt] = p.template accept_path<Trace_Type::Shortest>(q, w); VH_CHECK(path.empty() == !y, what << ": accept_path existence " << ph::show(Conf{q, w})); if (y) VH_CHECK((long long)wt == y->v, what << ": accept_path weight of " << ph::show(Conf{q, w}) << " is " << wt << " expected " << y->v); } }
}
template<class W> static void run(const Sys& s, const Aut& a, const char* nm) {
    auto pda = build<W>(s); if (a.np != pda.states().size()) return; std::string T = s.text() + " | " + a.text();
    { vh::area = nm; auto want = wpre<true>(s, a); vh::begin("pre* " + T, !s.rules.empty());
      { auto p = make<W>(pda, a); internal::early_termination_fn2<W> et = [](auto...) { return false; }; internal::PreStarSaturation<W, false, true> sat(p, et); while (!sat.workset_empty()) sat.step(); cmp<W>(p, want, s, a, "pre*"); }
      { auto p = make<W>(pda, a); internal::early_termination_fn2<W> et = [](auto...) { return false; }; internal::PreStarSaturation<W, true, true> sat(p, et); while (!sat.workset_empty()) sat.step(); cmp<W>(p, want, s, a, "pre* with stop condition"); } }
    { auto want = wpost<true>(s, a); vh::begin("post* " + T, !s.rules.empty());
      { auto p = make<W>(pda, a); internal::early_termination_fn2<W> et = [](auto...) { return false; }; internal::PostStarShortestSaturation<W, true, false> sat(p, et); sat.run(); cmp<W>(p, want, s, a, "post*"); }
      { auto p = make<W>(pda, a); typename W::type last{}; bool ord = true; std::set<std::tuple<size_t, uint32_t, size_t>> rep; internal::early_termination_fn2<W> et = [&](size_t f, uint32_t l, size_t t, auto, auto const& w) { if (w < last) ord = false; last = w; rep.emplace(f, l, t); return false; }; internal::PostStarShortestSaturation<W, true, true> sat(p, et); VH_CHECK(!sat.run(), "found"); cmp<W>(p, want, s, a, "post* with stop condition"); } }
}
int main(int c, char** v) { vh::init(c, v); size_t it = 0;
    while (vh::time_left() && vh::evals < 120000) { size_t np = 1 + vh::rnd(vh::coin(70) ? 3 : 5), nl = 1 + vh::rnd(2); auto s = random_sys(np, nl, vh::rnd(2 * np + 4), 0, vh::coin() ? 2 : 9); auto a = random_aut(np, nl, vh::rnd(3), vh::rnd(5)); if (it++ % 2) run<WU>(s, a, "unsigned"); else run<WI>(s, a, "signed"); }
    return vh::finish(); }
