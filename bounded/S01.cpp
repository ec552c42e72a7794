// S01: backward saturation against naive fixed point (complete per instance: language equality by determinisation).
#include "sat.h"
using namespace sat; using WV = weight<void>; using WI = weight<int32_t>; using WU = weight<uint32_t>;
template<class W> static void run(const Sys& s, const Aut& a, const char* nm) {
    vh::area = nm; vh::begin(s.text() + " | " + a.text(), !s.rules.empty());
    auto pda = build<W>(s); auto want = pre_star(s, a); if (want.np != pda.states().size()) return;
    { auto p = make<W>(pda, a); internal::early_termination_fn2<W> et = [](auto...) { return false; }; internal::PreStarSaturation<W> sat(p, et); while (!sat.workset_empty()) sat.step();
      auto got = read(p, a.np); VH_CHECK(got.n() == a.n(), "states were added"); for (auto& e : a.e) VH_CHECK(got.e.count(e), "an original edge disappeared"); if (auto d = differ(got, want, s.nl)) VH_CHECK(false, "configuration " << ph::show(*d) << " accepted=" << member(got, d->first, d->second) << " but it is " << (member(want, d->first, d->second) ? "" : "not ") << "a predecessor");
      for (auto& w : all_stacks(s.nl, 2)) for (size_t q = 0; q < a.np; ++q) VH_CHECK(p.accepts(q, w) == member(want, q, w), "accepts " << ph::show(Conf{q, w})); VH_CHECK(!sat.found(), "found without a stop condition"); }
    { auto p = make<W>(pda, a); size_t k = vh::rnd(6), calls = 0; bool fired = false, after = false; std::vector<std::tuple<size_t, uint32_t, size_t>> rep;
      internal::early_termination_fn2<W> et = [&](size_t f, uint32_t l, size_t t, auto, auto const&) { rep.emplace_back(f, l, t); if (fired) after = true; if (calls++ == k) { fired = true; return true; } return false; };
      internal::PreStarSaturation<W, true> sat(p, et); while (!sat.workset_empty() && !sat.found()) sat.step();
      auto got = read(p, a.np); VH_CHECK(sat.found() == fired, "found()=" << sat.found() << " but the stop condition " << (fired ? "was" : "was not") << " reported"); for (auto& e : rep) { VH_CHECK(got.e.count(e), "a reported edge is not in the automaton"); VH_CHECK(!a.e.count(e), "an original edge was reported"); } std::set<std::tuple<size_t, uint32_t, size_t>> rs(rep.begin(), rep.end()); VH_CHECK(rs.size() == rep.size(), "an edge was reported twice");
      if (!fired) { for (auto& e : got.e) VH_CHECK(a.e.count(e) || rs.count(e), "an added edge was not reported to the stop condition"); VH_CHECK(!differ(got, want, s.nl), "run without stop is not exact"); } else for (auto& w : all_stacks(s.nl, 3)) for (size_t q = 0; q < a.np; ++q) if (member(got, q, w)) VH_CHECK(member(want, q, w), "early stop accepts " << ph::show(Conf{q, w}) << " which is not a predecessor"); }
}
static void sanity(const Sys& s, const Aut& a) { auto want = pre_star(s, a); for (auto& w : all_stacks(s.nl, 2)) for (size_t q = 0; q < a.np; ++q) if (!member(want, q, w)) for (auto& c : forward(s, {q, w}, 4, 200)) VH_CHECK(!member(a, c.first, c.second), "oracle self-check"); }
int main(int c, char** v) { vh::init(c, v); size_t it = 0;
    while (vh::time_left() && vh::evals < 120000) { size_t np = 1 + vh::rnd(vh::coin(70) ? 3 : 5), nl = 1 + vh::rnd(3); auto s = random_sys(np, nl, vh::rnd(2 * np + 3)); auto a = random_aut(np, nl, vh::rnd(4), vh::rnd(6)); if (it % 10 == 0) sanity(s, a);
        switch (it++ % 4) { case 0: case 1: run<WV>(s, a, "unweighted"); break; case 2: { auto t = s; for (auto& r : t.rules) r.weight = (int)vh::rnd(5) - 2; t.weighted = true; run<WI>(t, a, "signed"); break; } default: { auto t = s; for (auto& r : t.rules) r.weight = vh::rnd(3); t.weighted = true; run<WU>(t, a, "unsigned"); } } }
    return vh::finish(); }
