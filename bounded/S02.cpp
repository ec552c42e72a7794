// S02: forward saturation against naive fixed point (language equality by determinisation).
#include "sat.h"
using namespace sat; using WV = weight<void>; using WU = weight<uint32_t>;
template<class W> static void run(const Sys& s, const Aut& a, const char* nm) {
    vh::area = nm; vh::begin(s.text() + " | " + a.text(), !s.rules.empty());
    auto pda = build<W>(s); auto want = post_star(s, a); if (want.np != pda.states().size()) return;
    { auto p = make<W>(pda, a); internal::early_termination_fn<W> et = [](auto...) { return false; }; internal::PostStarSaturation<W> sat(p, et); VH_CHECK(!sat.run(), "found without a stop condition");
      auto got = read(p, a.np); for (auto& e : a.e) VH_CHECK(got.e.count(e), "an original edge disappeared"); for (auto& [f, l, t] : got.e) VH_CHECK(t >= a.np, "edge into a system state"); if (auto d = differ(got, want, s.nl)) VH_CHECK(false, "configuration " << ph::show(*d) << " accepted=" << member(got, d->first, d->second) << " but it is " << (member(want, d->first, d->second) ? "" : "not ") << "a successor");
      for (auto& w : all_stacks(s.nl, 2)) if (!w.empty()) for (size_t q = 0; q < a.np; ++q) VH_CHECK(p.accepts(q, w) == member(want, q, w), "accepts " << ph::show(Conf{q, w})); }
    { auto p = make<W>(pda, a); size_t k = vh::rnd(6), calls = 0; bool fired = false; std::vector<std::tuple<size_t, uint32_t, size_t>> rep;
      internal::early_termination_fn<W> et = [&](size_t f, uint32_t l, size_t t, auto) { rep.emplace_back(f, l, t); if (calls++ == k) { fired = true; return true; } return false; };
      internal::PostStarSaturation<W, true> sat(p, et); bool r = sat.run();
      auto got = read(p, a.np); VH_CHECK(r == fired && sat.found() == fired, "run()=" << r << " but the stop condition " << (fired ? "was" : "was not") << " reported"); std::set<std::tuple<size_t, uint32_t, size_t>> rs(rep.begin(), rep.end()); VH_CHECK(rs.size() == rep.size(), "an edge was reported twice"); for (auto& e : rep) { VH_CHECK(got.e.count(e), "a reported edge is not in the automaton"); VH_CHECK(!a.e.count(e), "an original edge was reported"); }
      if (!fired) { for (auto& e : got.e) VH_CHECK(a.e.count(e) || rs.count(e), "an added edge was not reported"); VH_CHECK(!differ(got, want, s.nl), "run without stop is not exact"); } else for (auto& w : all_stacks(s.nl, 3)) for (size_t q = 0; q < a.np; ++q) if (member(got, q, w)) VH_CHECK(member(want, q, w), "early stop accepts " << ph::show(Conf{q, w}) << " which is not a successor"); }
}
static void sanity(const Sys& s, const Aut& a) { auto want = post_star(s, a); for (auto& w : all_stacks(s.nl, 2)) for (size_t q = 0; q < a.np; ++q) if (member(a, q, w)) for (auto& c : forward(s, {q, w}, 4, 200)) VH_CHECK(member(want, c.first, c.second), "oracle self-check"); }
int main(int c, char** v) { vh::init(c, v); size_t it = 0;
    while (vh::time_left() && vh::evals < 120000) { size_t np = 1 + vh::rnd(vh::coin(70) ? 3 : 5), nl = 1 + vh::rnd(3); auto s = random_sys(np, nl, vh::rnd(2 * np + 3)); auto a = random_aut(np, nl, vh::rnd(4), vh::rnd(6)); if (it % 10 == 0) sanity(s, a);
        if (it++ % 3) run<WV>(s, a, "unweighted"); else { auto t = s; for (auto& r : t.rules) r.weight = vh::rnd(3); t.weighted = true; run<WU>(t, a, "unsigned"); } }
    return vh::finish(); }
