// T01: every reconstructed trace is replayed on the configuration.
#include "sat.h"
#include <pdaaal/internal/PAutomatonAlgorithms.h>
using namespace sat; using WV = weight<void>; using WU = weight<uint32_t>; using WI = weight<int32_t>;
template<class R> static std::string rs(const R& r) { return "<" + std::to_string(r._from) + "," + std::to_string(r._pre) + ">-" + opn(r._op) + "(" + std::to_string(r._op_label) + ")->" + std::to_string(r._to); }
// is r an instance of a rule of the system (with the given weight)?
template<class W, class R> static bool is_rule(const Sys& s, const R& r) { for (auto& x : s.rules) { if (x.from != r._from || x.to != r._to || x.op != r._op) continue; if ((x.op == PUSH || x.op == SWAP) && x.label != r._op_label) continue; if (!matches(x, r._pre)) continue; if constexpr (W::is_weight) if ((typename W::type)x.weight != r._weight) continue; return true; } return false; }
template<class R> static bool fire(const R& r, Conf& c) { if (c.first != r._from || c.second.empty() || c.second[0] != r._pre) return false; Rule x; x.op = r._op; x.label = r._op_label; c = {r._to, ph::apply(x, c.second)}; return true; }
template<class W, TraceInfoType I, bool AL = false, class A> static void trace(const Sys& s, const Aut& a, const A& p, const Conf& c, const std::vector<size_t>& path, bool pre, std::optional<long long> weight) {
    vh::begin((pre ? "pre* " : "post* ") + s.text() + " | " + a.text() + " | conf " + ph::show(c)); internal::TraceBack<W, I> tb(p, AutomatonPath<>(path, c.second)); std::vector<user_rule_t<W>> seq; size_t n = 0; while (auto r = tb.template next<AL>()) { seq.push_back(*r); VH_CHECK(++n < 20000, "trace does not end"); }
    std::string txt; for (auto& r : seq) txt += " " + rs(r); for (auto& r : seq) VH_CHECK((is_rule<W>(s, r)), "not a rule of the system: " << rs(r)); long long sum = 0; if constexpr (W::is_weight) for (auto& r : seq) sum += (long long)r._weight;
    if (pre) { Conf x = c; for (auto& r : seq) VH_CHECK(fire(r, x), "rule " << rs(r) << " cannot be applied in " << ph::show(x) << "; trace:" << txt); VH_CHECK(member(a, x.first, x.second), "trace ends in " << ph::show(x) << " which was not accepted before saturation; trace:" << txt); }
    else { auto [st, w] = tb.path().get_path_and_stack(); VH_CHECK(!st.empty(), "empty path left"); Conf x{st[0], w}; VH_CHECK(member(a, x.first, x.second), "trace starts in " << ph::show(x) << " which was not accepted before saturation; trace (reversed):" << txt); for (auto it = seq.rbegin(); it != seq.rend(); ++it) VH_CHECK(fire(*it, x), "rule " << rs(*it) << " cannot be applied in " << ph::show(x) << "; trace (reversed):" << txt); VH_CHECK(x == c, "trace ends in " << ph::show(x)); }
    if (weight) VH_CHECK(sum == *weight, "trace weight " << sum << " but reported weight " << *weight << "; trace:" << txt);
}
template<class W, class A, class F> static void confs(const Sys& s, const Aut& a, const A& p, bool pre, F f) { for (auto& w : all_stacks(s.nl, 3)) for (size_t q = 0; q < a.np; ++q) f(Conf{q, w}); }
template<class W> static void any(const Sys& s, const Aut& a, const char* nm) { auto pda = build<W>(s); if (a.np != pda.states().size()) return; vh::area = nm;
    { auto p = make<W>(pda, a); internal::early_termination_fn2<W> et = [](auto...) { return false; }; internal::PreStarSaturation<W> sat(p, et); while (!sat.workset_empty()) sat.step(); confs<W>(s, a, p, true, [&](Conf c) { auto path = p.accept_path(c.first, c.second); if (!path.empty()) trace<W, TraceInfoType::Single>(s, a, p, c, path, true, {}); }); }
    { auto p = make<W>(pda, a); internal::early_termination_fn<W> et = [](auto...) { return false; }; internal::PostStarSaturation<W> sat(p, et); sat.run(); confs<W>(s, a, p, false, [&](Conf c) { auto path = p.accept_path(c.first, c.second); if (!path.empty() && !c.second.empty()) trace<W, TraceInfoType::Single>(s, a, p, c, path, false, {}); }); } }
template<class W> static void shortest(const Sys& s, const Aut& a, const char* nm) { auto pda = build<W>(s); if (a.np != pda.states().size()) return; vh::area = nm; internal::early_termination_fn2<W> et = [](auto...) { return false; };
    { auto p = make<W>(pda, a); internal::PreStarSaturation<W, true, true> sat(p, et); while (!sat.workset_empty()) sat.step(); confs<W>(s, a, p, true, [&](Conf c) { auto [path, w] = p.template accept_path<Trace_Type::Shortest>(c.first, c.second); if (!path.empty()) trace<W, TraceInfoType::Single>(s, a, p, c, path, true, (long long)w); }); }
    { auto p = make<W>(pda, a); internal::PostStarShortestSaturation<W, true, false> sat(p, et); sat.run(); confs<W>(s, a, p, false, [&](Conf c) { if (c.second.empty()) return; auto [path, w] = p.template accept_path<Trace_Type::Shortest>(c.first, c.second); VH_CHECK(path.empty() == !p.accepts(c.first, c.second), "shortest search for " << ph::show(c) << (path.empty() ? " found nothing" : " found a path although none exists")); if (path.empty()) return; trace<W, TraceInfoType::Single>(s, a, p, c, path, false, (long long)w); }); } }
template<class W, Trace_Type TT> static void fixed(const Sys& s, const Aut& a, const char* nm) { constexpr bool MIN = TT != Trace_Type::Longest; auto pda = build<W>(s); if (a.np != pda.states().size()) return; vh::area = nm; using SW = internal::solver_weight<W, TT>;
    auto go = [&](auto& p, bool pre) { confs<W>(s, a, p, pre, [&](Conf c) { if (!pre && c.second.empty()) return; auto path = p.accept_path(c.first, c.second); if (!path.empty()) trace<W, TraceInfoType::Pair, true>(s, a, p, c, path, pre, {}); });   // loop-avoiding traces end for every path
        if (MIN && !W::is_signed) return; auto g = wread(p, a.np, SW::bottom()); for (auto& [k, v] : g.w) if (v.inf) return;   // finite case: every path is traceable
        confs<W>(s, a, p, pre, [&](Conf c) { if (!pre && c.second.empty()) return; auto path = p.accept_path(c.first, c.second); if (path.empty()) return; long long w = 0; for (size_t i = 0; i + 1 < path.size(); ++i) w += g.w.at({path[i], c.second[i], path[i + 1]}).v; trace<W, TraceInfoType::Pair>(s, a, p, c, path, pre, w); }); };
    { auto p = make<W, TraceInfoType::Pair>(pda, a); internal::PreStarFixedPointSaturation<W, TT> sat(p); vh::overflowed = false; sat.run(); if (!vh::overflowed) go(p, true); }
    { auto p = make<W, TraceInfoType::Pair>(pda, a); internal::PostStarFixedPointSaturation<W, TT> sat(p); vh::overflowed = false; sat.run(); if (!vh::overflowed) go(p, false); } }
static void eqv() { vh::area = "annotations"; using internal::trace_t; std::vector<trace_t> v{trace_t()}; for (size_t i : {0, 1, 2}) { v.push_back(trace_t(i)); for (size_t j : {0, 1}) { v.push_back(trace_t(i, j)); for (uint32_t l : {0u, 1u, 2u}) v.push_back(trace_t(i, j, l)); } } for (auto& x : v) for (auto& y : v) { vh::begin(std::to_string(x._state) + "," + std::to_string(x._rule_id) + "," + std::to_string(x._label) + " vs " + std::to_string(y._state) + "," + std::to_string(y._rule_id) + "," + std::to_string(y._label)); bool eq = x._state == y._state && x._rule_id == y._rule_id && x._label == y._label; VH_CHECK((x == y) == eq, "operator=="); VH_CHECK((x != y) == !eq, "operator!="); VH_CHECK((!(x < y) && !(y < x)) == eq, "operator<"); } }
int main(int c, char** v) { vh::init(c, v); vh::allow_overflow = true; size_t it = 0; eqv();
    while (vh::time_left() && vh::evals < 300000) { size_t np = 1 + vh::rnd(vh::coin(70) ? 3 : 5), nl = 1 + vh::rnd(2); bool neg = it % 6 == 4; auto s = random_sys(np, nl, vh::rnd(2 * np + 4), neg ? -1 : 0, vh::coin() ? 2 : 6); auto a = random_aut(np, nl, vh::rnd(3), vh::rnd(5)); s.weighted = it % 6 > 1;
        switch (it++ % 6) { case 0: case 1: any<WV>(s, a, "any"); break; case 2: shortest<WU>(s, a, "shortest unsigned"); break; case 3: shortest<WI>(s, a, "shortest signed"); break; case 4: if (vh::coin(40)) for (auto& r : s.rules) r.weight -= 2; fixed<WI, Trace_Type::ShortestFixedPoint>(s, a, "fixed point min"); break; default: { if (vh::coin(60)) for (auto& r : s.rules) r.weight = -r.weight; fixed<WI, Trace_Type::Longest>(s, a, "fixed point max"); } } }
    return vh::finish(); }
