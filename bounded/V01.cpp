// V01: the solver's verdicts, weights and traces against reference saturation and emptiness of the intersection.
#include "sat.h"
#include <pdaaal/Solver.h>
#include <pdaaal/SolverInstance.h>
using namespace sat; using WV = weight<void>; using WU = weight<uint32_t>; using WI = weight<int32_t>;
static constexpr int OFF = 100;   // label l of the reference is label OFF + l of the real system
template<class W> using TPda = pdaaal::PDA<int, W>; template<class W, TraceInfoType I = TraceInfoType::Single> using TAut = pdaaal::PAutomaton<int, W, size_t, true, I>; template<class W, TraceInfoType I = TraceInfoType::Single> using Prod = PAutomatonProduct<TPda<W>, TAut<W, I>, W, I>;
template<class W> static TPda<W> tbuild(const Sys& s) { TPda<W> p(std::unordered_set<int>{}); for (size_t l = 0; l < s.nl; ++l) p.insert_label(OFF + (int)l); if (s.ns) p.insert_state(s.ns - 1);
    for (auto& r : s.rules) { std::vector<int> pre; for (auto l : r.pre) pre.push_back(OFF + (int)l); if constexpr (W::is_weight) p.add_rule(r.from, r.to, r.op, OFF + (int)r.label, r.wildcard, pre, (typename W::type)r.weight); else p.add_rule(r.from, r.to, r.op, OFF + (int)r.label, r.wildcard, pre); } return p; }
template<class W, TraceInfoType I> static TAut<W, I> tmake(const TPda<W>& pda, const Aut& a) { std::vector<size_t> sp; for (size_t i = 0; i < a.np; ++i) if (a.acc[i]) sp.push_back(i); TAut<W, I> p(pda, sp, true); for (size_t i = a.np; i < a.n(); ++i) p.add_state(false, a.acc[i]); for (auto& [f, l, t] : a.e) p.add_edge(f, t, l); return p; }
template<class W, TraceInfoType I = TraceInfoType::Single> static Prod<W, I> prod(const TPda<W>& pda, const Aut& i, const Aut& f) { return Prod<W, I>(pda, tmake<W, I>(pda, i), tmake<W, I>(pda, f)); }
// extremal weight over all runs from i to f (nullopt: none)
template<bool MIN> static std::optional<V> answer(const Sys& s, const Aut& i, const Aut& f) { auto a = wpost<MIN>(s, i); using N = std::pair<size_t, size_t>; std::map<N, V> d; for (size_t p = 0; p < s.ns; ++p) d[{p, p}] = {};
    auto round = [&](bool b) { bool ch = false; auto o = d; for (auto& [n, v] : o) for (auto it = a.w.lower_bound({n.first, 0, 0}); it != a.w.end() && std::get<0>(it->first) == n.first; ++it) { auto [x, l, t] = it->first; V nv = plus(v, it->second); auto go = [&](N m) { auto jt = d.find(m); if (jt == d.end() || better<MIN>(nv, jt->second)) { d[m] = b ? V{true, 0} : nv; ch = true; } }; if (l == EPS) go({t, n.second}); else for (auto y : stepset(f, {n.second}, l)) go({t, y}); } return ch; };
    size_t lim = a.n() * f.n() + 2; bool ch = true; for (size_t k = 0; k < lim && ch; ++k) ch = round(false); for (size_t k = 0; k < lim && ch; ++k) ch = round(true); std::optional<V> r; for (auto& [n, v] : d) if (a.acc[n.first] && f.acc[n.second]) if (!r || better<MIN>(v, *r)) r = v; return r; }
template<class TS> static Conf conf(const TS& t) { Conf c{t._pdastate, {}}; for (auto x : t._stack) c.second.push_back((uint32_t)(x - OFF)); return c; }
// the trace is a run from i to f; returns the best weight of a run through exactly these configurations
template<bool MIN, class TR> static long long check_trace(const Sys& s, const Aut& i, const Aut& f, const TR& tr, const char* what) { VH_CHECK(!tr.empty(), what << ": no trace although the answer is yes"); std::string txt; for (auto& t : tr) txt += " " + ph::show(conf(t));
    auto c0 = conf(tr.front()), c1 = conf(tr.back()); VH_CHECK(member(i, c0.first, c0.second), what << ": the trace starts in " << ph::show(c0) << ", which is not initial:" << txt); VH_CHECK(member(f, c1.first, c1.second), what << ": the trace ends in " << ph::show(c1) << ", which is not final:" << txt); long long sum = 0;
    for (size_t k = 0; k + 1 < tr.size(); ++k) { auto a = conf(tr[k]), b = conf(tr[k + 1]); std::optional<long long> w; if (!a.second.empty()) for (auto& r : s.rules) if (r.from == a.first && r.to == b.first && matches(r, a.second[0]) && ph::apply(r, a.second) == b.second) if (!w || (MIN ? r.weight < *w : r.weight > *w)) w = r.weight; VH_CHECK(w, what << ": no rule leads from " << ph::show(a) << " to " << ph::show(b) << ":" << txt); sum += *w; } return sum; }
template<class TU> static void check_rules(const Sys& s, const Aut& i, const Aut& f, const TU& t, const char* what) { auto& [st, rules, is, fs, ip, fp] = t; VH_CHECK(st < s.ns, what << ": no trace although the answer is yes"); Conf c{st, is}; VH_CHECK(member(i, st, is), what << ": start " << ph::show(c) << " is not initial");
    auto path_ok = [](const Aut& a, size_t q, const Stack& w, const std::vector<size_t>& p) { if (p.size() != w.size() + 1 || p[0] != q || !a.acc[p.back()]) return false; for (size_t k = 0; k < w.size(); ++k) if (!a.e.count({p[k], w[k], p[k + 1]})) return false; return true; };
    VH_CHECK(path_ok(i, st, is, ip), what << ": initial path " << vh::show(ip) << " does not accept " << ph::show(c));
    for (auto& r : rules) { VH_CHECK(c.first == r._from && !c.second.empty() && c.second[0] == r._pre, what << ": rule cannot be applied in " << ph::show(c)); bool ok = false; for (auto& x : s.rules) if (x.from == r._from && x.to == r._to && x.op == r._op && matches(x, r._pre) && ((x.op != PUSH && x.op != SWAP) || x.label == r._op_label)) ok = true; VH_CHECK(ok, what << ": not a rule of the system"); Rule x; x.op = r._op; x.label = r._op_label; c = {r._to, ph::apply(x, c.second)}; }
    VH_CHECK(c.second == fs, what << ": final stack differs from that of the run, " << ph::show(c)); VH_CHECK(path_ok(f, c.first, fs, fp), what << ": final path " << vh::show(fp) << " does not accept " << ph::show(c)); }
#define VERDICT(got, what) VH_CHECK((got) == want.has_value(), what << " answers " << (got) << " but " << (want ? "a" : "no") << " run exists")
template<class W> static void any(const Sys& s, const Aut& i, const Aut& f) { auto want = answer<true>(s, i, f); auto pda = tbuild<W>(s); if (pda.states().size() != s.ns) return; std::string T = s.text() + " | initial " + i.text() + " | final " + f.text();
    vh::area = "pre* any"; vh::begin(T); { auto p = prod<W>(pda, i, f); VERDICT((Solver::pre_star_accepts<Trace_Type::Any>(p)), "pre*"); if (want) { check_trace<true>(s, i, f, Solver::get_trace<Trace_Type::Any>(p), "pre* trace"); check_rules(s, i, f, Solver::get_rule_trace_and_paths<Trace_Type::Any>(p), "pre* rule trace"); } }
    vh::area = "post* any"; vh::begin(T); { auto p = prod<W>(pda, i, f); VERDICT((Solver::post_star_accepts<Trace_Type::Any>(p)), "post*"); if (want) { check_trace<true>(s, i, f, Solver::get_trace<Trace_Type::Any>(p), "post* trace"); check_rules(s, i, f, Solver::get_rule_trace_and_paths<Trace_Type::Any>(p), "post* rule trace"); } }
    vh::area = "post* exhaustive"; vh::begin(T); { auto p = prod<W>(pda, i, f); VERDICT((Solver::post_star_accepts_no_ET(p)), "post* without early termination"); }
    vh::area = "dual any"; vh::begin(T); { auto p = prod<W>(pda, i, f); VERDICT((Solver::dual_search_accepts<Trace_Type::Any>(p)), "dual*"); if (want) { check_trace<true>(s, i, f, Solver::get_trace_dual_search<Trace_Type::Any>(p), "dual* trace"); check_rules(s, i, f, Solver::get_rule_trace_and_paths<Trace_Type::Any, true>(p), "dual* rule trace"); } }
    vh::area = "one configuration"; auto pre = pre_star(s, f); for (auto& w : all_stacks(s.nl, 2)) { size_t q = vh::rnd(s.ns); vh::begin(T + " | conf " + ph::show(Conf{q, w})); auto a = tmake<W, TraceInfoType::Single>(pda, f); VH_CHECK((Solver::pre_star_accepts<Trace_Type::Any, W>(a, q, w)) == member(pre, q, w), "pre* for one configuration"); } }
template<class W> static void shortest(const Sys& s, const Aut& i, const Aut& f) { auto want = answer<true>(s, i, f); auto pda = tbuild<W>(s); if (pda.states().size() != s.ns) return; std::string T = s.text() + " | initial " + i.text() + " | final " + f.text();
    auto both = [&](bool got, auto tr, auto w, const char* what) { VERDICT(got, what); if (!want) return; VH_CHECK((long long)w == want->v, what << ": reported weight " << w << ", lightest run " << want->v); auto x = check_trace<true>(s, i, f, tr, what); VH_CHECK(x == want->v, what << ": weight of the trace " << x << ", reported " << w); };
    vh::area = "pre* shortest"; vh::begin(T); { auto p = prod<W>(pda, i, f); bool g = Solver::pre_star_accepts<Trace_Type::Shortest>(p); auto [tr, w] = Solver::get_trace<Trace_Type::Shortest>(p); both(g, tr, w, "shortest pre*"); }
    vh::area = "post* shortest"; vh::begin(T); { auto p = prod<W>(pda, i, f); bool g = Solver::post_star_accepts<Trace_Type::Shortest>(p); auto [tr, w] = Solver::get_trace<Trace_Type::Shortest>(p); both(g, tr, w, "shortest post*"); }
    vh::area = "dual shortest"; vh::begin(T); { auto p = prod<W>(pda, i, f); bool g = Solver::dual_search_accepts<Trace_Type::Shortest>(p); auto [tr, w] = Solver::get_trace_dual_search<Trace_Type::Shortest>(p); both(g, tr, w, "shortest dual*"); } }
template<class W, Trace_Type TT> static void fixed(const Sys& s, const Aut& i, const Aut& f) { constexpr bool MIN = TT != Trace_Type::Longest; biggest = 0; auto want = answer<MIN>(s, i, f); if (biggest > (1 << 26)) return; auto pda = tbuild<W>(s); if (pda.states().size() != s.ns) return; std::string T = s.text() + " | initial " + i.text() + " | final " + f.text(); using SW = internal::solver_weight<W, TT>; constexpr auto I = TraceInfoType::Pair;
    auto both = [&](bool got, auto tr, auto w, const char* what) { VERDICT(got, what); if (!want) return; VH_CHECK((w == SW::bottom()) == want->inf, what << ": reported " << w << ", extremum " << (want->inf ? "unbounded" : std::to_string(want->v))); if (want->inf) return; VH_CHECK((long long)w == want->v, what << ": reported weight " << w << ", extremum " << want->v); auto x = check_trace<MIN>(s, i, f, tr, what); VH_CHECK(x == want->v, what << ": weight of the trace " << x << ", reported " << w); };
    vh::area = MIN ? "fixed point min" : "fixed point max"; vh::overflowed = false;
    vh::begin("pre* " + T); { auto p = prod<W, I>(pda, i, f); bool g = Solver::pre_star_fixed_point_accepts<TT>(p); if (vh::overflowed) return; auto [tr, w] = Solver::get_trace<TT>(p); if (vh::overflowed) return; both(g, tr, w, "fixed-point pre*"); }
    vh::begin("post* " + T); { auto p = prod<W, I>(pda, i, f); bool g = Solver::post_star_fixed_point_accepts<TT>(p); if (vh::overflowed) return; auto [tr, w] = Solver::get_trace<TT>(p); if (vh::overflowed) return; both(g, tr, w, "fixed-point post*"); }
    vh::begin("interleaved " + T); { auto p = prod<W, I>(pda, i, f), q = prod<W, I>(pda, i, f); auto [g, pre] = Solver::interleaving_fixed_point_accepts<TT>(p, q); if (vh::overflowed) return; auto [tr, w] = Solver::get_trace<TT>(pre ? q : p); if (vh::overflowed) return; both(g, tr, w, "interleaved fixed point"); } }
// the automaton of one configuration, and a pair of configurations connected by a random walk
static Aut single(size_t np, const Conf& c) { Aut a; a.np = np; a.acc.assign(np + c.second.size(), false); size_t q = c.first; for (size_t k = 0; k < c.second.size(); ++k) { a.e.emplace(q, c.second[k], np + k); q = np + k; } a.acc[q] = true; return a; }
static std::pair<Aut, Aut> walk(const Sys& s) { Conf c{vh::rnd(s.ns), {}}; for (size_t k = 1 + vh::rnd(2); k--;) c.second.push_back(vh::rnd(s.nl)); auto i = single(s.ns, c); size_t steps = 1 + vh::rnd(8); while (steps-- && !c.second.empty()) { std::vector<const Rule*> en; for (auto& r : s.rules) if (r.from == c.first && matches(r, c.second[0])) en.push_back(&r); if (en.empty()) break; auto* r = en[vh::rnd(en.size())]; c = {r->to, ph::apply(*r, c.second)}; } if (c.second.size() > 4) c.second.resize(4); return {i, single(s.ns, c)}; }
int main(int c, char** v) { vh::init(c, v); vh::allow_overflow = true; size_t it = 0;
    while (vh::time_left() && vh::evals < 200000) { size_t np = 1 + vh::rnd(vh::coin(70) ? 3 : 5), nl = 1 + vh::rnd(2); bool neg = it % 4 == 3; auto s = random_sys(np, nl, vh::rnd(2 * np + 4), neg ? -2 : 0, vh::coin() ? 2 : 6); auto i = random_aut(np, nl, vh::rnd(3), vh::rnd(5)), f = random_aut(np, nl, vh::rnd(3), vh::rnd(4)); if (vh::coin(40)) { if (vh::coin()) for (auto& r : s.rules) if (r.op == POP && vh::coin(70)) r.op = vh::coin() ? PUSH : SWAP; std::tie(i, f) = walk(s); } s.weighted = it % 4 > 0;
        switch (it++ % 4) { case 0: any<WV>(s, i, f); break; case 1: shortest<WU>(s, i, f); break; case 2: shortest<WI>(s, i, f); break; default: if (vh::coin(50)) for (auto& r : s.rules) if (vh::coin(70)) r.weight = std::abs(r.weight); if (vh::coin()) fixed<WI, Trace_Type::ShortestFixedPoint>(s, i, f); else { if (vh::coin()) for (auto& r : s.rules) r.weight = -r.weight; fixed<WI, Trace_Type::Longest>(s, i, f); } } }
    return vh::finish(); }
