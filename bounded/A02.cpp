// A02: best-weight searches against naive optimisation over all paths.
#include "sat.h"
#include <pdaaal/internal/PAutomatonAlgorithms.h>
using namespace sat; using WI = weight<int32_t>; using WU = weight<uint32_t>; using WL = weight<int64_t>;
static bool skip = false;
struct G : WAut {}; // edge weights in w
static std::string wtext(const WAut& a) { std::string s = "states=" + std::to_string(a.n()) + " system states=" + std::to_string(a.np) + " accepting={"; for (size_t i = 0; i < a.n(); ++i) if (a.acc[i]) s += std::to_string(i) + " "; s += "} edges:"; for (auto& [k, v] : a.w) s += " " + std::to_string(std::get<0>(k)) + "-" + std::to_string(std::get<1>(k)) + "{" + std::to_string(v.v) + "}->" + std::to_string(std::get<2>(k)); return s; }
static WAut rnd_aut(int lo, int hi) { WAut a; size_t np = 1 + vh::rnd(3), ex = vh::rnd(5), nl = 1 + vh::rnd(2); (Aut&)a = random_aut(np, nl, ex, vh::rnd(9)); size_t m = vh::rnd(3); for (size_t i = 0; i < m; ++i) a.e.emplace(vh::rnd(a.n()), vh::rnd(nl), vh::rnd(a.n())); for (size_t i = 0; i < np; ++i) if (vh::coin(60)) a.acc[i] = false; for (auto& k : a.e) a.w[k] = {false, lo + (long long)vh::rnd(hi - lo + 1)}; return a; }
template<class W, TraceInfoType I> PAutomaton<W, I> mkp(const PDA<W>& pda, const WAut& a) { std::vector<size_t> sp; for (size_t i = 0; i < a.np; ++i) if (a.acc[i]) sp.push_back(i); PAutomaton<W, I> p(pda, sp, true); for (size_t i = a.np; i < a.n(); ++i) p.add_state(false, a.acc[i]); for (auto& [k, v] : a.w) { auto [f, l, t] = k; auto an = internal::edge_annotation<W, I>::make_default(); an.second = (typename W::type)v.v; p.add_edge(f, t, l, an); } return p; }
// optimum over all accepting paths from the system states (Bellman-Ford; inf when a profitable loop lies on one)
template<bool MIN> std::optional<V> opt(const WAut& a) { std::map<size_t, V> d; for (size_t i = 0; i < a.np; ++i) d[i] = {}; auto rnd = [&](bool b) { bool ch = false; auto o = d; for (auto& [k, v] : a.w) { auto [f, l, t] = k; auto it = o.find(f); if (it == o.end()) continue; V x = plus(it->second, v); auto jt = d.find(t); if (jt == d.end() || better<MIN>(x, jt->second)) { d[t] = b ? V{true, 0} : x; ch = true; } } return ch; };
    bool ch = true; for (size_t i = 0; i <= a.n() && ch; ++i) ch = rnd(false); for (size_t i = 0; i <= 2 * a.n() && ch; ++i) ch = rnd(true); std::optional<V> r; for (auto& [s, v] : d) if (a.acc[s]) if (!r || better<MIN>(v, *r)) r = v; return r; }
template<class S> long long path_weight(const WAut& a, const std::vector<size_t>& st, const std::vector<uint32_t>& lab, S what) { VH_CHECK(st.size() == lab.size() + 1 && st[0] < a.np && a.acc[st.back()], what << ": not an accepting path " << vh::show(st)); long long w = 0; for (size_t i = 0; i < lab.size(); ++i) { auto it = a.w.find({st[i], lab[i], st[i + 1]}); VH_CHECK(it != a.w.end(), what << ": edge " << st[i] << "-" << lab[i] << "->" << st[i + 1] << " does not exist"); w += it->second.v; } return w; }
template<class W, TraceInfoType I> static void shortest(const WAut& a, size_t nl) { Sys s{a.np, nl, {}}; auto pda = build<W>(s); using SW = internal::solver_weight<W, Trace_Type::Shortest>;
    vh::area = "shortest"; vh::begin(wtext(a)); auto p = mkp<W, I>(pda, a); auto want = opt<true>(a); auto [path, wt] = p.find_path_shortest();
    VH_CHECK((wt == SW::max()) == !want, "find_path_shortest " << (want ? "found nothing" : "reports an accepting path although none exists")); VH_CHECK(path.is_null() == !want, "find_path_shortest null path");
    if (want) { auto [st, lab] = path.get_path_and_stack(); VH_CHECK((long long)wt == want->v, "find_path_shortest reports weight " << wt << ", lightest is " << want->v); VH_CHECK(path_weight(a, st, lab, "find_path_shortest") == want->v, "find_path_shortest path weight " << path_weight(a, st, lab, "") << " but reports " << wt); }
    for (auto& w : all_stacks(nl, 4)) for (size_t q = 0; q < a.np; ++q) { auto b = best<true>(a, q, w); auto [st, x] = p.template accept_path<Trace_Type::Shortest>(q, w); VH_CHECK((x == SW::max()) == !b && st.empty() == !b, "accept_path " << ph::show(Conf{q, w}) << (b ? " not found" : " found although none exists")); if (b) { VH_CHECK((long long)x == b->v, "accept_path " << ph::show(Conf{q, w}) << " reports weight " << x << ", lightest is " << b->v); VH_CHECK(st.size() == w.size() + 1 && st[0] == q, "accept_path states " << vh::show(st)); VH_CHECK(path_weight(a, st, w, "accept_path") == b->v, "accept_path: weight of the returned path " << vh::show(st)); } }
}
template<class W, Trace_Type TT> static void fixed(const WAut& a, size_t nl, const char* nm) { Sys s{a.np, nl, {}}; auto pda = build<W>(s); constexpr bool MIN = TT != Trace_Type::Longest; constexpr bool proper = !MIN || W::is_signed;
    vh::area = nm; vh::begin(wtext(a)); auto p = mkp<W, TraceInfoType::Pair>(pda, a); auto want = opt<MIN>(a); internal::PAutomatonFixedPoint<W, TT> fp(p); fp.run();
    VH_CHECK(fp.not_accepting() == !want, "not_accepting() is " << fp.not_accepting()); if (!want) return; if (proper) VH_CHECK(fp.is_infinite() == want->inf, "is_infinite() is " << fp.is_infinite() << " but the optimum is " << (want->inf ? "unbounded" : std::to_string(want->v)));
    if (!want->inf) { VH_CHECK((long long)fp.get_weight() == want->v, "weight " << fp.get_weight() << ", optimum " << want->v); auto path = fp.get_path(); auto [st, lab] = path.get_path_and_stack(); VH_CHECK(path_weight(a, st, lab, "get_path") == want->v, "weight of the returned path"); auto pl = fp.get_path_with_loop(); VH_CHECK(pl == path, "path with loop differs although the optimum is finite"); }
    else { auto pl = fp.get_path_with_loop(); auto [st, lab] = pl.get_path_and_stack(); path_weight(a, st, lab, "get_path_with_loop"); }
}
int main(int c, char** v) { vh::init(c, v); size_t it = 0;
    while (vh::time_left() && vh::evals < 150000) { bool neg = it % 6 >= 3; auto a = rnd_aut(neg ? -4 : 0, vh::coin() ? 3 : 9); if (neg && vh::coin(60)) for (auto& [k, x] : a.w) if (vh::coin(70)) x.v = std::abs(x.v); size_t nl = 2;
        switch (it++ % 6) { case 0: shortest<WU, TraceInfoType::Single>(a, nl); break; case 1: if (vh::coin()) shortest<WI, TraceInfoType::Single>(a, nl); else shortest<WU, TraceInfoType::Pair>(a, nl); break; case 2: if (vh::coin()) fixed<WU, Trace_Type::Longest>(a, nl, "fixed point max unsigned"); else fixed<WU, Trace_Type::ShortestFixedPoint>(a, nl, "fixed point min unsigned"); break; case 3: fixed<WI, Trace_Type::ShortestFixedPoint>(a, nl, "fixed point min signed"); break; case 4: fixed<WI, Trace_Type::Longest>(a, nl, "fixed point max signed"); break; default: fixed<WL, Trace_Type::ShortestFixedPoint>(a, nl, "fixed point min signed64"); } }
    return vh::finish(); }
