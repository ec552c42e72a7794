// A01: construction of and acceptance by P-automata, against explicit automata and a syntax-tree matcher.
#include "rx.h"
#include "sat.h"
#include <pdaaal/PDA.h>
#include <pdaaal/PAutomaton.h>
using namespace sat; using WV = weight<void>; using WI = weight<int32_t>; using N = NFA<uint32_t>; using rx::P; using rx::R;
static P gen(int d, size_t nl) { int k = d == 0 ? vh::rnd(6) : 2 + vh::rnd(14); if (k == 0) return rx::mk(R::EPS); if (k == 1) return vh::coin() ? rx::mk(R::NONE) : rx::set(vh::coin(), {});
    if (k < 7) { std::set<rx::T> s; for (size_t i = 0; i < nl; ++i) if (vh::coin()) s.insert(i); return rx::set(vh::coin(35), s); } if (k < 10) return rx::mk(R::CAT, gen(d - 1, nl), gen(d - 1, nl)); if (k < 12) return rx::mk(R::ALT, gen(d - 1, nl), gen(d - 1, nl)); if (k == 12) return rx::mk(R::STAR, gen(d - 1, nl)); if (k == 13) return rx::mk(R::PLUS, gen(d - 1, nl)); return rx::mk(R::OPT, gen(d - 1, nl)); }
static N bld(const P& r) { switch (r->k) { case R::EPS: return N(true); case R::NONE: return N(false); case R::SET: { std::unordered_set<uint32_t> s(r->s.begin(), r->s.end()); return N(std::move(s), r->neg); }
        case R::CAT: { auto a = bld(r->a); a.concat(bld(r->b)); return a; } case R::ALT: { auto a = bld(r->a); a.or_extend(bld(r->b)); return a; } case R::STAR: { auto a = bld(r->a); a.star_extend(); return a; } case R::PLUS: { auto a = bld(r->a); a.plus_extend(); return a; } default: { auto a = bld(r->a); a.question_extend(); return a; } } }
// the same over labels of the user (label l is lab[l])
static NFA<int> bldt(const P& r, const std::vector<int>& lab) { switch (r->k) { case R::EPS: return NFA<int>(true); case R::NONE: return NFA<int>(false); case R::SET: { std::unordered_set<int> s; for (auto x : r->s) s.insert(lab[x]); return NFA<int>(std::move(s), r->neg); }
        case R::CAT: { auto a = bldt(r->a, lab); a.concat(bldt(r->b, lab)); return a; } case R::ALT: { auto a = bldt(r->a, lab); a.or_extend(bldt(r->b, lab)); return a; } case R::STAR: { auto a = bldt(r->a, lab); a.star_extend(); return a; } case R::PLUS: { auto a = bldt(r->a, lab); a.plus_extend(); return a; } default: { auto a = bldt(r->a, lab); a.question_extend(); return a; } } }
static bool rmatch(const P& r, const Stack& w) { return rx::match(r, rx::Word(w.begin(), w.end())); }
// accepts, accept_path and find_path against the edge relation of the automaton itself
template<class A> void queries(const A& p, size_t np, size_t nl, size_t len) {
    auto a = read(p, np); bool any = false;
    for (auto& w : all_stacks(nl, len)) for (size_t q = 0; q < np; ++q) { bool m = member(a, q, w); VH_CHECK(p.accepts(q, w) == m, "accepts" << ph::show(Conf{q, w}) << " is " << !m << " but " << (m ? "a" : "no") << " path exists in " << a.text());
        auto path = p.template accept_path<Trace_Type::Any>(q, w); VH_CHECK(!path.empty() == m, "accept_path " << ph::show(Conf{q, w}) << (m ? " not found" : " found although none exists")); if (m) { VH_CHECK(path.size() == w.size() + 1 && path[0] == q && a.acc[path.back()], "accept_path returns the wrong states " << vh::show(path)); for (size_t i = 0; i < w.size(); ++i) VH_CHECK(a.e.count({path[i], w[i], path[i + 1]}), "accept_path uses an edge that does not exist: " << vh::show(path)); } }
    // some configuration accepted?  (states reachable from the system states)
    std::set<size_t> r; for (size_t q = 0; q < np; ++q) r.insert(q); for (bool ch = true; ch;) { ch = false; for (auto& [f, l, t] : a.e) if (r.count(f) && r.insert(t).second) ch = true; } for (auto x : r) any |= a.acc[x];
    auto fp = p.find_path(); VH_CHECK(!fp.is_null() == any, "find_path " << (any ? "found nothing" : "found a path") << " in " << a.text());
    if (any) { auto [st, lab] = fp.get_path_and_stack(); VH_CHECK(st.size() == lab.size() + 1 && st[0] < np && a.acc[st.back()], "find_path returns the wrong states " << vh::show(st)); for (size_t i = 0; i < lab.size(); ++i) VH_CHECK(a.e.count({st[i], lab[i], st[i + 1]}), "find_path uses an edge that does not exist"); }
}
// systems over labels of the user, inserted in any order
template<class W> static void typed() { size_t np = 1 + vh::rnd(3), nl = 1 + vh::rnd(4); std::vector<int> lab(nl), by_id(nl); std::vector<size_t> order(nl); for (size_t l = 0; l < nl; ++l) { lab[l] = 100 + 3 * (int)l; order[l] = l; } for (size_t l = nl; l > 1; --l) std::swap(order[l - 1], order[vh::rnd(l)]);
    pdaaal::PDA<int, W> pda(std::unordered_set<int>{}); for (auto l : order) pda.insert_label(lab[l]); pda.insert_state(np - 1); std::vector<uint32_t> id(nl); for (size_t k = 0; k < nl; ++k) id[order[k]] = k; auto ids = [&](const Stack& w) { Stack v; for (auto x : w) v.push_back(id[x]); return v; };
    P r = gen(vh::rnd(4), nl); std::vector<size_t> st; for (size_t q = 0; q < np; ++q) if (vh::coin()) st.push_back(q); auto nfa = bldt(r, lab); nfa.compile();
    vh::area = "stack automaton over user labels"; vh::begin("states=" + std::to_string(np) + " labels inserted in order " + vh::show(order) + " from " + vh::show(st) + " stacks " + rx::text(r)); pdaaal::PAutomaton<int, W, size_t, true> p(pda, nfa, st);
    for (auto& w : all_stacks(nl, nl > 3 ? 2 : 3)) for (size_t q = 0; q < np; ++q) VH_CHECK(p.accepts(q, ids(w)) == (std::find(st.begin(), st.end(), q) != st.end() && rmatch(r, w)), "accepts" << ph::show(Conf{q, w}) << "=" << p.accepts(q, ids(w)));
    Stack c; std::vector<int> cl; for (size_t n = vh::rnd(4); n--;) { c.push_back(vh::rnd(nl)); cl.push_back(lab[c.back()]); } size_t q0 = vh::rnd(np); vh::area = "one configuration over user labels"; vh::begin("labels inserted in order " + vh::show(order) + " " + ph::show(Conf{q0, c})); pdaaal::PAutomaton<int, W, size_t, true> one(pda, q0, cl); for (auto& w : all_stacks(nl, nl > 3 ? 2 : 3)) for (size_t q = 0; q < np; ++q) VH_CHECK(one.accepts(q, ids(w)) == (q == q0 && w == c), "accepts" << ph::show(Conf{q, w})); VH_CHECK(one.accepts(q0, ids(c)), "own configuration"); }
template<class W> static void go(size_t it) {
    size_t np = 1 + vh::rnd(4), nl = 1 + vh::rnd(3); Sys s{np, nl, {}}; auto pda = build<W>(s); auto ws = all_stacks(nl, nl > 2 ? 3 : 4); using PA = pdaaal::internal::PAutomaton<W>;
    auto rconf = [&] { Stack st; size_t n = vh::rnd(5); for (size_t i = 0; i < n; ++i) st.push_back(vh::rnd(nl)); return Conf{vh::rnd(np), st}; };
    { auto c = rconf(); vh::area = "one configuration"; vh::begin("states=" + std::to_string(np) + " " + ph::show(c)); PA p(pda, c.first, c.second); queries(p, np, nl, 4); for (size_t q = 0; q < np; ++q) { for (auto& w : ws) VH_CHECK(p.accepts(q, w) == (q == c.first && w == c.second), "accepts " << ph::show(Conf{q, w})); VH_CHECK(p.accepts(q, c.second) == (q == c.first), "own stack"); } }
    { std::vector<size_t> sp; for (size_t q = 0; q < np; ++q) for (size_t n = vh::rnd(3); n--;) sp.push_back(q); bool ac = vh::coin(70); vh::area = "given states"; vh::begin("states=" + std::to_string(np) + " " + vh::show(sp) + (ac ? " accepting" : "")); PA p(pda, sp, ac); queries(p, np, nl, 2); for (auto& w : ws) for (size_t q = 0; q < np; ++q) VH_CHECK(p.accepts(q, w) == (ac && w.empty() && std::find(sp.begin(), sp.end(), q) != sp.end()), "accepts" << ph::show(Conf{q, w})); }
    auto mknfa = [&](P& r, std::vector<size_t>& st) { r = gen(vh::rnd(4), nl); st.clear(); for (size_t q = 0; q < np; ++q) if (vh::coin()) st.push_back(q); };
    P r1, r2; std::vector<size_t> s1, s2; mknfa(r1, s1); mknfa(r2, s2);
    auto n1 = bld(r1), n2 = bld(r2); n1.compile(); n2.compile(); auto in = [](const std::vector<size_t>& v, size_t q) { return std::find(v.begin(), v.end(), q) != v.end(); };
    vh::area = "state set and stack automaton"; vh::begin("states=" + std::to_string(np) + " labels=" + std::to_string(nl) + " from " + vh::show(s1) + " stacks " + rx::text(r1));
    PA p1(pda, n1, s1); queries(p1, np, nl, 3); for (auto& w : ws) for (size_t q = 0; q < np; ++q) VH_CHECK(p1.accepts(q, w) == (in(s1, q) && rmatch(r1, w)), "accepts" << ph::show(Conf{q, w}) << "=" << p1.accepts(q, w));
    vh::area = "union"; vh::begin("states=" + std::to_string(np) + " labels=" + std::to_string(nl) + " (" + vh::show(s1) + " " + rx::text(r1) + ") or (" + vh::show(s2) + " " + rx::text(r2) + ")");
    PA p2(pda, n2, s2); PA cp(p1); { PA p2c(p2); p1.or_extend(std::move(p2c)); } queries(p1, np, nl, 3);
    for (auto& w : ws) for (size_t q = 0; q < np; ++q) { bool a = in(s1, q) && rmatch(r1, w), b = in(s2, q) && rmatch(r2, w); VH_CHECK(p1.accepts(q, w) == (a || b), "union accepts" << ph::show(Conf{q, w}) << "=" << p1.accepts(q, w)); VH_CHECK(cp.accepts(q, w) == a, "copy taken before the union accepts" << ph::show(Conf{q, w}) << "=" << cp.accepts(q, w)); }
    VH_CHECK(p1.has_accepting_state() == [&] { for (auto& x : p1.states()) if (x->_accepting) return true; return false; }(), "has_accepting_state");
    // arbitrary automata (also with edges into system states); copies are independent
    auto a = random_aut(np, nl, vh::rnd(4), vh::rnd(8)); size_t ex = vh::rnd(3); for (size_t i = 0; i < ex; ++i) a.e.emplace(vh::rnd(a.n()), vh::rnd(nl), vh::rnd(a.n()));
    vh::area = "acceptance"; vh::begin(a.text()); auto pa = make<W>(pda, a); { auto rd = read(pa, np); VH_CHECK(rd.e == a.e && rd.acc == a.acc, "edges or accepting states read back differ"); } queries(pa, np, nl, 4);
    PA pc(pa); size_t f = vh::rnd(a.n()), t = vh::rnd(a.n()); uint32_t l = vh::rnd(nl); pc.add_edge(f, t, l); pc.set_state_accepting(f); { auto rd = read(pa, np); VH_CHECK(rd.e == a.e && rd.acc == a.acc, "changing a copy changed the original"); auto b = a; b.e.emplace(f, l, t); b.acc[f] = true; auto rc = read(pc, np); VH_CHECK(rc.e == b.e && rc.acc == b.acc, "copy"); } queries(pc, np, nl, 3);
    // the copy's own list of accepting states: best weights set in the copy are seen by the copy only, also after the original is gone
    if constexpr (W::is_weight) { vh::area = "copies of weighted automata"; vh::begin(a.text()); auto pw = std::make_unique<PA>(make<W>(pda, a)); PA cw(*pw); bool any = false; for (size_t i = 0; i < a.n(); ++i) if (i >= np && a.acc[i]) { any = true; pw->make_back_edge_shortest(0, 0, i, 5); cw.make_back_edge_shortest(0, 0, i, 7 + (int)i); } for (size_t i = 0; i < np; ++i) if (a.acc[i]) any = false; if (any) { VH_CHECK(pw->template min_accepting_weight<Trace_Type::Shortest>() == 5, "best weight of the original"); pw.reset(); size_t first = np; while (!a.acc[first]) ++first; VH_CHECK(cw.template min_accepting_weight<Trace_Type::Shortest>() == 7 + (int)first, "best weight of the copy"); auto [bp, bw] = cw.template get_path_shortest<false>(); VH_CHECK(bw == 7 + (int)first && bp.front_state() == 0, "best path of the copy"); } }
    // adding whole (negated) label sets
    std::vector<uint32_t> ls; for (uint32_t x = 0; x < nl; ++x) if (vh::coin()) ls.push_back(x); bool neg = vh::coin(); vh::area = "add_edges"; vh::begin(a.text() + " + " + (neg ? "not " : "") + vh::show(ls) + " " + std::to_string(f) + "->" + std::to_string(t)); { auto b = a; for (uint32_t x = 0; x < nl; ++x) if ((std::find(ls.begin(), ls.end(), x) != ls.end()) != neg) b.e.emplace(f, x, t); PA q(pa); q.add_edges(f, t, neg, ls); VH_CHECK(read(q, np).e == b.e, "add_edges"); std::vector<size_t> fs{f}; PA q2(pa); q2.add_edges(fs, t, neg, ls); VH_CHECK(read(q2, np).e == b.e, "add_edges from several states"); }
    // union of arbitrary automata without edges into system states
    auto x = random_aut(np, nl, vh::rnd(4), vh::rnd(7)), y = random_aut(np, nl, vh::rnd(4), vh::rnd(7)); vh::area = "union of automata"; vh::begin(x.text() + " or " + y.text()); auto px = make<W>(pda, x), py = make<W>(pda, y); px.or_extend(std::move(py)); auto u = read(px, np); for (auto& w : ws) for (size_t q = 0; q < np; ++q) VH_CHECK(member(u, q, w) == (member(x, q, w) || member(y, q, w)), "union" << ph::show(Conf{q, w})); queries(px, np, nl, 3);
}
int main(int c, char** v) { vh::init(c, v); size_t it = 0; while (vh::time_left() && vh::evals < 60000) { if (it % 3 == 2) go<WI>(it); else go<WV>(it); if (it % 3 == 2) typed<WI>(); else typed<WV>(); ++it; } return vh::finish(); }
