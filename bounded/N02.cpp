// N02: NFA queries on arbitrary state graphs against a direct graph semantics.
#include "vh.h"
#include <pdaaal/NFA.h>
using namespace pdaaal; using N = NFA<size_t>; using S = N::state_t;
struct G { size_t n; struct E { size_t f, t; bool eps, neg; std::set<size_t> s; }; std::vector<E> e; std::vector<bool> acc;
    std::string text() const { std::string r = "n=" + std::to_string(n) + " acc="; for (auto a : acc) r += a ? '1' : '0'; for (auto& x : e) { r += " " + std::to_string(x.f) + "-"; if (x.eps) r += "eps"; r += x.neg ? "^{" : "{"; for (auto l : x.s) r += std::to_string(l); r += "}->" + std::to_string(x.t); } return r; } };
static const size_t NL = 4;
static bool has(const G::E& e, size_t l) { return e.neg ? !e.s.count(l) : e.s.count(l) > 0; }
static std::set<size_t> epsreach(const G& g, std::set<size_t> s) { std::vector<size_t> q(s.begin(), s.end()); while (!q.empty()) { auto x = q.back(); q.pop_back(); for (auto& e : g.e) if (e.f == x && e.eps && s.insert(e.t).second) q.push_back(e.t); } return s; }
static std::set<size_t> clos(const G& g, std::set<size_t> s) { auto r = epsreach(g, s); std::set<size_t> o; for (auto x : r) { bool ne = g.acc[x]; for (auto& e : g.e) if (e.f == x && (e.neg || !e.s.empty())) ne = true; if (ne) o.insert(x); } return o; }
static void one(const G& g) {
    std::vector<std::unique_ptr<S>> st; std::map<const S*, size_t> id; for (size_t i = 0; i < g.n; ++i) { st.push_back(std::make_unique<S>(g.acc[i])); }
    for (size_t i = 0; i < g.n; ++i) id[st[i].get()] = i;
    for (auto& e : g.e) { auto f = st[e.f].get(), t = st[e.t].get(); if (e.eps && !e.neg && e.s.empty()) f->add_epsilon_edge(t); else if (e.neg && e.s.empty()) f->_edges.emplace_back(t, f, f->_edges.size()); else { std::unordered_set<size_t> s(e.s.begin(), e.s.end()); f->_edges.emplace_back(e.neg, s, t, f, f->_edges.size()); } f->_edges.back()._epsilon = e.eps; }
    auto ids = [&](auto& v, const char* q) { std::set<size_t> o; for (size_t i = 0; i < v.size(); ++i) { if (i) VH_CHECK(v[i - 1] < v[i], q << ": result not strictly sorted"); o.insert(id.at(v[i])); } return o; };
    auto pick = [&](const std::set<size_t>& s) { std::vector<const S*> v; for (auto x : s) v.push_back(st[x].get()); std::sort(v.begin(), v.end()); return v; };
    std::string T = g.text();
    std::unordered_set<size_t> all; for (size_t l = 0; l < NL; ++l) all.insert(l);
    // edges
    vh::area = "edge"; vh::begin(T);
    for (size_t i = 0; i < g.n; ++i) { size_t k = 0; for (auto& e : g.e) if (e.f == i) { auto& re = st[i]->_edges[k++]; size_t cnt = 0; for (size_t l = 0; l < NL; ++l) { VH_CHECK(re.contains(l) == has(e, l), "edge " << i << "#" << k - 1 << " contains " << l); cnt += has(e, l); }
        VH_CHECK(re.empty(NL) == (cnt == 0), "edge empty"); VH_CHECK(re.wildcard(NL) == (cnt == NL), "edge wildcard");
        auto fe = re.follow_epsilon(); VH_CHECK(ids(fe, "edge.follow_epsilon") == clos(g, {e.t}), "edge.follow_epsilon"); }
        bool ne = false; for (auto& e : g.e) if (e.f == i && (e.neg || !e.s.empty())) ne = true; VH_CHECK(st[i]->has_non_epsilon() == ne, "has_non_epsilon"); }
    std::vector<std::set<size_t>> sets; for (size_t m = 0; m < (size_t(1) << g.n); ++m) { std::set<size_t> s; for (size_t i = 0; i < g.n; ++i) if (m >> i & 1) s.insert(i); if (g.n <= 3 || m < 3 || vh::coin(30)) sets.push_back(s); }
    for (auto& s : sets) {
        auto v = pick(s); auto show = [&] { std::string r = T + " from={"; for (auto x : s) r += std::to_string(x); return r + "}"; };
        vh::area = "follow_epsilon"; vh::begin(show()); { auto c = v; N::follow_epsilon(c); VH_CHECK(ids(c, "follow_epsilon") == clos(g, s), "follow_epsilon"); }
        for (size_t l = 0; l < NL; ++l) { std::set<size_t> t; for (auto& e : g.e) if (s.count(e.f) && has(e, l)) t.insert(e.t); vh::area = "successor"; vh::begin(show() + " label=" + std::to_string(l)); auto r = N::successor(v, l); auto want = clos(g, t); VH_CHECK(ids(r, "successor") == want, "successor");
            for (size_t q = 0; q < g.n; ++q) VH_CHECK(N::has_as_successor(v, l, st[q].get()) == (want.count(q) > 0), "has_as_successor to " << q); }
        for (size_t q = 0; q < g.n; ++q) for (int rep = 0; rep < 2; ++rep) { std::vector<size_t> labs; for (size_t l = 0; l < NL; ++l) if (rep == 0 || vh::coin(60)) labs.push_back(l);
            vh::area = "intersect_edge_labels"; vh::begin(show() + " to=" + std::to_string(q) + " labels=" + vh::show(labs)); std::vector<size_t> want; for (auto l : labs) { bool ok = false; for (auto& e : g.e) if (s.count(e.f) && has(e, l) && epsreach(g, {e.t}).count(q)) ok = true; if (ok) want.push_back(l); }
            auto got = N::intersect_edge_labels(v, st[q].get(), labs); VH_CHECK(got == want, "got " << vh::show(got) << " want " << vh::show(want));
            if (s.size() == 1) VH_CHECK(N::intersect_edge_labels(static_cast<const S*>(v[0]), st[q].get(), labs) == want, "single state overload"); }
    }
    vh::area = "paths"; vh::begin(T);
    for (size_t i = 0; i < g.n; ++i) { auto r = epsreach(g, {i}); for (size_t j = 0; j < g.n; ++j) { VH_CHECK(N::leads_to_by_epsilon(st[i].get(), st[j].get()) == (r.count(j) > 0), "leads_to_by_epsilon " << i << "->" << j); for (size_t l = 0; l < NL; ++l) { std::set<size_t> t; for (auto& e : g.e) if (e.f == i && has(e, l)) t.insert(e.t); VH_CHECK(N::has_as_successor(static_cast<const S*>(st[i].get()), l, st[j].get()) == (clos(g, t).count(j) > 0), "has_as_successor(state)"); } }
        std::set<size_t> back{i}; for (bool ch = true; ch;) { ch = false; for (auto& e : g.e) if (back.count(e.t) && back.insert(e.f).second) ch = true; } std::set<size_t> want; for (auto& e : g.e) if (back.count(e.t)) for (size_t l = 0; l < NL; ++l) if (has(e, l)) want.insert(l);
        auto pl = st[i]->prelabels(all); VH_CHECK(pl == std::vector<size_t>(want.begin(), want.end()), "prelabels of " << i << ": " << vh::show(pl)); }
}
int main(int c, char** v) { vh::init(c, v);
    while (vh::time_left() && vh::evals < 400000) { G g; g.n = 1 + vh::rnd(vh::coin(85) ? 4 : 7); for (size_t i = 0; i < g.n; ++i) g.acc.push_back(vh::coin(30)); size_t ne = vh::rnd(2 * g.n + 2);
        for (size_t i = 0; i < ne; ++i) { G::E e{vh::rnd(g.n), vh::rnd(g.n), vh::coin(45), false, {}}; if (!e.eps || vh::coin(15)) { e.neg = vh::coin(30); for (size_t l = 0; l < NL; ++l) if (vh::coin(40)) e.s.insert(l); if (e.s.empty() && !e.neg && vh::coin(80)) e.s.insert(vh::rnd(NL)); } g.e.push_back(e); } one(g); }
    return vh::finish(); }
