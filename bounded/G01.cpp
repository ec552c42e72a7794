#include "vh.h"
#include <pdaaal/cegar/Refinement.h>
using namespace pdaaal; using vh::rnd; using vh::coin; using vh::show; using V = std::vector<int>; using VV = std::vector<V>;
static std::string sv(const VV& v) { std::string s; for (auto& x : v) s += show(x); return s; }
static int cls(const VV& v, int e) { for (size_t i = 0; i < v.size(); ++i) if (std::find(v[i].begin(), v[i].end(), e) != v[i].end()) return i; return -1; }
static void wf(const VV& v, const std::set<int>& uni, const char* w) { std::set<int> s; for (auto& x : v) for (int e : x) VH_CHECK(s.insert(e).second, w << ": element " << e << " in two classes " << sv(v)); VH_CHECK(s == uni, w << ": wrong element set " << sv(v)); }
static V rs(int n, int pct) { V v; for (int i = 0; i < n; ++i) if (coin(pct)) v.push_back(i); return v; }
void combine_hist() { vh::area = "combine"; int n = 2 + rnd(9); HeaderRefinement<int> hr; size_t ids = 1 + rnd(2); std::map<size_t, std::pair<std::set<int>, std::set<std::pair<int, int>>>> m; std::string t; bool direct = coin(); std::unique_ptr<Refinement<int>> R; std::map<size_t, VV> before;
    size_t steps = 1 + rnd(6);
    for (size_t s = 0; s < steps; ++s) { V x, y; int pa = 15 + rnd(60), pb = rnd(80); for (int i = 0; i < n; ++i) { if (coin(pa)) { if (coin(pb)) x.push_back(i); else y.push_back(i); } } if (x.empty() || y.empty()) continue; if (coin()) { std::shuffle(x.begin(), x.end(), vh::rng); std::shuffle(y.begin(), y.end(), vh::rng); }
        size_t id = direct ? 0 : rnd(ids); t += " +" + std::to_string(id) + ":" + show(x) + "|" + show(y); vh::begin(t); auto& [uni, sep] = m[id]; for (int e : x) { uni.insert(e); for (int f : y) sep.insert({std::min(e, f), std::max(e, f)}); } for (int e : y) uni.insert(e);
        Refinement<int> nw(V(x), V(y), id); const VV* cur = nullptr;
        if (direct) { if (!R) R = std::make_unique<Refinement<int>>(std::move(nw)); else R->combine(std::move(nw)); cur = &R->partitions(); } else { hr.combine(std::move(nw)); VH_CHECK(!hr.empty(), "empty"); for (auto& r : hr.refinements()) if (r.abstract_id == id) { VH_CHECK(cur == nullptr, "two refinements for one id"); cur = &r.partitions(); } VH_CHECK(cur, "refinement lost"); VH_CHECK(hr.refinements().size() == m.size(), "number of refinements"); for (auto& r : hr.refinements()) if (r.abstract_id != id) VH_CHECK(r.partitions() == before[r.abstract_id], "unrelated refinement changed"); }
        wf(*cur, uni, "combine"); for (auto [e, f] : sep) VH_CHECK(cls(*cur, e) != cls(*cur, f), "elements " << e << "," << f << " must stay separated: " << sv(*cur));
        for (auto& q : before[id]) for (int e : q) for (auto& q2 : before[id]) if (&q != &q2) for (int f : q2) VH_CHECK(cls(*cur, e) != cls(*cur, f), "elements " << e << "," << f << " were in different classes: " << sv(*cur));
        before[id] = *cur; } }
template<refinement_option_t O> void pairs() { vh::area = O == refinement_option_t::best_refinement ? "pair-best" : "pair-fast"; int na = 1 + rnd(5), nb = 1 + rnd(5); std::vector<std::pair<int, int>> X, Y; V w; std::string t; int px = 10 + rnd(50), py = 10 + rnd(50); std::set<int> ws; if (coin(40)) for (int i = 0; i < na; ++i) if (coin(25)) { ws.insert(i); w.push_back(i); }
    for (int i = 0; i < na; ++i) if (!ws.count(i)) for (int j = 0; j < nb; ++j) { if (coin(px)) X.emplace_back(i, j); else if (coin(py)) Y.emplace_back(i, j); } if (X.empty() || (Y.empty() && w.empty())) return; if (coin(20) ) X.push_back(X[rnd(X.size())]); if (coin(20) && !Y.empty()) Y.push_back(Y[rnd(Y.size())]);
    std::shuffle(X.begin(), X.end(), vh::rng); std::shuffle(Y.begin(), Y.end(), vh::rng); t = "X:"; for (auto& [i, j] : X) t += " " + std::to_string(i) + "," + std::to_string(j); t += " Y:"; for (auto& [i, j] : Y) t += " " + std::to_string(i) + "," + std::to_string(j); t += " wild:" + show(w); vh::begin(t, X.size() + Y.size() > 1);
    auto X2 = X, Y2 = Y; auto w2 = w; auto [ra, rb] = make_refinement<O>(std::move(X2), std::move(Y2), size_t(3), size_t(4), std::move(w2)); VH_CHECK(ra.abstract_id == 3 && rb.abstract_id == 4, "ids"); auto& A = ra.partitions(); auto& B = rb.partitions(); std::set<int> ua, ub, ca, cb; for (auto& q : {X, Y}) for (auto& [i, j] : q) { ua.insert(i); ub.insert(j); } for (int i : w) ua.insert(i); for (auto& q : A) for (int e : q) { VH_CHECK(ca.insert(e).second, "A classes overlap " << sv(A)); VH_CHECK(ua.count(e), "foreign element"); } for (auto& q : B) for (int e : q) { VH_CHECK(cb.insert(e).second, "B classes overlap " << sv(B)); VH_CHECK(ub.count(e), "foreign element"); }
    if (O == refinement_option_t::best_refinement) { VH_CHECK(ca == ua && cb == ub, "not all elements classified A:" << sv(A) << " B:" << sv(B)); }
    bool any = false; auto same = [](const VV& v, int x, int y) { int c = cls(v, x); return c >= 0 && c == cls(v, y); };
    for (auto& [i, j] : X) { for (auto& [k, l] : Y) { VH_CHECK(!(same(A, i, k) && same(B, j, l)), "pairs (" << i << "," << j << ") and (" << k << "," << l << ") not separated A:" << sv(A) << " B:" << sv(B)); any |= (cls(A, i) >= 0 && cls(A, k) >= 0 && i != k && !same(A, i, k)) || (cls(B, j) >= 0 && cls(B, l) >= 0 && j != l && !same(B, j, l)); } for (int k : w) { VH_CHECK(!same(A, i, k), "wildcard element " << k << " not separated from " << i << " A:" << sv(A)); any |= cls(A, i) >= 0 && cls(A, k) >= 0; } } VH_CHECK(any, "nothing is separated A:" << sv(A) << " B:" << sv(B)); }
int main(int c, char** a) { vh::init(c, a); for (int it = 0; it < vh::budget * 1000 && vh::time_left(); ++it) { combine_hist(); pairs<refinement_option_t::best_refinement>(); pairs<refinement_option_t::fast_refinement>(); } return vh::finish(); }
