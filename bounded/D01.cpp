// D01: reduction keeps every rule application used by some run from the start to the first arrival in the target, and adds nothing.
#include "pdah.h"
#include <pdaaal/internal/Reducer.h>
using namespace ph; using WV = weight<void>; using WU = weight<uint32_t>;
template<class W> static void run(const Sys& s, size_t ini, size_t term) {
    // reference: configurations reachable after the first push (the start bottom is read by no other rule)
    const size_t MAXC = 1500, MAXL = 7; std::map<Conf, size_t> id; std::vector<Conf> q; std::vector<std::vector<std::tuple<size_t, size_t, uint32_t>>> succ; // (target id, rule, label)
    auto get = [&](const Conf& c) { auto [it, f] = id.emplace(c, q.size()); if (f) { q.push_back(c); succ.emplace_back(); } return it->second; };
    std::vector<std::pair<size_t, size_t>> starts; for (size_t r = 0; r < s.rules.size(); ++r) if (s.rules[r].from == ini) starts.emplace_back(get({s.rules[r].to, {s.rules[r].label}}), r);
    for (size_t i = 0; i < q.size(); ++i) { Conf c = q[i]; if (c.first == term || c.second.empty()) continue; for (size_t r = 0; r < s.rules.size(); ++r) if (s.rules[r].from == c.first && matches(s.rules[r], c.second[0])) { Conf n{s.rules[r].to, ph::apply(s.rules[r], c.second)}; if (n.second.size() > MAXL || (q.size() >= MAXC && !id.count(n))) continue; auto k = get(n); succ[i].emplace_back(k, r, c.second[0]); } }
    std::vector<bool> good(q.size()); for (size_t i = 0; i < q.size(); ++i) good[i] = q[i].first == term; for (bool ch = true; ch;) { ch = false; for (size_t i = q.size(); i-- > 0;) if (!good[i]) for (auto& [k, r, l] : succ[i]) if (good[k]) { good[i] = true; ch = true; break; } }
    std::set<std::pair<size_t, uint32_t>> used; for (size_t i = 0; i < q.size(); ++i) for (auto& [k, r, l] : succ[i]) if (good[k]) used.emplace(r, l); std::set<size_t> used0; for (auto& [k, r] : starts) if (good[k]) used0.insert(r);
    for (int ag = 0; ag <= 4; ++ag) { static const char* A[] = {"strength 0", "strength 1", "strength 2", "strength 3", "strength 4"}; vh::area = A[ag]; vh::begin("initial=" + std::to_string(ini) + " target=" + std::to_string(term) + " " + s.text(), !used.empty());
        auto orig = build<W>(s); auto pda = build<W>(s); auto res = internal::Reducer::reduce(pda, ag, ini, term); (void)res;
        VH_CHECK(pda.states().size() == orig.states().size(), "number of states changed");
        for (size_t f = 0; f < pda.states().size(); ++f) { size_t prev = SIZE_MAX; for (auto& [rule, labels] : pda.states()[f]._rules) { auto o = orig.states()[f]._rules.get(rule); VH_CHECK(o != nullptr, "rule " << f << "->" << rule._to << " was not there before"); if (labels.wildcard()) VH_CHECK(o->wildcard(), "labels were added"); else { VH_CHECK(std::is_sorted(labels.labels().begin(), labels.labels().end()) && std::adjacent_find(labels.labels().begin(), labels.labels().end()) == labels.labels().end(), "labels not sorted and unique"); for (auto l : labels.labels()) VH_CHECK(l < s.nl && o->contains(l), "label " << l << " was added to " << f << "->" << rule._to); }
                auto ps = pda.states()[rule._to]._pre_states; VH_CHECK(ps.contains(f), "predecessor list of " << rule._to << " misses " << f); } VH_CHECK(std::is_sorted(pda.states()[f]._rules.begin(), pda.states()[f]._rules.end(), [](auto& a, auto& b) { return a.first < b.first; }), "rules out of order"); }
        auto there = [&](size_t r) { return pda.states()[s.rules[r].from]._rules.get(rule_of<W>(s.rules[r])); };
        for (auto r : used0) { auto g = there(r); VH_CHECK(g && !g->empty(), "start rule " << ph::show(s.rules[r]) << " is used by a run to the target but was removed"); }
        for (auto& [r, l] : used) { auto g = there(r); VH_CHECK(g && g->contains(l), "rule " << ph::show(s.rules[r]) << " on label " << l << " is used by a run to the target but was removed"); } }
}
int main(int c, char** v) { vh::init(c, v); size_t it = 0;
    while (vh::time_left() && vh::evals < 150000) { size_t np = 2 + vh::rnd(4), nl = 1 + vh::rnd(3); auto s = random_sys(np, nl, 1 + vh::rnd(3 * np), 0, it % 2 ? 1 : 0); size_t ini = vh::rnd(np), term = vh::coin(60) ? 0 : vh::rnd(np); if (ini == term) continue; if (vh::coin(50)) for (auto& r : s.rules) if (r.to == ini && vh::coin(80)) r.to = vh::rnd(np); if (vh::coin(60)) for (auto& r : s.rules) if (r.to == term && vh::coin(60)) r.to = vh::rnd(np);
        bool has = false; for (auto& r : s.rules) if (r.from == ini) { r.op = PUSH; has = true; } if (!has) { Rule r{ini, vh::rnd(np), PUSH, (uint32_t)vh::rnd(nl), vh::coin(), {}, 0}; if (!r.wildcard) r.pre = {(uint32_t)vh::rnd(nl)}; s.rules.push_back(r); }
        if (it++ % 2) run<WU>(s, ini, term); else run<WV>(s, ini, term); }
    return vh::finish(); }
