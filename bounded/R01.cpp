#include "pdah.h"
#include <pdaaal/PDA.h>
using namespace ph; using vh::rnd; using vh::coin;
template<class W> struct Key { size_t to; uint32_t l; int op; std::vector<long> w; bool operator<(const Key& o) const { return std::tie(to, l, op, w) < std::tie(o.to, o.l, o.op, o.w); } bool operator==(const Key& o) const { return std::tie(to, l, op, w) == std::tie(o.to, o.l, o.op, o.w); } };
template<class W> Key<W> key(const internal::pda_rule_t<W>& r) { Key<W> k{r._to, r._op_label, r._operation, {}}; if constexpr (W::is_weight) { if constexpr (W::is_vector) k.w.assign(r._weight.begin(), r._weight.end()); else k.w = {(long)r._weight}; } return k; }
template<class W> using Model = std::vector<std::map<Key<W>, std::pair<bool, std::set<uint32_t>>>>;
template<class W, class P> void cmp(const P& p, const Model<W>& m, const char* w) {
    VH_CHECK(p.states().size() == m.size(), w << ": number of states " << p.states().size() << " expected " << m.size());
    for (size_t s = 0; s < m.size(); ++s) { auto& st = p.states()[s]; std::set<Key<W>> seen; VH_CHECK(st._rules.size() == m[s].size(), w << ": state " << s << " has " << st._rules.size() << " rules, expected " << m[s].size());
        for (auto& [r, l] : st._rules) { auto k = key<W>(r); VH_CHECK(seen.insert(k).second, w << ": duplicate entry at state " << s); auto it = m[s].find(k); VH_CHECK(it != m[s].end(), w << ": unexpected rule at state " << s << " to " << r._to); VH_CHECK(l.wildcard() == it->second.first, w << ": wildcard flag"); if (!l.wildcard()) VH_CHECK(std::set<uint32_t>(l.labels().begin(), l.labels().end()) == it->second.second && l.labels().size() == it->second.second.size(), w << ": labels"); }
        for (auto& [k, v] : m[s]) { VH_CHECK(p.states()[k.to]._pre_states.contains(s), w << ": state " << s << " missing among predecessors of " << k.to); } } }
template<class W> void run(const char* n, int wlo, int whi) { static std::string nm; nm = n; vh::area = nm.c_str();
    for (int it = 0; it < vh::budget * 60; ++it) { size_t ns = 1 + rnd(7), nl = 1 + rnd(4); TP<W> p(nl); TP<W, fut::type::hash> h(nl); Model<W> m; std::string t = "labels=" + std::to_string(nl); size_t len = 1 + rnd(25); bool cleared = false;
        for (size_t i = 0; i < len; ++i) { vh::watchdog();
            if (rnd(12) == 0 && !m.empty()) { size_t s = rnd(m.size()); t += " clear" + std::to_string(s); vh::cur = t; p.clear_state(s); cleared = true; m[s].clear(); for (auto& q : m) for (auto x = q.begin(); x != q.end();) x = x->first.to == s ? q.erase(x) : std::next(x); }
            else { Sys s = random_sys(ns, nl, 1, wlo, whi); Rule r = s.rules[0]; if (rnd(3) == 0) r.weight = wlo; int how = rnd(3); if (how == 1) { r.wildcard = false; r.pre = {(uint32_t)rnd(nl)}; } if (how == 2) { r.wildcard = true; r.pre = {}; } t += " " + show(r, W::is_weight); vh::cur = t; auto ir = rule_of<W>(r);
                if (m.size() < std::max(r.from, r.to) + 1) m.resize(std::max(r.from, r.to) + 1);
                if (how == 0) { p.raw(r.from, ir, r.wildcard, r.pre); h.raw(r.from, ir, r.wildcard, r.pre); }
                else { user_rule_t<W> u; if constexpr (W::is_weight) u = user_rule_t<W>(r.from, r.wildcard ? 0 : r.pre[0], r.to, r.op, ir._op_label, ir._weight); else u = user_rule_t<W>(r.from, r.wildcard ? 0 : r.pre[0], r.to, r.op, ir._op_label); VH_CHECK(u.to_impl_rule() == ir, "user rule conversion"); user_rule_t<W> u2(r.from, r.wildcard ? 0 : r.pre[0], ir); VH_CHECK(u == u2 && !(u != u2), "user rule from stored rule"); if (r.wildcard) { p.add_wildcard_rule(u); h.add_wildcard_rule(u); } else { p.add_rule(u); h.add_rule(u); } }
                auto& e = m[r.from][key<W>(ir)]; if (e.first) {} else if (r.wildcard) { e.first = true; e.second.clear(); } else e.second.insert(r.pre.begin(), r.pre.end()); }
            cmp<W>(p, m, "vector store");
            for (auto& st : p.states()) for (size_t j = 1; j < st._rules.size(); ++j) VH_CHECK(key<W>(st._rules[j - 1].first) < key<W>(st._rules[j].first), "rules of a state must be in increasing order"); }
        if (!cleared) { cmp<W>(h, m, "hash store"); TP<W> c(std::move(h)); cmp<W>(c, m, "converted store"); for (auto& st : c.states()) for (size_t j = 1; j < st._rules.size(); ++j) VH_CHECK(st._rules[j - 1].first < st._rules[j].first, "rules sorted after conversion"); }
        vh::begin(t, len > 2); } }
// rules over labels of the user, inserted in any order, given with their pre-labels in any order (repetitions allowed)
template<class W, fut::type C> void typed(const char* n) { static std::string nm; nm = n; vh::area = nm.c_str(); using K = std::tuple<size_t, int, size_t, int, int, long>;
    for (int it = 0; it < vh::budget * 40; ++it) { vh::watchdog(); size_t ns = 1 + rnd(4), nl = 1 + rnd(5); std::vector<int> order; for (size_t l = 0; l < nl; ++l) order.push_back(100 + 3 * (int)l); for (size_t l = nl; l > 1; --l) std::swap(order[l - 1], order[rnd(l)]);
        pdaaal::PDA<int, W, C> p(std::unordered_set<int>{}); for (auto l : order) p.insert_label(l); std::set<K> m; std::string t = "labels inserted in order " + vh::show(order); size_t len = 1 + rnd(12);
        for (size_t i = 0; i < len; ++i) { Sys s = random_sys(ns, nl, 1, 0, 2); Rule r = s.rules[0]; std::vector<int> pre; for (auto l : r.pre) for (size_t k = 1 + (rnd(6) == 0); k--;) pre.push_back(100 + 3 * (int)l); for (size_t l = pre.size(); l > 1; --l) std::swap(pre[l - 1], pre[rnd(l)]); int lab = 100 + 3 * (int)r.label; bool has = r.op == PUSH || r.op == SWAP; t += " " + show(r, W::is_weight) + " pre=" + vh::show(pre); vh::cur = t;
            if constexpr (W::is_weight) p.add_rule(r.from, r.to, r.op, lab, r.wildcard, pre, (typename W::type)r.weight); else p.add_rule(r.from, r.to, r.op, lab, r.wildcard, pre);
            if (r.wildcard) for (auto l : order) m.emplace(r.from, l, r.to, r.op, has ? lab : 0, W::is_weight ? r.weight : 0); else for (auto l : pre) m.emplace(r.from, l, r.to, r.op, has ? lab : 0, W::is_weight ? r.weight : 0); }
        std::set<K> got; size_t cnt = 0; for (auto& r : p.all_rules()) { ++cnt; long w = 0; if constexpr (W::is_weight) w = r._weight; got.emplace(r._from, r._pre, r._to, r._op, r._op_label, w); } VH_CHECK(got == m, "the rules listed are not those added: " << got.size() << " instead of " << m.size()); VH_CHECK(cnt == m.size(), "rules are listed repeatedly");
        for (auto& st : p.states()) for (auto& [r, l] : st._rules) for (size_t j = 1; j < l.labels().size(); ++j) VH_CHECK(l.labels()[j - 1] < l.labels()[j], "label set is not in increasing order");
        vh::begin(t, len > 2); } }
int main(int c, char** a) { vh::init(c, a); run<weight<void>>("unweighted", 0, 0); run<weight<uint32_t>>("uint32 weights", 0, 2); run<weight<int32_t>>("int32 weights", -2, 2); run<weight<std::vector<int32_t>>>("vector weights", -1, 1); typed<weight<void>, fut::type::vector>("typed, unweighted"); typed<weight<uint32_t>, fut::type::vector>("typed, weighted"); typed<weight<void>, fut::type::hash>("typed, hash"); return vh::finish(); }
