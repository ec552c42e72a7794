#include "vh.h"
#include <pdaaal/AutomatonPath.h>
#include <absl/hash/hash.h>
using namespace pdaaal; using vh::rnd; using vh::coin; constexpr uint32_t EPS = ~0u;
template<bool pr> using St = std::conditional_t<pr, std::pair<size_t, size_t>, size_t>;
template<bool pr> St<pr> st() { if constexpr (pr) return {rnd(5), rnd(5)}; else return rnd(6); }
static std::string ss(size_t s) { return std::to_string(s); } static std::string ss(std::pair<size_t, size_t> s) { return "(" + std::to_string(s.first) + "," + std::to_string(s.second) + ")"; }
// model: states s[0..n], labels l[0..n-1], front first
template<bool pr> void cmp(const AutomatonPath<pr>& p, const std::vector<St<pr>>& s, const std::vector<uint32_t>& l) {
    VH_CHECK(!p.is_null(), "null"); VH_CHECK(p.empty() == l.empty() && p.edges_size() == l.size(), "size"); VH_CHECK(p.front_state() == s[0], "front_state");
    if (!l.empty()) { auto [f, lab, t] = p.front_edge(); VH_CHECK(f == s[0] && lab == l[0] && t == s[1], "front_edge"); }
    VH_CHECK(p.stack() == l, "stack " << vh::show(p.stack())); auto [ps, stck] = p.get_path_and_stack(); std::vector<St<pr>> es; std::vector<uint32_t> el; for (size_t i = 0; i < l.size(); ++i) if (l[i] != EPS) { es.push_back(s[i]); el.push_back(l[i]); } es.push_back(s.back()); VH_CHECK(ps == es && stck == el, "path and stack");
    AutomatonPath<pr> q(s, l); VH_CHECK(q == p && !(q != p), "equal to the path built from its lists"); VH_CHECK(absl::Hash<AutomatonPath<pr>>{}(q) == absl::Hash<AutomatonPath<pr>>{}(p), "hash of equal paths");
    if constexpr (pr) { auto [a, b] = p.split(); std::vector<size_t> s1, s2; for (auto& x : s) { s1.push_back(x.first); s2.push_back(x.second); } cmp<false>(a, s1, l); cmp<false>(b, s2, l); } }
template<bool pr> void run(const char* n) { vh::area = n;
    { AutomatonPath<pr> z; VH_CHECK(z.is_null() && z.empty() && z.edges_size() == 0, "default path is null"); }
    for (int it = 0; it < vh::budget * 600; ++it) { std::vector<St<pr>> s{st<pr>()}; std::vector<uint32_t> l; AutomatonPath<pr> p(s[0]); std::string t = "end" + ss(s[0]); size_t len = rnd(it % 50 == 0 ? 60 : 10); vh::cur = t; cmp<pr>(p, s, l);
        if (coin(40)) { for (size_t i = rnd(7); i; --i) { s.insert(s.begin(), st<pr>()); l.insert(l.begin(), coin(15) ? EPS : rnd(4)); } t = "lists"; for (size_t i = 0; i < l.size(); ++i) t += " " + ss(s[i]) + "-" + std::to_string(l[i]); t += " " + ss(s.back()); vh::cur = t; p = AutomatonPath<pr>(s, l); cmp<pr>(p, s, l); }
        for (size_t i = 0; i < len; ++i) { if (!l.empty() && coin(35)) { t += " pop"; vh::cur = t; p.pop(); s.erase(s.begin()); l.erase(l.begin()); } else if (coin(10)) { bool can = l.empty() || l[0] != EPS || s[0] == s[1]; if (can) { t += " remove_eps"; vh::cur = t; p.remove_epsilon(); if (!l.empty() && l[0] == EPS) { s.erase(s.begin()); l.erase(l.begin()); } } } else { auto f = st<pr>(); uint32_t x = coin(12) ? EPS : rnd(4); if (x == EPS && coin()) f = s[0]; t += " " + ss(f) + "-" + std::to_string(x); vh::cur = t; p.emplace(f, x); s.insert(s.begin(), f); l.insert(l.begin(), x); } cmp<pr>(p, s, l); }
        if (!l.empty()) { auto l2 = l; size_t i = rnd(l.size()); l2[i] = l2[i] == 1 ? 2 : 1; VH_CHECK(AutomatonPath<pr>(s, l2) != p && !(AutomatonPath<pr>(s, l2) == p), "different label must not be equal"); auto s2 = s; i = rnd(s.size()); if constexpr (pr) s2[i].second += 7; else s2[i] += 9; VH_CHECK(AutomatonPath<pr>(s2, l) != p, "different state must not be equal"); }
        vh::begin(t, !l.empty()); } }
int main(int c, char** a) { vh::init(c, a); run<false>("single"); run<true>("paired"); return vh::finish(); }
