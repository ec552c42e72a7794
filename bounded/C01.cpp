#include "vh.h"
#include <pdaaal/utils/vector_set.h>
using namespace pdaaal; using vh::rnd; using vh::coin;
// vector_map against std::map, vector_set against std::set, over random operation histories with small key ranges,
// and exhaustively over all short insert sequences.
template<class M> struct has_const {};
template<class Key, class KG> void maps(const char* n, KG kg) {
    static std::string nm; nm = n; vh::area = nm.c_str(); using VM = fut::vector_map<Key, int>;
    auto check = [&](const VM& cm, VM& m, const std::map<Key, int>& o, KG&) {
        VH_CHECK(m.size() == o.size() && m.empty() == o.empty(), "size " << m.size() << " vs " << o.size());
        size_t i = 0; for (auto& [k, v] : o) { VH_CHECK(m[i].first == k && m[i].second == v, "element " << i); VH_CHECK(cm[i].first == k && cm[i].second == v, "const element " << i); ++i; }
        i = 0; for (auto& e : m) { VH_CHECK(&e == &m[i], "iteration order"); ++i; } VH_CHECK(i == o.size(), "iteration length");
        VH_CHECK(size_t(cm.end() - cm.begin()) == o.size() && size_t(cm.cend() - cm.cbegin()) == o.size(), "range");
    };
    auto query = [&](const VM& cm, VM& m, const std::map<Key, int>& o, const Key& k) {
        auto it = o.find(k); VH_CHECK(cm.contains(k) == (it != o.end()), "contains");
        auto f = m.find(k); auto cf = cm.find(k);
        if (it == o.end()) { VH_CHECK(f == m.end() && cf == cm.end(), "find of absent key"); } else { VH_CHECK(f != m.end() && f->first == k && f->second == it->second && cf != cm.end() && cf->first == k && cf->second == it->second, "find of present key"); }
        auto lb = cm.lower_bound(k); size_t d = std::distance(o.begin(), o.lower_bound(k)); VH_CHECK(size_t(lb - cm.begin()) == d, "lower_bound");
    };
    auto hist = [&](size_t len, int kr, const std::vector<int>* fixed) {
        VM m; std::map<Key, int> o; const VM& cm = m; std::string t; int val = 0;
        for (size_t s = 0; s < len; ++s) { int op = fixed ? 0 : rnd(12); int ki = fixed ? (*fixed)[s] : rnd(kr); Key k = kg(ki); ++val; if (fixed) op = (s % 3 == 2) ? 5 : 0;
            t += " " + std::to_string(op) + ":" + std::to_string(ki); vh::cur = t; vh::watchdog();
            if (op <= 4) { Key k2 = k; auto r = op == 0 ? m.emplace(k, val) : op == 1 ? m.emplace(std::move(k2), val) : op == 2 ? m.try_emplace(k, val) : op == 3 ? m.try_emplace(std::move(k2), val) : m.emplace(k, val); bool fresh = o.emplace(k, val).second; VH_CHECK(r.second == fresh, "emplace reports fresh=" << r.second); VH_CHECK(r.first != m.end() && r.first->first == k && r.first->second == o[k], "emplace position"); }
            else if (op <= 6) { Key k2 = k; auto r = op == 5 ? m.insert_or_assign(k, val) : m.insert_or_assign(std::move(k2), val); bool fresh = !o.count(k); o[k] = val; VH_CHECK(r.second == fresh, "insert_or_assign fresh"); VH_CHECK(r.first->first == k && r.first->second == val, "insert_or_assign position"); }
            else if (op == 7 && coin(30)) { m.clear(); o.clear(); }
            else if (op == 8 && coin(30)) { size_t c = rnd(m.size() + 1); m.resize(c); while (o.size() > c) o.erase(std::prev(o.end())); }
            else if (op == 9 && coin(30)) { std::unordered_map<Key, int> h; for (auto& [a, b] : o) h.emplace(a, b); if (coin()) { VM q(h); m = q; } else { VM q(std::move(h)); m = std::move(q); } }
            else query(cm, m, o, k);
            if (fixed || rnd(4) == 0) check(cm, m, o, kg); }
        check(cm, m, o, kg); for (int k = 0; k < kr + 1; ++k) query(cm, m, o, kg(k)); vh::begin(t, len > 1);
    };
    for (size_t len = 1; len <= 5; ++len) { size_t tot = 1; for (size_t i = 0; i < len; ++i) tot *= 4; for (size_t c = 0; c < tot; ++c) { std::vector<int> f; size_t x = c; for (size_t i = 0; i < len; ++i) { f.push_back(x % 4); x /= 4; } hist(len, 4, &f); } }
    for (int k = 0; k < vh::budget * 120; ++k) hist(1 + rnd(60), 1 + rnd(24), nullptr);
}
template<class Key, class KG> void sets(const char* n, KG kg) {
    static std::string nm; nm = n; vh::area = nm.c_str(); using VS = fut::vector_set<Key>;
    auto hist = [&](size_t len, int kr, const std::vector<int>* fixed) {
        VS m; std::set<Key> o; const VS& cm = m; std::string t;
        for (size_t s = 0; s < len; ++s) { int op = fixed ? 0 : rnd(10); int ki = fixed ? (*fixed)[s] : rnd(kr); Key k = kg(ki); t += " " + std::to_string(op) + ":" + std::to_string(ki); vh::cur = t; vh::watchdog();
            if (op <= 5) { auto r = m.emplace(k); bool fresh = o.emplace(k).second; VH_CHECK(r.second == fresh, "emplace fresh"); VH_CHECK(r.first != m.end() && *r.first == k, "emplace position"); }
            else if (op == 6 && coin(30)) { m.clear(); o.clear(); }
            else if (op == 7 && coin(30)) { size_t c = rnd(m.size() + 1); m.resize(c); while (o.size() > c) o.erase(std::prev(o.end())); }
            else if (op == 8 && coin(30)) { std::unordered_set<Key> h(o.begin(), o.end()); if (coin()) { VS q(h); m = q; } else { VS q(std::move(h)); m = std::move(q); } }
            auto it = o.find(k); VH_CHECK(cm.contains(k) == (it != o.end()), "contains"); auto f = m.find(k); auto cf = cm.find(k); VH_CHECK((f != m.end()) == (it != o.end()) && (cf != cm.end()) == (it != o.end()), "find"); if (it != o.end()) VH_CHECK(*f == k && *cf == k, "find value");
            VH_CHECK(size_t(cm.lower_bound(k) - cm.begin()) == (size_t)std::distance(o.begin(), o.lower_bound(k)), "lower_bound");
            VH_CHECK(m.size() == o.size() && m.empty() == o.empty(), "size"); size_t i = 0; for (auto& x : o) { VH_CHECK(m[i] == x && cm[i] == x, "element " << i); ++i; } i = 0; for (auto& x : m) { VH_CHECK(&x == &m[i], "iter"); ++i; } VH_CHECK(i == o.size(), "iteration length"); }
        vh::begin(t, len > 1);
    };
    for (size_t len = 1; len <= 6; ++len) { size_t tot = 1; for (size_t i = 0; i < len; ++i) tot *= 4; for (size_t c = 0; c < tot; ++c) { std::vector<int> f; size_t x = c; for (size_t i = 0; i < len; ++i) { f.push_back(x % 4); x /= 4; } hist(len, 4, &f); } }
    for (int k = 0; k < vh::budget * 60; ++k) hist(1 + rnd(60), 1 + rnd(24), nullptr);
}
namespace std { template<> struct hash<std::pair<size_t,size_t>> { size_t operator()(const std::pair<size_t,size_t>& p) const { return p.first * 31 + p.second; } }; }
int main(int c, char** a) { vh::init(c, a);
    maps<int>("map<int>", [](int i) { return i * 7 - 20; }); maps<std::string>("map<string>", [](int i) { return std::string(1 + i % 3, 'a' + i / 3); }); maps<std::pair<size_t, size_t>>("map<pair>", [](int i) { return std::make_pair(size_t(i / 3), size_t(i % 3)); });
    sets<int>("set<int>", [](int i) { return i * 7 - 20; }); sets<std::string>("set<string>", [](int i) { return std::string(1 + i % 3, 'a' + i / 3); }); sets<size_t>("set<size_t>", [](int i) { return i ? ~size_t(0) - i : 0; });
    // multi-argument emplace constructs the element in place
    vh::area = "set<pair>"; { fut::vector_set<std::pair<size_t, size_t>> s; std::set<std::pair<size_t, size_t>> o; for (int k = 0; k < 3000; ++k) { size_t x = rnd(6), y = rnd(6); vh::begin(std::to_string(x) + "," + std::to_string(y)); VH_CHECK(s.emplace(x, y).second == o.emplace(x, y).second, "fresh"); VH_CHECK(s.size() == o.size() && std::equal(o.begin(), o.end(), s.begin()), "content"); if (rnd(40) == 0) { s.clear(); o.clear(); } } }
    return vh::finish(); }
