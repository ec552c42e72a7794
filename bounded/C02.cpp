#include "vh.h"
#include <pdaaal/utils/fut_set.h>
using namespace pdaaal; using vh::rnd; using vh::coin; using fut::type;
using T3 = std::tuple<size_t, uint32_t, int>; using T2 = std::tuple<int, std::string>; using T2s = std::tuple<size_t, uint32_t>;
template<type A, type B> void map3(const char* n) {   // relation (a,b) -> v
    static std::string nm; nm = n; vh::area = nm.c_str(); using S = fut::set<T3, A, B>;
    auto hist = [&](size_t len, size_t r1, size_t r2, const std::vector<int>* fix) {
        S s; const S& cs = s; std::map<size_t, std::map<uint32_t, int>> o; std::string t; int v = 0;
        for (size_t i = 0; i < len; ++i) { size_t a = fix ? (*fix)[i] & 1 : rnd(r1); uint32_t b = fix ? ((*fix)[i] >> 1) & 1 : rnd(r2); int op = fix ? (*fix)[i] >> 2 : rnd(8); ++v; t += " " + std::to_string(op) + ":" + std::to_string(a) + "," + std::to_string(b); vh::cur = t; vh::watchdog();
            size_t a2 = a;
            if (op <= 1) { auto r = op ? s.emplace(std::move(a2), b, v) : s.emplace(a, b, v); bool fr = o[a].emplace(b, v).second; VH_CHECK(r.second == fr, "emplace reports new=" << r.second); VH_CHECK(r.first->first == b && r.first->second == o[a][b], "emplace position"); }
            else if (op <= 3) { auto r = op == 2 ? s.insert_or_assign(a, b, v) : s.insert_or_assign(std::move(a2), b, v); bool fr = !o[a].count(b); o[a][b] = v; VH_CHECK(r.second == fr, "assign reports new"); VH_CHECK(r.first->second == v, "assign value"); }
            else if (op == 4 && coin(10)) { s.clear(); o.clear(); }
            bool in = o.count(a) && o[a].count(b); VH_CHECK(cs.contains(a, b) == in, "contains"); auto p = s.get(a, b); auto cp = cs.get(a, b); VH_CHECK((p != nullptr) == in && (cp != nullptr) == in, "get"); if (in) VH_CHECK(*p == o[a][b] && *cp == o[a][b], "get value");
            if (p && coin(20)) { *p = v + 1000; o[a][b] = v + 1000; }
            auto f = s.find(a); auto cf = cs.find(a); VH_CHECK((f != s.end()) == (o.count(a) > 0) && (cf != cs.end()) == (o.count(a) > 0), "find"); if (f != s.end()) VH_CHECK(f->first == a && f->second.size() == o[a].size(), "find inner"); }
        size_t n1 = 0; VH_CHECK(s.size() == o.size() && s.empty() == o.empty(), "outer size");
        for (auto& [a, in] : s) { ++n1; VH_CHECK(o.count(a), "extra key"); VH_CHECK(in.size() == o[a].size(), "inner size"); size_t n2 = 0; uint32_t prev = 0; for (auto& [b, v2] : in) { VH_CHECK(o[a].count(b) && o[a][b] == v2, "inner value"); if (B == type::vector) VH_CHECK(n2 == 0 || prev < b, "inner order"); prev = b; ++n2; } VH_CHECK(n2 == in.size(), "inner iteration"); }
        VH_CHECK(n1 == o.size(), "outer iteration"); vh::begin(t, len > 1); };
    for (size_t len = 1; len <= 4; ++len) { size_t tot = 1; for (size_t i = 0; i < len; ++i) tot *= 12; for (size_t c = 0; c < tot; ++c) { std::vector<int> f; size_t x = c; for (size_t i = 0; i < len; ++i) { f.push_back(x % 12); x /= 12; } hist(len, 2, 2, &f); } }
    for (int k = 0; k < vh::budget * 60; ++k) hist(1 + rnd(50), 1 + rnd(8), 1 + rnd(8), nullptr);
}
template<type A, type B> void set2(const char* n) {   // relation {(a,b)}
    static std::string nm; nm = n; vh::area = nm.c_str(); using S = fut::set<T2s, A, B>;
    for (int k = 0; k < vh::budget * 60; ++k) { S s; std::map<size_t, std::set<uint32_t>> o; std::string t; size_t len = 1 + rnd(40), r1 = 1 + rnd(6), r2 = 1 + rnd(6);
        for (size_t i = 0; i < len; ++i) { size_t a = rnd(r1); uint32_t b = rnd(r2); t += " " + std::to_string(a) + "," + std::to_string(b); vh::cur = t; vh::watchdog(); auto r = s.emplace(a, b); VH_CHECK(r.second == o[a].insert(b).second && *r.first == b, "emplace"); a = rnd(r1); b = rnd(r2); VH_CHECK(s.contains(a, b) == (o.count(a) && o[a].count(b)), "contains"); }
        VH_CHECK(s.size() == o.size(), "size"); for (auto& [a, in] : s) { VH_CHECK(o.count(a) && in.size() == o[a].size(), "inner"); for (auto& b : in) VH_CHECK(o[a].count(b), "element"); } vh::begin(t); } }
template<type A> void map1(const char* n) { static std::string nm; nm = n; vh::area = nm.c_str(); using S = fut::set<T2, A>; using O = fut::set<T2, A == type::hash ? type::vector : type::hash>;
    for (int k = 0; k < vh::budget * 60; ++k) { S s; std::map<int, std::string> o; std::string t; size_t len = 1 + rnd(40); int kr = 1 + rnd(12);
        for (size_t i = 0; i < len; ++i) { int a = rnd(kr) - 4; std::string v = std::to_string(i); int op = rnd(3); t += " " + std::to_string(op) + ":" + std::to_string(a); vh::cur = t; vh::watchdog();
            if (op == 0) { auto r = s.emplace(a, v); VH_CHECK(r.second == o.emplace(a, v).second && r.first->second == o[a], "emplace"); } else if (op == 1) { bool fr = !o.count(a); o[a] = v; auto r = s.insert_or_assign(a, v); VH_CHECK(r.second == fr && r.first->second == v, "assign"); }
            else { auto p = s.get(a); VH_CHECK((p != nullptr) == (o.count(a) > 0), "get"); if (p) VH_CHECK(*p == o[a], "get value"); VH_CHECK(s.contains(a) == (o.count(a) > 0), "contains"); } }
        auto same = [&](const auto& q) { VH_CHECK(q.size() == o.size(), "converted size"); std::map<int, std::string> x; int prev = -1000; for (const auto& e : q) { VH_CHECK(x.emplace(e.first, e.second).second, "duplicate"); } VH_CHECK(x == o, "content"); for (auto& [kk, vv] : o) { auto p = q.get(kk); VH_CHECK(p && *p == vv, "lookup after conversion"); VH_CHECK(q.contains(kk), "contains after conversion"); } (void)prev; };
        same(s); if constexpr (A == type::hash) { O c(s); same(c); int prev = -1000; for (auto& e : c) { VH_CHECK(e.first > prev, "sorted after conversion"); prev = e.first; } O d(std::move(s)); same(d); }
        vh::begin(t); } }
int main(int c, char** a) { vh::init(c, a);
    map3<type::hash, type::vector>("map3<hash,vector>"); map3<type::vector, type::vector>("map3<vector,vector>"); map3<type::vector, type::hash>("map3<vector,hash>"); map3<type::hash, type::hash>("map3<hash,hash>");
    set2<type::hash, type::vector>("set2<hash,vector>"); set2<type::vector, type::vector>("set2<vector,vector>"); set2<type::vector, type::hash>("set2<vector,hash>"); set2<type::hash, type::hash>("set2<hash,hash>");
    map1<type::hash>("map<hash>"); map1<type::vector>("map<vector>");
    return vh::finish(); }
