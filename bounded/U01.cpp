#include "vh.h"
#include <pdaaal/utils/more_algorithms.h>
#include <pdaaal/utils/flags.h>
using namespace pdaaal; using vh::rnd; using vh::coin; using vh::show; using V = std::vector<int>;
void disj(V a, V b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); vh::begin(show(a) + " " + show(b), a.size() + b.size() > 1); bool e = true; for (int x : a) for (int y : b) if (x == y) e = false; VH_CHECK(is_disjoint(a, b) == e, "is_disjoint"); VH_CHECK(is_disjoint(a, b, std::less<int>{}) == e, "is_disjoint with order");
    V ar(a.rbegin(), a.rend()), br(b.rbegin(), b.rend()); VH_CHECK(is_disjoint(ar, br, std::greater<int>{}) == e, "is_disjoint with reversed order");
    std::vector<std::pair<int, int>> pa; int k = 0; for (int x : a) pa.emplace_back(x, ++k % 3); std::stable_sort(pa.begin(), pa.end()); VH_CHECK(is_disjoint(pa, b, CompFirst<int, int>{}) == e, "is_disjoint on pairs vs keys"); VH_CHECK(is_disjoint(b, pa, CompFirst<int, int>{}) == e, "is_disjoint keys vs pairs"); }
template<class Comp> void pset(const char* n) { vh::area = n; Comp cmp;
    for (int it = 0; it < vh::budget * 600; ++it) { priority_set<int, size_t, Comp> p; std::map<size_t, int> best; std::set<size_t> done; std::string t; size_t len = 1 + rnd(30); std::vector<std::pair<int, size_t>> live; bool re = coin(30);
        auto rebest = [&] { best.clear(); for (auto& [w, e] : live) if (!done.count(e)) { auto x = best.find(e); if (x == best.end() || cmp(x->second, w)) best[e] = w; } };   // heap order: cmp(a,b) means b is better
        for (size_t i = 0; i < len || !best.empty(); ++i) { vh::watchdog(); if (i < len && coin(60)) { int w = rnd(8); size_t e = rnd(6); if (!re && done.count(e)) continue; t += " +" + std::to_string(e) + "@" + std::to_string(w); vh::cur = t; if (coin()) p.emplace(w, e); else { int w2 = w; p.emplace(std::move(w2), e); } live.emplace_back(w, e); rebest(); }
            else if (!best.empty()) { t += " pop"; vh::cur = t; auto [w, e] = p.top(); VH_CHECK(p.back() == e, "back"); VH_CHECK(!done.count(e), "element " << e << " handed out twice"); VH_CHECK(best.count(e) && best[e] == w, "weight of handed out element " << e << " is " << w); for (auto& [x, bw] : best) VH_CHECK(!cmp(w, bw), "a better element is waiting"); if (coin()) p.pop(); else p.pop_back(); done.insert(e); rebest(); }
            VH_CHECK(p.empty() == best.empty(), "emptiness " << p.empty()); }
        vh::begin(t, len > 3); } }
template<size_t N> void fl() { using F = utils::flags<N>; using M = utils::flag_mask<N>; using ft = typename F::flag_t; static std::string nm; nm = "flags" + std::to_string(N); vh::area = nm.c_str(); static_assert(sizeof(ft) * 8 >= N);
    auto bit = [](size_t i) { return i ? (unsigned __int128)1 << (i - 1) : (unsigned __int128)0; };
    for (size_t i = 0; i <= N; ++i) { vh::begin("flag " + std::to_string(i)); VH_CHECK(F::flag(i) == (ft)bit(i), "flag"); unsigned __int128 f = ((unsigned __int128)1 << i) - 1; VH_CHECK(F::fill(i) == (ft)f, "fill(" << i << ")"); VH_CHECK(M::fill(i) == (ft)f && M::flag(i) == (ft)bit(i), "mask fill"); VH_CHECK(F::is_single_flag(F::flag(i)) == (i > 0), "single flag"); if (i > 1) VH_CHECK(!F::is_single_flag(F::fill(i)), "not a single flag"); }
    for (int it = 0; it < 60; ++it) { ft m0 = it < 2 ? F::fill(N) : (ft)(vh::rng() & (uint64_t)F::fill(N)); M m(m0); std::set<size_t> miss; for (size_t i = 1; i <= N; ++i) if (m0 & F::flag(i)) miss.insert(i); std::string t = std::to_string((uint64_t)m0);
        for (int s = 0; s < 30; ++s) { size_t i = 1 + rnd(N); VH_CHECK(m.needs_flag(F::flag(i)) == (miss.count(i) > 0), "needs_flag"); t += " got" + std::to_string(i); vh::cur = t; m.got_flag(F::flag(i)); miss.erase(i); VH_CHECK(m.has_missing_flags() == !miss.empty(), "has_missing"); auto v = m.get_missing_flags(); std::vector<ft> e; for (auto x : miss) e.push_back((ft)F::flag(x)); VH_CHECK(v == e, "missing flags"); ft y = m0; F::add(y, F::flag(i)); VH_CHECK(y == (ft)(m0 | F::flag(i)) && F::contains(y, F::flag(i)) && F::select(y, F::flag(i)) == F::flag(i), "add/select"); F::remove(y, F::flag(i)); VH_CHECK(y == (ft)(m0 & ~F::flag(i)), "remove"); }
        vh::begin(t); }
    static_assert(true); VH_CHECK((F::template fill<N>() == F::fill(N) && F::template flag<N>() == F::flag(N) && F::template flag<0>() == 0 && F::template fill<0>() == 0 && F::template fill<(N > 1 ? N - 1 : 1)>() == F::fill(N > 1 ? N - 1 : 1)), "compile-time variants"); }
int main(int c, char** a) { vh::init(c, a); vh::area = "disjoint";
    for (unsigned x = 0; x < 64; ++x) for (unsigned y = 0; y < 64; ++y) { V p, q; for (int i = 0; i < 6; ++i) { if (x >> i & 1) p.push_back(i); if (y >> i & 1) q.push_back(i); } disj(p, q); }
    for (int it = 0; it < vh::budget * 600; ++it) { V p, q; int r = 1 + rnd(60); for (size_t i = rnd(20); i; --i) p.push_back(rnd(r)); for (size_t i = rnd(20); i; --i) q.push_back(coin(80) ? rnd(r) : 100); disj(p, q); }
    pset<std::less<int>>("priority max"); pset<CompSwapArgs<int>>("priority min"); pset<std::greater<int>>("priority greater");
    fl<1>(); fl<2>(); fl<3>(); fl<7>(); fl<8>(); fl<9>(); fl<15>(); fl<16>(); fl<17>(); fl<31>(); fl<32>(); fl<33>(); fl<63>(); fl<64>();
    return vh::finish(); }
