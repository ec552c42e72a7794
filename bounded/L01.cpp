#include "vh.h"
#include <pdaaal/internal/PDA.h>
using namespace pdaaal; using internal::labels_t; using vh::show; using vh::rnd; using vh::coin; using V = std::vector<uint32_t>;
static labels_t mk(bool w, const V& v) { labels_t l; l.merge(w, v); return l; }
static V norm(V v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
static void one(uint32_t n, bool w, const V& a, bool w2, const V& b) {
    std::string t = "n=" + std::to_string(n) + (w ? " wildcard" : " " + show(a)) + " with " + (w2 ? "wildcard" : show(b)); vh::area = "labels"; vh::begin(t, !(a.empty() && b.empty()));
    auto den = [&](bool w, const V& v) { std::set<uint32_t> s; if (w) for (uint32_t i = 0; i < n; ++i) s.insert(i); else s.insert(v.begin(), v.end()); return s; };
    auto is = [&](const labels_t& l, const std::set<uint32_t>& s, const char* what) { VH_CHECK(std::is_sorted(l.labels().begin(), l.labels().end()) && std::adjacent_find(l.labels().begin(), l.labels().end()) == l.labels().end(), what << ": not sorted/unique " << show(l.labels())); VH_CHECK(den(l.wildcard(), l.labels()) == s, what << ": denotes wrong set, wildcard=" << l.wildcard() << " " << show(l.labels())); if (l.wildcard()) VH_CHECK(l.labels().empty(), what << ": wildcard with labels"); for (uint32_t i = 0; i < n + 2; ++i) if (i < n || !l.wildcard()) VH_CHECK(l.contains(i) == (s.count(i) > 0), what << ": contains(" << i << ")"); VH_CHECK(l.empty() == (!l.wildcard() && l.labels().empty()), "empty"); };
    auto sa = den(w, a), sb = den(w2, b);
    { auto l = mk(w, a); is(l, sa, "initial"); l.merge(w2, b); auto u = sa; u.insert(sb.begin(), sb.end()); is(l, u, "merge"); VH_CHECK(l.wildcard() == (w || w2), "wildcard after merge"); l.clear(); is(l, {}, "clear"); }
    if (!w2) { auto l = mk(w, a); bool ne = l.intersect(b, n); std::set<uint32_t> x; for (auto e : sa) if (sb.count(e)) x.insert(e); is(l, x, "intersect"); if (n > 0) VH_CHECK(ne == !x.empty(), "intersect result " << ne); }
    if (!w2) { auto l = mk(w, a); std::set<uint32_t> us(b.begin(), b.end()); bool ch = l.noop_pre_filter(us); std::set<uint32_t> x; for (auto e : sa) if (sb.count(e)) x.insert(e); is(l, x, "filter"); VH_CHECK(ch == (w || x != sa), "filter change report " << ch); VH_CHECK(!l.wildcard(), "filter leaves no wildcard"); }
}
int main(int c, char** a) { vh::init(c, a);
    for (uint32_t n = 0; n <= 4; ++n) for (uint32_t x = 0; x < (1u << n); ++x) for (uint32_t y = 0; y < (1u << n); ++y) { V p, q; for (uint32_t i = 0; i < n; ++i) { if (x >> i & 1) p.push_back(i); if (y >> i & 1) q.push_back(i); } one(n, false, p, false, q); if (x == 0) { one(n, true, {}, false, q); one(n, false, q, true, {}); } }
    one(3, true, {}, true, {});
    for (int k = 0; k < vh::budget * 2000 && vh::time_left(); ++k) { uint32_t n = 1 + rnd(20); V p, q; for (uint32_t i = 0; i < n; ++i) { if (coin(k % 90 + 5)) p.push_back(i); if (coin((k / 7) % 90 + 5)) q.push_back(i); } one(n, coin(10), p, coin(5), q); }
    return vh::finish(); }
