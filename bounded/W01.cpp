#include "vh.h"
#include <pdaaal/Weight.h>
using namespace pdaaal;
template<class W, class T, bool mx> void laws(const std::vector<T>& v, const char* name, size_t triples) {
    static std::string nm; nm = name; vh::area = nm.c_str();
    const T M = W::max(), B = W::bottom(), Z = W::zero();
    VH_CHECK(Z == T(0), "zero");
    using L = std::numeric_limits<T>;
    auto rep = [&](T a, T b) { __int128 s = (__int128)a + b; return s >= L::min() && s <= L::max() && s != (__int128)M && (B == 0 || s != (__int128)B); };
    auto ext = [&](T a) { return a == M || (B != 0 && a == B); };
    auto sh = [&](T a, T b) { return "a=" + std::to_string(+a) + " b=" + std::to_string(+b); };
    for (T a : v) for (T b : v) {
        vh::cur.clear(); ++vh::evals;
        bool l = W::less(a, b), g = W::less(b, a);
        if (!((a == b) ? (!l && !g) : (l != g))) { vh::cur = sh(a, b); vh::fail("less is not a strict total order"); }
        if (a == M && l) { vh::cur = sh(a, b); vh::fail("maximum is less than something"); }
        if (b == B && l) { vh::cur = sh(a, b); vh::fail("something is less than bottom"); }
        if (a != M && b == M && !l) { vh::cur = sh(a, b); vh::fail("not less than maximum"); }
        if (!ext(a) && !ext(b)) { bool nat = mx ? a > b : a < b; if (l != nat) { vh::cur = sh(a, b); vh::fail("less differs from the numeric order of the direction"); } }
        bool ok = ext(a) || ext(b) || rep(a, b);
        if (!ok) continue;
        T s = W::add(a, b), s2 = W::add(b, a);
        if (s != s2) { vh::cur = sh(a, b); vh::fail("add not commutative"); }
        if (a == M || b == M) { if (s != M) { vh::cur = sh(a, b); vh::fail("maximum not absorbing"); } }
        else if (B != 0 && (a == B || b == B)) { if (s != B) { vh::cur = sh(a, b); vh::fail("bottom not absorbing"); } }
        else if ((__int128)s != (__int128)a + b) { vh::cur = sh(a, b); vh::fail("sum is not exact: " + std::to_string(+s)); }
    }
    vh::distinct.insert(std::hash<std::string>{}(nm));
    size_t n = v.size();
    for (size_t k = 0; k < triples; ++k) {
        T a = v[vh::rnd(n)], b = v[vh::rnd(n)], c = v[vh::rnd(n)]; ++vh::evals;
        vh::cur = sh(a, b) + " c=" + std::to_string(+c);
        if (k < 20000) vh::distinct.insert(std::hash<std::string>{}(nm + vh::cur));
        if (W::less(a, b) && W::less(b, c) && !W::less(a, c)) vh::fail("less not transitive");
        auto okp = [&](T x, T y) { return ext(x) || ext(y) || rep(x, y); };
        if (okp(a, b) && okp(b, c)) { T ab = W::add(a, b), bc = W::add(b, c); if (okp(ab, c) && okp(a, bc) && W::add(ab, c) != W::add(a, bc)) vh::fail("add not associative"); }
        if (okp(a, c) && okp(b, c) && W::less(a, b)) { if (W::less(W::add(b, c), W::add(a, c))) vh::fail("add not monotone"); }
    }
    if (vh::samples.size() < 3) vh::samples.push_back(nm + ": " + vh::cur);
}
template<class T> void type(const char* n) {
    using L = std::numeric_limits<T>; std::vector<T> v;
    if (sizeof(T) == 1) { for (int i = L::min(); i <= L::max(); ++i) v.push_back(T(i)); }
    else { std::set<T> s; for (int d = 0; d < 6; ++d) { s.insert(T(L::min() + d)); s.insert(T(L::max() - d)); s.insert(T(d)); s.insert(T(uint64_t(0) - d)); s.insert(T(L::max() / 2 + d)); s.insert(T(L::max() / 2 - d)); s.insert(T(L::min() / 2 + d)); }
        for (unsigned b = 0; b < sizeof(T) * 8; ++b) { s.insert(T(uint64_t(1) << b)); s.insert(T((uint64_t(1) << b) - 1)); } while (s.size() < 300) s.insert(T(vh::rng())); v.assign(s.begin(), s.end()); }
    size_t tr = (size_t)(vh::budget * 60000);
    std::string a = std::string("min<") + n + ">", b = std::string("max<") + n + ">";
    vh::watchdog(120);
    laws<min_weight<T>, T, false>(v, a.c_str(), tr); laws<max_weight<T>, T, true>(v, b.c_str(), tr);
}
int main(int c, char** a) { vh::init(c, a);
    type<int8_t>("int8"); type<uint8_t>("uint8"); type<int16_t>("int16"); type<uint16_t>("uint16"); type<int32_t>("int32"); type<uint32_t>("uint32"); type<int64_t>("int64"); type<uint64_t>("uint64");
    return vh::finish(); }
