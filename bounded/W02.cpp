#include "vh.h"
#include <pdaaal/Weight.h>
using namespace pdaaal; using vh::show;
template<class T, bool mx> void vec(const char* n) {
    static std::string nm; nm = n; vh::area = nm.c_str();
    using WI = details::weight_impl<T, mx>; using W = details::weight_impl<std::vector<T>, mx>; using V = std::vector<T>;
    auto one = [&](const V& a, const V& b, bool nt) {
        vh::begin("a=" + show(a) + " b=" + show(b), nt);
        int c = 0; for (size_t i = 0; i < std::max(a.size(), b.size()) && !c; ++i) { T x = i < a.size() ? a[i] : T(0), y = i < b.size() ? b[i] : T(0); if (WI::less(x, y)) c = -1; else if (WI::less(y, x)) c = 1; }
        V a2 = a, b2 = b; a2.shrink_to_fit(); b2.shrink_to_fit();
        bool l = W::less(a2, b2);
        if (c < 0) VH_CHECK(l, "should be less"); if (c > 0) VH_CHECK(!l, "should not be less");
        if (c == 0) { if (!(std::is_unsigned_v<T> && !mx)) VH_CHECK(!l, "equal after zero padding, must not be less"); else VH_CHECK(l == (a.size() < b.size()) || !l, "tie by length only"); }
        VH_CHECK(!(l && W::less(b2, a2)), "asymmetric");
        V s = W::add(a, b); VH_CHECK(s.size() == std::max(a.size(), b.size()), "length of sum");
        for (size_t i = 0; i < s.size(); ++i) { T e = i < a.size() && i < b.size() ? WI::add(a[i], b[i]) : i < a.size() ? a[i] : b[i]; VH_CHECK(s[i] == e, "element " << i << " of sum " << show(s)); }
    };
    // exhaustive: values 0..2 (signed: -1..1), lengths 0..3 (0..4)
    std::vector<V> all{{}}; for (size_t i = 0; i < all.size(); ++i) if (all[i].size() < 4) for (int x = 0; x < 3; ++x) { V v = all[i]; v.push_back(T(std::is_signed_v<T> ? x - 1 : x)); all.push_back(v); }
    for (auto& a : all) for (auto& b : all) one(a, b, a.size() + b.size() > 0);
    for (int k = 0; k < vh::budget * 1500; ++k) { V a(vh::rnd(12)), b(vh::rnd(12)); for (auto& x : a) x = T(vh::rnd(5)); for (auto& x : b) x = T(vh::rnd(5)); if (vh::coin() && !b.empty()) { a = b; a[vh::rnd(a.size())] += 1; } if (vh::coin(20)) { a = b; for (size_t i = vh::rnd(6); i; --i) a.push_back(T(vh::coin(20))); }
        if (std::is_signed_v<T> && !a.empty() && vh::coin(30)) a[vh::rnd(a.size())] = T(0) - T(vh::rnd(4)); one(a, b, true); if (!b.empty() && vh::coin(10)) { b[vh::rnd(b.size())] = WI::max(); one(a, b, true);} }
    VH_CHECK(W::zero().empty(), "zero vector");
}
template<class T, bool mx, size_t N> void arr(const char* n) {
    static std::string nm; nm = n; vh::area = nm.c_str();
    using WI = details::weight_impl<T, mx>; using W = details::weight_impl<std::array<T, N>, mx>;
    auto sh = [](auto& a) { return show(std::vector<T>(a.begin(), a.end())); };
    for (int k = 0; k < 4000; ++k) { std::array<T, N> a, b; int r = 2 + k % 3; for (auto& x : a) x = T(vh::rnd(r)) - T(std::is_signed_v<T>); for (auto& x : b) x = T(vh::rnd(r)) - T(std::is_signed_v<T>);
        if (vh::coin(10) && N) a[vh::rnd(N)] = WI::max(); if (vh::coin(10) && N) b[vh::rnd(N)] = WI::bottom(); if (vh::coin(20)) { b = a; if (vh::coin() && N) b[vh::rnd(N)] = T(vh::rnd(9)); }
        vh::begin("a=" + sh(a) + " b=" + sh(b));
        int c = 0; for (size_t i = 0; i < N && !c; ++i) { if (WI::less(a[i], b[i])) c = -1; else if (WI::less(b[i], a[i])) c = 1; }
        VH_CHECK(W::less(a, b) == (c < 0), "lexicographic less"); VH_CHECK(W::less(b, a) == (c > 0), "lexicographic less (swapped)");
        auto s = W::add(a, b); for (size_t i = 0; i < N; ++i) VH_CHECK(s[i] == WI::add(a[i], b[i]), "element " << i); }
    for (size_t i = 0; i < N; ++i) { VH_CHECK(W::zero()[i] == T(0) && W::max()[i] == WI::max() && W::bottom()[i] == WI::bottom(), "array constants"); }
}
template<class T> void lin(const char* n) {
    static std::string nm; nm = n; vh::area = nm.c_str();
    using F = linear_weight_function<T, int, int>;
    struct N { T coef; int kind; std::vector<N> kids; };
    std::function<T(int, int)> prim[] = { [](int a, int) { return T(a); }, [](int, int b) { return T(b) * T(3); }, [](int, int) { return T(1); }, [](int a, int b) { return T(a) - T(b) + T(100); }, [](int a, int) { return sizeof(T)==4 ? T(a) * T(11) : T(a) * T(1000003) + T(0.5); }, [](int, int b) { return std::is_floating_point_v<T> ? T(b) * T(0.25) : sizeof(T) == 8 ? T(b) * T(5000000000LL) : T(b) * T(7); } };
    std::function<std::pair<F, std::function<T(int, int)>>(int, std::string&)> gen = [&](int d, std::string& txt) -> std::pair<F, std::function<T(int, int)>> {
        if (d == 0 || vh::coin(30)) { int k = vh::rnd(6); txt += "p" + std::to_string(k); return { F(prim[k]), prim[k] }; }
        std::vector<std::pair<T, F>> v; std::vector<std::pair<T, std::function<T(int, int)>>> r; size_t m = vh::rnd(4); txt += "(";
        for (size_t i = 0; i < m; ++i) { T co = std::is_floating_point_v<T> ? T(vh::rnd(9)) * T(0.25) : T(vh::rnd(6)); txt += (i ? "+" : "") + std::to_string(co) + "*"; auto [f, g] = gen(d - 1, txt); v.emplace_back(co, f); r.emplace_back(co, g); }
        txt += ")";
        return { F(v), [r](int a, int b) { T s = 0; for (auto& [c, g] : r) s += c * g(a, b); return s; } }; };
    for (int k = 0; k < vh::budget * 150; ++k) { std::string t; auto [f, g] = gen(3, t); int a = vh::rnd(50), b = vh::rnd(50); vh::begin(t + " args " + std::to_string(a) + "," + std::to_string(b), t.size() > 4);
        T x = f(a, b), y = g(a, b); VH_CHECK(x == y || (std::is_floating_point_v<T> && std::abs(double(x - y)) <= 1e-9 * std::abs(double(y))), "got " << +x << " expected " << +y);
        std::vector<F> fs; std::vector<std::function<T(int, int)>> gs; for (size_t i = vh::rnd(4); i; --i) { std::string u; auto [ff, gg] = gen(2, u); fs.push_back(ff); gs.push_back(gg); }
        ordered_weight_function<T, int, int> o(fs); auto res = o(a, b); VH_CHECK(res.size() == gs.size(), "length"); for (size_t i = 0; i < gs.size(); ++i) { T e = gs[i](a, b); VH_CHECK(res[i] == e || (std::is_floating_point_v<T> && std::abs(double(res[i] - e)) <= 1e-9 * std::abs(double(e))), "component " << i); } }
}
int main(int c, char** a) { vh::init(c, a);
    vec<int32_t, false>("vec-min<int32>"); vec<int32_t, true>("vec-max<int32>"); vec<uint32_t, false>("vec-min<uint32>"); vec<uint32_t, true>("vec-max<uint32>"); vec<uint64_t, true>("vec-max<uint64>"); vec<int64_t, false>("vec-min<int64>"); vec<uint8_t,false>("vec-min<uint8>");
    arr<int32_t, false, 3>("arr-min<int32,3>"); arr<int32_t, true, 3>("arr-max<int32,3>"); arr<uint32_t, false, 2>("arr-min<uint32,2>"); arr<uint32_t, true, 4>("arr-max<uint32,4>"); arr<uint64_t, false, 1>("arr-min<uint64,1>"); arr<int16_t, true, 5>("arr-max<int16,5>");
    lin<int32_t>("linear<int32>"); lin<uint32_t>("linear<uint32>"); lin<int64_t>("linear<int64>"); lin<uint64_t>("linear<uint64>"); lin<double>("linear<double>");
    return vh::finish(); }
