// N01: NFA construction operations against a syntax-tree matcher.
#include "rx.h"
#include <pdaaal/NFA.h>
using namespace pdaaal; using N = NFA<size_t>; using namespace rx;
static P gen(int d) {
    int k = d == 0 ? vh::rnd(7) : 2 + vh::rnd(14);
    if (k == 0) return mk(R::EPS);
    if (k == 1) return vh::coin(50) ? mk(R::NONE) : set(vh::coin(), {});
    if (k < 7) { std::set<T> s; for (T i = 0; i < 2; ++i) if (vh::coin()) s.insert(i); if (s.empty() && vh::coin(80)) s.insert(vh::rnd(2)); return set(vh::coin(20), s); }
    if (k < 10) return mk(R::CAT, gen(d - 1), gen(d - 1));
    if (k < 12) return mk(R::ALT, gen(d - 1), gen(d - 1));
    if (k == 12) return mk(R::STAR, gen(d - 1)); if (k == 13) return mk(R::PLUS, gen(d - 1));
    return mk(R::OPT, gen(d - 1));
}
static N build(const P& r) {
    switch (r->k) {
        case R::EPS: return N(true); case R::NONE: return N(false);
        case R::SET: { std::unordered_set<size_t> s(r->s.begin(), r->s.end()); return N(std::move(s), r->neg); }
        case R::CAT: { auto a = build(r->a); a.concat(build(r->b)); return a; }
        case R::ALT: { auto a = build(r->a); a.or_extend(build(r->b)); return a; }
        case R::STAR: { auto a = build(r->a); a.star_extend(); return a; }
        case R::PLUS: { auto a = build(r->a); a.plus_extend(); return a; }
        default: { auto a = build(r->a); a.question_extend(); return a; } }
}
static const auto W = words(3, 4);
static void same(const N& n, const P& r, const char* what) { for (auto& w : W) VH_CHECK(accepts(n, w) == match(r, w), what << " on word " << vh::show(w) << ": accepted=" << accepts(n, w) << " but the denoted language says " << match(r, w)); }
static void one(const P& r) {
    vh::area = "construct"; vh::begin(text(r), r->k != R::EPS);
    auto n = build(r); same(n, r, "built automaton");
    vh::area = "copy"; vh::begin(text(r)); N c(n); same(c, r, "copy"); c.concat(N(std::unordered_set<size_t>{0})); c.star_extend(); same(n, r, "original after changing its copy");
    { auto q = gen(1); N d = build(q); d = n; same(d, r, "assigned over an existing automaton"); d = static_cast<const N&>(d); same(d, r, "self-assigned"); N e(std::move(d)); same(e, r, "moved"); }
    vh::area = "compile"; vh::begin(text(r)); n.compile(); same(n, r, "compiled automaton"); VH_CHECK(n.empty_accept() == match(r, {}), "empty_accept");
    { auto st = n.initial(); for (auto& w : W) if (w.size() <= 3) { auto s = st; for (auto l : w) s = N::successor(s, l); bool a = false; for (auto x : s) a |= x->_accepting; VH_CHECK(a == match(r, w), "compiled initial set, word " << vh::show(w)); } }
    N c2(n); c2.compile(); same(c2, r, "copy of compiled automaton");
    if (r->k != R::NONE) { N x(n); x.question_extend(); same(x, mk(R::OPT, r), "question after compile"); }
}
int main(int c, char** v) { vh::init(c, v);
    std::vector<P> L{mk(R::EPS), mk(R::NONE), set(false, {0}), set(false, {1}), set(true, {0}), set(true, {}), set(false, {}), set(false, {0, 1})}; auto L1 = L;
    for (auto& a : L) { for (auto k : {R::STAR, R::PLUS, R::OPT}) L1.push_back(mk(k, a)); for (auto& b : L) { L1.push_back(mk(R::CAT, a, b)); L1.push_back(mk(R::ALT, a, b)); } }
    for (auto& a : L1) one(a);
    for (auto& a : L1) for (auto k : {R::STAR, R::PLUS, R::OPT}) { if (!vh::time_left(0.4)) break; one(mk(k, a)); one(mk(R::CAT, mk(k, set(false, {0})), a)); one(mk(k, mk(R::CAT, a, set(false, {1})))); }
    while (vh::time_left() && vh::evals < 60000) one(gen(2 + vh::rnd(3)));
    return vh::finish(); }
