// K01: label abstractions: mapping, refinement, key encodings and abstract automata, against explicit partitions.
#include "rx.h"
#include "sat.h"
#include <map>
#include <string>
#include <pdaaal/cegar/AbstractionMapping.h>
#include <pdaaal/cegar/AbstractionPDA.h>
#include <pdaaal/cegar/AbstractionPAutomaton.h>
using namespace sat; using rx::P; using rx::R; using vh::rnd; using vh::coin;
static P gen(int d, size_t nl) { int k = d == 0 ? rnd(6) : 2 + rnd(14); if (k == 0) return rx::mk(R::EPS); if (k == 1) return coin() ? rx::mk(R::NONE) : rx::set(coin(), {});
    if (k < 7) { std::set<rx::T> s; for (size_t i = 0; i < nl; ++i) if (coin()) s.insert(i); return rx::set(coin(), s); } if (k < 10) return rx::mk(R::CAT, gen(d - 1, nl), gen(d - 1, nl)); if (k < 12) return rx::mk(R::ALT, gen(d - 1, nl), gen(d - 1, nl)); if (k == 12) return rx::mk(R::STAR, gen(d - 1, nl)); if (k == 13) return rx::mk(R::PLUS, gen(d - 1, nl)); return rx::mk(R::OPT, gen(d - 1, nl)); }
static NFA<int> bld(const P& r) { switch (r->k) { case R::EPS: return NFA<int>(true); case R::NONE: return NFA<int>(false); case R::SET: { std::unordered_set<int> s; for (auto x : r->s) s.insert((int)x); return NFA<int>(std::move(s), r->neg); }
        case R::CAT: { auto a = bld(r->a); a.concat(bld(r->b)); return a; } case R::ALT: { auto a = bld(r->a); a.or_extend(bld(r->b)); return a; } case R::STAR: { auto a = bld(r->a); a.star_extend(); return a; } case R::PLUS: { auto a = bld(r->a); a.plus_extend(); return a; } default: { auto a = bld(r->a); a.question_extend(); return a; } } }
// ---- keys: same number exactly for equal keys, and the key comes back
template<class K, class G> static void keys(const char* n, G g) { vh::area = n; vh::begin("keys " + std::to_string(vh::evals)); utils::ptrie_set<K> s; utils::ptrie_map<K, size_t> m; std::map<K, size_t> ref; std::vector<K> byid;
    for (size_t i = 0; i < 30; ++i) { K k = g(); auto it = ref.find(k); auto q = s.exists(k); VH_CHECK(q.first == (it != ref.end()) && (!q.first || q.second == it->second), "exists before insertion"); VH_CHECK(m.exists(k).first == (it != ref.end()), "map: exists before insertion"); auto a = s.insert(k); auto b = m.insert(k); bool fresh = it == ref.end(); if (fresh) { ref.emplace(k, byid.size()); byid.push_back(k); } VH_CHECK(a.first == fresh && a.second == ref[k] && b == a, "insertion of key number " << ref[k] << (fresh ? " not new" : " new again") << ", got number " << a.second); VH_CHECK(s.size() == byid.size(), "size"); m[k] = i; VH_CHECK(m.get_data(a.second) == i, "data of a key"); }
    for (size_t i = 0; i < byid.size(); ++i) VH_CHECK(s.at(i) == byid[i] && m.at(i) == byid[i], "key " << i << " read back differs"); }
static std::string rstr() { std::string s; for (size_t n = rnd(4); n--;) s += (char)rnd(3); return s; }
template<class T> static std::vector<T> rvec(size_t mx, size_t val) { std::vector<T> v; for (size_t n = rnd(mx); n--;) v.push_back((T)rnd(val)); return v; }
static void all_keys() {
    keys<int>("int keys", [] { return (int)rnd(40) - 20; }); keys<size_t>("size_t keys", [] { return rnd(3) ? (size_t)rnd(20) : (size_t)rnd(20) << 40; }); keys<std::string>("string keys", rstr); keys<std::vector<uint32_t>>("vector keys", [] { return rvec<uint32_t>(4, 300); });
    using T1 = std::tuple<uint8_t, uint32_t, size_t>; keys<T1>("tuple keys", [] { return T1(rnd(2), rnd(300), rnd(3)); });
    using T2 = std::tuple<std::vector<uint32_t>, std::vector<uint8_t>, int>; keys<T2>("tuples of vectors", [] { return T2(rvec<uint32_t>(3, 3), rvec<uint8_t>(3, 2), (int)rnd(2)); });
    using T3 = std::variant<uint32_t, std::vector<uint32_t>, std::tuple<uint8_t, uint32_t>>; keys<T3>("variant keys", []() -> T3 { switch (rnd(3)) { case 0: return (uint32_t)rnd(5); case 1: return rvec<uint32_t>(3, 3); default: return std::tuple<uint8_t, uint32_t>(rnd(3), rnd(3)); } });
    using T4 = std::vector<std::tuple<uint8_t, uint32_t>>; keys<T4>("vectors of tuples", [] { T4 v; for (size_t n = rnd(3); n--;) v.emplace_back(rnd(2), rnd(3)); return v; }); }
// ---- mapping and refinement; model: abstract id -> set of concrete values
using Model = std::vector<std::set<int>>;
template<class RM> static void cmp(const RM& rm, const Model& m, int maxv, const char* what) { VH_CHECK(rm.size() == m.size(), what << ": " << rm.size() << " abstract values, expected " << m.size());
    for (int x = -1; x <= maxv + 1; ++x) { auto e = rm.exists(x); size_t id = m.size(); for (size_t i = 0; i < m.size(); ++i) if (m[i].count(x)) id = i; VH_CHECK(e.first == (id < m.size()), what << ": " << x << (e.first ? " unexpectedly known" : " lost")); if (e.first) VH_CHECK(e.second == id, what << ": " << x << " maps to " << e.second << ", expected " << id); for (size_t i = 0; i < m.size() + 1; ++i) VH_CHECK(rm.maps_to(x, i) == (i == id && id < m.size()), what << ": maps_to(" << x << "," << i << ")"); }
    for (size_t i = 0; i <= m.size(); ++i) { auto v = rm.get_concrete_values(i); std::set<int> s(v.begin(), v.end()), exp; if (i < m.size()) exp = m[i]; VH_CHECK(s == exp && v.size() == exp.size(), what << ": concrete values of " << i << " are " << vh::show(v)); std::vector<int> g; if (i < m.size()) { for (auto x : rm.get_concrete_values_range(i)) g.push_back(x); VH_CHECK(g == v, what << ": range of concrete values of " << i); } } 
    std::vector<int> some; std::set<size_t> ex; for (size_t i = 0; i < m.size(); ++i) for (auto x : m[i]) if (coin()) { some.push_back(x); ex.insert(i); } VH_CHECK(rm.encode_many(some) == std::vector<size_t>(ex.begin(), ex.end()), what << ": encoding of " << vh::show(some)); }
static void mapping() { int k = 1 + (int)rnd(4), maxv = 3 + (int)rnd(10); int salt = (int)rnd(3); auto fn = [k, salt](const int& x) { return (x * (salt + 1) + salt) % k; }; AbstractionMapping<int, int> am{std::function<int(const int&)>(fn)}; Model m; std::map<int, size_t> ids; std::string t = "x -> (x*" + std::to_string(salt + 1) + "+" + std::to_string(salt) + ")%" + std::to_string(k) + " insert"; vh::area = "abstraction mapping";
    for (size_t n = 2 + rnd(14); n--;) { int x = rnd(maxv + 1); t += " " + std::to_string(x); vh::cur = t; auto a = am.insert(x); bool fresh = ids.emplace(fn(x), ids.size()).second; size_t id = ids[fn(x)]; if (fresh) m.emplace_back(); m[id].insert(x); VH_CHECK(a.first == fresh && a.second == id, "insert(" << x << ") gives " << a.second << (a.first ? " new" : "") << ", expected " << id); VH_CHECK(am.get_abstract_value(id) == fn(x) && am.map(x) == fn(x), "abstract value of " << x); }
    vh::begin(t); VH_CHECK(am.size() == m.size(), "number of abstract values"); for (int x = 0; x <= maxv; ++x) { auto e = am.exists(x); bool in = ids.count(fn(x)) && m[ids[fn(x)]].count(x); VH_CHECK(e.first == in && (!in || e.second == ids[fn(x)]), "exists(" << x << ")"); auto ea = am.exists(x, true); VH_CHECK(ea.first == (ids.count(fn(x)) > 0), "exists(" << x << ", ignore concrete)"); }
    for (auto& [v, id] : ids) { auto c = am.get_concrete_values(v); VH_CHECK(std::set<int>(c.begin(), c.end()) == m[id] && c.size() == m[id].size(), "concrete values of abstract value " << v); }
    RefinementMapping<int> rm(std::move(am)); vh::area = "refinement mapping"; cmp(rm, m, maxv, "initial");
    for (size_t n = rnd(6); n--;) { size_t id = rnd(m.size()); if (m[id].size() < 2) continue; std::vector<int> a, b; for (auto x : m[id]) { int z = rnd(3); if (z == 0) a.push_back(x); else if (z == 1) b.push_back(x); } if (a.empty() || b.empty()) continue; bool rest = a.size() + b.size() < m[id].size(); std::set<int> left; for (auto x : m[id]) if (std::find(a.begin(), a.end(), x) == a.end() && std::find(b.begin(), b.end(), x) == b.end()) left.insert(x);
        t += " | refine " + std::to_string(id) + " " + vh::show(a) + "/" + vh::show(b); vh::begin(t); auto A = a, B = b; Refinement<int> r(std::move(A), std::move(B), id); rm.refine(r);
        // the largest class (the first of equals) keeps the old id together with everything not mentioned
        bool keep_a = a.size() >= b.size(); auto& mv = keep_a ? b : a; for (auto x : mv) m[id].erase(x); m.emplace_back(mv.begin(), mv.end()); (void)rest; cmp(rm, m, maxv, "after refinement"); }
    Refinement<int> none(0); rm.refine(none); cmp(rm, m, maxv, "after an empty refinement"); }
// ---- abstract automata: exactly the abstract images of the accepted configurations
template<class W> static void automata() { size_t np = 1 + rnd(3), nl = 2 + rnd(3); std::vector<int> cls(nl); for (auto& c : cls) c = (int)rnd(nl); std::unordered_set<int> all; for (size_t l = 0; l < nl; ++l) all.insert((int)l); AbstractionPDA<int, W> pda(all, std::function<int(const int&)>([&cls](const int& x) { return cls[x]; })); size_t na = pda.number_of_labels(); std::vector<size_t> id(nl); for (size_t l = 0; l < nl; ++l) id[l] = pda.abstract_label((int)l).second;
    struct Open : AbstractionPDA<int, W> { using AbstractionPDA<int, W>::add_state; }; static_cast<Open&>(pda).add_state(np - 1);
    std::set<int> dist(cls.begin(), cls.end()); vh::area = "label encoding"; std::vector<int> S; for (size_t l = 0; l < nl; ++l) if (coin()) S.push_back((int)l); vh::begin("classes " + vh::show(cls) + " labels " + vh::show(S)); VH_CHECK(na == dist.size(), "number of abstract labels");
    for (bool neg : {false, true}) { std::set<uint32_t> got, want; for (auto x : pda.encode_labels(S, neg)) { VH_CHECK(got.insert(x).second, "abstract label repeated"); } std::vector<uint32_t> enc = pda.encode_labels(S, neg); VH_CHECK(std::is_sorted(enc.begin(), enc.end()), "abstract labels unsorted"); for (size_t a = 0; a < na; ++a) { bool some = false; for (size_t l = 0; l < nl; ++l) if (id[l] == a && (std::count(S.begin(), S.end(), (int)l) > 0) != neg) some = true; if (some != neg) want.insert(a); } VH_CHECK(got == want, (neg ? "complement of " : "") << "labels encoded as " << vh::show(enc) << ": an abstract label must be matched exactly if one of its concrete labels is"); }
    P r = gen(rnd(4), nl); std::vector<size_t> st; for (size_t q = 0; q < np; ++q) if (coin()) st.push_back(q); auto nfa = bld(r); nfa.compile(); vh::area = "abstract automaton"; vh::begin("classes " + vh::show(cls) + " from " + vh::show(st) + " stacks " + rx::text(r)); AbstractionPAutomaton<int, W> p(pda, nfa, st);
    size_t len = nl > 3 ? 2 : 3; std::map<Stack, bool> img; for (auto& w : all_stacks(nl, len)) { Stack a; for (auto x : w) a.push_back(id[x]); img[a] |= rx::match(r, rx::Word(w.begin(), w.end())); } for (auto& [a, in] : img) for (size_t q = 0; q < np; ++q) VH_CHECK(p.accepts(q, a) == (in && std::count(st.begin(), st.end(), q)), "accepts abstract configuration" << ph::show(Conf{q, a}) << "=" << p.accepts(q, a));
    for (size_t s = 0; s < p.states().size(); ++s) VH_CHECK((p.get_nfastate(s) != nullptr) == (s >= np), "automaton state " << s << " has " << (s >= np ? "no" : "an") << " NFA state"); for (size_t s = np; s < p.states().size(); ++s) VH_CHECK(p.get_nfastate(s)->_accepting == p.states()[s]->_accepting, "acceptance of automaton state " << s); }
int main(int c, char** v) { vh::init(c, v); size_t it = 0; while (vh::time_left() && vh::evals < 60000) { if (it % 8 == 0) all_keys(); mapping(); if (it % 3) automata<weight<void>>(); else automata<weight<int32_t>>(); ++it; } return vh::finish(); }
