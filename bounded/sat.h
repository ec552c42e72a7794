// Explicit automata over configurations, reference saturation (naive fixed points written from the definition of
// predecessor / successor configurations) and comparison with the real PAutomaton by simultaneous determinisation.
#pragma once
#include "pdah.h"
#include <pdaaal/internal/PAutomaton.h>
#include <pdaaal/internal/PdaSaturation.h>
#include <optional>
namespace sat {
using namespace ph; using internal::PAutomaton;
static constexpr uint32_t EPS = std::numeric_limits<uint32_t>::max();
struct Aut { size_t np = 0; std::vector<bool> acc; std::set<std::tuple<size_t, uint32_t, size_t>> e; size_t n() const { return acc.size(); }
    std::string text() const { std::string s = "automaton: states=" + std::to_string(n()) + " accepting={"; for (size_t i = 0; i < n(); ++i) if (acc[i]) s += std::to_string(i) + " "; s += "} edges:"; for (auto& [f, l, t] : e) s += " " + std::to_string(f) + "-" + (l == EPS ? std::string("eps") : std::to_string(l)) + "->" + std::to_string(t); return s; } };
// no edges into the np system states, no empty moves
inline Aut random_aut(size_t np, size_t nl, size_t extra, size_t ne) { Aut a; a.np = np; a.acc.assign(np + extra, false); for (size_t i = 0; i < np; ++i) a.acc[i] = vh::coin(12); for (size_t i = np; i < np + extra; ++i) a.acc[i] = vh::coin(40); if (extra && vh::coin(80)) a.acc[np + vh::rnd(extra)] = true; if (extra) for (size_t i = 0; i < ne; ++i) a.e.emplace(vh::coin(60) ? vh::rnd(np) : vh::rnd(np + extra), vh::rnd(nl), np + vh::rnd(extra)); return a; }
template<class W, TraceInfoType I = TraceInfoType::Single> PAutomaton<W, I> make(const PDA<W>& pda, const Aut& a) { std::vector<size_t> sp; for (size_t i = 0; i < a.np; ++i) if (a.acc[i]) sp.push_back(i); PAutomaton<W, I> p(pda, sp, true); for (size_t i = a.np; i < a.n(); ++i) p.add_state(false, a.acc[i]); for (auto& [f, l, t] : a.e) p.add_edge(f, t, l); return p; }
template<class P> Aut read(const P& p, size_t np) { Aut a; a.np = np; for (auto& s : p.states()) { VH_CHECK(s->_id == a.acc.size(), "state id"); a.acc.push_back(s->_accepting); } for (auto& s : p.states()) for (auto& [to, labels] : s->_edges) for (auto& [l, x] : labels) a.e.emplace(s->_id, l, to); return a; }
inline std::set<size_t> eclose(const Aut& a, std::set<size_t> s) { for (bool ch = true; ch;) { ch = false; for (auto& [f, l, t] : a.e) if (l == EPS && s.count(f) && s.insert(t).second) ch = true; } return s; }
inline std::set<size_t> stepset(const Aut& a, const std::set<size_t>& s, uint32_t lab) { std::set<size_t> o; for (auto f : s) for (auto it = a.e.lower_bound({f, lab, 0}); it != a.e.end() && std::get<0>(*it) == f && std::get<1>(*it) == lab; ++it) o.insert(std::get<2>(*it)); return eclose(a, o); }
inline bool accs(const Aut& a, const std::set<size_t>& s) { for (auto x : s) if (a.acc[x]) return true; return false; }
inline bool member(const Aut& a, size_t p, const Stack& w) { auto s = eclose(a, {p}); for (auto l : w) s = stepset(a, s, l); return accs(a, s); }
// first configuration on which two automata disagree (all stacks, any length)
inline std::optional<Conf> differ(const Aut& a, const Aut& b, size_t nl) {
    using K = std::pair<std::set<size_t>, std::set<size_t>>;
    for (size_t p = 0; p < a.np; ++p) { std::set<K> seen; std::vector<std::pair<K, Stack>> q; K k{eclose(a, {p}), eclose(b, {p})}; seen.insert(k); q.push_back({k, {}});
        for (size_t i = 0; i < q.size() && i < 3000; ++i) { auto [s, w] = q[i]; if (accs(a, s.first) != accs(b, s.second)) return Conf{p, w}; for (uint32_t l = 0; l < nl; ++l) { K n{stepset(a, s.first, l), stepset(b, s.second, l)}; if (n.first.empty() && n.second.empty()) continue; if (seen.insert(n).second) { auto w2 = w; w2.push_back(l); q.push_back({n, w2}); } } } }
    return std::nullopt; }
// --- predecessors: <p,g> -> <q,w>, q -w->* r  =>  (p,g,r)
inline Aut pre_star(const Sys& s, Aut a) { for (bool ch = true; ch;) { ch = false; for (auto& r : s.rules) for (uint32_t g = 0; g < s.nl; ++g) if (matches(r, g)) { std::set<size_t> t{r.to}; if (r.op == SWAP) t = stepset(a, t, r.label); else if (r.op == NOOP) t = stepset(a, t, g); else if (r.op == PUSH) t = stepset(a, stepset(a, t, r.label), g); for (auto x : t) ch |= a.e.emplace(r.from, g, x).second; } } return a; }
// --- successors (empty moves from system states)
inline Aut post_star(const Sys& s, Aut a) { std::map<std::pair<size_t, uint32_t>, size_t> mid; for (auto& r : s.rules) if (r.op == PUSH) if (mid.emplace(std::make_pair(r.to, r.label), a.n()).second) a.acc.push_back(false);
    for (bool ch = true; ch;) { ch = false; for (auto& r : s.rules) for (uint32_t g = 0; g < s.nl; ++g) if (matches(r, g)) for (auto x : stepset(a, eclose(a, {r.from}), g)) { if (r.op == POP) ch |= a.e.emplace(r.to, EPS, x).second; else if (r.op == SWAP) ch |= a.e.emplace(r.to, r.label, x).second; else if (r.op == NOOP) ch |= a.e.emplace(r.to, g, x).second; else { auto m = mid[{r.to, r.label}]; ch |= a.e.emplace(r.to, r.label, m).second; ch |= a.e.emplace(m, g, x).second; } } } return a; }
// --- direct exploration of configurations (independent sanity check of the two constructions above)
inline std::set<Conf> forward(const Sys& s, const Conf& c, size_t maxlen, size_t maxn) { std::set<Conf> seen{c}; std::vector<Conf> q{c}; while (!q.empty() && seen.size() < maxn) { auto x = q.back(); q.pop_back(); if (x.second.empty()) continue; for (auto& r : s.rules) if (r.from == x.first && matches(r, x.second[0])) { Conf n{r.to, ph::apply(r, x.second)}; if (n.second.size() <= maxlen && seen.insert(n).second) q.push_back(n); } } return seen; }
// --- weighted versions.  MIN: minimise, otherwise maximise.  Values: nullopt = no run; ext = unbounded.
struct V { bool inf = false; long long v = 0; bool operator==(const V&) const = default; };
inline long long biggest = 0;      // largest finite magnitude met (instances that leave the representable range are skipped)
inline V plus(const V& a, const V& b) { if (a.inf || b.inf) return {true, 0}; long long r = a.v + b.v; if (r > (1ll << 60)) r = 1ll << 60; if (r < -(1ll << 60)) r = -(1ll << 60); biggest = std::max(biggest, r < 0 ? -r : r); return {false, r}; }
struct WAut : Aut { std::map<std::tuple<size_t, uint32_t, size_t>, V> w; };
template<bool MIN> bool better(const V& a, const V& b) { if (b.inf) return false; if (a.inf) return true; return MIN ? a.v < b.v : a.v > b.v; }
template<bool MIN> struct Relax { WAut& a; bool bottom; std::map<std::tuple<size_t, uint32_t, size_t>, V> nxt; bool ch = false;
    void put(size_t f, uint32_t l, size_t t, V v) { auto k = std::make_tuple(f, l, t); auto it = a.w.find(k); if (it == a.w.end() || better<MIN>(v, it->second)) { if (bottom) v = {true, 0}; auto [jt, fr] = nxt.emplace(k, v); if (!fr && better<MIN>(v, jt->second)) jt->second = v; ch = true; } }
    bool commit() { for (auto& [k, v] : nxt) { a.w[k] = v; a.e.insert(k); } nxt.clear(); bool r = ch; ch = false; return r; } };
template<class F> void succ(const WAut& a, size_t f, uint32_t l, F&& fn) { for (auto it = a.w.lower_bound({f, l, 0}); it != a.w.end() && std::get<0>(it->first) == f && std::get<1>(it->first) == l; ++it) fn(std::get<2>(it->first), it->second); }
template<class F> void esucc(const WAut& a, size_t f, uint32_t l, F&& fn) { succ(a, f, l, fn); succ(a, f, EPS, [&](size_t m, V v) { succ(a, m, l, [&](size_t t, V u) { fn(t, plus(v, u)); }); }); }
template<bool MIN> WAut wpre(const Sys& s, const Aut& a0) { WAut a; (Aut&)a = a0; for (auto& k : a.e) a.w[k] = {};
    auto round = [&](bool b) { Relax<MIN> R{a, b, {}, false}; for (auto& r : s.rules) for (uint32_t g = 0; g < s.nl; ++g) if (matches(r, g)) { V w{false, r.weight}; if (r.op == POP) R.put(r.from, g, r.to, w); else if (r.op == SWAP) succ(a, r.to, r.label, [&](size_t t, V v) { R.put(r.from, g, t, plus(w, v)); }); else if (r.op == NOOP) succ(a, r.to, g, [&](size_t t, V v) { R.put(r.from, g, t, plus(w, v)); }); else succ(a, r.to, r.label, [&](size_t m, V v) { succ(a, m, g, [&](size_t t, V u) { R.put(r.from, g, t, plus(w, plus(v, u))); }); }); } return R.commit(); };
    size_t lim = a.n() * a.n() * s.nl + 2; bool ch = true; for (size_t i = 0; i < lim && ch; ++i) ch = round(false); for (size_t i = 0; i < lim && ch; ++i) ch = round(true); return a; }
template<bool MIN> WAut wpost(const Sys& s, const Aut& a0) { WAut a; (Aut&)a = a0; for (auto& k : a.e) a.w[k] = {}; std::map<std::pair<size_t, uint32_t>, size_t> mid; for (auto& r : s.rules) if (r.op == PUSH) if (mid.emplace(std::make_pair(r.to, r.label), a.n()).second) a.acc.push_back(false);
    auto round = [&](bool b) { Relax<MIN> R{a, b, {}, false}; for (auto& r : s.rules) for (uint32_t g = 0; g < s.nl; ++g) if (matches(r, g)) esucc(a, r.from, g, [&](size_t t, V v) { V w = plus(v, V{false, r.weight}); if (r.op == POP) R.put(r.to, EPS, t, w); else if (r.op == SWAP) R.put(r.to, r.label, t, w); else if (r.op == NOOP) R.put(r.to, g, t, w); else { auto m = mid[{r.to, r.label}]; if (!a.w.count({r.to, r.label, m})) { R.nxt[{r.to, r.label, m}] = {}; R.ch = true; } R.put(m, g, t, w); } }); return R.commit(); };
    size_t lim = a.n() * a.n() * (s.nl + 1) + 2; bool ch = true; for (size_t i = 0; i < lim && ch; ++i) ch = round(false); for (size_t i = 0; i < lim && ch; ++i) ch = round(true); return a; }
// extremal weight of an accepting path of <p,w> (at most one empty move, which leaves a system state)
template<bool MIN> std::optional<V> best(const WAut& a, size_t p, const Stack& st) { std::map<size_t, V> cur{{p, {}}}; auto put = [](std::map<size_t, V>& m, size_t t, V v) { auto [it, f] = m.emplace(t, v); if (!f && better<MIN>(v, it->second)) it->second = v; };
    auto ecl = [&] { auto c = cur; for (auto& [f, v] : c) succ(a, f, EPS, [&](size_t t, V u) { put(cur, t, plus(v, u)); }); };
    ecl(); for (auto l : st) { std::map<size_t, V> n; for (auto& [f, v] : cur) succ(a, f, l, [&](size_t t, V u) { put(n, t, plus(v, u)); }); cur = n; ecl(); } std::optional<V> o; for (auto& [f, v] : cur) if (a.acc[f]) if (!o || better<MIN>(v, *o)) o = v; return o; }
template<class W, TraceInfoType I, class S> WAut wread(const PAutomaton<W, I>& p, size_t np, S bottom) { WAut a; (Aut&)a = read(p, np); for (auto& s : p.states()) for (auto& [to, labels] : s->_edges) for (auto& [l, x] : labels) { V v; v.inf = x.second == bottom; v.v = v.inf ? 0 : (long long)x.second; a.w[{s->_id, l, to}] = v; } return a; }
inline bool no_sat(const V& v) { return v.v < 1000000 && v.v > -1000000; }
}
