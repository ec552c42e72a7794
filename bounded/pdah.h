// Concrete pushdown systems over the real internal::PDA, plus reference semantics.
#pragma once
#include "vh.h"
#include <pdaaal/internal/PDA.h>
namespace ph {
using namespace pdaaal; using internal::PDA; using internal::labels_t;
template<class W, fut::type C = fut::type::vector> struct TP : PDA<W, C> {
    size_t n_labels; explicit TP(size_t n) : n_labels(n) {}
    template<fut::type O> TP(TP<W, O>&& o) : PDA<W, C>(std::move(static_cast<PDA<W, O>&>(o))), n_labels(o.n_labels) {}
    size_t number_of_labels() const override { return n_labels; }
    void ensure_state(size_t s) { this->add_state(s); }
    void raw(size_t from, internal::pda_rule_t<W> r, bool wc, const std::vector<uint32_t>& pre) { this->add_untyped_rule_impl(from, r, wc, pre); }
};
struct Rule { size_t from, to; op_t op; uint32_t label; bool wildcard; std::vector<uint32_t> pre; int weight; };
inline const char* opn(op_t o) { return o == PUSH ? "push" : o == POP ? "pop" : o == SWAP ? "swap" : "noop"; }
inline std::string show(const Rule& r, bool w = false) { std::string s = "<" + std::to_string(r.from) + "," + (r.wildcard ? "*" : vh::show(r.pre)) + ">-" + opn(r.op); if (r.op == PUSH || r.op == SWAP) s += std::to_string(r.label); s += "->" + std::to_string(r.to); if (w) s += "{" + std::to_string(r.weight) + "}"; return s; }
struct Sys { size_t ns, nl; std::vector<Rule> rules; bool weighted = false;
    std::string text() const { std::string s = "states=" + std::to_string(ns) + " labels=" + std::to_string(nl) + " rules:"; for (auto& r : rules) s += " " + show(r, weighted); return s; } };
template<class W> internal::pda_rule_t<W> rule_of(const Rule& r) { uint32_t l = (r.op == PUSH || r.op == SWAP) ? r.label : std::numeric_limits<uint32_t>::max();
    if constexpr (W::is_weight) { internal::pda_rule_t<W> x; x._to = r.to; x._operation = r.op; x._op_label = l; if constexpr (W::is_vector) x._weight = {(typename W::type::value_type)r.weight}; else x._weight = r.weight; return x; } else return internal::pda_rule_t<W>{r.to, r.op, l}; }
template<class W, fut::type C = fut::type::vector> TP<W, C> build(const Sys& s) { TP<W, C> p(s.nl); if (s.ns) p.ensure_state(s.ns - 1); for (auto& r : s.rules) p.raw(r.from, rule_of<W>(r), r.wildcard, r.pre); return p; }
// random system; dens: number of rules
inline Sys random_sys(size_t ns, size_t nl, size_t nr, int wmin = 0, int wmax = 0) {
    Sys s{ns, nl, {}, wmax != wmin};
    for (size_t i = 0; i < nr; ++i) { Rule r; r.from = vh::rnd(ns); r.to = vh::rnd(ns); int o = vh::rnd(10); r.op = o < 3 ? PUSH : o < 6 ? POP : o < 8 ? SWAP : NOOP; r.label = vh::rnd(nl); r.wildcard = vh::coin(15); if (!r.wildcard) { for (uint32_t l = 0; l < nl; ++l) if (vh::coin(nl <= 2 ? 60 : 40)) r.pre.push_back(l); if (r.pre.empty()) r.pre.push_back(vh::rnd(nl)); } r.weight = wmin + (int)vh::rnd(wmax - wmin + 1); s.rules.push_back(r); }
    return s; }
using Stack = std::vector<uint32_t>; using Conf = std::pair<size_t, Stack>;   // top of stack first
inline bool matches(const Rule& r, uint32_t l) { return r.wildcard || std::find(r.pre.begin(), r.pre.end(), l) != r.pre.end(); }
inline Stack apply(const Rule& r, const Stack& st) { Stack t(st.begin() + 1, st.end()); switch (r.op) { case POP: break; case SWAP: t.insert(t.begin(), r.label); break; case NOOP: t.insert(t.begin(), st[0]); break; case PUSH: t.insert(t.begin(), st[0]); t.insert(t.begin(), r.label); break; } return t; }
inline std::string show(const Conf& c) { return "<" + std::to_string(c.first) + "," + vh::show(c.second) + ">"; }
inline std::vector<Stack> all_stacks(size_t nl, size_t maxlen) { std::vector<Stack> v{{}}; for (size_t i = 0; i < v.size(); ++i) if (v[i].size() < maxlen) for (uint32_t l = 0; l < nl; ++l) { auto t = v[i]; t.push_back(l); v.push_back(t); } return v; }
}
