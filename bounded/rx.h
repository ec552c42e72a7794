// Reference regular-expression semantics (independent of the NFA code): a word matcher on syntax trees.
#pragma once
#include "vh.h"
#include <memory>
namespace rx {
using T = size_t; using Word = std::vector<T>;
struct R; using P = std::shared_ptr<R>;
struct R { enum K { EPS, NONE, SET, CAT, ALT, STAR, PLUS, OPT } k; bool neg = false; std::set<T> s; P a, b; };
inline P mk(R::K k, P a = {}, P b = {}) { auto r = std::make_shared<R>(); r->k = k; r->a = a; r->b = b; return r; }
inline P set(bool n, std::set<T> s) { auto r = mk(R::SET); r->neg = n; r->s = s; return r; }
// end positions reachable when matching r on w from position i
inline std::set<size_t> ends(const P& r, const Word& w, size_t i) {
    switch (r->k) {
        case R::EPS: return {i};
        case R::NONE: return {};
        case R::SET: if (i < w.size() && (r->s.count(w[i]) > 0) != r->neg) return {i + 1}; return {};
        case R::CAT: { std::set<size_t> o; for (auto e : ends(r->a, w, i)) for (auto f : ends(r->b, w, e)) o.insert(f); return o; }
        case R::ALT: { auto o = ends(r->a, w, i); for (auto e : ends(r->b, w, i)) o.insert(e); return o; }
        case R::OPT: { auto o = ends(r->a, w, i); o.insert(i); return o; }
        default: { std::set<size_t> o = r->k == R::STAR ? std::set<size_t>{i} : ends(r->a, w, i); std::vector<size_t> q(o.begin(), o.end());
            while (!q.empty()) { auto e = q.back(); q.pop_back(); for (auto f : ends(r->a, w, e)) if (o.insert(f).second) q.push_back(f); } return o; }
    }
}
inline bool match(const P& r, const Word& w) { return ends(r, w, 0).count(w.size()) > 0; }
inline std::string lab(T l) { return std::string(1, (char)('a' + l)); }
inline std::string text(const P& r) {   // plain prefix notation, for reports
    switch (r->k) { case R::EPS: return "eps"; case R::NONE: return "none"; case R::SET: { std::string s = r->neg ? "[^" : "["; for (auto x : r->s) s += lab(x); return s + "]"; }
        case R::CAT: return "cat(" + text(r->a) + "," + text(r->b) + ")"; case R::ALT: return "or(" + text(r->a) + "," + text(r->b) + ")";
        case R::STAR: return "star(" + text(r->a) + ")"; case R::PLUS: return "plus(" + text(r->a) + ")"; default: return "opt(" + text(r->a) + ")"; } }
inline std::vector<Word> words(size_t nl, size_t len) { std::vector<Word> v{{}}; for (size_t i = 0; i < v.size(); ++i) if (v[i].size() < len) for (T l = 0; l < nl; ++l) { auto t = v[i]; t.push_back(l); v.push_back(t); } return v; }
template<class N> bool accepts(const N& n, const Word& w) {    // through the public query interface
    auto st = n.initial(); std::sort(st.begin(), st.end()); st.erase(std::unique(st.begin(), st.end()), st.end()); N::follow_epsilon(st);
    for (auto l : w) st = N::successor(st, l);
    for (auto s : st) if (s->_accepting) return true; return false; }
}
