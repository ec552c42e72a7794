// N03: regular-expression text -> automaton, against a syntax-tree matcher; ill-formed text must be rejected.
#include "rx.h"
#include <pdaaal/parsing/NfaParser.h>
using namespace pdaaal; using namespace rx;
static std::string ws() { switch (vh::rnd(8)) { case 0: return " "; case 1: return "\n "; case 2: return " # comment ]*(\n"; case 3: return "\t"; default: return ""; } }
static size_t lab_fn(const std::string& s) { return s == "a" ? 0 : s == "b1" ? 1 : s == "_c" ? 2 : 77; }
static const char* NAME[] = {"a", "b1", "_c"};
// precedence levels of the text: 0 alternation, 1 juxtaposition, 2 postfix, 3 atom
static std::string print(const P& r, int lvl) {
    auto par = [&](int my, std::string s) { return my < lvl ? "(" + ws() + s + ws() + ")" : s; };
    switch (r->k) {
        case R::SET: { if (r->s.empty()) return "."; std::string s = r->neg ? "[^" : "["; bool f = true; std::vector<T> order(r->s.begin(), r->s.end()); if (vh::coin()) std::reverse(order.begin(), order.end()); if (vh::coin(20)) order.push_back(order[0]); for (auto x : order) { if (!f) s += ws() + "," + ws(); f = false; s += NAME[x]; } return s + "]"; }
        case R::CAT: return par(1, print(r->a, 1) + ws() + print(r->b, 1));
        case R::ALT: return par(0, print(r->a, 0) + ws() + "|" + ws() + print(r->b, 0));
        case R::STAR: return par(2, print(r->a, 3) + "*"); case R::PLUS: return par(2, print(r->a, 3) + "+"); default: return par(2, print(r->a, 3) + "?"); }
}
static P gen(int d) { int k = d == 0 ? 0 : vh::rnd(12); if (k < 3) { std::set<T> s; for (T i = 0; i < 2; ++i) if (vh::coin()) s.insert(i); bool n = vh::coin(25); if (s.empty()) n = true; return set(n, s); }
    if (k < 6) return mk(R::CAT, gen(d - 1), gen(d - 1)); if (k < 9) return mk(R::ALT, gen(d - 1), gen(d - 1)); if (k == 9) return mk(R::STAR, gen(d - 1)); if (k == 10) return mk(R::PLUS, gen(d - 1)); return mk(R::OPT, gen(d - 1)); }
static const auto W = words(4, 3);
static void check(const std::string& t, const P& r) { vh::area = "parse"; vh::begin(t); NFA<size_t> n(false); try { n = NfaParser::parse_string(t, lab_fn); } catch (const std::exception& e) { vh::fail(std::string("well-formed text rejected: ") + e.what()); }
    for (auto& w : W) VH_CHECK(accepts(n, w) == match(r, w), "word " << vh::show(w) << " accepted=" << accepts(n, w) << " denoted=" << match(r, w));
    n.compile(); for (auto& w : W) if (w.size() < 3) VH_CHECK(accepts(n, w) == match(r, w), "compiled: word " << vh::show(w)); }
static void bad(const std::string& t) { vh::area = "reject"; vh::begin(t); bool ok = false; try { NfaParser::parse_string(t, lab_fn); } catch (const std::exception&) { ok = true; } VH_CHECK(ok, "ill-formed text was accepted"); }
int main(int c, char** v) { vh::init(c, v);
    auto a = set(false, {0}), b = set(false, {1}), cc = set(false, {2}), dot = set(true, {});
    check("", mk(R::EPS)); check("  # only a comment", mk(R::EPS)); check(" \n", mk(R::EPS)); check("[a]|[b1][_c]", mk(R::ALT, a, mk(R::CAT, b, cc))); check("[a][b1]|[_c]", mk(R::ALT, mk(R::CAT, a, b), cc)); check("[a][b1]*", mk(R::CAT, a, mk(R::STAR, b))); check("([a][b1])*[_c]", mk(R::CAT, mk(R::STAR, mk(R::CAT, a, b)), cc)); check("([a]+[b1])?", mk(R::OPT, mk(R::CAT, mk(R::PLUS, a), b))); check(".?[a]", mk(R::CAT, mk(R::OPT, dot), a)); check("(([a]))", a);
    for (auto t : {"(", ")", "[", "[]", "[^]", "[a", "a]", "[a]|", "|[a]", "[a]||[a]", "*", "[a]**", "[a](", "[a])", "()", "[a,]", "[,a]", "[a b1]", "[a];", "[a]+?", "([a]|)", "[a]]", "[a]#x\n)", "[ a]", "([a]", "[a] *"}) bad(t);
    // one foreign character in or after an expression: only white space, comments, operators, labels and brackets are syntax
    for (int x = 1; x < 127; ++x) { char ch = (char)x; if (std::string(" \t\n\v\f\r").find(ch) != std::string::npos) { check(std::string("[a]") + ch + "[b1]", mk(R::CAT, a, b)); continue; } if (ch == '#') continue; bool id = isalnum(ch) || ch == '_'; for (std::string pre : {"[a]", "([a]|[b1])", "."}) { bool op = ch == '*' || ch == '+' || ch == '?', dotc = ch == '.'; if (!op && !dotc) bad(pre + ch); if (!dotc) { bad(std::string(1, ch) + pre.substr(0, 0)); if (ch != '(') bad(ch + std::string(")")); } if (!op && !dotc && ch != '|') bad(pre + ch + "[b1]"); } if (!id) { if (ch != '^') bad(std::string("[") + ch + "a]"); bad(std::string("[a") + ch + "]"); if (ch != ',') bad(std::string("[a") + ch + "b1]"); } else check(std::string("[a,") + ch + "]", mk(R::ALT, a, set(false, {lab_fn(std::string(1, ch))}))); }
    while (vh::time_left() && vh::evals < 12000) { auto r = gen(1 + vh::rnd(4)); auto t = ws() + print(r, 0) + ws(); check(t, r);
        if (vh::coin(20)) { auto s = t; s.erase(std::remove_if(s.begin(), s.end(), [](char x) { return x == '#'; }), s.end()); if (s == t) { bad(t + "|"); bad("(" + t); bad(t + ")"); bad("|" + t); bad("*" + t); } } }
    return vh::finish(); }
