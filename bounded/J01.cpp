#include "vh.h"
#include <utils/json_stream.h>
using vh::rnd; using vh::coin; using oj = nlohmann::ordered_json;
static std::string key(int i) { static const char* odd[] = {"", "a b", "\"", "\\", "x\"y", "tab\t", "nl\n", "{", "ü"}; if (i % 7 == 3) return std::string(odd[rnd(9)]) + "#" + std::to_string(i); return "k" + std::to_string(i); }
static json val(int d) { switch (rnd(d > 0 ? 8 : 5)) { case 0: return (int)rnd(100) - 50; case 1: return "s\"\\\n" + std::to_string(rnd(9)); case 2: return coin(); case 3: return nullptr; case 4: return 0.5 * rnd(9); case 5: { json a = json::array(); for (size_t i = rnd(3); i; --i) a.push_back(val(d - 1)); return a; } default: { json o = json::object(); for (size_t i = rnd(3); i; --i) o["o" + std::to_string(rnd(5))] = val(d - 1); return o; } } }
static bool same(const oj& x, const oj& y) { if (x.type() != y.type() && !(x.is_number() && y.is_number())) return false; if (x.is_object()) { if (x.size() != y.size()) return false; auto i = x.items().begin(); auto j = y.items().begin(); for (; i != x.items().end(); ++i, ++j) if (i.key() != j.key() || !same(i.value(), j.value())) return false; return true; } return x == y; }
int main(int c, char** a) { vh::init(c, a); vh::area = "stream";
    for (int it = 0; it < vh::budget * 500; ++it) { std::ostringstream out; oj expect = oj::object(); std::vector<oj*> path{&expect}; std::string t; int k = 0; size_t len = 1 + rnd(14); size_t ind = rnd(5); bool wrote = false; { json_stream js(ind, out);
        for (size_t i = 0; i < len || !wrote; ++i) { int op = rnd(10); vh::cur = t;
            if (op < 4) { auto q = key(++k); auto v = val(2); t += " entry(" + q + ")"; vh::cur = t; js.entry(q, v); (*path.back())[q] = oj::parse(v.dump()); wrote = true; }
            else if (op < 6) { auto q = key(++k); auto v = val(2); t += " entry_object(" + q + "=" + v.dump() + ")"; vh::cur = t; js.entry_object(q, v); (*path.back())[q] = oj::parse(v.dump()); wrote = true; }
            else if (op < 8) { auto q = key(++k); t += " begin(" + q + ")"; vh::cur = t; js.begin_object(q); (*path.back())[q] = oj::object(); path.push_back(&(*path.back())[q]); wrote = true; }
            else if (path.size() > 1) { t += " end"; vh::cur = t; js.end_object(); path.pop_back(); } }
        if (coin(30)) { t += " close"; js.close(); } }
        vh::begin(t); oj got; try { got = oj::parse(out.str()); } catch (std::exception& e) { vh::fail("not well-formed: " + std::string(e.what()) + " text: " + out.str()); }
        VH_CHECK(same(got, expect), "content differs; text: " << out.str() << " expected " << expect.dump()); }
    return vh::finish(); }
