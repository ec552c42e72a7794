// Instantiations of fut_set for extraction. Base cases over arbitrary key and value types; the recursive case over an
// arbitrary inner fut_set (only declared here): together they cover every nesting depth and every choice of containers.
#include <pdaaal/utils/fut_set.h>
namespace pdaaal::verif {
    struct key_t { int k; };
    bool operator<(const key_t&, const key_t&); bool operator==(const key_t&, const key_t&); bool operator!=(const key_t&, const key_t&);
    template <typename H> H AbslHashValue(H h, const key_t& k) { return H::combine(std::move(h), k.k); }
    struct val_t { int v; };
    struct tail_t { int t; }; struct args_t { int a; }; struct res_t { int r; };
}
namespace pdaaal::fut::detail {
    template<> class fut_set<std::tuple<verif::tail_t>, type::hash> {
    public:
        using inner_value_type = verif::val_t;
        fut_set();
        verif::res_t emplace(const verif::args_t&);
        verif::res_t insert_or_assign(const verif::args_t&);
        bool contains(const verif::tail_t&) const;
        const verif::val_t* get(const verif::tail_t&) const;
        verif::val_t* get(const verif::tail_t&);
    };
}
namespace pdaaal::verif {
    using fut::type;
    using rec_h = fut::set<std::tuple<key_t, tail_t>, type::hash, type::hash>;
    using rec_v = fut::set<std::tuple<key_t, tail_t>, type::vector, type::hash>;
    using map_h = fut::set<std::tuple<key_t, val_t>, type::hash>;
    using map_v = fut::set<std::tuple<key_t, val_t>, type::vector>;
    using set_h = fut::set<std::tuple<key_t>, type::hash>;
    using set_v = fut::set<std::tuple<key_t>, type::vector>;
    template <typename R> void use_rec(R& r, const R& c, const key_t& k, const args_t& a, const tail_t& t) {
        key_t m = k; r.emplace(k, a); r.emplace(std::move(m), a); r.insert_or_assign(k, a); r.insert_or_assign(std::move(m), a);
        (void)c.contains(k, t); (void)c.get(k, t); (void)r.get(k, t); (void)r.find(k); (void)c.find(k); (void)r.size(); (void)r.empty(); r.clear(); (void)r.begin(); (void)r.end(); (void)c.begin(); (void)c.end(); (void)c.cbegin(); (void)c.cend();
    }
    void use(rec_h& a, rec_v& b, map_h& h, map_v& v, set_h& sh, set_v& sv, const key_t& k, const args_t& x, const tail_t& t, const val_t& w) {
        use_rec(a, a, k, x, t); use_rec(b, b, k, x, t);
        const map_h& ch = h; const map_v& cv = v; (void)ch.get(k); (void)h.get(k); (void)cv.get(k); (void)v.get(k);
        map_v conv(ch); map_h tmp; map_v conv2(std::move(tmp)); key_t m = k;
        v.emplace(k, w); v.emplace(std::move(m), w); v.insert_or_assign(k, w); v.try_emplace(k, w); (void)cv.contains(k); (void)v.find(k); (void)cv.find(k);
        sh.insert_or_assign(k); sv.insert_or_assign(k); sv.emplace(k); (void)sv.contains(k); (void)sv.find(k);
    }
}
