// Instantiations of the rule store for extraction: unweighted and over an arbitrary weight type (only its order is known),
// with vector- and hash-backed rule containers.
#include "/repo/src/include/pdaaal/internal/PDA.cpp"
#include <limits>
namespace pdaaal::verif {
    struct wt_t { int w; };
    bool operator<(const wt_t&, const wt_t&); bool operator==(const wt_t&, const wt_t&); bool operator!=(const wt_t&, const wt_t&);
    template <typename H> H AbslHashValue(H h, const wt_t& k) { return H::combine(std::move(h), k.w); }
    struct aw { using type = wt_t; static constexpr bool is_weight = true; static constexpr bool is_signed = false; static wt_t zero(); };
    template<typename W, fut::type C> struct sys : public internal::PDA<W, C> {
        using P = internal::PDA<W, C>;
        sys() = default;
        explicit sys(internal::PDA<W, fut::type::hash>&& o) : P(std::move(o)) {}
        size_t number_of_labels() const override;
        void add(size_t from, internal::pda_rule_t<W> r, bool w, const std::vector<uint32_t>& l) { this->add_untyped_rule_impl(from, r, w, l); }
        void state(size_t s) { this->add_state(s); }
    };
    template<typename W> void use(sys<W, fut::type::vector>& v, sys<W, fut::type::hash>& h, user_rule_t<W> u, const internal::pda_rule_t<W>& r, const std::vector<uint32_t>& l) {
        v.add(0, r, true, l); v.state(1); v.clear_state(0); v.add_rule(u); v.add_wildcard_rule(u); (void)v.states(); (void)v.states_mutable();
        h.add(0, r, true, l); h.state(1); h.add_rule(u); h.add_wildcard_rule(u); (void)h.states();
        user_rule_t<W> x(0, 1, r); (void)(x == u); (void)(x != u); (void)(r == r); (void)(r != r); (void)(r < r);
        sys<W, fut::type::vector> conv(std::move(h));
    }
    void use_u(sys<weight<void>, fut::type::vector>& v, sys<weight<void>, fut::type::hash>& h, user_rule_t<weight<void>> u, const internal::pda_rule_t<weight<void>>& r, const std::vector<uint32_t>& l) {
        use<weight<void>>(v, h, u, r, l); v.add(0, {1, PUSH, 2}, true, l); user_rule_t<weight<void>> y(0, 1, 2, PUSH, 3); (void)y.from(); }
    void use_w(sys<aw, fut::type::vector>& v, sys<aw, fut::type::hash>& h, user_rule_t<aw> u, const internal::pda_rule_t<aw>& r, const std::vector<uint32_t>& l, wt_t w) { use<aw>(v, h, u, r, l); user_rule_t<aw> y(0, 1, 2, PUSH, 3, w); }
}
