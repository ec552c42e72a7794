// Instantiations of the reduction for extraction: unweighted and over an arbitrary weight type (only its order is known).
#include "/repo/src/include/pdaaal/internal/PDA.cpp"
#include "/repo/src/include/pdaaal/internal/Reducer.cpp"
#include <limits>
namespace pdaaal::verif {
    struct wt_t { int w; };
    bool operator<(const wt_t&, const wt_t&); bool operator==(const wt_t&, const wt_t&); bool operator!=(const wt_t&, const wt_t&);
    template <typename H> H AbslHashValue(H h, const wt_t& k) { return H::combine(std::move(h), k.w); }
    struct aw { using type = wt_t; static constexpr bool is_weight = true; static constexpr bool is_signed = false; static wt_t zero(); };
    template<typename W> void use(internal::PDA<W>& p) { (void)internal::Reducer::reduce<W>(p, 4, 0, 1); internal::Reducer::forwards_prune<W>(p, 0); internal::Reducer::backwards_prune<W>(p, 0); internal::Reducer::target_tos_prune<W>(p, 0); }
    void use_u(internal::PDA<weight<void>>& p) { use<weight<void>>(p); }
    void use_w(internal::PDA<aw>& p) { use<aw>(p); }
}
