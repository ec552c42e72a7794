// Instantiations of the real templates for extraction: arbitrary key and value types (only their order is known).
#include <pdaaal/utils/vector_set.h>
#include <pdaaal/utils/std20.h>
#include "/repo/src/include/pdaaal/internal/PDA.cpp"
namespace pdaaal::verif {
    struct key_t { int k; };
    bool operator<(const key_t&, const key_t&); bool operator==(const key_t&, const key_t&); bool operator!=(const key_t&, const key_t&);
    struct key_hash { size_t operator()(const key_t&) const; };
    struct val_t { int v; };
}
using namespace pdaaal; using pdaaal::verif::key_t; using pdaaal::verif::val_t; using pdaaal::verif::key_hash;
template struct fut::vector_set<pdaaal::verif::key_t>;
template struct fut::vector_map<pdaaal::verif::key_t,val_t>;
void use_sets(fut::vector_set<pdaaal::verif::key_t>& s, fut::vector_map<pdaaal::verif::key_t,val_t>& m, const pdaaal::verif::key_t& k, const val_t& v) {
    s.emplace(k); m.emplace(k, v); m.insert_or_assign(k, v);
    pdaaal::verif::key_t k2 = k; m.emplace(std::move(k2), v); m.insert_or_assign(std::move(k2), v); m.try_emplace(k, v); m.try_emplace(std::move(k2), v);
    std::unordered_set<pdaaal::verif::key_t,key_hash> us; fut::vector_set<pdaaal::verif::key_t> s2(us); fut::vector_set<pdaaal::verif::key_t> s3(std::move(us));
    std::unordered_map<pdaaal::verif::key_t,val_t,key_hash> um; fut::vector_map<pdaaal::verif::key_t,val_t> m2(um); fut::vector_map<pdaaal::verif::key_t,val_t> m3(std::move(um));
}
