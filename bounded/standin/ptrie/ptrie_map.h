// Stand-in for the ptrie dependency, which is not installed in this sandbox: the same interface (insertion order ids,
// exists, unpack, get_data) over std::map, so that the code that only uses ptrie as a numbering of keys can be run.
#pragma once
#include <cstddef>
#include <cstring>
#include <limits>
#include <map>
#include <utility>
#include <vector>
namespace ptrie {
    using uchar = unsigned char;
    template<typename K> struct byte_iterator {
        static constexpr uchar& access(K* d, size_t i) { return ((uchar*)d)[i]; }
        static constexpr const uchar& const_access(const K* d, size_t i) { return ((const uchar*)d)[i]; }
        static constexpr size_t element_size() { return sizeof(K); }
    };
    template<typename K> class set_stable {
    protected:
        std::map<std::vector<uchar>, size_t> _ids; std::vector<std::vector<uchar>> _keys;
        static std::vector<uchar> raw(const K* k, size_t n) { std::vector<uchar> v; for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < sizeof(K); ++i) v.push_back(((const uchar*)(k + j))[i]); return v; }
        std::pair<bool, size_t> ins(std::vector<uchar> v) { auto [it, f] = _ids.emplace(v, _keys.size()); if (f) _keys.push_back(v); return {f, it->second}; }
        std::pair<bool, size_t> ex(const std::vector<uchar>& v) const { auto it = _ids.find(v); return it == _ids.end() ? std::make_pair(false, std::numeric_limits<size_t>::max()) : std::make_pair(true, it->second); }
    public:
        set_stable() = default;
        std::pair<bool, size_t> insert(const K& k) { return ins(raw(&k, 1)); }
        std::pair<bool, size_t> insert(const std::vector<K>& k) { return ins(raw(k.data(), k.size())); }
        std::pair<bool, size_t> insert(std::pair<const K*, size_t> k) { return ins(raw(k.first, k.second)); }
        std::pair<bool, size_t> exists(const K& k) const { return ex(raw(&k, 1)); }
        std::pair<bool, size_t> exists(const std::vector<K>& k) const { return ex(raw(k.data(), k.size())); }
        std::pair<bool, size_t> exists(std::pair<const K*, size_t> k) const { return ex(raw(k.first, k.second)); }
        size_t unpack(size_t id, K* out) const { if (!_keys.at(id).empty()) std::memcpy((void*)out, _keys.at(id).data(), _keys.at(id).size()); return _keys.at(id).size() / sizeof(K); }
        std::vector<K> unpack(size_t id) const { std::vector<K> v(_keys.at(id).size() / sizeof(K)); if (!v.empty()) std::memcpy((void*)v.data(), _keys.at(id).data(), _keys.at(id).size()); return v; }
        size_t size() const { return _keys.size(); }
    };
    template<typename K, typename T> class map : public set_stable<K> {
        std::vector<T> _data; T& at_(std::pair<bool, size_t> r) { if (r.second >= _data.size()) _data.resize(r.second + 1); return _data[r.second]; }
    public:
        map() = default;
        template<typename X> T& operator[](const X& k) { return at_(this->insert(k)); }
        T& get_data(size_t i) { if (i >= _data.size()) _data.resize(i + 1); return _data[i]; }
        const T& get_data(size_t i) const { return _data.at(i); }
    };
}
