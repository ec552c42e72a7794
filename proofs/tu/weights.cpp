// Instantiations of the real weight types for extraction.
#include <pdaaal/Weight.h>
#include <cstdint>
namespace pdaaal::verif {
    // the static function objects bottom, max and zero of each weight type, called where a function is needed
    template<typename W> struct consts {
        using type = typename W::type;
        static type bottom_() { return W::bottom(); }
        static type max_() { return W::max(); }
        static type zero_() { return W::zero(); }
    };
}
#define INST(T) template struct pdaaal::details::weight_impl<T,false>; template struct pdaaal::details::weight_impl<T,true>; \
    template struct pdaaal::verif::consts<pdaaal::details::weight_impl<T,false>>; template struct pdaaal::verif::consts<pdaaal::details::weight_impl<T,true>>;
INST(signed char) INST(unsigned char) INST(short) INST(unsigned short) INST(int) INST(unsigned int) INST(long) INST(unsigned long) INST(long long) INST(unsigned long long)
template<typename T> using arr3 = std::array<T,3>;
#define INSTC(T) INST(arr3<T>) INST(std::vector<T>)
INSTC(int) INSTC(unsigned int) INSTC(signed char) INSTC(unsigned char) INSTC(long) INSTC(unsigned long)
template class pdaaal::linear_weight_function<int, int, int>;
template class pdaaal::linear_weight_function<unsigned int, int, int>;
template class pdaaal::ordered_weight_function<int, int, int>;
template class pdaaal::ordered_weight_function<unsigned int, int, int>;
