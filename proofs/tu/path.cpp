// Instantiations of AutomatonPath for extraction.
#include <pdaaal/AutomatonPath.h>
template class pdaaal::AutomatonPath<false>;
template class pdaaal::AutomatonPath<true>;
using namespace pdaaal;
void pdaaal_verif_use(const AutomatonPath<false>& a, const AutomatonPath<true>& b) { (void)a.split(); (void)b.split(); (void)a.get_path_and_stack(); (void)b.get_path_and_stack(); (void)(a == a); (void)(a != a); (void)(b == b); (void)(b != b); }
