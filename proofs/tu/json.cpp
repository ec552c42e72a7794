// AST-FILTER: json_stream
#include <utils/json_stream.h>
void use(json_stream& s, const std::string& k, const json& v) { s.begin_object(k); s.end_object(); s.entry(k, v); s.entry_object(k, v); s.close(); }
