// mechanical amalgamation of the translation units under contract (no code of its own but wrappers)
#include "icl_core/StringHelper.cpp"
#include "icl_core/EnumHelper.cpp"
using icl_core::String;
extern "C" {
String vcg_pad_left(const String& s, size_t w, char c) { return icl_core::padLeft<String>(s, w, c); }
String vcg_pad_right(const String& s, size_t w, char c) { return icl_core::padRight<String>(s, w, c); }
String vcg_lower(String s) { return icl_core::toLower(s); }
String vcg_upper(String s) { return icl_core::toUpper(s); }
}
