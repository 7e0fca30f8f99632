#include "data/string/ustring.h"
using namespace pfi::data::string;
unsigned vf_decode_exc(const char *&it, const char *end) { exception_fallback fb; return chars_to_uchar(it, end, fb); }
unsigned vf_decode_rep(const char *&it, const char *end) { return chars_to_uchar(it, end); }
void vf_encode(uchar c, std::string &out) { std::back_insert_iterator<std::string> ins(out); uchar_to_chars(c, ins); }
