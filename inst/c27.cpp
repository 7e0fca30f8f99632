#include "text/xhtml.h"
using namespace pfi::text::xhtml;
void vp_text(std::ostream *os, const std::string *s) { text_elem t(*s); t.render(*os); }
void vp_text_pretty(std::ostream *os, const std::string *s) { text_elem t(*s); static_cast<html_elem &>(t).pretty(*os); }
