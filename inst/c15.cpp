#include <iterator>
#include <vector>
#include <string>
#include <stdexcept>
#include <istream>
#include <sstream>
#include "lang/shared_ptr.h"
#define private public
#include "text/csv.h"
#undef private
using namespace pfi::text;
typedef csv_parser::parser_impl<const char *> PI;
void vp_ctor(void *p, const char *b, const char *e) { new (p) PI(b, e); }
bool vp_next(PI *p) { return p->PI::next(); }
void vp_extend(PI *p) { p->extend(); }
void vp_copy(const PI *p, std::vector<const char *> &row, std::vector<char> &buf) { p->PI::copy(row, buf); }
