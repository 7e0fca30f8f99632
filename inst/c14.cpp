#include <iterator>
#include <vector>
#include <string>
#include <stdexcept>
#include <istream>
#include <sstream>
#include <memory>
#include <stack>
#include <map>
#include <unordered_map>
#include <tr1/unordered_map>
#include "lang/shared_ptr.h"
#include "lang/exception.h"
#include "data/string/ustring.h"
#include "data/unordered_map.h"
#define private public
#include "text/json/parser.h"
#undef private
using namespace pfi::text::json;
void vp_print(std::ostream &os, const std::string &s, bool esc) { json_string::print(os, s, esc); }
void vp_prim(json_parser *p, char *&buf, int &buf_len, int &len) { p->parse_string_prim(buf, buf_len, len); }
void vp_number(json_parser *p, json_parser::callback &cb) { p->parse_number(cb); }
void vp_array(json_parser *p, json_parser::callback &cb) { p->parse_array(cb); }
void vp_object(json_parser *p, json_parser::callback &cb) { p->parse_object(cb); }
void vp_impl(json_parser *p, json_parser::callback &cb) { p->parse_impl(cb); }
void vp_parr(const json_array *a, std::ostream &os, bool e) { a->json_array::print(os, e); }
int *vp_cbuf(json_parser *p) { return &p->cbuf; }
int *vp_buflen(json_parser *p) { return &p->buf_len; }
char **vp_buf(json_parser *p) { return &p->buf; }
void vp_ss(json_parser *p) { p->ss(); }
// callback whose events the verifier observes
void ev_int(int64_t), ev_num(double), ev_bool(bool), ev_null(), ev_start(int), ev_end(int), ev_key(const char *, size_t), ev_str(const char *, size_t);
struct CB : json_parser::callback {
  void null() { ev_null(); } void boolean(bool b) { ev_bool(b); } void integer(int64_t i) { ev_int(i); } void number(double d) { ev_num(d); } void string(const char *p, size_t n) { ev_str(p, n); }
  void start_object() { ev_start(1); } void object_key(const char *p, size_t n) { ev_key(p, n); } void end_object() { ev_end(1); } void start_array() { ev_start(0); } void end_array() { ev_end(0); }
};
void vp_number2(json_parser *p) { CB cb; p->parse_number(cb); }
void vp_array2(json_parser *p) { CB cb; p->parse_array(cb); }
void vp_object2(json_parser *p) { CB cb; p->parse_object(cb); }
void vp_impl2(json_parser *p) { CB cb; p->parse_impl(cb); }
void vp_null2(json_parser *p) { CB cb; p->parse_null(cb); }
void vp_true2(json_parser *p) { CB cb; p->parse_true(cb); }
void vp_false2(json_parser *p) { CB cb; p->parse_false(cb); }
void vp_digits(json_parser *p, std::string &s) { p->parse_digits(s); }
