#include "network/ipv4.h"
using namespace pfi::network;
bool ip_eq(const ipv4_address *a, const ipv4_address *b) { return *a == *b; }
bool ip_ne(const ipv4_address *a, const ipv4_address *b) { return *a != *b; }
bool ip_lt(const ipv4_address *a, const ipv4_address *b) { return *a < *b; }
void ip_make(ipv4_address *r, unsigned char a, unsigned char b, unsigned char c, unsigned char d) { *r = ipv4_address(a, b, c, d); }
void ip_parse(ipv4_address *r, const std::string *s) { *r = ipv4_address(*s); }
void ip_str(std::string *r, const ipv4_address *a) { *r = a->to_string(); }
void ip_def(ipv4_address *r) { *r = ipv4_address(); }
void ip_consts(ipv4_address *r) { r[0] = ipv4_address::any; r[1] = ipv4_address::broadcast; r[2] = ipv4_address::loopback; r[3] = ipv4_address::none; }
