#include <string>
#include <vector>
#include <iterator>
#include "data/string/utility.h"
using namespace pfi::data::string;
typedef std::string S;
void vp_strip(const S &a, S &r) { strip(a, r); }
void vp_lstrip(const S &a, S &r) { lstrip(a, r); }
void vp_rstrip(const S &a, S &r) { rstrip(a, r); }
S vp_strip1(const S &a) { return strip(a); }
S vp_lstrip1(const S &a) { return lstrip(a); }
S vp_rstrip1(const S &a) { return rstrip(a); }
bool vp_starts(const S &a, const S &b) { return starts_with(a, b); }
bool vp_ends(const S &a, const S &b) { return ends_with(a, b); }
// pieces are delivered to an output iterator; the verifier gives emit() its contract
void emit(const S &piece);
struct Out { Out &operator*() { return *this; } Out &operator++() { return *this; } Out &operator=(const S &s) { emit(s); return *this; } };
void vp_split(const S &a, char c) { split(a, c, Out()); }
void vp_splits(const S &a, const S &sep) { split(a, sep, Out()); }
std::vector<S> vp_splitv(const S &a, char c) { return split(a, c); }
std::vector<S> vp_splitsv(const S &a, const S &c) { return split(a, c); }
// the strings to join come from an iterator; the verifier gives elem() its contract
const S &elem(long i);
struct In { long i; const S &operator*() const { return elem(i); } In &operator++() { ++i; return *this; } In operator++(int) { In t = *this; ++i; return t; } bool operator!=(const In &o) const { return i != o.i; } bool operator==(const In &o) const { return i == o.i; } };
void vp_join(In b, In e, const S &sep, S &r) { join(b, e, sep, r); }
S vp_join1(In b, In e, const S &sep) { return join(b, e, sep); }
S vp_joinv(const std::vector<S> &v, const S &sep) { return join(v, sep); }
void vp_replace(const S &a, const S &f, const S &t, S &r) { replace(a, f, t, r); }
S vp_replace1(const S &a, const S &f, const S &t) { return replace(a, f, t); }
