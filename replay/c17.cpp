#include "vh.h"
#include "data/intern.h"
#include "data/serialization.h"
#include "data/serialization/unordered_map.h"
#include "data/serialization/string.h"
using namespace std; namespace ser = pfi::data::serialization;
template <class K> struct Key; 
template <> struct Key<int> { static int gen(int n) { return (int)vh::below(n) * 7919 - 3; } };
template <> struct Key<string> { static string gen(int n) { string s = vh::str(vh::below(n)); if (vh::below(5) == 0) s += string(1, '\0') + "x"; return s; } };
template <class K> struct T { pfi::data::intern<K> t; vector<K> ref; };
template <class K> static void check(const T<K> &x, const string &d) {
  vh::check(x.t.size() == x.ref.size() && x.t.empty() == x.ref.empty(), "size " + vh::str(x.t.size()) + " instead of " + vh::str(x.ref.size()));
  for (size_t i = 0; i < x.ref.size(); i++) { vh::check(x.t.id2key(i) == x.ref[i], "id " + vh::str(i) + " maps to another key"); vh::check(x.t.key2id_nogen(x.ref[i]) == (int)i, "key of id " + vh::str(i) + " maps to " + vh::str(x.t.key2id_nogen(x.ref[i]))); vh::check(x.t.exist_key(x.ref[i]) && x.t.exist_id(i), "existence of id " + vh::str(i)); }
  vh::check(!x.t.exist_id(-1) && !x.t.exist_id(x.ref.size()) && !x.t.exist_id(x.ref.size() + 5) && !x.t.exist_id(-2147483647 - 1), "exist_id outside 0..n-1"); }
template <class K> static void round_() { T<K> a, b; string d; int range = vh::below(2) ? 5 : 300; int steps = vh::below(3) ? 30 : 400;
  for (int i = 0; i < steps; i++) { T<K> &x = vh::below(3) ? a : b; T<K> &y = &x == &a ? b : a; K k = Key<K>::gen(range); int pos = -1; for (size_t j = 0; j < x.ref.size(); j++) if (x.ref[j] == k) pos = j; int op = vh::below(20); d += " " + vh::str(op) + "(" + vh::str(k) + ")"; if (d.size() > 2000) d.erase(0, 1000); vh::begin_case((&x == &a ? "A:" : "B:") + d);
    if (op < 8) { int r = vh::below(2) ? x.t.key2id(k) : x.t.key2id(k, true); if (pos < 0) { x.ref.push_back(k); pos = x.ref.size() - 1; } vh::check(r == pos, "key2id gives " + vh::str(r) + " instead of " + vh::str(pos)); }
    else if (op < 11) vh::check(x.t.key2id(k, false) == pos, "key2id without generation"); else if (op < 14) vh::check(x.t.key2id_nogen(k) == pos, "key2id_nogen"); else if (op < 16) vh::check(x.t.exist_key(k) == (pos >= 0), "exist_key");
    else if (op == 16 && vh::below(4) == 0) { x.t.clear(); x.ref.clear(); } else if (op == 17) { if (vh::below(2)) x.t.swap(y.t); else swap(x.t, y.t); x.ref.swap(y.ref); }
    else if (op == 18) { stringstream ss; { ser::binary_oarchive o(ss); o << x.t; } { ser::binary_iarchive in(ss); in >> y.t; } y.ref = x.ref; } else if (op == 19) { pfi::data::intern<K> c(x.t); y.t = c; y.ref = x.ref; }
    check(a, d); check(b, d); } }
int main(int c, char **v) { vh::init(c, v); do { round_<int>(); round_<string>(); } while (vh::time_left()); return vh::done(); }
