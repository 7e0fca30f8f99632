#include "vh.h"
#include <list>
#include "data/lru.h"
using namespace std;
template <class K> K mk(int i); template <> int mk<int>(int i) { return i * 37 - 100; } template <> string mk<string>(int i) { return string(i + 1, 'a' + i % 3); }
template <class K> static void seq() { int cap = 1 + vh::below(6); pfi::data::lru<K, int> l(cap); list<pair<K, int> > r; // front: least recently used
  string d = "capacity " + vh::str(cap) + ":"; int nk = 1 + vh::below(10);
  for (int st = 0; st < 60; st++) { int kk = vh::below(nk); K k = mk<K>(kk); typename list<pair<K, int> >::iterator p = r.begin(); while (p != r.end() && p->first != k) ++p; int op = vh::below(16), v = vh::below(1000); bool in = p != r.end();
    if (op < 5) { d += " set(" + vh::str(kk) + "," + vh::str(v) + ")"; vh::begin_case(d); l.set(k, v); if (!in) { if ((int)r.size() == cap) r.pop_front(); r.push_back(make_pair(k, v)); } }
    else if (op < 8) { d += " get(" + vh::str(kk) + ")"; vh::begin_case(d); try { int g = l.get(k); vh::check(in, "get of an absent key returned"); vh::check(g == p->second, "get returned " + vh::str(g) + " instead of " + vh::str(p->second)); r.splice(r.end(), r, p); } catch (runtime_error &) { vh::check(!in, "get of a present key threw"); } }
    else if (op < 10) { d += " touch(" + vh::str(kk) + ")"; vh::begin_case(d); l.touch(k); if (in) r.splice(r.end(), r, p); }
    else if (op < 12) { d += " remove(" + vh::str(kk) + ")"; vh::begin_case(d); l.remove(k); if (in) r.erase(p); }
    else if (op < 15) { d += " [" + vh::str(kk) + "]=" + vh::str(v); vh::begin_case(d); int &x = l[k]; vh::check(x == (in ? p->second : 0), "operator[] gives " + vh::str(x)); if (in) r.splice(r.end(), r, p); else { if ((int)r.size() == cap) r.pop_front(); r.push_back(make_pair(k, 0)); } if (vh::below(2)) { x = v; r.back().second = v; } }
    else if (vh::below(3) == 0) { d += " clear"; vh::begin_case(d); l.clear(); r.clear(); }
    for (int i = 0; i < nk; i++) { bool h = false; for (typename list<pair<K, int> >::iterator q = r.begin(); q != r.end(); ++q) if (q->first == mk<K>(i)) h = true; vh::check(l.has(mk<K>(i)) == h, string("key ") + vh::str(i) + (h ? " is missing" : " should not be held")); } }
  // values, without disturbing the model: read everything in order of age
  for (typename list<pair<K, int> >::iterator q = r.begin(); q != r.end(); ++q) vh::check(l.get(q->first) == q->second, "value of a held key"); }
int main(int c, char **v) { vh::init(c, v); do { seq<int>(); seq<string>(); } while (vh::time_left()); return vh::done(); }
