#include <stdint.h>
#include <string>
#include <vector>
#include <deque>
#include <list>
#include <map>
#include <set>
#include "data/serialization.h"
#include "data/serialization/unordered_map.h"
#include "data/serialization/unordered_set.h"
using namespace pfi::data::serialization;
// an element type of which only the contract of its serialisation is known
namespace vpc {
struct Elem { int id; };
void serialize(binary_oarchive &ar, Elem &e);
void serialize(binary_iarchive &ar, Elem &e);
struct Rec { int a; Elem b; unsigned char c;
  template <class Ar> void serialize(Ar &ar) { ar & a & b & c; } };
}
#define SC(n, t) void vp_w_##n(std::ostream &os, t &v) { binary_oarchive ar(os); ar << v; } bool vp_r_##n(std::istream &is, t &v) { binary_iarchive ar(is); ar >> v; return ar ? true : false; }
SC(bool, bool) SC(char, char) SC(schar, signed char) SC(uchar, unsigned char) SC(short, short) SC(ushort, unsigned short) SC(int, int) SC(uint, unsigned int)
SC(long, long) SC(ulong, unsigned long) SC(llong, long long) SC(ullong, unsigned long long) SC(float, float) SC(double, double) SC(ldouble, long double)
#define CT(n, ...) void vp_w_##n(binary_oarchive &ar, __VA_ARGS__ &v) { ar << v; } void vp_r_##n(binary_iarchive &ar, __VA_ARGS__ &v) { ar >> v; }
CT(vector, std::vector<vpc::Elem>)
CT(deque, std::deque<vpc::Elem>)
CT(list, std::list<vpc::Elem>)
CT(string, std::string)
CT(pair, std::pair<vpc::Elem, unsigned short>)
typedef vpc::Elem arr7[7];
CT(array, arr7)
CT(map, std::map<int, int>)
CT(set, std::set<int>)
CT(umap, pfi::data::unordered_map<int, int>)
CT(uset, pfi::data::unordered_set<int>)
CT(rec, vpc::Rec)
