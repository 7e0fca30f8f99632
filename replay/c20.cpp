#include <list>
#include <deque>
#include <limits>
#include <cmath>
#include "vh.h"
#include "data/serialization.h"
#include "data/serialization/unordered_map.h"
#include "data/serialization/unordered_set.h"
#include "data/unordered_map.h"
#include "data/unordered_set.h"
using namespace pfi::data::serialization;
using pfi::data::unordered_map; using pfi::data::unordered_set;
// oracle encoding: little-endian fixed width scalars, 32-bit counts
static std::string le(unsigned long long v, int n) { std::string s; for (int i = 0; i < n; i++) s += (char)(v >> (8 * i)); return s; }
#define INT(t) static std::string enc(t v) { return le((unsigned long long)v, sizeof v); } static void gen(t &v, int) { int r = vh::below(5); v = r == 0 ? (t)0 : r == 1 ? std::numeric_limits<t>::max() : r == 2 ? std::numeric_limits<t>::min() : (t)vh::rnd(); }
INT(char) INT(signed char) INT(unsigned char) INT(short) INT(unsigned short) INT(int) INT(unsigned int) INT(long) INT(unsigned long) INT(long long) INT(unsigned long long)
static std::string enc(bool v) { return le(v, 1); } static void gen(bool &v, int) { v = vh::below(2); }
static std::string enc(float v) { unsigned u; memcpy(&u, &v, 4); return le(u, 4); } static void gen(float &v, int) { unsigned u = vh::rnd(); memcpy(&v, &u, 4); if (v != v) v = -0.f; if (!vh::below(8)) v = std::numeric_limits<float>::infinity(); }
static std::string enc(double v) { unsigned long u; memcpy(&u, &v, 8); return le(u, 8); } static void gen(double &v, int) { unsigned long u = vh::rnd(); memcpy(&v, &u, 8); if (v != v) v = -0.; if (!vh::below(8)) v = std::numeric_limits<double>::denorm_min(); }
struct Rec { int a; std::string b; std::vector<short> c; double d; Rec() : a(0), d(0) {} template <class Ar> void serialize(Ar &ar) { ar & MEMBER(a) & MEMBER(b) & NAMED_MEMBER("see", c) & MEMBER(d); } };
static bool operator==(const Rec &x, const Rec &y) { return x.a == y.a && x.b == y.b && x.c == y.c && x.d == y.d; }
static std::string enc(const std::string &v); template <class A, class B> std::string enc(const std::pair<A, B> &v); template <class T> std::string enc(const std::vector<T> &v); template <class T> std::string enc(const std::list<T> &v); template <class T> std::string enc(const std::deque<T> &v); template <class T> std::string enc(const std::set<T> &v); template <class K, class V> std::string enc(const std::map<K, V> &v); template <class K, class V> std::string enc(const unordered_map<K, V> &v); template <class T> std::string enc(const unordered_set<T> &v); static std::string enc(const Rec &v);
static void gen(std::string &v, int d); template <class A, class B> void gen(std::pair<A, B> &v, int d); template <class T> void gen(std::vector<T> &v, int d); template <class T> void gen(std::list<T> &v, int d); template <class T> void gen(std::deque<T> &v, int d); template <class T> void gen(std::set<T> &v, int d); template <class K, class V> void gen(std::map<K, V> &v, int d); template <class K, class V> void gen(unordered_map<K, V> &v, int d); template <class T> void gen(unordered_set<T> &v, int d); static void gen(Rec &v, int d);
template <class C> std::string encs(const C &v) { std::string s = le(v.size(), 4); for (typename C::const_iterator p = v.begin(); p != v.end(); ++p) s += enc(*p); return s; }
static std::string enc(const std::string &v) { return le(v.size(), 4) + v; }
template <class A, class B> std::string enc(const std::pair<A, B> &v) { return enc(v.first) + enc(v.second); }
template <class T> std::string enc(const std::vector<T> &v) { return encs(v); } template <class T> std::string enc(const std::list<T> &v) { return encs(v); } template <class T> std::string enc(const std::deque<T> &v) { return encs(v); }
template <class T> std::string enc(const std::set<T> &v) { return encs(v); } template <class K, class V> std::string enc(const std::map<K, V> &v) { return encs(v); } template <class K, class V> std::string enc(const unordered_map<K, V> &v) { return encs(v); } template <class T> std::string enc(const unordered_set<T> &v) { return encs(v); }
static std::string enc(const Rec &v) { return enc(v.a) + enc(v.b) + enc(v.c) + enc(v.d); }
static int cnt(int d) { int r = vh::below(6); return r == 0 ? 0 : r == 5 && d == 0 ? (int)vh::below(300) : (int)vh::below(5); }
static void gen(std::string &v, int d) { v.clear(); for (int n = cnt(d); n > 0; n--) v += (char)(vh::below(3) ? vh::rnd() : 0); }
template <class A, class B> void gen(std::pair<A, B> &v, int d) { gen(v.first, d + 1); gen(v.second, d + 1); }
template <class C> void seqs(C &v, int d) { v.clear(); for (int n = cnt(d); n > 0; n--) { typename C::value_type x = typename C::value_type(); gen(x, d + 1); v.push_back(x); } }
template <class T> void gen(std::vector<T> &v, int d) { seqs(v, d); } template <class T> void gen(std::list<T> &v, int d) { seqs(v, d); } template <class T> void gen(std::deque<T> &v, int d) { seqs(v, d); }
template <class C> void sets(C &v, int d) { v.clear(); for (int n = cnt(d); n > 0; n--) { typename C::key_type x = typename C::key_type(); gen(x, d + 1); v.insert(x); } }
template <class T> void gen(std::set<T> &v, int d) { sets(v, d); } template <class T> void gen(unordered_set<T> &v, int d) { sets(v, d); }
template <class C> void maps(C &v, int d) { v.clear(); for (int n = cnt(d); n > 0; n--) { typename C::key_type x = typename C::key_type(); typename C::mapped_type y = typename C::mapped_type(); gen(x, d + 1); gen(y, d + 1); v[x] = y; } }
template <class K, class V> void gen(std::map<K, V> &v, int d) { maps(v, d); } template <class K, class V> void gen(unordered_map<K, V> &v, int d) { maps(v, d); }
static void gen(Rec &v, int d) { gen(v.a, d + 1); gen(v.b, d + 1); gen(v.c, d + 1); gen(v.d, d + 1); }
template <class C> bool same(const C &a, const C &b) { return a == b; }
static bool same(float a, float b) { return memcmp(&a, &b, 4) == 0; } static bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
template <class T> void trip(const char *name) {
  T v = T(), w = T(), fresh = T(); gen(v, 0); gen(w, 0); std::string e = enc(v), tail = "\x01\xffzz";
  vh::begin_case(std::string(name) + " encoding " + vh::hex(e).substr(0, 600), e.size() > 4);
  std::stringstream ss; { binary_oarchive oa(ss); oa << v; vh::check(bool(oa), "writing fails"); } std::string out = ss.str(); vh::check(out == e, "written as " + vh::hex(out).substr(0, 400)); vh::check(enc(v) == e, "writing changes the value");
  for (int dirty = 0; dirty < 2; dirty++) { T &t = dirty ? w : fresh; std::istringstream is(out + tail); binary_iarchive ia(is); ia >> t; vh::check(bool(ia), "reading fails"); vh::check(same(t, v), std::string("another value is read back") + (dirty ? " into a used object" : "")); vh::check((size_t)is.tellg() == out.size(), "bytes consumed: " + vh::str((long)is.tellg())); }
}
template <class T> void cut(const char *name) { T v, t0, t; gen(v, 0); gen(t0, 0); t = t0; std::ostringstream os; { binary_oarchive oa(os); oa << v; } std::string s = os.str(); s.resize(vh::below(s.size())); vh::begin_case(std::string(name) + " cut to " + vh::str(s.size()) + " bytes"); std::istringstream is(s); binary_iarchive ia(is); ia >> t; vh::check(!ia, "a truncated value is read"); vh::check(same(t, t0), "a failed read changes the target"); }
template <class T> void arr(const char *name) { T v[5], w[5]; std::string e; for (int i = 0; i < 5; i++) { gen(v[i], 1); gen(w[i], 1); e += enc(v[i]); } vh::begin_case(std::string("array of ") + name); std::stringstream ss; { binary_oarchive oa(ss); oa << v; } vh::check(ss.str() == e, "array layout"); binary_iarchive ia(ss); ia >> w; for (int i = 0; i < 5; i++) vh::check(same(v[i], w[i]), "array element"); }
static void strm() { std::string s; for (int n = cnt(0); n > 0; n--) s += (char)(vh::below(2) ? 0xff : vh::below(3) ? vh::rnd() : 0); vh::begin_case("stream " + vh::hex(s)); std::stringstream a(s), b, c; { binary_oarchive oa(b); std::iostream &io = a; oa << io; } b << "tail"; { binary_iarchive ia(b); std::iostream &io = c; ia >> io; } vh::check(c.str() == s, "another stream is read back: " + vh::hex(c.str())); std::string t; b >> t; vh::check(t == "tail", "bytes consumed"); }
static void ld() { long double v = (long double)(long)vh::rnd() * 1.25L, w = 0; if (!vh::below(4)) v = std::numeric_limits<long double>::denorm_min(); vh::begin_case("long double"); std::stringstream ss; { binary_oarchive oa(ss); oa << v; } vh::check(ss.str().size() == sizeof v, "long double width"); binary_iarchive ia(ss); ia >> w; vh::check(v == w && bool(ia), "another long double is read back"); }
int main(int c, char **v) { vh::init(c, v);
  do { 
#define T1(t) trip<t>(#t); cut<t>(#t);
    T1(bool) T1(char) T1(signed char) T1(unsigned char) T1(short) T1(unsigned short) T1(int) T1(unsigned int) T1(long) T1(unsigned long) T1(long long) T1(unsigned long long) T1(float) T1(double) ld(); strm();
    typedef std::pair<int, std::string> PIS; typedef std::map<std::string, std::vector<int> > M1; typedef std::map<int, std::map<short, std::list<std::string> > > M2; typedef unordered_map<int, std::string> U1; typedef unordered_map<std::string, double> U2; typedef std::vector<PIS> VP; typedef std::pair<std::set<std::string>, std::deque<std::vector<char> > > PSD; typedef std::vector<Rec> VR; typedef std::list<std::pair<bool, float> > LBF; typedef std::vector<std::vector<std::vector<unsigned short> > > VVV;
#define T2(t) trip<t >(#t);
    T2(std::string) T2(PIS) T2(std::vector<int>) T2(std::vector<std::string>) T2(std::vector<double>) T2(std::list<long>) T2(std::list<std::string>) T2(std::deque<unsigned char>) T2(std::deque<std::string>) T2(std::set<int>) T2(std::set<std::string>) T2(M1) T2(M2) T2(U1) T2(U2) T2(unordered_set<long>) T2(unordered_set<std::string>) T2(VP) T2(PSD) T2(Rec) T2(VR) T2(LBF) T2(VVV) arr<int>("int"); arr<std::string>("string"); arr<Rec>("Rec");
  } while (vh::time_left());
  return vh::done(); }
