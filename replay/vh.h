// Common part of the bounded stand-in / replay programs: runs the real code of /repo against an oracle.
// usage: prog --seed N --budget SECONDS --out FILE [--case TEXT]
// exit 0: nothing found; exit 1: FILE holds the failing case (also after a crash, sanitizer report or hang)
#ifndef VH_H
#define VH_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <algorithm>
#include <iostream>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <stdint.h>
#include <sys/time.h>
#include <fcntl.h>

namespace vh {
static uint64_t s_[2];
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static inline uint64_t rnd() { uint64_t a = s_[0], b = s_[1], r = a + b; b ^= a; s_[0] = rotl(a, 24) ^ b ^ (b << 16); s_[1] = rotl(b, 37); return r; }
static inline void seed(uint64_t x) { for (int i = 0; i < 2; i++) { x += 0x9e3779b97f4a7c15ULL; uint64_t z = x; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; s_[i] = z ^ (z >> 31); } }
static inline uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
static inline int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static double t_end = 0, t_start = 0;
static const char *outfile = "/dev/stderr";
static std::string onecase;
static unsigned long long ncases = 0, nontrivial = 0;
static char cur[1 << 16];
static char what_[1 << 12];
static std::vector<std::string> samples;
static bool time_left() { return now() < t_end; }
static std::string hex(const std::string &s) { std::string r; char b[4]; for (size_t i = 0; i < s.size(); i++) { sprintf(b, "%02x", (unsigned char)s[i]); r += b; } return r; }
static std::string show(const std::string &s) { std::string t = s.size() > 200 ? s.substr(0, 200) : s; std::string p; for (size_t i = 0; i < t.size(); i++) { unsigned char c = t[i]; if (c >= 32 && c < 127 && c != '\\') p += c; else { char b[8]; sprintf(b, "\\x%02x", c); p += b; } } std::ostringstream os; os << '"' << p << '"' << (s.size() > 200 ? "..." : "") << " (len " << s.size() << ")"; return os.str(); }
static void emit(const char *why) {
  int fd = open(outfile, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) {
    const char *a = "failing case: "; ssize_t r;
    r = write(fd, a, strlen(a)); r = write(fd, cur, strlen(cur)); r = write(fd, "\n", 1);
    a = "observed: "; r = write(fd, a, strlen(a)); r = write(fd, why, strlen(why)); r = write(fd, "\n", 1); (void)r;
    close(fd);
  }
}
// describe the case about to be run
static void begin_case(const std::string &d, bool nt = true) { ncases++; if (nt) nontrivial++; strncpy(cur, d.c_str(), sizeof cur - 1); if (samples.size() < 3 && nt && (ncases % 7) == 1) samples.push_back(d.substr(0, 300)); struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 20; setitimer(ITIMER_VIRTUAL, &it, 0); }
static void fail(const std::string &why) { emit(why.c_str()); printf("FAIL %s :: %s\n", cur, why.c_str()); fflush(stdout); _exit(1); }
static void check(bool ok, const std::string &why) { if (!ok) fail(why); }
static void onsig(int s) { const char *m = s == SIGVTALRM ? "the call does not terminate (20 s of CPU time)" : s == SIGALRM ? "the call does not return (blocked)" : s == SIGSEGV ? "segmentation fault" : s == SIGABRT ? "abort (failed assertion or unhandled exception)" : "fatal signal"; emit(m); fprintf(stdout, "FAIL %s :: %s\n", cur, m); fflush(stdout); _exit(1); }
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
static void onasan() { emit("memory error reported by AddressSanitizer (see output)"); fprintf(stdout, "FAIL %s :: memory error (AddressSanitizer)\n", cur); fflush(stdout); }
static int argc_; static char **argv_;
static bool thorough = false;
// byte strings and integers of the verifier's counterexamples (--ce FILE: lines 's HEX' / 'i N')
static std::vector<std::string> ce_s; static std::vector<unsigned long long> ce_i;
static void load_ce(const char *fn) { FILE *f = fopen(fn, "r"); if (!f) return; static char b[1 << 16]; while (fgets(b, sizeof b, f)) { if (b[0] == 's') { std::string s; unsigned x; for (char *p = b + 2; sscanf(p, "%2x", &x) == 1; p += 2) s += (char)x; ce_s.push_back(s); for (size_t k = 1; k < s.size() && k < 12; k++) ce_s.push_back(s.substr(0, k)); } else if (b[0] == 'i') ce_i.push_back(strtoull(b + 2, 0, 10)); } fclose(f); }
static void init(int argc, char **argv) {
  double budget = 5; uint64_t sd = 1; argc_ = argc; argv_ = argv;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "--seed") sd = strtoull(argv[++i], 0, 10); else if (a == "--budget") budget = atof(argv[++i]); else if (a == "--out") outfile = argv[++i]; else if (a == "--ce") load_ce(argv[++i]); else if (a == "--case") onecase = argv[++i]; else if (a == "--thorough") thorough = true; }
  seed(sd); t_start = now(); t_end = t_start + budget;
  signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGBUS, onsig); signal(SIGFPE, onsig); signal(SIGVTALRM, onsig); signal(SIGALRM, onsig); signal(SIGPIPE, SIG_IGN);
  if (__asan_set_death_callback) __asan_set_death_callback(onasan);
}
static int done() { printf("OK cases=%llu nontrivial=%llu\n", ncases, nontrivial); for (size_t i = 0; i < samples.size(); i++) printf("SAMPLE %s\n", samples[i].c_str()); return 0; }
template <class T> static std::string str(const T &v) { std::ostringstream os; os << v; return os.str(); }
// random byte string biased to interesting alphabets
static std::string bytes(size_t n, const char *alpha = 0) { std::string s(n, 0); size_t l = alpha ? strlen(alpha) : 0; for (size_t i = 0; i < n; i++) s[i] = l ? alpha[below(l)] : (char)rnd(); return s; }
}
#endif
