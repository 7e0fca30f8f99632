#include "vh.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <errno.h>
#include <stdarg.h>
#include "system/mmapper.h"
typedef pfi::system::mmapper::mmapper M;
static bool armed = false; static std::set<int> fds; static std::map<void *, size_t> maps; static std::vector<int> plan; static size_t pi_ = 0; static std::string log_;
static int nextf() { return pi_ < plan.size() ? plan[pi_++] : 0; }   // 0: works, 1: EINTR, 2: other error
extern "C" { int __real_open(const char *, int, ...); int __real_close(int); int __real_fstat(int, struct stat *); void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t);
int __wrap_open(const char *n, int fl, ...) { if (!armed) return __real_open(n, fl, 0644); int p = nextf(); if (p) { log_ += p == 1 ? "open:EINTR " : "open:fails "; errno = p == 1 ? EINTR : EACCES; return -1; } int r = __real_open(n, fl); if (r >= 0) { fds.insert(r); log_ += "open "; } else log_ += "open:ENOENT "; return r; }
int __wrap_fstat(int fd, struct stat *b) { if (!armed) return __real_fstat(fd, b); if (!fds.count(fd)) vh::fail("fstat of a descriptor that is not open after " + log_); int p = nextf(); if (p) { log_ += p == 1 ? "fstat:EINTR " : "fstat:fails "; errno = p == 1 ? EINTR : EIO; memset(b, 0x55, sizeof *b); return -1; } log_ += "fstat "; return __real_fstat(fd, b); }
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { if (!armed) return __real_mmap(a, n, pr, fl, fd, o); if (!fds.count(fd)) vh::fail("mmap of a descriptor that is not open after " + log_); int p = nextf(); if (p) { log_ += "mmap:fails "; errno = ENOMEM; return MAP_FAILED; } void *r = __real_mmap(a, n, pr, fl, fd, o); if (r != MAP_FAILED) { maps[r] = n; log_ += "mmap "; } else log_ += "mmap:EINVAL "; return r; }
int __wrap_munmap(void *a, size_t n) { if (!armed) return __real_munmap(a, n); log_ += "munmap "; if (!maps.count(a)) vh::fail("munmap of an address that is not mapped after " + log_); if (maps[a] != n) vh::fail("munmap with length " + vh::str(n) + " of a mapping of " + vh::str(maps[a]) + " bytes after " + log_); maps.erase(a); return __real_munmap(a, n); }
int __wrap_close(int fd) { if (!armed) return __real_close(fd); log_ += "close "; if (!fds.count(fd)) vh::fail("close of a descriptor that is not open after " + log_); fds.erase(fd); int r = __real_close(fd); if (nextf() == 2) { errno = EIO; return -1; } return r; } }
struct Ref { int file; Ref() : file(-1) {} };
int main(int c, char **v) { vh::init(c, v); char dir[] = "/tmp/vpc10XXXXXX"; if (!mkdtemp(dir)) return 0; size_t sizes[] = {10, 1, 4096, 5000, 0}; std::vector<std::string> fn, data;
  for (int i = 0; i < 5; i++) { fn.push_back(std::string(dir) + "/f" + vh::str(i)); data.push_back(vh::bytes(sizes[i])); FILE *f = fopen(fn[i].c_str(), "w"); fwrite(data[i].data(), 1, data[i].size(), f); fclose(f); } fn.push_back(std::string(dir) + "/missing"); data.push_back("");
  do { fds.clear(); maps.clear(); M *o[3] = {0, 0, 0}; Ref r[3]; std::string d; armed = true;
    for (int step = 0; step < 10; step++) { int a = vh::below(3), b = vh::below(3), k = vh::below(8); plan.clear(); pi_ = 0; log_.clear(); if (vh::below(2)) for (int i = 0; i < 8; i++) plan.push_back(vh::below(4) ? 0 : 1 + vh::below(2));
      if (!o[a]) { o[a] = new M(); r[a] = Ref(); d += " make" + vh::str(a); }
      else if (k <= 2) { int f = vh::below(6); d += " open" + vh::str(a) + "(file of " + vh::str(data[f].size()) + (f == 5 ? ",missing" : "") + ")"; vh::begin_case(d); int q = o[a]->open(fn[f]); if (q == 0) { r[a].file = f; vh::check(data[f].size() > 0, "open of an empty file succeeds; calls " + log_); } else { bool hard = data[f].empty(); for (size_t i = 0; i < pi_; i++) if (plan[i]) hard = true; vh::check(hard, "open fails without cause; calls " + log_); vh::check(q < 0, "failure code"); } }
      else if (k == 3) { d += " close" + vh::str(a); vh::begin_case(d); o[a]->close(); r[a].file = -1; }
      else if (k == 4) { d += " destroy" + vh::str(a); vh::begin_case(d); delete o[a]; o[a] = 0; r[a].file = -1; }
      else if (k == 5 && !o[b]) { d += " move" + vh::str(a) + "to" + vh::str(b); vh::begin_case(d); o[b] = new M(std::move(*o[a])); r[b] = r[a]; r[a].file = -1; }
      else if (k == 6 && o[b] && a != b) { d += " assign" + vh::str(a) + "from" + vh::str(b); vh::begin_case(d); *o[a] = std::move(*o[b]); r[a] = r[b]; r[b].file = -1; }
      else if (k == 7 && o[b] && a != b) { d += " swap" + vh::str(a) + vh::str(b); vh::begin_case(d); std::swap(*o[a], *o[b]); std::swap(r[a].file, r[b].file); }
      size_t live = 0; for (int i = 0; i < 3; i++) if (o[i]) { const M &m = *o[i]; int f = r[i].file; if (f < 0) vh::check(!m.is_open() && m.size() == 0 && m.begin() == NULL && m.end() == NULL, "object " + vh::str(i) + " should be closed and empty; it reports size " + vh::str(m.size()) + (m.is_open() ? ", open" : ", closed") + "; calls " + log_);
        else { live++; vh::check(m.is_open() && m.size() == data[f].size() && m.begin() && m.end() == m.begin() + m.size(), "object " + vh::str(i) + " should be open on " + vh::str(data[f].size()) + " bytes; size " + vh::str(m.size()) + "; calls " + log_); vh::check(maps.count((void *)m.begin()) == 1 && maps[(void *)m.begin()] == m.size(), "object " + vh::str(i) + " refers to memory that is not mapped; calls " + log_); vh::check(std::string(m.begin(), m.end()) == data[f], "contents"); } }
      vh::check(fds.size() == live && maps.size() == live, vh::str(fds.size()) + " descriptors and " + vh::str(maps.size()) + " mappings live for " + vh::str(live) + " open objects; calls " + log_); }
    plan.clear(); for (int i = 0; i < 3; i++) delete o[i]; vh::check(fds.empty() && maps.empty(), "leak after destruction"); armed = false;
  } while (vh::time_left());
  for (int i = 0; i < 5; i++) unlink(fn[i].c_str()); rmdir(dir);
  return vh::done(); }
