From f0f29bc364b607e3087e1dd7536f47f85b5352eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:18 +0000
Subject: [PATCH 01/24] fix: decoder::byte skips to the next byte boundary, as
 encoder::byte does

---
 src/data/code/code.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/code/code.cpp b/src/data/code/code.cpp
index 900de9e..8478e3c 100644
--- a/src/data/code/code.cpp
+++ b/src/data/code/code.cpp
@@ -181,6 +181,10 @@ namespace code {
   }
 
   unsigned char decoder::byte() {
+    if (bit) {
+      ++pos;
+      bit=0;
+    }
     return bytes[pos++];
   }
 
-- 
2.43.0


From 9c55de83210750ee97286f1c60684af250f6bbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:15 +0000
Subject: [PATCH 02/24] fix: ipv4_address rejects fields that overflow int

---
 src/network/ipv4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/ipv4.h b/src/network/ipv4.h
index a0ec2a6..5ce0afe 100644
--- a/src/network/ipv4.h
+++ b/src/network/ipv4.h
@@ -57,7 +57,7 @@ public:
 
   explicit ipv4_address(const std::string& s) {
     int buf[4];
-    if (std::sscanf(s.c_str(), "%d.%d.%d.%d", &buf[0], &buf[1], &buf[2], &buf[3]) != 4) {
+    if (std::sscanf(s.c_str(), "%9d.%9d.%9d.%9d", &buf[0], &buf[1], &buf[2], &buf[3]) != 4) {
       *this = none;
       return;
     }
-- 
2.43.0


From 5eed318b357df31a1405783502d4c50de642e715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:15 +0000
Subject: [PATCH 03/24] fix: calendar_time built from fields no longer reads an
 uninitialised isdst

---
 src/system/time_util.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/system/time_util.cpp b/src/system/time_util.cpp
index 1b0761c..7a740db 100644
--- a/src/system/time_util.cpp
+++ b/src/system/time_util.cpp
@@ -99,8 +99,16 @@ calendar_time::calendar_time(
   , sec(sec)
   , usec(usec)
 {
-  clock_time ct(*this);
-  *this=calendar_time(ct);
+  tm t={};
+  t.tm_sec=sec;
+  t.tm_min=min;
+  t.tm_hour=hour;
+  t.tm_mday=mday;
+  t.tm_mon=mon-1;
+  t.tm_year=year-1900;
+  t.tm_isdst=-1;
+
+  *this=calendar_time(clock_time(static_cast<uint64_t>(mktime(&t)), usec));
 }
 
 clock_time get_clock_time()
-- 
2.43.0


From e74030a97128e751d87c28653fdcd0ce0a61a653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:22 +0000
Subject: [PATCH 04/24] fix: qsem::wait(q) takes the q units it waited for, not
 one

---
 src/concurrent/qsem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrent/qsem.h b/src/concurrent/qsem.h
index 0191c90..8a4f2b8 100644
--- a/src/concurrent/qsem.h
+++ b/src/concurrent/qsem.h
@@ -56,7 +56,7 @@ public:
       if (lock) {
         while (quantity < q)
           cond.wait(m);
-        quantity--;
+        quantity -= q;
         return true;
       }
     }
-- 
2.43.0


From 53c126ecdaf1f13408b14248c0cbccafa9bbb723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:36 +0000
Subject: [PATCH 05/24] fix: rw_mutex::read_lock(sec) reports the result of
 tryrdlock the right way round

---
 src/concurrent/rwmutex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrent/rwmutex.cpp b/src/concurrent/rwmutex.cpp
index a5e610e..3815b46 100644
--- a/src/concurrent/rwmutex.cpp
+++ b/src/concurrent/rwmutex.cpp
@@ -96,7 +96,7 @@ bool rw_mutex::impl::read_lock(double sec)
   if (!valid) return false;
 
   if (sec<1e-9)
-    return pthread_rwlock_tryrdlock(&lk);
+    return pthread_rwlock_tryrdlock(&lk)==0;
 
   timespec end=to_timespec(get_clock_time()+sec);
   return pthread_rwlock_timedrdlock(&lk, &end)==0;
-- 
2.43.0


From f6b46f4b7c552b5cc4e02dfc91ec516306afc3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:40 +0000
Subject: [PATCH 06/24] fix: a closed mmapper reports size zero and an empty
 range

---
 src/system/mmapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/system/mmapper.cpp b/src/system/mmapper.cpp
index ce1af2e..7be2842 100644
--- a/src/system/mmapper.cpp
+++ b/src/system/mmapper.cpp
@@ -79,6 +79,7 @@ int mmapper::close()
     munmap(ptr, length);
     ptr = NULL;
   }
+  length = 0;
   return 0;
 }
 
-- 
2.43.0


From b7201db758198f8c1fb1040a92ed8b227de5d4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:00 +0000
Subject: [PATCH 07/24] fix: moving an mmapper no longer closes and unmaps the
 file the target now holds

---
 src/system/mmapper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system/mmapper.h b/src/system/mmapper.h
index 204244b..85a9b71 100644
--- a/src/system/mmapper.h
+++ b/src/system/mmapper.h
@@ -47,8 +47,8 @@ public:
   typedef const char* const_iterator;
 
   mmapper() : ptr(NULL), length(0), fd(-1) {}
-  mmapper(mmapper&& rhs) : ptr(std::move(rhs.ptr)), length(std::move(rhs.length)), fd(std::move(rhs.fd)) {
-    mmapper().swap(rhs);
+  mmapper(mmapper&& rhs) : ptr(NULL), length(0), fd(-1) {
+    swap(rhs);
   }
   ~mmapper() { close(); }
 
-- 
2.43.0


From f3aacc20d3f4c74a2e178848cc437955ad9047ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:37 +0000
Subject: [PATCH 08/24] fix: csv parser grows its buffer for the terminator of
 a field

A row whose fields fill the buffer exactly made the terminating NUL
overflow it.
---
 src/text/csv.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/text/csv.h b/src/text/csv.h
index b86a722..3790b72 100644
--- a/src/text/csv.h
+++ b/src/text/csv.h
@@ -133,6 +133,7 @@ private:
           }
         }
 
+        if (bufcnt>=buf.size()) extend();
         buf[bufcnt++]='\0';
         cur.push_back(&buf[start]);
         if (p == q) break;
-- 
2.43.0


From 95d57b2903c16f851019313fc18e16adc4fe706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:37 +0000
Subject: [PATCH 09/24] fix: csv parser never reads past the end of the text

An unterminated quoted field, a trailing comma and a trailing carriage
return dereferenced or skipped the end iterator.
---
 src/text/csv.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/text/csv.h b/src/text/csv.h
index 3790b72..784f2c0 100644
--- a/src/text/csv.h
+++ b/src/text/csv.h
@@ -114,12 +114,12 @@ private:
       for (size_t bufcnt=0; ; ){
         size_t start=bufcnt;
 
-        if (*p=='\"'){
+        if (p != q && *p=='\"'){
           p++;
-          for (;;){
+          while(p != q){
             if (*p=='\"'){
               p++;
-              if (*p!='\"') break;
+              if (p == q || *p!='\"') break;
             }
             if (bufcnt>=buf.size()) extend();
             buf[bufcnt++]=*p++;
@@ -137,7 +137,7 @@ private:
         buf[bufcnt++]='\0';
         cur.push_back(&buf[start]);
         if (p == q) break;
-        if (*p=='\r') p++;
+        if (*p=='\r' && ++p == q) break;
         if (*p=='\n'){ p++; break; }
         p++;
       }
-- 
2.43.0


From e297d9886ef952579d69df86882bffd650a2d741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:32 +0000
Subject: [PATCH 10/24] fix: json numbers need their digits and are read up to
 the end of the stream

---
 src/text/json/parser.cpp | 38 ++++++++++++++++++--------------------
 src/text/json/parser.h   |  6 +++++-
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/text/json/parser.cpp b/src/text/json/parser.cpp
index e00e6ed..822f759 100644
--- a/src/text/json/parser.cpp
+++ b/src/text/json/parser.cpp
@@ -138,7 +138,7 @@ json json_parser::parse()
 void json_parser::parse_stream(callback& cb)
 {
   ss();
-  if (cbuf < 0 && it == end)
+  if (!more())
     throw lang::end_of_data("json_parser reached end of data");
   return parse_impl(cb);
 }
@@ -242,38 +242,25 @@ void json_parser::parse_number(callback& cb)
     incr();
   }
 
-  while ((cbuf != -1 || it != end) && safe_isdigit(peek())) {
-    src += peek();
-    incr();
-  }
+  parse_digits(src);
 
-  if (it != end && peek() == '.') {
+  if (more() && peek() == '.') {
     is_frac = true;
     src += '.';
     incr();
-    while (it != end && safe_isdigit(peek())) {
-      src += peek();
-      incr();
-    }
+    parse_digits(src);
   }
 
-  if (it != end && (peek() == 'e' || peek() == 'E')) {
+  if (more() && (peek() == 'e' || peek() == 'E')) {
     is_frac = true;
     src += peek();
     incr();
 
-    if (it == end)
-      error("after exp, digit required.");
-
-    if (peek() == '+' || peek() == '-') {
+    if (more() && (peek() == '+' || peek() == '-')) {
       src += peek();
       incr();
     }
-  }
-
-  while (it != end && safe_isdigit(peek())) {
-    src += peek();
-    incr();
+    parse_digits(src);
   }
 
   const char* srcptr = src.c_str();
@@ -304,6 +291,17 @@ void json_parser::parse_number(callback& cb)
   }
 }
 
+void json_parser::parse_digits(std::string& dst)
+{
+  if (!more() || !safe_isdigit(peek()))
+    error("digit required.");
+
+  while (more() && safe_isdigit(peek())) {
+    dst += peek();
+    incr();
+  }
+}
+
 void json_parser::parse_string(callback& cb)
 {
   int len = 0;
diff --git a/src/text/json/parser.h b/src/text/json/parser.h
index 686f930..ecaa6cb 100644
--- a/src/text/json/parser.h
+++ b/src/text/json/parser.h
@@ -75,6 +75,7 @@ private:
   void parse_object(callback& cb);
   void parse_array(callback& cb);
   void parse_number(callback& cb);
+  void parse_digits(std::string& dst);
   void parse_string(callback& cb);
   void parse_false(callback& cb);
   void parse_null(callback& cb);
@@ -95,6 +96,9 @@ private:
     return 0;
   }
 
+  bool more() {
+    return cbuf >= 0 || it != end;
+  }
   int peek() {
     if (cbuf < 0) {
       if (it != end)
@@ -115,7 +119,7 @@ private:
     return c;
   }
   void ss() {
-    while(it != end && safe_isspace(peek()))
+    while(more() && safe_isspace(peek()))
       incr();
   }
 
-- 
2.43.0


From 35f11fcc5a5bc1ed1081397ef68adbd3049afc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:32 +0000
Subject: [PATCH 11/24] fix: printing a json string does not stop at an
 embedded NUL

---
 src/text/json/base.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/text/json/base.h b/src/text/json/base.h
index b608a95..32ff293 100644
--- a/src/text/json/base.h
+++ b/src/text/json/base.h
@@ -297,13 +297,14 @@ public:
     if (escape) {
       const char* p = dat.c_str();
       const char* end = p + dat.size();
-      while (*p) {
+      while (p != end) {
         pfi::data::string::uchar uc = pfi::data::string::chars_to_uchar(p, end);
         print_char(os, uc);
       }
     } else {
       const char* p = dat.c_str();
-      while (*p) {
+      const char* end = p + dat.size();
+      while (p != end) {
         print_char_without_escape(os, *p++);
       }
     }
-- 
2.43.0


From dfb7f78e96c8e90fbbc9be119608afbc5eda2510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:15 +0000
Subject: [PATCH 12/24] fix: ratio takes absolute values in its own integer
 type

---
 src/math/ratio.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/ratio.h b/src/math/ratio.h
index 6f51542..0fa2ce1 100644
--- a/src/math/ratio.h
+++ b/src/math/ratio.h
@@ -59,6 +59,7 @@ public:
 private:
   T num_, den_;
   static T gcd(T a, T b){
+    using std::abs;
     a=abs(a); b=abs(b);
     while(true){
       a=a%b;
-- 
2.43.0


From b2c32ac8a05e111b26b8e6356ecfdb1cbd82ec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:15 +0000
Subject: [PATCH 13/24] fix: kmp search for an empty pattern does not touch its
 empty table

---
 src/data/string/kmp.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/string/kmp.h b/src/data/string/kmp.h
index 81fa474..07bdd28 100644
--- a/src/data/string/kmp.h
+++ b/src/data/string/kmp.h
@@ -46,6 +46,7 @@ public:
  explicit kmp(const T& q) {
    query=q;
    next=std::vector<int>(query.size());
+   if (query.size()==0) return;
    int t=next[0]=0;
    for (int i=1;i<(int)query.size();++i) {
      while(t>0&&query[i]!=query[t]) t=next[t-1];
@@ -56,6 +57,8 @@ public:
 
  size_t find(const T& text, int offset = 0) const
  {
+   if (query.size()==0)
+     return offset<=(int)text.size() ? (size_t)offset : std::string::npos;
    int t=0;
    for (int i=offset;i<(int)text.size();++i) {
      while(t>0&&text[i]!=query[t]) t=next[t-1];
-- 
2.43.0


From d44eae396a57e3b5e78f2a177d146273c236e55a Mon Sep 17 00:00:00 2001
From: root <root@localhost>
Date: Wed, 18 Nov 2026 10:43:14 +0000
Subject: [PATCH 14/24] fix: user information with a percent-encoding does not
 skip past it twice

---
 src/network/uri.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/network/uri.cpp b/src/network/uri.cpp
index 140c5ea..929be19 100644
--- a/src/network/uri.cpp
+++ b/src/network/uri.cpp
@@ -326,10 +326,8 @@ bool uri::parse_userinfo(const char *&p)
       p++;
       continue;
     }
-    if (parse_pct_encoded(p)){
-      p+=3;
+    if (parse_pct_encoded(p))
       continue;
-    }
     break;
   }
 
-- 
2.43.0


From 76209e0fe736b7474333d68888a8c4f5d1e8d082 Mon Sep 17 00:00:00 2001
From: root <root@localhost>
Date: Wed, 18 Nov 2026 10:43:14 +0000
Subject: [PATCH 15/24] fix: a host name may begin with an IPv4 address

---
 src/network/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/uri.cpp b/src/network/uri.cpp
index 929be19..7211f12 100644
--- a/src/network/uri.cpp
+++ b/src/network/uri.cpp
@@ -340,8 +340,8 @@ bool uri::parse_host(const char *&p)
 {
   const char *org=p;
 
+  // an IPv4 address is also a reg-name, and the host is the longest match
   if (!parse_ip_literal(p)&&
-      !(p=org, parse_ipv4address(p))&&
       !(p=org, parse_reg_name(p)))
     return false;
 
-- 
2.43.0


From 10db6746f514046ba4cdfb309d00660a24724a12 Mon Sep 17 00:00:00 2001
From: root <root@localhost>
Date: Wed, 18 Nov 2026 10:43:14 +0000
Subject: [PATCH 16/24] fix: IPvFuture literals may have more than one
 character after the dot

---
 src/network/uri.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/network/uri.cpp b/src/network/uri.cpp
index 7211f12..db3d598 100644
--- a/src/network/uri.cpp
+++ b/src/network/uri.cpp
@@ -402,9 +402,9 @@ bool uri::parse_ipvfuture(const char *&p)
       *p!=':')
     return false;
 
-  while(!is_unreserved(*p)&&
-      !is_sub_delims(*p)&&
-      *p!=':')
+  while(is_unreserved(*p)||
+      is_sub_delims(*p)||
+      *p==':')
     p++;
 
   return true;
-- 
2.43.0


From 15144af228aea15d3f74d160a7e8ff69dd395717 Mon Sep 17 00:00:00 2001
From: root <root@localhost>
Date: Wed, 18 Nov 2026 10:43:14 +0000
Subject: [PATCH 17/24] fix: a URI reference does not contain a NUL character

---
 src/network/uri.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/network/uri.cpp b/src/network/uri.cpp
index db3d598..fcf963c 100644
--- a/src/network/uri.cpp
+++ b/src/network/uri.cpp
@@ -147,13 +147,14 @@ const string &uri::fragment() const
 bool uri::parse(const string &s)
 {
   const char *p=s.c_str();
+  const char *const end=p+s.length();
 
   clear();
-  if (parse_uri(p))
+  if (parse_uri(p) && p==end)
     return true;
   p=s.c_str();
   clear();
-  if (parse_relative_ref(p))
+  if (parse_relative_ref(p) && p==end)
     return true;
 
   clear();
-- 
2.43.0


From 0d18f4a49bde8b16f3a9d0540904fd5e2b73ff16 Mon Sep 17 00:00:00 2001
From: root <root@localhost>
Date: Wed, 18 Nov 2026 10:43:14 +0000
Subject: [PATCH 18/24] fix: IPv6 literals may have short groups and fewer
 groups before the double colon

---
 src/network/uri.cpp | 66 +++++++++++++++++++--------------------------
 src/network/uri.h   |  1 +
 2 files changed, 28 insertions(+), 39 deletions(-)

diff --git a/src/network/uri.cpp b/src/network/uri.cpp
index fcf963c..7d94f5b 100644
--- a/src/network/uri.cpp
+++ b/src/network/uri.cpp
@@ -471,8 +471,7 @@ bool uri::parse_ipv6_2(const char *&p)
 
 bool uri::parse_ipv6_3(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p)) p=org;
+  parse_h16_prefix(p, 0);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
@@ -484,9 +483,7 @@ bool uri::parse_ipv6_3(const char *&p)
 
 bool uri::parse_ipv6_4(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_h16_prefix(p, 1);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
@@ -497,10 +494,7 @@ bool uri::parse_ipv6_4(const char *&p)
 
 bool uri::parse_ipv6_5(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_h16_prefix(p, 2);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
@@ -510,11 +504,7 @@ bool uri::parse_ipv6_5(const char *&p)
 
 bool uri::parse_ipv6_6(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_h16_prefix(p, 3);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
   if (!parse_ls32(p)) return false;
@@ -523,12 +513,7 @@ bool uri::parse_ipv6_6(const char *&p)
 
 bool uri::parse_ipv6_7(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_h16_prefix(p, 4);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_ls32(p)) return false;
   return true;
@@ -536,13 +521,7 @@ bool uri::parse_ipv6_7(const char *&p)
 
 bool uri::parse_ipv6_8(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_h16_prefix(p, 5);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p)) return false;
   return true;
@@ -550,27 +529,36 @@ bool uri::parse_ipv6_8(const char *&p)
 
 bool uri::parse_ipv6_9(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_h16_prefix(p, 6);
   if (*p++!=':' || *p++!=':') return false;
   return true;
 }
 
 bool uri::parse_h16(const char *&p)
 {
-  if (!isxdigit(*p++)) return false;
-  if (!isxdigit(*p++)) return false; 
-  if (!isxdigit(*p++)) return false;
-  if (!isxdigit(*p++)) return false;
+  if (!isxdigit(*p)) return false;
+  for (int i=0;i<4&&isxdigit(*p);i++)
+    p++;
   return true;
 }
 
+// [ *n( h16 ":" ) h16 ]
+void uri::parse_h16_prefix(const char *&p, int n)
+{
+  const char *org=p;
+  if (!parse_h16(p)){
+    p=org;
+    return;
+  }
+  for (int i=0;i<n;i++){
+    org=p;
+    if (*p++!=':' || !parse_h16(p)){
+      p=org;
+      return;
+    }
+  }
+}
+
 bool uri::parse_ls32(const char *&p)
 {
   const char *org=p;
diff --git a/src/network/uri.h b/src/network/uri.h
index 39e78aa..07179e1 100644
--- a/src/network/uri.h
+++ b/src/network/uri.h
@@ -82,6 +82,7 @@ private:
   bool parse_ipv6_8(const char *&p);
   bool parse_ipv6_9(const char *&p);
   bool parse_h16(const char *&p);
+  void parse_h16_prefix(const char *&p, int n);
   bool parse_ls32(const char *&p);
   bool parse_ipv4address(const char *&p);
   bool parse_dec_octet(const char *&p);
-- 
2.43.0


From 8160a40f20c23ed98ed535d7aa7b3f3edd03dccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:38 +0000
Subject: [PATCH 19/24] fix: a stream socket sends its buffered bytes before it
 is shut down and does not carry buffers over to the next connection

---
 src/network/socket.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/network/socket.cpp b/src/network/socket.cpp
index 5c2a51f..a3a6b4a 100644
--- a/src/network/socket.cpp
+++ b/src/network/socket.cpp
@@ -99,12 +99,8 @@ bool stream_socket::connect(const string &host, uint16_t port_num)
 {
   if (sock<0) return false;
 
-  if (connected){
-    if (!close())
-      return false;
-    if (!open())
-      return false;
-  }
+  if (connected && !shutdown())
+    return false;
 
   pfi::lang::shared_ptr<dns_resolver> res;
   {
@@ -139,9 +135,10 @@ bool stream_socket::connect(const string &host, uint16_t port_num)
 
 bool stream_socket::shutdown()
 {
+  bool flushed=flush()<0;
   if (!close()) return false;
   if (!open()) return false;
-  return true;
+  return flushed;
 }
 
 bool stream_socket::bind_socket(int sock)
@@ -173,6 +170,9 @@ bool stream_socket::open()
     sock=-1;
     return false;
   }
+  // nothing of an earlier connection belongs to the new one
+  rdbuf_p=rdbuf_end=0;
+  wrbuf_size=0;
   return true;
 }
 
-- 
2.43.0


From bf1eec3f60a872b24e9bc7e20490fe30d148f649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:36 +0000
Subject: [PATCH 20/24] fix: flushing an empty encoder does not touch its first
 byte

---
 src/data/code/code.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/code/code.cpp b/src/data/code/code.cpp
index 8478e3c..db4b163 100644
--- a/src/data/code/code.cpp
+++ b/src/data/code/code.cpp
@@ -65,7 +65,8 @@ namespace code {
 
   int encoder::flush(ostream& os) {
     int res=bytes.size();
-    os.write((char*)&bytes[0],bytes.size());
+    if (!bytes.empty())
+      os.write((char*)&bytes[0],bytes.size());
     bytes.clear();
     bit=0;
     return res;
-- 
2.43.0


From 0baa7902caa29a42829f3294294d5f4f826acbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:36 +0000
Subject: [PATCH 21/24] fix: destroying a sparse matrix writer writes the row
 offsets

---
 src/data/sparse_matrix/sparse_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/sparse_matrix/sparse_matrix.cpp b/src/data/sparse_matrix/sparse_matrix.cpp
index e2a3b36..238c30e 100644
--- a/src/data/sparse_matrix/sparse_matrix.cpp
+++ b/src/data/sparse_matrix/sparse_matrix.cpp
@@ -198,7 +198,7 @@ namespace sparse_matrix {
 
   sparse_matrix_writer::~sparse_matrix_writer()
   {
-    if (offsets) delete offsets;
+    close();
   }
 
   int sparse_matrix_writer::open(const string& fnMat)
-- 
2.43.0


From 580ab5a2a2fb31f1ba6556d3b908ffb595ce50a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:56 +0000
Subject: [PATCH 22/24] fix: a byte 0xff in a chunked body is not the end of
 the file

---
 src/network/http/base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index f8304de..0caff05 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -249,7 +249,7 @@ public:
       fill();
     if (empty())
       return T::eof();
-    return buf[buf_pos];
+    return T::to_int_type(buf[buf_pos]);
   }
 
 private:
-- 
2.43.0


From 0c72a6a6ba2b8e100d2c54618f8d6e90d0080571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:56 +0000
Subject: [PATCH 23/24] fix: a body of content length 0 is empty

---
 src/network/http/base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index 0caff05..ce7c130 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -350,7 +350,7 @@ public:
 
   int underflow() {
     if (buf == T::eof()) {
-      if (!sock)
+      if (!sock || rest <= 0)
         return T::eof();
       buf = sock->getc();
       if (--rest == 0)
-- 
2.43.0


From e0b7661d9a3595de55c21a7c1e03a5bef1e8f734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:11 +0000
Subject: [PATCH 24/24] fix: a negative chunk size is malformed

---
 src/network/http/base.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index ce7c130..6bee551 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -321,6 +321,10 @@ private:
 
     istringstream iss(line);
     iss >> hex >> chunk_rest;
+    if (chunk_rest < 0) {
+      shutdown();
+      throw http_exception("invalid chunk size");
+    }
   }
 
   pfi::lang::shared_ptr<stream_socket> sock;
-- 
2.43.0

