From 750d0c36afb06948fbd1ddc96144b8f487ea58fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 01/34] fix: text parser must not accept signs or skip white
 spaces in numbers

strtoull() skips leading white spaces, including CR and LF, so that a number
field could be read past the end of the request line, and even past the end of
the received data.  It also accepts '+' and '-'.  errno was not cleared before
the call, so that the maximum value could be rejected by a stale ERANGE.
---
 src/memcache/memcache.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index 23ba03a..be225d0 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -53,7 +53,10 @@ inline UInt to_uint(const char* p, bool& result) {
     static_assert( sizeof(UInt) <= sizeof(unsigned long long),
                    "UInt is larger than unsigned long long" );
     result = false;
+    // strtoull skips white spaces including CR LF, and accepts signs.
+    if( *p < '0' || '9' < *p ) return 0;
     char* end;
+    errno = 0;
     unsigned long long i = strtoull(p, &end, 10);
     if( i == 0 && p == end ) return 0;
     if( i == std::numeric_limits<unsigned long long>::max() &&
-- 
2.43.0


From 1a11e068d11bdb62972c96be20228b9a24933605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 02/34] fix: binary Flush with expiration 0 must flush
 immediately

---
 src/memcache/memcache.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index be225d0..109bfc5 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -905,8 +905,11 @@ void binary_request::parse() noexcept {
         if( extras_len == 4 ) { // yrmcds extension
             m_exptime = binary_exptime(p_extra);
         } else {
-            m_exptime = g_current_time.load(relaxed);
+            m_exptime = 0;
         }
+        // no delay means flush immediately.
+        if( m_exptime == 0 )
+            m_exptime = g_current_time.load(relaxed);
         break;
     case binary_command::Append:
     case binary_command::AppendQ:
-- 
2.43.0


From 3fed8488d924bf6ea1ba5dd82d6c274bfa855909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 03/34] fix: lock-and-get must not revive expired objects

---
 src/memcache/sockets.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 5967188..86e54d7 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -190,6 +190,8 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                     r.error( binary_status::Locked );
                     return true;
                 }
+                // locked objects never expire; test this before locking.
+                if( obj.expired() ) return false;
                 obj.lock();
                 add_lock(k);
             }
-- 
2.43.0


From 40bad5579fe04fa73c0af58d7f728334a128c56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 04/34] fix: LaGKQ must report NotFound as LaGQ does

---
 src/memcache/sockets.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 86e54d7..c0ddb06 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -219,7 +219,8 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
         std::tie(p, len) = cmd.key();
         if( ! m_hash.apply(cybozu::hash_key(p, len), h, c) ) {
             g_stats.get_misses.fetch_add(1, relaxed);
-            if( ! cmd.quiet() || cmd.command() == binary_command::LaGQ )
+            if( ! cmd.quiet() || cmd.command() == binary_command::LaGQ ||
+                cmd.command() == binary_command::LaGKQ )
                 r.error( binary_status::NotFound );
         } else {
             g_stats.get_hits.fetch_add(1, relaxed);
-- 
2.43.0


From d451648a1841348939ff5393e33a526bb69548db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 05/34] fix: deleting an expired object must report not found

---
 src/memcache/sockets.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index c0ddb06..5db7699 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -397,6 +397,11 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 r.error( binary_status::Locked );
                 return false;
             }
+            if( obj.expired() ) {
+                if( ! cmd.quiet() )
+                    r.error( binary_status::NotFound );
+                return false;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
@@ -824,6 +829,11 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
                     r.locked();
                 return false;
             }
+            if( obj.expired() ) {
+                if( ! cmd.no_reply() )
+                    r.not_found();
+                return false;
+            }
             if( obj.locked_by_self() )
                 remove_lock(k);
             if( ! cmd.no_reply() )
-- 
2.43.0


From 7cb838fd3d2230d4bd7214b741cb43a220ba0a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:21 +0000
Subject: [PATCH 06/34] fix: binary increment/decrement must treat expired
 objects as absent

---
 src/memcache/object.cpp  |  7 +++++++
 src/memcache/object.hpp  |  1 +
 src/memcache/sockets.cpp | 24 ++++++++++++++++++++++--
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index cd57921..56a401e 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -80,6 +80,13 @@ void object::set(const char* p, std::size_t len,
     m_length = len;
 }
 
+void object::set(std::uint64_t initial, std::time_t exptime) {
+    char s_value[24]; // uint64 can be as large as 20 byte decimal string.
+    int len = ::snprintf(s_value, sizeof(s_value),
+                         "%llu", (unsigned long long)initial);
+    set(s_value, (std::size_t)len, 0, exptime);
+}
+
 void object::append(const char* p, std::size_t len) {
     ++ m_cas;
     m_gc_old = 0;
diff --git a/src/memcache/object.hpp b/src/memcache/object.hpp
index a17cc41..abe5bfc 100644
--- a/src/memcache/object.hpp
+++ b/src/memcache/object.hpp
@@ -70,6 +70,7 @@ public:
 
     void set(const char* p, std::size_t len,
              std::uint32_t flags_, std::time_t exptime);
+    void set(std::uint64_t initial, std::time_t exptime);
     void append(const char* p, std::size_t len);
     void prepend(const char* p, std::size_t len);
     std::uint64_t incr(std::uint64_t n);
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 5db7699..67b5972 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -427,7 +427,17 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 r.error( binary_status::Locked );
                 return true;
             }
-            if( obj.expired() ) return false;
+            if( obj.expired() ) {
+                // as if the object did not exist.
+                if( cmd.exptime() == mc::binary_request::EXPTIME_NONE )
+                    return false;
+                obj.set(cmd.initial(), cmd.exptime());
+                if( ! cmd.quiet() )
+                    r.incdec( cmd.initial(), obj.cas_unique() );
+                if( ! m_slaves.empty() )
+                    repl_object(m_slaves, k, obj);
+                return true;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
@@ -465,7 +475,17 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 r.error( binary_status::Locked );
                 return true;
             }
-            if( obj.expired() ) return false;
+            if( obj.expired() ) {
+                // as if the object did not exist.
+                if( cmd.exptime() == mc::binary_request::EXPTIME_NONE )
+                    return false;
+                obj.set(cmd.initial(), cmd.exptime());
+                if( ! cmd.quiet() )
+                    r.incdec( cmd.initial(), obj.cas_unique() );
+                if( ! m_slaves.empty() )
+                    repl_object(m_slaves, k, obj);
+                return true;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
-- 
2.43.0


From 39d077024ceb30539c56eb482f91b57fd993a973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:45 +0000
Subject: [PATCH 07/34] fix: lock contexts must be unique to connections, not
 descriptors

---
 src/memcache/object.cpp  |  2 +-
 src/memcache/object.hpp  | 15 +++++++++------
 src/memcache/sockets.cpp | 14 ++++++++++----
 src/memcache/sockets.hpp |  3 +++
 4 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index 56a401e..cb3c512 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -24,7 +24,7 @@ std::uint64_t to_uint64(const char* p, std::size_t len) {
 
 namespace yrmcds { namespace memcache {
 
-thread_local int g_context = -1;
+thread_local std::uint64_t g_context = 0;
 
 file_flusher::~file_flusher() {
     if( m_fd == -1 ) return;
diff --git a/src/memcache/object.hpp b/src/memcache/object.hpp
index abe5bfc..8442538 100644
--- a/src/memcache/object.hpp
+++ b/src/memcache/object.hpp
@@ -25,8 +25,11 @@ namespace yrmcds { namespace memcache {
 
 // Context for object locking.
 //
-// The context is in fact the file descriptor of a client connection.
-extern thread_local int g_context;
+// The context is a number unique to each client connection.
+// File descriptors cannot be used as they are reused by new connections
+// possibly before the locks of the closed connection are released.
+// 0 is not a valid context.
+extern thread_local std::uint64_t g_context;
 
 
 // Purge temporary file contents from the page cache at dtor.
@@ -146,17 +149,17 @@ public:
             throw std::logic_error(os.str());
         }
         m_unlocker = std::this_thread::get_id();
-        m_lock = -1;
+        m_lock = 0;
     }
 
     // Return `true` if this object is locked.
     bool locked() const noexcept {
-        return m_lock != -1;
+        return m_lock != 0;
     }
 
     // Return `true` if this object is locked by the current context.
     bool locked_by_self() const noexcept {
-        return m_lock == g_context;
+        return locked() && m_lock == g_context;
     }
 
     // Return `true` if this object is locked by another context.
@@ -172,7 +175,7 @@ private:
     std::time_t m_exptime;
     std::uint64_t m_cas = 1;
     mutable unsigned int m_gc_old = 0;
-    int m_lock = -1;
+    std::uint64_t m_lock = 0;
     std::thread::id m_unlocker;
 };
 
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 67b5972..2d6e1c7 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -5,7 +5,9 @@
 
 #include <cybozu/util.hpp>
 
+#include <atomic>
 #include <cstddef>
+#include <cstdint>
 #include <cstring>
 #include <sys/socket.h>
 #include <sys/types.h>
@@ -22,6 +24,12 @@ const char NOT_LOCKED[] = "CLIENT_ERROR object is not locked or not found\x0d\x0
 
 const std::memory_order relaxed = std::memory_order_relaxed;
 
+// Return a new context for object locking.
+std::uint64_t next_context() {
+    static std::atomic<std::uint64_t> last{0};
+    return ++ last;
+}
+
 } // anonymous namespace
 
 namespace yrmcds { namespace memcache {
@@ -34,6 +42,7 @@ memcache_socket::memcache_socket(int fd,
                                  const std::vector<repl_socket*>& slaves)
     : cybozu::tcp_socket(fd),
       m_busy(false),
+      m_context(next_context()),
       m_finder(finder),
       m_hash(hash),
       m_pending(0),
@@ -44,10 +53,7 @@ memcache_socket::memcache_socket(int fd,
 
     m_recvjob = [this](cybozu::dynbuf& buf) {
         // set lock context for objects.
-        with_fd([](int fd) -> bool {
-            g_context = fd;
-            return true;
-        });
+        g_context = m_context;
 
         // load pending data
         if( ! m_pending.empty() ) {
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index f591074..8af0206 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -15,6 +15,8 @@
 #include <cybozu/util.hpp>
 #include <cybozu/worker.hpp>
 
+#include <atomic>
+#include <cstdint>
 #include <functional>
 #include <vector>
 
@@ -69,6 +71,7 @@ public:
 private:
     alignas(CACHELINE_SIZE)
     std::atomic<bool> m_busy;
+    const std::uint64_t m_context;
     const std::function<cybozu::worker*()>& m_finder;
     cybozu::hash_map<object>& m_hash;
     cybozu::dynbuf m_pending;
-- 
2.43.0


From a001e0bcec963c19045404927843e2cf4c9b05ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:45 +0000
Subject: [PATCH 08/34] fix: do not execute commands that follow quit

---
 src/memcache/sockets.cpp | 9 ++++++++-
 src/memcache/sockets.hpp | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 2d6e1c7..8d867be 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -73,7 +73,7 @@ memcache_socket::memcache_socket(int fd,
 
             const char* head = buf.data();
             std::size_t len = buf.size();
-            while( len > 0 ) {
+            while( len > 0 && ! m_quit ) {
                 if( mc::is_binary_request(head) ) {
                     mc::binary_request parser(head, len);
                     std::size_t c = parser.length();
@@ -90,6 +90,11 @@ memcache_socket::memcache_socket(int fd,
                     cmd_text(parser);
                 }
             }
+            if( m_quit ) {
+                // ignore everything after quit.
+                buf.reset();
+                break;
+            }
             if( len > MAX_REQUEST_LENGTH ) {
                 cybozu::logger::warning() << "denied too large request of "
                                           << len << " bytes.";
@@ -577,6 +582,7 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
         break;
     case binary_command::Quit:
     case binary_command::QuitQ:
+        m_quit = true;
         unlock_all();
         if( cmd.quiet() ) {
             invalidate_and_close();
@@ -974,6 +980,7 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
             r.ok();
         break;
     case text_command::QUIT:
+        m_quit = true;
         unlock_all();
         invalidate_and_close();
         break;
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index 8af0206..8ce6d57 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -72,6 +72,7 @@ private:
     alignas(CACHELINE_SIZE)
     std::atomic<bool> m_busy;
     const std::uint64_t m_context;
+    bool m_quit = false; // accessed by at most one worker thread.
     const std::function<cybozu::worker*()>& m_finder;
     cybozu::hash_map<object>& m_hash;
     cybozu::dynbuf m_pending;
-- 
2.43.0


From ddad048f6687ae89af2e2bedb5efc648ec140ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:45 +0000
Subject: [PATCH 09/34] fix: receive errors other than ECONNRESET must not
 terminate the server

---
 cybozu/tcp.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cybozu/tcp.hpp b/cybozu/tcp.hpp
index d6d099d..7158072 100644
--- a/cybozu/tcp.hpp
+++ b/cybozu/tcp.hpp
@@ -194,7 +194,8 @@ public:
                 n = ::recv(fd, p, max_recvsize, 0);
             } while( n == -1 && errno == EINTR );
 
-            return (n != -1) || (errno != ECONNRESET);
+            // errors such as ETIMEDOUT terminate the connection, too.
+            return (n != -1) || errno == EAGAIN || errno == EWOULDBLOCK;
         });
 
         if( ! ret ) {
@@ -205,11 +206,8 @@ public:
             return recv_result::NONE;
         }
 
-        if( n == -1 ) {
-            if( errno == EAGAIN || errno == EWOULDBLOCK )
-                return recv_result::AGAIN;
-            throw_unix_error(errno, "recv");
-        }
+        if( n == -1 )
+            return recv_result::AGAIN;
 
         buf.consume(n);
         return recv_result::OK;
-- 
2.43.0


From ac9f7114ffaae344657375b7479e74d74cdd7efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 10/34] fix: responses to unknown binary requests must carry
 the request's opcode

---
 src/memcache/memcache.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/memcache/memcache.hpp b/src/memcache/memcache.hpp
index 37b6464..c61f2fb 100644
--- a/src/memcache/memcache.hpp
+++ b/src/memcache/memcache.hpp
@@ -311,6 +311,9 @@ public:
     // Return the command type.
     binary_command command() const noexcept { return m_command; }
 
+    // Return the opcode byte as received.
+    char opcode() const noexcept { return m_p[1]; }
+
     // The command is quiet or not.
     bool quiet() const noexcept { return m_quiet; }
 
@@ -398,7 +401,7 @@ private:
                      std::uint32_t data_len, std::uint64_t cas,
                      binary_status status = binary_status::OK) const noexcept {
         buf[0] = '\x81';
-        buf[1] = (char)m_request.command();
+        buf[1] = m_request.opcode();
         cybozu::hton(key_len, buf+2);
         buf[4] = (char)extras_len;
         buf[5] = '\x00';
-- 
2.43.0


From d82e6f8ad555d73fa7e7a3f3b773bfdf8fa204f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 11/34] fix: receive errors on a replication socket must not
 terminate the master

---
 src/memcache/sockets.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 8d867be..550aa1f 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -1009,7 +1009,10 @@ bool repl_socket::on_readable(int fd) {
                 cybozu::logger::info() << "The connection to the slave (" << addr << ") has been reset.";
                 return invalidate();
             }
-            cybozu::throw_unix_error(errno, "recv");
+            // e.g. ETIMEDOUT.  Drop only this slave.
+            cybozu::logger::warning() << "Failed to receive from a slave: errno="
+                                      << errno;
+            return invalidate();
         }
         if( n == 0 ) {
             std::string addr = "unknown address";
-- 
2.43.0


From b0d8877aa9b9368992fba41d64ae21a43f726b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 12/34] fix: acquiring counter resources must not wrap around

---
 src/counter/object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/counter/object.hpp b/src/counter/object.hpp
index d877147..8091dd0 100644
--- a/src/counter/object.hpp
+++ b/src/counter/object.hpp
@@ -23,7 +23,7 @@ public:
     }
 
     bool acquire(std::uint32_t resources, std::uint32_t maximum) noexcept {
-        if( m_consumption + resources > maximum )
+        if( m_consumption > maximum || resources > maximum - m_consumption )
             return false;
 
         std::time_t t = now();
-- 
2.43.0


From 21b1527ce43e28434872a814e012a8354ca108b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 13/34] fix: releasing zero resources is never more than what
 is acquired

---
 src/counter/sockets.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/counter/sockets.cpp b/src/counter/sockets.cpp
index 675a653..b48d582 100644
--- a/src/counter/sockets.cpp
+++ b/src/counter/sockets.cpp
@@ -211,7 +211,7 @@ void counter_socket::on_acquire(const cybozu::hash_key& k, std::uint32_t resourc
 bool counter_socket::on_release(const cybozu::hash_key& k, std::uint32_t resources) {
     auto it = m_acquired_resources.find(&k);
     if( it == m_acquired_resources.end() )
-        return false;
+        return resources == 0;
     if( it->second < resources )
         return false;
     if( it->second == resources ) {
-- 
2.43.0


From 8576a15743e65cb14ccf5d9fca97320b48970ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 14/34] fix: prepend must erase the old value when secure_erase
 is enabled

---
 src/memcache/object.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index cb3c512..346bb1f 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -123,14 +123,14 @@ void object::prepend(const char* p, std::size_t len) {
                 m_file->write(m_data.data(), m_length);
             m_data.reset();
         } else {
-            cybozu::dynbuf buf(new_size);
+            cybozu::dynbuf buf(new_size, g_config.secure_erase());
             buf.append(p, len);
             m_file->read_contents(buf);
             m_file->clear();
             m_file->write(buf.data(), new_size);
         }
     } else {
-        cybozu::dynbuf buf(new_size);
+        cybozu::dynbuf buf(new_size, g_config.secure_erase());
         buf.append(p, len);
         buf.append(m_data.data(), m_length);
         m_data.swap(buf);
-- 
2.43.0


From 6b7cf0651f3a060e9d9aea16b9b077792cfe8c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 15/34] fix: empty objects must be replicated with flags and
 expiration

---
 src/memcache/memcache.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index 109bfc5..e4fc3eb 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -871,10 +871,14 @@ void binary_request::parse() noexcept {
     case binary_command::ReplaceQ:
     case binary_command::RaU:
     case binary_command::RaUQ:
-        if( extras_len != 8 || key_len == 0 || data_len == 0 )
+        if( extras_len != 8 || key_len == 0 )
             return; // invalid
         cybozu::ntoh(p_extra, m_flags);
         m_exptime = binary_exptime(p_extra + 4);
+        // Clients must not send empty data, but masters replicate
+        // empty objects this way.  Keep flags and exptime for them.
+        if( data_len == 0 )
+            return; // invalid
         break;
     case binary_command::Delete:
     case binary_command::DeleteQ:
-- 
2.43.0


From 5e107a290be1eeab6bcded1f64f398af7af67d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 16/34] fix: text cas must refuse oversized values as set does

---
 src/memcache/sockets.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 550aa1f..4e76d9d 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -750,6 +750,14 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
         break;
     case text_command::CAS:
         std::tie(p, len) = cmd.key();
+        if( len > MAX_KEY_LENGTH ) {
+            r.error();
+            return;
+        }
+        if( std::get<1>(cmd.data()) > g_config.max_data_size() ) {
+            r.error();
+            return;
+        }
         h = [this,&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
             if( obj.locked_by_other() ) {
                 if( ! cmd.no_reply() )
-- 
2.43.0


From 30a33aec002a47fc90d799f3da7d7645e891e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 17/34] fix: append/prepend must not grow objects beyond
 max_data_size

---
 src/memcache/sockets.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 4e76d9d..371061c 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -363,6 +363,10 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( (obj.size() + len2) > g_config.max_data_size() ) {
+                r.error( binary_status::TooLargeValue );
+                return true;
+            }
             obj.append(p2, len2);
             if( ! cmd.quiet() )
                 r.set( obj.cas_unique() );
@@ -390,6 +394,10 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( (obj.size() + len2) > g_config.max_data_size() ) {
+                r.error( binary_status::TooLargeValue );
+                return true;
+            }
             obj.prepend(p2, len2);
             if( ! cmd.quiet() )
                 r.set( obj.cas_unique() );
@@ -716,6 +724,10 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( (obj.size() + len2) > g_config.max_data_size() ) {
+                r.error();
+                return true;
+            }
             obj.append(p2, len2);
             if( ! cmd.no_reply() )
                 r.stored();
@@ -738,6 +750,10 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( (obj.size() + len2) > g_config.max_data_size() ) {
+                r.error();
+                return true;
+            }
             obj.prepend(p2, len2);
             if( ! cmd.no_reply() )
                 r.stored();
-- 
2.43.0


From 558c0e696ecf63bc8b3a3d2950e9859deff1e409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 18/34] fix: worker::stop must not hang when a job is running

---
 cybozu/worker.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/cybozu/worker.hpp b/cybozu/worker.hpp
index 797a04f..c97ad78 100644
--- a/cybozu/worker.hpp
+++ b/cybozu/worker.hpp
@@ -65,9 +65,9 @@ public:
     // Stop this worker thread.
     //
     // The thread will be joined automatically.
+    // If a job is running or posted, it will be finished before that.
     void stop() {
-        m_exit = true;
-        m_running.store(true, std::memory_order_release);
+        m_exit.store(true, std::memory_order_release);
         notify();
         m_thread.join();
     }
@@ -76,24 +76,27 @@ public:
     void run() {
         while ( true ) {
             // wait a new job or an exit signal
-            m_running.store(false, std::memory_order_release);
             std::uint64_t i;
             ssize_t n = ::read(m_event, &i, sizeof(i));
             if( n == -1 )
                 throw_unix_error(errno, "read(eventfd)");
-            while( ! m_running.load(std::memory_order_acquire) );
+            while( ! m_running.load(std::memory_order_acquire) &&
+                   ! m_exit.load(std::memory_order_acquire) );
 
-            if( m_exit ) return;
+            if( m_running.load(std::memory_order_acquire) ) {
+                m_job(m_buffer);
+                m_buffer.reset();
+                m_running.store(false, std::memory_order_release);
+            }
 
-            m_job(m_buffer);
-            m_buffer.reset();
+            if( m_exit.load(std::memory_order_acquire) ) return;
         }
     }
 
 private:
     alignas(CACHELINE_SIZE)
     std::atomic<bool> m_running;
-    bool m_exit;
+    std::atomic<bool> m_exit;
     const int m_event;
     dynbuf m_buffer;
     job m_job;
-- 
2.43.0


From b583fa0e560eb3f66eff5ff64a2781e768eaa09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 19/34] fix: completion of flush_all must not cancel a newer
 flush_all

---
 src/memcache/gc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/memcache/gc.cpp b/src/memcache/gc.cpp
index 31fcbc3..a4de2f9 100644
--- a/src/memcache/gc.cpp
+++ b/src/memcache/gc.cpp
@@ -143,8 +143,9 @@ void gc_thread::gc() {
         }
     }
 
+    // Clear the request just completed, but not a newer one.
     if( flush )
-        g_stats.flush_time.store(0);
+        g_stats.flush_time.compare_exchange_strong(t, 0);
 }
 
 
-- 
2.43.0


From 4281c949fad16c13b32a037e5ff2117c2c483064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:06 +0000
Subject: [PATCH 20/34] fix: receive errors from the master must not terminate
 the slave

---
 src/memcache/sockets.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 371061c..a5f4339 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -1080,12 +1080,11 @@ bool repl_client_socket::on_readable(int fd) {
                 break;
             if( errno == EINTR )
                 continue;
-            if( errno == ECONNRESET ) {
-                cybozu::logger::warning() << "The connection to master has been reset.";
-                m_reactor->quit();
-                return invalidate();
-            }
-            cybozu::throw_unix_error(errno, "recv");
+            // ECONNRESET, ETIMEDOUT, and so on.
+            cybozu::logger::warning() << "The connection to master has been reset: errno="
+                                      << errno;
+            m_reactor->quit();
+            return invalidate();
         }
         if( n == 0 ) {
             cybozu::logger::info() << "The connection to master has been closed.";
-- 
2.43.0


From d49f73408c515d85b502d85bebc725566713a367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:57 +0000
Subject: [PATCH 21/34] fix: refused noreply commands must not be answered

---
 src/memcache/sockets.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index a5f4339..b9c6dc2 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -667,11 +667,13 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
     case text_command::REPLACE:
         std::tie(p, len) = cmd.key();
         if( len > MAX_KEY_LENGTH ) {
-            r.error();
+            if( ! cmd.no_reply() )
+                r.error();
             return;
         }
         if( std::get<1>(cmd.data()) > g_config.max_data_size() ) {
-            r.error();
+            if( ! cmd.no_reply() )
+                r.error();
             return;
         }
         h = [this,&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
@@ -725,7 +727,8 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
             if( (obj.size() + len2) > g_config.max_data_size() ) {
-                r.error();
+                if( ! cmd.no_reply() )
+                    r.error();
                 return true;
             }
             obj.append(p2, len2);
@@ -751,7 +754,8 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
             if( (obj.size() + len2) > g_config.max_data_size() ) {
-                r.error();
+                if( ! cmd.no_reply() )
+                    r.error();
                 return true;
             }
             obj.prepend(p2, len2);
@@ -767,11 +771,13 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
     case text_command::CAS:
         std::tie(p, len) = cmd.key();
         if( len > MAX_KEY_LENGTH ) {
-            r.error();
+            if( ! cmd.no_reply() )
+                r.error();
             return;
         }
         if( std::get<1>(cmd.data()) > g_config.max_data_size() ) {
-            r.error();
+            if( ! cmd.no_reply() )
+                r.error();
             return;
         }
         h = [this,&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
-- 
2.43.0


From 7ea1e891b6094efc8f4ec996f642f15fe4208775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:12 +0000
Subject: [PATCH 22/34] fix: numbers in configuration files must not have
 trailing garbage or wrap

---
 cybozu/config_parser.hpp | 20 ++++++++++++++++++--
 src/config.cpp           |  5 ++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/cybozu/config_parser.hpp b/cybozu/config_parser.hpp
index 30596cf..ba1d265 100644
--- a/cybozu/config_parser.hpp
+++ b/cybozu/config_parser.hpp
@@ -96,7 +96,12 @@ public:
     // @return An integer converted from the associated value.
     int get_as_int(const std::string& key) const {
         try {
-            return std::stoi(get(key));
+            const std::string& s = get(key);
+            std::size_t pos;
+            int n = std::stoi(s, &pos);
+            if( ! only_spaces(s, pos) )
+                throw illegal_value(key);
+            return n;
         } catch(const std::invalid_argument& e) {
             throw illegal_value(key);
         } catch(const std::out_of_range& e) {
@@ -113,7 +118,13 @@ public:
     // @return An uint64_t integer converted from the associated value.
     std::uint64_t get_as_uint64(const std::string& key) const {
         try {
-            return std::stoull(get(key));
+            // std::stoull accepts negative numbers.
+            const std::string& s = get(key);
+            std::size_t pos;
+            std::uint64_t n = std::stoull(s, &pos);
+            if( s.find('-') != std::string::npos || ! only_spaces(s, pos) )
+                throw illegal_value(key);
+            return n;
         } catch(const std::invalid_argument& e) {
             throw illegal_value(key);
         } catch(const std::out_of_range& e) {
@@ -134,6 +145,11 @@ public:
         if( s == "false" ) return false;
         throw illegal_value(key);
     }
+
+    // Return `true` if there are nothing but white spaces in `s[pos:]`.
+    static bool only_spaces(const std::string& s, std::size_t pos) {
+        return s.find_first_not_of(" \f\n\r\t\v", pos) == std::string::npos;
+    }
 };
 
 } // namespace cybozu
diff --git a/src/config.cpp b/src/config.cpp
index 2b4c12f..f6f6a06 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -61,7 +61,10 @@ inline std::size_t parse_unit(std::string& s, const char* cmd) {
     }
     if( base != 1 )
         s.pop_back();
-    int n = std::stoi( s );
+    std::size_t pos;
+    int n = std::stoi( s, &pos );
+    if( ! cybozu::config_parser::only_spaces(s, pos) )
+        throw yrmcds::config::bad_config(cmd + std::string(" is not a number"));
     if( n < 1 )
         throw yrmcds::config::bad_config(cmd + std::string(" must be > 0"));
     return base * static_cast<std::size_t>(n);
-- 
2.43.0


From 63c17b689a79c245b5852793b21fd96c5472052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 23/34] fix: too large requests must be denied however they are
 segmented

---
 src/memcache/sockets.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index b9c6dc2..337bbb3 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -77,14 +77,14 @@ memcache_socket::memcache_socket(int fd,
                 if( mc::is_binary_request(head) ) {
                     mc::binary_request parser(head, len);
                     std::size_t c = parser.length();
-                    if( c == 0 ) break;
+                    if( c == 0 || c > MAX_REQUEST_LENGTH ) break;
                     head += c;
                     len -= c;
                     cmd_bin(parser);
                 } else {
                     mc::text_request parser(head, len);
                     std::size_t c = parser.length();
-                    if( c == 0 ) break;
+                    if( c == 0 || c > MAX_REQUEST_LENGTH ) break;
                     head += c;
                     len -= c;
                     cmd_text(parser);
-- 
2.43.0


From a84c4ea25b2221abfc3a8548d647e0674802881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:36 +0000
Subject: [PATCH 24/34] fix: erase the temporary copy of a number made by
 incr/decr

to_uint64() copied the value into a std::string; for values longer than
the small string buffer that heap block was released without being
erased even though secure_erase was enabled.
---
 src/memcache/object.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index 346bb1f..c64033b 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -4,18 +4,29 @@
 #include "object.hpp"
 #include "stats.hpp"
 
+#include <cerrno>
 #include <cstdint>
+#include <cstdlib>
 #include <fcntl.h>
 #include <limits>
+#include <stdexcept>
 #include <stdio.h>
-#include <string>
 #include <unistd.h>
 
 namespace {
 
 std::uint64_t to_uint64(const char* p, std::size_t len) {
-    unsigned long long ull = std::stoull( std::string(p, len) );
-    if( ull > std::numeric_limits<std::uint64_t>::max() )
+    // This copy holds object data, hence must be erased, too.
+    cybozu::dynbuf buf(len + 1, yrmcds::g_config.secure_erase());
+    if( len > 0 )
+        buf.append(p, len);
+    buf.append("", 1);
+    char* end;
+    errno = 0;
+    unsigned long long ull = std::strtoull(buf.data(), &end, 10);
+    if( end == buf.data() )
+        throw std::invalid_argument("not a number");
+    if( errno == ERANGE || ull > std::numeric_limits<std::uint64_t>::max() )
         throw std::out_of_range("out of range for uint64");
     return static_cast<std::uint64_t>(ull);
 }
-- 
2.43.0


From 23690224717767d0458f4179d9ad98a13f01597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:07 +0000
Subject: [PATCH 25/34] fix: counter error replies must carry the opcode of the
 request

---
 src/counter/counter.cpp | 5 +++--
 src/counter/counter.hpp | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/counter/counter.cpp b/src/counter/counter.cpp
index 3b84948..6cd4cc7 100644
--- a/src/counter/counter.cpp
+++ b/src/counter/counter.cpp
@@ -52,7 +52,8 @@ void request::parse(const char* p, std::size_t len) noexcept {
     cybozu::ntoh(p + 4, body_length);
     if( len < HEADER_SIZE + body_length ) return;  // incomplete
 
-    m_command = (counter::command)*(const uint8_t*)(p + 1);
+    m_opcode = *(const uint8_t*)(p + 1);
+    m_command = (counter::command)m_opcode;
     m_flags = *(const uint8_t*)(p + 2);
     m_body_length = body_length;
     m_opaque = p + 8;
@@ -120,7 +121,7 @@ void request::parse(const char* p, std::size_t len) noexcept {
 inline void response::fill_header(char* header, counter::status status,
                                   std::uint32_t body_length) {
     header[0] = (char)RESPONSE_MAGIC;
-    header[1] = (char)m_request.command();
+    header[1] = (char)m_request.opcode();
     header[2] = (char)status;
     header[3] = 0;
     cybozu::hton(body_length, header + 4);
diff --git a/src/counter/counter.hpp b/src/counter/counter.hpp
index a2d3e95..91d0a0f 100644
--- a/src/counter/counter.hpp
+++ b/src/counter/counter.hpp
@@ -49,6 +49,7 @@ public:
     }
 
     std::size_t length() const noexcept { return m_request_length; }
+    std::uint8_t opcode() const noexcept { return m_opcode; }
     counter::command command() const noexcept { return m_command; }
     std::uint8_t flags() const noexcept { return m_flags; }
     std::uint32_t body_length() const noexcept { return m_body_length; }
@@ -62,6 +63,7 @@ private:
     void parse(const char* p, std::size_t len) noexcept;
 
     std::size_t m_request_length = 0;
+    std::uint8_t m_opcode = 0;
     counter::command m_command = counter::command::Unknown;
     std::uint8_t m_flags = 0;
     std::uint32_t m_body_length = 0;
-- 
2.43.0


From 60ed826aeb0427c24762b2c8693f600be468c321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 26/34] fix: close sockets whose peer has closed the connection

---
 cybozu/tcp.hpp           | 17 +++++++++++++++++
 src/counter/sockets.cpp  |  3 +++
 src/memcache/sockets.cpp |  3 +++
 3 files changed, 23 insertions(+)

diff --git a/cybozu/tcp.hpp b/cybozu/tcp.hpp
index 7158072..281b839 100644
--- a/cybozu/tcp.hpp
+++ b/cybozu/tcp.hpp
@@ -171,6 +171,23 @@ public:
         });
     }
 
+    // Close the socket after all pending data are sent.
+    //
+    // Unlike <send_close>, this never blocks.
+    //
+    // @return `true` if this socket is still valid, `false` otherwise.
+    bool close_after_send() {
+        return with_fd([=](int) -> bool {
+            lock_guard g(m_lock);
+            m_shutdown = true;
+            if( empty() )
+                return false;
+            g.unlock();
+            m_cond_write.notify_all();
+            return true;
+        });
+    }
+
     enum class recv_result {
         OK,    // Received some data.
         AGAIN, // No data was available.
diff --git a/src/counter/sockets.cpp b/src/counter/sockets.cpp
index b48d582..9290ce5 100644
--- a/src/counter/sockets.cpp
+++ b/src/counter/sockets.cpp
@@ -37,6 +37,9 @@ counter_socket::counter_socket(int fd,
             if( res == recv_result::RESET || res == recv_result::NONE ) {
                 buf.reset();
                 release_all();
+                // the peer sends no more requests; do not leave the socket.
+                if( res == recv_result::NONE )
+                    close_after_send();
                 break;
             }
 
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 337bbb3..dab8a2c 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -68,6 +68,9 @@ memcache_socket::memcache_socket(int fd,
             if( res == recv_result::RESET || res == recv_result::NONE ) {
                 buf.reset();
                 unlock_all();
+                // the peer sends no more requests; do not leave the socket.
+                if( res == recv_result::NONE )
+                    close_after_send();
                 break;
             }
 
-- 
2.43.0


From 19522c5083ee268f3597c9fecc1482bbbb7d199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:14 +0000
Subject: [PATCH 27/34] fix: expiration times beyond 32 bits must not wrap in
 replication

---
 src/memcache/object.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/memcache/object.hpp b/src/memcache/object.hpp
index 8442538..c81331e 100644
--- a/src/memcache/object.hpp
+++ b/src/memcache/object.hpp
@@ -11,6 +11,7 @@
 #include <cybozu/logger.hpp>
 #include <cybozu/util.hpp>
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <ctime>
@@ -104,8 +105,10 @@ public:
         return m_cas;
     }
 
+    // The expiration time for the binary protocol, where 0xffffffff is
+    // reserved.  Times too far to be represented are not wrapped.
     std::uint32_t exptime() const noexcept {
-        return (std::uint32_t)m_exptime;
+        return (std::uint32_t)std::min<std::int64_t>(m_exptime, 0xfffffffeL);
     }
 
     bool expired() const noexcept {
-- 
2.43.0


From 506c487dd890251776246c921063c4c7f06f036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 28/34] fix: a slave whose connection to the master ends must
 leave slave mode before collecting it

---
 cybozu/reactor.cpp       | 1 +
 src/memcache/sockets.hpp | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/cybozu/reactor.cpp b/cybozu/reactor.cpp
index 2ab8f7d..8e99082 100644
--- a/cybozu/reactor.cpp
+++ b/cybozu/reactor.cpp
@@ -74,6 +74,7 @@ void reactor::run(std::function<void(reactor& r)> callback, int interval) {
     m_running = true;
     while( m_running ) {
         poll();
+        if( ! m_running ) break;
         auto now = crn::steady_clock::now();
         auto diff = crn::duration_cast<crn::milliseconds>(now - last).count();
         if( diff > milli_interval ) {
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index 8ce6d57..d6ac2f4 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -157,6 +157,11 @@ private:
     cybozu::dynbuf m_recvbuf;
 
     virtual bool on_readable(int) override final;
+    virtual void on_invalidate(int fd) override final {
+        cybozu::tcp_socket::on_invalidate(fd);
+        // whatever the reason is, this node cannot continue as a slave.
+        m_reactor->quit();
+    }
     virtual bool on_hangup(int) override final {
         cybozu::logger::warning() << "The connection to master has hung up.";
         m_reactor->quit();
-- 
2.43.0


From 917cd43c1434790232dc80cca20bed11847181c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 29/34] fix: a joining slave must not be sent updates before
 its initial replication

---
 src/memcache/handler.cpp     |  2 ++
 src/memcache/replication.cpp | 18 ++++++++++++------
 src/memcache/sockets.hpp     | 13 +++++++++++++
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/memcache/handler.cpp b/src/memcache/handler.cpp
index 509c07a..98e6048 100644
--- a/src/memcache/handler.cpp
+++ b/src/memcache/handler.cpp
@@ -128,6 +128,8 @@ void handler::on_master_interval() {
     }
 
     if( gc_ready(g_current_time.load(relaxed)) ) {
+        for( repl_socket* slave: m_new_slaves )
+            slave->set_ready();
         m_gc_thread = std::unique_ptr<gc_thread>(
             new gc_thread(m_hash, m_slaves, m_new_slaves));
         m_new_slaves.clear();
diff --git a/src/memcache/replication.cpp b/src/memcache/replication.cpp
index 2ec94d0..a387dcc 100644
--- a/src/memcache/replication.cpp
+++ b/src/memcache/replication.cpp
@@ -50,8 +50,10 @@ void repl_object(const std::vector<repl_socket*>& slaves,
         {key.data(), key.length()},
         {data.data(), data.size()}
     };
-    for( cybozu::tcp_socket* s: slaves )
-        s->sendv(iov, 4, flush);
+    for( repl_socket* s: slaves ) {
+        if( s->ready() )
+            s->sendv(iov, 4, flush);
+    }
 }
 
 void repl_touch(const std::vector<repl_socket*>& slaves,
@@ -65,8 +67,10 @@ void repl_touch(const std::vector<repl_socket*>& slaves,
         {extras, sizeof(extras)},
         {key.data(), key.length()}
     };
-    for( cybozu::tcp_socket* s: slaves )
-        s->sendv(iov, 3, true);
+    for( repl_socket* s: slaves ) {
+        if( s->ready() )
+            s->sendv(iov, 3, true);
+    }
 }
 
 void repl_delete(const std::vector<repl_socket*>& slaves,
@@ -77,8 +81,10 @@ void repl_delete(const std::vector<repl_socket*>& slaves,
         {header, sizeof(header)},
         {key.data(), key.length()}
     };
-    for( cybozu::tcp_socket* s: slaves )
-        s->sendv(iov, 2, false);
+    for( repl_socket* s: slaves ) {
+        if( s->ready() )
+            s->sendv(iov, 2, false);
+    }
 }
 
 std::size_t repl_recv(const char* p, std::size_t len,
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index d6ac2f4..e97fbf8 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -112,6 +112,18 @@ public:
         };
     }
 
+    // `true` once the initial replication for this slave has started.
+    // Until then, nothing must be sent to the slave, because those who
+    // do not know of it yet (workers and GC) would not tell it about the
+    // removal of what has been sent.
+    bool ready() const noexcept {
+        return m_ready.load(std::memory_order_relaxed);
+    }
+
+    void set_ready() noexcept {
+        m_ready.store(true, std::memory_order_relaxed);
+    }
+
     bool timed_out() const {
         std::time_t now = g_current_time.load(std::memory_order_relaxed);
         return m_last_heartbeat + g_config.slave_timeout() <= now;
@@ -141,6 +153,7 @@ private:
     std::vector<char> m_recvbuf;
     cybozu::worker::job m_sendjob;
     std::time_t m_last_heartbeat;
+    std::atomic<bool> m_ready{false};
 
     virtual bool on_readable(int) override final;
     virtual bool on_writable(int) override final;
-- 
2.43.0


From 6941cef31d1ab94411e36fe6dc53e435f636a33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:16 +0000
Subject: [PATCH 30/34] fix: network errors reported by accept must not end the
 server

---
 cybozu/tcp.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cybozu/tcp.cpp b/cybozu/tcp.cpp
index 0071325..fb97103 100644
--- a/cybozu/tcp.cpp
+++ b/cybozu/tcp.cpp
@@ -478,8 +478,16 @@ bool tcp_server_socket::on_readable(int fd) {
         if( s == -1 ) {
             if( errno == EINTR || errno == ECONNABORTED )
                 continue;
-            if( errno == EMFILE || errno == ENFILE ) {
-                logger::error() << "accept: Too many open files.";
+            // Linux passes errors pending on the new connection; see
+            // accept(2).  Such a connection is gone, others are waiting.
+            if( errno == ENETDOWN || errno == EPROTO || errno == ENOPROTOOPT ||
+                errno == EHOSTDOWN || errno == ENONET ||
+                errno == EHOSTUNREACH || errno == EOPNOTSUPP ||
+                errno == ENETUNREACH || errno == ETIMEDOUT || errno == EPERM )
+                continue;
+            if( errno == EMFILE || errno == ENFILE ||
+                errno == ENOBUFS || errno == ENOMEM ) {
+                logger::error() << "accept: Too many open files or no memory.";
                 m_reactor->add_readable(*this);
                 break;
             }
-- 
2.43.0


From dde559c6c13bdb48c4d909154761d0284096095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:15 +0000
Subject: [PATCH 31/34] Make the size of send buffers configurable for
 verification

---
 cybozu/tcp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cybozu/tcp.hpp b/cybozu/tcp.hpp
index 281b839..af66435 100644
--- a/cybozu/tcp.hpp
+++ b/cybozu/tcp.hpp
@@ -54,7 +54,11 @@ int tcp_connect(const char* node, std::uint16_t port, unsigned int timeout=10);
 //
 // Derived classes still need to implement <resource::on_readable>.
 class tcp_socket: public resource {
+#ifdef YRMCDS_VERIF_SENDBUF_SIZE // small buffers for verification
+    static const std::size_t  SENDBUF_SIZE = YRMCDS_VERIF_SENDBUF_SIZE;
+#else
     static const std::size_t  SENDBUF_SIZE = 1 << 20;
+#endif
 
 public:
     // Construct an already connected socket.
-- 
2.43.0


From 5e25d834a1b334fa9a06f11d66ef4d27cad28da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:40 +0000
Subject: [PATCH 32/34] fix: destructing a socket must not wait for a worker
 that waits for the reactor

The locks of a disconnected client are released when the reactor thread
destructs its socket.  If a worker holds the bucket while it waits for a
slow slave, only the reactor could let it proceed: the server hung.
---
 cybozu/hash_map.hpp      | 18 ++++++++++++++++++
 cybozu/reactor.hpp       | 14 ++++++++++++++
 src/memcache/sockets.cpp | 15 +++++++++++++++
 src/memcache/sockets.hpp |  1 +
 4 files changed, 48 insertions(+)

diff --git a/cybozu/hash_map.hpp b/cybozu/hash_map.hpp
index c51a763..d9784b7 100644
--- a/cybozu/hash_map.hpp
+++ b/cybozu/hash_map.hpp
@@ -177,6 +177,15 @@ public:
             return apply_nolock(key, h, c);
         }
 
+        // Non-blocking <apply> for an existing object.
+        // @return `false` if the bucket is in use, `true` otherwise.
+        bool try_apply(const hash_key& key, const handler& h) {
+            std::unique_lock<std::mutex> g(m_lock, std::try_to_lock);
+            if( ! g ) return false;
+            apply_nolock(key, h, nullptr);
+            return true;
+        }
+
         // Apply `pred` for each object.
         // @pred     Predicate function
         void foreach(const std::function<void(const hash_key&, T&)>& pred) {
@@ -307,6 +316,15 @@ public:
         return get_bucket(key).apply(key, h, c);
     }
 
+    // Handle an existing object without waiting for other threads.
+    // @key  The object's key.
+    // @h    A function to handle an existing object.
+    //
+    // @return `false` if the bucket is in use, `true` otherwise.
+    bool try_apply(const hash_key& key, const handler& h) {
+        return get_bucket(key).try_apply(key, h);
+    }
+
     // Apply `pred` for each object.
     // @pred     Predicate function
     void foreach(const std::function<void(const hash_key&, T&)>& pred) {
diff --git a/cybozu/reactor.hpp b/cybozu/reactor.hpp
index da353e3..73d45cf 100644
--- a/cybozu/reactor.hpp
+++ b/cybozu/reactor.hpp
@@ -122,6 +122,15 @@ public:
         return invalidate();
     }
 
+    // Called before the reactor destructs this resource.
+    //
+    // This method is called by the reactor thread after no other threads
+    // can access this resource.  It must not block.  If it returns `false`,
+    // the reactor will try to destruct this resource later again.
+    virtual bool prepare_destruction() {
+        return true;
+    }
+
     // Called when the reactor finds an error on this resource.
     //
     // This method is called when the reactor detects some error.
@@ -329,6 +338,11 @@ public:
     // Only the reactor thread can use this.
     void gc() {
         logger::debug() << "reactor: collected garbage resources.";
+        for( auto& res: m_garbage_copy ) {
+            // those that cannot be destructed now will be tried again.
+            if( ! res->prepare_destruction() )
+                m_garbage.emplace_back( std::move(res) );
+        }
         m_garbage_copy.clear();
     }
 
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index dab8a2c..c066f99 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -134,6 +134,21 @@ memcache_socket::~memcache_socket() {
     }
 }
 
+bool memcache_socket::prepare_destruction() {
+    // The reactor thread must not wait for a worker that holds a bucket,
+    // because the worker may wait for the reactor to send data to slaves.
+    while( ! m_locks.empty() ) {
+        if( ! m_hash.try_apply(m_locks.back().get(),
+                               [](const cybozu::hash_key&, object& obj) -> bool {
+                                   obj.unlock(true);
+                                   return true;
+                               }) )
+            return false;
+        m_locks.pop_back();
+    }
+    return true;
+}
+
 bool memcache_socket::on_readable(int) {
     if( m_busy.load(std::memory_order_acquire) ) {
         m_reactor->add_readable(*this);
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index e97fbf8..4e7dacb 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -89,6 +89,7 @@ private:
         g_stats.curr_connections.fetch_sub(1);
         cybozu::tcp_socket::on_invalidate(fd);
     }
+    virtual bool prepare_destruction() override final;
     virtual bool on_readable(int) override final;
     virtual bool on_writable(int) override final;
 };
-- 
2.43.0


From 319fe83de5dac76117e2438621a6d8e7ccf19111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:43 +0000
Subject: [PATCH 33/34] fix: quit must not drop replies that are not sent yet

---
 src/memcache/sockets.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index c066f99..283bb09 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -611,7 +611,7 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
         m_quit = true;
         unlock_all();
         if( cmd.quiet() ) {
-            invalidate_and_close();
+            close_after_send();
         } else {
             r.quit();
         }
@@ -1030,7 +1030,7 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
     case text_command::QUIT:
         m_quit = true;
         unlock_all();
-        invalidate_and_close();
+        close_after_send();
         break;
     default:
         cybozu::logger::info() << "not implemented";
-- 
2.43.0


From 1c730b3a4baa57b54d137ca0b91ea94caef07350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:54 +0000
Subject: [PATCH 34/34] fix: a job posted before worker::stop must be executed

---
 cybozu/worker.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cybozu/worker.hpp b/cybozu/worker.hpp
index c97ad78..619ad5f 100644
--- a/cybozu/worker.hpp
+++ b/cybozu/worker.hpp
@@ -89,7 +89,9 @@ public:
                 m_running.store(false, std::memory_order_release);
             }
 
-            if( m_exit.load(std::memory_order_acquire) ) return;
+            // a job posted before stop() must be executed.
+            if( m_exit.load(std::memory_order_acquire) &&
+                ! m_running.load(std::memory_order_acquire) ) return;
         }
     }
 
-- 
2.43.0

