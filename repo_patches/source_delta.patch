From b9f9097c6228649e71f06844f53e2a51ab0f66db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 01/32] fix: flush directly on the worker when a message
 reaches the flush level

do_sink_log_() runs on a pool worker; calling flush_sink_() there enqueued a flush
request and waited for it, which deadlocks as soon as no other worker is free.
---
 include/async_logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/async_logger.h b/include/async_logger.h
index f849331..88a8202 100644
--- a/include/async_logger.h
+++ b/include/async_logger.h
@@ -80,7 +80,7 @@ private:
         }
 
         if (should_flush_(msg_popped.level)) {
-            flush_sink_();
+            do_flush_sink_();
         }
     }
     
-- 
2.43.0


From fd324d46c2c8b13e6502d0c72ba2a928a10f9a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:15 +0000
Subject: [PATCH 02/32] fix: create_dir() handles absolute paths

The component before the leading separator is empty and must be skipped.
---
 base/os.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index a664aa1..53c932d 100755
--- a/base/os.h
+++ b/base/os.h
@@ -206,7 +206,7 @@ inline bool create_dir(const filename_t& path) {
         }
 #endif
 
-        if (!dir_exist(curr_dir) && !mkdir_(curr_dir)) {
+        if (!curr_dir.empty() && !dir_exist(curr_dir) && !mkdir_(curr_dir)) {
             return false;
         }
         offset = spr_pos + 1;
-- 
2.43.0


From b4838f54182097fd265e5fad95020edae43b90f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 03/32] fix: acquire/release ordering for the producer token
 spin lock

The lock serialises threads that share one moodycamel producer token; relaxed
operations do not order the accesses it protects.
---
 base/lockfree_concurrent_thread_pool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/lockfree_concurrent_thread_pool.h b/base/lockfree_concurrent_thread_pool.h
index b963788..c2013c9 100644
--- a/base/lockfree_concurrent_thread_pool.h
+++ b/base/lockfree_concurrent_thread_pool.h
@@ -19,13 +19,14 @@ struct atomic_token {
     void enqueue_lock() {
         bool expected = false;
         while (!enqueuing_.compare_exchange_weak(expected, true,
+                                             std::memory_order_acquire,
                                              std::memory_order_relaxed)) {
             expected = false;
         }
     }
 
     void release() {
-        enqueuing_.store(false, std::memory_order_relaxed);
+        enqueuing_.store(false, std::memory_order_release);
     }
 };
 
-- 
2.43.0


From 0e2c1761b079daaa7d8cca16964c25fe0260051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 04/32] fix: disable_backtrace() on a logger whose backtrace
 was never enabled

---
 include/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/logger.h b/include/logger.h
index 107174b..56ef311 100755
--- a/include/logger.h
+++ b/include/logger.h
@@ -189,7 +189,7 @@ public:
         }
         tracer_->enable_with_size(msg_num);
     }
-    void disable_backtrace() { tracer_->disable(); }
+    void disable_backtrace() { if (tracer_ != nullptr) { tracer_->disable(); } }
     void dump_backtrace();
 
     const std::vector<sink_shr_ptr>& sinks() const { return sinks_; }
-- 
2.43.0


From 26dc3b4b2d63b23ac750025963b9ff71437806dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 05/32] fix: file_base::close() does not leave a closed stream
 behind on failure

---
 base/file_base.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/file_base.h b/base/file_base.h
index 57835e6..1b1c294 100644
--- a/base/file_base.h
+++ b/base/file_base.h
@@ -10,14 +10,14 @@ namespace file_base {
 // 关闭文件
 inline void close(FILE** fpp, const filename_t& fname) {
     if (*fpp != nullptr) {
-        if (::fclose(*fpp) != 0) {
+        FILE* fp = *fpp;
+        *fpp = nullptr;     // fclose() 失败后文件流同样失效，不能再次使用
+        if (::fclose(fp) != 0) {
             source_loc loc{__FILE__, __LINE__, __func__};
             std::string fname_str(fname.begin(), fname.end());
             std::string err_str = fmt::format("learnlog::file_base::close() failed, filename: '{}'", fname_str);
             throw_learnlog_excpt(err_str, os::get_errno(), loc);
         }
-        
-        *fpp = nullptr;
     }
 }
 
-- 
2.43.0


From 3d6f9cbbbfeccc83fb7a3594770ac8e9be0c4033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 06/32] fix: file_base::open() waits between attempts in
 truncate mode too

---
 base/file_base.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/file_base.h b/base/file_base.h
index 1b1c294..58e62ec 100644
--- a/base/file_base.h
+++ b/base/file_base.h
@@ -44,7 +44,10 @@ inline void open(FILE** fpp, const filename_t& fname, bool truncate = false,
         
         if (truncate) {
             FILE* fd_tmp;
-            if (!os::open_file(&fd_tmp, fname, wb)) continue;
+            if (!os::open_file(&fd_tmp, fname, wb)) {
+                os::sleep_for_ms(try_every_ms);
+                continue;
+            }
             ::fclose(fd_tmp);
         }
         
-- 
2.43.0


From 3188ae376a82e18a1831073a6b06c21075f00b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 07/32] fix: sleep_for_ms() sleeps milliseconds

---
 base/os.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index 53c932d..087ce2c 100755
--- a/base/os.h
+++ b/base/os.h
@@ -78,7 +78,7 @@ inline void sleep_for_ms(size_t ms) noexcept {
 #ifdef _WIN32
     ::Sleep(static_cast<DWORD>(ms));
 #else
-    std::this_thread::sleep_for(microseconds{ms});
+    std::this_thread::sleep_for(milliseconds{ms});
 #endif
 }
 
-- 
2.43.0


From d5f92d07c58fe20b73447f12a59239e3b526d53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 08/32] fix: is_color_terminal() evaluates its test

The lambda was converted to bool (always true) instead of being called.
---
 base/os.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index 087ce2c..1542609 100755
--- a/base/os.h
+++ b/base/os.h
@@ -116,7 +116,7 @@ inline bool is_color_terminal() noexcept {
         return std::any_of(terms.begin(), terms.end(), [&](const char *term) {
             return std::strstr(env_term, term) != nullptr;
         });
-    };
+    }();
 
     return result;
 #endif
-- 
2.43.0


From e2fe5f1287a027d083f48ca7cbfea16c6bb586d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 09/32] fix: time_point_to_datetime_nsec() does not print a
 buffer into itself

---
 base/os.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/os.h b/base/os.h
index 1542609..5ae1148 100755
--- a/base/os.h
+++ b/base/os.h
@@ -69,9 +69,9 @@ inline void time_point_to_datetime_nsec(char* dt_buf, size_t buf_len, const sys_
     ns_str[9] = '\0';
 
     std::tm tm = time_point_to_tm(tp);
-    std::strftime(dt_buf, buf_len, "%Y-%m-%d %H:%M:%S.", &tm);
+    size_t dt_len = std::strftime(dt_buf, buf_len, "%Y-%m-%d %H:%M:%S.", &tm);
 
-    snprintf(dt_buf, buf_len, "%s%s", dt_buf, ns_str);
+    snprintf(dt_buf + dt_len, buf_len - dt_len, "%s", ns_str);
 }
 
 inline void sleep_for_ms(size_t ms) noexcept {
-- 
2.43.0


From 16050fb02651e795f716661f066681e392d72544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 10/32] fix: file sink destructors report I/O errors instead of
 terminating

flush() and close() throw on I/O errors; a destructor is noexcept.
---
 sinks/basic_file_sink.h   | 7 +++++--
 sinks/rolling_file_sink.h | 9 ++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/sinks/basic_file_sink.h b/sinks/basic_file_sink.h
index 461cfee..2baccf8 100644
--- a/sinks/basic_file_sink.h
+++ b/sinks/basic_file_sink.h
@@ -24,8 +24,11 @@ public:
     }
     
     ~basic_file_sink() override {
-        basic_sink<Mutex>::flush();
-        base::file_base::close(&file_, filename_);
+        // 析构函数不能抛出异常，刷新失败时仍要关闭文件
+        try { basic_sink<Mutex>::flush(); }
+        LEARNLOG_CATCH
+        try { base::file_base::close(&file_, filename_); }
+        LEARNLOG_CATCH
     }
 
     filename_t filename() const { return filename_; }
diff --git a/sinks/rolling_file_sink.h b/sinks/rolling_file_sink.h
index db233bd..d9c1fc6 100644
--- a/sinks/rolling_file_sink.h
+++ b/sinks/rolling_file_sink.h
@@ -40,9 +40,12 @@ public:
         cur_file_size_ = 0;
     }
 
-    ~rolling_file_sink() { 
-        basic_sink<Mutex>::flush();
-        base::file_base::close(&file_, get_rolling_filename(file_index_));
+    ~rolling_file_sink() {
+        // 析构函数不能抛出异常，刷新失败时仍要关闭文件
+        try { basic_sink<Mutex>::flush(); }
+        LEARNLOG_CATCH
+        try { base::file_base::close(&file_, get_rolling_filename(file_index_)); }
+        LEARNLOG_CATCH
     }
    
     filename_t base_filename() const { return base_fname_; }
-- 
2.43.0


From a165b20dce48c6277763f1e62cdba3d06d7ed469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 11/32] fix: %b and %c print three-letter month names for
 September too

---
 sinks/formatters/flag_formatter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sinks/formatters/flag_formatter.h b/sinks/formatters/flag_formatter.h
index 1bef636..477f4c6 100755
--- a/sinks/formatters/flag_formatter.h
+++ b/sinks/formatters/flag_formatter.h
@@ -71,7 +71,7 @@ static const std::array<const char *, 7> weekday_name{
     {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"} };
 
 static const std::array<const char *, 12> month_name{
-    {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sept", "Oct", "Nov", "Dec"}};
+    {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}};
 
 // 格式化星期几
 class a_formatter final : public flag_formatter {
-- 
2.43.0


From d0a8cd2cb3f3a02b9ad37d58ec4fec8a1456e3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:52 +0000
Subject: [PATCH 12/32] fix: source location flags accept a location without
 file or function name

source_loc's funcname defaults to nullptr; %C then took its length.
---
 sinks/formatters/flag_formatter.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/sinks/formatters/flag_formatter.h b/sinks/formatters/flag_formatter.h
index 477f4c6..c85e0c0 100755
--- a/sinks/formatters/flag_formatter.h
+++ b/sinks/formatters/flag_formatter.h
@@ -373,11 +373,12 @@ public:
             return;
         }
 
-        size_t text_len = std::char_traits<char>::length(msg.loc.filename) +
+        fmt_string_view filename = msg.loc.filename != nullptr ? msg.loc.filename : "";
+        size_t text_len = filename.size() +
                             base::fmt_base::count_unsigned_digits(msg.loc.line) + 1;
 
         filler f(text_len, spaces_info_, dest_buf);
-        base::fmt_base::append_string_view(msg.loc.filename, dest_buf);
+        base::fmt_base::append_string_view(filename, dest_buf);
         dest_buf.push_back(':');
         base::fmt_base::append_int(msg.loc.line, dest_buf);
     }
@@ -394,9 +395,9 @@ public:
             filler f(0, spaces_info_, dest_buf);
             return;
         }
-        size_t text_len = std::char_traits<char>::length(msg.loc.filename);
-        filler f(text_len, spaces_info_, dest_buf);
-        f.fill_msg(msg.loc.filename);
+        fmt_string_view filename = msg.loc.filename != nullptr ? msg.loc.filename : "";
+        filler f(filename.size(), spaces_info_, dest_buf);
+        f.fill_msg(filename);
     }
 };
 
@@ -428,9 +429,9 @@ public:
             filler f(0, spaces_info_, dest_buf);
             return;
         }
-        size_t text_len = std::char_traits<char>::length(msg.loc.funcname);
-        filler f(text_len, spaces_info_, dest_buf);
-        f.fill_msg(msg.loc.funcname);
+        fmt_string_view funcname = msg.loc.funcname != nullptr ? msg.loc.funcname : "";
+        filler f(funcname.size(), spaces_info_, dest_buf);
+        f.fill_msg(funcname);
     }
 };
 
@@ -492,7 +493,9 @@ public:
         // 如果 msg.loc 非空，以 "[filename:line]" 的形式加入 dest_buf
         if(!msg.loc.empty()) {
             dest_buf.push_back('[');
-            base::fmt_base::append_string_view(msg.loc.filename, dest_buf);
+            if (msg.loc.filename != nullptr) {
+                base::fmt_base::append_string_view(msg.loc.filename, dest_buf);
+            }
             dest_buf.push_back(':');
             base::fmt_base::fill_uint(msg.loc.line, 5, dest_buf);
             dest_buf.push_back(']');
-- 
2.43.0


From b03507d41de962a4586be9aa9ac8b8cff2dc4b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:56 +0000
Subject: [PATCH 13/32] fix: initialize_logger() keeps the global formatter

set_pattern() replaces the formatter, so it has to come first.
---
 base/registry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/registry.cpp b/base/registry.cpp
index 99a4a22..0a32c02 100644
--- a/base/registry.cpp
+++ b/base/registry.cpp
@@ -10,9 +10,9 @@ using namespace base;
 
 void registry::initialize_logger(logger_shr_ptr new_logger) {
     std::lock_guard<std::mutex> lock(loggers_mutex_);
-    new_logger->set_formatter(global_formatter_->clone());
     std::string pattern = global_pattern_;
     new_logger->set_pattern(pattern);
+    new_logger->set_formatter(global_formatter_->clone());
     new_logger->set_log_level(global_log_level_);
     new_logger->set_flush_level(global_flush_level_);
     
-- 
2.43.0


From 3301cbc61ed032236abce4b9d06af7c4aa12cce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 14/32] fix: set_global_pattern() is one atomic step and
 updates the loggers' pattern

Between the two critical sections a logger could be initialised with the new
pattern string and the old formatter; get_pattern() kept the old string.
---
 base/registry.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/base/registry.cpp b/base/registry.cpp
index 0a32c02..3e2e8bf 100644
--- a/base/registry.cpp
+++ b/base/registry.cpp
@@ -60,13 +60,14 @@ void registry::set_default_logger(logger_shr_ptr new_default_logger) {
 }
 
 void registry::set_global_pattern(std::string pattern) {
-    {
-        std::lock_guard<std::mutex> lock(loggers_mutex_);
-        global_pattern_ = pattern;
-    }
     auto new_pattern_formatter = 
-        learnlog::make_unique<sinks::pattern_formatter>(std::move(pattern));
-    set_global_formatter(std::move(new_pattern_formatter));
+        learnlog::make_unique<sinks::pattern_formatter>(pattern);
+    std::lock_guard<std::mutex> lock(loggers_mutex_);
+    global_formatter_ = std::move(new_pattern_formatter);
+    for (auto &l : loggers_) {
+        l.second->set_pattern(pattern);
+    }
+    global_pattern_ = std::move(pattern);
 }
 
 void registry::set_global_formatter(formatter_uni_ptr new_formatter) {
-- 
2.43.0


From c1fd1bf7e0d2fd292dc93b78cc31ea39b07db044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 15/32] fix: logger::swap() swaps the pattern as well

---
 src/logger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/logger.cpp b/src/logger.cpp
index 3c2a5d4..1085bc0 100755
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -10,6 +10,7 @@ void logger::swap(logger& other) noexcept {
     std::swap(log_level_, other.log_level_);
     std::swap(flush_level_, other.flush_level_);
     std::swap(tracer_, other.tracer_);
+    pattern_.swap(other.pattern_);
 }
 
 void logger::set_pattern(std::string pattern) {
-- 
2.43.0


From 18d7c71b05cc38a05d4358e01c921fd61d8a8e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 16/32] fix: define learnlog::swap()

The declared function had no definition; ::swap was defined instead.
---
 src/logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logger.cpp b/src/logger.cpp
index 1085bc0..74f33fe 100755
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -74,4 +74,4 @@ void logger::flush_sink_() {
 }
 
 
-void swap(logger& a, logger& b) { a.swap(b); }
\ No newline at end of file
+void learnlog::swap(logger& a, logger& b) { a.swap(b); }
\ No newline at end of file
-- 
2.43.0


From 13c59387b474569862bddbf23f1efe4808ad4280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:17 +0000
Subject: [PATCH 17/32] fix: circular_queue::size() on an invalid queue is 0

A default-constructed, moved-from or cleared queue has max_size_ == 0.
---
 base/circular_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/circular_queue.h b/base/circular_queue.h
index 1b00eff..a64e9a6 100755
--- a/base/circular_queue.h
+++ b/base/circular_queue.h
@@ -35,7 +35,7 @@ public:
         return *this;
     }
 
-    size_t size() const { return (tail_ - head_ + max_size_) % max_size_; }
+    size_t size() const { return max_size_ > 0 ? (tail_ + max_size_ - head_) % max_size_ : 0; }
 
     size_t vec_size() const { return max_size_; }
 
-- 
2.43.0


From 52e39acef1843d349a282d0496364d6403fb09dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 18/32] fix: periodic_function's destructor cannot lose its
 wakeup

active_ was cleared without the mutex, so the notification could fall between the
predicate check and the wait, delaying the destructor by a whole interval.
---
 base/periodic_function.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/periodic_function.h b/base/periodic_function.h
index 5d6fa49..52636e3 100644
--- a/base/periodic_function.h
+++ b/base/periodic_function.h
@@ -36,7 +36,10 @@ public:
 
     ~periodic_function() {
         if (thread_.joinable()) {
-            active_ = false;
+            {
+                std::lock_guard<std::mutex> lock(mutex_);
+                active_ = false;
+            }
             cv_.notify_one();
             thread_.join();
         }
-- 
2.43.0


From 10e1da8e6a60ffa8e4ea839b155a06e550844736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:38 +0000
Subject: [PATCH 19/32] fix: handle_excpt() does not abort on clock steps or
 concurrent reports

---
 base/exception.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/base/exception.h b/base/exception.h
index d209299..a06fcb7 100755
--- a/base/exception.h
+++ b/base/exception.h
@@ -32,7 +32,6 @@ inline void handle_excpt(const std::string& msg) {
     tp lr_time = last_report_time.load(std::memory_order_acquire);
     tp now = sys_clock::now();
     size_t cnt = report_cnt.fetch_add(1, std::memory_order_relaxed);
-    assert( now - lr_time > std::chrono::nanoseconds(1) );
     (void)lr_time;
     // if(now - lr_time < std::chrono::seconds(1)){ return; }
     last_report_time.store(now, std::memory_order_release);
-- 
2.43.0


From 9580764022339e8f5662d4da20f61d7c7af5c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 20/32] fix: the string_view overloads of logger::log() contain
 exceptions like the others

---
 include/logger.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/logger.h b/include/logger.h
index 56ef311..93ae20b 100755
--- a/include/logger.h
+++ b/include/logger.h
@@ -84,8 +84,11 @@ public:
             return;
         }
         
-        base::log_msg log_msg(time, loc, level, msg, name_);
-        do_log_(log_msg, log_enabled, backtrace_enabled);
+        try {
+            base::log_msg log_msg(time, loc, level, msg, name_);
+            do_log_(log_msg, log_enabled, backtrace_enabled);
+        }
+        LEARNLOG_CATCH
     }
 
     // 非模板函数 log() ，缺省 log time ，msg 直接以 fmt_string_view 类型传入
@@ -100,8 +103,11 @@ public:
             return;
         }
         
-        base::log_msg log_msg(loc, level, msg, name_);
-        do_log_(log_msg, log_enabled, backtrace_enabled);
+        try {
+            base::log_msg log_msg(loc, level, msg, name_);
+            do_log_(log_msg, log_enabled, backtrace_enabled);
+        }
+        LEARNLOG_CATCH
     }
 
     // 非模板函数 log() ，缺省 time 与 loc ，msg 直接以 fmt_string_view 类型传入
-- 
2.43.0


From f7e931bcb99a4b11a75bef8827548a7b8db72928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:28 +0000
Subject: [PATCH 21/32] fix: filler handles fields longer than INT_MAX

The truncated difference turned into a large positive padding.
---
 sinks/formatters/filler.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sinks/formatters/filler.h b/sinks/formatters/filler.h
index e0de6b8..6282e5e 100755
--- a/sinks/formatters/filler.h
+++ b/sinks/formatters/filler.h
@@ -39,7 +39,7 @@ public:
         if(!spaces_info_.enabled()) return;     // 如果 spaces_info 信息无效则不填充空格
         
         spaces_.resize(MAX_SPACES_LEN, ' ');        // 最大空格填充数为 MAX_SPACES_LEN
-        spaces_to_fill_ = static_cast<int>(spaces_info_.target_len_ - msg_len);
+        spaces_to_fill_ = static_cast<long_long>(spaces_info_.target_len_ - msg_len);
         if(spaces_to_fill_ <= 0) return;
 
         if(spaces_info_.side_ == spaces_info::fill_side::left) {
@@ -49,7 +49,7 @@ public:
         else if(spaces_info_.side_ == spaces_info::fill_side::center) {
             size_t half_to_fill = spaces_to_fill_ / 2;
             fill_spaces_(half_to_fill);
-            spaces_to_fill_ = static_cast<int>(spaces_to_fill_ - half_to_fill);
+            spaces_to_fill_ = static_cast<long_long>(spaces_to_fill_ - half_to_fill);
         }
     }
 
@@ -97,7 +97,7 @@ private:
     const spaces_info& spaces_info_;    // 空格填充信息
     fmt_memory_buf& dest_buf_;          // 目标缓冲区
     
-    int spaces_to_fill_;                // 剩余填充的空格数
+    long_long spaces_to_fill_;                // 剩余填充的空格数
     std::string spaces_;                // 长度为 64 的空格字符串
 };
 
-- 
2.43.0


From 9648c36d6dd90c448391eb410aafc823c78dfbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:38 +0000
Subject: [PATCH 22/32] fix: exec_all() and flush_all() do not hold the
 registry lock while they call out

A callback that uses the registry, or a sink that does so on a worker while
flush_all() waits for that worker, deadlocked on loggers_mutex_.
---
 base/registry.cpp | 19 +++++++++++++------
 base/registry.h   |  1 +
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/base/registry.cpp b/base/registry.cpp
index 3e2e8bf..cbf4786 100644
--- a/base/registry.cpp
+++ b/base/registry.cpp
@@ -137,16 +137,14 @@ void registry::set_global_flush_level(level::level_enum flush_level) {
 }
 
 void registry::exec_all(const std::function<void(logger_shr_ptr)>& func) {
-    std::lock_guard<std::mutex> lock(loggers_mutex_);
-    for (auto &l : loggers_) {
-        func(l.second);
+    for (auto &l : copy_loggers_()) {
+        func(l);
     }
 }
 
 void registry::flush_all() {
-    std::lock_guard<std::mutex> lock(loggers_mutex_);
-    for (auto &l : loggers_) {
-        l.second->flush();
+    for (auto &l : copy_loggers_()) {
+        l->flush();
     }
 }
 
@@ -208,6 +206,15 @@ void registry::register_logger_(logger_shr_ptr new_logger) {
     loggers_[logger_name] = std::move(new_logger);
 }
 
+std::vector<logger_shr_ptr> registry::copy_loggers_() {
+    std::lock_guard<std::mutex> lock(loggers_mutex_);
+    std::vector<logger_shr_ptr> copied;
+    for (auto &l : loggers_) {
+        copied.push_back(l.second);
+    }
+    return copied;
+}
+
 void registry::remove_async_loggers_() {
     std::lock_guard<std::mutex> lock(loggers_mutex_);
     std::vector<std::string> async_names;
diff --git a/base/registry.h b/base/registry.h
index c6aab11..f9f3f50 100644
--- a/base/registry.h
+++ b/base/registry.h
@@ -68,6 +68,7 @@ private:
     ~registry();
     void register_logger_(logger_shr_ptr new_logger);
     void remove_async_loggers_();
+    std::vector<logger_shr_ptr> copy_loggers_();
 
     std::mutex loggers_mutex_;
     formatter_uni_ptr global_formatter_;
-- 
2.43.0


From 18f7165d4e927a0d3f9ea3cb7636210f5c1d45d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 23/32] fix: backtracer's assignment locks the object it
 modifies

---
 base/backtracer.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/backtracer.h b/base/backtracer.h
index c795f35..b395ad3 100755
--- a/base/backtracer.h
+++ b/base/backtracer.h
@@ -24,9 +24,10 @@ public:
     }
 
     backtracer& operator=(const backtracer& other) {
-        std::lock_guard<std::mutex> lock(other.mutex_);
-        enabled_ = other.enabled_;
-        log_msgs_ = other.log_msgs_;
+        backtracer copied(other);
+        std::lock_guard<std::mutex> lock(mutex_);
+        enabled_ = copied.enabled_;
+        log_msgs_ = std::move(copied.log_msgs_);
         return *this;
     }
 
-- 
2.43.0


From a13bc55c929faa30342e44809bbf30d69921b4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 24/32] fix: the registry joins a replaced thread pool outside
 thread_mutex_

Destroying the pool waits for its workers; a worker that calls get_thread_pool()
(a sink, or the pool's stop callback) then never finished.
---
 base/registry.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/registry.cpp b/base/registry.cpp
index cbf4786..3c3eac0 100644
--- a/base/registry.cpp
+++ b/base/registry.cpp
@@ -155,8 +155,9 @@ void registry::remove_all() {
 }
 
 void registry::register_thread_pool(thread_pool_shr_ptr new_thread_pool) {
+    thread_pool_shr_ptr old_thread_pool;    // 释放锁后再析构，析构时会等待后台线程结束
     std::lock_guard<std::mutex> lock(thread_mutex_);
-    thread_pool_.reset();
+    old_thread_pool = std::move(thread_pool_);
     remove_async_loggers_();
     thread_pool_ = std::move(new_thread_pool);
 }
@@ -172,9 +173,10 @@ void registry::close_registry() {
         global_flusher_.reset();
     }
     remove_all();
+    thread_pool_shr_ptr old_thread_pool;    // 释放锁后再析构，析构时会等待后台线程结束
     {
         std::lock_guard<std::mutex> lock(thread_mutex_);
-        thread_pool_.reset();
+        old_thread_pool = std::move(thread_pool_);
     }
 }
 
-- 
2.43.0


From df872cfd640fc92d6bab4e6705c3583e549bf720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 25/32] fix: lockfree_concurrent_thread_pool's cached token is
 tied to its pool

The thread_local producer token was shared by all pools: a thread that had logged
through one pool kept using that pool's token (freed with it) with every later pool.
---
 base/lockfree_concurrent_thread_pool.cpp |  4 +-
 base/lockfree_concurrent_thread_pool.h   | 57 ++++++++++++++----------
 2 files changed, 37 insertions(+), 24 deletions(-)

diff --git a/base/lockfree_concurrent_thread_pool.cpp b/base/lockfree_concurrent_thread_pool.cpp
index ecda9fa..d18ac0e 100644
--- a/base/lockfree_concurrent_thread_pool.cpp
+++ b/base/lockfree_concurrent_thread_pool.cpp
@@ -4,5 +4,7 @@ using namespace learnlog;
 using namespace base;
 
 #ifdef LEARNLOG_USE_TLS
-    thread_local atomic_token* lockfree_concurrent_thread_pool::token_ = nullptr;
+    thread_local size_t lockfree_concurrent_thread_pool::producer_pool_id_ = 0;
+    thread_local atomic_token* lockfree_concurrent_thread_pool::producer_token_ = nullptr;
+    thread_local atomic_token* lockfree_concurrent_thread_pool::consumer_token_ = nullptr;
 #endif
diff --git a/base/lockfree_concurrent_thread_pool.h b/base/lockfree_concurrent_thread_pool.h
index c2013c9..304c033 100644
--- a/base/lockfree_concurrent_thread_pool.h
+++ b/base/lockfree_concurrent_thread_pool.h
@@ -62,7 +62,7 @@ public:
                     token = atomic_tokens_[idx];
                 }
 #ifdef LEARNLOG_USE_TLS
-                token_ = token;
+                consumer_token_ = token;
 #else
                 {
                     std::lock_guard<std::mutex> lock(c_mutex_);
@@ -98,7 +98,7 @@ public:
                     token = atomic_tokens_[idx];
                 }
 #ifdef LEARNLOG_USE_TLS
-                token_ = token;
+                consumer_token_ = token;
 #else
                 {
                     std::lock_guard<std::mutex> lock(c_mutex_);
@@ -134,7 +134,7 @@ public:
                     token = atomic_tokens_[idx];
                 }
 #ifdef LEARNLOG_USE_TLS
-                token_ = token;
+                consumer_token_ = token;
 #else
                 {
                     std::lock_guard<std::mutex> lock(c_mutex_);
@@ -174,16 +174,26 @@ private:
     void enqueue_async_msg_(async_msg&& amsg) override {
         atomic_token* token = nullptr;
 #ifdef LEARNLOG_USE_TLS
-        if (token_ == nullptr) {
-            size_t cnt = producer_cnt_.fetch_add(1, std::memory_order_relaxed);
-            {
-                std::lock_guard<std::mutex> lock(t_mutex_);
-                token_ = atomic_tokens_[cnt % threads_num_];
-            }
-            producer_sema_.signal();
+        if (producer_pool_id_ != pool_id_) {    // 缓存为空，或缓存的 token 属于其他线程池
+            producer_token_ = find_producer_token_();
+            producer_pool_id_ = pool_id_;
         }
-        token = token_;
+        token = producer_token_;
 #else
+        token = find_producer_token_();
+#endif
+        token->enqueue_lock();
+        while (!msg_q_.try_enqueue(token->p_token_, std::move(amsg))) {
+            if (msg_q_.enqueue(token->p_token_, std::move(amsg))) {
+                break;
+            }
+        }
+        token->release();
+    }
+
+    // 当前线程在本线程池中的生产者 token，首次使用时分配
+    atomic_token* find_producer_token_() {
+        atomic_token* token = nullptr;
         size_t tid = os::thread_id();
         {
             std::lock_guard<std::mutex> lock(p_mutex_);
@@ -200,20 +210,18 @@ private:
                 token = producer_atomic_tokens_[tid];
             }
         }
-#endif
-        token->enqueue_lock();
-        while (!msg_q_.try_enqueue(token->p_token_, std::move(amsg))) {
-            if (msg_q_.enqueue(token->p_token_, std::move(amsg))) {
-                break;
-            }
-        }
-        token->release();
+        return token;
+    }
+
+    static size_t next_pool_id_() {
+        static std::atomic<size_t> id{0};
+        return id.fetch_add(1, std::memory_order_relaxed) + 1;
     }
 
     void dequeue_async_msg_(async_msg& amsg) override {
         atomic_token* token = nullptr;
 #ifdef LEARNLOG_USE_TLS
-        token = token_;
+        token = consumer_token_;
 #else
         {
             std::lock_guard<std::mutex> lock(c_mutex_);
@@ -231,11 +239,14 @@ private:
 
     std::mutex t_mutex_;
     std::vector<atomic_token*> atomic_tokens_;
-#ifdef LEARNLOG_USE_TLS
-    static thread_local atomic_token* token_;
-#else
     std::mutex p_mutex_;
     std::unordered_map<size_t, atomic_token*> producer_atomic_tokens_;
+#ifdef LEARNLOG_USE_TLS
+    const size_t pool_id_{next_pool_id_()};         // 不会重复，从 1 开始
+    static thread_local size_t producer_pool_id_;   // producer_token_ 所属的线程池，0 表示无
+    static thread_local atomic_token* producer_token_;
+    static thread_local atomic_token* consumer_token_;
+#else
     std::mutex c_mutex_;
     std::unordered_map<size_t, atomic_token*> consumer_atomic_tokens_;
 #endif
-- 
2.43.0


From 37213bd6652c5672139ba9d2d766b5fcb294ea15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:32 +0000
Subject: [PATCH 26/32] fix: one lock for all asynchronous factories,
 concurrent creation registered several thread pools

---
 include/async_factory.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/async_factory.h b/include/async_factory.h
index b1ac68e..fca3c6b 100644
--- a/include/async_factory.h
+++ b/include/async_factory.h
@@ -11,12 +11,17 @@
 
 namespace learnlog {
 
+// 所有异步 factory 共用同一把锁，避免并发创建 logger 时重复注册线程池
+inline std::mutex& async_factory_mutex() {
+    static std::mutex factory_mutex;
+    return factory_mutex;
+}
+
 template <typename Threadpool>
 struct async_factory_template {
     template <typename Sink, typename... SinkArgs>
     static async_logger_shr_ptr create(std::string logger_name, SinkArgs &&...args) {
-        static std::mutex async_factory_mutex_;
-        std::lock_guard<std::mutex> lock(async_factory_mutex_);
+        std::lock_guard<std::mutex> lock(async_factory_mutex());
         auto tp = base::registry::instance().get_thread_pool();
         if (tp == nullptr) {
             auto tp_new = std::make_shared<Threadpool>();
-- 
2.43.0


From c56ba7bbd2c35582be75ee0d88f9e8c63f2e9ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:04 +0000
Subject: [PATCH 27/32] fix: file_base::write() reports a missing file instead
 of dropping the message

---
 base/file_base.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/file_base.h b/base/file_base.h
index 58e62ec..34f0a18 100644
--- a/base/file_base.h
+++ b/base/file_base.h
@@ -84,7 +84,12 @@ inline void sync(FILE* fp, const filename_t& fname) {
 
 // 将 buf 的内容写入文件
 inline void write(FILE* fp, const filename_t& fname, const fmt_memory_buf& buf) {
-    if (fp == nullptr) return;
+    if (fp == nullptr) {    // 文件未打开（如滚动文件重新打开失败），不能静默丢弃日志
+        std::string fname_str(fname.begin(), fname.end());
+        std::string err_str = fmt::format(
+            "learnlog::file_base::write() failed, fp == nullptr, filename: '{}'", fname_str);
+        throw_learnlog_excpt(err_str);
+    }
 
     if (::fwrite(buf.data(), sizeof(char), buf.size(), fp) != buf.size()) {
         source_loc loc{__FILE__, __LINE__, __func__};
-- 
2.43.0


From 0dcb3d7b3092107c90a669d4b20574f624c6e679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 28/32] fix: assigning a log_msg_buf to itself does not empty
 its buffer

---
 base/log_msg_buf.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/base/log_msg_buf.h b/base/log_msg_buf.h
index e1d4b93..86fcb8f 100755
--- a/base/log_msg_buf.h
+++ b/base/log_msg_buf.h
@@ -29,10 +29,12 @@ public:
     }
 
     log_msg_buf& operator=(const log_msg_buf &other) {
-        log_msg::operator=(other);
-        buf_.clear();
-        buf_.append(other.buf_.data(), other.buf_.data() + other.buf_.size());
-        update_string_view();
+        if (this != &other) {
+            log_msg::operator=(other);
+            buf_.clear();
+            buf_.append(other.buf_.data(), other.buf_.data() + other.buf_.size());
+            update_string_view();
+        }
         return *this;
     }
 
-- 
2.43.0


From 87d4915fa531d2db60e57f6f4a3b8889fd1e71b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 29/32] fix: a pattern that ends inside a flag is not read past
 its end

---
 sinks/formatters/pattern_formatter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sinks/formatters/pattern_formatter.cpp b/sinks/formatters/pattern_formatter.cpp
index 9b989ea..02e2715 100755
--- a/sinks/formatters/pattern_formatter.cpp
+++ b/sinks/formatters/pattern_formatter.cpp
@@ -59,9 +59,10 @@ void pattern_formatter::analyse_pattern_(const std::string& pattern) {
 
             spaces_info sp_info = analyse_spaces_info_(++it, end);
 
-            if (it != end) {
-                append_flag_formatter_(*it, sp_info);
+            if (it == end) {    // 模板在格式字符之前结束
+                break;
             }
+            append_flag_formatter_(*it, sp_info);
         }
         else {
             if (!as_is_formatter) {
-- 
2.43.0


From c22e6cd32dab987301b5ece2bc559c43ae1fe6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 30/32] fix: a very long padding width does not overflow

---
 sinks/formatters/pattern_formatter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sinks/formatters/pattern_formatter.cpp b/sinks/formatters/pattern_formatter.cpp
index 02e2715..cc74403 100755
--- a/sinks/formatters/pattern_formatter.cpp
+++ b/sinks/formatters/pattern_formatter.cpp
@@ -104,7 +104,8 @@ spaces_info pattern_formatter::analyse_spaces_info_(std::string::const_iterator&
     size_t fill_len = static_cast<size_t>(*it) - '0';
     ++it;
     while (it != end && std::isdigit(static_cast<unsigned char>(*it))) {
-        fill_len = fill_len * 10 + static_cast<size_t>(*it) - '0';
+        // 每一位都取上限，防止溢出
+        fill_len = std::min<size_t>(fill_len * 10 + static_cast<size_t>(*it - '0'), MAX_SPACES_LEN);
         ++it;
     }
 
-- 
2.43.0


From 1e4916c16858717410cd0df2c3df4d7267266b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:36 +0000
Subject: [PATCH 31/32] fix: ansicolor_sink.h includes what it uses

---
 sinks/ansicolor_sink.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sinks/ansicolor_sink.h b/sinks/ansicolor_sink.h
index 63047f9..3e32b45 100755
--- a/sinks/ansicolor_sink.h
+++ b/sinks/ansicolor_sink.h
@@ -2,6 +2,7 @@
 
 #include "sinks/sink.h"
 #include "sinks/formatters/pattern_formatter.h"
+#include "base/exception.h"
 #include "base/static_mutex.h"
 
 #include <mutex>
-- 
2.43.0


From 8b3b0a64452d29d91192bfc45e9e5e044f66b09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 32/32] fix: a string logged with a location by the free log()
 is not a format string

---
 include/learnlog.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/learnlog.h b/include/learnlog.h
index dc2efe2..37ceca3 100644
--- a/include/learnlog.h
+++ b/include/learnlog.h
@@ -201,9 +201,7 @@ void log(level::level_enum level, fmt_format_string<Args...> fmt_fstr, Args &&..
     learnlog::get_default_logger()->log(level, fmt_fstr, std::forward<Args>(args)...);
 }
 
-template <typename T,
-              typename std::enable_if<!is_convertible_to_basic_format_string<const T &>::value,
-                                      int>::type = 0>
+template <typename T>
 void log(source_loc loc, level::level_enum lvl, const T &msg) {
     learnlog::get_default_logger()->log(loc, lvl, msg);
 }
-- 
2.43.0

