From e27e5db3c1a211db0259e2fe47991de52cdc6a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 01/28] fix: addr2line pipes leaked, deadlocked and lost data

resolve_addresses created inheritable pipes, so concurrent invocations kept each
other's addr2line waiting for the end of input forever. Descriptors and children
leaked on every error path, interrupted reads and writes were treated as data
or as fatal, the whole input was written before any output was read (deadlock
for deep traces), an early exit of addr2line raised SIGPIPE in the application,
and closing pipe ends in the child broke it when stdin was closed.
---
 src/symbols/symbols_with_addr2line.cpp | 151 ++++++++++++++++++++-----
 1 file changed, 121 insertions(+), 30 deletions(-)

diff --git a/src/symbols/symbols_with_addr2line.cpp b/src/symbols/symbols_with_addr2line.cpp
index d5f430e..8ce3fb4 100644
--- a/src/symbols/symbols_with_addr2line.cpp
+++ b/src/symbols/symbols_with_addr2line.cpp
@@ -6,6 +6,7 @@
 #include "utils/microfmt.hpp"
 #include "utils/utils.hpp"
 
+#include <cerrno>
 #include <cstdint>
 #include <cstdio>
 #include <functional>
@@ -16,6 +17,8 @@
 #include <vector>
 
 #if IS_LINUX || IS_APPLE
+ #include <fcntl.h>
+ #include <poll.h>
  #include <unistd.h>
  #include <sys/types.h>
  #include <sys/wait.h>
@@ -63,34 +66,92 @@ namespace addr2line {
         return has_addr2line;
     }
 
-    struct pipe_ends {
-        int read;
-        int write;
+    class file_descriptor {
+        int fd = -1;
+    public:
+        file_descriptor() = default;
+        file_descriptor(const file_descriptor&) = delete;
+        file_descriptor& operator=(const file_descriptor&) = delete;
+        ~file_descriptor() {
+            reset();
+        }
+        void reset(int new_fd = -1) {
+            if(fd != -1) {
+                close(fd);
+            }
+            fd = new_fd;
+        }
+        int get() const {
+            return fd;
+        }
     };
 
+    // Both ends are close-on-exec, otherwise processes started concurrently by other threads (including other
+    // addr2line invocations) would inherit them and keep addr2line from seeing the end of its input
     struct pipe_t {
-        union {
-            pipe_ends end;
-            int data[2];
-        };
+        file_descriptor read_end;
+        file_descriptor write_end;
+        pipe_t() {
+            int fds[2];
+            #if IS_APPLE
+            if(pipe(fds) != 0) {
+            #else
+            if(pipe2(fds, O_CLOEXEC) != 0) {
+            #endif
+                throw internal_error("call to pipe failed: {}", errno);
+            }
+            read_end.reset(fds[0]);
+            write_end.reset(fds[1]);
+            #if IS_APPLE
+            fcntl(fds[0], F_SETFD, FD_CLOEXEC);
+            fcntl(fds[1], F_SETFD, FD_CLOEXEC);
+            #endif
+            avoid_standard_streams(read_end);
+            avoid_standard_streams(write_end);
+        }
+    private:
+        // If the application has closed a standard stream a pipe end can end up in its place, where the redirections
+        // in the child process would interfere with it
+        static void avoid_standard_streams(file_descriptor& end) {
+            if(end.get() <= STDERR_FILENO) {
+                const int fd = fcntl(end.get(), F_DUPFD_CLOEXEC, STDERR_FILENO + 1);
+                if(fd == -1) {
+                    throw internal_error("call to fcntl failed: {}", errno);
+                }
+                end.reset(fd);
+            }
+        }
+    };
+
+    // Reaps the child process on destruction
+    class child_process {
+        pid_t pid;
+    public:
+        explicit child_process(pid_t pid) : pid(pid) {}
+        child_process(const child_process&) = delete;
+        child_process& operator=(const child_process&) = delete;
+        ~child_process() {
+            if(pid != -1) {
+                while(waitpid(pid, nullptr, 0) == -1 && errno == EINTR) {}
+            }
+        }
+        void set_pid(pid_t new_pid) {
+            pid = new_pid;
+        }
     };
-    static_assert(sizeof(pipe_t) == 2 * sizeof(int), "Unexpected struct packing");
 
     std::string resolve_addresses(const std::string& addresses, const std::string& executable) {
+        // Destroyed last, i.e. after our pipe ends have been closed, so addr2line always sees the end of its input
+        child_process child(-1);
         pipe_t output_pipe;
         pipe_t input_pipe;
-        if(pipe(output_pipe.data) != 0 || pipe(input_pipe.data) != 0) {
-            throw internal_error("call to pipe failed: {}", errno);
-        }
         const pid_t pid = fork();
-        if(pid == -1) { return ""; } // error? TODO: Diagnostic
+        if(pid == -1) {
+            throw internal_error("call to fork failed: {}", errno);
+        }
         if(pid == 0) { // child
-            dup2(output_pipe.end.write, STDOUT_FILENO);
-            dup2(input_pipe.end.read, STDIN_FILENO);
-            close(output_pipe.end.read);
-            close(output_pipe.end.write);
-            close(input_pipe.end.read);
-            close(input_pipe.end.write);
+            dup2(output_pipe.write_end.get(), STDOUT_FILENO);
+            dup2(input_pipe.read_end.get(), STDIN_FILENO);
             close(STDERR_FILENO); // TODO: Might be worth conditionally enabling or piping
             #ifdef CPPTRACE_ADDR2LINE_SEARCH_SYSTEM_PATH
             #if !IS_APPLE
@@ -125,22 +186,52 @@ namespace addr2line {
             #endif
             _exit(1); // TODO: Diagnostic?
         }
-        if(write(input_pipe.end.write, addresses.data(), addresses.size()) == -1) {
-            throw internal_error("call to write failed: {}", errno);
-        }
-        close(input_pipe.end.read);
-        close(input_pipe.end.write);
-        close(output_pipe.end.write);
+        child.set_pid(pid);
+        output_pipe.write_end.reset();
+        // Feed addr2line and drain its output at the same time, neither pipe is guaranteed to hold everything. Our copy
+        // of the input pipe's read end is kept until everything is written so that there is no SIGPIPE if addr2line
+        // exits early, in that case the end of the output is seen instead.
+        fcntl(input_pipe.write_end.get(), F_SETFL, fcntl(input_pipe.write_end.get(), F_GETFL) | O_NONBLOCK);
         std::string output;
+        std::size_t written = 0;
         constexpr int buffer_size = 4096;
         char buffer[buffer_size];
-        std::size_t count = 0;
-        while((count = read(output_pipe.end.read, buffer, buffer_size)) > 0) {
-            output.insert(output.end(), buffer, buffer + count);
+        while(true) {
+            if(written == addresses.size()) {
+                input_pipe.write_end.reset();
+                input_pipe.read_end.reset();
+            }
+            // poll ignores negative fds
+            pollfd fds[2] = {{output_pipe.read_end.get(), POLLIN, 0}, {input_pipe.write_end.get(), POLLOUT, 0}};
+            if(poll(fds, 2, -1) == -1) {
+                if(errno == EINTR) {
+                    continue;
+                }
+                throw internal_error("call to poll failed: {}", errno);
+            }
+            if(fds[0].revents != 0) {
+                const auto count = read(output_pipe.read_end.get(), buffer, buffer_size);
+                if(count > 0) {
+                    output.append(buffer, static_cast<std::size_t>(count));
+                } else if(count == 0) {
+                    break;
+                } else if(errno != EINTR) {
+                    throw internal_error("call to read failed: {}", errno);
+                }
+            }
+            if(fds[1].revents != 0) {
+                const auto count = write(
+                    input_pipe.write_end.get(),
+                    addresses.data() + written,
+                    addresses.size() - written
+                );
+                if(count >= 0) {
+                    written += static_cast<std::size_t>(count);
+                } else if(errno != EINTR && errno != EAGAIN && errno != EWOULDBLOCK) {
+                    throw internal_error("call to write failed: {}", errno);
+                }
+            }
         }
-        // TODO: check status from addr2line?
-        waitpid(pid, nullptr, 0);
-        close(output_pipe.end.read);
         return output;
     }
     #elif IS_WINDOWS
-- 
2.43.0


From 7bf5b4cd8669ef7d89a57c5238545fb957e42fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 02/28] fix: a failed addr2line probe disabled resolution for
 good

has_addr2line remembered a negative answer when fork failed, when waitpid was
interrupted (reading an uninitialised status), or when the probe was killed.
---
 src/symbols/symbols_with_addr2line.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/symbols/symbols_with_addr2line.cpp b/src/symbols/symbols_with_addr2line.cpp
index 8ce3fb4..88e6d1e 100644
--- a/src/symbols/symbols_with_addr2line.cpp
+++ b/src/symbols/symbols_with_addr2line.cpp
@@ -37,7 +37,6 @@ namespace addr2line {
         static bool checked = false;
         std::lock_guard<std::mutex> lock(mutex);
         if(!checked) {
-            checked = true;
             // Detects if addr2line exists by trying to invoke addr2line --help
             constexpr int magic = 42;
             const pid_t pid = fork();
@@ -59,8 +58,19 @@ namespace addr2line {
                 #endif
                 _exit(magic);
             }
-            int status;
-            waitpid(pid, &status, 0);
+            int status = 0;
+            pid_t res;
+            do {
+                res = waitpid(pid, &status, 0);
+            } while(res == -1 && errno == EINTR);
+            if(res == -1) {
+                // Children are reaped automatically (SIGCHLD ignored), there is no status, find out by trying
+                checked = true;
+                has_addr2line = true;
+                return true;
+            }
+            if(!WIFEXITED(status)) { return false; } // killed, says nothing about later attempts
+            checked = true;
             has_addr2line = WEXITSTATUS(status) == 0;
         }
         return has_addr2line;
-- 
2.43.0


From 520aaa88ab98cb2f1a8382db43886708f96260ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 03/28] fix: a truncated last line of addr2line output was used

When addr2line is killed while printing, the last line could be cut in the
middle of the line number or path and was reported as if it were complete.
---
 src/symbols/symbols_with_addr2line.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/symbols/symbols_with_addr2line.cpp b/src/symbols/symbols_with_addr2line.cpp
index 88e6d1e..544992c 100644
--- a/src/symbols/symbols_with_addr2line.cpp
+++ b/src/symbols/symbols_with_addr2line.cpp
@@ -411,7 +411,10 @@ namespace addr2line {
                         #endif
                         );
                     }
-                    auto output = split(trim(resolve_addresses(address_input, object_name)), "\n");
+                    const auto raw_output = resolve_addresses(address_input, object_name);
+                    // if addr2line is killed its last line may be cut short
+                    VERIFY(!raw_output.empty() && raw_output.back() == '\n', "Truncated addr2line output");
+                    auto output = split(trim(raw_output), "\n");
                     VERIFY(output.size() == entries_vec.size());
                     for(std::size_t i = 0; i < output.size(); i++) {
                         update_trace(output[i], i, entries_vec);
-- 
2.43.0


From d2b9983bd8fbfbf2aa71c78270189aba36754673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 04/28] fix: running out of memory left frames half updated

update_trace copied the file name and symbol after storing the line, so a frame
could end up with the line of its source file but the path of its object.
---
 src/symbols/symbols_with_addr2line.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/symbols/symbols_with_addr2line.cpp b/src/symbols/symbols_with_addr2line.cpp
index 544992c..d6543b5 100644
--- a/src/symbols/symbols_with_addr2line.cpp
+++ b/src/symbols/symbols_with_addr2line.cpp
@@ -319,14 +319,15 @@ namespace addr2line {
         VERIFY(colon >= filename_start); // :? to deal with "symbol :?" edge case
         auto filename = line.substr(filename_start, colon - filename_start);
         auto line_number = line.substr(colon + 1);
+        // Nothing may throw once the frame is being modified, it shouldn't be left half updated
         if(line_number != "?") {
             entries_vec[entry_index].second.get().line = std::stoi(line_number);
         }
         if(!filename.empty() && filename != "??") {
-            entries_vec[entry_index].second.get().filename = filename;
+            entries_vec[entry_index].second.get().filename = std::move(filename);
         }
         if(!symbol.empty()) {
-            entries_vec[entry_index].second.get().symbol = symbol;
+            entries_vec[entry_index].second.get().symbol = std::move(symbol);
         }
         #else
         // Result will be of the form "<symbol> (in <object name>) (file:line)"
-- 
2.43.0


From 04a3cd202ad8ac76999468dd3c60881143e4da71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 05/28] fix: reporting an internal error could itself throw

Formatting the log message runs out of memory just when a bad_alloc is being reported, and the exception then left
the tracing call although absorption was on.
---
 src/utils/error.cpp | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/utils/error.cpp b/src/utils/error.cpp
index b24ce3d..4a9412b 100644
--- a/src/utils/error.cpp
+++ b/src/utils/error.cpp
@@ -59,21 +59,48 @@ namespace detail {
         }
     }
 
+    // Reporting a failure must not fail itself: formatting can run out of memory, in which case the error is reported
+    // without details, and the log callback is allowed to throw
+    template<typename... Args>
+    void log_error_noexcept(const char* format, const Args&... args) noexcept {
+        std::string message;
+        const char* text = "Unhandled cpptrace internal error";
+        try {
+            message = microfmt::format(format, args...);
+            text = message.c_str();
+        } catch(...) {} // NOSONAR
+        try {
+            log::error(text);
+        } catch(...) {} // NOSONAR
+    }
+
+    template<typename F>
+    std::string string_or_unknown(F&& f) noexcept {
+        try {
+            return f();
+        } catch(...) {
+            return "<unknown>";
+        }
+    }
+
     void log_and_maybe_propagate_exception(std::exception_ptr ptr) {
         try {
             if(ptr) {
                 std::rethrow_exception(ptr);
             }
         } catch(const internal_error& e) {
-            log::error("Unhandled cpptrace internal error: {}", e.what());
+            log_error_noexcept("Unhandled cpptrace internal error: {}", e.what());
         } catch(const std::exception& e) {
-            log::error(
+            log_error_noexcept(
                 "Unhandled cpptrace internal error of type {}: {}",
-                cpptrace::demangle(typeid(e).name()),
+                string_or_unknown([&] { return cpptrace::demangle(typeid(e).name()); }),
                 e.what()
             );
         } catch(...) {
-            log::error("Unhandled cpptrace internal error of type {}", detail::exception_type_name());
+            log_error_noexcept(
+                "Unhandled cpptrace internal error of type {}",
+                string_or_unknown([] { return detail::exception_type_name(); })
+            );
         }
         if(!should_absorb_trace_exceptions()) {
             if(ptr) {
-- 
2.43.0


From 92e1def5fe28e0a9ee4e8a8807bb31db8c296b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 06/28] fix: replacing the log callback raced with threads that
 were logging

---
 src/logging.cpp | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/logging.cpp b/src/logging.cpp
index 98045ef..397d265 100644
--- a/src/logging.cpp
+++ b/src/logging.cpp
@@ -4,6 +4,9 @@
 #include <cpptrace/utils.hpp>
 
 #include <atomic>
+#include <functional>
+#include <memory>
+#include <mutex>
 
 CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
@@ -15,16 +18,43 @@ namespace detail {
         microfmt::print(std::cerr, "[cpptrace {}] {}\n", to_string(level), message);
     }
 
-    std::function<void(log_level, const char*)>& log_callback() {
-        static std::function<void(log_level, const char*)> callback{default_null_logger};
-        return callback;
+    using log_callback_type = std::function<void(log_level, const char*)>;
+
+    // The callback may be replaced while other threads are logging, so it is shared with the calls in progress. It is
+    // called without the lock held so that it may itself log or replace the callback.
+    struct log_callback_holder {
+        std::mutex mutex;
+        std::shared_ptr<const log_callback_type> callback = std::make_shared<const log_callback_type>(
+            default_null_logger
+        );
+    };
+
+    log_callback_holder& get_log_callback_holder() {
+        static log_callback_holder holder;
+        return holder;
+    }
+
+    std::shared_ptr<const log_callback_type> get_log_callback() {
+        auto& holder = get_log_callback_holder();
+        std::lock_guard<std::mutex> lock{holder.mutex};
+        return holder.callback;
+    }
+
+    void exchange_log_callback(log_callback_type callback) {
+        auto new_callback = std::make_shared<const log_callback_type>(std::move(callback));
+        auto& holder = get_log_callback_holder();
+        {
+            std::lock_guard<std::mutex> lock{holder.mutex};
+            holder.callback.swap(new_callback);
+        }
+        // the previous callback is destroyed here, outside the lock
     }
 
     void do_log(log_level level, const char* message) {
         if(level < current_log_level) {
             return;
         }
-        log_callback()(level, message);
+        (*get_log_callback())(level, message);
     }
 
     namespace log {
@@ -53,11 +83,11 @@ CPPTRACE_BEGIN_NAMESPACE
     }
 
     void set_log_callback(std::function<void(log_level, const char*)> callback) {
-        detail::log_callback() = std::move(callback);
+        detail::exchange_log_callback(std::move(callback));
     }
 
     void use_default_stderr_logger() {
-        detail::log_callback() = detail::default_stderr_logger;
+        detail::exchange_log_callback(detail::default_stderr_logger);
     }
 
     const char* to_string(log_level level) {
-- 
2.43.0


From 8bc3b97466a588f3074aa03b67a5ec755dbc4b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 07/28] fix: one failure to read an object file lost its
 addresses for good

open_elf_cached remembered the failure and elf remembered a failed header load, so after a passing error (descriptor
limit, interrupted read) every later lookup in that object gave object address 0.
---
 src/binary/elf.cpp | 16 ++++++++--------
 src/binary/elf.hpp |  1 -
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 655fa9f..b5a01a7 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -226,10 +226,6 @@ namespace detail {
         if(header) {
             return header.unwrap();
         }
-        if(tried_to_load_header) {
-            return internal_error("previous header load failed {}", file->path());
-        }
-        tried_to_load_header = true;
         if(is_64) {
             return get_header_info_impl<64>();
         } else {
@@ -471,15 +467,19 @@ namespace detail {
         } else {
             static std::mutex m;
             std::unique_lock<std::mutex> lock{m};
-            // TODO: Re-evaluate storing the error
-            static std::unordered_map<std::string, Result<elf, internal_error>> cache;
+            // Errors aren't stored, the reason the file couldn't be read may be gone next time
+            static std::unordered_map<std::string, elf> cache;
             auto it = cache.find(object_path);
             if(it == cache.end()) {
-                auto res = cache.emplace(object_path, elf::open(object_path));
+                auto object = elf::open(object_path);
+                if(object.is_error()) {
+                    return std::move(object).unwrap_error();
+                }
+                auto res = cache.emplace(object_path, std::move(object).unwrap_value());
                 VERIFY(res.second);
                 it = res.first;
             }
-            return it->second.transform([](elf& obj) { return maybe_owned<elf>(&obj); });
+            return maybe_owned<elf>(&it->second);
         }
     }
 }
diff --git a/src/binary/elf.hpp b/src/binary/elf.hpp
index 02c68df..e100f37 100644
--- a/src/binary/elf.hpp
+++ b/src/binary/elf.hpp
@@ -30,7 +30,6 @@ namespace detail {
             uint32_t e_shentsize;
             uint16_t e_shstrndx;
         };
-        bool tried_to_load_header = false;
         optional<header_info> header;
 
         struct section_info {
-- 
2.43.0


From 4b14506cae97e470c748a3303fcff4d78eb0475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:36 +0000
Subject: [PATCH 08/28] fix: the JIT object registry raced and could be left
 half registered

Registering, unregistering and resolving run on different threads, the
registry had no synchronisation and an object could be unregistered while
another thread read it. A failure half way through registration left an
object listed with only some (or none) of its ranges.
---
 src/jit/jit_objects.cpp | 17 +++++++++++++----
 src/jit/jit_objects.hpp |  4 ++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/jit/jit_objects.cpp b/src/jit/jit_objects.cpp
index 8488bab..8c9245e 100644
--- a/src/jit/jit_objects.cpp
+++ b/src/jit/jit_objects.cpp
@@ -11,6 +11,7 @@
 #include <iostream>
 #include <fstream>
 #include <map>
+#include <mutex>
 #include <vector>
 
 CPPTRACE_BEGIN_NAMESPACE
@@ -35,6 +36,8 @@ namespace detail {
         // TODO: Maybe use a set...
         std::vector<range_entry> range_list;
 
+        mutable std::mutex mutex;
+
     public:
         void add_jit_object(cbspan object) {
             auto object_res = jit_object_type::open(object);
@@ -44,8 +47,7 @@ namespace detail {
                 }
                 return;
             }
-            objects.push_back({object.data(), make_unique<jit_object_type>(std::move(object_res).unwrap_value())});
-            auto* object_file = objects.back().object.get();
+            auto object_file = make_unique<jit_object_type>(std::move(object_res).unwrap_value());
             auto ranges_res = object_file->get_pc_ranges();
             if(ranges_res.is_error()) {
                 if(!should_absorb_trace_exceptions()) {
@@ -54,14 +56,19 @@ namespace detail {
                 return;
             }
             auto& ranges = ranges_res.unwrap_value();
+            std::lock_guard<std::mutex> lock{mutex};
+            // Allocate up front, nothing is registered if that fails
+            range_list.reserve(range_list.size() + ranges.size());
+            objects.push_back({object.data(), std::move(object_file)});
             for(auto range : ranges) {
-                range_entry entry{range.low, range.high, object.data(), object_file};
+                range_entry entry{range.low, range.high, object.data(), objects.back().object.get()};
                 // TODO: Perf
                 range_list.insert(std::upper_bound(range_list.begin(), range_list.end(), entry), entry);
             }
         }
 
         void remove_jit_object(const char* ptr) {
+            std::lock_guard<std::mutex> lock{mutex};
             // TODO: Perf
             objects.erase(
                 std::remove_if(
@@ -82,6 +89,7 @@ namespace detail {
         }
 
         optional<jit_object_lookup_result> lookup(frame_ptr pc) const {
+            std::unique_lock<std::mutex> lock{mutex};
             auto it = first_less_than_or_equal(
                 range_list.begin(),
                 range_list.end(),
@@ -95,13 +103,14 @@ namespace detail {
             }
             ASSERT(pc >= it->low);
             if(pc < it->high) {
-                return jit_object_lookup_result{*it->object, it->low};
+                return jit_object_lookup_result{*it->object, it->low, std::move(lock)};
             } else {
                 return nullopt;
             }
         }
 
         void clear_all_jit_objects() {
+            std::lock_guard<std::mutex> lock{mutex};
             objects.clear();
             range_list.clear();
         }
diff --git a/src/jit/jit_objects.hpp b/src/jit/jit_objects.hpp
index 8f952b3..c46b91f 100644
--- a/src/jit/jit_objects.hpp
+++ b/src/jit/jit_objects.hpp
@@ -7,6 +7,8 @@
 #include "utils/optional.hpp"
 #include "platform/platform.hpp"
 
+#include <mutex>
+
 CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
     void register_jit_object(const char*, std::size_t);
@@ -22,6 +24,8 @@ namespace detail {
     struct jit_object_lookup_result {
         jit_object_type& object;
         frame_ptr base;
+        // objects are read lazily and may be unregistered by another thread, so the result holds on to the registry
+        std::unique_lock<std::mutex> lock;
     };
     optional<jit_object_lookup_result> lookup_jit_object(frame_ptr pc);
     #endif
-- 
2.43.0


From d7a551a2d64612552803185fe2f8d7d067b3b893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 09/28] fix: big-endian object files were rejected

e_ehsize was the one header field compared without byteswapping.
---
 src/binary/elf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index b5a01a7..caca1df 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -242,7 +242,7 @@ namespace detail {
             return std::move(loaded_header).unwrap_error();
         }
         const Header& file_header = loaded_header.unwrap_value();
-        if(file_header.e_ehsize != sizeof(Header)) {
+        if(byteswap_if_needed(file_header.e_ehsize) != sizeof(Header)) {
             return internal_error("ELF file header size mismatch {}", file->path());
         }
         header_info info;
-- 
2.43.0


From 41348b78abb250724f4d5fd3867b1d7f00ed8e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:35 +0000
Subject: [PATCH 10/28] fix: corrupt section tables made the ELF reader read
 and allocate out of bounds

String offsets were used unchecked, the size check of in-memory objects could
overflow, section sizes were allocated before checking that the file is that
large, and a symbol was reported for the address one past its end.
---
 src/binary/elf.cpp                | 31 ++++++++++++++++++++++++++++---
 src/binary/elf.hpp                |  3 +++
 src/utils/io/memory_file_view.cpp |  2 +-
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index caca1df..40f69dd 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -143,7 +143,7 @@ namespace detail {
         if(it == symtab.entries.end()) {
             return nullopt;
         }
-        if(pc <= it->st_value + it->st_size) {
+        if(pc - it->st_value < it->st_size && it->st_name < strtab.size()) {
             return strtab.data() + it->st_name;
         }
         return nullopt;
@@ -167,7 +167,7 @@ namespace detail {
         }
         const auto& sections = sections_res.unwrap_value();
         for(const auto& section : sections) {
-            if(string_view(strtab.data() + section.sh_name) == ".text") {
+            if(section.sh_name < strtab.size() && string_view(strtab.data() + section.sh_name) == ".text") {
                 vec.push_back(
                     pc_range{to<frame_ptr>(section.sh_addr), to<frame_ptr>(section.sh_addr + section.sh_size)}
                 );
@@ -204,7 +204,9 @@ namespace detail {
         std::vector<symbol_entry> res;
         for(const auto& entry : info.entries) {
             res.push_back({
-                strtab.has_value() ? strtab.unwrap().data() + entry.st_name : "<strtab error>",
+                strtab.has_value() && entry.st_name < strtab.unwrap().size()
+                    ? strtab.unwrap().data() + entry.st_name
+                    : "<strtab error>",
                 entry.st_shndx,
                 entry.st_value,
                 entry.st_size
@@ -301,6 +303,21 @@ namespace detail {
         return sections;
     }
 
+    Result<monostate, internal_error> elf::check_extent(const section_info& section) {
+        if(section.sh_size == 0) {
+            return monostate{};
+        }
+        auto last = section.sh_offset + (section.sh_size - 1);
+        if(last < section.sh_offset) {
+            return internal_error("elf seems corrupted, section extent overflows {}", file->path());
+        }
+        auto res = file->read<char>(to<off_t>(last));
+        if(res.is_error()) {
+            return std::move(res).unwrap_error();
+        }
+        return monostate{};
+    }
+
     Result<const std::vector<char>&, internal_error> elf::get_strtab(std::size_t index) {
         auto res = strtab_entries.insert({index, {}});
         auto it = res.first;
@@ -327,6 +344,10 @@ namespace detail {
         if(section.sh_type != SHT_STRTAB) {
             return internal_error("requested strtab section not a strtab (requested {} of {})", index, file->path());
         }
+        auto extent_res = check_extent(section);
+        if(!extent_res) {
+            return extent_res.unwrap_error();
+        }
         entry.data.resize(section.sh_size + 1);
         auto read_res = file->read_bytes(
             span<char>{entry.data.data(), to<std::size_t>(section.sh_size)},
@@ -419,6 +440,10 @@ namespace detail {
                 if(section.sh_size % section.sh_entsize != 0) {
                     return internal_error("elf seems corrupted, sym entry vs section size mismatch {}", file->path());
                 }
+                auto extent_res = check_extent(section);
+                if(!extent_res) {
+                    return extent_res.unwrap_error();
+                }
                 std::vector<SymEntry> buffer(section.sh_size / section.sh_entsize);
                 auto res = file->read_span(make_span(buffer.begin(), buffer.end()), section.sh_offset);
                 if(!res) {
diff --git a/src/binary/elf.hpp b/src/binary/elf.hpp
index e100f37..ece30ca 100644
--- a/src/binary/elf.hpp
+++ b/src/binary/elf.hpp
@@ -126,6 +126,9 @@ namespace detail {
         template<std::size_t Bits>
         Result<const std::vector<section_info>&, internal_error> get_sections_impl();
 
+        // checks that the section lies inside the file, to be done before allocating memory for its contents
+        Result<monostate, internal_error> check_extent(const section_info& section);
+
         Result<const std::vector<char>&, internal_error> get_strtab(std::size_t index);
 
         Result<const optional<symtab_info>&, internal_error> get_symtab();
diff --git a/src/utils/io/memory_file_view.cpp b/src/utils/io/memory_file_view.cpp
index 30d11fb..88181ae 100644
--- a/src/utils/io/memory_file_view.cpp
+++ b/src/utils/io/memory_file_view.cpp
@@ -10,7 +10,7 @@ namespace detail {
         if(offset < 0) {
             return internal_error("Illegal read in memory file {}: offset {}", path(), offset);
         }
-        if(offset + buffer.size() > data.size()) {
+        if(to<std::size_t>(offset) > data.size() || buffer.size() > data.size() - to<std::size_t>(offset)) {
             return internal_error(
                 "Illegal read in memory file {}: offset = {}, size = {}, file size = {}",
                 path(), offset, buffer.size(), data.size()
-- 
2.43.0


From eaa67c65b44931a545fb3797edab166eee9683c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:21 +0000
Subject: [PATCH 11/28] fix: a failed insertion left a dangling entry in
 lru_cache

---
 src/utils/lru_cache.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils/lru_cache.hpp b/src/utils/lru_cache.hpp
index 2841e17..876f09f 100644
--- a/src/utils/lru_cache.hpp
+++ b/src/utils/lru_cache.hpp
@@ -79,7 +79,12 @@ namespace detail {
                 return nullopt;
             }
             auto map_it = pair.first;
-            lru.push_front({key, std::move(value)});
+            try {
+                lru.push_front({key, std::move(value)});
+            } catch(...) {
+                map.erase(map_it);
+                throw;
+            }
             map_it->second = lru.begin();
             maybe_trim();
             return lru.front().value;
-- 
2.43.0


From b326db5d2e4823229713bff31c5870cb122bc5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:04 +0000
Subject: [PATCH 12/28] fix: snippets of short or unreadable files read out of
 bounds or showed padding

A target line beyond the end of the file indexed past the collected lines, very
large context sizes overflowed, and a failed or short read showed NUL bytes as
source text.
---
 src/snippets/snippet.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/snippets/snippet.cpp b/src/snippets/snippet.cpp
index cee92e6..87f412d 100644
--- a/src/snippets/snippet.cpp
+++ b/src/snippets/snippet.cpp
@@ -40,7 +40,8 @@ namespace detail {
                     file.seekg(0, std::ios::beg);
                     contents.resize(to<std::size_t>(size));
                     if(!file.read(&contents[0], size)) {
-                        // error ...
+                        // the file couldn't be read completely, there are no lines that can be relied on
+                        return;
                     }
                     build_line_table();
                     loaded_contents = true;
@@ -52,7 +53,7 @@ namespace detail {
 
         // takes a 1-index line
         std::string get_line(std::size_t line) const {
-            if(!loaded_contents || line > line_table.size()) {
+            if(!loaded_contents || line >= line_table.size()) {
                 return "";
             } else {
                 return contents.substr(line_table[line].begin, line_table[line].end - line_table[line].begin);
@@ -115,9 +116,13 @@ namespace detail {
         if(!manager.ok()) {
             return nullopt;
         }
-        auto begin = target_line <= context_size + 1 ? 1 : target_line - context_size;
+        const auto last_line = manager.num_lines() - 1; // the line table is 1-based
+        if(target_line > last_line) {
+            return nullopt;
+        }
+        auto begin = target_line <= context_size ? 1 : std::max(target_line - context_size, std::size_t(1));
         auto original_begin = begin;
-        auto end = std::min(target_line + context_size, manager.num_lines() - 1);
+        auto end = context_size > last_line - target_line ? last_line : target_line + context_size;
         std::vector<std::string> lines;
         for(auto line = begin; line <= end; line++) {
             lines.push_back(manager.get_line(line));
-- 
2.43.0


From 9fe999cd0d9403ea27c26ccf20ea644492d627e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:04 +0000
Subject: [PATCH 13/28] fix: one failure to read a source file disabled its
 snippets for good

---
 src/snippets/snippet.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/snippets/snippet.cpp b/src/snippets/snippet.cpp
index 87f412d..8b2991d 100644
--- a/src/snippets/snippet.cpp
+++ b/src/snippets/snippet.cpp
@@ -89,16 +89,20 @@ namespace detail {
         }
     };
 
-    const snippet_manager& get_manager(const std::string& path) {
+    optional<const snippet_manager&> get_manager(const std::string& path) {
         static std::mutex snippet_manager_mutex;
         static std::unordered_map<std::string, const snippet_manager> snippet_managers;
         std::unique_lock<std::mutex> lock(snippet_manager_mutex);
         auto it = snippet_managers.find(path);
         if(it == snippet_managers.end()) {
-            return snippet_managers.insert({path, snippet_manager(path)}).first->second;
-        } else {
-            return it->second;
+            snippet_manager manager(path);
+            if(!manager.ok()) {
+                // Failures aren't stored, the file may be readable next time
+                return nullopt;
+            }
+            it = snippet_managers.insert({path, std::move(manager)}).first;
         }
+        return it->second;
     }
 
     // how wide the margin for the line number should be
@@ -112,10 +116,11 @@ namespace detail {
     };
 
     optional<snippet_context> get_lines(const std::string& path, std::size_t target_line, std::size_t context_size) {
-        const auto& manager = get_manager(path);
-        if(!manager.ok()) {
+        const auto maybe_manager = get_manager(path);
+        if(!maybe_manager) {
             return nullopt;
         }
+        const auto& manager = maybe_manager.unwrap();
         const auto last_line = manager.num_lines() - 1; // the line table is 1-based
         if(target_line > last_line) {
             return nullopt;
-- 
2.43.0


From b4d23f4bdf6da67c3e4e7684dcd581215d86a3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:04 +0000
Subject: [PATCH 14/28] fix: the snippet caret was misplaced for line numbers
 of six digits and more

---
 src/snippets/snippet.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/snippets/snippet.cpp b/src/snippets/snippet.cpp
index 8b2991d..2dfb1a2 100644
--- a/src/snippets/snippet.cpp
+++ b/src/snippets/snippet.cpp
@@ -165,9 +165,11 @@ namespace detail {
         return snippet;
     }
 
-    std::string write_carrot(std::uint32_t column, bool color) {
+    std::string write_carrot(std::size_t line, std::uint32_t column, bool color) {
         std::string snippet;
-        snippet += microfmt::format("\n{>{}}", margin_width + 2 + column - 1, "");
+        // long line numbers don't fit in the margin, see write_line_number
+        const auto width = std::max(margin_width, std::to_string(line).size() + 3);
+        snippet += microfmt::format("\n{>{}}", width + 2 + column - 1, "");
         if(color) {
             snippet += YELLOW;
         }
@@ -189,7 +191,7 @@ namespace detail {
         snippet += write_line_number(line, target_line, color);
         snippet += context.lines[line - context.original_begin];
         if(line == target_line && column.has_value()) {
-            snippet += write_carrot(column.value(), color);
+            snippet += write_carrot(line, column.value(), color);
         }
         return snippet;
     }
-- 
2.43.0


From cf3a7980a7d6fe31ce2f54a7e73bf5711a5d289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:05 +0000
Subject: [PATCH 15/28] fix: a failed capture left the previous exception's
 trace in place

---
 src/from_current.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/from_current.cpp b/src/from_current.cpp
index c620523..b3b7c68 100644
--- a/src/from_current.cpp
+++ b/src/from_current.cpp
@@ -56,6 +56,7 @@ namespace detail {
              #endif
              save_current_trace(std::move(trace));
          } catch(...) {
+             save_current_trace(raw_trace{}); // don't leave another exception's trace behind
              detail::log_and_maybe_propagate_exception(std::current_exception());
          }
      }
@@ -65,6 +66,7 @@ namespace detail {
              auto trace = raw_trace{detail::capture_frames(skip + 1, SIZE_MAX)};
              save_current_trace(std::move(trace));
          } catch(...) {
+             save_current_trace(raw_trace{}); // don't leave another exception's trace behind
              detail::log_and_maybe_propagate_exception(std::current_exception());
          }
      }
-- 
2.43.0


From bb432b828ec6075a3109327b5e0959b22b0533fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:32 +0000
Subject: [PATCH 16/28] fix: running out of memory while preparing from_current
 ended the program

---
 src/from_current.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/from_current.cpp b/src/from_current.cpp
index b3b7c68..451ef09 100644
--- a/src/from_current.cpp
+++ b/src/from_current.cpp
@@ -410,9 +410,14 @@ CPPTRACE_BEGIN_NAMESPACE
                     can_catch
                 );
             } catch(std::exception& e) {
-                detail::log::error("Exception occurred while preparing from_current support: {}", e.what());
+                // this runs during static initialization, an exception out of the logging would end the program
+                try {
+                    detail::log::error("Exception occurred while preparing from_current support: {}", e.what());
+                } catch(...) {} // NOSONAR
             } catch(...) {
-                detail::log::error("Unknown exception occurred while preparing from_current support");
+                try {
+                    detail::log::error("Unknown exception occurred while preparing from_current support");
+                } catch(...) {} // NOSONAR
             }
         }
         #endif
-- 
2.43.0


From f7a37d1d06dc33652bdfe7cdc4d938f8a432eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 17/28] fix: interception left pages of later loaded libraries
 with wrong access rights

---
 src/from_current.cpp            |  2 +-
 src/platform/memory_mapping.cpp | 18 ++++--------------
 2 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/from_current.cpp b/src/from_current.cpp
index 451ef09..bc2b14a 100644
--- a/src/from_current.cpp
+++ b/src/from_current.cpp
@@ -263,7 +263,7 @@ namespace detail {
 
         // shouldn't be anything other than 4096 but out of an abundance of caution
         auto page_size = get_page_size();
-        if(page_size <= 0 && is_positive_power_of_two(page_size)) {
+        if(page_size <= 0 || !is_positive_power_of_two(page_size)) {
             throw internal_error("getpagesize() is not a power of 2 greater than zero (was {})", page_size);
         }
         if(static_cast<size_t>(page_size) < vtable_size * sizeof(void*)) {
diff --git a/src/platform/memory_mapping.cpp b/src/platform/memory_mapping.cpp
index e0b092a..82f7a5e 100644
--- a/src/platform/memory_mapping.cpp
+++ b/src/platform/memory_mapping.cpp
@@ -208,20 +208,10 @@ namespace detail {
         throw internal_error("Couldn't successfully load /proc/self/maps after {} retries", n);
     }
 
-    const std::vector<address_range>& load_mapped_region_info() {
-        static std::vector<address_range> regions;
-        static bool has_loaded = false;
-        if(!has_loaded) {
-            has_loaded = true;
-            if(auto info = try_load_mapped_region_info_with_retries(2)) {
-                regions = std::move(info).unwrap();
-            }
-        }
-        return regions;
-    }
-
     int get_page_protections(void* page) {
-        const auto& mapped_region_info = load_mapped_region_info();
+        // not cached: libraries are loaded and unloaded, and a page they occupy now may have been mapped differently or
+        // not at all before
+        const auto mapped_region_info = try_load_mapped_region_info_with_retries(2).unwrap();
         auto it = first_less_than_or_equal(
             mapped_region_info.begin(),
             mapped_region_info.end(),
@@ -230,7 +220,7 @@ namespace detail {
                 return a < b.low;
             }
         );
-        if(it == mapped_region_info.end()) {
+        if(it == mapped_region_info.end() || reinterpret_cast<uintptr_t>(page) >= it->high) {
             throw internal_error(
                 "Failed to find mapping for {>16:0h} in /proc/self/maps",
                 reinterpret_cast<uintptr_t>(page)
-- 
2.43.0


From cd6c28e34d34a2b6b0e23877e5c9ab02f452230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:24 +0000
Subject: [PATCH 18/28] fix: traces were off by frames for zero limits, large
 skips, interrupted frames and the safe C entry point

A max_depth of zero gave one frame or tripped an assertion, execinfo traces
with a skip beyond the stack underflowed and large skips allocated without
bound, libunwind traces moved the address of a frame interrupted by a signal
out of its instruction, and ctrace_safe_generate_raw_trace counted itself.
---
 src/ctrace.cpp                       |  7 ++++++-
 src/unwind/unwind_with_execinfo.cpp  | 16 +++++++++++++---
 src/unwind/unwind_with_libunwind.cpp | 10 ++++++++--
 src/unwind/unwind_with_unwind.cpp    |  3 +++
 4 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index a81841f..05c8ff2 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -296,8 +296,13 @@ extern "C" {
     }
 
     // ctrace::safe:
+    CTRACE_FORCE_NO_INLINE
     size_t ctrace_safe_generate_raw_trace(ctrace_frame_ptr* buffer, size_t size, size_t skip, size_t max_depth) {
-        return cpptrace::safe_generate_raw_trace(buffer, size, skip, max_depth);
+        try { // try/catch can never be hit but it's needed to prevent TCO
+            return cpptrace::safe_generate_raw_trace(buffer, size, skip + 1, max_depth);
+        } catch(...) {
+            return 0;
+        }
     }
 
     void ctrace_get_safe_object_frame(ctrace_frame_ptr address, ctrace_safe_object_frame* out) {
diff --git a/src/unwind/unwind_with_execinfo.cpp b/src/unwind/unwind_with_execinfo.cpp
index ef6e205..ffd08ca 100644
--- a/src/unwind/unwind_with_execinfo.cpp
+++ b/src/unwind/unwind_with_execinfo.cpp
@@ -16,12 +16,22 @@ namespace detail {
     CPPTRACE_FORCE_NO_INLINE
     std::vector<frame_ptr> capture_frames(std::size_t skip, std::size_t max_depth) {
         skip++;
-        std::vector<void*> addrs(skip + std::min(hard_max_frames, max_depth), nullptr);
+        const std::size_t wanted = std::min(hard_max_frames, max_depth);
+        // skip can be anything, the stack is usually much smaller
+        const std::size_t limit = std::min<std::size_t>(skip, INT_MAX - hard_max_frames) + wanted;
+        std::vector<void*> addrs(std::min(limit, 2 * hard_max_frames), nullptr);
         // thread safe
-        const int n_frames = backtrace(addrs.data(), static_cast<int>(addrs.size()));
+        int n_frames = backtrace(addrs.data(), static_cast<int>(addrs.size()));
+        while(static_cast<std::size_t>(n_frames) == addrs.size() && addrs.size() < limit) {
+            addrs.resize(addrs.size() < limit / 2 ? addrs.size() * 2 : limit);
+            n_frames = backtrace(addrs.data(), static_cast<int>(addrs.size()));
+        }
+        if(skip >= static_cast<std::size_t>(n_frames)) {
+            return {};
+        }
         // I hate the copy here but it's the only way that isn't UB
         std::vector<frame_ptr> frames(n_frames - skip, 0);
-        for(int i = skip; i < n_frames; i++) {
+        for(std::size_t i = skip; i < static_cast<std::size_t>(n_frames); i++) {
             // On x86/x64/arm, as far as I can tell, the frame return address is always one after the call
             // So we just decrement to get the pc back inside the `call` / `bl`
             // This is done with _Unwind too but conditionally based on info from _Unwind_GetIPInfo.
diff --git a/src/unwind/unwind_with_libunwind.cpp b/src/unwind/unwind_with_libunwind.cpp
index f33a5f2..0a9b63e 100644
--- a/src/unwind/unwind_with_libunwind.cpp
+++ b/src/unwind/unwind_with_libunwind.cpp
@@ -22,18 +22,24 @@ namespace detail {
         unw_cursor_t cursor;
         unw_getcontext(&context);
         unw_init_local(&cursor, &context);
-        do {
+        while(frames.size() < max_depth) {
             unw_word_t pc;
             unw_word_t sp;
             unw_get_reg(&cursor, UNW_REG_IP, &pc);
             unw_get_reg(&cursor, UNW_REG_SP, &sp);
             if(skip) {
                 skip--;
+            } else if(unw_is_signal_frame(&cursor)) {
+                // pc is the instruction that caused the signal
+                frames.push_back(to_frame_ptr(pc));
             } else {
                 // pc is the instruction after the `call`, adjust back to the previous instruction
                 frames.push_back(to_frame_ptr(pc) - 1);
             }
-        } while(unw_step(&cursor) > 0 && frames.size() < max_depth);
+            if(unw_step(&cursor) <= 0) {
+                break;
+            }
+        }
         return frames;
     }
 
diff --git a/src/unwind/unwind_with_unwind.cpp b/src/unwind/unwind_with_unwind.cpp
index fddae8e..64e5085 100644
--- a/src/unwind/unwind_with_unwind.cpp
+++ b/src/unwind/unwind_with_unwind.cpp
@@ -55,6 +55,9 @@ namespace detail {
     CPPTRACE_FORCE_NO_INLINE
     std::vector<frame_ptr> capture_frames(std::size_t skip, std::size_t max_depth) {
         std::vector<frame_ptr> frames;
+        if(max_depth == 0) {
+            return frames;
+        }
         unwind_state state{skip + 1, max_depth, frames};
         _Unwind_Backtrace(unwind_callback, &state); // presumably thread-safe
         return frames;
-- 
2.43.0


From d141506920e168593a897c38ae711e6d04bddf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:22 +0000
Subject: [PATCH 19/28] fix: the C interface terminated or leaked when memory
 ran out, and crashed on null text

---
 src/ctrace.cpp | 85 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 59 insertions(+), 26 deletions(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index 05c8ff2..c5339d8 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -1,6 +1,7 @@
 #include <ctrace/ctrace.h>
 #include <cpptrace/cpptrace.hpp>
 #include <algorithm>
+#include <memory>
 
 #include "symbols/symbols.hpp"
 #include "unwind/unwind.hpp"
@@ -67,7 +68,7 @@ CTRACE_FORMAT_EPILOGUE
         return !str || std::char_traits<char>::length(str) == 0;
     }
 
-    static ctrace_owning_string generate_owning_string(cpptrace::detail::string_view raw_string) noexcept {
+    static ctrace_owning_string generate_owning_string(cpptrace::detail::string_view raw_string) {
         // Returns length to the null terminator.
         char* new_string = new char[raw_string.size() + 1];
         std::char_traits<char>::copy(new_string, raw_string.data(), raw_string.size());
@@ -84,16 +85,33 @@ CTRACE_FORMAT_EPILOGUE
         free_owning_string(owned_string.data);
     }
 
+    // null on failure
+    static ctrace_owning_string try_generate_owning_string(cpptrace::detail::string_view raw_string) noexcept {
+        try {
+            return generate_owning_string(raw_string);
+        } catch(...) { // NOSONAR
+            // Don't check rethrow condition, it's risky.
+            return { nullptr };
+        }
+    }
+
     static ctrace_object_frame convert_object_frame(const cpptrace::object_frame& frame) {
         const char* new_path = generate_owning_string(frame.object_path).data;
         return { frame.raw_address, frame.object_address, new_path };
     }
 
     static ctrace_object_trace c_convert(const std::vector<cpptrace::object_frame>& trace) {
-        std::size_t count = trace.size();
-        auto* frames = new ctrace_object_frame[count];
-        std::transform(trace.begin(), trace.end(), frames, convert_object_frame);
-        return { frames, count };
+        ctrace_object_trace new_trace{ new ctrace_object_frame[trace.size()], 0 };
+        try {
+            for(const auto& frame : trace) {
+                new_trace.frames[new_trace.count] = convert_object_frame(frame);
+                new_trace.count++;
+            }
+        } catch(...) {
+            ctrace_free_object_trace(&new_trace);
+            throw;
+        }
+        return new_trace;
     }
 
     static ctrace_stacktrace_frame convert_stacktrace_frame(const cpptrace::stacktrace_frame& frame) {
@@ -102,9 +120,11 @@ CTRACE_FORMAT_EPILOGUE
         new_frame.object_address = frame.object_address;
         new_frame.line      = frame.line.value_or(invalid_pos);
         new_frame.column    = frame.column.value_or(invalid_pos);
-        new_frame.filename  = generate_owning_string(frame.filename).data;
-        new_frame.symbol    = generate_owning_string(cpptrace::detail::demangle(frame.symbol, true)).data;
         new_frame.is_inline = ctrace_bool(frame.is_inline);
+        std::string symbol  = cpptrace::detail::demangle(frame.symbol, true);
+        std::unique_ptr<const char[]> filename(generate_owning_string(frame.filename).data);
+        new_frame.symbol    = generate_owning_string(symbol).data;
+        new_frame.filename  = filename.release();
         return new_frame;
     }
 
@@ -116,21 +136,24 @@ CTRACE_FORMAT_EPILOGUE
         new_frame.object_address = frame.object_address;
         new_frame.line      = nullable_type{is_empty(frame.line)   ? null_v : frame.line};
         new_frame.column    = nullable_type{is_empty(frame.column) ? null_v : frame.column};
-        new_frame.filename  = frame.filename;
-        new_frame.symbol    = frame.symbol;
+        new_frame.filename  = frame.filename ? frame.filename : "";
+        new_frame.symbol    = frame.symbol ? frame.symbol : "";
         new_frame.is_inline = bool(frame.is_inline);
         return new_frame;
     }
 
     static ctrace_stacktrace c_convert(const std::vector<cpptrace::stacktrace_frame>& trace) {
-        std::size_t count = trace.size();
-        auto* frames = new ctrace_stacktrace_frame[count];
-        std::transform(
-            trace.begin(),
-            trace.end(), frames,
-            static_cast<ctrace_stacktrace_frame(*)(const cpptrace::stacktrace_frame&)>(convert_stacktrace_frame)
-        );
-        return { frames, count };
+        ctrace_stacktrace new_trace{ new ctrace_stacktrace_frame[trace.size()], 0 };
+        try {
+            for(const auto& frame : trace) {
+                new_trace.frames[new_trace.count] = convert_stacktrace_frame(frame);
+                new_trace.count++;
+            }
+        } catch(...) {
+            ctrace_free_stacktrace(&new_trace);
+            throw;
+        }
+        return new_trace;
     }
 
     static cpptrace::stacktrace cpp_convert(const ctrace_stacktrace* ptrace) {
@@ -149,7 +172,7 @@ CTRACE_FORMAT_EPILOGUE
 extern "C" {
     // ctrace::string
     ctrace_owning_string ctrace_generate_owning_string(const char* raw_string) {
-        return ctrace::generate_owning_string(raw_string);
+        return ctrace::try_generate_owning_string(raw_string ? raw_string : "");
     }
 
     void ctrace_free_owning_string(ctrace_owning_string* string) {
@@ -322,11 +345,16 @@ extern "C" {
     // ctrace::io:
     ctrace_owning_string ctrace_stacktrace_to_string(const ctrace_stacktrace* trace, ctrace_bool use_color) {
         if(!trace || !trace->frames) {
-            return ctrace::generate_owning_string("<empty trace>");
+            return ctrace::try_generate_owning_string("<empty trace>");
+        }
+        try {
+            auto cpp_trace = ctrace::cpp_convert(trace);
+            std::string trace_string = cpp_trace.to_string(bool(use_color));
+            return ctrace::generate_owning_string(trace_string);
+        } catch(...) { // NOSONAR
+            // Don't check rethrow condition, it's risky.
+            return { nullptr };
         }
-        auto cpp_trace = ctrace::cpp_convert(trace);
-        std::string trace_string = cpp_trace.to_string(bool(use_color));
-        return ctrace::generate_owning_string(trace_string);
     }
 
     void ctrace_print_stacktrace(const ctrace_stacktrace* trace, FILE* to, ctrace_bool use_color) {
@@ -339,7 +367,7 @@ extern "C" {
             cpptrace::detail::enable_virtual_terminal_processing_if_needed();
         }
         ctrace::ffprintf(to, "Stack trace (most recent call first):\n");
-        if(trace->count == 0 || !trace->frames) {
+        if(!trace || trace->count == 0 || !trace->frames) {
             ctrace::ffprintf(to, "<empty trace>\n");
             return;
         }
@@ -399,10 +427,15 @@ extern "C" {
     // utility::demangle:
     ctrace_owning_string ctrace_demangle(const char* mangled) {
         if(!mangled) {
-            return ctrace::generate_owning_string("");
+            return ctrace::try_generate_owning_string("");
+        }
+        try {
+            std::string demangled = cpptrace::demangle(mangled);
+            return ctrace::generate_owning_string(demangled);
+        } catch(...) { // NOSONAR
+            // Don't check rethrow condition, it's risky.
+            return { nullptr };
         }
-        std::string demangled = cpptrace::demangle(mangled);
-        return ctrace::generate_owning_string(demangled);
     }
 
     // utility::io
-- 
2.43.0


From 2efd31e80cfcc2168bce2b600f97330c1a184d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:08 +0000
Subject: [PATCH 20/28] fix: formatters broke on self-assignment or failed
 copies, returned cut text when memory ran out, and ignored a colour override

---
 src/formatting.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index faa7a3a..2dbb07f 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -13,6 +13,7 @@
 #include <iostream>
 #include <sstream>
 #include <regex>
+#include <utility>
 
 CPPTRACE_BEGIN_NAMESPACE
     std::string basename(const std::string& path) {
@@ -122,12 +123,16 @@ CPPTRACE_BEGIN_NAMESPACE
             size_t filename_indent = 0
         ) const {
             std::ostringstream oss;
+            // streams swallow exceptions by default, text cut short by a failed allocation must not be returned
+            oss.exceptions(std::ios_base::badbit);
             print_internal(oss, frame, color_override.value_or(options.color == color_mode::always), filename_indent);
             return std::move(oss).str();
         }
 
         std::string format(const stacktrace& trace, detail::optional<bool> color_override = detail::nullopt) const {
             std::ostringstream oss;
+            // streams swallow exceptions by default, text cut short by a failed allocation must not be returned
+            oss.exceptions(std::ios_base::badbit);
             print_internal(oss, trace, color_override.value_or(options.color == color_mode::always));
             return std::move(oss).str();
         }
@@ -207,7 +212,7 @@ CPPTRACE_BEGIN_NAMESPACE
         }
 
         bool should_do_color(std::ostream& stream, detail::optional<bool> color_override) const {
-            bool do_color = options.color == color_mode::always || color_override.value_or(false);
+            bool do_color = color_override.value_or(options.color == color_mode::always);
             if(
                 (options.color == color_mode::automatic || options.color == color_mode::always) &&
                 (!color_override || color_override.unwrap() != false) &&
@@ -391,17 +396,16 @@ CPPTRACE_BEGIN_NAMESPACE
     formatter::formatter(formatter&& other) : pimpl(detail::exchange(other.pimpl, nullptr)) {}
     formatter::formatter(const formatter& other) : pimpl(new impl(*other.pimpl)) {}
     formatter& formatter::operator=(formatter&& other) {
-        if(pimpl) {
+        if(this != &other) {
             delete pimpl;
+            pimpl = detail::exchange(other.pimpl, nullptr);
         }
-        pimpl = detail::exchange(other.pimpl, nullptr);
         return *this;
     }
     formatter& formatter::operator=(const formatter& other) {
-        if(pimpl) {
-            delete pimpl;
-        }
-        pimpl = new impl(*other.pimpl);
+        // copy first so that self-assignment works and nothing changes if copying throws
+        formatter copy(other);
+        std::swap(pimpl, copy.pimpl);
         return *this;
     }
 
-- 
2.43.0


From 1a238715e221de2b1052e10d7622975c24bb5ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:53 +0000
Subject: [PATCH 21/28] fix: traced exceptions terminated when memory ran out,
 raced when shared between threads, and lost their trace on self-assignment

---
 include/cpptrace/exceptions.hpp |  18 +++-
 src/exceptions.cpp              | 161 ++++++++++++++++++++++----------
 2 files changed, 129 insertions(+), 50 deletions(-)

diff --git a/include/cpptrace/exceptions.hpp b/include/cpptrace/exceptions.hpp
index 14aa713..f5802a6 100644
--- a/include/cpptrace/exceptions.hpp
+++ b/include/cpptrace/exceptions.hpp
@@ -5,6 +5,7 @@
 #include <cpptrace/exceptions_macros.hpp>
 
 #include <exception>
+#include <string>
 #include <system_error>
 
 #ifdef _MSC_VER
@@ -45,6 +46,19 @@ CPPTRACE_BEGIN_NAMESPACE
             void clear();
         };
 
+        // Text computed on first use, possibly by several threads at once. Copies compute their own.
+        class CPPTRACE_EXPORT lazy_text {
+            std::string text;
+        public:
+            lazy_text() = default;
+            lazy_text(const lazy_text&) noexcept {}
+            lazy_text& operator=(const lazy_text& other) noexcept;
+            // nullptr if not computed yet
+            const char* get() const;
+            // the first text set stays
+            const char* set(std::string&& value);
+        };
+
         CPPTRACE_EXPORT raw_trace get_raw_trace_and_absorb(std::size_t skip, std::size_t max_depth);
         CPPTRACE_EXPORT raw_trace get_raw_trace_and_absorb(std::size_t skip = 0);
     }
@@ -61,7 +75,7 @@ CPPTRACE_BEGIN_NAMESPACE
     // I hate to have to expose anything about implementation detail but the idea here is that
     class CPPTRACE_EXPORT lazy_exception : public exception {
         mutable detail::lazy_trace_holder trace_holder;
-        mutable std::string what_string;
+        mutable detail::lazy_text what_string;
 
     public:
         explicit lazy_exception(
@@ -169,7 +183,7 @@ CPPTRACE_BEGIN_NAMESPACE
 
     class CPPTRACE_EXPORT nested_exception : public lazy_exception {
         std::exception_ptr ptr;
-        mutable std::string message_value;
+        mutable detail::lazy_text message_value;
     public:
         explicit nested_exception(
             const std::exception_ptr& exception_ptr,
diff --git a/src/exceptions.cpp b/src/exceptions.cpp
index 4009c64..ca16452 100644
--- a/src/exceptions.cpp
+++ b/src/exceptions.cpp
@@ -5,6 +5,7 @@
 #include <cstdio>
 #include <cstring>
 #include <exception>
+#include <mutex>
 #include <new>
 #include <stdexcept>
 #include <string>
@@ -17,11 +18,39 @@
 
 CPPTRACE_BEGIN_NAMESPACE
     namespace detail {
-        lazy_trace_holder::lazy_trace_holder(const lazy_trace_holder& other) : resolved(other.resolved) {
+        namespace {
+            // Exception objects are shared through std::exception_ptr and their const queries fill them in lazily. Held
+            // only to read or install results, never while resolving, formatting, or logging.
+            std::mutex lazy_mutex;
+
+            // to be called in a handler, never throws
+            void log_failure(const char* what) noexcept {
+                try {
+                    if(should_absorb_trace_exceptions()) {
+                        return;
+                    }
+                    try {
+                        throw;
+                    } catch(const std::exception& e) {
+                        log::error("{}: {}", what, e.what());
+                    } catch(...) {
+                        log::error("{}", what);
+                    }
+                } catch(...) {
+                    // nothing more can be done
+                }
+            }
+        }
+
+        lazy_trace_holder::lazy_trace_holder(const lazy_trace_holder& other) : resolved(false), trace() {
+            std::lock_guard<std::mutex> lock(lazy_mutex);
             if(other.resolved) {
-                new (&resolved_trace) stacktrace(other.resolved_trace);
+                stacktrace copy(other.resolved_trace);
+                trace.~raw_trace();
+                new (&resolved_trace) stacktrace(std::move(copy));
+                resolved = true;
             } else {
-                new (&trace) raw_trace(other.trace);
+                trace = other.trace;
             }
         }
         lazy_trace_holder::lazy_trace_holder(lazy_trace_holder&& other) noexcept : resolved(other.resolved) {
@@ -32,22 +61,20 @@ CPPTRACE_BEGIN_NAMESPACE
             }
         }
         lazy_trace_holder& lazy_trace_holder::operator=(const lazy_trace_holder& other) {
-            clear();
-            resolved = other.resolved;
-            if(other.resolved) {
-                new (&resolved_trace) stacktrace(other.resolved_trace);
-            } else {
-                new (&trace) raw_trace(other.trace);
+            if(this != &other) {
+                *this = lazy_trace_holder(other);
             }
             return *this;
         }
         lazy_trace_holder& lazy_trace_holder::operator=(lazy_trace_holder&& other) noexcept {
-            clear();
-            resolved = other.resolved;
-            if(other.resolved) {
-                new (&resolved_trace) stacktrace(std::move(other.resolved_trace));
-            } else {
-                new (&trace) raw_trace(std::move(other.trace));
+            if(this != &other) {
+                clear();
+                resolved = other.resolved;
+                if(other.resolved) {
+                    new (&resolved_trace) stacktrace(std::move(other.resolved_trace));
+                } else {
+                    new (&trace) raw_trace(std::move(other.trace));
+                }
             }
             return *this;
         }
@@ -64,21 +91,25 @@ CPPTRACE_BEGIN_NAMESPACE
             return trace;
         }
         stacktrace& lazy_trace_holder::get_resolved_trace() {
-            if(!resolved) {
-                raw_trace old_trace = std::move(trace);
-                *this = lazy_trace_holder(stacktrace{});
-                try {
-                    if(!old_trace.empty()) {
-                        resolved_trace = old_trace.resolve();
-                    }
-                } catch(const std::exception& e) {
-                    if(!should_absorb_trace_exceptions()) {
-                        log::error(
-                            "Exception occurred while resolving trace in cpptrace::detail::lazy_trace_holder: {}",
-                            e.what()
-                        );
+            stacktrace result;
+            try {
+                raw_trace unresolved;
+                {
+                    std::lock_guard<std::mutex> lock(lazy_mutex);
+                    if(resolved) {
+                        return resolved_trace;
                     }
+                    unresolved = trace;
                 }
+                if(!unresolved.empty()) {
+                    result = unresolved.resolve();
+                }
+            } catch(...) {
+                log_failure("Exception occurred while resolving trace in cpptrace::detail::lazy_trace_holder");
+            }
+            std::lock_guard<std::mutex> lock(lazy_mutex);
+            if(!resolved) { // otherwise another thread was faster
+                *this = lazy_trace_holder(std::move(result));
             }
             return resolved_trace;
         }
@@ -101,17 +132,30 @@ CPPTRACE_BEGIN_NAMESPACE
             }
         }
 
+        lazy_text& lazy_text::operator=(const lazy_text& other) noexcept {
+            if(this != &other) {
+                text.clear();
+            }
+            return *this;
+        }
+        const char* lazy_text::get() const {
+            std::lock_guard<std::mutex> lock(lazy_mutex);
+            return text.empty() ? nullptr : text.c_str();
+        }
+        const char* lazy_text::set(std::string&& value) {
+            std::lock_guard<std::mutex> lock(lazy_mutex);
+            if(text.empty()) {
+                text = std::move(value);
+            }
+            return text.c_str();
+        }
+
         CPPTRACE_FORCE_NO_INLINE
         raw_trace get_raw_trace_and_absorb(std::size_t skip, std::size_t max_depth) {
             try {
                 return generate_raw_trace(skip + 1, max_depth);
-            } catch(const std::exception& e) {
-                if(!should_absorb_trace_exceptions()) {
-                    log::error(
-                        "Exception occurred while resolving trace in cpptrace::exception object: {}",
-                        e.what()
-                    );
-                }
+            } catch(...) {
+                log_failure("Exception occurred while resolving trace in cpptrace::exception object");
                 return raw_trace{};
             }
         }
@@ -121,17 +165,23 @@ CPPTRACE_BEGIN_NAMESPACE
             try { // try/catch can never be hit but it's needed to prevent TCO
                 return get_raw_trace_and_absorb(skip + 1, SIZE_MAX);
             } catch(...) {
-                detail::log_and_maybe_propagate_exception(std::current_exception());
                 return raw_trace{};
             }
         }
     }
 
     const char* lazy_exception::what() const noexcept {
-        if(what_string.empty()) {
-            what_string = message() + std::string(":\n") + trace_holder.get_resolved_trace().to_string();
+        try {
+            const char* text = what_string.get();
+            if(!text) {
+                text = what_string.set(
+                    message() + std::string(":\n") + trace_holder.get_resolved_trace().to_string()
+                );
+            }
+            return text;
+        } catch(...) {
+            return message(); // e.g. out of memory
         }
-        return what_string.c_str();
     }
 
     const char* lazy_exception::message() const noexcept {
@@ -146,9 +196,17 @@ CPPTRACE_BEGIN_NAMESPACE
         return user_message.c_str();
     }
 
+    static std::string system_error_message(int error_code, std::string& message) noexcept {
+        try {
+            return message + ": " + std::error_code(error_code, std::generic_category()).message();
+        } catch(...) {
+            return std::move(message); // e.g. out of memory
+        }
+    }
+
     system_error::system_error(int error_code, std::string&& message_arg, raw_trace&& trace) noexcept
         : runtime_error(
-            message_arg + ": " + std::error_code(error_code, std::generic_category()).message(),
+            system_error_message(error_code, message_arg),
             std::move(trace)
           ),
           ec(std::error_code(error_code, std::generic_category())) {}
@@ -158,16 +216,23 @@ CPPTRACE_BEGIN_NAMESPACE
     }
 
     const char* nested_exception::message() const noexcept {
-        if(message_value.empty()) {
-            try {
-                std::rethrow_exception(ptr);
-            } catch(std::exception& e) {
-                message_value = std::string("Nested exception: ") + e.what();
-            } catch(...) {
-                message_value = "Nested exception holding instance of " + detail::exception_type_name();
+        try {
+            const char* text = message_value.get();
+            if(!text) {
+                std::string value;
+                try {
+                    std::rethrow_exception(ptr);
+                } catch(std::exception& e) {
+                    value = std::string("Nested exception: ") + e.what();
+                } catch(...) {
+                    value = "Nested exception holding instance of " + detail::exception_type_name();
+                }
+                text = message_value.set(std::move(value));
             }
+            return text;
+        } catch(...) {
+            return "Nested exception"; // e.g. out of memory
         }
-        return message_value.c_str();
     }
 
     std::exception_ptr nested_exception::nested_ptr() const noexcept {
-- 
2.43.0


From 252f80048e2d09d1144ca3be9ed63f5d48672378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 22/28] fix: failures were reported several times when not
 absorbed, and messages mixed on standard error or were lost without memory

---
 src/cpptrace.cpp                          | 35 +++++++++--------------
 src/exceptions.cpp                        | 18 ++++++------
 src/logging.cpp                           | 18 +++++++++++-
 src/symbols/symbols_with_addr2line.cpp    |  2 +-
 src/symbols/symbols_with_dbghelp.cpp      |  2 +-
 src/symbols/symbols_with_libbacktrace.cpp |  2 +-
 src/symbols/symbols_with_libdwarf.cpp     |  4 +--
 src/utils/error.cpp                       | 15 +++++++++-
 src/utils/error.hpp                       |  5 ++++
 9 files changed, 65 insertions(+), 36 deletions(-)

diff --git a/src/cpptrace.cpp b/src/cpptrace.cpp
index 85f7659..220cbf8 100644
--- a/src/cpptrace.cpp
+++ b/src/cpptrace.cpp
@@ -28,21 +28,19 @@
 CPPTRACE_BEGIN_NAMESPACE
     CPPTRACE_FORCE_NO_INLINE
     raw_trace raw_trace::current(std::size_t skip) {
-        try { // try/catch can never be hit but it's needed to prevent TCO
+        try { // try/catch is needed to prevent TCO
             return generate_raw_trace(skip + 1);
         } catch(...) {
-            detail::log_and_maybe_propagate_exception(std::current_exception());
-            return raw_trace{};
+            throw; // already logged
         }
     }
 
     CPPTRACE_FORCE_NO_INLINE
     raw_trace raw_trace::current(std::size_t skip, std::size_t max_depth) {
-        try { // try/catch can never be hit but it's needed to prevent TCO
+        try { // try/catch is needed to prevent TCO
             return generate_raw_trace(skip + 1, max_depth);
         } catch(...) {
-            detail::log_and_maybe_propagate_exception(std::current_exception());
-            return raw_trace{};
+            throw; // already logged
         }
     }
 
@@ -78,21 +76,19 @@ CPPTRACE_BEGIN_NAMESPACE
 
     CPPTRACE_FORCE_NO_INLINE
     object_trace object_trace::current(std::size_t skip) {
-        try { // try/catch can never be hit but it's needed to prevent TCO
+        try { // try/catch is needed to prevent TCO
             return generate_object_trace(skip + 1);
         } catch(...) {
-            detail::log_and_maybe_propagate_exception(std::current_exception());
-            return object_trace{};
+            throw; // already logged
         }
     }
 
     CPPTRACE_FORCE_NO_INLINE
     object_trace object_trace::current(std::size_t skip, std::size_t max_depth) {
-        try { // try/catch can never be hit but it's needed to prevent TCO
+        try { // try/catch is needed to prevent TCO
             return generate_object_trace(skip + 1, max_depth);
         } catch(...) {
-            detail::log_and_maybe_propagate_exception(std::current_exception());
-            return object_trace{};
+            throw; // already logged
         }
     }
 
@@ -135,21 +131,19 @@ CPPTRACE_BEGIN_NAMESPACE
 
     CPPTRACE_FORCE_NO_INLINE
     stacktrace stacktrace::current(std::size_t skip) {
-        try { // try/catch can never be hit but it's needed to prevent TCO
+        try { // try/catch is needed to prevent TCO
             return generate_trace(skip + 1);
         } catch(...) {
-            detail::log_and_maybe_propagate_exception(std::current_exception());
-            return stacktrace{};
+            throw; // already logged
         }
     }
 
     CPPTRACE_FORCE_NO_INLINE
     stacktrace stacktrace::current(std::size_t skip, std::size_t max_depth) {
-        try { // try/catch can never be hit but it's needed to prevent TCO
+        try { // try/catch is needed to prevent TCO
             return generate_trace(skip + 1, max_depth);
         } catch(...) {
-            detail::log_and_maybe_propagate_exception(std::current_exception());
-            return stacktrace{};
+            throw; // already logged
         }
     }
 
@@ -268,11 +262,10 @@ CPPTRACE_BEGIN_NAMESPACE
 
     CPPTRACE_FORCE_NO_INLINE
     stacktrace generate_trace(std::size_t skip) {
-        try { // try/catch can never be hit but it's needed to prevent TCO
+        try { // try/catch is needed to prevent TCO
             return generate_trace(skip + 1, SIZE_MAX);
         } catch(...) {
-            detail::log_and_maybe_propagate_exception(std::current_exception());
-            return stacktrace{};
+            throw; // already logged
         }
     }
 
diff --git a/src/exceptions.cpp b/src/exceptions.cpp
index ca16452..4d341d6 100644
--- a/src/exceptions.cpp
+++ b/src/exceptions.cpp
@@ -91,16 +91,18 @@ CPPTRACE_BEGIN_NAMESPACE
             return trace;
         }
         stacktrace& lazy_trace_holder::get_resolved_trace() {
-            stacktrace result;
+            raw_trace unresolved;
             try {
-                raw_trace unresolved;
-                {
-                    std::lock_guard<std::mutex> lock(lazy_mutex);
-                    if(resolved) {
-                        return resolved_trace;
-                    }
-                    unresolved = trace;
+                std::lock_guard<std::mutex> lock(lazy_mutex);
+                if(resolved) {
+                    return resolved_trace;
                 }
+                unresolved = trace;
+            } catch(...) {
+                log_exception(std::current_exception());
+            }
+            stacktrace result;
+            try {
                 if(!unresolved.empty()) {
                     result = unresolved.resolve();
                 }
diff --git a/src/logging.cpp b/src/logging.cpp
index 397d265..527d773 100644
--- a/src/logging.cpp
+++ b/src/logging.cpp
@@ -4,9 +4,12 @@
 #include <cpptrace/utils.hpp>
 
 #include <atomic>
+#include <cstdio>
 #include <functional>
 #include <memory>
+#include <iostream>
 #include <mutex>
+#include <string>
 
 CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
@@ -15,7 +18,17 @@ namespace detail {
     void default_null_logger(log_level, const char*) {}
 
     void default_stderr_logger(log_level level, const char* message) {
-        microfmt::print(std::cerr, "[cpptrace {}] {}\n", to_string(level), message);
+        // written in one piece so that messages from different threads don't mix
+        std::string line;
+        try {
+            line = microfmt::format("[cpptrace {}] {}\n", to_string(level), message);
+        } catch(...) { // NOSONAR, out of memory
+            char buffer[256];
+            std::snprintf(buffer, sizeof(buffer), "[cpptrace %s] %.200s\n", to_string(level), message);
+            std::cerr << buffer;
+            return;
+        }
+        std::cerr << line;
     }
 
     using log_callback_type = std::function<void(log_level, const char*)>;
@@ -41,6 +54,9 @@ namespace detail {
     }
 
     void exchange_log_callback(log_callback_type callback) {
+        if(!callback) {
+            callback = default_null_logger;
+        }
         auto new_callback = std::make_shared<const log_callback_type>(std::move(callback));
         auto& holder = get_log_callback_holder();
         {
diff --git a/src/symbols/symbols_with_addr2line.cpp b/src/symbols/symbols_with_addr2line.cpp
index d6543b5..06b3506 100644
--- a/src/symbols/symbols_with_addr2line.cpp
+++ b/src/symbols/symbols_with_addr2line.cpp
@@ -421,7 +421,7 @@ namespace addr2line {
                         update_trace(output[i], i, entries_vec);
                     }
                 } catch(...) { // NOSONAR
-                    detail::log_and_maybe_propagate_exception(std::current_exception());
+                    detail::absorb_or_propagate_exception(std::current_exception());
                 }
             }
         }
diff --git a/src/symbols/symbols_with_dbghelp.cpp b/src/symbols/symbols_with_dbghelp.cpp
index 559ea46..eb50db1 100644
--- a/src/symbols/symbols_with_dbghelp.cpp
+++ b/src/symbols/symbols_with_dbghelp.cpp
@@ -438,7 +438,7 @@ namespace dbghelp {
             try {
                 trace.push_back(resolve_frame(syminit_info.get_process_handle() , frame));
             } catch(...) { // NOSONAR
-                detail::log_and_maybe_propagate_exception(std::current_exception());
+                detail::absorb_or_propagate_exception(std::current_exception());
                 auto entry = null_frame();
                 entry.raw_address = frame;
                 trace.push_back(entry);
diff --git a/src/symbols/symbols_with_libbacktrace.cpp b/src/symbols/symbols_with_libbacktrace.cpp
index 5233654..4d3c3c5 100644
--- a/src/symbols/symbols_with_libbacktrace.cpp
+++ b/src/symbols/symbols_with_libbacktrace.cpp
@@ -87,7 +87,7 @@ namespace libbacktrace {
             }
             return frame;
         } catch(...) { // NOSONAR
-            detail::log_and_maybe_propagate_exception(std::current_exception());
+            detail::absorb_or_propagate_exception(std::current_exception());
             return null_frame();
         }
     }
diff --git a/src/symbols/symbols_with_libdwarf.cpp b/src/symbols/symbols_with_libdwarf.cpp
index 5f83345..26cd92c 100644
--- a/src/symbols/symbols_with_libdwarf.cpp
+++ b/src/symbols/symbols_with_libdwarf.cpp
@@ -106,7 +106,7 @@ namespace libdwarf {
         try {
             frame = resolver->resolve_frame(dlframe);
         } catch(...) {
-            detail::log_and_maybe_propagate_exception(std::current_exception());
+            detail::absorb_or_propagate_exception(std::current_exception());
             frame.frame.raw_address = dlframe.raw_address;
             frame.frame.object_address = dlframe.object_address;
             frame.frame.filename = dlframe.object_path;
@@ -152,7 +152,7 @@ namespace libdwarf {
                     #endif
                 }
             } catch(...) { // NOSONAR
-                detail::log_and_maybe_propagate_exception(std::current_exception());
+                detail::absorb_or_propagate_exception(std::current_exception());
             }
         }
         // fill in basic info for any frames where there were resolution issues
diff --git a/src/utils/error.cpp b/src/utils/error.cpp
index 4a9412b..b947c3d 100644
--- a/src/utils/error.cpp
+++ b/src/utils/error.cpp
@@ -83,7 +83,7 @@ namespace detail {
         }
     }
 
-    void log_and_maybe_propagate_exception(std::exception_ptr ptr) {
+    void log_exception(std::exception_ptr ptr) noexcept {
         try {
             if(ptr) {
                 std::rethrow_exception(ptr);
@@ -102,11 +102,24 @@ namespace detail {
                 string_or_unknown([] { return detail::exception_type_name(); })
             );
         }
+    }
+
+    void log_and_maybe_propagate_exception(std::exception_ptr ptr) {
+        log_exception(ptr);
+        if(!should_absorb_trace_exceptions()) {
+            if(ptr) {
+                std::rethrow_exception(ptr);
+            }
+        }
+    }
+
+    void absorb_or_propagate_exception(std::exception_ptr ptr) {
         if(!should_absorb_trace_exceptions()) {
             if(ptr) {
                 std::rethrow_exception(ptr);
             }
         }
+        log_exception(ptr);
     }
 }
 CPPTRACE_END_NAMESPACE
diff --git a/src/utils/error.hpp b/src/utils/error.hpp
index aa9115f..f3c3c2a 100644
--- a/src/utils/error.hpp
+++ b/src/utils/error.hpp
@@ -126,7 +126,12 @@ namespace detail {
      #define ASSERT(...) PHONY_USE(__VA_ARGS__)
     #endif
 
+    // logs the exception, never throws
+    void log_exception(std::exception_ptr) noexcept;
+    // for the functions of the public interface
     void log_and_maybe_propagate_exception(std::exception_ptr);
+    // for failures further inside, if these are propagated it's the public interface that logs them
+    void absorb_or_propagate_exception(std::exception_ptr);
 }
 CPPTRACE_END_NAMESPACE
 
-- 
2.43.0


From b82a5a42394d385e0580aa3cfa51b71ca29e2289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 23/28] fix: safe object frames of objects with very long paths
 were not null-terminated

---
 src/binary/safe_dl.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/binary/safe_dl.cpp b/src/binary/safe_dl.cpp
index 0ccfd78..3a4acdb 100644
--- a/src/binary/safe_dl.cpp
+++ b/src/binary/safe_dl.cpp
@@ -25,12 +25,13 @@ namespace detail {
         if(_dl_find_object(reinterpret_cast<void*>(address), &result) == 0) { // thread-safe, signal-safe
             out->address_relative_to_object_start = address - to_frame_ptr(result.dlfo_link_map->l_addr);
             if(result.dlfo_link_map->l_name != nullptr && result.dlfo_link_map->l_name[0] != 0) {
-                std::size_t path_length = std::strlen(result.dlfo_link_map->l_name);
-                std::memcpy(
-                    out->object_path,
-                    result.dlfo_link_map->l_name,
-                    std::min(path_length + 1, std::size_t(CPPTRACE_PATH_MAX + 1))
+                // the buffer always ends up null-terminated, a longer path is truncated
+                std::size_t path_length = std::min(
+                    std::strlen(result.dlfo_link_map->l_name),
+                    std::size_t(CPPTRACE_PATH_MAX)
                 );
+                std::memcpy(out->object_path, result.dlfo_link_map->l_name, path_length);
+                out->object_path[path_length] = 0;
             } else {
                 // empty l_name, this means it's the currently running executable
                 memset(out->object_path, 0, CPPTRACE_PATH_MAX + 1);
-- 
2.43.0


From e7e531915bf31183dafec4684548afb18f96860b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 24/28] fix: report and abort from the terminate handler when
 memory or a stream fails

The handler lost the exception's type and message when building the text ran
out of memory, and let exceptions from printing escape.
---
 src/platform/exception_type.hpp | 10 ++++++
 src/utils.cpp                   | 63 ++++++++++++++++++++-------------
 2 files changed, 48 insertions(+), 25 deletions(-)

diff --git a/src/platform/exception_type.hpp b/src/platform/exception_type.hpp
index 6a296b9..d40782a 100644
--- a/src/platform/exception_type.hpp
+++ b/src/platform/exception_type.hpp
@@ -14,6 +14,16 @@
 
 CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
+    // mangled, doesn't allocate
+    inline const char* exception_type_raw_name() {
+        #if defined(CPPTRACE_HAS_CXX_EXCEPTION_TYPE) && (IS_LIBSTDCXX || IS_LIBCXX)
+         const std::type_info* t = abi::__cxa_current_exception_type();
+         return t ? t->name() : "<unknown>";
+        #else
+         return "<unknown>";
+        #endif
+    }
+
     inline std::string exception_type_name() {
         #if defined(CPPTRACE_HAS_CXX_EXCEPTION_TYPE) && (IS_LIBSTDCXX || IS_LIBCXX)
          const std::type_info* t = abi::__cxa_current_exception_type();
diff --git a/src/utils.cpp b/src/utils.cpp
index 59e005b..55a27f3 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -55,36 +55,49 @@ CPPTRACE_BEGIN_NAMESPACE
         }
     }
 
-    [[noreturn]] void MSVC_CDECL terminate_handler() {
-        // TODO: Support std::nested_exception?
+    static void print_terminate_message(const char* type_name, const char* message) {
         try {
-            auto ptr = std::current_exception();
-            if(ptr == nullptr) {
-                fputs("terminate called without an active exception", stderr);
-                print_terminate_trace();
-            } else {
-                std::rethrow_exception(ptr);
-            }
-        } catch(cpptrace::exception& e) {
             microfmt::print(
                 stderr,
-                "Terminate called after throwing an instance of {}: {}\n",
-                demangle(typeid(e).name()),
-                e.message()
-            );
-            e.trace().print(std::cerr, isatty(stderr_fileno));
-        } catch(std::exception& e) {
-            microfmt::print(
-                stderr, "Terminate called after throwing an instance of {}: {}\n", demangle(typeid(e).name()), e.what()
-            );
-            print_terminate_trace();
-        } catch(...) {
-            microfmt::print(
-                stderr, "Terminate called after throwing an instance of {}\n", detail::exception_type_name()
+                "Terminate called after throwing an instance of {}{}{}\n",
+                demangle(type_name),
+                message ? ": " : "",
+                message ? message : ""
             );
-            print_terminate_trace();
+        } catch(...) { // can't demangle or format, e.g. because memory is exhausted: report without allocating
+            fputs("Terminate called after throwing an instance of ", stderr);
+            fputs(type_name, stderr);
+            if(message) {
+                fputs(": ", stderr);
+                fputs(message, stderr);
+            }
+            fputs("\n", stderr);
         }
-        std::flush(std::cerr);
+    }
+
+    [[noreturn]] void MSVC_CDECL terminate_handler() {
+        // TODO: Support std::nested_exception?
+        try { // nothing may prevent the abort below, e.g. a stream which throws or a tracing exception which isn't absorbed
+            try {
+                auto ptr = std::current_exception();
+                if(ptr == nullptr) {
+                    fputs("terminate called without an active exception", stderr);
+                    print_terminate_trace();
+                } else {
+                    std::rethrow_exception(ptr);
+                }
+            } catch(cpptrace::exception& e) {
+                print_terminate_message(typeid(e).name(), e.message());
+                e.trace().print(std::cerr, isatty(stderr_fileno));
+            } catch(std::exception& e) {
+                print_terminate_message(typeid(e).name(), e.what());
+                print_terminate_trace();
+            } catch(...) {
+                print_terminate_message(detail::exception_type_raw_name(), nullptr);
+                print_terminate_trace();
+            }
+            std::flush(std::cerr);
+        } catch(...) {}
         abort();
     }
 
-- 
2.43.0


From c0741666742b9caecaaa96194fb33aa18a61c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 25/28] fix: the trace of CPPTRACE_WRAP starts at the function
 that uses it also when optimised

The macro's lambda asks for itself to be left out of the trace, but once
the compiler inlined it the function containing the expression was left
out instead.
---
 include/cpptrace/exceptions_macros.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cpptrace/exceptions_macros.hpp b/include/cpptrace/exceptions_macros.hpp
index 82f66c7..2329ec0 100644
--- a/include/cpptrace/exceptions_macros.hpp
+++ b/include/cpptrace/exceptions_macros.hpp
@@ -10,7 +10,14 @@
         } \
     } while(0)
 
-#define CPPTRACE_WRAP(expression) [&] () -> decltype((expression)) { \
+// The lambda must stay a function of its own, rethrow_and_wrap_if_needed is told to leave it out of the trace
+#ifdef _MSC_VER
+ #define CPPTRACE_WRAP_NO_INLINE
+#else
+ #define CPPTRACE_WRAP_NO_INLINE __attribute__((noinline))
+#endif
+
+#define CPPTRACE_WRAP(expression) [&] () CPPTRACE_WRAP_NO_INLINE -> decltype((expression)) { \
         try { \
             return expression; \
         } catch(...) { \
-- 
2.43.0


From ab95e6c029d3c9bc2bab303496c33145329b3f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 26/28] fix: libbacktrace: keep the frame's address when
 resolution fails and the line already found when only the symbol is missing

---
 src/symbols/symbols_with_libbacktrace.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/symbols/symbols_with_libbacktrace.cpp b/src/symbols/symbols_with_libbacktrace.cpp
index 4d3c3c5..53732fc 100644
--- a/src/symbols/symbols_with_libbacktrace.cpp
+++ b/src/symbols/symbols_with_libbacktrace.cpp
@@ -35,8 +35,9 @@ namespace libbacktrace {
     void syminfo_callback(void* data, std::uintptr_t address, const char* symbol, std::uintptr_t, std::uintptr_t) {
         stacktrace_frame& frame = *static_cast<stacktrace_frame*>(data);
         frame.raw_address = address;
-        frame.line = 0;
-        frame.filename = "";
+        if(frame.filename.empty()) { // otherwise only the symbol was missing
+            frame.line = 0;
+        }
         frame.symbol = symbol ? symbol : "";
     }
 
@@ -88,7 +89,9 @@ namespace libbacktrace {
             return frame;
         } catch(...) { // NOSONAR
             detail::absorb_or_propagate_exception(std::current_exception());
-            return null_frame();
+            stacktrace_frame frame = null_frame();
+            frame.raw_address = addr;
+            return frame;
         }
     }
 
-- 
2.43.0


From fbca6359b3484f7dd4ee00bb907ea9c65b7a14b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 27/28] fix: an empty .text of an in-memory object no longer
 hides the code of another object around its address

---
 src/jit/jit_objects.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jit/jit_objects.cpp b/src/jit/jit_objects.cpp
index 8c9245e..7daa751 100644
--- a/src/jit/jit_objects.cpp
+++ b/src/jit/jit_objects.cpp
@@ -61,6 +61,10 @@ namespace detail {
             range_list.reserve(range_list.size() + ranges.size());
             objects.push_back({object.data(), std::move(object_file)});
             for(auto range : ranges) {
+                // An empty section contains no address, it must not hide the code of another object around it
+                if(range.low >= range.high) {
+                    continue;
+                }
                 range_entry entry{range.low, range.high, object.data(), objects.back().object.get()};
                 // TODO: Perf
                 range_list.insert(std::upper_bound(range_list.begin(), range_list.end(), entry), entry);
-- 
2.43.0


From 943ad50750a5a8bf1e9d35cd4d7ec111bbdecfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 28/28] fix: a capture that fails while an exception is being
 thrown no longer replaces that exception

---
 src/from_current.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/from_current.cpp b/src/from_current.cpp
index bc2b14a..e785eaa 100644
--- a/src/from_current.cpp
+++ b/src/from_current.cpp
@@ -67,7 +67,9 @@ namespace detail {
              save_current_trace(std::move(trace));
          } catch(...) {
              save_current_trace(raw_trace{}); // don't leave another exception's trace behind
-             detail::log_and_maybe_propagate_exception(std::current_exception());
+             // never propagated: this runs while the unwinder is looking for the handler of the user's exception, which
+             // would be replaced and never destroyed
+             detail::log_exception(std::current_exception());
          }
      }
     #endif
-- 
2.43.0

