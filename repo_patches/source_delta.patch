From 4e48cc1176b1820375f74258f5421cbd09955df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 01/28] fix: stack overflow when converting a 64 character
 number without fast_float

The terminator was written one past the end of the stack buffer if the
value was exactly as long as the buffer.
---
 include/ss/extract.hpp | 2 +-
 ssp.hpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index 58cea4e..86c6016 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -52,7 +52,7 @@ to_num(const char* const begin, const char* const end) {
     std::string long_buff;
 
     char* buff = nullptr;
-    if (string_range > buff_max) {
+    if (string_range >= buff_max) {
         long_buff = std::string{begin, end};
         buff = long_buff.data();
     } else {
diff --git a/ssp.hpp b/ssp.hpp
index 0fc4cd3..e6d3a6b 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1582,7 +1582,7 @@ to_num(const char* const begin, const char* const end) {
     std::string long_buff;
 
     char* buff = nullptr;
-    if (string_range > buff_max) {
+    if (string_range >= buff_max) {
         long_buff = std::string{begin, end};
         buff = long_buff.data();
     } else {
-- 
2.43.0


From 1bdd77f324899ac1d00ce6fbcd59414e431a989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 02/28] fix: empty and space prefixed values accepted as
 floating points without fast_float

An empty field was converted to 0.0 when SSP_DISABLE_FAST_FLOAT is defined
(always the case in the single header), it is rejected with fast_float.
---
 include/ss/extract.hpp | 6 ++++++
 ssp.hpp                | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index 86c6016..f4ce7c9 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -14,6 +14,7 @@
 #else
 #include <algorithm>
 #include <array>
+#include <cctype>
 #include <cstdlib>
 #endif
 
@@ -48,6 +49,11 @@ to_num(const char* const begin, const char* const end) {
     constexpr static auto buff_max = 64;
     std::array<char, buff_max> short_buff;
 
+    // strtof and strtod would skip leading spaces and accept an empty range
+    if (begin == end || std::isspace(static_cast<unsigned char>(*begin))) {
+        return std::nullopt;
+    }
+
     const size_t string_range = std::distance(begin, end);
     std::string long_buff;
 
diff --git a/ssp.hpp b/ssp.hpp
index e6d3a6b..df05267 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <algorithm>
 #include <array>
+#include <cctype>
 #include <cerrno>
 #include <charconv>
 #include <cstdint>
@@ -1578,6 +1579,11 @@ to_num(const char* const begin, const char* const end) {
     constexpr static auto buff_max = 64;
     std::array<char, buff_max> short_buff;
 
+    // strtof and strtod would skip leading spaces and accept an empty range
+    if (begin == end || std::isspace(static_cast<unsigned char>(*begin))) {
+        return std::nullopt;
+    }
+
     const size_t string_range = std::distance(begin, end);
     std::string long_buff;
 
-- 
2.43.0


From e03f1a55e04c9f4fcc2a62572d400d17597b42a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 03/28] fix: bad_alloc thrown on end of file because of a stale
 errno

errno was checked without being reset before reading the line, if some
previous unrelated call left ENOMEM in it reading the end of the file (or
buffer) would throw.
---
 include/ss/common.hpp | 3 ++-
 ssp.hpp               | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index e507994..c81c07f 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -131,6 +131,7 @@ using ssize_t = intptr_t;
     size_t& curr_char) {
     ssize_t ssize = 0;
     if (file) {
+        errno = 0;
         ssize = get_line_file(buffer, buffer_size, file);
         curr_char += ssize;
     } else {
@@ -139,7 +140,7 @@ using ssize_t = intptr_t;
     }
 
     if (ssize == -1) {
-        if (errno == ENOMEM) {
+        if (file && errno == ENOMEM) {
             throw std::bad_alloc{};
         }
         return {ssize, true};
diff --git a/ssp.hpp b/ssp.hpp
index df05267..278594f 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -749,6 +749,7 @@ using ssize_t = intptr_t;
     size_t& curr_char) {
     ssize_t ssize = 0;
     if (file) {
+        errno = 0;
         ssize = get_line_file(buffer, buffer_size, file);
         curr_char += ssize;
     } else {
@@ -757,7 +758,7 @@ using ssize_t = intptr_t;
     }
 
     if (ssize == -1) {
-        if (errno == ENOMEM) {
+        if (file && errno == ENOMEM) {
             throw std::bad_alloc{};
         }
         return {ssize, true};
-- 
2.43.0


From 9852c1deac7d66e787b9ed1b816fe05384f0ebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 04/28] fix: position moved backwards on reads on end of file
 in file mode

---
 include/ss/common.hpp | 4 +++-
 ssp.hpp               | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index c81c07f..565c5a8 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -133,7 +133,9 @@ using ssize_t = intptr_t;
     if (file) {
         errno = 0;
         ssize = get_line_file(buffer, buffer_size, file);
-        curr_char += ssize;
+        if (ssize != -1) {
+            curr_char += ssize;
+        }
     } else {
         ssize = get_line_buffer(buffer, buffer_size, csv_data_buffer,
                                 csv_data_size, curr_char);
diff --git a/ssp.hpp b/ssp.hpp
index 278594f..7cb8292 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -751,7 +751,9 @@ using ssize_t = intptr_t;
     if (file) {
         errno = 0;
         ssize = get_line_file(buffer, buffer_size, file);
-        curr_char += ssize;
+        if (ssize != -1) {
+            curr_char += ssize;
+        }
     } else {
         ssize = get_line_buffer(buffer, buffer_size, csv_data_buffer,
                                 csv_data_size, curr_char);
-- 
2.43.0


From 187932c2e188c22525983c5d0b36cbbd5ce72517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 05/28] fix: out of bounds read in the portable get_line_file
 on null characters

---
 include/ss/common.hpp | 2 +-
 ssp.hpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index 565c5a8..5401727 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -77,7 +77,7 @@ using ssize_t = intptr_t;
         line_used += buff_used;
         lineptr[line_used] = '\0';
 
-        if (lineptr[line_used - 1] == '\n') {
+        if (line_used > 0 && lineptr[line_used - 1] == '\n') {
             return line_used;
         }
     }
diff --git a/ssp.hpp b/ssp.hpp
index 7cb8292..e7083e3 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -695,7 +695,7 @@ using ssize_t = intptr_t;
         line_used += buff_used;
         lineptr[line_used] = '\0';
 
-        if (lineptr[line_used - 1] == '\n') {
+        if (line_used > 0 && lineptr[line_used - 1] == '\n') {
             return line_used;
         }
     }
-- 
2.43.0


From ad8f5b6ceb691ff7d9e7550db316857163000fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 06/28] fix: eof not set when the last row is ignored

After ignoring the last row with ignore_next, ignore_header or use_fields,
eof returned false and a row which is not present was read.
---
 include/ss/parser.hpp | 3 ++-
 ssp.hpp               | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index b054328..b7a9b1e 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -95,7 +95,8 @@ public:
     }
 
     bool ignore_next() {
-        return reader_.read_next();
+        read_line();
+        return !eof_;
     }
 
     template <typename T, typename... Ts>
diff --git a/ssp.hpp b/ssp.hpp
index e7083e3..00c471e 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2378,7 +2378,8 @@ public:
     }
 
     bool ignore_next() {
-        return reader_.read_next();
+        read_line();
+        return !eof_;
     }
 
     template <typename T, typename... Ts>
-- 
2.43.0


From 8c09cb260d8b234d26364e47cb0ef7573549f896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 07/28] fix: buffers and file leaked on parser move assignment

---
 include/ss/parser.hpp | 8 ++++++++
 ssp.hpp               | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index b7a9b1e..3b2872b 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -797,6 +797,14 @@ private:
 
         reader& operator=(reader&& other) noexcept {
             if (this != &other) {
+                std::free(buffer_);
+                std::free(next_line_buffer_);
+                std::free(helper_buffer_);
+
+                if (file_) {
+                    std::ignore = std::fclose(file_);
+                }
+
                 buffer_ = other.buffer_;
                 next_line_buffer_ = other.next_line_buffer_;
                 helper_buffer_ = other.helper_buffer_;
diff --git a/ssp.hpp b/ssp.hpp
index 00c471e..9079046 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -3080,6 +3080,14 @@ private:
 
         reader& operator=(reader&& other) noexcept {
             if (this != &other) {
+                std::free(buffer_);
+                std::free(next_line_buffer_);
+                std::free(helper_buffer_);
+
+                if (file_) {
+                    std::ignore = std::fclose(file_);
+                }
+
                 buffer_ = other.buffer_;
                 next_line_buffer_ = other.next_line_buffer_;
                 helper_buffer_ = other.helper_buffer_;
-- 
2.43.0


From db0e714628db6bafc38dace2da8f23e9509bdfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 08/28] fix: header returned as a row if preceded by ignored
 empty lines

With ignore_empty, use_fields did not skip the header if there were empty
lines before it.
---
 include/ss/parser.hpp | 5 ++++-
 ssp.hpp               | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 3b2872b..3adf7e9 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -43,6 +43,7 @@ public:
                 ignore_next();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_number_ = reader_.line_number_;
             }
         } else {
             handle_error_file_not_open();
@@ -60,6 +61,7 @@ public:
                 ignore_next();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_number_ = reader_.line_number_;
             }
         } else {
             handle_error_null_buffer();
@@ -244,7 +246,7 @@ public:
         reader_.next_line_converter_.set_column_mapping(column_mappings,
                                                         header_.size());
 
-        if (line() == 0) {
+        if (reader_.line_number_ == header_line_number_) {
             ignore_next();
         }
     }
@@ -1067,6 +1069,7 @@ private:
     reader reader_;
     std::vector<std::string> header_;
     std::string raw_header_;
+    size_t header_line_number_{0};
     bool eof_{false};
 };
 
diff --git a/ssp.hpp b/ssp.hpp
index 9079046..347dff9 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2326,6 +2326,7 @@ public:
                 ignore_next();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_number_ = reader_.line_number_;
             }
         } else {
             handle_error_file_not_open();
@@ -2343,6 +2344,7 @@ public:
                 ignore_next();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_number_ = reader_.line_number_;
             }
         } else {
             handle_error_null_buffer();
@@ -2527,7 +2529,7 @@ public:
         reader_.next_line_converter_.set_column_mapping(column_mappings,
                                                         header_.size());
 
-        if (line() == 0) {
+        if (reader_.line_number_ == header_line_number_) {
             ignore_next();
         }
     }
@@ -3350,6 +3352,7 @@ private:
     reader reader_;
     std::vector<std::string> header_;
     std::string raw_header_;
+    size_t header_line_number_{0};
     bool eof_{false};
 };
 
-- 
2.43.0


From 6fa24b7420e5b88c63e03935d8f3ea57aeee8382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 09/28] fix: escapes after spacing or a closing quote
 corrupting the value

With trim_right and escape the value of 'a  \x' was 'a \x' instead of
'a  x', and a quoted value followed by an escape was not reported as a
mismatched quote.
---
 include/ss/splitter.hpp | 6 +++---
 ssp.hpp                 | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ss/splitter.hpp b/include/ss/splitter.hpp
index 0f06499..d00ebe1 100644
--- a/include/ss/splitter.hpp
+++ b/include/ss/splitter.hpp
@@ -244,10 +244,9 @@ private:
             return {0, false};
         }
 
-        // not a delimiter
+        // not a delimiter, either skip the spacing or a single character
         if (!match(end, delim)) {
-            shift_if_escaped(end);
-            return {1 + end - begin, false};
+            return {end != begin ? end - begin : 1, false};
         }
 
         end += delimiter_size(delim);
@@ -374,6 +373,7 @@ private:
                     done_ = true;
                     break;
                 } else {
+                    shift_if_escaped(end_);
                     end_ += width;
                     continue;
                 }
diff --git a/ssp.hpp b/ssp.hpp
index 347dff9..d4d5cec 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1303,10 +1303,9 @@ private:
             return {0, false};
         }
 
-        // not a delimiter
+        // not a delimiter, either skip the spacing or a single character
         if (!match(end, delim)) {
-            shift_if_escaped(end);
-            return {1 + end - begin, false};
+            return {end != begin ? end - begin : 1, false};
         }
 
         end += delimiter_size(delim);
@@ -1433,6 +1432,7 @@ private:
                     done_ = true;
                     break;
                 } else {
+                    shift_if_escaped(end_);
                     end_ += width;
                     continue;
                 }
-- 
2.43.0


From b8ee1554d1afb5b6cef0ccfa771887ca2561a6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 10/28] fix: substitute conversions applied to rows which
 failed to be read

If reading a row failed because of the multiline limit, an unterminated
escape or quote, or_else was still applied to what was left in the splitter
from previous rows, reading freed memory and producing values for invalid
rows.
---
 include/ss/converter.hpp | 4 ++++
 ssp.hpp                  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index 06e67d2..cefc0e8 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -254,6 +254,7 @@ private:
         } else if constexpr (throw_on_error) {
             splitter_.handle_error_unterminated_escape();
         } else {
+            splitter_.handle_error_unterminated_escape();
             error_ = true;
         }
     }
@@ -266,6 +267,7 @@ private:
         } else if constexpr (throw_on_error) {
             splitter_.handle_error_unterminated_quote();
         } else {
+            splitter_.handle_error_unterminated_quote();
             error_ = true;
         }
     }
@@ -277,10 +279,12 @@ private:
         if constexpr (string_error) {
             error_.clear();
             error_.append(error_msg);
+            splitter_.error_ = error_;
         } else if constexpr (throw_on_error) {
             throw ss::exception{error_msg};
         } else {
             error_ = true;
+            splitter_.error_ = true;
         }
     }
 
diff --git a/ssp.hpp b/ssp.hpp
index d4d5cec..be47e6a 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2047,6 +2047,7 @@ private:
         } else if constexpr (throw_on_error) {
             splitter_.handle_error_unterminated_escape();
         } else {
+            splitter_.handle_error_unterminated_escape();
             error_ = true;
         }
     }
@@ -2059,6 +2060,7 @@ private:
         } else if constexpr (throw_on_error) {
             splitter_.handle_error_unterminated_quote();
         } else {
+            splitter_.handle_error_unterminated_quote();
             error_ = true;
         }
     }
@@ -2070,10 +2072,12 @@ private:
         if constexpr (string_error) {
             error_.clear();
             error_.append(error_msg);
+            splitter_.error_ = error_;
         } else if constexpr (throw_on_error) {
             throw ss::exception{error_msg};
         } else {
             error_ = true;
+            splitter_.error_ = true;
         }
     }
 
-- 
2.43.0


From 349c53a5f9a857c42ad4a078528a134417fdfdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 11/28] fix: reading on end of file reports or converts
 previous rows

If the last row was invalid, every second read on end of file reported its
error again, and substitute conversions were applied to previous rows.
---
 include/ss/parser.hpp | 28 ++++++++++++++--------------
 ssp.hpp               | 28 ++++++++++++++--------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 3adf7e9..d4347ee 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -117,17 +117,22 @@ public:
 
     template <typename T, typename... Ts>
     [[nodiscard]] no_void_validator_tup_t<T, Ts...> get_next() {
-        if (!eof_) {
-            if constexpr (throw_on_error) {
-                try {
-                    reader_.parse();
-                } catch (const ss::exception& e) {
-                    read_line();
-                    decorate_rethrow(e);
-                }
-            } else {
+        if (eof_) {
+            // there is no row which could be used by substitute conversions
+            reader_.converter_.splitter_.clear_split_data();
+            handle_error_eof_reached();
+            return {};
+        }
+
+        if constexpr (throw_on_error) {
+            try {
                 reader_.parse();
+            } catch (const ss::exception& e) {
+                read_line();
+                decorate_rethrow(e);
             }
+        } else {
+            reader_.parse();
         }
 
         reader_.update();
@@ -139,11 +144,6 @@ public:
 
         clear_error();
 
-        if (eof_) {
-            handle_error_eof_reached();
-            return {};
-        }
-
         if constexpr (throw_on_error) {
             try {
                 auto value = reader_.converter_.template convert<T, Ts...>();
diff --git a/ssp.hpp b/ssp.hpp
index be47e6a..471953c 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2404,17 +2404,22 @@ public:
 
     template <typename T, typename... Ts>
     [[nodiscard]] no_void_validator_tup_t<T, Ts...> get_next() {
-        if (!eof_) {
-            if constexpr (throw_on_error) {
-                try {
-                    reader_.parse();
-                } catch (const ss::exception& e) {
-                    read_line();
-                    decorate_rethrow(e);
-                }
-            } else {
+        if (eof_) {
+            // there is no row which could be used by substitute conversions
+            reader_.converter_.splitter_.clear_split_data();
+            handle_error_eof_reached();
+            return {};
+        }
+
+        if constexpr (throw_on_error) {
+            try {
                 reader_.parse();
+            } catch (const ss::exception& e) {
+                read_line();
+                decorate_rethrow(e);
             }
+        } else {
+            reader_.parse();
         }
 
         reader_.update();
@@ -2426,11 +2431,6 @@ public:
 
         clear_error();
 
-        if (eof_) {
-            handle_error_eof_reached();
-            return {};
-        }
-
         if constexpr (throw_on_error) {
             try {
                 auto value = reader_.converter_.template convert<T, Ts...>();
-- 
2.43.0


From 0c50022966886cd77a677e8ea7259cce86b4cf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 12/28] fix: wrong line number in exceptions if followed by
 ignored empty lines

---
 include/ss/parser.hpp | 10 ++++++----
 ssp.hpp               | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index d4347ee..c5bbb56 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -128,8 +128,9 @@ public:
             try {
                 reader_.parse();
             } catch (const ss::exception& e) {
+                const auto line_number = reader_.line_number_;
                 read_line();
-                decorate_rethrow(e);
+                decorate_rethrow(e, line_number);
             }
         } else {
             reader_.parse();
@@ -150,8 +151,9 @@ public:
                 read_line();
                 return value;
             } catch (const ss::exception& e) {
+                const auto line_number = reader_.line_number_;
                 read_line();
-                decorate_rethrow(e);
+                decorate_rethrow(e, line_number);
             }
         }
 
@@ -746,12 +748,12 @@ private:
                                 .append(e.what())};
     }
 
-    void decorate_rethrow(const ss::exception& e) const {
+    void decorate_rethrow(const ss::exception& e, size_t line_number) const {
         static_assert(throw_on_error,
                       "throw_on_error needs to be enabled to use this method");
         throw ss::exception{std::string{file_name_}
                                 .append(" ")
-                                .append(std::to_string(line()))
+                                .append(std::to_string(line_number))
                                 .append(": ")
                                 .append(e.what())};
     }
diff --git a/ssp.hpp b/ssp.hpp
index 471953c..9f1f491 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2415,8 +2415,9 @@ public:
             try {
                 reader_.parse();
             } catch (const ss::exception& e) {
+                const auto line_number = reader_.line_number_;
                 read_line();
-                decorate_rethrow(e);
+                decorate_rethrow(e, line_number);
             }
         } else {
             reader_.parse();
@@ -2437,8 +2438,9 @@ public:
                 read_line();
                 return value;
             } catch (const ss::exception& e) {
+                const auto line_number = reader_.line_number_;
                 read_line();
-                decorate_rethrow(e);
+                decorate_rethrow(e, line_number);
             }
         }
 
@@ -3033,12 +3035,12 @@ private:
                                 .append(e.what())};
     }
 
-    void decorate_rethrow(const ss::exception& e) const {
+    void decorate_rethrow(const ss::exception& e, size_t line_number) const {
         static_assert(throw_on_error,
                       "throw_on_error needs to be enabled to use this method");
         throw ss::exception{std::string{file_name_}
                                 .append(" ")
-                                .append(std::to_string(line()))
+                                .append(std::to_string(line_number))
                                 .append(": ")
                                 .append(e.what())};
     }
-- 
2.43.0


From b8f28425b597fdc5b54909dc5ca9d156bf67d62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 13/28] fix: error of a previous line reported for an empty
 line

---
 include/ss/converter.hpp | 1 +
 ssp.hpp                  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index cefc0e8..6323855 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -191,6 +191,7 @@ public:
     const split_data& split(line_ptr_type line,
                             const std::string& delim = default_delimiter) {
         splitter_.clear_split_data();
+        splitter_.clear_error();
         if (line[0] == '\0') {
             return splitter_.get_split_data();
         }
diff --git a/ssp.hpp b/ssp.hpp
index 9f1f491..b6acf39 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1984,6 +1984,7 @@ public:
     const split_data& split(line_ptr_type line,
                             const std::string& delim = default_delimiter) {
         splitter_.clear_split_data();
+        splitter_.clear_error();
         if (line[0] == '\0') {
             return splitter_.get_split_data();
         }
-- 
2.43.0


From 3e2520a16e174acb6f938892b2066bb91b09d4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 14/28] fix: empty line is an error even if only one column is
 present

According to the documentation reading an empty line is not an error if the
CSV has only one column.
---
 include/ss/parser.hpp | 3 ++-
 ssp.hpp               | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index c5bbb56..5fe941f 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -899,7 +899,8 @@ private:
                 }
             }
 
-            next_line_converter_.split(next_line_buffer_, delim_);
+            // an empty line is a row with a single empty column
+            next_line_converter_.splitter_.split(next_line_buffer_, delim_);
 
             if constexpr (quoted_multiline_enabled) {
                 while (unterminated_quote()) {
diff --git a/ssp.hpp b/ssp.hpp
index b6acf39..f027022 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -3187,7 +3187,8 @@ private:
                 }
             }
 
-            next_line_converter_.split(next_line_buffer_, delim_);
+            // an empty line is a row with a single empty column
+            next_line_converter_.splitter_.split(next_line_buffer_, delim_);
 
             if constexpr (quoted_multiline_enabled) {
                 while (unterminated_quote()) {
-- 
2.43.0


From 98975e8a197a2457be1cbda35e6dabf0a6fe8645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 15/28] fix: partially converted values returned if the
 conversion failed

According to the documentation default constructed values are returned if a
conversion could not be applied.
---
 include/ss/converter.hpp | 5 +++++
 ssp.hpp                  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index 6323855..6d5c728 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -486,6 +486,11 @@ private:
                       "at least one parameter must be non void");
         no_void_validator_tup_t<Ts...> ret{};
         extract_multiple<0, 0, Ts...>(ret, elems);
+
+        if (!valid()) {
+            return {};
+        }
+
         return ret;
     }
 
diff --git a/ssp.hpp b/ssp.hpp
index f027022..1611d57 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2279,6 +2279,11 @@ private:
                       "at least one parameter must be non void");
         no_void_validator_tup_t<Ts...> ret{};
         extract_multiple<0, 0, Ts...>(ret, elems);
+
+        if (!valid()) {
+            return {};
+        }
+
         return ret;
     }
 
-- 
2.43.0


From 499e40a97d6d93767718985eff591dc4fc7e5e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 16/28] fix: invalid header used after an exception because of
 duplicate fields

With throw_on_error the fields before the duplicate stayed stored, following
calls of use_fields and field_exists used them as if they were the header.
---
 include/ss/parser.hpp | 2 +-
 ssp.hpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 5fe941f..64e9865 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -565,8 +565,8 @@ private:
             std::string field{begin, end};
             if (std::find(header_.begin(), header_.end(), field) !=
                 header_.end()) {
-                handle_error_duplicate_header_field(field);
                 header_.clear();
+                handle_error_duplicate_header_field(field);
                 return;
             }
             header_.push_back(std::move(field));
diff --git a/ssp.hpp b/ssp.hpp
index 1611d57..76d64cc 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2858,8 +2858,8 @@ private:
             std::string field{begin, end};
             if (std::find(header_.begin(), header_.end(), field) !=
                 header_.end()) {
-                handle_error_duplicate_header_field(field);
                 header_.clear();
+                handle_error_duplicate_header_field(field);
                 return;
             }
             header_.push_back(std::move(field));
-- 
2.43.0


From 23f8e908d8ee139a1507177b6f5712eb6123f459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 17/28] fix: out of bounds read when converting an empty range
 to char

---
 include/ss/extract.hpp | 6 +++++-
 ssp.hpp                | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index f4ce7c9..4e5876b 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -249,8 +249,12 @@ template <>
 template <>
 [[nodiscard]] inline bool extract(const char* begin, const char* end,
                                   char& value) {
+    if (end != begin + 1) {
+        return false;
+    }
+
     value = *begin;
-    return (end == begin + 1);
+    return true;
 }
 
 template <>
diff --git a/ssp.hpp b/ssp.hpp
index 76d64cc..e0664b1 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1782,8 +1782,12 @@ template <>
 template <>
 [[nodiscard]] inline bool extract(const char* begin, const char* end,
                                   char& value) {
+    if (end != begin + 1) {
+        return false;
+    }
+
     value = *begin;
-    return (end == begin + 1);
+    return true;
 }
 
 template <>
-- 
2.43.0


From b636d17c2c8099fc719fc6944a7be2da5455a0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 18/28] fix: multiline not disabled for the header if defined
 within a setup

---
 include/ss/parser.hpp |  3 +--
 include/ss/setup.hpp  | 18 ++++++++++++++++++
 ssp.hpp               | 21 +++++++++++++++++++--
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 64e9865..ef2e98b 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -31,8 +31,7 @@ class parser {
 
     constexpr static bool ignore_empty = setup<Options...>::ignore_empty;
 
-    using header_splitter = ss::splitter<
-        ss::filter_not_t<ss::is_instance_of_multiline, Options...>>;
+    using header_splitter = ss::splitter<no_multiline_t<Options...>>;
 
 public:
     parser(std::string file_name, std::string delim = ss::default_delimiter)
diff --git a/include/ss/setup.hpp b/include/ss/setup.hpp
index d0172ba..6ad2b55 100644
--- a/include/ss/setup.hpp
+++ b/include/ss/setup.hpp
@@ -296,4 +296,22 @@ struct setup<setup<Options...>> : setup<Options...> {};
 template <typename... Options>
 struct setup<std::tuple<Options...>> : setup<Options...> {};
 
+////////////////
+// no multiline
+////////////////
+
+// removes multiline from the given options, including the ones defined within
+// a predefined setup
+template <typename... Options>
+struct no_multiline : filter_not<is_instance_of_multiline, Options...> {};
+
+template <typename... Options>
+struct no_multiline<setup<Options...>> : no_multiline<Options...> {};
+
+template <typename... Options>
+struct no_multiline<std::tuple<Options...>> : no_multiline<Options...> {};
+
+template <typename... Options>
+using no_multiline_t = typename no_multiline<Options...>::type;
+
 } /* namespace ss */
diff --git a/ssp.hpp b/ssp.hpp
index e0664b1..8991ca9 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1065,6 +1065,24 @@ struct setup<setup<Options...>> : setup<Options...> {};
 template <typename... Options>
 struct setup<std::tuple<Options...>> : setup<Options...> {};
 
+////////////////
+// no multiline
+////////////////
+
+// removes multiline from the given options, including the ones defined within
+// a predefined setup
+template <typename... Options>
+struct no_multiline : filter_not<is_instance_of_multiline, Options...> {};
+
+template <typename... Options>
+struct no_multiline<setup<Options...>> : no_multiline<Options...> {};
+
+template <typename... Options>
+struct no_multiline<std::tuple<Options...>> : no_multiline<Options...> {};
+
+template <typename... Options>
+using no_multiline_t = typename no_multiline<Options...>::type;
+
 } /* namespace ss */
 
 namespace ss {
@@ -2328,8 +2346,7 @@ class parser {
 
     constexpr static bool ignore_empty = setup<Options...>::ignore_empty;
 
-    using header_splitter = ss::splitter<
-        ss::filter_not_t<ss::is_instance_of_multiline, Options...>>;
+    using header_splitter = ss::splitter<no_multiline_t<Options...>>;
 
 public:
     parser(std::string file_name, std::string delim = ss::default_delimiter)
-- 
2.43.0


From e41c15b890560b5cccdfae0b9d183cb50b67ac00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 19/28] fix: line number increased by ignoring rows on end of
 file

---
 include/ss/parser.hpp | 4 +++-
 ssp.hpp               | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index ef2e98b..847063b 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -96,7 +96,9 @@ public:
     }
 
     bool ignore_next() {
-        read_line();
+        if (!eof_) {
+            read_line();
+        }
         return !eof_;
     }
 
diff --git a/ssp.hpp b/ssp.hpp
index 8991ca9..5b9f4c5 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2411,7 +2411,9 @@ public:
     }
 
     bool ignore_next() {
-        read_line();
+        if (!eof_) {
+            read_line();
+        }
         return !eof_;
     }
 
-- 
2.43.0


From 3c3dce4401fcbade7fc10675b5faa26516e82c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 20/28] fix: 8 bit character types read as numbers instead of
 single characters

---
 include/ss/extract.hpp | 22 ++++++++++++++++++++++
 ssp.hpp                | 22 ++++++++++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index 4e5876b..8c6a90d 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -257,6 +257,28 @@ template <>
     return true;
 }
 
+template <>
+[[nodiscard]] inline bool extract(const char* begin, const char* end,
+                                  int8_t& value) {
+    if (end != begin + 1) {
+        return false;
+    }
+
+    value = static_cast<int8_t>(*begin);
+    return true;
+}
+
+template <>
+[[nodiscard]] inline bool extract(const char* begin, const char* end,
+                                  uint8_t& value) {
+    if (end != begin + 1) {
+        return false;
+    }
+
+    value = static_cast<uint8_t>(*begin);
+    return true;
+}
+
 template <>
 [[nodiscard]] inline bool extract(const char* begin, const char* end,
                                   std::string& value) {
diff --git a/ssp.hpp b/ssp.hpp
index 5b9f4c5..74417e0 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1808,6 +1808,28 @@ template <>
     return true;
 }
 
+template <>
+[[nodiscard]] inline bool extract(const char* begin, const char* end,
+                                  int8_t& value) {
+    if (end != begin + 1) {
+        return false;
+    }
+
+    value = static_cast<int8_t>(*begin);
+    return true;
+}
+
+template <>
+[[nodiscard]] inline bool extract(const char* begin, const char* end,
+                                  uint8_t& value) {
+    if (end != begin + 1) {
+        return false;
+    }
+
+    value = static_cast<uint8_t>(*begin);
+    return true;
+}
+
 template <>
 [[nodiscard]] inline bool extract(const char* begin, const char* end,
                                   std::string& value) {
-- 
2.43.0


From 9b87ffc334486daef37c54ee113bac5a04b55aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 21/28] fix: only the first line of a multiline row ignored by
 ignore_next

---
 include/ss/parser.hpp | 30 +++++++++++++++++++++++++++---
 ssp.hpp               | 30 +++++++++++++++++++++++++++---
 2 files changed, 54 insertions(+), 6 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 847063b..ac01070 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -39,7 +39,7 @@ public:
         if (reader_.file_) {
             read_line();
             if constexpr (ignore_header) {
-                ignore_next();
+                ignore_header_line();
             } else {
                 raw_header_ = reader_.get_buffer();
                 header_line_number_ = reader_.line_number_;
@@ -57,7 +57,7 @@ public:
         if (csv_data_buffer) {
             read_line();
             if constexpr (ignore_header) {
-                ignore_next();
+                ignore_header_line();
             } else {
                 raw_header_ = reader_.get_buffer();
                 header_line_number_ = reader_.line_number_;
@@ -97,6 +97,7 @@ public:
 
     bool ignore_next() {
         if (!eof_) {
+            consume_multiline();
             read_line();
         }
         return !eof_;
@@ -250,7 +251,7 @@ public:
                                                         header_.size());
 
         if (reader_.line_number_ == header_line_number_) {
-            ignore_next();
+            ignore_header_line();
         }
     }
 
@@ -767,6 +768,29 @@ private:
         eof_ = !reader_.read_next();
     }
 
+    // the header always consists of a single line
+    void ignore_header_line() {
+        if (!eof_) {
+            read_line();
+        }
+    }
+
+    // reads the remaining lines of the row which is about to be ignored
+    void consume_multiline() {
+        if constexpr (escaped_multiline_enabled || quoted_multiline_enabled) {
+            if constexpr (throw_on_error) {
+                try {
+                    reader_.parse();
+                } catch (const ss::exception&) {
+                    // the row is ignored together with its error
+                    return;
+                }
+            } else {
+                reader_.parse();
+            }
+        }
+    }
+
     struct reader {
         reader(const std::string& file_name_, std::string delim)
             : delim_{std::move(delim)},
diff --git a/ssp.hpp b/ssp.hpp
index 74417e0..1febbff 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2376,7 +2376,7 @@ public:
         if (reader_.file_) {
             read_line();
             if constexpr (ignore_header) {
-                ignore_next();
+                ignore_header_line();
             } else {
                 raw_header_ = reader_.get_buffer();
                 header_line_number_ = reader_.line_number_;
@@ -2394,7 +2394,7 @@ public:
         if (csv_data_buffer) {
             read_line();
             if constexpr (ignore_header) {
-                ignore_next();
+                ignore_header_line();
             } else {
                 raw_header_ = reader_.get_buffer();
                 header_line_number_ = reader_.line_number_;
@@ -2434,6 +2434,7 @@ public:
 
     bool ignore_next() {
         if (!eof_) {
+            consume_multiline();
             read_line();
         }
         return !eof_;
@@ -2587,7 +2588,7 @@ public:
                                                         header_.size());
 
         if (reader_.line_number_ == header_line_number_) {
-            ignore_next();
+            ignore_header_line();
         }
     }
 
@@ -3104,6 +3105,29 @@ private:
         eof_ = !reader_.read_next();
     }
 
+    // the header always consists of a single line
+    void ignore_header_line() {
+        if (!eof_) {
+            read_line();
+        }
+    }
+
+    // reads the remaining lines of the row which is about to be ignored
+    void consume_multiline() {
+        if constexpr (escaped_multiline_enabled || quoted_multiline_enabled) {
+            if constexpr (throw_on_error) {
+                try {
+                    reader_.parse();
+                } catch (const ss::exception&) {
+                    // the row is ignored together with its error
+                    return;
+                }
+            } else {
+                reader_.parse();
+            }
+        }
+    }
+
     struct reader {
         reader(const std::string& file_name_, std::string delim)
             : delim_{std::move(delim)},
-- 
2.43.0


From 59c909dac9b249f9f46fb97d3badcb08f94246ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 22/28] fix: plus signs and hexadecimal numbers accepted as
 floating points without fast_float

---
 include/ss/extract.hpp | 7 +++++++
 ssp.hpp                | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index 8c6a90d..25a43a9 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -54,6 +54,13 @@ to_num(const char* const begin, const char* const end) {
         return std::nullopt;
     }
 
+    // they would also accept a plus sign and hexadecimal numbers, as opposed
+    // to fast_float
+    const auto hex = [](char c) { return c == 'x' || c == 'X'; };
+    if (*begin == '+' || std::any_of(begin, std::find(begin, end, '('), hex)) {
+        return std::nullopt;
+    }
+
     const size_t string_range = std::distance(begin, end);
     std::string long_buff;
 
diff --git a/ssp.hpp b/ssp.hpp
index 1febbff..ab4c99d 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1605,6 +1605,13 @@ to_num(const char* const begin, const char* const end) {
         return std::nullopt;
     }
 
+    // they would also accept a plus sign and hexadecimal numbers, as opposed
+    // to fast_float
+    const auto hex = [](char c) { return c == 'x' || c == 'X'; };
+    if (*begin == '+' || std::any_of(begin, std::find(begin, end, '('), hex)) {
+        return std::nullopt;
+    }
+
     const size_t string_range = std::distance(begin, end);
     std::string long_buff;
 
-- 
2.43.0


From 143a99a04e140e56e221791c8012cd6ba93af7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 23/28] fix: optionals and variants of variants could not be
 compiled

---
 include/ss/extract.hpp | 5 +++++
 ssp.hpp                | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index 25a43a9..67cb069 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -189,6 +189,11 @@ extract(const char* begin, const char* end, T& value) {
     return true;
 }
 
+// optionals and variants can contain variants
+template <typename T>
+[[nodiscard]] std::enable_if_t<is_instance_of_v<std::variant, T>, bool> extract(
+    const char* begin, const char* end, T& value);
+
 template <typename T>
 [[nodiscard]] std::enable_if_t<is_instance_of_v<std::optional, T>, bool>
 extract(const char* begin, const char* end, T& value) {
diff --git a/ssp.hpp b/ssp.hpp
index ab4c99d..faf21df 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1740,6 +1740,11 @@ extract(const char* begin, const char* end, T& value) {
     return true;
 }
 
+// optionals and variants can contain variants
+template <typename T>
+[[nodiscard]] std::enable_if_t<is_instance_of_v<std::variant, T>, bool> extract(
+    const char* begin, const char* end, T& value);
+
 template <typename T>
 [[nodiscard]] std::enable_if_t<is_instance_of_v<std::optional, T>, bool>
 extract(const char* begin, const char* end, T& value) {
-- 
2.43.0


From 5eb5361106efe4b032b1fcd82292d8fc3d5ca8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 24/28] fix: parser could not be used after an exception left
 the conversion of a row

---
 include/ss/parser.hpp | 25 +++++++++++++++++++++++--
 ssp.hpp               | 25 +++++++++++++++++++++++--
 2 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index ac01070..c8714c4 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -97,6 +97,7 @@ public:
 
     bool ignore_next() {
         if (!eof_) {
+            eof_ = true;
             consume_multiline();
             read_line();
         }
@@ -126,6 +127,9 @@ public:
             return {};
         }
 
+        // until the next line is read, in case an exception prevents that
+        eof_ = true;
+
         if constexpr (throw_on_error) {
             try {
                 reader_.parse();
@@ -149,7 +153,7 @@ public:
 
         if constexpr (throw_on_error) {
             try {
-                auto value = reader_.converter_.template convert<T, Ts...>();
+                auto value = convert_row<T, Ts...>();
                 read_line();
                 return value;
             } catch (const ss::exception& e) {
@@ -159,7 +163,7 @@ public:
             }
         }
 
-        auto value = reader_.converter_.template convert<T, Ts...>();
+        auto value = convert_row<T, Ts...>();
 
         if (!reader_.converter_.valid()) {
             handle_error_invalid_conversion();
@@ -765,9 +769,26 @@ private:
     ////////////////
 
     void read_line() {
+        eof_ = true;
         eof_ = !reader_.read_next();
     }
 
+    // a row is used up by any exception which leaves its conversion
+    template <typename T, typename... Ts>
+    [[nodiscard]] no_void_validator_tup_t<T, Ts...> convert_row() {
+        try {
+            return reader_.converter_.template convert<T, Ts...>();
+        } catch (const ss::exception&) {
+            if constexpr (!throw_on_error) {
+                read_line();
+            }
+            throw;
+        } catch (...) {
+            read_line();
+            throw;
+        }
+    }
+
     // the header always consists of a single line
     void ignore_header_line() {
         if (!eof_) {
diff --git a/ssp.hpp b/ssp.hpp
index faf21df..c8c0cc6 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2446,6 +2446,7 @@ public:
 
     bool ignore_next() {
         if (!eof_) {
+            eof_ = true;
             consume_multiline();
             read_line();
         }
@@ -2475,6 +2476,9 @@ public:
             return {};
         }
 
+        // until the next line is read, in case an exception prevents that
+        eof_ = true;
+
         if constexpr (throw_on_error) {
             try {
                 reader_.parse();
@@ -2498,7 +2502,7 @@ public:
 
         if constexpr (throw_on_error) {
             try {
-                auto value = reader_.converter_.template convert<T, Ts...>();
+                auto value = convert_row<T, Ts...>();
                 read_line();
                 return value;
             } catch (const ss::exception& e) {
@@ -2508,7 +2512,7 @@ public:
             }
         }
 
-        auto value = reader_.converter_.template convert<T, Ts...>();
+        auto value = convert_row<T, Ts...>();
 
         if (!reader_.converter_.valid()) {
             handle_error_invalid_conversion();
@@ -3114,9 +3118,26 @@ private:
     ////////////////
 
     void read_line() {
+        eof_ = true;
         eof_ = !reader_.read_next();
     }
 
+    // a row is used up by any exception which leaves its conversion
+    template <typename T, typename... Ts>
+    [[nodiscard]] no_void_validator_tup_t<T, Ts...> convert_row() {
+        try {
+            return reader_.converter_.template convert<T, Ts...>();
+        } catch (const ss::exception&) {
+            if constexpr (!throw_on_error) {
+                read_line();
+            }
+            throw;
+        } catch (...) {
+            read_line();
+            throw;
+        }
+    }
+
     // the header always consists of a single line
     void ignore_header_line() {
         if (!eof_) {
-- 
2.43.0


From ef21afcdf488894dde669af3cc3dfd8d5910371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 25/28] fix: floating point conversions without fast_float
 depended on the locale

---
 include/ss/extract.hpp | 23 +++++++++++++++++++++--
 ssp.hpp                | 22 ++++++++++++++++++++--
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index 67cb069..18bb2d8 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -15,6 +15,7 @@
 #include <algorithm>
 #include <array>
 #include <cctype>
+#include <cstdio>
 #include <cstdlib>
 #endif
 
@@ -61,11 +62,29 @@ to_num(const char* const begin, const char* const end) {
         return std::nullopt;
     }
 
-    const size_t string_range = std::distance(begin, end);
+    size_t string_range = std::distance(begin, end);
     std::string long_buff;
 
     char* buff = nullptr;
-    if (string_range >= buff_max) {
+    if (std::strtod("0.5", nullptr) != 0.5) {
+        // they expect the decimal point of the current locale
+        std::array<char, buff_max> half;
+        const auto size = std::snprintf(half.data(), half.size(), "%.1f", 0.5);
+        const std::string point{half.data() + 1, half.data() + size - 1};
+
+        long_buff = std::string{begin, end};
+        if (long_buff.find(point) != std::string::npos) {
+            return std::nullopt;
+        }
+
+        const auto position = long_buff.find('.');
+        if (position != std::string::npos) {
+            long_buff.replace(position, 1, point);
+        }
+
+        buff = long_buff.data();
+        string_range = long_buff.size();
+    } else if (string_range >= buff_max) {
         long_buff = std::string{begin, end};
         buff = long_buff.data();
     } else {
diff --git a/ssp.hpp b/ssp.hpp
index c8c0cc6..cdf3611 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1612,11 +1612,29 @@ to_num(const char* const begin, const char* const end) {
         return std::nullopt;
     }
 
-    const size_t string_range = std::distance(begin, end);
+    size_t string_range = std::distance(begin, end);
     std::string long_buff;
 
     char* buff = nullptr;
-    if (string_range >= buff_max) {
+    if (std::strtod("0.5", nullptr) != 0.5) {
+        // they expect the decimal point of the current locale
+        std::array<char, buff_max> half;
+        const auto size = std::snprintf(half.data(), half.size(), "%.1f", 0.5);
+        const std::string point{half.data() + 1, half.data() + size - 1};
+
+        long_buff = std::string{begin, end};
+        if (long_buff.find(point) != std::string::npos) {
+            return std::nullopt;
+        }
+
+        const auto position = long_buff.find('.');
+        if (position != std::string::npos) {
+            long_buff.replace(position, 1, point);
+        }
+
+        buff = long_buff.data();
+        string_range = long_buff.size();
+    } else if (string_range >= buff_max) {
         long_buff = std::string{begin, end};
         buff = long_buff.data();
     } else {
-- 
2.43.0


From d5dc4f87ac391f292296c9d0a3dd7d8d21127b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:39 +0000
Subject: [PATCH 26/28] fix: long lines read in quadratic time by the portable
 get_line_file

---
 include/ss/common.hpp | 1 -
 ssp.hpp               | 1 -
 2 files changed, 2 deletions(-)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index 5401727..756bcab 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -64,7 +64,6 @@ using ssize_t = intptr_t;
 
     size_t line_used = 0;
     while (std::fgets(buff.data(), sizeof(buff), file) != nullptr) {
-        line_used = std::strlen(lineptr);
         size_t buff_used = std::strlen(buff.data());
 
         if (n <= buff_used + line_used) {
diff --git a/ssp.hpp b/ssp.hpp
index cdf3611..417aa39 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -682,7 +682,6 @@ using ssize_t = intptr_t;
 
     size_t line_used = 0;
     while (std::fgets(buff.data(), sizeof(buff), file) != nullptr) {
-        line_used = std::strlen(lineptr);
         size_t buff_used = std::strlen(buff.data());
 
         if (n <= buff_used + line_used) {
-- 
2.43.0


From e86e5f7bc42b3c406a0563888972a16ac217450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:56 +0000
Subject: [PATCH 27/28] fix: running out of memory while splitting the header
 left a part of its fields

A call which split the header and ran out of memory left the fields split so
far as the header: later calls did not find the others and expected fewer
columns.
---
 include/ss/parser.hpp | 10 ++++++----
 ssp.hpp               | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index c8714c4..4efe9e9 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -567,16 +567,18 @@ private:
             return;
         }
 
+        std::vector<std::string> split_header;
         for (const auto& [begin, end] : splitter.get_split_data()) {
             std::string field{begin, end};
-            if (std::find(header_.begin(), header_.end(), field) !=
-                header_.end()) {
-                header_.clear();
+            if (std::find(split_header.begin(), split_header.end(), field) !=
+                split_header.end()) {
                 handle_error_duplicate_header_field(field);
                 return;
             }
-            header_.push_back(std::move(field));
+            split_header.push_back(std::move(field));
         }
+
+        header_ = std::move(split_header);
     }
 
     [[nodiscard]] std::optional<size_t> header_index(const std::string& field) {
diff --git a/ssp.hpp b/ssp.hpp
index 417aa39..c590883 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2933,16 +2933,18 @@ private:
             return;
         }
 
+        std::vector<std::string> split_header;
         for (const auto& [begin, end] : splitter.get_split_data()) {
             std::string field{begin, end};
-            if (std::find(header_.begin(), header_.end(), field) !=
-                header_.end()) {
-                header_.clear();
+            if (std::find(split_header.begin(), split_header.end(), field) !=
+                split_header.end()) {
                 handle_error_duplicate_header_field(field);
                 return;
             }
-            header_.push_back(std::move(field));
+            split_header.push_back(std::move(field));
         }
+
+        header_ = std::move(split_header);
     }
 
     [[nodiscard]] std::optional<size_t> header_index(const std::string& field) {
-- 
2.43.0


From 76bf0aaa07bceaa3d7a38e348ab7eed357d0daf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:30 +0000
Subject: [PATCH 28/28] fix: running out of memory while selecting fields left
 them selected for every other row

---
 include/ss/parser.hpp | 9 ++++++---
 ssp.hpp               | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 4efe9e9..7a45f24 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -250,9 +250,12 @@ public:
             column_mappings.push_back(*index);
         }
 
-        reader_.converter_.set_column_mapping(column_mappings, header_.size());
-        reader_.next_line_converter_.set_column_mapping(column_mappings,
-                                                        header_.size());
+        auto next_line_column_mappings = column_mappings;
+        reader_.converter_.set_column_mapping(std::move(column_mappings),
+                                              header_.size());
+        reader_.next_line_converter_
+            .set_column_mapping(std::move(next_line_column_mappings),
+                                header_.size());
 
         if (reader_.line_number_ == header_line_number_) {
             ignore_header_line();
diff --git a/ssp.hpp b/ssp.hpp
index c590883..2f8a23f 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2616,9 +2616,12 @@ public:
             column_mappings.push_back(*index);
         }
 
-        reader_.converter_.set_column_mapping(column_mappings, header_.size());
-        reader_.next_line_converter_.set_column_mapping(column_mappings,
-                                                        header_.size());
+        auto next_line_column_mappings = column_mappings;
+        reader_.converter_.set_column_mapping(std::move(column_mappings),
+                                              header_.size());
+        reader_.next_line_converter_
+            .set_column_mapping(std::move(next_line_column_mappings),
+                                header_.size());
 
         if (reader_.line_number_ == header_line_number_) {
             ignore_header_line();
-- 
2.43.0

