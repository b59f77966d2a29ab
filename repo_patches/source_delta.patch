From 58030b23c0be088c9b1a90a1a4bf433fb5767b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 01/87] fix: do not turn the wrong start token into a NOP when
 a paused stream resumes

---
 src/parser/StreamMLParser.hpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index d569eab..91f5e9b 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -859,7 +859,29 @@ private:
         if (!paused)
             return;
 
-        if (pausetoken->getType() != output().back()->getType())
+        if (output().empty() || pausetoken->getType() != output().back()->getType())
+            return;
+
+        // the last token must be the end that matches the paused start token,
+        // and not the end of a later element of the same type
+        int depth = 0;
+        for (auto it = output().rbegin(); it != output().rend(); ++it) {
+
+            if (isend(*it))
+                ++depth;
+            else if (ispurestart(*it))
+                --depth;
+
+            if (depth == 0) {
+
+                if (&**it != &*pausetoken)
+                    return;
+
+                break;
+            }
+        }
+
+        if (depth != 0 || &*pausetoken == &*output().back())
             return;
 
         pausetoken->setType(SNOP);
-- 
2.43.0


From 2060a9d4bac48462b814caf2dbd15fa8b05120cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 02/87] fix: do not consume the end of a preprocessor directive
 when recovering in an expression

---
 src/parser/srcMLParser.g | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index f89e6dc..93f5c98 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -9618,10 +9618,13 @@ cpp_expression[CALL_TYPE type = NOCALL] { ENTRY_DEBUG } :
 exception
 catch[...] {
 
-        startNewMode(MODE_LOCAL);
-        startElement(SNAME);
-        consume();
-        endMode();
+        // never consume the end of the directive
+        if (!cpp_check_end()) {
+            startNewMode(MODE_LOCAL);
+            startElement(SNAME);
+            consume();
+            endMode();
+        }
 
 }
 
-- 
2.43.0


From 46d5eac7f9cf3d669fe0f43da033746d68dfc274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 03/87] fix: C# array index parsing no longer loops forever on
 a token that cannot be part of an index

---
 src/parser/srcMLParser.g | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 93f5c98..235f6aa 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -776,6 +776,15 @@ public:
 
     void endAllModes();
 
+    // has the current token changed since the last one recorded
+    bool token_advanced(antlr::RefToken& last) {
+
+        antlr::RefToken current = LT(1);
+        bool advanced = current != last;
+        last = current;
+
+        return advanced;
+    }
 
     virtual void consume() {
 
@@ -5015,6 +5024,9 @@ variable_identifier_array_grammar_sub_contents{ bool found_expr = false; bool is
 
                 set_bool[is_expr, true]
 
+                // stop at a token that can not be part of an index
+                set_bool[progress, token_advanced(last)]
+
         )*
         { if (is_expr && !found_expr) empty_element(SEXPRESSION, true); }
 ;
-- 
2.43.0


From 9a95236e5cbe1f3f2516bc2c40d7cc6bd13bec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 04/87] fix: treat DEL as a control character instead of ending
 the output at it

---
 src/parser/TextLexer.g | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/TextLexer.g b/src/parser/TextLexer.g
index 604d049..a4f52c4 100644
--- a/src/parser/TextLexer.g
+++ b/src/parser/TextLexer.g
@@ -217,6 +217,7 @@ CONTROL_CHAR :
     (
         '\000'..'\010' |
         '\013'..'\014' |
-        '\016'..'\037'
+        '\016'..'\037' |
+        '\177'
     )
 ;
-- 
2.43.0


From eba865aaaf3c28f3808ac85b5d165705edb0c84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 05/87] fix: control characters are not part of a raw string
 delimiter

---
 src/parser/CommentTextLexer.g | 2 +-
 src/parser/TextLexer.g        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/CommentTextLexer.g b/src/parser/CommentTextLexer.g
index 36ed6ba..48dc9d3 100644
--- a/src/parser/CommentTextLexer.g
+++ b/src/parser/CommentTextLexer.g
@@ -253,5 +253,5 @@ protected
 RSTRING_DELIMITER:
     { delimiter = ""; }
     (options { greedy = true; } : { delimiter.size() < delimiter1.size() }? { delimiter += LA(1); } 
-        ~('(' | ')' | '\\' | '\n' | ' ' | '\t' ))*
+        ~('\000'..'\037' | '(' | ')' | '\\' | ' ' ))*
 ;
diff --git a/src/parser/TextLexer.g b/src/parser/TextLexer.g
index a4f52c4..ec455ce 100644
--- a/src/parser/TextLexer.g
+++ b/src/parser/TextLexer.g
@@ -97,7 +97,7 @@ RAW_STRING_START :
 protected
 RSTRING_DELIMITER:
     { delimiter = ""; }
-    (options { greedy = true; } : { delimiter += LA(1); } ~('(' | ')' | '\\' | '\n' | ' ' | '\t' ))*
+    (options { greedy = true; } : { delimiter += LA(1); } ~('\000'..'\037' | '(' | ')' | '\\' | ' ' ))*
 ;
 
 CHAR_START :
-- 
2.43.0


From 03649df7fccc01ae9891fd78ff1ecd0db5957638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 06/87] fix: pausing the stream in a Java enum without a
 started statement no longer crashes

---
 src/parser/StreamMLParser.hpp | 10 ++++++----
 src/parser/srcMLParser.g      |  4 +++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index 91f5e9b..7359b82 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -664,12 +664,14 @@ private:
         // assume primed
         tb.pop_front();
 
-        // fill the token buffer if it is empty
-        if (tb.empty())
+        // fill the token buffer if it is empty. If the parsing made no output,
+        // then force progress by consuming a token
+        while (tb.empty()) {
             fillTokenBuffer();
 
-        if (tb.empty())
-            consume();
+            if (tb.empty())
+                consume();
+        }
 
         while (paused)
             fillTokenBuffer();
diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 235f6aa..40660aa 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -7182,7 +7182,9 @@ expression_statement[CALL_TYPE type = NOCALL, int call_count = 1] { ENTRY_DEBUG
         expression_statement_process
 
         { 
-            pauseStream();
+            // only when the statement element was started, i.e., not in a Java enum
+            if (!currentState().openelements.empty())
+                pauseStream();
         }
 
         expression[type, call_count]
-- 
2.43.0


From 07526fd195fbf797f04d0f8b761a916975d18987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 07/87] fix: stop the C# array index loop on no progress

---
 src/parser/srcMLParser.g | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 40660aa..7aafd93 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -5012,11 +5012,11 @@ variable_identifier_array_grammar_sub[bool& iscomplex] { CompleteElement element
 ;
 
 // contents of array index
-variable_identifier_array_grammar_sub_contents{ bool found_expr = false; bool is_expr = false; ENTRY_DEBUG } :
+variable_identifier_array_grammar_sub_contents{ bool found_expr = false; bool is_expr = false; bool progress = true; antlr::RefToken last = LT(1); ENTRY_DEBUG } :
         { !inLanguage(LANGUAGE_CSHARP) && !inLanguage(LANGUAGE_OBJECTIVE_C) }? complete_expression |
 
         { inLanguage(LANGUAGE_CSHARP) || inLanguage(LANGUAGE_OBJECTIVE_C) }?
-            (options { greedy = true; } : { LA(1) != RBRACKET }?
+            (options { greedy = true; } : { LA(1) != RBRACKET && progress }?
                 ({ /* stop warning */ LA(1) == COMMA }? { if (!found_expr) { empty_element(SEXPRESSION, true); }
 
 
-- 
2.43.0


From e0e757bcde786261b58015635491f2d8ab4be34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 08/87] fix: do not write through a recorded token position
 whose element has already ended

---
 src/parser/srcMLParser.g | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 7aafd93..6af5f24 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -187,21 +187,39 @@ enum CALL_TYPE { NOCALL, CALL, MACRO };
 struct TokenPosition {
 
     TokenPosition() 
-        : token(0), sp(0) {}
+        : states(0), sp(0) {}
 
     // sets a particular token in the output token stream
     void setType(int type) {
 
+        // the element may have already been ended, along with its state
+        if (!is_open())
+            return;
+
         // set the inner name token to type
-        (*token)->setType(type);
+        token->setType(type);
 
         // set this position in the element stack to type
         *sp = type;
     }
 
+    // is the recorded element still open
+    bool is_open() const {
+
+        if (!states)
+            return false;
+
+        for (std::list<srcMLState>::reverse_iterator i = states->rbegin(); i != states->rend(); ++i)
+            if (!i->openelements.empty() && &i->openelements.top() == sp)
+                return *sp == token->getType();
+
+        return false;
+    }
+
     ~TokenPosition() {}
 
-    antlr::RefToken* token;
+    antlr::RefToken token;
+    std::list<srcMLState>* states;
     int* sp;
 };
 
@@ -770,7 +788,8 @@ public:
 
     // sets to the current token in the output token stream
     void setTokenPosition(TokenPosition& tp) {
-        tp.token = CurrentToken();
+        tp.token = *CurrentToken();
+        tp.states = &st;
         tp.sp = &(currentState().openelements.top());
     }
 
-- 
2.43.0


From 01533508ba781bf6b82be951800b536a03c26a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 09/87] fix: a paused stream that makes no progress no longer
 loops forever

---
 src/parser/StreamMLParser.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index 7359b82..46bbe27 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -673,9 +673,18 @@ private:
                 consume();
         }
 
-        while (paused)
+        // to prevent infinite loops, consume is called if the paused stream makes no progress,
+        // i.e., the same current token and no new output
+        while (paused) {
+            antlr::RefToken token = LT(1);
+            auto size = output().size();
+
             fillTokenBuffer();
 
+            if (paused && LT(1) == token && output().size() == size)
+                consume();
+        }
+
         // to calculate end position, need to buffer until end token in reached
         // to prevent infinite loops, consume is called if no progress is made on the
         // current token, e.g., double max const();
-- 
2.43.0


From 531a5dca8587da96c43fb54559b1f01d8171a4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 10/87] fix: srcml_unit_unparse_memory reports the full size
 when the source has null characters, and frees its buffer on failure

---
 src/libsrcml/srcml_unit.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index d4b764d..4faff3c 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -777,15 +777,18 @@ int srcml_unit_unparse_memory(struct srcml_unit* unit, char** src_buffer, size_t
         buffer = xmlBufferCreate();
         return xmlOutputBufferCreateBuffer(buffer, handler);
     });
-    if (status != SRCML_STATUS_OK)
+    if (status != SRCML_STATUS_OK) {
+        xmlBufferFree(buffer);
         return status;
+    }
+
+    // the source may include null characters
+    *src_size = (size_t) xmlBufferLength(buffer);
 
     (*src_buffer) = (char *) xmlBufferDetach(buffer);
+    xmlBufferFree(buffer);
     if (!(*src_buffer))
         return SRCML_STATUS_ERROR;
-    *src_size = strlen(*src_buffer);
-
-    xmlBufferFree(buffer);
 
     return SRCML_STATUS_OK;
 }
-- 
2.43.0


From da8837b4f29b455fbee2b0b70b34be3523bea51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 11/87] fix: source input in short reads, characters split over
 reads, and byte-order marks are decoded the same as from memory

---
 src/parser/UTF8CharBuffer.cpp | 64 ++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index c45cf68..666c40f 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -156,6 +156,9 @@ UTF8CharBuffer::UTF8CharBuffer(const char* ifilename, const char* encoding, bool
         delete static_cast<Context<int>*>(context);
         return close(fd);
     };
+
+    // read now, as for memory, so that any encoding from a BOM is known
+    insize = readChars();
 }
 
 /**
@@ -212,6 +215,9 @@ UTF8CharBuffer::UTF8CharBuffer(FILE* file, const char* encoding, bool hashneeded
             return (size_t) result;
     };
     sio.close_callback = [](void*) -> int { return 0; };
+
+    // read now, as for memory, so that any encoding from a BOM is known
+    insize = readChars();
 }
 
 /**
@@ -237,6 +243,9 @@ UTF8CharBuffer::UTF8CharBuffer(int fd, const char* encoding, bool hashneeded, bo
         delete static_cast<Context<int>*>(context);
         return 0;
     };
+
+    // read now, as for memory, so that any encoding from a BOM is known
+    insize = readChars();
 }
 
 /**
@@ -258,6 +267,9 @@ UTF8CharBuffer::UTF8CharBuffer(void* context, srcml_read_callback read_callback,
     sio.context = context;
     sio.read_callback = read_callback;
     sio.close_callback = close_callback;
+
+    // read now, as for memory, so that any encoding from a BOM is known
+    insize = readChars();
 }
 
 /**
@@ -287,6 +299,14 @@ ssize_t UTF8CharBuffer::readChars() {
             return 0;
         }
 
+        // the first read has to be long enough to detect any BOM
+        while (firstRead && insize < 4) {
+            ssize_t more = sio.read_callback(sio.context, raw.data() + insize, raw.size() - insize);
+            if (more <= 0)
+                break;
+            insize += more;
+        }
+
         // new size is the number of bytes read in, plus any incomplete multibyte sequences from previous
         raw.resize(insize + inbytesleft);
     }
@@ -315,8 +335,8 @@ ssize_t UTF8CharBuffer::readChars() {
         // check for UTF-8 BOM
         if ((data.i & 0x00FFFFFF) == 0x00BFBBEF) {
 
-            // a trivial conversion, so BOM (Byte Order Mark) for UTF-8 has to be manually skipped
-            pos += 3;
+            // BOM (Byte Order Mark) for UTF-8 is kept by the conversion, so has to be manually skipped
+            raw.erase(raw.begin(), raw.begin() + 3);
 
             // no encoding specified (by user) then UTF-8, otherwise check if it is compatible with UTF-8
             if (encoding.empty()) {
@@ -326,23 +346,15 @@ ssize_t UTF8CharBuffer::readChars() {
             }
         }
 
-        // auto-detect UTF-16 based on BOM
-        // both UTF-16LE and UTF-16BE are determined automatically from BOM
-        // and processed as UTF-16
-        if ((data.i & 0x0000FFFF) == 0x0000FFFE || (data.i & 0x0000FFFF) == 0x0000FEFF) {
-
-            // no encoding specified (by user) then UTF-16, otherwise check if it is compatible with UTF-16
-            if (encoding.empty()) {
-                encoding = "UTF-16";
-            } else if (encoding != "UTF-16" && !compatibleEncodings(encoding.c_str(), "UTF-16")) {
-                fprintf(stderr, "Warning: the encoding %s was specified, but the source code has a UTF-16 BOM\n", encoding.c_str());
-            }
-        }
+        bool isUTF32 = false;
 
         // auto-detect UTF-32 based on BOM
         // both UTF-32LE and UTF-32BE are determined automatically from BOM
         // and processed as UTF-32
-        if (data.i == 0xFFFE0000 || data.i == 0xFEFF0000) {
+        // has to be before UTF-16, since the UTF-32LE BOM starts with the UTF-16LE BOM
+        if (raw.size() >= 4 && (data.i == 0xFFFE0000 || data.i == 0x0000FEFF)) {
+
+            isUTF32 = true;
 
             // no encoding specified (by user) then UTF-32, otherwise check if it is compatible with UTF-32
             if (encoding.empty()) {
@@ -352,6 +364,19 @@ ssize_t UTF8CharBuffer::readChars() {
             }
         }
 
+        // auto-detect UTF-16 based on BOM
+        // both UTF-16LE and UTF-16BE are determined automatically from BOM
+        // and processed as UTF-16
+        if (!isUTF32 && ((data.i & 0x0000FFFF) == 0x0000FFFE || (data.i & 0x0000FFFF) == 0x0000FEFF)) {
+
+            // no encoding specified (by user) then UTF-16, otherwise check if it is compatible with UTF-16
+            if (encoding.empty()) {
+                encoding = "UTF-16";
+            } else if (encoding != "UTF-16" && !compatibleEncodings(encoding.c_str(), "UTF-16")) {
+                fprintf(stderr, "Warning: the encoding %s was specified, but the source code has a UTF-16 BOM\n", encoding.c_str());
+            }
+        }
+
         // if no encoding found or specified, assume ISO-8859-1
         if (encoding.empty())
             encoding = "ISO-8859-1";
@@ -391,7 +416,8 @@ ssize_t UTF8CharBuffer::readChars() {
 
         // convert from raw characters to cooked, encoded in UTF-8 characters
         size_t binsize = iconv(ic, &linbuf, &inbytesleft, &loutbuf, &outbytesleft);
-        if (binsize == (size_t) -1) {
+        // an incomplete multibyte sequence at the end of the input (EINVAL) is completed by the next read
+        if (binsize == (size_t) -1 && errno != EINVAL) {
             fprintf(stderr, "%s\n", strerror(errno));
             return 0;
         }
@@ -404,6 +430,12 @@ ssize_t UTF8CharBuffer::readChars() {
         // so just move all of them to the start of the buffer
         if (inbytesleft)
             std::move(linbuf, linbuf + inbytesleft, raw.begin());
+
+        // not enough input for even a single character
+        if (cooked.empty()) {
+            insize = 0;
+            return readChars();
+        }
     }
 
     return trivial ? raw.size() : cooked.size();
-- 
2.43.0


From 3ee6224d395dcbed6ad7d6ad04fb403c97798dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 12/87] fix: srcml_unit_parse_filename closes the file it
 opened

---
 src/libsrcml/srcml_unit.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 4faff3c..92ef8b9 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -564,10 +564,14 @@ int srcml_unit_parse_filename(struct srcml_unit* unit, const char* src_filename)
         return SRCML_STATUS_IO_ERROR;
     }
 
-    return srcml_unit_parse_internal(unit, src_filename, [src_fd](const char* encoding, bool output_hash, boost::optional<std::string>& hash)-> UTF8CharBuffer* {
+    int status = srcml_unit_parse_internal(unit, src_filename, [src_fd](const char* encoding, bool output_hash, boost::optional<std::string>& hash)-> UTF8CharBuffer* {
 
         return new UTF8CharBuffer(src_fd, encoding, output_hash, hash);
     });
+
+    CLOSE(src_fd);
+
+    return status;
 }
 
 /**
-- 
2.43.0


From ed64453ea9e31c8194910969592e667af0cd3799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 13/87] fix: the archive reader and its parser thread wait for
 a recorded turn, so no notification is lost and every parse end is signalled

---
 src/libsrcml/srcml_reader_handler.hpp | 64 ++++++++++-----------------
 src/libsrcml/srcml_sax2_reader.cpp    |  7 ++-
 2 files changed, 27 insertions(+), 44 deletions(-)

diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 721c8b1..c868c3f 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -106,8 +106,8 @@ private :
     /** terminate */
     bool terminate = false;
 
-    /** indicate if we need to wait on the root */
-    bool wait_root = true;
+    /** the parser runs, and the reading thread waits, until the parser pauses */
+    bool parser_turn = true;
 
     /** skip internal unit elements */
     bool skip = false;
@@ -154,23 +154,22 @@ public :
 
         std::unique_lock<std::mutex> lock(mutex);
 
-        if (is_done)
-            return;
-
-        if (wait_root)
-            cond.wait(lock);
+        cond.wait(lock, [this] { return !parser_turn || is_done; });
     }
 
     /**
-     * resume
+     * pause
      *
-     * Resume SAX2 execution.
+     * Pause SAX2 execution until resumed or stopped. Called from the parser thread.
      */
-    void resume() {
+    void pause() {
 
         std::unique_lock<std::mutex> lock(mutex);
 
+        parser_turn = false;
         cond.notify_one();
+
+        cond.wait(lock, [this] { return parser_turn || terminate; });
     }
 
     /**
@@ -181,11 +180,13 @@ public :
     void resume_and_wait() {
 
         std::unique_lock<std::mutex> lock(mutex);
-        cond.notify_one();
         if (is_done)
             return;
 
-        cond.wait(lock);
+        parser_turn = true;
+        cond.notify_one();
+
+        cond.wait(lock, [this] { return !parser_turn || is_done; });
     }
 
     /**
@@ -195,7 +196,10 @@ public :
      */
     void done() {
 
-        is_done = true;
+        std::unique_lock<std::mutex> lock(mutex);
+
+        if (!is_done)
+            is_done = true;
 
         cond.notify_one();
     }
@@ -208,13 +212,11 @@ public :
      */
     void stop() {
 
-        {
-            std::unique_lock<std::mutex> lock(mutex);
+        std::unique_lock<std::mutex> lock(mutex);
 
-            terminate = true;
-        }
+        terminate = true;
 
-        resume();
+        cond.notify_one();
     }
 
 #pragma GCC diagnostic push
@@ -348,16 +350,8 @@ public :
         // pause
         if (!read_root) {
 
-            {
-                std::unique_lock<std::mutex> lock(mutex);
-
-                if (terminate)
-                    stop_parser();
-                wait_root = false;
-                cond.notify_one();
-                cond.wait(lock);
-                read_root = true;
-            }
+            pause();
+            read_root = true;
 
             if (terminate) {
 
@@ -376,13 +370,7 @@ public :
 
         if (collect_unit_header) {
 
-            // pause
-            std::unique_lock<std::mutex> lock(mutex);
-            if (terminate)
-                stop_parser();
-
-            cond.notify_one();
-            cond.wait(lock);
+            pause();
         }
 
         state->loc = 0;
@@ -476,11 +464,7 @@ public :
                 }
             }
 
-            // pause
-            std::unique_lock<std::mutex> lock(mutex);
-            if (terminate) stop_parser();
-            cond.notify_one();
-            cond.wait(lock);
+            pause();
         }
 
         if (terminate)
diff --git a/src/libsrcml/srcml_sax2_reader.cpp b/src/libsrcml/srcml_sax2_reader.cpp
index 567126d..377232e 100644
--- a/src/libsrcml/srcml_sax2_reader.cpp
+++ b/src/libsrcml/srcml_sax2_reader.cpp
@@ -45,13 +45,12 @@ static void* start_routine(thread_args* args) {
         if (!(error.error_code == XML_ERR_EXTRA_CONTENT || error.error_code == XML_ERR_DOCUMENT_END)) {
 
             fprintf(stderr, "Error Parsing: %s\n", error.message.c_str());
-
-            args->handler->done();
         }
-
-        // might have to release a lock here or set is_done
     }
 
+    // however the parsing ended, nothing more is coming
+    args->handler->done();
+
     return 0;
 }
 
-- 
2.43.0


From 7f4911b2ed1c2cc9db0a5279c5a2c4082be393bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 14/87] fix: archives being read at the same time no longer
 share the element names of the last one opened

---
 src/libsrcml/sax2_srcsax_handler.cpp | 20 +++++++-------------
 src/libsrcml/sax2_srcsax_handler.hpp |  6 ++++++
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index e2ca856..9520744 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -48,12 +48,6 @@
     #define SRCSAX_DEBUG_END_CHARS(ch,len)
 #endif
 
-// libxml2 places elements into a dictionary
-// once initialized, can compare pointers instead of strings
-static const xmlChar* UNIT_ENTRY = nullptr;
-static const xmlChar* MACRO_LIST_ENTRY = nullptr;
-static const xmlChar* ESCAPE_ENTRY = nullptr;
-
 /**
  * factory
  *
@@ -191,9 +185,9 @@ void start_document(void* ctx) {
     SRCSAX_DEBUG_START("");
 
     // save for dictionary lookup of common elements
-    UNIT_ENTRY       = xmlDictLookup(ctxt->dict, (const xmlChar*) "unit", (int) strlen("unit"));
-    MACRO_LIST_ENTRY = xmlDictLookup(ctxt->dict, (const xmlChar*) "macro-list", (int) strlen("macro-list"));
-    ESCAPE_ENTRY     = xmlDictLookup(ctxt->dict, (const xmlChar*) "escape", (int) strlen("escape"));
+    state->unit_entry       = xmlDictLookup(ctxt->dict, (const xmlChar*) "unit", (int) strlen("unit"));
+    state->macro_list_entry = xmlDictLookup(ctxt->dict, (const xmlChar*) "macro-list", (int) strlen("macro-list"));
+    state->escape_entry     = xmlDictLookup(ctxt->dict, (const xmlChar*) "escape", (int) strlen("escape"));
 
     // save the encoding from the input
     state->context->encoding = "UTF-8";
@@ -373,7 +367,7 @@ void first_start_element(void* ctx, const xmlChar* localname, const xmlChar* pre
 
     // if macros are found, then must return, process first
     // but stay in first_start_element, since this can be between root unit and nested unit
-    if (localname == MACRO_LIST_ENTRY) {
+    if (localname == state->macro_list_entry) {
 
         state->context->handler->meta_tag(state->context, (const char*) localname, (const char*) prefix, (const char*) URI,
                                           nb_namespaces, namespaces, nb_attributes, attributes);
@@ -381,7 +375,7 @@ void first_start_element(void* ctx, const xmlChar* localname, const xmlChar* pre
     }
 
     // archive when the first element after the root is <unit>
-    state->context->is_archive = (localname == UNIT_ENTRY);
+    state->context->is_archive = (localname == state->unit_entry);
 
     // turn off first_start_element() handling
     ctxt->sax->startElementNs = &start_element;
@@ -639,7 +633,7 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
 
         // Special element <escape char="0x0c"/> used to embed non-XML characters
         // extract the value of the char attribute and add to the src (text)
-        if (localname == ESCAPE_ENTRY) {
+        if (localname == state->escape_entry) {
 
             std::string svalue((const char *)attributes[0 * 5 + 3], attributes[0 * 5 + 4] - attributes[0 * 5 + 3]);
 
@@ -697,7 +691,7 @@ void end_element(void* ctx, const xmlChar* localname, const xmlChar* prefix, con
     SRCSAX_DEBUG_END(localname);
 
     // plain end element
-    if (localname != UNIT_ENTRY) {
+    if (localname != state->unit_entry) {
         return;
     }
 
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index c515197..450ce3e 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -96,6 +96,12 @@ struct sax2_srcsax_handler {
     boost::optional<std::string> cpp_prefix;
 
     bool rootcalled = false;
+
+    // libxml2 places element names into the dictionary of the parser context
+    // once looked up, can compare pointers instead of strings
+    const xmlChar* unit_entry = nullptr;
+    const xmlChar* macro_list_entry = nullptr;
+    const xmlChar* escape_entry = nullptr;
 };
 
 /**
-- 
2.43.0


From 9a5471a20a9c3a4374feb9f579e8dae67ae2e7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 15/87] fix: the prefix of the cpp namespace of a unit being
 read is the declared one, and a default cpp namespace does not end the
 program

---
 src/libsrcml/sax2_srcsax_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 9520744..166a19a 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -436,7 +436,7 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
     for (int i = 0; i < nb_namespaces; ++i) {
 
         if (std::string((const char*) namespaces[i * 2 + 1]) == SRCML_CPP_NS_URI) {
-            state->cpp_prefix = namespaces[i * 2] ? "" : (const char*) namespaces[i * 2];
+            state->cpp_prefix = namespaces[i * 2] ? (const char*) namespaces[i * 2] : "";
         }
     }
 
-- 
2.43.0


From c8fd6eceba77fde27cfc69e3980dd4adda86a779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 16/87] fix: the open-file limiter allows no more than its
 limit

---
 src/client/OpenFileLimiter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/OpenFileLimiter.hpp b/src/client/OpenFileLimiter.hpp
index 0d23ded..b550019 100644
--- a/src/client/OpenFileLimiter.hpp
+++ b/src/client/OpenFileLimiter.hpp
@@ -34,7 +34,7 @@ public:
     static void open() {
         std::unique_lock<std::mutex> l(e);
 
-        while (open_files > MAX_OPEN_FILES) {
+        while (open_files >= MAX_OPEN_FILES) {
             cv.wait(l);
         }
 
-- 
2.43.0


From 32de9e4f4d6c065d7b3ffc885d96544d3a803f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 17/87] fix: writing an empty string result does not read
 before it

---
 src/client/srcml_write.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/srcml_write.cpp b/src/client/srcml_write.cpp
index e699e90..a9cec15 100644
--- a/src/client/srcml_write.cpp
+++ b/src/client/srcml_write.cpp
@@ -135,7 +135,7 @@ void srcml_write_request(std::shared_ptr<ParseRequest> request, TraceLog& log, c
             srcml_archive_write_string(output_archive, s, (int) strlen(s));
 
             // if the string does not end in a newline, output one
-            if (s[strlen(s) - 1] != '\n')
+            if (s[0] == '\0' || s[strlen(s) - 1] != '\n')
                 srcml_archive_write_string(output_archive, "\n", 1);
 
             srcml_transform_free(request->results);
-- 
2.43.0


From 246019389209b204c5bb9556e6a71b3163d37c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:17 +0000
Subject: [PATCH 18/87] fix: a parse does not reuse the prefix and position
 setting of the thread's first parse, nor the hash, namespaces and views of
 the unit's previous one

---
 src/libsrcml/srcml_unit.cpp | 17 +++++++++++++----
 src/parser/srcMLOutput.cpp  |  8 ++++----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 92ef8b9..5504938 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -513,7 +513,11 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
         iconv_close(ic);
     }
 
-    bool output_hash = !unit->hash && unit->archive->options & SRCML_OPTION_HASH;
+    bool output_hash = (unit->archive->options & SRCML_OPTION_HASH) != 0;
+
+    // results of a previous parse into this unit do not carry over
+    unit->hash = boost::none;
+    unit->namespaces = boost::none;
 
     UTF8CharBuffer* input = 0;
     try {
@@ -1013,10 +1017,15 @@ int srcml_write_end_unit(struct srcml_unit* unit) {
     free(start_tag);
     free(srcml);
 
+    // views of any previous contents are out of date
+    unit->srcml_revision = boost::none;
+    unit->srcml_fragment = boost::none;
+    unit->srcml_fragment_revision = boost::none;
+    unit->srcml_raw = boost::none;
+    unit->srcml_raw_revision = boost::none;
+
     // record the loc
-    if (!unit->src) {
-        unit->src = extract_src(unit->srcml);
-    }
+    unit->src = extract_src(unit->srcml);
 
     unit->loc = (int) std::count(unit->src->begin(), unit->src->end(), '\n');
     if (!unit->src->empty() && unit->src->back() != '\n')
diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index bb97f32..50a715c 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -501,9 +501,9 @@ void srcMLOutput::addPosition(const antlr::RefToken& token) {
     if (stoken->endline < stoken->getLine() || (stoken->endline == stoken->getLine() && stoken->endcolumn < stoken->getColumn()))
             return;
 
-    thread_local const std::string& prefix = namespaces[POS].prefix;
-    thread_local const std::string startAttribute = " " + prefix + (!prefix.empty() ? ":" : "") + "start=\"";
-    thread_local const std::string endAttribute   = " " + prefix + (!prefix.empty() ? ":" : "") + "end=\"";
+    const std::string& prefix = namespaces[POS].prefix;
+    const std::string startAttribute = " " + prefix + (!prefix.empty() ? ":" : "") + "start=\"";
+    const std::string endAttribute   = " " + prefix + (!prefix.empty() ? ":" : "") + "end=\"";
 
     // highly optimized as this is output for every start tag
 
@@ -535,7 +535,7 @@ void srcMLOutput::processToken(const antlr::RefToken& token, const char* name, c
     if (name[0] == 0)
         return;
 
-    thread_local bool isposition = isoption(options, SRCML_OPTION_POSITION);
+    const bool isposition = isoption(options, SRCML_OPTION_POSITION);
 
     if (isstart(token) || isempty(token)) {
 
-- 
2.43.0


From 0b380064db433551822b2b3bbe67f7e56f39fcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:17 +0000
Subject: [PATCH 19/87] fix: the tabs attribute is not read from a destroyed
 string

---
 src/parser/srcMLOutput.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index 50a715c..8d5901d 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -335,6 +335,7 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
             tabattribute += ":";
         tabattribute += "tabs";
     }
+    const std::string tabvalue = std::to_string(tabsize);
 
     // setup for storing options in output
     std::array<std::pair<int, const char*>, 4> sep = {{
@@ -369,7 +370,7 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
         { UNIT_ATTRIBUTE_VERSION, version },
 
         // position tab setting
-        { tabattribute.c_str(), isoption(options, SRCML_OPTION_POSITION) ? std::to_string(tabsize).c_str() : 0 },
+        { tabattribute.c_str(), isoption(options, SRCML_OPTION_POSITION) ? tabvalue.c_str() : 0 },
 
         // timestamp attribute
         { UNIT_ATTRIBUTE_TIMESTAMP, timestamp },
-- 
2.43.0


From 02143162db9e5ce9d78175aa9166f33c66532e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:29 +0000
Subject: [PATCH 20/87] fix: columns after a tab in a comment use the tab size
 in force

---
 src/libsrcml/srcml_translator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 2977be6..ab23464 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -133,6 +133,7 @@ void srcml_translator::translate(UTF8CharBuffer* parser_input) {
         // pure block comment lexer
         CommentTextLexer textlexer(lexer.getInputState());
         textlexer.setSelector(&selector);
+        textlexer.setTabsize((int)tabsize);
 
         // switching between lexers
         selector.addInputStream(&lexer, "main");
-- 
2.43.0


From 376abf58975d918747c17beb618522f87bb9f674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:29 +0000
Subject: [PATCH 21/87] fix: end positions are not those of tokens only looked
 ahead at, of skipped directives, or of open comments

---
 src/parser/StreamMLParser.hpp | 33 ++++++++++++++++++++++++++-------
 src/parser/srcMLParser.g      |  8 ++++----
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index 46bbe27..f3f538a 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -226,7 +226,7 @@ private:
         ntoken->setColumn(LT(1)->getColumn());
 
         if (isoption(options, SRCML_OPTION_POSITION)) {
-            ends.emplace(ntoken);
+            skipends.emplace(ntoken);
         }
 
         pushSkipToken(ntoken);
@@ -300,10 +300,10 @@ private:
         // end position info is needed from the matching last end token
         // that was enqueued
         if (isoption(options, SRCML_OPTION_POSITION)) {
-            srcMLToken* qetoken = static_cast<srcMLToken*>(&(*std::move(ends.top())));
+            srcMLToken* qetoken = static_cast<srcMLToken*>(&(*std::move(skipends.top())));
             qetoken->endline = slastline;
             qetoken->endcolumn = slastcolumn;
-            ends.pop();
+            skipends.pop();
         }
      }
 
@@ -320,9 +320,11 @@ private:
         // rest of consume process
         srcMLParser::consume();
 
-        // record for end position of start elements
-        lastline = LT(1)->getLine();
-        lastcolumn = LT(1)->getColumn() - 1;
+        // record for end position of start elements, unless only looking ahead
+        if (!srcMLParser::inputState->guessing) {
+            lastline = LT(1)->getLine();
+            lastcolumn = LT(1)->getColumn() - 1;
+        }
 
         // consume any skipped tokens
         while (consumeSkippedToken())
@@ -504,6 +506,10 @@ private:
         if (inskip)
             return false;
 
+        // a skipped preprocessor directive, macro call, or asm is not an end position for the elements around it
+        const int savedline = lastline;
+        const int savedcolumn = lastcolumn;
+
         // preprocessor (unless we already are in one)
         if (isoption(options, SRCML_OPTION_CPP) && srcMLParser::LA(1) == srcMLParser::PREPROC) {
 
@@ -536,6 +542,9 @@ private:
             // stop preprocessor handling
             inskip = false;
 
+            lastline = savedline;
+            lastcolumn = savedcolumn;
+
             return true;
         }
 
@@ -564,6 +573,10 @@ private:
             pretb.clear();
 
             inskip = false;
+
+            lastline = savedline;
+            lastcolumn = savedcolumn;
+
             return true;
 
         }
@@ -599,6 +612,9 @@ private:
             // stop preprocessor handling
             inskip = false;
 
+            lastline = savedline;
+            lastcolumn = savedcolumn;
+
             return true;
         }
 
@@ -691,7 +707,7 @@ private:
         if (isoption(options, SRCML_OPTION_POSITION)) {
             auto curline = LT(1)->getLine();
             auto curcolumn = LT(1)->getColumn();
-            while (ends.size() > 1) {
+            while (ends.size() > 1 || !skipends.empty()) {
                 fillTokenBuffer();
                 if (LT(1)->getLine() == curline && LT(1)->getColumn() == curcolumn)
                     consume();
@@ -947,6 +963,9 @@ private:
     /** open position elements */
     std::stack<antlr::RefToken> ends;
 
+    /** open position elements of skipped tokens, i.e., comments */
+    std::stack<antlr::RefToken> skipends;
+
     /** open comments */
     std::stack<int> open_comments;
 };
diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 6af5f24..d2cfd23 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -363,6 +363,10 @@ void srcMLParser::endAllModes() {
     if (size() > 1 && isoption(parser_options, SRCML_OPTION_DEBUG))
          emptyElement(SERROR_MODE);
 
+    // process any skip tokens that are not ended properly
+    // e.g., "//" with EOF
+    completeSkip();
+
     if (isPaused()) {
         while (size() > 1)
            endMode();
@@ -374,10 +378,6 @@ void srcMLParser::endAllModes() {
     while (size() > 1)
        endMode();
 
-    // process any skip tokens that are not ended properly
-    // e.g., "//" with EOF
-    completeSkip();
-
     // flush any skipped characters
     flushSkip();
 
-- 
2.43.0


From e4ca97abe4ceac8f305ddd9c15b51fe66ce3cc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:35 +0000
Subject: [PATCH 22/87] fix: setting the options of an archive keeps its other
 settings (solitary unit, hash)

---
 src/libsrcml/srcml_archive.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 1e01848..014415b 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -284,15 +284,16 @@ int srcml_archive_set_options(struct srcml_archive* archive, size_t options) {
     if (archive == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    // only the public options are replaced, the internal ones have calls of their own
+    const OPTION_TYPE PUBLIC_OPTIONS = (1<<7) - 1;
+
+    archive->options = (archive->options & ~PUBLIC_OPTIONS) | (options & PUBLIC_OPTIONS);
+
     // if the user specified cpp, then mark that it was declared
     if (options & SRCML_OPTION_CPP) {
         archive->options |= SRCML_OPTION_CPP_DECLARED;
     }
 
-    int modoption = options % (1<<7);
-
-    archive->options = modoption;
-
     return SRCML_STATUS_OK;
 }
 
-- 
2.43.0


From 73ec12c0e8458daa4e3ad27804aaf20da82d8014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:46 +0000
Subject: [PATCH 23/87] fix: the processing instruction before the root is read
 with the archive

---
 src/libsrcml/cppCallbackAdapter.hpp   |  1 +
 src/libsrcml/sax2_srcsax_handler.cpp  | 11 +++++++++--
 src/libsrcml/srcml_reader_handler.hpp |  2 +-
 src/libsrcml/srcsax_handler.hpp       | 10 ++++++++++
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/libsrcml/cppCallbackAdapter.hpp b/src/libsrcml/cppCallbackAdapter.hpp
index 59ca6d1..3de0894 100644
--- a/src/libsrcml/cppCallbackAdapter.hpp
+++ b/src/libsrcml/cppCallbackAdapter.hpp
@@ -60,6 +60,7 @@ public:
         handler.end_root = end_root;
         handler.end_unit = end_unit;
         handler.meta_tag = meta_tag;
+        handler.processing_instruction = processing_instruction;
 
         return handler;
     }
diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 166a19a..ff38f13 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -886,7 +886,7 @@ void cdata_block(void* ctx, const xmlChar* value, int len) {
  * Called when a processing instruction has been parsed.
  * Immediately calls supplied handlers function.
  */
-void processing_instruction(void* ctx, const xmlChar* /* target */, const xmlChar* /* data */) {
+void processing_instruction(void* ctx, const xmlChar* target, const xmlChar* data) {
 
     auto ctxt = (xmlParserCtxtPtr) ctx;
     if (ctxt == nullptr)
@@ -899,7 +899,14 @@ void processing_instruction(void* ctx, const xmlChar* /* target */, const xmlCha
 
     SRCSAX_DEBUG_START("");
 
-    if (state->collect_unit_body) {
+    // before the root it belongs to the archive
+    if (state->mode == START) {
+
+        state->context->handler->processing_instruction(state->context, (const char*) target, (const char*) data);
+
+        state->base = ctxt->input->cur;
+
+    } else if (state->collect_unit_body) {
 
         state->unitsrcml.append((const char*) state->base, ctxt->input->cur - state->base);
 
diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index c868c3f..399cf72 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -523,7 +523,7 @@ public :
      */
     virtual void processingInstruction(const char* target, const char* data) {
 
-        srcml_archive_set_processing_instruction(archive, (const char*)target, (const char *)data);
+        srcml_archive_set_processing_instruction(archive, target, data ? data : "");
 
     }
 
diff --git a/src/libsrcml/srcsax_handler.hpp b/src/libsrcml/srcsax_handler.hpp
index a7de24a..3d010c5 100644
--- a/src/libsrcml/srcsax_handler.hpp
+++ b/src/libsrcml/srcsax_handler.hpp
@@ -120,6 +120,16 @@ struct srcsax_handler {
     void (*meta_tag)(srcsax_context* context, const char* localname, const char* prefix, const char* URI,
                            int num_namespaces, const xmlChar** namespaces, int num_attributes,
                            const xmlChar** attributes);
+
+    /**
+     * processing_instruction
+     * @param context a srcSAX context
+     * @param target the processing instruction target
+     * @param data the processing instruction data
+     *
+     * SAX handler function for a processing instruction before the root
+     */
+    void (*processing_instruction)(srcsax_context* context, const char* target, const char* data);
 };
 
 #endif
-- 
2.43.0


From accd53e236293842246b1d6c68e19eece3127340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:46 +0000
Subject: [PATCH 24/87] fix: lines before the first element of a solitary unit
 count

---
 src/libsrcml/sax2_srcsax_handler.cpp  | 4 ++--
 src/libsrcml/srcml_reader_handler.hpp | 2 --
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index ff38f13..bdc4f68 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -393,8 +393,6 @@ void first_start_element(void* ctx, const xmlChar* localname, const xmlChar* pre
         // restart unit count due to call of start_unit() in start_root() when we assumed a solo unit
         state->unit_count = 0;
 
-        state->loc = 0;
-
         // unit starts for real, discarding previous start_unit() in start_root()
         start_unit(ctx, localname, prefix, URI, nb_namespaces, namespaces, nb_attributes, 0, attributes);
 
@@ -448,6 +446,8 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
 
     state->unit_count += 1;
 
+    state->loc = 0;
+
     if (true || state->collect_unit_body) {
 
         // find end of unit tag name, e.g., end of "<unit" or "<src:unit"
diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 399cf72..b30ceeb 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -373,8 +373,6 @@ public :
             pause();
         }
 
-        state->loc = 0;
-
         state->collect_unit_body = collect_unit_body;
 
         if (terminate)
-- 
2.43.0


From bf453c0909869798a7c0d76f8b8d711bcec394ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:46 +0000
Subject: [PATCH 25/87] fix: a source encoding that was read is not stored
 twice

---
 src/parser/srcMLOutput.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index 8d5901d..5de222c 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -352,6 +352,13 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
         }
     }
 
+    // source encoding, unless already stored, e.g., in a unit that was read
+    bool store_encoding = isoption(options, SRCML_OPTION_STORE_ENCODING);
+    for (std::vector<std::string>::size_type pos = 0; pos < attributes.size(); pos += 2) {
+        if (attributes[pos] == UNIT_ATTRIBUTE_SOURCE_ENCODING)
+            store_encoding = false;
+    }
+
     // list of attributes
     const char* const attrs[][2] = {
 
@@ -379,7 +386,7 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
         { UNIT_ATTRIBUTE_HASH, hash },
 
         // source encoding attribute
-        { UNIT_ATTRIBUTE_SOURCE_ENCODING, isoption(options, SRCML_OPTION_STORE_ENCODING) ? encoding : 0 },
+        { UNIT_ATTRIBUTE_SOURCE_ENCODING, store_encoding ? encoding : 0 },
 
         { UNIT_ATTRIBUTE_OPTIONS,  depth == 0 && !soptions.empty() ? soptions.c_str() : 0 },
 
-- 
2.43.0


From 906ed7ed40c15d7a5c284f30896c539f7625b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:52 +0000
Subject: [PATCH 26/87] fix: an ampersand in an attribute or namespace that is
 read stays an ampersand

---
 src/libsrcml/srcml_reader_handler.hpp | 10 ++++++----
 src/libsrcml/unit_utilities.cpp       | 14 +++++++++++++-
 src/libsrcml/unit_utilities.hpp       |  3 +++
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index b30ceeb..8556bec 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -259,7 +259,7 @@ public :
         // collect attributes
         for (int pos = 0; pos < num_attributes; ++pos) {
             std::string attribute = (const char*) attributes[pos * 5];
-            std::string value((const char *)attributes[pos * 5 + 3], attributes[pos * 5 + 4] - attributes[pos * 5 + 3]);
+            std::string value = sax2_value(attributes[pos * 5 + 3], attributes[pos * 5 + 4]);
 
             // Note: these are ignore instead of placing in attributes.
             if (attribute == "timestamp")
@@ -314,7 +314,9 @@ public :
         for (int pos = 0; pos < num_namespaces; ++pos) {
 
             std::string prefix = (const char*) namespaces[pos * 2] ? (const char*) namespaces[pos * 2] : "";
-            std::string uri = (const char*) namespaces[pos * 2 + 1] ? (const char*) namespaces[pos * 2 + 1] : "";
+            std::string uri;
+            if (namespaces[pos * 2 + 1])
+                uri = sax2_value(namespaces[pos * 2 + 1], namespaces[pos * 2 + 1] + xmlStrlen(namespaces[pos * 2 + 1]));
 
             srcml_uri_normalize(uri);
 
@@ -498,9 +500,9 @@ public :
             for (int pos = 0; pos < num_attributes; ++pos) {
 
                 if (strcmp((const char*) attributes[ATTR_LOCALNAME(pos)], "token") == 0)
-                    token.append((const char*) attributes[ATTR_VALUE_START(pos)], attributes[ATTR_VALUE_END(pos)] - attributes[ATTR_VALUE_START(pos)]);
+                    token = sax2_value(attributes[ATTR_VALUE_START(pos)], attributes[ATTR_VALUE_END(pos)]);
                 else if (strcmp((const char*) attributes[ATTR_LOCALNAME(pos)], "type") == 0)
-                    type.append((const char*) attributes[ATTR_VALUE_START(pos)], attributes[ATTR_VALUE_END(pos)] - attributes[ATTR_VALUE_START(pos)]);
+                    type = sax2_value(attributes[ATTR_VALUE_START(pos)], attributes[ATTR_VALUE_END(pos)]);
             }
 
             if (token != "" && type != "") {
diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index a3ca02e..ad01900 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -24,6 +24,18 @@
 #include <libxml/parserInternals.h>
 #include <stack>
 
+// Value of a SAX2 attribute, where libxml2 leaves an ampersand as the character reference &#38;
+std::string sax2_value(const xmlChar* begin, const xmlChar* end) {
+
+    static const std::string AMPERSAND = "&#38;";
+
+    std::string value((const char*) begin, end - begin);
+    for (auto pos = value.find(AMPERSAND); pos != std::string::npos; pos = value.find(AMPERSAND, pos + 1))
+        value.replace(pos, AMPERSAND.size(), "&");
+
+    return value;
+}
+
 // Update unit attributes with xml parsed attributes
 void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar** attributes) {
 
@@ -31,7 +43,7 @@ void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar*
     for (int pos = 0; pos < num_attributes; ++pos) {
 
         std::string attribute = (const char*) attributes[pos * 5];
-        std::string value((const char *)attributes[pos * 5 + 3], attributes[pos * 5 + 4] - attributes[pos * 5 + 3]);
+        std::string value = sax2_value(attributes[pos * 5 + 3], attributes[pos * 5 + 4]);
 
         if (attribute == "timestamp")
             srcml_unit_set_timestamp(unit, value.c_str());
diff --git a/src/libsrcml/unit_utilities.hpp b/src/libsrcml/unit_utilities.hpp
index 31a6b6b..2c44103 100644
--- a/src/libsrcml/unit_utilities.hpp
+++ b/src/libsrcml/unit_utilities.hpp
@@ -27,6 +27,9 @@
 #include <srcml.h>
 #include <libxml/parser.h>
 
+// Value of a SAX2 attribute or namespace
+std::string sax2_value(const xmlChar* begin, const xmlChar* end);
+
 // Update unit attributes with xml parsed attributes
 void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar** attributes);
 
-- 
2.43.0


From ec3aa7cd933554f36e5bf1a3f8d11c90782c395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:52 +0000
Subject: [PATCH 27/87] fix: a unit that is read has the namespaces, and
 prefixes, that it declares

---
 src/libsrcml/sax2_srcsax_handler.cpp  | 45 +++++++++++++--------------
 src/libsrcml/sax2_srcsax_handler.hpp  |  4 ++-
 src/libsrcml/srcml_reader_handler.hpp | 15 +++++----
 src/libsrcml/srcmlns.cpp              |  3 +-
 4 files changed, 35 insertions(+), 32 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index bdc4f68..54cf986 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -22,6 +22,7 @@
 
 #include <sax2_srcsax_handler.hpp>
 #include <srcmlns.hpp>
+#include <unit_utilities.hpp>
 #include <string>
 #include <algorithm>
 #include <cstring>
@@ -270,26 +271,7 @@ void start_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
     // record namespace string in an extensible list so we can add the per unit
     if (state->collect_unit_body) {
 
-        // precalculate length
         int ns_length = nb_namespaces * 2;
-        int size = 0;
-        for (int i = 0; i < ns_length; i += 2) {
-
-            // state->rootnsstr += "xmlns";
-            size += 5;
-            if (namespaces[i]) {
-                // state->rootnsstr += ":";
-                // state->rootnsstr += (const char*) namespaces[i];
-                size += 1 + (int) strlen((const char*) namespaces[i]);
-            }
-            // state->rootnsstr += "=\"";
-            // state->rootnsstr += (const char*) namespaces[i + 1];
-            // state->rootnsstr += "\" ";
-            size += 2 + (int) strlen((const char*) namespaces[i + 1]) + 2;
-        }
-
-        state->rootnsstr.reserve(size);
-
         for (int i = 0; i < ns_length; i += 2) {
 
             state->rootnsstr += "xmlns";
@@ -298,7 +280,14 @@ void start_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
                 state->rootnsstr += (const char*) namespaces[i];
             }
             state->rootnsstr += "=\"";
-            state->rootnsstr += (const char*) namespaces[i + 1];
+            for (auto c : sax2_value(namespaces[i + 1], namespaces[i + 1] + xmlStrlen(namespaces[i + 1]))) {
+                switch (c) {
+                case '&': state->rootnsstr += "&amp;"; break;
+                case '<': state->rootnsstr += "&lt;"; break;
+                case '"': state->rootnsstr += "&quot;"; break;
+                default:  state->rootnsstr += c;
+                }
+            }
             state->rootnsstr += "\" ";
         }
     }
@@ -430,12 +419,20 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
     if (state == nullptr)
         return;
 
-    // collect cpp prefix
+    // collect the namespaces of the unit, on top of the standard ones declared at the root of an archive
+    state->unit_namespaces = state->root_namespaces;
     for (int i = 0; i < nb_namespaces; ++i) {
 
-        if (std::string((const char*) namespaces[i * 2 + 1]) == SRCML_CPP_NS_URI) {
-            state->cpp_prefix = namespaces[i * 2] ? (const char*) namespaces[i * 2] : "";
-        }
+        std::string prefix = namespaces[i * 2] ? (const char*) namespaces[i * 2] : "";
+        std::string uri = sax2_value(namespaces[i * 2 + 1], namespaces[i * 2 + 1] + xmlStrlen(namespaces[i * 2 + 1]));
+        srcml_uri_normalize(uri);
+
+        state->unit_namespaces.emplace_back(prefix, uri);
+
+        // the first call is for the root
+        auto&& view = default_namespaces.get<nstags::uri>();
+        if (!state->callupper && view.find(uri) != view.end())
+            state->root_namespaces.emplace_back(prefix, uri);
     }
 
     update_ctx(ctx);
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index 450ce3e..b88be41 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -93,7 +93,9 @@ struct sax2_srcsax_handler {
 
     int loc = 0;
 
-    boost::optional<std::string> cpp_prefix;
+    /** namespaces (prefix, uri) declared at the root, and those in force for the current unit */
+    std::vector<std::pair<std::string, std::string>> root_namespaces;
+    std::vector<std::pair<std::string, std::string>> unit_namespaces;
 
     bool rootcalled = false;
 
diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 8556bec..71e6efa 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -446,21 +446,24 @@ public :
             unit->src = std::move(state->unitsrc);
             unit->loc = state->loc;
 
-            // update provisional cpp prefix
-            if (state->cpp_prefix) {
+            // update namespaces with those declared, plus mark them as used
+            for (const auto& ns : state->unit_namespaces) {
+
+                if (ns.second == SRCML_SRC_NS_URI)
+                    continue;
 
                 // namespaces probably aren't create yet
                 if (!unit->namespaces) {
                     unit->namespaces = default_namespaces;
                 }
 
-                // set the found prefix, plus mark it as used
+                // set the found prefix
                 auto&& view = unit->namespaces->get<nstags::uri>();
-                auto it = view.find(SRCML_CPP_NS_URI);
+                auto it = view.find(ns.second);
                 if (it != view.end()) {
-                    view.modify(it, [](Namespace& thisns){ thisns.flags |= NS_USED; });
+                    view.modify(it, [&ns](Namespace& thisns){ thisns.prefix = ns.first; thisns.flags |= NS_USED; });
                 } else {
-                    unit->namespaces->push_back({ state->cpp_prefix->c_str(), SRCML_CPP_NS_URI, NS_USED | NS_STANDARD });
+                    unit->namespaces->push_back({ ns.first, ns.second, NS_USED | NS_STANDARD });
                 }
             }
 
diff --git a/src/libsrcml/srcmlns.cpp b/src/libsrcml/srcmlns.cpp
index dd21545..fe66637 100644
--- a/src/libsrcml/srcmlns.cpp
+++ b/src/libsrcml/srcmlns.cpp
@@ -40,8 +40,9 @@ Namespaces& operator+=(Namespaces& namespaces, const Namespaces& otherns) {
             auto default_it = default_view.find(ns.uri);
             if (default_it == default_view.end() || it->prefix == default_it->prefix) {
 
-                view.modify(it, [ns](Namespace& thisns){ thisns.prefix = ns.prefix; thisns.flags |= ns.flags; });
+                view.modify(it, [ns](Namespace& thisns){ thisns.prefix = ns.prefix; });
             }
+            it->flags |= ns.flags;
 
         } else {
 
-- 
2.43.0


From 641d27e128145de4c2c29739575344568d51fe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:07 +0000
Subject: [PATCH 28/87] fix: text arguments with :// or a trailing backslash
 are used exactly as given

---
 src/client/src_input_text.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/client/src_input_text.cpp b/src/client/src_input_text.cpp
index 59d970f..415122c 100644
--- a/src/client/src_input_text.cpp
+++ b/src/client/src_input_text.cpp
@@ -56,8 +56,7 @@ int src_input_text(ParseQueue& queue,
     const srcml_request_t& srcml_request,
     const srcml_input_src& input) {
 
-    std::string raw_text = src_prefix_resource(input.resource);
-    const char* ptext = raw_text.c_str();
+    const char* ptext = input.resource.c_str();
 
     // process text, which may have more than one input due to use of ASCII NUL ('\0')
     int count = 0;
@@ -204,6 +203,11 @@ int src_input_text(ParseQueue& queue,
                     epos += offset - 1;
                     break;
                 }
+                // escape character at the very end
+                case '\0':
+                    prequest->buffer.push_back('\\');
+                    --epos;
+                    break;
                 default:
                     prequest->buffer.push_back('\\');
                     prequest->buffer.push_back(*(epos));
-- 
2.43.0


From 881e9e4fe83edeaa84ae419ee6cf393d07fd18f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:07 +0000
Subject: [PATCH 29/87] fix: a question mark is part of a local file name, and
 an empty input name is not read from

---
 src/client/srcml_input_src.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/srcml_input_src.cpp b/src/client/srcml_input_src.cpp
index 5f6ff3e..4ceba3d 100644
--- a/src/client/srcml_input_src.cpp
+++ b/src/client/srcml_input_src.cpp
@@ -59,7 +59,7 @@ srcml_input_src::srcml_input_src(const std::string& other) : arch(0), state(INDE
     std::tie(protocol, resource) = src_prefix_split_uri(filename);
 
     // remove any query string
-    if (protocol != "text" && protocol != "filelist" && protocol != "stdin") {
+    if (protocol != "file" && protocol != "text" && protocol != "filelist" && protocol != "stdin") {
         size_t query_pos = resource.find('?');
         if (query_pos != std::string::npos) {
             resource = resource.substr(0, query_pos);
@@ -74,7 +74,7 @@ srcml_input_src::srcml_input_src(const std::string& other) : arch(0), state(INDE
         isdirectory = exists && S_ISDIR(s.st_mode);
     }
 
-    isdirectoryform = resource.back() == '/';
+    isdirectoryform = !resource.empty() && resource.back() == '/';
 
     if (!isdirectory && protocol != "text") {
 
-- 
2.43.0


From f759c08f5582d67e406ea9281f5ca1bd546fd9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:07 +0000
Subject: [PATCH 30/87] fix: extracting to a directory stays in that directory
 and reports what it cannot write

---
 src/client/src_output_filesystem.cpp | 74 ++++++++++++++++++++++------
 1 file changed, 60 insertions(+), 14 deletions(-)

diff --git a/src/client/src_output_filesystem.cpp b/src/client/src_output_filesystem.cpp
index 4e4e393..c8f28aa 100644
--- a/src/client/src_output_filesystem.cpp
+++ b/src/client/src_output_filesystem.cpp
@@ -25,13 +25,56 @@
 #include <iostream>
 #include <srcml_utilities.hpp>
 #include <mkDir.hpp>
+#include <SRCMLStatus.hpp>
+#include <sstream>
+#include <string>
+#include <vector>
+
+namespace {
+
+    // path with any "." and ".." parts resolved. Empty if the path does not name a file,
+    // or the file would be outside of the starting directory
+    std::string resolve_path(const std::string& filename) {
+
+        std::vector<std::string> parts;
+        std::string part;
+        std::istringstream path(filename);
+        while (std::getline(path, part, '/')) {
+
+            if (part.empty() || part == ".")
+                continue;
+
+            if (part != "..") {
+                parts.push_back(part);
+                continue;
+            }
+
+            if (parts.empty())
+                return "";
+            parts.pop_back();
+        }
+
+        // last part has to be the name of a file
+        if (filename.empty() || filename.back() == '/' || part == "." || part == "..")
+            return "";
+
+        std::string resolved;
+        for (const auto& part : parts) {
+            if (!resolved.empty())
+                resolved += '/';
+            resolved += part;
+        }
+
+        return resolved;
+    }
+}
 
 void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_dir, TraceLog& log) {
 
     // construct the relative directory
     std::string prefix;
-    if (output_dir != "." && output_dir != "./")
-        prefix = output_dir;
+    if (!output_dir.empty() && output_dir != "." && output_dir != "./")
+        prefix = output_dir + '/';
 
     // create output directory structure as needed
     mkDir dir;
@@ -41,27 +84,30 @@ void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_
     while (std::unique_ptr<srcml_unit> unit{srcml_archive_read_unit(srcml_arch)}) {
 
         const char* cfilename = srcml_unit_get_filename(unit.get());
-        if (!cfilename)
+        if (!cfilename) {
+            SRCMLstatus(WARNING_MSG, "srcml: Unit without a filename is not extracted");
             continue;
+        }
 
-        std::string filename = cfilename;
+        // no extraction outside of the output directory
+        std::string filename = resolve_path(cfilename);
+        if (filename.empty()) {
+            SRCMLstatus(WARNING_MSG, std::string("srcml: Unit is not extracted, as there is no such file in the output directory: ") + cfilename);
+            continue;
+        }
 
         // separate pathname from filename
-        std::string path = prefix;
-        path += '/';
-        auto pos = filename.rfind('/');
-        path += pos != std::string::npos ? filename.substr(0, pos) : "";
-
-        std::string fullfilename = prefix;
-        fullfilename += "/";
-        fullfilename += filename;
+        std::string fullfilename = prefix + filename;
+        auto pos = fullfilename.rfind('/');
 
         // use libarchive to create the file path
-        dir.mkdir(path);
+        if (pos != std::string::npos)
+            dir.mkdir(fullfilename.substr(0, pos));
 
         // unparse directory to filename
         log << ++count << fullfilename;
 
-        srcml_unit_unparse_filename(unit.get(), fullfilename.c_str());
+        if (srcml_unit_unparse_filename(unit.get(), fullfilename.c_str()) != SRCML_STATUS_OK)
+            SRCMLstatus(WARNING_MSG, "srcml: Unable to write " + fullfilename);
     }
 }
-- 
2.43.0


From 9b91a2f1e1013eb330700633f1f90252cbcaddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:07 +0000
Subject: [PATCH 31/87] fix: metadata templates are printed with exactly the
 requested fields

---
 src/client/srcml_pretty.cpp | 352 ++++++++++++++----------------------
 1 file changed, 137 insertions(+), 215 deletions(-)

diff --git a/src/client/srcml_pretty.cpp b/src/client/srcml_pretty.cpp
index 83cee8a..c0ec9a5 100644
--- a/src/client/srcml_pretty.cpp
+++ b/src/client/srcml_pretty.cpp
@@ -27,149 +27,147 @@
 #include <SRCMLStatus.hpp>
 #include <srcml_utilities.hpp>
 
-std::string expand_namespace(const std::string& separator, size_t ns_size) {
-    std::string ns = "";
-    for (size_t i = 0; i < ns_size; ++i) {
-        ns += "%s";
-        if ((i + 1) < ns_size) {
-            ns += separator;
-        }
-    }
-    return ns;
-}
-
 void show_carret_error(size_t pos) {
     std::string spacing(pos, ' ');
     SRCMLstatus(WARNING_MSG, spacing + "^");
 }
 
-void pretty_print(const std::string& format, const std::vector<std::string>& args) {
+// position of the first unescaped brace, where an escape is any "%" and the character after it
+size_t find_brace(const std::string& input, char brace) {
+
+    for (size_t pos = 0; pos < input.size(); ++pos) {
+        if (input[pos] == '%')
+            ++pos;
+        else if (input[pos] == brace)
+            return pos;
+    }
 
-    std::vector<std::string> thisargs(args.rbegin(), args.rend());
+    return std::string::npos;
+}
 
-    // replace the first argument in the format with the value
-    // note: Ignoring the format type
-    std::ostringstream format_string;
-    const char* s = format.c_str();
-    while (s && *s) {
-        if (*s == '%' && *++s != '%' && !thisargs.empty()) {
-            auto value = thisargs.back();
-            thisargs.pop_back();
-            format_string << value;
-            ++s;
+// output the section with each field code replaced by the next value
+void pretty_print(const std::string& format, const std::vector<std::string>& values) {
+
+    size_t next = 0;
+    for (size_t pos = 0; pos < format.size(); ++pos) {
+
+        // plain text, including a single % at the end
+        if (format[pos] != '%' || pos + 1 == format.size()) {
+            std::cout << format[pos];
             continue;
         }
 
-        format_string << *s++;
-    }
+        ++pos;
+
+        // escapes: %%, %{, %}
+        if (format[pos] == '%' || format[pos] == '{' || format[pos] == '}') {
+            std::cout << format[pos];
+            continue;
+        }
+
+        std::cout << values[next++];
 
-    std::cout << format_string.str();
+        // kind of namespace output
+        if (format[pos] == 'N' && (format.compare(pos + 1, 2, ":u") == 0 || format.compare(pos + 1, 2, ":p") == 0))
+            pos += 2;
+    }
 }
 
 pretty_template_t split_template_sections(const std::string& pretty_input) {
-    std::string input_template = pretty_input;
 
-    size_t header_pos = input_template.find("{");
-    size_t footer_pos = input_template.find("}");
+    size_t header_pos = find_brace(pretty_input, '{');
+    size_t footer_pos = find_brace(pretty_input, '}');
 
     pretty_template_t output_template;
 
-    // For %{ %} cases - we'll just pretend we didn't see them.
-    if ((footer_pos != 0) && input_template[footer_pos - 1] == '%') {
-        input_template.erase(footer_pos - 1, 1);
-        footer_pos = std::string::npos;
-    }
-    if ((header_pos != 0) && input_template[header_pos - 1] == '%') {
-        input_template.erase(header_pos - 1, 1);
-        header_pos = std::string::npos;
+    // only a body
+    if (header_pos == std::string::npos && footer_pos == std::string::npos) {
+        output_template.body = pretty_input;
+        return output_template;
     }
 
     // Errors: you must have matching { and }.
-    if (header_pos == std::string::npos && footer_pos != std::string::npos) {
+    if (header_pos == std::string::npos || footer_pos < header_pos) {
         SRCMLstatus(WARNING_MSG, "srcml: Pretty format is missing \"{\"");
         output_template.error_location = (size_t)0;
         return output_template;
     }
-    if (header_pos != std::string::npos && footer_pos == std::string::npos) {
+    if (footer_pos == std::string::npos) {
         SRCMLstatus(WARNING_MSG, "srcml: Pretty format is missing \"}\"");
-        output_template.error_location = (size_t)input_template.length();
+        output_template.error_location = pretty_input.length();
         return output_template;
     }
 
     // Split up the header, body, and footer template strings
-    if (header_pos != std::string::npos && footer_pos != std::string::npos) {
-        if (header_pos > 0) {
-            output_template.header = input_template.substr(0, header_pos - 1);
-        }
-
-        if (header_pos + 2 <= footer_pos) {
-            output_template.body = input_template.substr(header_pos + 2, footer_pos - header_pos - 3);
-        }
-
-        if (!(footer_pos + 2 > input_template.length())) {
-            output_template.footer = input_template.substr(footer_pos + 2);
-        }
-    }
-    else {
-        output_template.body = input_template;
-    }
+    auto header = pretty_input.substr(0, header_pos);
+    auto body = pretty_input.substr(header_pos + 1, footer_pos - header_pos - 1);
+    auto footer = pretty_input.substr(footer_pos + 1);
+
+    // a space on either side of a brace is a separator
+    if (!header.empty() && header.back() == ' ')
+        header.pop_back();
+    if (!body.empty() && body.front() == ' ')
+        body.erase(0, 1);
+    if (!body.empty() && body.back() == ' ')
+        body.pop_back();
+    if (!footer.empty() && footer.front() == ' ')
+        footer.erase(0, 1);
+
+    output_template.header = header;
+    output_template.body = body;
+    output_template.footer = footer;
 
     return output_template;
 }
 
-boost::optional<size_t> parse_templates(std::string& template_string, std::vector<std::string>& section_args, const std::string& allowed_args, size_t ns_size) {
+boost::optional<size_t> parse_templates(const std::string& template_string, std::vector<std::string>& section_args, const std::string& allowed_args) {
 
-    size_t found = -1;
+    for (size_t pos = template_string.find('%'); pos != std::string::npos && pos + 1 < template_string.length(); pos = template_string.find('%', pos + 1)) {
 
-    while (true) {
-        std::string template_arg = "";
-        std::string replace_arg = "%s";
+        ++pos;
 
-        found = template_string.find("%", found + 1);
+        // escapes: %%, %{, %}
+        if (template_string[pos] == '%' || template_string[pos] == '{' || template_string[pos] == '}')
+            continue;
 
-        if (found == std::string::npos) {
-            break;
-        }
+        // Error
+        if (allowed_args.find(template_string[pos]) == std::string::npos)
+            return pos;
 
-        // For %% case - just ignore it
-        if (((found + 1) < template_string.length()) && (template_string[found + 1] == '%' || template_string[found + 1] == 's')) {
-            continue;
-        }
+        std::string template_arg(1, template_string[pos]);
+        if (template_arg == "N" && (template_string.compare(pos + 1, 2, ":u") == 0 || template_string.compare(pos + 1, 2, ":p") == 0))
+            template_arg += template_string.substr(pos + 1, 2);
 
-        if ((found + 1) < template_string.length()) {
-            size_t valid_arg = allowed_args.find(template_string[found + 1]);
-
-            // Error
-            if (valid_arg == std::string::npos) {
-                return found + 1;
-            }
-
-            template_arg += template_string[found + 1];
-
-            if (template_arg == "N") {
-                replace_arg = expand_namespace(" ", ns_size);
-                if ((found + 3) < template_string.length()) {
-                    if (template_string[found + 2] == ':' && template_string[found + 3] == 'u'){
-                        template_arg += ":u";
-                        template_string.erase(found + 2, 2);
-                    }
-
-                    if (template_string[found + 2] == ':' && template_string[found + 3] == 'p'){
-                        template_arg += ":p";
-                        template_string.erase(found + 2, 2);
-                    }
-                }
-            }
-
-            template_string.erase(found, 2);
-            section_args.push_back(template_arg);
-            template_string.insert(found, replace_arg);
-        }
+        section_args.push_back(template_arg);
     }
 
     return boost::none;
 }
 
+// list of the namespaces
+std::string namespace_list(srcml_archive* srcml_arch, const std::string& arg) {
+
+    std::string list;
+    size_t ns_size = srcml_archive_get_namespace_size(srcml_arch);
+    for (size_t i = 0; i < ns_size; ++i) {
+
+        std::string prefix = srcml_archive_get_namespace_prefix(srcml_arch, i);
+        std::string uri = srcml_archive_get_namespace_uri(srcml_arch, i);
+
+        if (i > 0)
+            list += ' ';
+
+        if (arg == "N:u")
+            list += uri;
+        else if (arg == "N:p")
+            list += prefix;
+        else
+            list += (prefix.empty() ? "xmlns=" : "xmlns:" + prefix + "=") + uri;
+    }
+
+    return list;
+}
+
 const char* acquire_metadata(srcml_archive* srcml_arch, srcml_unit* srcml_unit, const std::string& arg) {
 
         if (arg == "f")           // %f: file name attribute on the unit
@@ -205,138 +203,62 @@ const char* acquire_metadata(srcml_archive* srcml_arch, srcml_unit* srcml_unit,
     return "???";
 }
 
-void display_template(srcml_archive* srcml_arch, pretty_template_t& output_template, size_t ns_size, int unit_num, bool xml) {
+// display one section of the template
+void display_section(srcml_archive* srcml_arch, srcml_unit* unit, const std::string& format, const std::vector<std::string>& args, int unit_index, int unit_count) {
 
-    // C and c are available here as they are not metadata marked up in the file.
-    int unit_count = 0;
+    std::vector<std::string> values;
+    for (const auto& arg : args) {
 
-    std::vector<std::string> header_params;
-    std::vector<std::string> body_params;
-    std::vector<std::string> footer_params;
+        // i and C are available here as they are not metadata marked up in the file.
+        if (arg == "i") {
+            values.push_back(std::to_string(unit_index));
+        } else if (arg == "C") {
+            values.push_back(std::to_string(unit_count));
+        } else if (arg[0] == 'N') {
+            values.push_back(namespace_list(srcml_arch, arg));
+        } else {
+            const char* value = acquire_metadata(srcml_arch, unit, arg);
 
-    if (output_template.header) {
-        for (const auto& arg : output_template.header_args) {
-
-            const char* param = acquire_metadata(srcml_arch, nullptr, arg);
-            if (param) {
-                header_params.push_back(std::string(param));
-            }
-            else {
-                if (output_template.header_args.size() > 1)
-                    header_params.push_back("");
-            }
-        }
+            // nothing to display if the only field is missing
+            if (!value && args.size() == 1)
+                return;
 
-        if (header_params.size() != 0)
-            pretty_print(*output_template.header, header_params);
+            values.push_back(value ? value : "");
+        }
     }
 
-    std::unique_ptr<srcml_unit> unit;
+    pretty_print(format, values);
+}
 
-    if (unit_num > 0 && !(xml)) {
-        while (unit_count != unit_num) {
-            srcml_archive_skip_unit(srcml_arch);
-            ++unit_count;
-        }
-    }
-    else {
-        unit.reset(srcml_archive_read_unit(srcml_arch));
-    }
+void display_template(srcml_archive* srcml_arch, pretty_template_t& output_template, int unit_num, bool xml) {
 
-    if (output_template.body) {
-        while (unit) {
-            for (const auto& arg : output_template.body_args) {
-                if (arg == "i") {
-                    body_params.push_back(std::to_string(unit_count));
-                }
-                else if (arg == "N") {
-                    for (size_t i = 0; i < ns_size; ++i) {
-                        if (srcml_archive_get_namespace_uri(srcml_arch, i)) {
-                            if (strcmp(srcml_archive_get_namespace_prefix(srcml_arch, i), "") == 0) {
-                                body_params.push_back("xmlns=" + std::string(srcml_archive_get_namespace_uri(srcml_arch, i)));
-                            }
-                            else{
-                                body_params.push_back("xmlns:" + std::string(srcml_archive_get_namespace_prefix(srcml_arch, i)) + "=" + std::string(srcml_archive_get_namespace_uri(srcml_arch, i)));
-                            }
-                        }
-                    }
-                }
-                else if (arg == "N:u") {
-                    for (size_t i = 0; i < ns_size; ++i) {
-                        if (srcml_archive_get_namespace_uri(srcml_arch, i)) {
-                            body_params.push_back(std::string(srcml_archive_get_namespace_uri(srcml_arch, i)));
-                        }
-                    }
-                }
-                else if (arg == "N:p") {
-                    for (size_t i = 0; i < ns_size; ++i) {
-                        if (srcml_archive_get_namespace_uri(srcml_arch, i)) {
-                            if (strcmp(srcml_archive_get_namespace_prefix(srcml_arch, i), "") == 0) {
-                                body_params.push_back("");
-                            }
-                            else{
-                                body_params.push_back(std::string(srcml_archive_get_namespace_prefix(srcml_arch, i)));
-                            }
-                        }
-                    }
-                }
-                else {
-                    const char* param = acquire_metadata(srcml_arch, unit.get(), arg);
-                    if (param) {
-                        body_params.push_back(std::string(param));
-                    }
-                    else {
-                        if (output_template.body_args.size() > 1)
-                            body_params.push_back("");
-                    }
-                }
-            }
-
-            if (body_params.size() != 0)
-                pretty_print(*output_template.body, body_params);
-
-            body_params.clear();
-            unit.reset(srcml_archive_read_unit(srcml_arch));
-
-            // When you want to print only the information from a specific unit
-            if (unit_num > 0 && unit_num == unit_count && !(xml)) {
-                break;
-            }
-
-            if (unit)
-                ++unit_count;
-        }
-    }
+    // When you want to print only the information from a specific unit
+    bool only_unit = unit_num > 0 && !xml;
 
-    if (output_template.footer) {
-        for (const auto& arg : output_template.footer_args) {
-            if (arg == "C") {
-                footer_params.push_back(std::to_string(unit_count + 1));
-            }
-            else {
-                const char* param = acquire_metadata(srcml_arch, nullptr, arg);
-                if (param) {
-                    footer_params.push_back(std::string(param));
-                }
-                else {
-                    if (output_template.footer_args.size() > 1)
-                        footer_params.push_back("");
-                }
-            }
-        }
+    if (output_template.header)
+        display_section(srcml_arch, nullptr, *output_template.header, output_template.header_args, 0, 0);
+
+    int unit_count = 0;
+    while (std::unique_ptr<srcml_unit> unit{srcml_archive_read_unit(srcml_arch)}) {
 
-        if (footer_params.size() != 0)
-            pretty_print(*output_template.footer, footer_params);
+        ++unit_count;
+
+        if (output_template.body && (!only_unit || unit_count == unit_num))
+            display_section(srcml_arch, unit.get(), *output_template.body, output_template.body_args, unit_count - 1, unit_count);
     }
+
+    if (output_template.footer)
+        display_section(srcml_arch, nullptr, *output_template.footer, output_template.footer_args, 0, unit_count);
 }
 
 int srcml_pretty(srcml_archive* srcml_arch, const std::string& pretty_input, const srcml_request_t& srcml_request) {
     int unit_num = srcml_request.unit;
     pretty_template_t output_template = split_template_sections(pretty_input);
-    size_t ns_size = srcml_archive_get_namespace_size(srcml_arch);
+    if (output_template.error_location)
+        return -1;
 
     if (output_template.header) {
-        output_template.error_location = parse_templates(*output_template.header, output_template.header_args, valid_header_args, ns_size);
+        output_template.error_location = parse_templates(*output_template.header, output_template.header_args, valid_header_args);
         if (output_template.error_location) {
             SRCMLstatus(WARNING_MSG, "srcml: header format error:\n" +
                              *output_template.header);
@@ -346,7 +268,7 @@ int srcml_pretty(srcml_archive* srcml_arch, const std::string& pretty_input, con
     }
 
     if (output_template.body) {
-        output_template.error_location = parse_templates(*output_template.body, output_template.body_args, valid_body_args, ns_size);
+        output_template.error_location = parse_templates(*output_template.body, output_template.body_args, valid_body_args);
         if (output_template.error_location) {
             SRCMLstatus(WARNING_MSG, "srcml: body format error:\n" +
                              *output_template.body);
@@ -356,7 +278,7 @@ int srcml_pretty(srcml_archive* srcml_arch, const std::string& pretty_input, con
     }
 
     if (output_template.footer) {
-        output_template.error_location = parse_templates(*output_template.footer, output_template.footer_args, valid_footer_args, ns_size);
+        output_template.error_location = parse_templates(*output_template.footer, output_template.footer_args, valid_footer_args);
         if (output_template.error_location) {
             SRCMLstatus(WARNING_MSG, "srcml: footer format error:\n" +
                              *output_template.footer);
@@ -365,7 +287,7 @@ int srcml_pretty(srcml_archive* srcml_arch, const std::string& pretty_input, con
         }
     }
 
-    display_template(srcml_arch, output_template, ns_size, unit_num, option(SRCML_COMMAND_XML));
+    display_template(srcml_arch, output_template, unit_num, option(SRCML_COMMAND_XML));
 
     return 0;
 }
-- 
2.43.0


From eeb0a60cf3e1fe05179239959ecc537ab65b3741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:07 +0000
Subject: [PATCH 32/87] fix: metadata of every input is shown, and an archive
 without units has none

---
 src/client/srcml_display_metadata.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/srcml_display_metadata.cpp b/src/client/srcml_display_metadata.cpp
index 3d51872..aa2eddd 100644
--- a/src/client/srcml_display_metadata.cpp
+++ b/src/client/srcml_display_metadata.cpp
@@ -109,7 +109,8 @@ namespace {
 
         if (long_info) {
 
-            ++unit_count;
+            if (unit && srcml_unit_get_language(unit.get()))
+                ++unit_count;
 
             while (srcml_archive_skip_unit(srcml_arch)) {
 
@@ -170,7 +171,7 @@ void srcml_display_metadata(const srcml_request_t& srcml_request, const srcml_in
         // Overrides all others Perform a pretty output
         if (srcml_request.pretty_format) {
             srcml_pretty(srcml_arch.get(), *srcml_request.pretty_format, srcml_request);
-            return;
+            continue;
         }
 
         std::string pretty_meta_header;
-- 
2.43.0


From c200e0f3694f9f872502f76c032a6d0ab3f68b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:07 +0000
Subject: [PATCH 33/87] fix: last line of a file list does not need a newline

---
 src/client/src_input_filelist.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/client/src_input_filelist.cpp b/src/client/src_input_filelist.cpp
index fb56b82..2493df4 100644
--- a/src/client/src_input_filelist.cpp
+++ b/src/client/src_input_filelist.cpp
@@ -26,6 +26,7 @@
 #include <src_input_filesystem.hpp>
 #include <create_srcml.hpp>
 #include <libarchive_utilities.hpp>
+#include <algorithm>
 #include <iostream>
 #include <cstring>
 #include <archive.h>
@@ -80,14 +81,15 @@ int src_input_filelist(ParseQueue& queue,
            vbuffer.insert(vbuffer.end(), buffer, buffer + size);
     }
 
-    char* line = &vbuffer[0];
-    while (line < &vbuffer[vbuffer.size() - 1]) {
+    const char* line = vbuffer.data();
+    const char* const endlines = line + vbuffer.size();
+    while (line != endlines) {
 
         // find the line
-        char* startline = line;
-        while (*line != '\n' && line != &vbuffer[vbuffer.size() - 1])
+        const char* startline = line;
+        line = std::find(line, endlines, '\n');
+        if (line != endlines)
             ++line;
-        ++line;
 
         std::string sline(startline, line - startline);
 
-- 
2.43.0


From 12b7de8619c731e3ddaec00a039cfe8c9e431b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:49 +0000
Subject: [PATCH 34/87] fix: reading a unit whose text begins with '>', or an
 escape element without a character, no longer crashes

---
 src/libsrcml/sax2_srcsax_handler.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 54cf986..2044f81 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -596,7 +596,7 @@ void end_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, const
  */
 void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix */, const xmlChar* /* URI */,
                     int /* nb_namespaces */, const xmlChar** /* namespaces */,
-                    int /* nb_attributes */, int /* nb_defaulted */, const xmlChar** attributes) {
+                    int nb_attributes, int /* nb_defaulted */, const xmlChar** attributes) {
 
     auto ctxt = (xmlParserCtxtPtr) ctx;
     if (ctxt == nullptr)
@@ -630,7 +630,7 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
 
         // Special element <escape char="0x0c"/> used to embed non-XML characters
         // extract the value of the char attribute and add to the src (text)
-        if (localname == state->escape_entry) {
+        if (localname == state->escape_entry && nb_attributes > 0) {
 
             std::string svalue((const char *)attributes[0 * 5 + 3], attributes[0 * 5 + 4] - attributes[0 * 5 + 3]);
 
@@ -773,8 +773,8 @@ void characters_unit(void* ctx, const xmlChar* ch, int len) {
 
     update_ctx(ctx);
 
-    // end previous start element
-    if (state->base[0] == '>') {
+    // end previous start element, but not when this is the text itself
+    if (state->base < ctxt->input->cur && state->base[0] == '>') {
         state->unitsrcml.append(1, '>');
         state->base += 1;
     }
-- 
2.43.0


From dcbcb3d82e4bd23510c986203ca2e73ad83c73ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:49 +0000
Subject: [PATCH 35/87] fix: units written by elements: refuse ends, attributes
 and namespaces that would break the markup, and leave the text argument and
 the previous contents alone

---
 src/libsrcml/srcml_translator.cpp | 124 ++++++++++++++++++++++++++----
 src/libsrcml/srcml_translator.hpp |  17 ++++
 src/libsrcml/srcml_types.hpp      |   5 ++
 src/libsrcml/srcml_unit.cpp       |  17 ++--
 4 files changed, 139 insertions(+), 24 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index ab23464..e9d8d63 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -33,6 +33,17 @@
 #include <srcml_types.hpp>
 #include <unit_utilities.hpp>
 
+// control characters cannot be part of XML
+static bool is_xml_text(const char* content) {
+
+    for (; *content; ++content) {
+        if ((unsigned char) *content < 0x20 && *content != '\t' && *content != '\n' && *content != '\r')
+            return false;
+    }
+
+    return true;
+}
+
 /**
  * srcml_translator
  * @param output_buffer general libxml2 output buffer
@@ -329,14 +340,22 @@ bool srcml_translator::add_start_element(const char* prefix, const char* name, c
     if (strcmp(name, "unit") == 0)
         return false;
 
-    ++output_unit_depth;
+    // the namespace of srcML is declared on the unit
+    const char* used_uri = uri;
+    if (uri && strcmp(SRCML_SRC_NS_URI, uri) == 0 && is_declared(prefix, uri))
+        used_uri = nullptr;
 
-    const char* used_uri = nullptr;
-    if (uri == nullptr || strcmp(SRCML_SRC_NS_URI, uri) != 0) {
-        used_uri = uri;
-    }
+    if (xmlTextWriterStartElementNS(out.getWriter(), BAD_CAST prefix, BAD_CAST name, BAD_CAST used_uri) == -1)
+        return false;
+
+    ++output_unit_depth;
+    declared.emplace_back();
+    tag_attributes.clear();
+    is_outputting_tag = true;
+    if (uri)
+        declare(prefix, uri);
 
-    return xmlTextWriterStartElementNS(out.getWriter(), BAD_CAST prefix, BAD_CAST name, BAD_CAST used_uri) != -1;
+    return true;
 }
 
 /**
@@ -349,10 +368,13 @@ bool srcml_translator::add_start_element(const char* prefix, const char* name, c
  */
 bool srcml_translator::add_end_element() {
 
-    if (!is_outputting_unit)
+    // the unit itself is ended by add_end_unit()
+    if (!is_outputting_unit || output_unit_depth == 0)
         return false;
 
     --output_unit_depth;
+    declared.pop_back();
+    is_outputting_tag = false;
 
     return xmlTextWriterEndElement(out.getWriter()) != -1;
 }
@@ -369,16 +391,22 @@ bool srcml_translator::add_end_element() {
  */
 bool srcml_translator::add_namespace(const char* prefix, const char *uri) {
 
-    if (!is_outputting_unit || uri == 0)
+    // the start tag of the unit is not written by element
+    if (!is_outputting_unit || !is_outputting_tag || uri == 0)
         return false;
 
+    // same declaration twice in a tag is only written once
+    auto it = declared.back().find(prefix ? prefix : "");
+    if (it != declared.back().end())
+        return it->second == uri;
+
     std::string name = "xmlns";
     if (prefix) {
         name += ":";
         name += prefix;
     }
 
-    return xmlTextWriterWriteAttribute(out.getWriter(), BAD_CAST name.c_str(), BAD_CAST uri) != -1;
+    return xmlTextWriterWriteAttribute(out.getWriter(), BAD_CAST name.c_str(), BAD_CAST uri) != -1 && declare(prefix, uri);
 }
 
 /**
@@ -395,10 +423,71 @@ bool srcml_translator::add_namespace(const char* prefix, const char *uri) {
  */
 bool srcml_translator::add_attribute(const char* prefix, const char* name, const char* uri, const char* content) {
 
-    if (!is_outputting_unit || name == 0)
+    // the start tag of the unit is not written by element
+    if (!is_outputting_unit || !is_outputting_tag || name == 0 || content == 0 || !is_xml_text(content))
         return false;
 
-    return xmlTextWriterWriteAttributeNS(out.getWriter(), BAD_CAST prefix, BAD_CAST name, BAD_CAST uri, BAD_CAST content) != -1;
+    std::string qname = prefix ? std::string(prefix) + ":" + name : name;
+    if (tag_attributes.find(qname) != tag_attributes.end())
+        return false;
+
+    // prefix may already be declared in this tag
+    const char* used_uri = uri;
+    if (uri) {
+        auto it = declared.back().find(prefix ? prefix : "");
+        if (it != declared.back().end()) {
+            if (it->second != uri)
+                return false;
+            used_uri = nullptr;
+        }
+    }
+
+    if (xmlTextWriterWriteAttributeNS(out.getWriter(), BAD_CAST prefix, BAD_CAST name, BAD_CAST used_uri, BAD_CAST content) == -1)
+        return false;
+
+    tag_attributes.insert(qname);
+    if (used_uri)
+        declare(prefix, used_uri);
+
+    return true;
+}
+
+/**
+ * declare
+ * @param prefix the prefix, which may be null
+ * @param uri the URI of the prefix
+ *
+ * Record the prefix as declared in the start tag being written.
+ *
+ * @returns true.
+ */
+bool srcml_translator::declare(const char* prefix, const char* uri) {
+
+    declared.back()[prefix ? prefix : ""] = uri;
+
+    return true;
+}
+
+/**
+ * is_declared
+ * @param prefix the prefix, which may be null
+ * @param uri a URI
+ *
+ * @returns if the prefix currently stands for the URI.
+ */
+bool srcml_translator::is_declared(const char* prefix, const char* uri) const {
+
+    std::string key = prefix ? prefix : "";
+    for (auto it = declared.rbegin(); it != declared.rend(); ++it) {
+        auto found = it->find(key);
+        if (found != it->end())
+            return found->second == uri;
+    }
+
+    // otherwise as declared on the unit
+    auto&& view = out.getNamespaces().get<nstags::uri>();
+    auto it = view.find(uri);
+    return it != view.end() && it->getPrefix() == key;
 }
 
 /**
@@ -413,20 +502,21 @@ bool srcml_translator::add_attribute(const char* prefix, const char* name, const
  */
 bool srcml_translator::add_string(const char *content) {
 
-    if (!is_outputting_unit || content == 0)
+    if (!is_outputting_unit || content == 0 || !is_xml_text(content))
         return false;
 
-    char* text = (char *)content;
-    for (char * pos = text; *pos; ++pos) {
+    is_outputting_tag = false;
+
+    // quotes are not escaped
+    const char* text = content;
+    for (const char* pos = text; *pos; ++pos) {
 
         if (*pos != '"')
             continue;
 
-        *pos = 0;
-        if (xmlTextWriterWriteString(out.getWriter(), BAD_CAST text) == -1)
+        if (xmlTextWriterWriteString(out.getWriter(), BAD_CAST std::string(text, pos).c_str()) == -1)
             return false;
 
-        *pos = '\"';
         if (xmlTextWriterWriteRaw(out.getWriter(), BAD_CAST "\"") == -1)
             return false;
 
diff --git a/src/libsrcml/srcml_translator.hpp b/src/libsrcml/srcml_translator.hpp
index df01d55..36c6ef7 100644
--- a/src/libsrcml/srcml_translator.hpp
+++ b/src/libsrcml/srcml_translator.hpp
@@ -33,7 +33,10 @@
 #include <srcml_macros.hpp>
 #include <srcml.h>
 
+#include <map>
+#include <set>
 #include <string>
+#include <vector>
 
 /**
  * FileError
@@ -148,6 +151,20 @@ private:
 public:
     /** track depth for by element writing */
     int output_unit_depth = 0;
+
+private:
+
+    /** prefixes declared by each of the open elements */
+    std::vector<std::map<std::string, std::string>> declared;
+
+    /** mark if the start tag of an element is being written */
+    bool is_outputting_tag = false;
+
+    /** attributes of the start tag being written */
+    std::set<std::string> tag_attributes;
+
+    bool declare(const char* prefix, const char* uri);
+    bool is_declared(const char* prefix, const char* uri) const;
 };
 
 #endif
diff --git a/src/libsrcml/srcml_types.hpp b/src/libsrcml/srcml_types.hpp
index 2b4ecd9..67430e1 100644
--- a/src/libsrcml/srcml_types.hpp
+++ b/src/libsrcml/srcml_types.hpp
@@ -237,6 +237,11 @@ struct srcml_unit {
     int insert_begin = 0;
     int insert_end = 0;
 
+    /** same for a unit that is being written, until it is ended */
+    int output_content_begin = 0;
+    int output_insert_begin = 0;
+    int output_insert_end = 0;
+
     int loc = -1;
 
     /** error reporting */
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 5504938..f637bab 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -944,15 +944,15 @@ int srcml_write_start_unit(struct srcml_unit* unit) {
 
     // record start of content (after the unit start tag)
     xmlTextWriterFlush(unit->unit_translator->output_textwriter());
-    unit->content_begin = unit->unit_translator->output_buffer()->written + 1;
+    unit->output_content_begin = unit->unit_translator->output_buffer()->written + 1;
 
     // record end of content (after xmlns for srcML)
     const char* s = (const char*) xmlBufferContent(unit->output_buffer);
     auto pos = strstr(s, "xmlns") - s;
-    unit->insert_begin = (int) pos;
+    unit->output_insert_begin = (int) pos - 1;
     auto firstquote = strchr(s + pos + 1, '\"') - s;
     auto secondquote = strchr(s + firstquote + 1, '\"') - s;
-    unit->insert_end = (int) secondquote + 2;
+    unit->output_insert_end = (int) secondquote + 1;
 
     return SRCML_STATUS_OK;
 }
@@ -980,7 +980,7 @@ int srcml_write_end_unit(struct srcml_unit* unit) {
 
     // record end of content (before the unit end tag)
     xmlTextWriterFlush(unit->unit_translator->output_textwriter());
-    unit->content_end = unit->unit_translator->output_buffer()->written + 1;
+    int content_end = unit->unit_translator->output_buffer()->written + 1;
 
     // end the unit (and any open elements)
     if (!unit->unit_translator->add_end_unit())
@@ -993,8 +993,7 @@ int srcml_write_end_unit(struct srcml_unit* unit) {
     char* srcml = (char*) xmlBufferDetach(unit->output_buffer);
 
     // record the current content_begin (which may change)
-    int content_begin = unit->content_begin;
-    int content_end = unit->content_end;
+    int content_begin = unit->output_content_begin;
 
     // redo the start element with the namespaces found in the document
     srcml_write_start_unit(unit);
@@ -1012,7 +1011,10 @@ int srcml_write_end_unit(struct srcml_unit* unit) {
     }
 
     // content end is changed since the start unit tag was rewritten
-    unit->content_end += (unit->content_begin - content_begin);
+    unit->content_begin = unit->output_content_begin;
+    unit->content_end = content_end + (unit->content_begin - content_begin);
+    unit->insert_begin = unit->output_insert_begin;
+    unit->insert_end = unit->output_insert_end;
 
     free(start_tag);
     free(srcml);
@@ -1036,6 +1038,7 @@ int srcml_write_end_unit(struct srcml_unit* unit) {
     unit->unit_translator = 0;
 
     xmlBufferFree(unit->output_buffer);
+    unit->output_buffer = nullptr;
 
     unit->read_body = true;
 
-- 
2.43.0


From f7c761c88e325cf342769d104123f50c42b26842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:50 +0000
Subject: [PATCH 36/87] fix: a unit written to an archive declares the
 namespaces which that archive's root does not, and has no language attribute
 when it has no language

---
 src/libsrcml/srcml_reader_handler.hpp |  9 +++++++--
 src/libsrcml/srcml_translator.cpp     |  2 +-
 src/parser/srcMLOutput.cpp            | 25 +++++++++++++++----------
 src/parser/srcMLOutput.hpp            |  4 ++++
 4 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 71e6efa..0164919 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -449,8 +449,13 @@ public :
             // update namespaces with those declared, plus mark them as used
             for (const auto& ns : state->unit_namespaces) {
 
-                if (ns.second == SRCML_SRC_NS_URI)
-                    continue;
+                // prefix of the unit itself is normally that of the archive
+                if (ns.second == SRCML_SRC_NS_URI) {
+                    auto&& archive_view = archive->namespaces.get<nstags::uri>();
+                    auto archive_it = archive_view.find(ns.second);
+                    if (ns.first != (prefix ? prefix : "") || (archive_it != archive_view.end() && archive_it->prefix == ns.first))
+                        continue;
+                }
 
                 // namespaces probably aren't create yet
                 if (!unit->namespaces) {
diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index e9d8d63..5222820 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -236,7 +236,7 @@ bool srcml_translator::add_unit(const srcml_unit* unit) {
     // create a new unit start tag with all new info (hash value, namespaces actually used, etc.)
     out.initNamespaces(mergedns);
     auto nrevision = unit->archive->revision_number;
-    out.startUnit(language.c_str(),
+    out.startUnit(!language.empty() ? language.c_str() : 0,
             (options & SRCML_OPTION_ARCHIVE) && unit->revision ? unit->revision->c_str() : revision,
             (options & SRCML_OPTION_ARCHIVE) || !unit->url       ? 0 : (nrevision ? attribute_revision(*unit->url, (int) *nrevision).c_str() : unit->url->c_str()),
             !unit->filename  ? 0 : (nrevision ? attribute_revision(*unit->filename, (int) *nrevision).c_str() : unit->filename->c_str()),
diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index 5de222c..b7d9115 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -260,20 +260,25 @@ void srcMLOutput::outputNamespaces(xmlTextWriterPtr xout, const OPTION_TYPE& opt
 
     for (const auto& ns : namespaces) {
 
+        // must be required, or on the root and used, or user registered
+        bool on_root = ((ns.flags & NS_STANDARD) && ((ns.flags & NS_REQUIRED) || ((ns.flags & NS_ROOT) && (ns.flags & NS_USED))))
+            || ((ns.flags & NS_REGISTERED) && !(ns.flags & NS_STANDARD));
+
         // output standard namespaces for outer unit or non-archive unit
-        if (depth == 0 || !isoption(options, SRCML_OPTION_ARCHIVE)) {
+        if (on_root && (depth == 0 || !isoption(options, SRCML_OPTION_ARCHIVE))) {
 
-            // must be required, or on the root and used
-            if ((ns.flags & NS_STANDARD) && ((ns.flags & NS_REQUIRED) || ((ns.flags & NS_ROOT) && (ns.flags & NS_USED)))) {
-                srcMLTextWriterWriteNamespace(xout, ns);
-                continue;
-            }
+            srcMLTextWriterWriteNamespace(xout, ns);
+            root_namespaces[ns.prefix] = ns.uri;
+            continue;
+        }
+
+        // unit may be from another archive, with namespaces that are not on this root
+        if (on_root && depth == 1) {
 
-            // must be user registered
-            if (ns.flags & NS_REGISTERED && !(ns.flags & NS_STANDARD)) {
+            auto it = root_namespaces.find(ns.prefix);
+            if (it == root_namespaces.end() || it->second != ns.uri)
                 srcMLTextWriterWriteNamespace(xout, ns);
-                continue;
-            }
+            continue;
         }
 
         // output standard namespaces for inner unit or non-archive unit
diff --git a/src/parser/srcMLOutput.hpp b/src/parser/srcMLOutput.hpp
index 2e12837..b8f49b3 100644
--- a/src/parser/srcMLOutput.hpp
+++ b/src/parser/srcMLOutput.hpp
@@ -34,6 +34,7 @@
 #include "TokenStream.hpp"
 #include "srcMLException.hpp"
 #include <string>
+#include <map>
 #include <unordered_map>
 #include "srcmlns.hpp"
 #include <libxml/xmlwriter.h>
@@ -185,6 +186,9 @@ public:
     /** number of units output or depth into archive */
     int depth = 0;
 
+    /** prefix and uri of the namespaces output on the root */
+    std::map<std::string, std::string> root_namespaces;
+
     /** user defined macro list */
     std::vector<std::string> user_macro_list;
 
-- 
2.43.0


From 92d95cf2072914c9d78339f5adfba1cd90206b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:50 +0000
Subject: [PATCH 37/87] fix: the outer and full form of a unit are right for
 any start tag: attributes in any order, values that contain url= or xmlns,
 namespaces declared again

---
 src/libsrcml/sax2_srcsax_handler.cpp | 67 ++++++++++++++++------------
 src/libsrcml/sax2_srcsax_handler.hpp |  2 +-
 src/libsrcml/srcml_unit.cpp          | 44 +++++-------------
 src/libsrcml/unit_utilities.cpp      | 34 ++++++++++++++
 src/libsrcml/unit_utilities.hpp      |  4 ++
 5 files changed, 90 insertions(+), 61 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 2044f81..46c3b49 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -274,21 +274,22 @@ void start_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
         int ns_length = nb_namespaces * 2;
         for (int i = 0; i < ns_length; i += 2) {
 
-            state->rootnsstr += "xmlns";
+            std::string nsstr = " xmlns";
             if (namespaces[i]) {
-                state->rootnsstr += ":";
-                state->rootnsstr += (const char*) namespaces[i];
+                nsstr += ":";
+                nsstr += (const char*) namespaces[i];
             }
-            state->rootnsstr += "=\"";
+            nsstr += "=\"";
             for (auto c : sax2_value(namespaces[i + 1], namespaces[i + 1] + xmlStrlen(namespaces[i + 1]))) {
                 switch (c) {
-                case '&': state->rootnsstr += "&amp;"; break;
-                case '<': state->rootnsstr += "&lt;"; break;
-                case '"': state->rootnsstr += "&quot;"; break;
-                default:  state->rootnsstr += c;
+                case '&': nsstr += "&amp;"; break;
+                case '<': nsstr += "&lt;"; break;
+                case '"': nsstr += "&quot;"; break;
+                default:  nsstr += c;
                 }
             }
-            state->rootnsstr += "\" ";
+            nsstr += "\"";
+            state->rootns.emplace_back(namespaces[i] ? (const char*) namespaces[i] : "", nsstr);
         }
     }
 
@@ -447,30 +448,40 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
 
     if (true || state->collect_unit_body) {
 
-        // find end of unit tag name, e.g., end of "<unit" or "<src:unit"
-        int pos = (int) (1 + strlen((const char*) localname) + (prefix ? strlen((const char*) prefix) + 1 : 0) + 1);
-
-        if (pos >= 0) {
-            // merge the namespaces from the root into this one
-            state->unitsrcml.reserve(ctxt->input->cur - state->base + 1 + (state->context->is_archive ? state->rootnsstr.size() : 0));
-            state->unitsrcml.assign((const char*) state->base, pos);
-            state->insert_begin = (int) state->unitsrcml.size();
-            if (state->context->is_archive) {
-                state->unitsrcml.append(state->rootnsstr);
-                state->insert_end = (int) state->unitsrcml.size();
-            }
+        // start tag of the unit as it is in the document
+        std::string tag((const char*) state->base, ctxt->input->cur - state->base + 1);
+
+        if (state->context->is_archive) {
 
-            state->unitsrcml.append((const char*) state->base + pos, ctxt->input->cur - state->base + 1 - pos);
+            // end of unit tag name, e.g., end of "<unit" or "<src:unit"
+            auto pos = 1 + strlen((const char*) localname) + (prefix ? strlen((const char*) prefix) + 1 : 0);
 
-            if (!state->context->is_archive) {
-                std::string& s = state->unitsrcml;
-                auto pos = s.find("xmlns");
-                auto firstquote = s.find("\"", pos + 1);
-                auto secondquote = s.find("\"", firstquote + 1);
-                state->insert_end = (int) secondquote + 2;
+            // merge the namespaces from the root into this one, except for any that are declared again
+            std::string nsstr;
+            for (const auto& ns : state->rootns) {
+                bool redeclared = false;
+                for (int i = 0; i < nb_namespaces; ++i)
+                    redeclared = redeclared || ns.first == (namespaces[i * 2] ? (const char*) namespaces[i * 2] : "");
+                if (!redeclared)
+                    nsstr += ns.second;
             }
+
+            state->insert_begin = (int) pos;
+            state->insert_end = (int) (pos + nsstr.size());
+            tag.insert(pos, nsstr);
+
+        } else {
+
+            // first namespace declaration
+            size_t begin = 0;
+            size_t end = 0;
+            find_attribute(tag, "xmlns", begin, end);
+            state->insert_begin = (int) begin;
+            state->insert_end = (int) end;
         }
 
+        state->unitsrcml = std::move(tag);
+
         SRCML_DEBUG("UNIT", state->unitsrcml.c_str(), state->unitsrcml.size());
 
         // where the content begins, past the start unit tag
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index b88be41..0987ab9 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -83,7 +83,7 @@ struct sax2_srcsax_handler {
 
     bool callupper = true;
 
-    std::string rootnsstr;
+    std::vector<std::pair<std::string, std::string>> rootns;
     std::string rootstarttag;
 
     int content_begin = 0;
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index f637bab..11503b9 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -25,6 +25,7 @@
 #include <UTF8CharBuffer.hpp>
 #include <memory>
 #include <libxml2_utilities.hpp>
+#include <unit_utilities.hpp>
 #include <cstring>
 #include <fcntl.h>
 #include <srcml_macros.hpp>
@@ -375,41 +376,20 @@ const char* srcml_unit_get_srcml_outer(struct srcml_unit* unit) {
     if (!unit->read_body && (unit->archive->type == SRCML_ARCHIVE_READ || unit->archive->type == SRCML_ARCHIVE_RW))
         unit->archive->reader->read_body(unit);
 
-    // size of resulting raw version (no unit tag)
-    auto rawsize = unit->srcml.size() - (unit->insert_end - unit->insert_begin);
-
     // construct the fragment from the full srcML, excluding the inserted root tag stuff (including namespaces)
     if (!unit->srcml_fragment) {
 
-        // find end of unit tag, e.g., end of "<unit ...>" or "<src:unit ...>"
-        std::string prefix = "";
-        auto pos = unit->srcml.find(">");
-
-        int insert_attr_begin = 0;
-        int insert_attr_end = 0;
-
-        if (pos != std::string::npos) {
-            // find url attribute
-            std::string s(unit->srcml, 0, pos);
-            auto pos2 = s.find(" url=");
-            if (pos2 != std::string::npos) {
-                insert_attr_begin = (int) pos2;
-                pos2 += 6;
-                auto pos3 = s.find("\"", pos2);
-                pos3 += 1;
-                insert_attr_end = (int) pos3;
-            }
-        }
-
-        unit->srcml_fragment = "";
-        unit->srcml_fragment->reserve(rawsize);
-        unit->srcml_fragment->assign(unit->srcml, 0, unit->insert_begin);
-        if (insert_attr_begin == 0) {
-            unit->srcml_fragment->append(unit->srcml, unit->insert_end, unit->srcml.size() - unit->insert_end);
-        } else {
-            unit->srcml_fragment->append(unit->srcml, unit->insert_end, insert_attr_begin - unit->insert_end);
-            unit->srcml_fragment->append(unit->srcml, insert_attr_end, unit->srcml.size() - insert_attr_end);
-        }
+        unit->srcml_fragment = unit->srcml;
+
+        // url is on the archive, and may be before or after the part that was inserted
+        size_t url_begin = 0;
+        size_t url_end = 0;
+        bool has_url = find_attribute(unit->srcml, "url", url_begin, url_end);
+        if (has_url && (int) url_end > unit->insert_begin)
+            unit->srcml_fragment->erase(url_begin, url_end - url_begin);
+        unit->srcml_fragment->erase(unit->insert_begin, unit->insert_end - unit->insert_begin);
+        if (has_url && (int) url_end <= unit->insert_begin)
+            unit->srcml_fragment->erase(url_begin, url_end - url_begin);
     }
 
     // if srcdiff versioned, then use that
diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index ad01900..a780b60 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -36,6 +36,40 @@ std::string sax2_value(const xmlChar* begin, const xmlChar* end) {
     return value;
 }
 
+// Find an attribute in a start tag
+bool find_attribute(const std::string& tag, const std::string& name, size_t& begin, size_t& end) {
+
+    const char* const whitespace = " \t\n\r";
+
+    // start at the end of the tag name
+    auto pos = tag.find_first_of(" \t\n\r/>");
+    while (pos != std::string::npos) {
+
+        auto name_begin = tag.find_first_not_of(whitespace, pos);
+        if (name_begin == std::string::npos || tag[name_begin] == '/' || tag[name_begin] == '>')
+            return false;
+
+        auto equals = tag.find('=', name_begin);
+        auto quote = tag.find_first_of("\"'", equals);
+        if (equals == std::string::npos || quote == std::string::npos)
+            return false;
+        auto close = tag.find(tag[quote], quote + 1);
+        if (close == std::string::npos)
+            return false;
+
+        std::string cur(tag, name_begin, tag.find_first_of(" \t\n\r=", name_begin) - name_begin);
+        if (cur == name || (name == "xmlns" && cur.compare(0, 6, "xmlns:") == 0)) {
+            begin = pos;
+            end = close + 1;
+            return true;
+        }
+
+        pos = close + 1;
+    }
+
+    return false;
+}
+
 // Update unit attributes with xml parsed attributes
 void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar** attributes) {
 
diff --git a/src/libsrcml/unit_utilities.hpp b/src/libsrcml/unit_utilities.hpp
index 2c44103..b586208 100644
--- a/src/libsrcml/unit_utilities.hpp
+++ b/src/libsrcml/unit_utilities.hpp
@@ -30,6 +30,10 @@
 // Value of a SAX2 attribute or namespace
 std::string sax2_value(const xmlChar* begin, const xmlChar* end);
 
+// Find an attribute in a start tag. A name of "xmlns" is for any namespace declaration
+// Begins before the whitespace that precedes the name, and ends after the closing quote
+bool find_attribute(const std::string& tag, const std::string& name, size_t& begin, size_t& end);
+
 // Update unit attributes with xml parsed attributes
 void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar** attributes);
 
-- 
2.43.0


From f1ba7fc0788555e7528ea4cc3f517a4d565aadfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:08 +0000
Subject: [PATCH 38/87] fix: unparsing reports an error when the source could
 not all be written, and writes to the file of exactly the given name

---
 src/client/create_src.cpp          |  5 ++-
 src/libsrcml/libxml2_utilities.hpp | 51 ++++++++++++++++++++++++++++++
 src/libsrcml/srcml_unit.cpp        | 19 ++++++-----
 3 files changed, 66 insertions(+), 9 deletions(-)

diff --git a/src/client/create_src.cpp b/src/client/create_src.cpp
index 4160409..52b5333 100644
--- a/src/client/create_src.cpp
+++ b/src/client/create_src.cpp
@@ -145,7 +145,10 @@ void create_src(const srcml_request_t& srcml_request,
             }
 
             // unparse directly to the destintation
-            srcml_unit_unparse_fd(unit.get(), destination);
+            if (srcml_unit_unparse_fd(unit.get(), destination) != SRCML_STATUS_OK) {
+                SRCMLstatus(ERROR_MSG, "srcml: unable to write the complete output");
+                break;
+            }
 
             // get out if only one unit
             if (srcml_request.unit)
diff --git a/src/libsrcml/libxml2_utilities.hpp b/src/libsrcml/libxml2_utilities.hpp
index 7bdf835..de5a1b9 100644
--- a/src/libsrcml/libxml2_utilities.hpp
+++ b/src/libsrcml/libxml2_utilities.hpp
@@ -26,6 +26,8 @@
 #include <libxml/tree.h>
 #include <libxml/xmlIO.h>
 #include <libxml/relaxng.h>
+#include <cstdio>
+#include <cstring>
 #include <algorithm>
 #include <memory>
 
@@ -85,4 +87,53 @@ namespace std {
     };
 }
 
+// Output buffer for the file with exactly this name. A name is not a URI, i.e., a "%20" in it is not a space
+inline xmlOutputBufferPtr output_buffer_create_filename(const char* filename, xmlCharEncodingHandlerPtr handler) {
+
+    // standard output
+    if (strcmp(filename, "-") == 0)
+        return xmlOutputBufferCreateFilename(filename, handler, 0);
+
+    FILE* file = fopen(filename, "wb");
+    if (!file) {
+        if (handler)
+            xmlCharEncCloseFunc(handler);
+        return nullptr;
+    }
+
+    return xmlOutputBufferCreateIO([](void* context, const char* buffer, int len) {
+
+        return fwrite(buffer, 1, (size_t) len, (FILE*) context) == (size_t) len ? len : -1;
+
+    }, [](void* context) {
+
+        return fclose((FILE*) context) == 0 ? 0 : -1;
+
+    }, file, handler);
+}
+
+// Write out everything in the output buffer, including what the destination did not take
+// the first time, and close the destination. The output buffer itself has to be freed afterwards
+// Returns false if not everything could be written
+inline bool output_buffer_finish(xmlOutputBufferPtr output) {
+
+    auto pending = [output]() { return xmlBufUse(output->buffer) + (output->conv ? xmlBufUse(output->conv) : 0); };
+
+    while (!output->error && pending() > 0) {
+
+        size_t before = pending();
+        int written = output->written;
+        if (xmlOutputBufferFlush(output) < 0 || (output->written == written && pending() == before))
+            break;
+    }
+    bool complete = !output->error && pending() == 0;
+
+    if (output->closecallback && output->closecallback(output->context) < 0)
+        complete = false;
+    output->writecallback = nullptr;
+    output->closecallback = nullptr;
+
+    return complete;
+}
+
 #endif
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 11503b9..7f1968e 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -663,13 +663,6 @@ static int srcml_unit_unparse_internal(struct srcml_unit* unit, std::function<xm
     if (!unit->read_body && !unit->read_header)
         return SRCML_STATUS_UNINITIALIZED_UNIT;
 
-    const char* encoding = optional_to_c_str(unit->encoding, optional_to_c_str(unit->archive->src_encoding, "ISO-8859-1"));
-
-    std::unique_ptr<xmlOutputBuffer> output_handler(createbuffer(encoding ? xmlFindCharEncodingHandler(encoding) : 0));
-    if (!output_handler) {
-        return SRCML_STATUS_IO_ERROR;
-    }
-
     try {
 
         if (!unit->read_body)
@@ -680,6 +673,13 @@ static int srcml_unit_unparse_internal(struct srcml_unit* unit, std::function<xm
         return SRCML_STATUS_IO_ERROR;
     }
 
+    const char* encoding = optional_to_c_str(unit->encoding, optional_to_c_str(unit->archive->src_encoding, "ISO-8859-1"));
+
+    std::unique_ptr<xmlOutputBuffer> output_handler(createbuffer(encoding ? xmlFindCharEncodingHandler(encoding) : 0));
+    if (!output_handler) {
+        return SRCML_STATUS_IO_ERROR;
+    }
+
     // if this unit was parsed from source, then the src does not exist
     // generate this source from the srcml
     if (!unit->src) {
@@ -716,6 +716,9 @@ static int srcml_unit_unparse_internal(struct srcml_unit* unit, std::function<xm
         xmlOutputBufferWrite(output_handler.get(), (int) neol.size(), neol.c_str());
     }
 
+    if (!output_buffer_finish(output_handler.get()))
+        return SRCML_STATUS_IO_ERROR;
+
     return SRCML_STATUS_OK;
 }
 
@@ -737,7 +740,7 @@ int srcml_unit_unparse_filename(struct srcml_unit* unit, const char* src_filenam
 
     return srcml_unit_unparse_internal(unit, [src_filename](xmlCharEncodingHandlerPtr handler) {
 
-        return xmlOutputBufferCreateFilename(src_filename, handler, 0);
+        return output_buffer_create_filename(src_filename, handler);
     });
 }
 
-- 
2.43.0


From 94c467ea4e9136b016487e3625740a6d0e534289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:08 +0000
Subject: [PATCH 39/87] fix: writing an archive is the same for every kind of
 output, and reports when not all was written or the output cannot be opened

---
 src/client/create_srcml.cpp       |  9 ++--
 src/libsrcml/srcml.h              |  4 +-
 src/libsrcml/srcml_archive.cpp    | 71 ++++++++++++++++++-------------
 src/libsrcml/srcml_translator.cpp |  6 ++-
 src/libsrcml/srcml_translator.hpp |  2 +-
 src/parser/srcMLOutput.cpp        | 11 ++++-
 src/parser/srcMLOutput.hpp        |  3 +-
 7 files changed, 67 insertions(+), 39 deletions(-)

diff --git a/src/client/create_srcml.cpp b/src/client/create_srcml.cpp
index cc800e2..2e47936 100644
--- a/src/client/create_srcml.cpp
+++ b/src/client/create_srcml.cpp
@@ -122,8 +122,10 @@ void create_srcml(const srcml_request_t& srcml_request,
 
             nstatus = srcml_archive_write_open_filename(srcml_arch.get(), destination.c_str());
         }
-        if (nstatus != SRCML_STATUS_OK)
-            return;
+        if (nstatus != SRCML_STATUS_OK) {
+            SRCMLstatus(ERROR_MSG, "srcml: unable to open output file " + destination.resource);
+            exit(1);
+        }
     }
 
     // set options for the output srcml archive
@@ -357,7 +359,8 @@ void create_srcml(const srcml_request_t& srcml_request,
     }
 
     if (status != -1 || always_archive) {
-        srcml_archive_close(srcml_arch.get());
+        if (srcml_archive_close(srcml_arch.get()) != SRCML_STATUS_OK)
+            SRCMLstatus(ERROR_MSG, "srcml: unable to write the complete output");
     }
 
     if (destination.fd)
diff --git a/src/libsrcml/srcml.h b/src/libsrcml/srcml.h
index a26d639..4a739bf 100644
--- a/src/libsrcml/srcml.h
+++ b/src/libsrcml/srcml.h
@@ -613,8 +613,10 @@ LIBSRCML_DECL int srcml_archive_write_string(struct srcml_archive* archive, cons
  * Close a srcml_archive opened using srcml_archive_read_open_*() or srcml_archive_write_open_*().
  * The archive can be reopened.
  * @param archive An open srcml_archive
+ * @return SRCML_STATUS_OK on success
+ * @return Status error code on failure, e.g., if what was written did not all reach its destination
  */
-LIBSRCML_DECL void srcml_archive_close(struct srcml_archive* archive);
+LIBSRCML_DECL int srcml_archive_close(struct srcml_archive* archive);
 
 /**
  * Free a srcml archive that was previously allocated
diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 014415b..2057f5c 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -21,6 +21,7 @@
 #include <srcml.h>
 #include <srcml_types.hpp>
 #include <srcmlns.hpp>
+#include <libxml2_utilities.hpp>
 #include <srcml_translator.hpp>
 #include <srcml_sax2_reader.hpp>
 #include <libxml/encoding.h>
@@ -903,6 +904,18 @@ static int srcml_archive_write_create_translator_xml_buffer(struct srcml_archive
     return SRCML_STATUS_OK;
 }
 
+// The XML encoding is set when the XML declaration is written, for every kind of output
+static int srcml_archive_write_open_internal(struct srcml_archive* archive, xmlOutputBufferPtr output_buffer) {
+
+    if (!output_buffer)
+        return SRCML_STATUS_IO_ERROR;
+
+    archive->type = SRCML_ARCHIVE_WRITE;
+    archive->output_buffer = output_buffer;
+
+    return SRCML_STATUS_OK;
+}
+
 /**
  * srcml_archive_write_open_filename
  * @param archive a srcml_archive
@@ -918,10 +931,7 @@ int srcml_archive_write_open_filename(struct srcml_archive* archive, const char*
     if (archive == nullptr || srcml_filename == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
-    archive->output_buffer = xmlOutputBufferCreateFilename(srcml_filename, 0, 0);
-
-    return SRCML_STATUS_OK;
+    return srcml_archive_write_open_internal(archive, output_buffer_create_filename(srcml_filename, 0));
 }
 
 /**
@@ -941,15 +951,12 @@ int srcml_archive_write_open_memory(struct srcml_archive* archive, char** buffer
     if (archive == nullptr || buffer == nullptr || size == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
-
     archive->buffer = buffer;
     archive->size = size;
 
     archive->xbuffer = xmlBufferCreate();
-    archive->output_buffer = xmlOutputBufferCreateBuffer(archive->xbuffer, 0);
 
-    return SRCML_STATUS_OK;
+    return srcml_archive_write_open_internal(archive, xmlOutputBufferCreateBuffer(archive->xbuffer, 0));
 }
 
 /**
@@ -967,11 +974,7 @@ int srcml_archive_write_open_FILE(struct srcml_archive* archive, FILE* srcml_fil
     if (archive == nullptr || srcml_file == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
-
-    archive->output_buffer = xmlOutputBufferCreateFile(srcml_file, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
-
-    return SRCML_STATUS_OK;
+    return srcml_archive_write_open_internal(archive, xmlOutputBufferCreateFile(srcml_file, 0));
 }
 
 /**
@@ -989,11 +992,7 @@ int srcml_archive_write_open_fd(struct srcml_archive* archive, int srcml_fd) {
     if (archive == nullptr || srcml_fd < 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
-
-    archive->output_buffer = xmlOutputBufferCreateFd(srcml_fd, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
-
-    return SRCML_STATUS_OK;
+    return srcml_archive_write_open_internal(archive, xmlOutputBufferCreateFd(srcml_fd, 0));
 }
 
 /**
@@ -1014,11 +1013,7 @@ int srcml_archive_write_open_io(struct srcml_archive* archive, void * context, i
     if (archive == nullptr || context == nullptr || write_callback == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
-
-    archive->output_buffer = xmlOutputBufferCreateIO(write_callback, close_callback, context, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
-
-    return SRCML_STATUS_OK;
+    return srcml_archive_write_open_internal(archive, xmlOutputBufferCreateIO(write_callback, close_callback, context, 0));
 }
 
 /******************************************************************************
@@ -1224,7 +1219,8 @@ int srcml_archive_write_unit(struct srcml_archive* archive, struct srcml_unit* u
             return status;
     }
 
-    archive->translator->add_unit(unit);
+    if (!archive->translator->add_unit(unit) || archive->output_buffer->error)
+        return SRCML_STATUS_IO_ERROR;
 
     return SRCML_STATUS_OK;
 }
@@ -1247,8 +1243,11 @@ int srcml_archive_write_string(struct srcml_archive* archive, const char* s, int
     if (archive == nullptr || s == nullptr || len < 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    if (archive->output_buffer)
-        xmlOutputBufferWrite(archive->output_buffer, len, s);
+    if (archive->type != SRCML_ARCHIVE_WRITE || archive->output_buffer == nullptr)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
+    if (xmlOutputBufferWrite(archive->output_buffer, len, s) < 0)
+        return SRCML_STATUS_IO_ERROR;
 
     archive->rawwrites = true;
 
@@ -1329,22 +1328,32 @@ int srcml_archive_skip_unit(struct srcml_archive* archive) {
  * Close a srcML archive opened using srcml_archive_read_open_*
  * or srcml_archive_write_open_*.
  * Archive can be reopened.
+ *
+ * @returns Return SRCML_STATUS_OK on success and a status error code on failure.
  */
-void srcml_archive_close(struct srcml_archive* archive) {
+int srcml_archive_close(struct srcml_archive* archive) {
 
     if (archive == nullptr)
-        return;
+        return SRCML_STATUS_INVALID_ARGUMENT;
+
+    int status = SRCML_STATUS_OK;
 
     // if we haven't opened the translator yet, do so now. This will create an empty unit/archive
     if (archive->type == SRCML_ARCHIVE_WRITE && !archive->rawwrites && archive->translator == nullptr) {
-        srcml_archive_write_create_translator_xml_buffer(archive);
+        status = srcml_archive_write_create_translator_xml_buffer(archive);
     }
 
     if (archive->translator) {
-        archive->translator->close();
+
+        // the output buffer is freed with the translator output
+        if (!archive->translator->close())
+            status = SRCML_STATUS_IO_ERROR;
+        archive->output_buffer = nullptr;
     }
 
     if (archive->rawwrites && archive->output_buffer) {
+        if (!output_buffer_finish(archive->output_buffer))
+            status = SRCML_STATUS_IO_ERROR;
         xmlOutputBufferClose(archive->output_buffer);
         archive->output_buffer = nullptr;
     }
@@ -1358,4 +1367,6 @@ void srcml_archive_close(struct srcml_archive* archive) {
     }
 
     archive->type = SRCML_ARCHIVE_INVALID;
+
+    return status;
 }
diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 5222820..0dea65c 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -103,8 +103,10 @@ void srcml_translator::set_macro_list(std::vector<std::string>& list) {
  * close
  *
  * Close the srcml_translator and the srcML.
+ *
+ * @returns if everything was written.
  */
-void srcml_translator::close() {
+bool srcml_translator::close() {
 
     if (!first && (options & SRCML_OPTION_ARCHIVE) > 0)
         out.outputUnitSeparator();
@@ -114,7 +116,7 @@ void srcml_translator::close() {
     if (is_outputting_unit)
         add_end_unit();
 
-    out.close();
+    return out.close();
 }
 
 /**
diff --git a/src/libsrcml/srcml_translator.hpp b/src/libsrcml/srcml_translator.hpp
index 36c6ef7..674bacb 100644
--- a/src/libsrcml/srcml_translator.hpp
+++ b/src/libsrcml/srcml_translator.hpp
@@ -77,7 +77,7 @@ public:
 
     void set_macro_list(std::vector<std::string> & list);
 
-    void close();
+    bool close();
 
     void translate(UTF8CharBuffer* parser_input);
 
diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index b7d9115..5850151 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -28,6 +28,7 @@
 #include "srcMLToken.hpp"
 #include "srcmlns.hpp"
 #include <srcml.h>
+#include <libxml2_utilities.hpp>
 
 // Definition of elements, including name, URI, attributes, and special processing
 // Included to take advantage of inlined methods
@@ -120,22 +121,30 @@ srcMLOutput::~srcMLOutput() {
  * close
  *
  * Close/finish the output.
+ *
+ * @returns if everything was written.
  */
-void srcMLOutput::close() {
+bool srcMLOutput::close() {
+
+    bool complete = true;
 
     if (xout) {
 
         if (didwrite)
             xmlTextWriterEndDocument(xout);
+        complete = output_buffer_finish(output_buffer);
         xmlFreeTextWriter(xout);
         xout = 0;
         output_buffer = 0;
 
     } else if (output_buffer) {
 
+        complete = output_buffer_finish(output_buffer);
         xmlOutputBufferClose(output_buffer);
         output_buffer = 0;
     }
+
+    return complete;
 }
 
 void srcMLOutput::outputUnitSeparator() {
diff --git a/src/parser/srcMLOutput.hpp b/src/parser/srcMLOutput.hpp
index b8f49b3..05577d4 100644
--- a/src/parser/srcMLOutput.hpp
+++ b/src/parser/srcMLOutput.hpp
@@ -114,7 +114,8 @@ public:
                  const char* unit_version, const char* unit_timestamp, const char* unit_hash, const char* encoding);
 
     // close the output
-    void close();
+    // returns if everything was written
+    bool close();
 
     // destructor
     ~srcMLOutput();
-- 
2.43.0


From fa123774a73cd3990512c28d38ae6f7525573551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 40/87] fix: a source that cannot be read completely, or is not
 valid in its encoding, is an error that leaves the unit as it was

---
 src/libsrcml/srcml_unit.cpp   | 49 +++++++++++++++++++++-------
 src/parser/UTF8CharBuffer.cpp | 61 ++++++++++++++++++++++++++++-------
 src/parser/UTF8CharBuffer.hpp | 13 +++++++-
 3 files changed, 99 insertions(+), 24 deletions(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 7f1968e..7ca12cb 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -24,6 +24,7 @@
 #include <srcml_sax2_reader.hpp>
 #include <UTF8CharBuffer.hpp>
 #include <memory>
+#include <tuple>
 #include <libxml2_utilities.hpp>
 #include <unit_utilities.hpp>
 #include <cstring>
@@ -477,34 +478,42 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
     if (lang == SRCML_LANGUAGE_NONE)
         return SRCML_STATUS_UNSET_LANGUAGE;
 
-    unit->derived_language = lang;
-
     const char* src_encoding = optional_to_c_str(unit->encoding, optional_to_c_str(unit->archive->src_encoding));
 
     // verify encoding here instead of later, when more difficult to handle errors
     if (src_encoding) {
         auto ic = iconv_open("UTF-8", src_encoding);
         if (ic == (iconv_t) -1) {
-            if (errno == EINVAL) {
-                fprintf(stderr, "srcml: Conversion from encoding '%s' not supported\n", src_encoding);
-                return SRCML_STATUS_INVALID_ARGUMENT;
-            }
+            fprintf(stderr, "srcml: Conversion from encoding '%s' not supported\n", src_encoding);
+            return SRCML_STATUS_INVALID_ARGUMENT;
         }
         iconv_close(ic);
     }
 
     bool output_hash = (unit->archive->options & SRCML_OPTION_HASH) != 0;
 
+    // when the parse fails, the unit is left as it was
+    const auto previous = std::make_tuple(unit->derived_language, unit->hash, unit->namespaces, unit->encoding, unit->url);
+    const auto restore = [&]() {
+        std::tie(unit->derived_language, unit->hash, unit->namespaces, unit->encoding, unit->url) = previous;
+    };
+
+    unit->derived_language = lang;
+
     // results of a previous parse into this unit do not carry over
     unit->hash = boost::none;
     unit->namespaces = boost::none;
 
-    UTF8CharBuffer* input = 0;
+    std::unique_ptr<UTF8CharBuffer> input;
     try {
 
-        input = createUTF8CharBuffer(src_encoding, output_hash, unit->hash);
+        input.reset(createUTF8CharBuffer(src_encoding, output_hash, unit->hash));
+
+    } catch(...) {
 
-    } catch(...) { return SRCML_STATUS_IO_ERROR; }
+        restore();
+        return SRCML_STATUS_IO_ERROR;
+    }
 
     unit->encoding = input->getEncoding();
 
@@ -513,11 +522,27 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
 
     // create the unit start tag (start_unit and end_unit must be called together)
     int status = srcml_write_start_unit(unit);
-    if (status != SRCML_STATUS_OK)
+    if (status != SRCML_STATUS_OK) {
+        input.reset();
+        restore();
         return status;
+    }
 
-    // parse the input
-    unit->unit_translator->translate(input);
+    // parse the input, which is freed by the translator
+    bool input_error = false;
+    input->setErrorFlag(&input_error);
+    unit->unit_translator->translate(input.release());
+
+    // a unit of only part of the source code is of no use
+    if (input_error) {
+        unit->unit_translator->close();
+        delete unit->unit_translator;
+        unit->unit_translator = nullptr;
+        xmlBufferFree(unit->output_buffer);
+        unit->output_buffer = nullptr;
+        restore();
+        return SRCML_STATUS_IO_ERROR;
+    }
 
     // namespaces were updated during translation, may now include
     // namespaces that were optional
diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index 666c40f..1578897 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -159,6 +159,8 @@ UTF8CharBuffer::UTF8CharBuffer(const char* ifilename, const char* encoding, bool
 
     // read now, as for memory, so that any encoding from a BOM is known
     insize = readChars();
+    if (error)
+        throw UTF8FileError();
 }
 
 /**
@@ -188,6 +190,8 @@ UTF8CharBuffer::UTF8CharBuffer(const char* c_buffer, size_t buffer_size, const c
 
     // since we already have all the data, need to hash and perform encoding
     insize = readChars();
+    if (error)
+        throw UTF8FileError();
 }
 
 /**
@@ -218,6 +222,8 @@ UTF8CharBuffer::UTF8CharBuffer(FILE* file, const char* encoding, bool hashneeded
 
     // read now, as for memory, so that any encoding from a BOM is known
     insize = readChars();
+    if (error)
+        throw UTF8FileError();
 }
 
 /**
@@ -246,6 +252,8 @@ UTF8CharBuffer::UTF8CharBuffer(int fd, const char* encoding, bool hashneeded, bo
 
     // read now, as for memory, so that any encoding from a BOM is known
     insize = readChars();
+    if (error)
+        throw UTF8FileError();
 }
 
 /**
@@ -270,6 +278,24 @@ UTF8CharBuffer::UTF8CharBuffer(void* context, srcml_read_callback read_callback,
 
     // read now, as for memory, so that any encoding from a BOM is known
     insize = readChars();
+    if (error)
+        throw UTF8FileError();
+}
+
+/**
+ * failed
+ *
+ * Record that not all of the input could be read. Nothing more is read.
+ *
+ * @returns the number of characters read, i.e., none
+ */
+ssize_t UTF8CharBuffer::failed() {
+
+    error = true;
+    if (error_flag)
+        *error_flag = true;
+
+    return 0;
 }
 
 /**
@@ -279,6 +305,9 @@ UTF8CharBuffer::UTF8CharBuffer(void* context, srcml_read_callback read_callback,
  */
 ssize_t UTF8CharBuffer::readChars() {
 
+    if (error)
+        return 0;
+
     // read more data into raw (may already be data in there)
     if (insize == 0 || pos >= insize) {
 
@@ -288,21 +317,32 @@ ssize_t UTF8CharBuffer::readChars() {
         // use the provided callback
         // the entire input buffer may not be available because of incomplete multi-byte sequences
         // from a previous read
-        ssize_t insize = sio.read_callback ? (int) sio.read_callback(sio.context, raw.data() + inbytesleft, raw.size() - inbytesleft) : 0;
-        if (insize == -1) {
-            fprintf(stderr, "Error reading: %s", strerror(errno));
-            return 0;
+        ssize_t insize = sio.read_callback ? sio.read_callback(sio.context, raw.data() + inbytesleft, raw.size() - inbytesleft) : 0;
+        if (insize < 0) {
+            fprintf(stderr, "Error reading: %s\n", strerror(errno));
+            return failed();
         }
 
         // EOF
         if (insize == 0) {
+
+            // input ended inside of a multibyte sequence
+            if (inbytesleft) {
+                fprintf(stderr, "srcml: Incomplete character at the end of the source code\n");
+                return failed();
+            }
+
             return 0;
         }
 
         // the first read has to be long enough to detect any BOM
         while (firstRead && insize < 4) {
             ssize_t more = sio.read_callback(sio.context, raw.data() + insize, raw.size() - insize);
-            if (more <= 0)
+            if (more < 0) {
+                fprintf(stderr, "Error reading: %s\n", strerror(errno));
+                return failed();
+            }
+            if (more == 0)
                 break;
             insize += more;
         }
@@ -384,10 +424,9 @@ ssize_t UTF8CharBuffer::readChars() {
         // setup encoder from encoding to UTF-8
         ic = iconv_open("UTF-8", encoding.c_str());
         if (ic == (iconv_t) -1) {
-            if (errno == EINVAL) {
-                fprintf(stderr, "srcml: Conversion from encoding '%s' not supported\n\n", encoding.c_str());
-                return 0;
-            }
+            fprintf(stderr, "srcml: Conversion from encoding '%s' not supported\n\n", encoding.c_str());
+            ic = nullptr;
+            return failed();
         }
 
         // see if this encoding to UTF-8 is trivial, if so we can use raw characters directly
@@ -419,7 +458,7 @@ ssize_t UTF8CharBuffer::readChars() {
         // an incomplete multibyte sequence at the end of the input (EINVAL) is completed by the next read
         if (binsize == (size_t) -1 && errno != EINVAL) {
             fprintf(stderr, "%s\n", strerror(errno));
-            return 0;
+            return failed();
         }
 
         // number of bytes cooked is the total size minus the bytes that were "left", i.e., not used, by iconv()
@@ -515,7 +554,7 @@ const std::string& UTF8CharBuffer::getEncoding() const {
  * place in buffer if requested.
  */
 UTF8CharBuffer::~UTF8CharBuffer() {
-    if(sio.context) {
+    if(sio.context && sio.close_callback) {
         sio.close_callback(sio.context);
     }
 
diff --git a/src/parser/UTF8CharBuffer.hpp b/src/parser/UTF8CharBuffer.hpp
index 665efa4..e934357 100644
--- a/src/parser/UTF8CharBuffer.hpp
+++ b/src/parser/UTF8CharBuffer.hpp
@@ -122,6 +122,9 @@ public:
     // Get the used encoding
     const std::string& getEncoding() const;
 
+    // Flag to set when not all of the input can be read, since the buffer does not outlive the lexer
+    void setErrorFlag(bool* flag) { error_flag = flag; }
+
     int getLOC() { if (lastchar == '\n') return loc; else return loc + 1; }
 
     ~UTF8CharBuffer();
@@ -131,6 +134,8 @@ private:
 
     ssize_t readChars();
 
+    ssize_t failed();
+
     /* position currently at in input buffer */
     size_t pos = 0;
 
@@ -180,7 +185,13 @@ private:
     int trivial = false;
 
     /** contacts and callbacks for read and close */
-    srcMLIO sio;
+    srcMLIO sio = { nullptr, nullptr, nullptr };
+
+    /** not all of the input could be read */
+    bool error = false;
+
+    /** where to report that not all of the input could be read */
+    bool* error_flag = nullptr;
 
     /** first time reading data */
     bool firstRead = true;
-- 
2.43.0


From 93107c8758b1d99d69863f45dc4d3cc0ca2517b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:57 +0000
Subject: [PATCH 41/87] fix: an invalid XSLT program or RelaxNG schema is an
 error and does not terminate the program

---
 src/libsrcml/relaxngTransformation.cpp |  8 +++++---
 src/libsrcml/srcml_transform.cpp       | 15 +++++++++++++--
 src/libsrcml/xsltTransformation.cpp    | 22 +++++++++++++++-------
 3 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/libsrcml/relaxngTransformation.cpp b/src/libsrcml/relaxngTransformation.cpp
index fc9f286..7c57cc7 100644
--- a/src/libsrcml/relaxngTransformation.cpp
+++ b/src/libsrcml/relaxngTransformation.cpp
@@ -22,6 +22,8 @@
 
 #include <relaxngTransformation.hpp>
 
+#include <stdexcept>
+
 /**
  * relaxngTransformation
  * @param options list of srcML options
@@ -34,15 +36,15 @@ relaxngTransformation::relaxngTransformation(/* OPTION_TYPE& options, */ xmlDocP
 
     relaxng_parser_ctxt = decltype(relaxng_parser_ctxt)(xmlRelaxNGNewDocParserCtxt(relaxng));
     if (relaxng_parser_ctxt == nullptr)
-        throw;
+        throw std::runtime_error("Invalid RelaxNG schema");
 
     rng = decltype(rng)(xmlRelaxNGParse(relaxng_parser_ctxt.get()));
     if (rng == nullptr)
-        throw;
+        throw std::runtime_error("Invalid RelaxNG schema");
 
     rngctx = decltype(rngctx)(xmlRelaxNGNewValidCtxt(rng.get()));
     if (rngctx == nullptr)
-        throw;
+        throw std::runtime_error("Invalid RelaxNG schema");
 }
 
 /**
diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index c416342..76ddcd1 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -191,7 +191,14 @@ static int srcml_append_transform_xslt_internal(srcml_archive* archive, std::uni
     if (archive == NULL || doc == 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->transformations.push_back(std::unique_ptr<Transformation>(new xsltTransformation(doc.release(), std::vector<std::string>())));
+    try {
+
+        archive->transformations.push_back(std::make_shared<xsltTransformation>(doc.get(), std::vector<std::string>()));
+
+    } catch(...) { return SRCML_STATUS_INVALID_ARGUMENT; }
+
+    // the stylesheet now owns the document
+    doc.release();
 
     return SRCML_STATUS_OK;
 }
@@ -302,7 +309,11 @@ static int srcml_append_transform_relaxng_internal(srcml_archive* archive, xmlDo
     if (archive == NULL || doc == 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->transformations.push_back(std::unique_ptr<Transformation>(new relaxngTransformation(doc)));
+    try {
+
+        archive->transformations.push_back(std::make_shared<relaxngTransformation>(doc));
+
+    } catch(...) { return SRCML_STATUS_INVALID_ARGUMENT; }
 
     return SRCML_STATUS_OK;
 }
diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index 02a248d..e04ec2d 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -27,6 +27,8 @@
 
 #include <srcml_sax2_utilities.hpp>
 
+#include <stdexcept>
+
 #ifdef DLLOAD
 #include <dlfcn.h>
 #else
@@ -57,7 +59,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     libxslt_handle = dlopen_libxslt();
     if (!libxslt_handle) {
         fprintf(stderr, "Unable to open libxslt library\n");
-        throw;
+        throw std::runtime_error("Unable to open libxslt library");
     }
 
     char* error;
@@ -67,7 +69,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     if ((error = dlerror()) != NULL) {
         dlclose(libxslt_handle);
         libxslt_handle = 0;
-        throw;
+        throw std::runtime_error("Unable to load the XSLT library");
     }
 
     dlerror();
@@ -75,7 +77,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     if ((error = dlerror()) != NULL) {
         dlclose(libxslt_handle);
         libxslt_handle = 0;
-        throw;
+        throw std::runtime_error("Unable to load the XSLT library");
     }
 
     dlerror();
@@ -83,7 +85,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     if ((error = dlerror()) != NULL) {
         dlclose(libxslt_handle);
         libxslt_handle = 0;
-        throw;
+        throw std::runtime_error("Unable to load the XSLT library");
     }
 
     dlerror();
@@ -91,10 +93,16 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     if ((error = dlerror()) != NULL) {
         dlclose(libxslt_handle);
         libxslt_handle = 0;
-        throw;
+        throw std::runtime_error("Unable to load the XSLT library");
     }
 
     libexslt_handle = dlopen_libexslt();
+    if (!libexslt_handle) {
+        fprintf(stderr, "Unable to open libexslt library\n");
+        dlclose(libxslt_handle);
+        libxslt_handle = 0;
+        throw std::runtime_error("Unable to open libexslt library");
+    }
 
     // allow for all exslt functions
     typedef void (*exsltRegisterAll_t)();
@@ -103,7 +111,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     *(void **) (&exsltRegisterAll) = dlsym(libexslt_handle, "exsltRegisterAll");
     if ((error = dlerror()) != NULL) {
         dlclose(libexslt_handle);
-        throw;
+        throw std::runtime_error("Unable to load the XSLT library");
     }
 #endif
 
@@ -113,7 +121,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     // parse the stylesheet
     stylesheet = xsltParseStylesheetDoc(xslt);
     if (!stylesheet)
-        throw;
+        throw std::runtime_error("Invalid XSLT program");
 }
 
 /**
-- 
2.43.0


From 372d8d00220e61fcd47d8ebba2a46f3d798f1123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:02 +0000
Subject: [PATCH 42/87] fix: calls with a null argument or an index past the
 end return their error value

---
 src/libsrcml/srcml_archive.cpp   | 33 ++++++++++++++++++++------------
 src/libsrcml/srcml_transform.cpp | 23 +++++++++++++++++++++-
 2 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 2057f5c..a633cf3 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -302,6 +302,10 @@ int srcml_archive_set_options(struct srcml_archive* archive, size_t options) {
  * @param archive a srcml_archive
  */
 int srcml_archive_is_solitary_unit(const struct srcml_archive* archive) {
+
+    if (archive == nullptr)
+        return 0;
+
     return (archive->options & SRCML_OPTION_ARCHIVE) == 0;
 }
 
@@ -310,6 +314,9 @@ int srcml_archive_is_solitary_unit(const struct srcml_archive* archive) {
  */
 int srcml_archive_has_hash(const struct srcml_archive* archive) {
 
+    if (archive == nullptr)
+        return 0;
+
     return (archive->options & SRCML_OPTION_HASH) != 0;
 }
 
@@ -506,7 +513,7 @@ int srcml_archive_register_namespace(struct srcml_archive* archive, const char*
  */
 int srcml_archive_set_processing_instruction(struct srcml_archive* archive, const char* target, const char* data) {
 
-    if (archive == nullptr)
+    if (archive == nullptr || target == nullptr || data == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
     archive->processing_instruction = std::pair<std::string,std::string>(target, data);
@@ -694,7 +701,7 @@ const char* srcml_archive_get_namespace_prefix(const struct srcml_archive* archi
     if (archive == nullptr)
         return nullptr;
 
-    if (pos > archive->namespaces.size())
+    if (pos >= archive->namespaces.size())
         return nullptr;
 
     return archive->namespaces[pos].prefix.c_str();
@@ -765,6 +772,9 @@ const char* srcml_archive_get_uri_from_prefix(const struct srcml_archive* archiv
  */
 const char* srcml_archive_get_processing_instruction_target(const struct srcml_archive* archive) {
 
+    if (archive == nullptr)
+        return 0;
+
     return archive->processing_instruction ? archive->processing_instruction->first.c_str() : 0;
 }
 
@@ -776,6 +786,9 @@ const char* srcml_archive_get_processing_instruction_target(const struct srcml_a
  */
 const char* srcml_archive_get_processing_instruction_data(const struct srcml_archive* archive) {
 
+    if (archive == nullptr)
+        return 0;
+
     return archive->processing_instruction ?  archive->processing_instruction->second.c_str() : 0;
 }
 
@@ -803,7 +816,7 @@ const char* srcml_archive_get_macro_token(const struct srcml_archive* archive, s
     if (archive == nullptr)
         return 0;
 
-    if (pos * 2 >= archive->user_macro_list.size())
+    if (pos >= archive->user_macro_list.size() / 2)
         return 0;
 
     return archive->user_macro_list[pos * 2].c_str();
@@ -822,14 +835,10 @@ const char* srcml_archive_get_macro_token_type(const struct srcml_archive* archi
     if (archive == nullptr || token == nullptr)
         return 0;
 
-    try {
-
-        std::vector<std::string>::size_type user_macro_list_size = archive->user_macro_list.size() / 2;
-        for(std::vector<std::string>::size_type i = 0;  user_macro_list_size; ++i)
-            if (archive->user_macro_list.at(i * 2) == token)
-                return archive->user_macro_list.at(i * 2 + 1).c_str();
-
-    } catch(...) {}
+    std::vector<std::string>::size_type user_macro_list_size = archive->user_macro_list.size() / 2;
+    for(std::vector<std::string>::size_type i = 0; i < user_macro_list_size; ++i)
+        if (archive->user_macro_list[i * 2] == token)
+            return archive->user_macro_list[i * 2 + 1].c_str();
 
     return 0;
 }
@@ -847,7 +856,7 @@ const char* srcml_archive_get_macro_type(const struct srcml_archive* archive, si
     if (archive == nullptr)
         return 0;
 
-    if (pos * 2 + 1 >= archive->user_macro_list.size())
+    if (pos >= archive->user_macro_list.size() / 2)
         return 0;
 
     return archive->user_macro_list[pos * 2 + 1].c_str();
diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 76ddcd1..9e5089a 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -780,6 +780,9 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
  */
 int srcml_transform_free(struct srcml_transform_result* result) {
 
+    if (result == nullptr)
+        return SRCML_STATUS_INVALID_ARGUMENT;
+
     for (auto unit : result->units) {
         srcml_unit_free(unit);
     }
@@ -795,6 +798,9 @@ int srcml_transform_free(struct srcml_transform_result* result) {
  */
 LIBSRCML_DECL int srcml_transform_get_type(struct srcml_transform_result* result) {
 
+    if (result == nullptr)
+        return SRCML_RESULT_NONE;
+
     return result->type;
 }
 
@@ -804,6 +810,9 @@ LIBSRCML_DECL int srcml_transform_get_type(struct srcml_transform_result* result
  */
 int srcml_transform_get_unit_size(struct srcml_transform_result* result) {
 
+    if (result == nullptr)
+        return 0;
+
     // make sure correct result type
     if (result->type != SRCML_RESULT_UNITS)
        return 0;
@@ -818,11 +827,14 @@ int srcml_transform_get_unit_size(struct srcml_transform_result* result) {
  */
 struct srcml_unit* srcml_transform_get_unit(struct srcml_transform_result* result, int index) {
 
+    if (result == nullptr)
+        return 0;
+
     // make sure correct result type
     if (result->type != SRCML_RESULT_UNITS)
         return 0;
 
-    if (index >= (int) result->units.size())
+    if (index < 0 || index >= (int) result->units.size())
         return 0;
 
     return result->units[index];
@@ -834,6 +846,9 @@ struct srcml_unit* srcml_transform_get_unit(struct srcml_transform_result* resul
  */
 const char* srcml_transform_get_string(struct srcml_transform_result* result) {
 
+    if (result == nullptr)
+        return 0;
+
     // make sure correct result type
     if (result->type != SRCML_RESULT_STRING)
         return 0;
@@ -850,6 +865,9 @@ const char* srcml_transform_get_string(struct srcml_transform_result* result) {
  */
 double srcml_transform_get_number(struct srcml_transform_result* result) {
 
+    if (result == nullptr)
+        return 0;
+
     // make sure correct result type
     if (result->type != SRCML_RESULT_NUMBER)
         return 0;
@@ -866,6 +884,9 @@ double srcml_transform_get_number(struct srcml_transform_result* result) {
  */
 int srcml_transform_get_bool(struct srcml_transform_result* result) {
 
+    if (result == nullptr)
+        return -1;
+
     // make sure correct result type
     if (result->type != SRCML_RESULT_BOOLEAN)
         return -1;
-- 
2.43.0


From a99aae54ec94c9ea48c2ef653667bae4acac27b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:02 +0000
Subject: [PATCH 43/87] fix: an archive can be opened again after it is closed,
 and not while it is open

---
 src/libsrcml/srcml_archive.cpp | 83 ++++++++++++++++++++++++++++++----
 1 file changed, 73 insertions(+), 10 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index a633cf3..05a5931 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -99,14 +99,13 @@ const char* srcml_archive_error_string(const struct srcml_archive* archive) {
 }
 
 /**
- * srcml_archive_free
+ * srcml_archive_release
  * @param archive a srcml_archive
  *
- * Free a srcml archive that was previously
- * allocated by srcml_archive_create().
- * archive must be reallocated/re-created to use again.
+ * Release everything that belongs to the current input or output of the archive,
+ * so that the archive can be opened again.
  */
-void srcml_archive_free(struct srcml_archive* archive) {
+static void srcml_archive_release(struct srcml_archive* archive) {
 
     if (archive->translator) {
         delete archive->translator;
@@ -119,17 +118,37 @@ void srcml_archive_free(struct srcml_archive* archive) {
         archive->output_buffer = nullptr;
     }
 
-    if (archive->xbuffer)
+    if (archive->xbuffer) {
         xmlBufferFree(archive->xbuffer);
+        archive->xbuffer = nullptr;
+    }
 
     if (archive->reader) {
         delete archive->reader;
         archive->reader = nullptr;
     }
 
+    archive->buffer = nullptr;
+    archive->size = nullptr;
+    archive->rawwrites = false;
+    archive->type = SRCML_ARCHIVE_INVALID;
+}
+
+/**
+ * srcml_archive_free
+ * @param archive a srcml_archive
+ *
+ * Free a srcml archive that was previously
+ * allocated by srcml_archive_create().
+ * archive must be reallocated/re-created to use again.
+ */
+void srcml_archive_free(struct srcml_archive* archive) {
+
     if (archive == nullptr)
         return;
 
+    srcml_archive_release(archive);
+
     delete archive;
 }
 
@@ -940,6 +959,10 @@ int srcml_archive_write_open_filename(struct srcml_archive* archive, const char*
     if (archive == nullptr || srcml_filename == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    // an archive has to be closed before it is opened again
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     return srcml_archive_write_open_internal(archive, output_buffer_create_filename(srcml_filename, 0));
 }
 
@@ -960,6 +983,10 @@ int srcml_archive_write_open_memory(struct srcml_archive* archive, char** buffer
     if (archive == nullptr || buffer == nullptr || size == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    // an archive has to be closed before it is opened again
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     archive->buffer = buffer;
     archive->size = size;
 
@@ -983,6 +1010,10 @@ int srcml_archive_write_open_FILE(struct srcml_archive* archive, FILE* srcml_fil
     if (archive == nullptr || srcml_file == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    // an archive has to be closed before it is opened again
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     return srcml_archive_write_open_internal(archive, xmlOutputBufferCreateFile(srcml_file, 0));
 }
 
@@ -1001,6 +1032,10 @@ int srcml_archive_write_open_fd(struct srcml_archive* archive, int srcml_fd) {
     if (archive == nullptr || srcml_fd < 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    // an archive has to be closed before it is opened again
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     return srcml_archive_write_open_internal(archive, xmlOutputBufferCreateFd(srcml_fd, 0));
 }
 
@@ -1022,6 +1057,10 @@ int srcml_archive_write_open_io(struct srcml_archive* archive, void * context, i
     if (archive == nullptr || context == nullptr || write_callback == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    // an archive has to be closed before it is opened again
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     return srcml_archive_write_open_internal(archive, xmlOutputBufferCreateIO(write_callback, close_callback, context, 0));
 }
 
@@ -1073,6 +1112,10 @@ int srcml_archive_read_open_filename(struct srcml_archive* archive, const char*
     if (archive == nullptr || srcml_filename == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    // an archive has to be closed before it is opened again
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateFilename(srcml_filename, archive->encoding ? xmlParseCharEncoding(archive->encoding->c_str()) : XML_CHAR_ENCODING_NONE));
 
     return srcml_archive_read_open_internal(archive, std::move(input));
@@ -1094,6 +1137,10 @@ int srcml_archive_read_open_memory(struct srcml_archive* archive, const char* bu
     if (archive == nullptr || buffer == nullptr || buffer_size <= 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    // an archive has to be closed before it is opened again
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     xmlCharEncoding encoding = archive->encoding ? xmlParseCharEncoding(archive->encoding->c_str()) : XML_CHAR_ENCODING_NONE;
     std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateMem(buffer, (int)buffer_size, encoding));
 
@@ -1137,6 +1184,10 @@ int srcml_archive_read_open_FILE(struct srcml_archive* archive, FILE* srcml_file
     if (archive == nullptr || srcml_file == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    // an archive has to be closed before it is opened again
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateFile(srcml_file, archive->encoding ? xmlParseCharEncoding(archive->encoding->c_str()) : XML_CHAR_ENCODING_NONE));
 
     return srcml_archive_read_open_internal(archive, std::move(input));
@@ -1157,6 +1208,10 @@ int srcml_archive_read_open_fd(struct srcml_archive* archive, int srcml_fd) {
     if (archive == nullptr || srcml_fd < 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    // an archive has to be closed before it is opened again
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateFd(srcml_fd, archive->encoding ? xmlParseCharEncoding(archive->encoding->c_str()) : XML_CHAR_ENCODING_NONE));
 
     return srcml_archive_read_open_internal(archive, std::move(input));
@@ -1179,6 +1234,10 @@ int srcml_archive_read_open_io(struct srcml_archive* archive, void * context, in
     if (archive == nullptr || context == nullptr || read_callback == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    // an archive has to be closed before it is opened again
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateIO(read_callback, close_callback, context, archive->encoding ? xmlParseCharEncoding(archive->encoding->c_str()) : XML_CHAR_ENCODING_NONE));
 
     return srcml_archive_read_open_internal(archive, std::move(input));
@@ -1287,11 +1346,14 @@ struct srcml_unit* srcml_archive_read_unit(struct srcml_archive* archive) {
     if (!unit->read_header)
         not_done = archive->reader->read_header(unit.get());
 
+    // no further unit
+    if (!not_done)
+        return nullptr;
+
     archive->reader->read_body(unit.get());
 
-    if (!not_done || !unit->read_body) {
+    if (!unit->read_body)
         return nullptr;
-    }
 
     return unit.release();
 }
@@ -1331,7 +1393,7 @@ int srcml_archive_skip_unit(struct srcml_archive* archive) {
  ******************************************************************************/
 
 /**
- * 3bf7e136e0a6c7494c6f0030a5d0e42502989ae7
+ * srcml_archive_close
  * @param archive an open srcml archive
  *
  * Close a srcML archive opened using srcml_archive_read_open_*
@@ -1375,7 +1437,8 @@ int srcml_archive_close(struct srcml_archive* archive) {
         (*archive->buffer) = (char *) xmlBufferDetach(archive->xbuffer);
     }
 
-    archive->type = SRCML_ARCHIVE_INVALID;
+    // the archive can now be reopened
+    srcml_archive_release(archive);
 
     return status;
 }
-- 
2.43.0


From d98fdaa1091d485e0b1a23f839320be4a947b6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:43 +0000
Subject: [PATCH 44/87] fix: attributes of units and archives keep their
 namespace prefix when read

---
 src/libsrcml/srcml_reader_handler.hpp |  2 +-
 src/libsrcml/unit_utilities.cpp       | 17 ++++++++++++++++-
 src/libsrcml/unit_utilities.hpp       |  3 +++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 0164919..f43adef 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -258,7 +258,7 @@ public :
 
         // collect attributes
         for (int pos = 0; pos < num_attributes; ++pos) {
-            std::string attribute = (const char*) attributes[pos * 5];
+            std::string attribute = sax2_attribute_name(attributes, pos);
             std::string value = sax2_value(attributes[pos * 5 + 3], attributes[pos * 5 + 4]);
 
             // Note: these are ignore instead of placing in attributes.
diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index a780b60..1043db6 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -22,6 +22,8 @@
 
 #include <unit_utilities.hpp>
 #include <libxml/parserInternals.h>
+#include <srcmlns.hpp>
+#include <cstring>
 #include <stack>
 
 // Value of a SAX2 attribute, where libxml2 leaves an ampersand as the character reference &#38;
@@ -36,6 +38,19 @@ std::string sax2_value(const xmlChar* begin, const xmlChar* end) {
     return value;
 }
 
+// Name of a SAX2 attribute, with the prefix unless it is in a namespace of srcML
+std::string sax2_attribute_name(const xmlChar** attributes, int pos) {
+
+    auto localname = (const char*) attributes[pos * 5];
+    auto prefix = (const char*) attributes[pos * 5 + 1];
+    auto uri = (const char*) attributes[pos * 5 + 2];
+
+    if (!prefix || (uri && (strcmp(uri, SRCML_SRC_NS_URI) == 0 || strcmp(uri, SRCML_POSITION_NS_URI) == 0)))
+        return localname;
+
+    return std::string(prefix) + ':' + localname;
+}
+
 // Find an attribute in a start tag
 bool find_attribute(const std::string& tag, const std::string& name, size_t& begin, size_t& end) {
 
@@ -76,7 +91,7 @@ void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar*
     // collect attributes
     for (int pos = 0; pos < num_attributes; ++pos) {
 
-        std::string attribute = (const char*) attributes[pos * 5];
+        std::string attribute = sax2_attribute_name(attributes, pos);
         std::string value = sax2_value(attributes[pos * 5 + 3], attributes[pos * 5 + 4]);
 
         if (attribute == "timestamp")
diff --git a/src/libsrcml/unit_utilities.hpp b/src/libsrcml/unit_utilities.hpp
index b586208..8c8731e 100644
--- a/src/libsrcml/unit_utilities.hpp
+++ b/src/libsrcml/unit_utilities.hpp
@@ -30,6 +30,9 @@
 // Value of a SAX2 attribute or namespace
 std::string sax2_value(const xmlChar* begin, const xmlChar* end);
 
+// Name of a SAX2 attribute, with the prefix unless it is in a namespace of srcML
+std::string sax2_attribute_name(const xmlChar** attributes, int pos);
+
 // Find an attribute in a start tag. A name of "xmlns" is for any namespace declaration
 // Begins before the whitespace that precedes the name, and ends after the closing quote
 bool find_attribute(const std::string& tag, const std::string& name, size_t& begin, size_t& end);
-- 
2.43.0


From b1aa30d4377d54824dace6e72d7acdb8f223c40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:43 +0000
Subject: [PATCH 45/87] fix: string parameter of a transformation may have
 quotes

---
 src/libsrcml/srcml_transform.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 9e5089a..3dcf0aa 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -450,9 +450,21 @@ int srcml_append_transform_stringparam(srcml_archive* archive, const char* xpath
 
     archive->transformations.back()->xsl_parameters.push_back(xpath_param_name);
 
-    std::string parenvalue = "\"";
-    parenvalue += xpath_param_value;
-    parenvalue += "\"";
+    // a value with quotes in it is a concatenation of string literals
+    std::string value = xpath_param_value;
+    std::string parenvalue;
+    if (value.find('"') == std::string::npos) {
+        parenvalue = "\"" + value + "\"";
+    } else {
+        parenvalue = "concat(\"";
+        for (auto c : value) {
+            if (c == '"')
+                parenvalue += "\",'\"',\"";
+            else
+                parenvalue += c;
+        }
+        parenvalue += "\")";
+    }
 
     archive->transformations.back()->xsl_parameters.push_back(parenvalue);
 
-- 
2.43.0


From caa1128ac9f5cf5bce0028f861653c5cea169cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:43 +0000
Subject: [PATCH 46/87] fix: srcml client reports a transformation that fails

---
 src/client/srcml_consume.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/client/srcml_consume.cpp b/src/client/srcml_consume.cpp
index 4f6d7e9..8eb4db2 100644
--- a/src/client/srcml_consume.cpp
+++ b/src/client/srcml_consume.cpp
@@ -124,7 +124,13 @@ void srcml_consume(int /* thread_pool_id */, std::shared_ptr<ParseRequest> reque
     request->runtime = parsetime.cpu_time_elapsed();
 
     // perform any transformations and add them to the request
-    srcml_unit_apply_transforms(request->srcml_arch, request->unit.get(), &(request->results));
+    request->status = srcml_unit_apply_transforms(request->srcml_arch, request->unit.get(), &(request->results));
+    if (request->status != SRCML_STATUS_OK) {
+        request->errormsg = "srcml: Unable to transform " + original_filename;
+        request->unit.reset();
+        write_queue->schedule(request);
+        return;
+    }
     if (request->results && srcml_transform_get_type(request->results) == SRCML_RESULT_NONE) {
         request->unit.reset();
     }
-- 
2.43.0


From 36bcdfc774cb9aabad18cd8849ed89041d2cd90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:43 +0000
Subject: [PATCH 47/87] fix: XSLT programs of other archives work after one is
 released

---
 src/libsrcml/xsltTransformation.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index e04ec2d..2468a41 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -27,6 +27,7 @@
 
 #include <srcml_sax2_utilities.hpp>
 
+#include <atomic>
 #include <stdexcept>
 
 #ifdef DLLOAD
@@ -43,6 +44,9 @@
 #include <io.h>
 #endif
 
+// number of current stylesheets
+static std::atomic<int> stylesheets(0);
+
 /**
  * xsltTransformation
  * @param options list of srcML options
@@ -122,6 +126,8 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     stylesheet = xsltParseStylesheetDoc(xslt);
     if (!stylesheet)
         throw std::runtime_error("Invalid XSLT program");
+
+    ++stylesheets;
 }
 
 /**
@@ -133,7 +139,9 @@ xsltTransformation::~xsltTransformation() {
 
     xsltFreeStylesheet(stylesheet);
 
-    xsltCleanupGlobals();
+    // other stylesheets still need the registered extensions
+    if (--stylesheets == 0)
+        xsltCleanupGlobals();
 
 #ifdef DLLOAD
     dlclose(libxslt_handle);
-- 
2.43.0


From 5927c5503213634dd78e3b7486f76177773ee463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:43 +0000
Subject: [PATCH 48/87] fix: results of transformations are those of each step
 on every result of the one before

Each result of a step is in a document of its own for the next step, instead of being
moved out of a shared document. No results for one of them does not drop those of the
others. Attributes and text are escaped, elements declare the namespaces they need, and a
result that is not a unit is not stripped of its root. Marks are only put on nodes that
can have them, with the attribute value appended to the previous one. A transformation
that cannot be applied is an error.
---
 src/libsrcml/Transformation.hpp        |  10 +-
 src/libsrcml/relaxngTransformation.cpp |   4 +-
 src/libsrcml/srcml_transform.cpp       | 259 +++++++++++++++----------
 src/libsrcml/xpathTransformation.cpp   | 121 ++++++++----
 src/libsrcml/xpathTransformation.hpp   |  20 +-
 src/libsrcml/xsltTransformation.cpp    |  34 ++--
 6 files changed, 280 insertions(+), 168 deletions(-)

diff --git a/src/libsrcml/Transformation.hpp b/src/libsrcml/Transformation.hpp
index 5c1385b..0a716e0 100644
--- a/src/libsrcml/Transformation.hpp
+++ b/src/libsrcml/Transformation.hpp
@@ -33,15 +33,15 @@
 #include <srcml.h>
 
 struct TransformationResult {
-    TransformationResult(xmlNodeSetPtr nodeset = nullptr, bool wrapped = false)
-        : nodeset(nodeset), unitWrapped(wrapped) {}
+    TransformationResult(xmlNodeSetPtr nodeset = nullptr)
+        : nodeset(nodeset) {}
     int nodeType = 0;
+    // document of the nodes, which has to outlive the nodeset
+    std::shared_ptr<xmlDoc> doc;
     std::unique_ptr<xmlNodeSet> nodeset;
     double numberValue = 0.0;
     bool boolValue = false;
     std::string stringValue;
-    bool unitWrapped = false;
-    std::shared_ptr<xmlDoc> doc;
 };
 
 /**
@@ -57,7 +57,7 @@ public :
      *
      * Apply transformation to doc, and returning new doc
      *
-     * @returns document on success, NULL on failure.
+     * @returns result of the transformation, throws an exception on failure
      */
     virtual TransformationResult apply(xmlDocPtr doc, int position) const = 0;
 
diff --git a/src/libsrcml/relaxngTransformation.cpp b/src/libsrcml/relaxngTransformation.cpp
index 7c57cc7..6b15faa 100644
--- a/src/libsrcml/relaxngTransformation.cpp
+++ b/src/libsrcml/relaxngTransformation.cpp
@@ -61,8 +61,8 @@ TransformationResult relaxngTransformation::relaxngTransformation::apply(xmlDocP
     if (n != 0)
         return TransformationResult();
 
-    // transformation result is nodeset with single unit, and the unit is wrapped
-    TransformationResult result(xmlXPathNodeSetCreate(xmlDocGetRootElement(doc)), true);
+    // transformation result is nodeset with single unit
+    TransformationResult result(xmlXPathNodeSetCreate(xmlDocGetRootElement(doc)));
     result.nodeType = SRCML_RESULT_UNITS;
     return result;
 }
diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 3dcf0aa..8770667 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -135,12 +135,9 @@ int srcml_append_transform_xpath_attribute(struct srcml_archive* archive, const
     // attribute for a previous Xpath where the attribute is blank is appended on
     if (!archive->transformations.empty()) {
         auto p = dynamic_cast<xpathTransformation*>(archive->transformations.back().get());
-        if (p && p->xpath == xpath_string && p->attr_prefix.empty() && p->attr_uri.empty() && p->attr_name.empty() && p->attr_value.empty()) {
+        if (p && p->xpath == xpath_string && !p->element.empty() && p->attr_prefix.empty() && p->attr_uri.empty() && p->attr_name.empty() && p->attr_value.empty()) {
 
-            p->attr_prefix = prefix;
-            p->attr_uri = namespace_uri;
-            p->attr_name = attr_name;
-            p->attr_value = attr_value;
+            p->set_attribute(prefix, namespace_uri, attr_name, attr_value);
 
             return SRCML_STATUS_OK;
         }
@@ -516,6 +513,70 @@ static bool usesURI(xmlNode* cur_node, const std::string& URI) {
     return usesURIChildren(cur_node->children, URI);
 }
 
+/**
+ * createDocument
+ * @param node an element, possibly deep inside of another document
+ * @param root root element of the original unit
+ *
+ * Create a new document with a copy of the element as the root
+ * Namespaces of the original unit are in scope
+ *
+ * @returns Returns the document, or null on failure
+ */
+static std::shared_ptr<xmlDoc> createDocument(xmlNodePtr node, xmlNodePtr root) {
+
+    std::shared_ptr<xmlDoc> doc(xmlNewDoc(BAD_CAST "1.0"), [](xmlDoc* doc) { xmlFreeDoc(doc); });
+    if (doc == nullptr)
+        return nullptr;
+
+    // copy declares the used namespaces
+    xmlNodePtr element = xmlDocCopyNode(node, doc.get(), 1);
+    if (element == nullptr)
+        return nullptr;
+    xmlDocSetRootElement(doc.get(), element);
+
+    for (auto ns = root->nsDef; ns; ns = ns->next) {
+        if (!xmlSearchNs(doc.get(), element, ns->prefix))
+            xmlNewNs(element, ns->href, ns->prefix);
+    }
+
+    return doc;
+}
+
+/**
+ * removeDeclarations
+ * @param doc document
+ * @param root root element of the original unit
+ *
+ * Remove the declarations of the namespaces of the original unit from the root element
+ * Document still owns these namespaces
+ */
+static void removeDeclarations(xmlDocPtr doc, xmlNodePtr root) {
+
+    // owned namespaces start with the xml namespace
+    xmlNodePtr element = xmlDocGetRootElement(doc);
+    auto last = xmlSearchNs(doc, element, BAD_CAST "xml");
+    if (last == nullptr)
+        return;
+
+    for (auto p = &element->nsDef; *p;) {
+
+        auto ns = root->nsDef;
+        while (ns && !(xmlStrEqual(ns->prefix, (*p)->prefix) && xmlStrEqual(ns->href, (*p)->href)))
+            ns = ns->next;
+
+        if (!ns) {
+            p = &(*p)->next;
+            continue;
+        }
+
+        last->next = *p;
+        last = *p;
+        *p = last->next;
+        last->next = nullptr;
+    }
+}
+
 /**
  * srcml_unit_apply_transforms
  * @param iarchive an input srcml archive
@@ -536,13 +597,8 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
     if (archive->transformations.empty())
         return SRCML_STATUS_OK;
 
-    srcml_transform_result* result = nullptr;
-    if (presult) {
-        *presult = new srcml_transform_result;
-        result = *presult;
-        result->type = SRCML_RESULT_NONE;
-        result->boolValue = false;
-    }
+    if (presult)
+        *presult = nullptr;
 
     // create a DOM of the unit
     std::shared_ptr<xmlDoc> doc(xmlReadMemory(unit->srcml.c_str(), (int) unit->srcml.size(), 0, 0, 0), [](xmlDoc* doc) { xmlFreeDoc(doc); });
@@ -550,102 +606,118 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         return SRCML_STATUS_ERROR;
 
     // apply transformations sequentially on the results from the previous transformation
-    std::unique_ptr<xmlNodeSet> fullresults(xmlXPathNodeSetCreate(xmlDocGetRootElement(doc.get())));
-    if (fullresults == nullptr)
-        return SRCML_STATUS_ERROR;
+    // each of these results is in a document of its own
+    std::vector<std::shared_ptr<xmlDoc>> docs{ doc };
 
-    // final result of all applied transformations
-    TransformationResult lastresult;
-    std::shared_ptr<xmlDoc> curdoc(doc);
+    // results of the last applied transformation, one for each document
+    std::vector<TransformationResult> lastresults;
     for (const auto& trans : archive->transformations) {
 
-        // preserve the fullresults to iterate through
-        // collect results from this transformation applied to the potentially multiple
-        // results of the previous transformation step
-        std::unique_ptr<xmlNodeSet> pr(xmlXPathNodeSetCreate(0));
-        if (pr == nullptr)
-            return SRCML_STATUS_ERROR;
-        fullresults.swap(pr);
+        // documents for the element results of the previous transformation
+        if (!lastresults.empty()) {
+            docs.clear();
+            for (const auto& previous : lastresults) {
+                for (int i = 0; previous.nodeset && i < previous.nodeset->nodeNr; ++i) {
 
-        for (int i = 0; i < pr->nodeNr; ++i) {
+                    if (previous.nodeset->nodeTab[i]->type != XML_ELEMENT_NODE)
+                        continue;
+
+                    auto newdoc = createDocument(previous.nodeset->nodeTab[i], xmlDocGetRootElement(doc.get()));
+                    if (newdoc == nullptr)
+                        return SRCML_STATUS_ERROR;
+                    docs.push_back(newdoc);
+                }
+            }
+        }
 
-            xmlDocSetRootElement(curdoc.get(), pr->nodeTab[i]);
+        // apply the transformation to each of the documents
+        lastresults.clear();
+        for (const auto& curdoc : docs) {
 
-            lastresult = trans->apply(curdoc.get(), 0);
-            std::unique_ptr<xmlNodeSet> results(std::move(lastresult.nodeset));
-            if (results == nullptr)
-                break;
+            try {
 
-            xmlXPathNodeSetMerge(fullresults.get(), results.get());
-        }
+                lastresults.push_back(trans->apply(curdoc.get(), 0));
 
-        // necessary to avoid access to free'd memory later on
-        // does NOT cause a memory leak
-        pr->nodeNr = 0;
+            } catch (...) { return SRCML_STATUS_ERROR; }
 
-        // result of the transformation may be a new doc
-        if (lastresult.doc && lastresult.doc.get() != doc.get()) {
-            curdoc = lastresult.doc;
+            // result is in the document it was applied to, unless it is in a new one
+            if (!lastresults.back().doc)
+                lastresults.back().doc = curdoc;
         }
 
         // if there are no results, then we can't apply further transformations
         // but there still might be results in the scalar values
-        if (fullresults->nodeNr == 0) {
-            result->units.clear();
+        if (std::none_of(lastresults.begin(), lastresults.end(), [](const TransformationResult& result) {
+            return result.nodeset && result.nodeset->nodeNr > 0;
+        }))
             break;
-        }
     }
 
-    if (result) {
-        result->type = lastresult.nodeType;
-    }
+    // the nodes are the result, and when there are none the first scalar value
+    std::vector<xmlNodePtr> nodes;
+    const TransformationResult* scalar = nullptr;
+    for (const auto& lastresult : lastresults) {
+
+        for (int i = 0; lastresult.nodeset && i < lastresult.nodeset->nodeNr; ++i)
+            nodes.push_back(lastresult.nodeset->nodeTab[i]);
 
-    if (lastresult.nodeType != SRCML_RESULT_UNITS) {
-        // remove all nodes in the fullresults nodeset
-        // valgrind shows free accessing these nodes after they have been freed
-        // by the xmlDoc
-        fullresults->nodeNr = 0;
+        if (!scalar && lastresult.nodeType != SRCML_RESULT_UNITS && lastresult.nodeType != SRCML_RESULT_NONE)
+            scalar = &lastresult;
     }
+    int type = !nodes.empty() ? (int) SRCML_RESULT_UNITS : scalar ? scalar->nodeType : (int) SRCML_RESULT_NONE;
+
+    // nowhere to put the result
+    if (!presult)
+        return nodes.empty() && scalar ? SRCML_STATUS_ERROR : SRCML_STATUS_OK;
+
+    auto result = new srcml_transform_result;
+    *presult = result;
+    result->type = type;
+    result->boolValue = false;
 
     // handle non-nodeset results
-    switch (lastresult.nodeType) {
+    switch (type) {
     case SRCML_RESULT_STRING:
-        if (result != nullptr) {
-            result->stringValue = lastresult.stringValue;
-            return SRCML_STATUS_OK;
-        }
-        return SRCML_STATUS_ERROR;
+        result->stringValue = scalar->stringValue;
+        return SRCML_STATUS_OK;
 
     case SRCML_RESULT_BOOLEAN:
-        if (result != nullptr) {
-            result->boolValue = lastresult.boolValue;
-            return SRCML_STATUS_OK;
-        }
-        return SRCML_STATUS_ERROR;
+        result->boolValue = scalar->boolValue;
+        return SRCML_STATUS_OK;
 
     case SRCML_RESULT_NUMBER:
-        if (result != nullptr) {
-            result->numberValue = lastresult.numberValue;
-            return SRCML_STATUS_OK;
-        }
-        return SRCML_STATUS_ERROR;
-    };
+        result->numberValue = scalar->numberValue;
+        return SRCML_STATUS_OK;
 
-    if (result == nullptr) {
+    case SRCML_RESULT_NONE:
         return SRCML_STATUS_OK;
-    }
+    };
 
     // create units out of the transformation results
-    result->type = lastresult.nodeType;
+    int item = 0;
+    for (auto node : nodes) {
+
+        ++item;
 
-    for (int i = 0; i < fullresults->nodeNr; ++i) {
+        // result may be a complete unit
+        bool unitWrapped = node->type == XML_ELEMENT_NODE && strcmp((const char*) node->name, "unit") == 0;
+
+        // an element needs the namespaces that are in scope, except for those of the unit
+        std::shared_ptr<xmlDoc> elementdoc;
+        if (node->type == XML_ELEMENT_NODE && !unitWrapped) {
+            elementdoc = createDocument(node, xmlDocGetRootElement(doc.get()));
+            if (elementdoc) {
+                removeDeclarations(elementdoc.get(), xmlDocGetRootElement(doc.get()));
+                node = xmlDocGetRootElement(elementdoc.get());
+            }
+        }
 
         // create a new unit to store the results in
         auto nunit = srcml_unit_clone(unit);
         nunit->read_body = nunit->read_header = true;
-        if (!lastresult.unitWrapped) {
+        if (!unitWrapped) {
             nunit->attributes.push_back("item");
-            nunit->attributes.push_back(std::to_string(i + 1));
+            nunit->attributes.push_back(std::to_string(item));
             nunit->hash = boost::none;
         }
 
@@ -665,26 +737,20 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         }
 
         // special cases where the nodes are not written to the tree
-        switch (fullresults->nodeTab[i]->type) {
-        case XML_COMMENT_NODE:
-
-            nunit->srcml.assign("<!--");
-            nunit->srcml.append((const char*) fullresults->nodeTab[i]->content);
-            nunit->srcml.append("-->");
-            break;
-
-        case XML_TEXT_NODE:
-
-            nunit->srcml.append((const char*) fullresults->nodeTab[i]->content);
-            break;
-
+        switch (node->type) {
         case XML_ATTRIBUTE_NODE:
+        {
+            // escaped value, which may be empty
+            std::unique_ptr<xmlChar, void (*)(void*)> value(xmlNodeListGetString(node->doc, node->children, 1), xmlFree);
+            std::unique_ptr<xmlChar, void (*)(void*)> escaped(value ? xmlEncodeSpecialChars(node->doc, value.get()) : nullptr, xmlFree);
 
-            nunit->srcml.append((const char*) fullresults->nodeTab[i]->name);
+            nunit->srcml.append((const char*) node->name);
             nunit->srcml.append("=\"");
-            nunit->srcml.append((const char*) fullresults->nodeTab[i]->children->content);
+            if (escaped)
+                nunit->srcml.append((const char*) escaped.get());
             nunit->srcml.append("\"");
             break;
+        }
 
         default:
 
@@ -696,14 +762,14 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
                 return len;
 
             }, 0, &(nunit->srcml), 0);
-            xmlNodeDumpOutput(output, curdoc.get(), fullresults->nodeTab[i], 0, 0, 0);
+            xmlNodeDumpOutput(output, node->doc, node, 0, 0, 0);
 
             // very important to flush to make sure the unit contents are all present
             // also performs a free of resources
             xmlOutputBufferClose(output);
 
             // update the cpp namespace if actually used
-            if (usesURI(fullresults->nodeTab[i], SRCML_CPP_NS_URI)) {
+            if (usesURI(node, SRCML_CPP_NS_URI)) {
 
                 if (itcpp != view.end()) {
                     view.modify(itcpp, [](Namespace& thisns){ thisns.flags |= NS_USED; });
@@ -713,7 +779,7 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
             }
 
             // update the openmp namespace if actually used
-            if (usesURI(fullresults->nodeTab[i], SRCML_OPENMP_NS_URI)) {
+            if (usesURI(node, SRCML_OPENMP_NS_URI)) {
 
                 if (itomp != view.end()) {
                     view.modify(itomp, [](Namespace& thisns){ thisns.flags |= NS_USED; });
@@ -726,13 +792,13 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         }
 
         // mark inside the units
-        nunit->content_begin = lastresult.unitWrapped ? (int) nunit->srcml.find_first_of('>') + 1 : 0;
-        nunit->content_end =   lastresult.unitWrapped ? (int) nunit->srcml.find_last_of('<') + 1  : (int) nunit->srcml.size() + 1;
+        nunit->content_begin = unitWrapped ? (int) nunit->srcml.find_first_of('>') + 1 : 0;
+        nunit->content_end =   unitWrapped ? (int) nunit->srcml.find_last_of('<') + 1  : (int) nunit->srcml.size() + 1;
         nunit->insert_begin = 0;
         nunit->insert_end = 0;
 
         // update the unit attributes with the transformed result based on the root tag
-        if (lastresult.unitWrapped) {
+        if (unitWrapped) {
             xmlSAXHandler roottagsax;
             memset(&roottagsax, 0, sizeof(roottagsax));
             roottagsax.initialized    = XML_SAX2_MAGIC;
@@ -777,11 +843,6 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         result->units.push_back(nunit);
     }
 
-    // remove all nodes in the fullresults nodeset
-    // valgrind shows free accessing these nodes after they have been freed
-    // by the xmlDoc
-    fullresults->nodeNr = 0;
-
     return SRCML_STATUS_OK;
 }
 
diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index cbaf66b..e4746f1 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -40,6 +40,7 @@
 #include <srcml_sax2_utilities.hpp>
 #include <libxml2_utilities.hpp>
 #include <memory>
+#include <stdexcept>
 
 const char* const xpathTransformation::simple_xpath_attribute_name = "location";
 
@@ -63,19 +64,17 @@ const char* const xpathTransformation::simple_xpath_attribute_name = "location";
 xpathTransformation::xpathTransformation(srcml_archive* oarchive, const char* xpath,
                         const char* element_prefix, const char* element_uri, const char* element,
                         const char* attr_prefix, const char* attr_uri, const char* attr_name, const char* attr_value)
-    : xpath(xpath), prefix(stringOrNull(element_prefix)), uri(stringOrNull(element_uri)), element(stringOrNull(element)), attr_prefix(stringOrNull(attr_prefix)), attr_uri(stringOrNull(attr_uri)), attr_name(stringOrNull(attr_name)), attr_value(stringOrNull(attr_value)) {
+    : xpath(xpath), prefix(stringOrNull(element_prefix)), uri(stringOrNull(element_uri)), element(stringOrNull(element)) {
 
     // compile the xpath expression
     // errors will show up when it is first used
     compiled_xpath = xmlXPathCompile(BAD_CAST xpath);
 
     // create a namespace for the new attribute (if needed)
-    if (attr_uri) {
-        attr_ns = xmlNewNs(NULL, (const xmlChar *) attr_uri, (const xmlChar *) attr_prefix);
-    }
+    set_attribute(attr_prefix, attr_uri, attr_name, attr_value);
 
     // create a namespace for the new element (if needed)
-    if (element_uri) {
+    if (element_uri && !prefix.empty()) {
         element_ns = xmlNewNs(NULL, (const xmlChar*) uri.c_str(), (const xmlChar*) prefix.c_str());
     }
 
@@ -157,32 +156,54 @@ int xpathTransformation::child_offset(xmlNodePtr root_result_node) {
     return child_count;
 }
 
+/**
+ * set_attribute
+ * @param prefix an attribute namepace prefix
+ * @param uri an attribute namepace uri
+ * @param name the attribute name
+ * @param value the attribute value
+ *
+ * Set the attribute to add.
+ */
+void xpathTransformation::set_attribute(const char* prefix, const char* uri, const char* name, const char* value) {
+
+    attr_prefix = stringOrNull(prefix);
+    attr_uri = stringOrNull(uri);
+    attr_name = stringOrNull(name);
+    attr_value = stringOrNull(value);
+
+    // create a namespace for the new attribute (if needed)
+    if (attr_ns)
+        xmlFreeNs(attr_ns);
+    attr_ns = uri && !attr_prefix.empty() ? xmlNewNs(NULL, BAD_CAST attr_uri.c_str(), BAD_CAST attr_prefix.c_str()) : nullptr;
+}
+
 /**
  * append_attribute_to_node
  * @param node an xmlNode to append the attribute
- * @param attr_name the attribute name
- * @param attr_value the attribute value
  *
- * Append an attribute to the given node.  Only the prefix and uri can vary.  The
- * rest are the same throughout all calls and are part of the class.
+ * Append the attribute to the given node.
  */
-void xpathTransformation::append_attribute_to_node(xmlNodePtr node, const char* attr_prefix, const char* attr_uri) const {
+void xpathTransformation::append_attribute_to_node(xmlNodePtr node) const {
+
+    // only elements have attributes
+    if (node->type != XML_ELEMENT_NODE)
+        return;
 
     // grab current value
-    const char* value = (char*) xmlGetNsProp(node, BAD_CAST attr_name.c_str(), BAD_CAST attr_uri);
-    const char* newvalue = attr_value.c_str();
+    std::unique_ptr<xmlChar, void (*)(void*)> value(attr_ns ? xmlGetNsProp(node, BAD_CAST attr_name.c_str(), attr_ns->href) :
+        xmlGetNoNsProp(node, BAD_CAST attr_name.c_str()), xmlFree);
 
     // previous property
-    std::string curvalue;
-    if (value && strcmp(value, newvalue)) {
+    std::string newvalue = attr_value;
+    if (value && attr_value != (const char*) value.get()) {
 
-        curvalue = value;
-        curvalue += ' ';
-        curvalue += attr_value;
-        newvalue = curvalue.c_str();
+        newvalue = (const char*) value.get();
+        newvalue += ' ';
+        newvalue += attr_value;
     }
 
-    xmlNewNsProp(node, attr_ns, (const xmlChar *) attr_name.c_str(), (const xmlChar *) newvalue);
+    xmlSetNsProp(node, attr_ns, BAD_CAST attr_name.c_str(), BAD_CAST newvalue.c_str());
 }
 
 xmlXPathContextPtr xpathTransformation::createContext(xmlDocPtr doc) const {
@@ -259,7 +280,7 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
     std::unique_ptr<xmlXPathContext> context(createContext(doc));
     if (!context) {
         fprintf(stderr, "%s: Error in executing xpath\n", "libsrcml");
-        return TransformationResult();
+        throw std::runtime_error("Error in executing xpath");
     }
 
     // register standard prefixes for standard namespaces
@@ -276,20 +297,19 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
     }
 
     // register prefixes from the doc
-    for (auto p = doc->children->nsDef; p; p = p->next) {
+    for (auto p = xmlDocGetRootElement(doc)->nsDef; p; p = p->next) {
 
         xmlXPathRegisterNs(context.get(), p->prefix, p->href);
     }
 
     // evaluate the xpath
-    std::unique_ptr<xmlXPathObject> result_nodes(xmlXPathCompiledEval(compiled_xpath, context.get()));
+    std::unique_ptr<xmlXPathObject> result_nodes(compiled_xpath ? xmlXPathCompiledEval(compiled_xpath, context.get()) : nullptr);
     if (!result_nodes) {
         fprintf(stderr, "%s: Error in executing xpath\n", "libsrcml");
-        return TransformationResult();
+        throw std::runtime_error("Error in executing xpath");
     }
 
     TransformationResult tresult;
-    tresult.unitWrapped = false;
 
     // xpath evaluation produces a nodeset result, even if there are no results
     tresult.nodeType = result_nodes->type == XPATH_NODESET && (result_nodes->nodesetval == nullptr || result_nodes->nodesetval->nodeNr == 0)? 0 : result_nodes->type;
@@ -312,8 +332,8 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
     if (!element.empty()) {
 
         addElementXPathResults(doc, result_nodes.get());
+        declareNamespaces(doc);
 
-        tresult.unitWrapped = true;
         tresult.nodeType = SRCML_RESULT_UNITS;
         tresult.nodeset.reset(xmlXPathNodeSetCreate(xmlDocGetRootElement(doc)));
 
@@ -327,10 +347,11 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
 
                 xmlNodePtr onode = result_nodes->nodesetval->nodeTab[i];
 
-                append_attribute_to_node(onode, attr_prefix.c_str(), attr_value.c_str());
+                append_attribute_to_node(onode);
             }
         }
-        tresult.unitWrapped = true;
+        declareNamespaces(doc);
+
         tresult.nodeType = SRCML_RESULT_UNITS;
         tresult.nodeset.reset(xmlXPathNodeSetCreate(xmlDocGetRootElement(doc)));
 
@@ -343,9 +364,25 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
     if (!result_nodes->nodesetval->nodeNr)
         return tresult;
 
-    if (result_nodes->nodesetval->nodeTab[0] && result_nodes->nodesetval->nodeTab[0]->name &&
-        strcmp((const char*) result_nodes->nodesetval->nodeTab[0]->name, "unit") == 0)
-        tresult.unitWrapped = true;
+    // the document as a result is the root element
+    for (int i = 0; i < result_nodes->nodesetval->nodeNr; ++i) {
+
+        if (result_nodes->nodesetval->nodeTab[i]->type == XML_DOCUMENT_NODE) {
+            xmlXPathNodeSetRemove(result_nodes->nodesetval, i);
+            xmlXPathNodeSetAdd(result_nodes->nodesetval, xmlDocGetRootElement(doc));
+            xmlXPathNodeSetSort(result_nodes->nodesetval);
+            break;
+        }
+    }
+
+    // namespaces are not nodes in the document
+    for (int i = result_nodes->nodesetval->nodeNr - 1; i >= 0; --i) {
+
+        if (result_nodes->nodesetval->nodeTab[i]->type == XML_NAMESPACE_DECL)
+            xmlXPathNodeSetRemove(result_nodes->nodesetval, i);
+    }
+    if (!result_nodes->nodesetval->nodeNr)
+        tresult.nodeType = SRCML_RESULT_NONE;
 
     tresult.nodeset.reset(result_nodes->nodesetval);
     result_nodes->nodesetval = nullptr;
@@ -353,6 +390,16 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
     return tresult;
 }
 
+// the namespaces of the element and attribute are declared in the document
+void xpathTransformation::declareNamespaces(xmlDocPtr doc) const {
+
+    auto root = xmlDocGetRootElement(doc);
+    for (auto ns : { element_ns, attr_ns }) {
+        if (ns && !xmlSearchNs(doc, root, ns->prefix))
+            xmlNewNs(root, ns->href, ns->prefix);
+    }
+}
+
 // process the resulting nodes
 void xpathTransformation::addElementXPathResults(xmlDocPtr doc, xmlXPathObjectPtr result_nodes) const {
 
@@ -366,15 +413,19 @@ void xpathTransformation::addElementXPathResults(xmlDocPtr doc, xmlXPathObjectPt
 
         xmlNodePtr onode = result_nodes->nodesetval->nodeTab[i];
 
+        // only nodes that can be the child of an element
+        if (onode->type != XML_ELEMENT_NODE && onode->type != XML_TEXT_NODE && onode->type != XML_CDATA_SECTION_NODE &&
+            onode->type != XML_COMMENT_NODE && onode->type != XML_PI_NODE)
+            continue;
+
         // set up node to insert
-        xmlNodePtr element_node = xmlNewNode(element_ns, (const xmlChar*) element.c_str());
+        xmlNodePtr element_node = xmlNewDocNode(doc, element_ns, BAD_CAST element.c_str(), 0);
 
         if (!attr_name.empty())
-            append_attribute_to_node(element_node, !attr_uri.empty() ? attr_prefix.c_str() : prefix.c_str(),
-                !attr_uri.empty() ? attr_uri.c_str() : uri.c_str());
+            append_attribute_to_node(element_node);
 
         // result node is not a unit
-        if (a_node != onode) {
+        if (a_node != onode || strcmp((const char*) onode->name, "unit") != 0) {
 
             xmlReplaceNode(onode, element_node);
             xmlAddChild(element_node, onode);
@@ -387,6 +438,8 @@ void xpathTransformation::addElementXPathResults(xmlDocPtr doc, xmlXPathObjectPt
             element_node->parent = onode;
             element_node->next = 0;
             element_node->prev = 0;
+            for (auto p = element_node->children; p; p = p->next)
+                p->parent = element_node;
             onode->children = element_node;
             onode->last = element_node;
         }
diff --git a/src/libsrcml/xpathTransformation.hpp b/src/libsrcml/xpathTransformation.hpp
index b9fa954..a9a7a13 100644
--- a/src/libsrcml/xpathTransformation.hpp
+++ b/src/libsrcml/xpathTransformation.hpp
@@ -118,13 +118,21 @@ public :
     /**
      * append_attribute_to_node
      * @param node an xmlNode to append the attribute
-     * @param attr_name the attribute name
-     * @param attr_value the attribute value
      *
-     * Append an attribute to the given node.  Only the prefix and uri can vary.  The
-     * rest are the same throughout all calls and are part of the class.
+     * Append the attribute to the given node.
      */
-    void append_attribute_to_node(xmlNodePtr node, const char* attr_prefix, const char* attr_uri) const;
+    void append_attribute_to_node(xmlNodePtr node) const;
+
+    /**
+     * set_attribute
+     * @param prefix an attribute namepace prefix
+     * @param uri an attribute namepace uri
+     * @param name the attribute name
+     * @param value the attribute value
+     *
+     * Set the attribute to add.
+     */
+    void set_attribute(const char* prefix, const char* uri, const char* name, const char* value);
 
 #pragma GCC diagnostic push
 
@@ -137,6 +145,8 @@ public :
      */
     virtual TransformationResult apply(xmlDocPtr doc, int position) const;
 
+    void declareNamespaces(xmlDocPtr doc) const;
+
     void addElementXPathResults(xmlDocPtr doc, xmlXPathObjectPtr result_nodes) const;
 
     // element namespace
diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index 2468a41..116e7fc 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -170,40 +170,28 @@ TransformationResult xsltTransformation::apply(xmlDocPtr doc, int /* position */
     if (!res) {
         fprintf(stderr, "libsrcml:  Error in applying stylesheet\n");
 
-        return TransformationResult();
+        throw std::runtime_error("Error in applying stylesheet");
     }
     // empty (but valid) result
     if (!res->children) {
         return TransformationResult();
     }
 
-    // transformation result is nodeset with single unit, and the unit is wrapped
-    TransformationResult result(xmlXPathNodeSetCreate(res->children), true);
-    result.doc = res;
-    result.nodeType = res->children->type == 1 ? SRCML_RESULT_UNITS : SRCML_RESULT_STRING;
-
+    // transformation result is nodeset of the elements, typically a single unit
     // transformation may produce more than one unit, but not be well-formed due to lack of root element
-    // so create a nodeset of those parts, and change the type since libxml2 has this as text
-    if (res->children->next && res->children->next->type == 1) {
-
-        // libxml2 types this as text since there is no root element
-        result.nodeType = SRCML_RESULT_UNITS;
-
-        // remove the res->children since it may not be a unit
-        xmlXPathNodeSetRemove(result.nodeset.get(), 0);
-
-        // add each unit to the nodeset
-        for (auto p = res->children; p; p = p->next) {
-            if (p->type != 1)
-                continue;
-            xmlXPathNodeSetMerge(result.nodeset.get(), xmlXPathNodeSetCreate(p));
-        }
+    TransformationResult result(xmlXPathNodeSetCreate(0));
+    result.doc = res;
+    for (auto p = res->children; p; p = p->next) {
+        if (p->type == XML_ELEMENT_NODE)
+            xmlXPathNodeSetAdd(result.nodeset.get(), p);
     }
+    result.nodeType = result.nodeset->nodeNr > 0 ? SRCML_RESULT_UNITS : SRCML_RESULT_STRING;
 
     // text result
     if (result.nodeType == SRCML_RESULT_STRING) {
-        auto str = (char*) xmlNodeListGetRawString(res.get(), res->children, 0);
-        result.stringValue = str;
+        auto str = (char*) xmlNodeListGetString(res.get(), res->children, 1);
+        if (str)
+            result.stringValue = str;
         xmlFree(str);
     }
     return result;
-- 
2.43.0


From c5b49ba8fe077dbf31e1dbb4f8997fd7359f4a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:54 +0000
Subject: [PATCH 49/87] fix: a revision of a unit is exactly the text, elements
 and attributes of that revision

---
 src/libsrcml/srcml_translator.cpp |  37 ++++----
 src/libsrcml/srcml_unit.cpp       |  44 ++++++---
 src/libsrcml/unit_utilities.cpp   | 147 +++++++++++++++++++++---------
 src/libsrcml/unit_utilities.hpp   |  10 +-
 4 files changed, 164 insertions(+), 74 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 0dea65c..0d53415 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -225,36 +225,41 @@ bool srcml_translator::add_unit(const srcml_unit* unit) {
     }
 
     // if a srcdiff revision, remove the srcdiff namespace
-    if (unit->archive->revision_number) {
-        auto&& view = mergedns.get<nstags::uri>();
-        auto it = view.find(SRCML_DIFF_NS_URI);
-        if (it != view.end()) {
-            view.erase(it);
-        }
-    }
+    auto diff_prefix = revision_prefix(unit);
+    if (diff_prefix)
+        mergedns.get<nstags::uri>().erase(SRCML_DIFF_NS_URI);
+
+    // attribute values of the unit, if a srcdiff revision then of that revision
+    auto revision_value = [unit, &diff_prefix](const boost::optional<std::string>& value) {
+        return value && diff_prefix ? attribute_revision(*value, (int) *unit->archive->revision_number) : value;
+    };
+    auto url = revision_value(unit->url);
+    auto filename = revision_value(unit->filename);
+    auto version = revision_value(unit->version);
+    auto timestamp = revision_value(unit->timestamp);
+    auto hash = revision_value(unit->hash);
 
     std::string language = unit->language ? *unit->language : Language(unit->derived_language).getLanguageString();
 
     // create a new unit start tag with all new info (hash value, namespaces actually used, etc.)
     out.initNamespaces(mergedns);
-    auto nrevision = unit->archive->revision_number;
     out.startUnit(!language.empty() ? language.c_str() : 0,
             (options & SRCML_OPTION_ARCHIVE) && unit->revision ? unit->revision->c_str() : revision,
-            (options & SRCML_OPTION_ARCHIVE) || !unit->url       ? 0 : (nrevision ? attribute_revision(*unit->url, (int) *nrevision).c_str() : unit->url->c_str()),
-            !unit->filename  ? 0 : (nrevision ? attribute_revision(*unit->filename, (int) *nrevision).c_str() : unit->filename->c_str()),
-            !unit->version   ? 0 : (nrevision ? attribute_revision(*unit->version, (int) *nrevision).c_str() : unit->version->c_str()),
-            !unit->timestamp ? 0 : (nrevision ? attribute_revision(*unit->timestamp, (int) *nrevision).c_str() : unit->timestamp->c_str()),
-            !unit->hash      ? 0 : (nrevision ? attribute_revision(*unit->hash, (int) *nrevision).c_str() : unit->hash->c_str()),
-            !unit->encoding  ? 0 : (nrevision ? attribute_revision(*unit->encoding, (int) *nrevision).c_str() : unit->encoding->c_str()),
+            (options & SRCML_OPTION_ARCHIVE) ? 0 : optional_to_c_str(url),
+            optional_to_c_str(filename),
+            optional_to_c_str(version),
+            optional_to_c_str(timestamp),
+            optional_to_c_str(hash),
+            optional_to_c_str(unit->encoding),
             unit->attributes,
             false);
 
     // write out the contents, excluding the start and end unit tags
     int size = unit->content_end - unit->content_begin - 1;
 
-    if (unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
+    if (diff_prefix && size > 0) {
 
-        std::string s = extract_revision(unit->srcml.c_str() + unit->content_begin, size, (int) *unit->archive->revision_number);
+        std::string s = extract_revision(std::string(unit->srcml, unit->content_begin, size), (int) *unit->archive->revision_number, *diff_prefix);
 
         xmlTextWriterWriteRawLen(out.getWriter(), BAD_CAST s.c_str(), (int) s.size());
 
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 7ca12cb..0f033c2 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -327,6 +327,20 @@ size_t srcml_unit_get_eol(struct srcml_unit* unit) {
     return unit->eol;
 }
 
+// Prefix of the srcDiff namespace where a revision of the unit is used. Views of any other revision are out of date
+static boost::optional<std::string> unit_use_revision(srcml_unit* unit) {
+
+    auto prefix = revision_prefix(unit);
+    if (prefix && unit->currevision != (int) *unit->archive->revision_number) {
+        unit->srcml_revision = boost::none;
+        unit->srcml_fragment_revision = boost::none;
+        unit->srcml_raw_revision = boost::none;
+        unit->currevision = (int) *unit->archive->revision_number;
+    }
+
+    return prefix;
+}
+
 /**
  * srcml_unit_get_srcml
  * @param unit a srcml unit
@@ -348,9 +362,9 @@ const char* srcml_unit_get_srcml(struct srcml_unit* unit) {
     if (!unit->read_body && (unit->archive->type == SRCML_ARCHIVE_READ || unit->archive->type == SRCML_ARCHIVE_RW))
         unit->archive->reader->read_body(unit);
 
-    if (unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
-        if (!unit->srcml_revision || unit->currevision != (int) *unit->archive->revision_number)
-            unit->srcml_revision = extract_revision(unit->srcml.c_str(), (int) unit->srcml.size(), (int) *unit->archive->revision_number);
+    if (auto prefix = unit_use_revision(unit)) {
+        if (!unit->srcml_revision)
+            unit->srcml_revision = extract_unit_revision(unit->srcml, unit->currevision, *prefix);
         return unit->srcml_revision->c_str();
     }
 
@@ -394,9 +408,9 @@ const char* srcml_unit_get_srcml_outer(struct srcml_unit* unit) {
     }
 
     // if srcdiff versioned, then use that
-    if (unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
-        if (!unit->srcml_fragment_revision || unit->currevision != (int) *unit->archive->revision_number)
-            unit->srcml_fragment_revision = extract_revision(unit->srcml_fragment->c_str(), (int) unit->srcml_fragment->size(), (int) *unit->archive->revision_number);
+    if (auto prefix = unit_use_revision(unit)) {
+        if (!unit->srcml_fragment_revision)
+            unit->srcml_fragment_revision = extract_unit_revision(*unit->srcml_fragment, unit->currevision, *prefix);
         return unit->srcml_fragment_revision->c_str();
     }
 
@@ -431,9 +445,9 @@ const char* srcml_unit_get_srcml_inner(struct srcml_unit* unit) {
         return "";
 
     // if srcdiff versioned, then use that
-    if (unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
-        if (!unit->srcml_raw_revision || unit->currevision != (int) *unit->archive->revision_number)
-            unit->srcml_raw_revision = extract_revision(unit->srcml.c_str() + start, rawsize, (int) *unit->archive->revision_number);
+    if (auto prefix = unit_use_revision(unit)) {
+        if (!unit->srcml_raw_revision)
+            unit->srcml_raw_revision = extract_revision(std::string(unit->srcml, start, rawsize), unit->currevision, *prefix);
         return unit->srcml_raw_revision->c_str();
     }
 
@@ -711,16 +725,22 @@ static int srcml_unit_unparse_internal(struct srcml_unit* unit, std::function<xm
         unit->src = extract_src(unit->srcml);
     }
 
+    // if srcdiff versioned, then only the source of that revision
+    std::string revision_src;
+    auto prefix = revision_prefix(unit);
+    if (prefix)
+        revision_src = extract_src(extract_unit_revision(unit->srcml, (int) *unit->archive->revision_number, *prefix));
+    const std::string& src = prefix ? revision_src : *unit->src;
+
     // if EOL is not auto, then need to convert for
     if (unit->eol == SOURCE_OUTPUT_EOL_AUTO) {
-        xmlOutputBufferWrite(output_handler.get(), (int) unit->src->size(), unit->src->c_str());
+        xmlOutputBufferWrite(output_handler.get(), (int) src.size(), src.c_str());
     } else {
 
         // convert to the given eol
         std::string neol(0, ' ');
-        neol.reserve(unit->src->size());
+        neol.reserve(src.size());
 
-        const std::string& src = *unit->src;
         for (size_t i = 0; i < src.size(); ++i) {
             if (src[i] != '\n') {
                 neol += src[i];
diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index 1043db6..9b4e4c6 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -23,6 +23,7 @@
 #include <unit_utilities.hpp>
 #include <libxml/parserInternals.h>
 #include <srcmlns.hpp>
+#include <algorithm>
 #include <cstring>
 #include <stack>
 
@@ -131,68 +132,134 @@ void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar*
 
 enum { INSERT, DELETE, COMMON};
 
-std::string extract_revision(const char* srcml, int size, int revision, bool text_only) {
+// Prefix of the srcDiff namespace for a unit where a revision is used, none otherwise
+boost::optional<std::string> revision_prefix(const srcml_unit* unit) {
 
-    const char* DIFF_PREFIX = "diff:";
+    if (!unit->archive->revision_number)
+        return boost::none;
+
+    if (unit->namespaces) {
+        auto& view = unit->namespaces->get<nstags::uri>();
+        auto it = view.find(SRCML_DIFF_NS_URI);
+        if (it != view.end())
+            return it->prefix;
+    }
+
+    auto& view = unit->archive->namespaces.get<nstags::uri>();
+    auto it = view.find(SRCML_DIFF_NS_URI);
+    if (it != view.end())
+        return it->prefix;
+
+    return boost::none;
+}
+
+// End of the markup that starts at the position, i.e., a tag, a comment, a CDATA section, or a processing instruction
+static size_t markup_end(const std::string& srcml, size_t pos) {
+
+    auto after = [&srcml, pos](const char* close) {
+        auto end = srcml.find(close, pos);
+        return end == std::string::npos ? srcml.size() : end + strlen(close);
+    };
+
+    if (srcml.compare(pos, 4, "<!--") == 0)
+        return after("-->");
+    if (srcml.compare(pos, 9, "<![CDATA[") == 0)
+        return after("]]>");
+    if (srcml.compare(pos, 2, "<?") == 0)
+        return after("?>");
+
+    // the values of attributes may contain a '>'
+    while ((pos = srcml.find_first_of("\"'>", pos)) != std::string::npos && srcml[pos] != '>') {
+        pos = srcml.find(srcml[pos], pos + 1);
+        if (pos == std::string::npos)
+            break;
+        ++pos;
+    }
+
+    return pos == std::string::npos ? srcml.size() : pos + 1;
+}
+
+// Extract the markup in the revision. The innermost difference element determines the revisions that markup is in
+std::string extract_revision(const std::string& srcml, int revision, const std::string& diff_prefix) {
 
     std::stack<int> mode;
     mode.push(COMMON);
 
     std::string news;
-    const char* p = srcml;
-    const char* lp = p;
-    while ((p = (const char*) memchr(p, '<', size - (p - srcml)))) {
+    size_t pos = 0;
+    while (pos < srcml.size()) {
 
-        bool inmode = mode.top() == COMMON || (revision == 0 && mode.top() == DELETE) || (revision == 1 && mode.top() == INSERT);
+        bool inmode = mode.top() == COMMON || (revision == SRCDIFF_REVISION_ORIGINAL && mode.top() == DELETE)
+                                           || (revision == SRCDIFF_REVISION_MODIFIED && mode.top() == INSERT);
 
-        // output previous non-tag text
+        // output non-tag text
+        auto tag = std::min(srcml.find('<', pos), srcml.size());
         if (inmode)
-            news.append(lp, p - lp);
+            news.append(srcml, pos, tag - pos);
+        if (tag == srcml.size())
+            break;
+
+        pos = markup_end(srcml, tag);
+
+        // split the name of the element
+        bool isend = srcml.compare(tag, 2, "</") == 0;
+        auto name_begin = tag + (isend ? 2 : 1);
+        std::string name(srcml, name_begin, srcml.find_first_of(" \t\n\r/>", name_begin) - name_begin);
+        auto colon = name.find(':');
+        std::string prefix(name, 0, colon == std::string::npos ? 0 : colon);
+        if (colon != std::string::npos)
+            name.erase(0, colon + 1);
+
+        bool iselement = isend || (srcml[tag + 1] != '!' && srcml[tag + 1] != '?');
+        bool isempty = srcml[pos - 2] == '/';
+
+        if (iselement && prefix == diff_prefix) {
+
+            if (isend) {
+                if (mode.size() > 1)
+                    mode.pop();
+            } else if (!isempty) {
+                mode.push(name == "delete" ? DELETE : name == "insert" ? INSERT : COMMON);
+            }
 
-        auto sp = p;
+        } else if (inmode) {
+            news.append(srcml, tag, pos - tag);
+        }
+    }
 
-        // skip to end of tag
-        p = (const char*) memchr(p, '>', size - (p - srcml));
-        ++p;
+    return news;
+}
 
-        if (strncmp(sp + 1, DIFF_PREFIX, strlen(DIFF_PREFIX)) == 0) {
+// Extract the revision of a complete unit, including the attributes of the unit tag
+std::string extract_unit_revision(const std::string& srcml, int revision, const std::string& diff_prefix) {
 
-            const char* tstart = sp + 1 + strlen(DIFF_PREFIX);
+    std::string news = extract_revision(srcml, revision, diff_prefix);
 
-            if (strncmp(tstart, "delete", 6) == 0) {
-                mode.push(DELETE);
-            } else if (strncmp(tstart, "insert", 6) == 0) {
-                mode.push(INSERT);
-            } else {
-                mode.push(COMMON);
-            }
-        }
-        else if (*(sp + 1) == '/' && strncmp(sp + 2, DIFF_PREFIX, strlen(DIFF_PREFIX)) == 0) {
-            mode.pop();
-        }
-        else {
-            if (inmode && !text_only)
-                news.append(sp, p - sp);
-        }
+    std::string tag(news, 0, markup_end(news, 0));
+    const auto tag_size = tag.size();
+    for (const auto& name : { "url", "filename", "version", "timestamp", "hash" }) {
 
-        lp = p;
+        size_t begin = 0;
+        size_t end = 0;
+        if (!find_attribute(tag, name, begin, end))
+            continue;
+
+        auto value = tag.find_first_of("\"'", begin) + 1;
+        tag.replace(value, end - 1 - value, attribute_revision(tag.substr(value, end - 1 - value), revision));
     }
+    news.replace(0, tag_size, tag);
 
     return news;
 }
 
 struct extract_context {
     std::string s;
-    boost::optional<int> revision;
-    std::stack<int> mode;
 };
 
 // Extract source code from srcml
-std::string extract_src(const std::string& srcml, boost::optional<int> revision) {
+std::string extract_src(const std::string& srcml) {
 
     extract_context scontext;
-    scontext.revision = revision;
-    scontext.mode.push(COMMON);
 
     // parse the srcml collecting the (now needed) src
     xmlSAXHandler charactersax;
@@ -222,21 +289,13 @@ std::string extract_src(const std::string& srcml, boost::optional<int> revision)
         if (scontext == nullptr)
             return;
 
-        if (strcmp((const char*) localname, "escape") == 0 && strcmp((const char*) URI, SRCML_SRC_NS_URI) == 0) {
+        if (strcmp((const char*) localname, "escape") == 0 && URI && strcmp((const char*) URI, SRCML_SRC_NS_URI) == 0) {
             std::string svalue((const char *)attributes[0 * 5 + 3], attributes[0 * 5 + 4] - attributes[0 * 5 + 3]);
 
             char value = (int)strtol(svalue.c_str(), NULL, 0);
 
             scontext->s.append(1, value);
 
-        } else if (scontext->revision && strcmp((const char*) URI, SRCML_DIFF_NS_URI) == 0) {
-
-            if (std::string((const char*) localname) == "INSERT")
-                scontext->mode.push(INSERT);
-            else if (std::string((const char*) localname) == "DELETE")
-                scontext->mode.push(DELETE);
-            else
-                scontext->mode.push(COMMON);
         }
     };
 
diff --git a/src/libsrcml/unit_utilities.hpp b/src/libsrcml/unit_utilities.hpp
index 8c8731e..d6a724d 100644
--- a/src/libsrcml/unit_utilities.hpp
+++ b/src/libsrcml/unit_utilities.hpp
@@ -41,8 +41,14 @@ bool find_attribute(const std::string& tag, const std::string& name, size_t& beg
 void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar** attributes);
 
 // Extract source code from srcml
-std::string extract_src(const std::string& srcml, boost::optional<int> revision = boost::none);
-std::string extract_revision(const char* srcml, int size, int revision, bool text_only = false);
+std::string extract_src(const std::string& srcml);
+
+// Prefix of the srcDiff namespace for a unit where a revision is used, none otherwise
+boost::optional<std::string> revision_prefix(const srcml_unit* unit);
+
+// Extract a srcDiff revision from the contents of a unit, a complete unit, and the value of an attribute of a unit
+std::string extract_revision(const std::string& srcml, int revision, const std::string& diff_prefix);
+std::string extract_unit_revision(const std::string& srcml, int revision, const std::string& diff_prefix);
 std::string attribute_revision(const std::string& attribute, int revision);
 
 #endif
-- 
2.43.0


From 59cdb77872324db7e249b117a6aec2b0dc04de1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:54 +0000
Subject: [PATCH 50/87] fix: reading a document does not depend on how its XML
 is split, escaped or wrapped in CDATA

---
 src/libsrcml/sax2_srcsax_handler.cpp | 79 +++++++++++++++-------------
 1 file changed, 43 insertions(+), 36 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 46c3b49..c0f1773 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -549,8 +549,11 @@ void end_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, const
 
     ctxt->sax->startElementNs = &start_unit;
 
-    if (true || state->collect_unit_body)
-        ctxt->sax->ignorableWhitespace = ctxt->sax->characters = &characters_root;
+    // keep track of what is between units, even after a unit whose body was not collected
+    ctxt->sax->ignorableWhitespace = ctxt->sax->characters = &characters_root;
+    ctxt->sax->comment = &comment;
+    ctxt->sax->cdataBlock = &cdata_block;
+    ctxt->sax->processingInstruction = &processing_instruction;
 
     SRCSAX_DEBUG_END(localname);
 }
@@ -622,12 +625,6 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
 
     if (state->collect_unit_body) {
 
-        // end previous start element
-        if (state->base[0] == '>') {
-            state->unitsrcml.append(1, '>');
-            state->base += 1;
-        }
-
         auto srcmllen = ctxt->input->cur - state->base;
         if (srcmllen < 0) {
             return;
@@ -652,6 +649,12 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
     }
     state->base = ctxt->input->cur;
 
+    // complete the start tag now, unless it is an empty element, which is completed by the end element
+    if (state->collect_unit_body && state->base[0] == '>') {
+        state->unitsrcml.append(1, '>');
+        state->base += 1;
+    }
+
     SRCSAX_DEBUG_END(localname);
 }
 
@@ -782,31 +785,29 @@ void characters_unit(void* ctx, const xmlChar* ch, int len) {
 
     state->loc += (int) std::count((const char*) ch, (const char*) ch + len, '\n');
 
-    update_ctx(ctx);
-
-    // end previous start element, but not when this is the text itself
-    if (state->base < ctxt->input->cur && state->base[0] == '>') {
-        state->unitsrcml.append(1, '>');
-        state->base += 1;
-    }
-
-    // libxml2 handles things in the background differently for whitespace and escaped characters
-    // using a different buffer. For POS (Plain Old Strings), it uses the original buffer
-    if (state->base == ctxt->input->cur) {
+    // libxml2 may have already discarded the start of a long text from its buffer, so only a reference
+    // is taken from there, and then only when still there. All other text is as passed
+    if (state->base >= ctxt->input->base && state->base < ctxt->input->cur && state->base[0] == '&') {
 
-        // plain old strings
-        state->unitsrcml.append((const char*) ch, len);
-
-        // libxml2 passes ctxt->input->cur as ch, so then must increment to len
-        state->base = ctxt->input->cur + len;
+        state->unitsrcml.append((const char*) state->base, ctxt->input->cur - state->base);
 
     } else {
 
-        // whitespace and escaped characters
-        state->unitsrcml.append((const char*) state->base, ctxt->input->cur - state->base);
-        state->base = ctxt->input->cur;
+        for (int i = 0; i < len; ++i) {
+            if (ch[i] == '<')
+                state->unitsrcml.append("&lt;");
+            else if (ch[i] == '&')
+                state->unitsrcml.append("&amp;");
+            else if (ch[i] == '\r')
+                state->unitsrcml.append("&#13;");
+            else
+                state->unitsrcml.append(1, (char) ch[i]);
+        }
     }
 
+    // for POS (Plain Old Strings), libxml2 passes ctxt->input->cur as ch, and advances afterward
+    state->base = ch == ctxt->input->cur ? ctxt->input->cur + len : ctxt->input->cur;
+
     SRCML_DEBUG("UNIT", state->unitsrcml.c_str(), state->unitsrcml.size());
 
     BASE_DEBUG
@@ -873,15 +874,17 @@ void cdata_block(void* ctx, const xmlChar* value, int len) {
     // append CDATA
     if (state->collect_unit_body) {
 
-        // xml can get raw
-        state->unitsrcml.append((const char*) state->base, ctxt->input->cur - state->base);
+        state->unitsrcml.append("<![CDATA[");
+        state->unitsrcml.append((const char*) value, len);
+        state->unitsrcml.append("]]>");
 
         // CDATA is character data
         state->unitsrc.append((const char*) value, len);
-
-        state->base = ctxt->input->cur;
+        state->loc += (int) std::count((const char*) value, (const char*) value + len, '\n');
     }
 
+    state->base = ctxt->input->cur;
+
     SRCSAX_DEBUG_END("");
 }
 
@@ -912,14 +915,18 @@ void processing_instruction(void* ctx, const xmlChar* target, const xmlChar* dat
 
         state->context->handler->processing_instruction(state->context, (const char*) target, (const char*) data);
 
-        state->base = ctxt->input->cur;
-
     } else if (state->collect_unit_body) {
 
-        state->unitsrcml.append((const char*) state->base, ctxt->input->cur - state->base);
-
-        state->base = ctxt->input->cur;
+        state->unitsrcml.append("<?");
+        state->unitsrcml.append((const char*) target);
+        if (data) {
+            state->unitsrcml.append(" ");
+            state->unitsrcml.append((const char*) data);
+        }
+        state->unitsrcml.append("?>");
     }
 
+    state->base = ctxt->input->cur;
+
     SRCSAX_DEBUG_END("");
 }
-- 
2.43.0


From 879b8bea869bd19bc41f7ce2aae6716656424cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:54 +0000
Subject: [PATCH 51/87] fix: srcml() reports every failure with a message,
 closes its output and applies the line ends

---
 src/libsrcml/libsrcml.cpp | 60 +++++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/src/libsrcml/libsrcml.cpp b/src/libsrcml/libsrcml.cpp
index 945d745..492cabf 100644
--- a/src/libsrcml/libsrcml.cpp
+++ b/src/libsrcml/libsrcml.cpp
@@ -166,8 +166,10 @@ int srcml(const char* input_filename, const char* output_filename) {
         }
 
         int status = srcml_archive_write_open_filename(archive.get(), output_filename);
-        if (status != SRCML_STATUS_OK)
+        if (status != SRCML_STATUS_OK) {
+            global_archive.error_string = "Unable to open the output file";
             return status;
+        }
 
         std::unique_ptr<srcml_unit> unit(srcml_unit_create(archive.get()));
         if (!unit) {
@@ -177,39 +179,60 @@ int srcml(const char* input_filename, const char* output_filename) {
 
         // single input file, so non-archive unit
         status = srcml_archive_enable_solitary_unit(archive.get());
-        if (status != SRCML_STATUS_OK)
+        if (status != SRCML_STATUS_OK) {
+            global_archive.error_string = "Unable to set up srcML archive";
             return status;
+        }
 
         status = srcml_unit_set_language(unit.get(), srcml_archive_get_language(archive.get()));
-        if (status != SRCML_STATUS_OK)
+        if (status != SRCML_STATUS_OK) {
+            global_archive.error_string = "Unable to set the language of the srcML unit";
             return status;
+        }
 
         // unit filename is based on convenience functions or the input filename
         if (srcml_unit_get_filename(&global_unit) != 0)
             status = srcml_unit_set_filename(unit.get(), srcml_unit_get_filename(&global_unit));
         else
             status = srcml_unit_set_filename(unit.get(), input_filename);
-        if (status != SRCML_STATUS_OK)
+        if (status != SRCML_STATUS_OK) {
+            global_archive.error_string = "Unable to set the filename of the srcML unit";
             return status;
+        }
 
         // get value possibly set by convenience functions
         status = srcml_unit_set_version(unit.get(), srcml_archive_get_version(archive.get()));
-        if (status != SRCML_STATUS_OK)
+        if (status != SRCML_STATUS_OK) {
+            global_archive.error_string = "Unable to set the version of the srcML unit";
             return status;
+        }
 
         status = srcml_unit_set_timestamp(unit.get(), srcml_unit_get_timestamp(&global_unit));
-        if (status != SRCML_STATUS_OK)
+        if (status != SRCML_STATUS_OK) {
+            global_archive.error_string = "Unable to set the timestamp of the srcML unit";
             return status;
+        }
 
         // parse the unit
         status = srcml_unit_parse_filename(unit.get(), input_filename);
-        if (status != SRCML_STATUS_OK)
+        if (status != SRCML_STATUS_OK) {
+            global_archive.error_string = "Unable to parse the input file";
             return status;
+        }
 
         // write the parse unit to the archive
         status = srcml_archive_write_unit(archive.get(), unit.get());
-        if (status != SRCML_STATUS_OK)
+        if (status != SRCML_STATUS_OK) {
+            global_archive.error_string = "Unable to write the srcML unit";
+            return status;
+        }
+
+        // write out all that remains while a failure can still be reported
+        status = srcml_archive_close(archive.get());
+        if (status != SRCML_STATUS_OK) {
+            global_archive.error_string = "Unable to write the output file";
             return status;
+        }
 
     } else {
 
@@ -217,7 +240,7 @@ int srcml(const char* input_filename, const char* output_filename) {
         size_t len = strlen(input_filename);
         if (!((len > 4 && tolower(input_filename[len - 1]) == 'l' && tolower(input_filename[len - 2]) == 'm'
             && ((tolower(input_filename[len - 3]) == 'x' && input_filename[len - 4] == '.')
-             || (tolower(input_filename[len - 3]) == 'c' && tolower(input_filename[len - 4]) == 'r' && tolower(input_filename[len - 5]) == 's' && tolower(input_filename[len - 6]) == '.')))
+             || (len > 6 && tolower(input_filename[len - 3]) == 'c' && tolower(input_filename[len - 4]) == 'r' && tolower(input_filename[len - 5]) == 's' && tolower(input_filename[len - 6]) == '.')))
            || (global_archive.language && strcmp(global_archive.language->c_str(), "xml") == 0))) {
 
             if (global_archive.language) {
@@ -237,16 +260,29 @@ int srcml(const char* input_filename, const char* output_filename) {
         }
 
         int status = srcml_archive_read_open_filename(archive.get(), input_filename);
-        if (status != SRCML_STATUS_OK)
+        if (status != SRCML_STATUS_OK) {
+            global_archive.error_string = "Unable to open the input file";
             return status;
+        }
 
         std::unique_ptr<srcml_unit> unit(srcml_archive_read_unit(archive.get()));
-        if (!unit)
+        if (!unit) {
+            global_archive.error_string = "No srcML unit in the input file";
+            return SRCML_STATUS_INVALID_INPUT;
+        }
+
+        // line ends possibly set by convenience functions
+        status = srcml_unit_set_eol(unit.get(), global_unit.eol);
+        if (status != SRCML_STATUS_OK) {
+            global_archive.error_string = "Unable to set the line ends of the source code";
             return status;
+        }
 
         status = srcml_unit_unparse_filename(unit.get(), output_filename);
-        if (status != SRCML_STATUS_OK)
+        if (status != SRCML_STATUS_OK) {
+            global_archive.error_string = "Unable to write the output file";
             return status;
+        }
     }
 
     return SRCML_STATUS_OK;
-- 
2.43.0


From eeba2bc670259bb7ec93678742b25b85f8a3c7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:57 +0000
Subject: [PATCH 52/87] fix: stopping at the . and .. directories given as
 input

---
 src/client/src_input_filesystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/src_input_filesystem.cpp b/src/client/src_input_filesystem.cpp
index af4c44a..e1b16a6 100644
--- a/src/client/src_input_filesystem.cpp
+++ b/src/client/src_input_filesystem.cpp
@@ -76,8 +76,8 @@ int src_input_filesystem(ParseQueue& queue,
 
         std::string filename = archive_entry_pathname(entry);
 
-        // do not descend into . directories
-        if (filename[filename.find_last_of("/") + 1] == '.') {
+        // do not descend into . directories, unless it is the requested directory
+        if (!first && filename[filename.find_last_of("/") + 1] == '.') {
             continue;
         }
 
-- 
2.43.0


From 5f7293c9cd9f89b0fed598f8426fe52439266872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:57 +0000
Subject: [PATCH 53/87] fix: units lost or a crash when writing a source
 archive with special filenames or units without a language

---
 src/client/src_output_libarchive.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/client/src_output_libarchive.cpp b/src/client/src_output_libarchive.cpp
index 2fa7248..22a377c 100644
--- a/src/client/src_output_libarchive.cpp
+++ b/src/client/src_output_libarchive.cpp
@@ -45,7 +45,7 @@ void src_output_libarchive(srcml_archive* srcml_arch, archive* src_archive) {
         if (newfilename.empty()) {
             newfilename = "srcml_unit_";
             newfilename += std::to_string(unitcounter);
-            if (language_to_std_extension(srcml_unit_get_language(unit.get())) != "")
+            if (srcml_unit_get_language(unit.get()))
                 newfilename += language_to_std_extension(srcml_unit_get_language(unit.get()));
             SRCMLstatus(WARNING_MSG, "A srcML unit without a filename saved as " + newfilename);
         }
@@ -72,12 +72,18 @@ void src_output_libarchive(srcml_archive* srcml_arch, archive* src_archive) {
         archive_entry_set_ctime(entry.get(), now, 0);
         archive_entry_set_mtime(entry.get(), now, 0);
 
-        if ((arch_status = archive_write_header(src_archive, entry.get())) != ARCHIVE_OK)
-            break;
+        // a warning, e.g., on the characters in a filename, does not affect the contents
+        arch_status = archive_write_header(src_archive, entry.get());
+        if (arch_status != ARCHIVE_OK && arch_status != ARCHIVE_WARN) {
+            SRCMLstatus(WARNING_MSG, "Unable to save " + newfilename + " to source archive");
+            if (arch_status == ARCHIVE_FATAL)
+                break;
+            continue;
+        }
 
         // write the data into the archive
         arch_status = archive_write_data(src_archive, pbuffer.get(), (size_t) buffer_size);
-        if (arch_status == -1) {
+        if (arch_status < 0) {
             SRCMLstatus(WARNING_MSG, "Unable to save " + newfilename + " to source archive");
             break;
         }
-- 
2.43.0


From 190e33d3ad70982efc2bcd3e7f07dd95c4bff23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:57 +0000
Subject: [PATCH 54/87] fix: files of an archive lost after a warning, damaged
 archives not reported, and timestamps of files without one

---
 src/client/src_input_libarchive.cpp | 30 ++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/client/src_input_libarchive.cpp b/src/client/src_input_libarchive.cpp
index d7feb00..834b87f 100644
--- a/src/client/src_input_libarchive.cpp
+++ b/src/client/src_input_libarchive.cpp
@@ -144,11 +144,16 @@ int src_input_libarchive(ParseQueue& queue,
     int status = ARCHIVE_OK;
     while (status == ARCHIVE_OK &&
            (((status = archive_read_next_header(arch.get(), &entry)) == ARCHIVE_OK) ||
+            (status == ARCHIVE_WARN) ||
             (status == ARCHIVE_EOF && !count))) {
 
         if (status == ARCHIVE_EOF && getCurlErrors())
             return 0;
 
+        // a warning, e.g., on the characters in a filename, does not affect the contents
+        if (status == ARCHIVE_WARN)
+            status = ARCHIVE_OK;
+
         // after the first archive_read_next_header() the archive knows the archive format
         // use this archive format to force a srcML archive output with archive source
         if (count == 0 && archive_format(arch.get()) != ARCHIVE_FORMAT_RAW && archive_format(arch.get()) != ARCHIVE_FORMAT_EMPTY) {
@@ -161,7 +166,14 @@ int src_input_libarchive(ParseQueue& queue,
             continue;
 
         // default is filename from archive entry (if not empty)
-        std::string filename = status == ARCHIVE_OK ? archive_entry_pathname(entry) : "";
+        const char* pathname = status == ARCHIVE_OK ? archive_entry_pathname(entry) : "";
+        if (!pathname) {
+            // filename cannot be represented
+            SRCMLstatus(WARNING_MSG, "srcml: Unable to read the filename of an entry in " + src_prefix_resource(input_file.filename));
+            ++count;
+            continue;
+        }
+        std::string filename = pathname;
 
         // starting in libarchive 3.4 gz compression, although ARCHIVE_FORMAT_RAW, has an
         // entry. For consisten behavior, ignore this for now
@@ -239,7 +251,7 @@ int src_input_libarchive(ParseQueue& queue,
         prequest->language = language;
         prequest->status = !language.empty() ? 0 : SRCML_STATUS_UNSET_LANGUAGE;
 
-        if (option(SRCML_COMMAND_TIMESTAMP)) {
+        if (option(SRCML_COMMAND_TIMESTAMP) && status == ARCHIVE_OK && archive_entry_mtime_is_set(entry)) {
 
             //Long time provided by libarchive needs to be time_t
             time_t mod_time(archive_entry_mtime(entry));
@@ -264,9 +276,17 @@ int src_input_libarchive(ParseQueue& queue,
 #else
             int64_t offset;
 #endif
-            while (status == ARCHIVE_OK && archive_read_data_block(arch.get(), (const void**) &buffer, &size, &offset) == ARCHIVE_OK) {
+            int data_status = ARCHIVE_OK;
+            while ((data_status = archive_read_data_block(arch.get(), (const void**) &buffer, &size, &offset)) == ARCHIVE_OK) {
                 prequest->buffer.insert(prequest->buffer.end(), buffer, buffer + size);
             }
+
+            // incomplete source code is not parsed
+            if (data_status != ARCHIVE_EOF) {
+                SRCMLstatus(WARNING_MSG, "srcml: Unable to read file " + filename);
+                ++count;
+                continue;
+            }
         }
 
         // schedule for parsing
@@ -275,5 +295,9 @@ int src_input_libarchive(ParseQueue& queue,
         ++count;
     }
 
+    // the rest of the files are lost
+    if (status != ARCHIVE_OK && status != ARCHIVE_EOF)
+        SRCMLstatus(WARNING_MSG, "srcml: Unable to read all of " + src_prefix_resource(input_file.filename));
+
     return count;
 }
-- 
2.43.0


From 126af29bf1750a8e533be274c7b8fc831126d5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:29 +0000
Subject: [PATCH 55/87] fix: two namespaces with the same prefix made the srcML
 ill-formed

---
 src/parser/srcMLOutput.cpp | 43 +++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index 5850151..d1db881 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -267,6 +267,9 @@ void srcMLOutput::outputNamespaces(xmlTextWriterPtr xout, const OPTION_TYPE& opt
     if (isoption(options, SRCML_OPTION_DEBUG))
         view.find(SRCML_ERROR_NS_URI)->flags |= NS_USED;
 
+    // namespaces to declare on this unit
+    std::vector<const Namespace*> declarations;
+
     for (const auto& ns : namespaces) {
 
         // must be required, or on the root and used, or user registered
@@ -274,19 +277,9 @@ void srcMLOutput::outputNamespaces(xmlTextWriterPtr xout, const OPTION_TYPE& opt
             || ((ns.flags & NS_REGISTERED) && !(ns.flags & NS_STANDARD));
 
         // output standard namespaces for outer unit or non-archive unit
-        if (on_root && (depth == 0 || !isoption(options, SRCML_OPTION_ARCHIVE))) {
-
-            srcMLTextWriterWriteNamespace(xout, ns);
-            root_namespaces[ns.prefix] = ns.uri;
-            continue;
-        }
-
-        // unit may be from another archive, with namespaces that are not on this root
-        if (on_root && depth == 1) {
-
-            auto it = root_namespaces.find(ns.prefix);
-            if (it == root_namespaces.end() || it->second != ns.uri)
-                srcMLTextWriterWriteNamespace(xout, ns);
+        // a unit may be from another archive, with namespaces that are not on this root
+        if (on_root) {
+            declarations.push_back(&ns);
             continue;
         }
 
@@ -295,11 +288,33 @@ void srcMLOutput::outputNamespaces(xmlTextWriterPtr xout, const OPTION_TYPE& opt
 
             // must be required, must not be on the root, and must be used
             if ((ns.flags & NS_STANDARD) && !(ns.flags & NS_ROOT) && !(ns.flags & NS_REQUIRED) && (ns.flags & NS_USED)) {
-                srcMLTextWriterWriteNamespace(xout, ns);
+                declarations.push_back(&ns);
                 continue;
             }
         }
     }
+
+    // a prefix can only be declared once: standard namespaces are used by the markup, otherwise the last one registered
+    std::map<std::string, const Namespace*> prefixes;
+    for (const auto* ns : declarations) {
+        const auto*& current = prefixes[ns->prefix];
+        if (!current || !(current->flags & NS_STANDARD))
+            current = ns;
+    }
+
+    for (const auto* ns : declarations) {
+        if (prefixes[ns->prefix] != ns)
+            continue;
+
+        // already on the root
+        auto it = root_namespaces.find(ns->prefix);
+        if (depth != 0 && it != root_namespaces.end() && it->second == ns->uri)
+            continue;
+
+        srcMLTextWriterWriteNamespace(xout, *ns);
+        if (depth == 0)
+            root_namespaces[ns->prefix] = ns->uri;
+    }
 }
 
 /**
-- 
2.43.0


From d16bbf6925d9b14d8e1b8461eaba5589226107a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:29 +0000
Subject: [PATCH 56/87] fix: current directory changed while other threads open
 files

---
 src/client/src_input_filesystem.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client/src_input_filesystem.cpp b/src/client/src_input_filesystem.cpp
index e1b16a6..1ce146b 100644
--- a/src/client/src_input_filesystem.cpp
+++ b/src/client/src_input_filesystem.cpp
@@ -61,7 +61,12 @@ int src_input_filesystem(ParseQueue& queue,
     // start at the root of the tree
     auto darchive = archive_read_disk_new();
 #if ARCHIVE_VERSION_NUMBER >= 3002003
-    archive_read_disk_set_behavior(darchive, ARCHIVE_READDISK_NO_ACL | ARCHIVE_READDISK_NO_XATTR | ARCHIVE_READDISK_NO_FFLAGS);
+    int behavior = ARCHIVE_READDISK_NO_ACL | ARCHIVE_READDISK_NO_XATTR | ARCHIVE_READDISK_NO_FFLAGS;
+#ifdef ARCHIVE_READDISK_NO_SPARSE
+    // looking for sparse parts changes the current directory, while other threads open files relative to it
+    behavior |= ARCHIVE_READDISK_NO_SPARSE;
+#endif
+    archive_read_disk_set_behavior(darchive, behavior);
 #elif ARCHIVE_VERSION_NUMBER >= 3002000
     archive_read_disk_set_behavior(darchive, ARCHIVE_READDISK_NO_XATTR);
 #endif
-- 
2.43.0


From 446faad3fa03118b8c815ab1ac2da2ff0da163f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:29 +0000
Subject: [PATCH 57/87] fix: downloads shared their state, could wait forever,
 and broken pipes ended the client

---
 src/client/decompress_srcml.cpp |  9 +++++-
 src/client/input_curl.cpp       | 54 +++++++++++++++++++++------------
 src/client/srcml_execute.cpp    |  6 +++-
 src/client/srcml_pipe.cpp       | 16 +++++++++-
 src/client/srcml_pipe.hpp       |  6 +++-
 5 files changed, 68 insertions(+), 23 deletions(-)

diff --git a/src/client/decompress_srcml.cpp b/src/client/decompress_srcml.cpp
index 4ee9500..9b0d194 100644
--- a/src/client/decompress_srcml.cpp
+++ b/src/client/decompress_srcml.cpp
@@ -24,8 +24,10 @@
 #include <curl/curl.h>
 #include <archive.h>
 #include <input_curl.hpp>
+#include <src_prefix.hpp>
 #include <SRCMLStatus.hpp>
 #include <memory>
+#include <cerrno>
 #include <libarchive_utilities.hpp>
 
 namespace {
@@ -96,7 +98,12 @@ void decompress_srcml(const srcml_request_t& /* srcml_request */,
 
     // copy from the libarchive decompressed data into the destination file descriptor
     // for the next stage in the pipeline
-    archive_read_data_into_fd(libarchive_srcml.get(), *destination.fd);
+    if (status == ARCHIVE_OK || status == ARCHIVE_WARN)
+        status = archive_read_data_into_fd(libarchive_srcml.get(), *destination.fd);
+
+    // the next stage may not need all of the data
+    if (status < ARCHIVE_WARN && archive_errno(libarchive_srcml.get()) != EPIPE)
+        SRCMLstatus(ERROR_MSG, "srcml: Unable to decompress %s: %s", src_prefix_resource(input_sources[0].filename), archive_error_string(libarchive_srcml.get()));
 
     // important to close, since this is how the file descriptor reader get an EOF
     close(*destination.fd);
diff --git a/src/client/input_curl.cpp b/src/client/input_curl.cpp
index f3c5145..ab132d6 100644
--- a/src/client/input_curl.cpp
+++ b/src/client/input_curl.cpp
@@ -27,6 +27,7 @@
 #include <mutex>
 #include <condition_variable>
 #include <atomic>
+#include <memory>
 
 bool curl_supported(const std::string& input_protocol) {
     const char* const* curl_types = curl_version_info(CURLVERSION_NOW)->protocols;
@@ -39,32 +40,44 @@ bool curl_supported(const std::string& input_protocol) {
 
 namespace {
 
-    bool go = false;
-    std::condition_variable cv;
-    std::mutex d;
+    // state of a single download, shared by the downloading thread and the thread that waits for it
+    class Download {
+    public:
+        // wait until the download started to deliver, or ended. The result is whether it succeeded so far
+        bool wait() {
+            std::unique_lock<std::mutex> l(d);
+            cv.wait(l, [this]() { return done; });
+            return go;
+        }
 
-    int waitCurl() {
-        std::unique_lock<std::mutex> l(d);
-        cv.wait(l);
-        return go;
-    }
+        // first result is the one waited for
+        void signal(bool flag) {
+            std::unique_lock<std::mutex> l(d);
+            if (done)
+                return;
+            go = flag;
+            done = true;
+            cv.notify_one();
+        }
 
-    void goCurl(bool flag) {
-        std::unique_lock<std::mutex> l(d);
-        go = flag;
-        cv.notify_one();
-    }
+    private:
+        bool done = false;
+        bool go = false;
+        std::condition_variable cv;
+        std::mutex d;
+    };
 
     struct curl_write_info {
         int outfd = 0;
         CURL* curlhandle = nullptr;
+        Download* download = nullptr;
     };
 
     std::atomic<bool> curl_errors(false);
 }
 
 // coordinate curl error response
-// only call before goCurl()
+// only call before the download is signaled
 void setCurlErrors(bool flag) {
     curl_errors = flag;
 }
@@ -92,7 +105,7 @@ size_t our_curl_write_callback(char *ptr, size_t size, size_t nmemb, void *userd
     if (http_code != 200)
         return 0;
 
-    goCurl(true);
+    data->download->signal(true);
 
     ssize_t result = write(data->outfd, ptr, size * nmemb);
 
@@ -102,7 +115,9 @@ size_t our_curl_write_callback(char *ptr, size_t size, size_t nmemb, void *userd
 // downloads URL into file descriptor
 int input_curl(srcml_input_src& input) {
 
-    srcml_pipe(input, [](const srcml_request_t& /* srcml_request */, const srcml_input_t& input_sources, const srcml_output_dest& destination) {
+    auto download = std::make_shared<Download>();
+
+    srcml_pipe(input, [download](const srcml_request_t& /* srcml_request */, const srcml_input_t& input_sources, const srcml_output_dest& destination) {
 
         // input comes from URL
         std::string url = input_sources[0].filename;
@@ -115,6 +130,7 @@ int input_curl(srcml_input_src& input) {
         curl_write_info write_info;
         write_info.outfd = *destination.fd; // output is a file descriptor
         write_info.curlhandle = curl_handle;
+        write_info.download = download.get();
 
         curl_easy_setopt(curl_handle, CURLOPT_SSL_VERIFYPEER, 0L);
         curl_easy_setopt(curl_handle, CURLOPT_SSL_VERIFYHOST, 0L);
@@ -140,12 +156,12 @@ int input_curl(srcml_input_src& input) {
         if (response != CURLE_OK) {
             SRCMLstatus(WARNING_MSG, "srcml: Unable to access URL " + url);
             setCurlErrors(true);
-            goCurl(false);
+            download->signal(false);
 
         } else {
 
             setCurlErrors(false);
-            goCurl(true);
+            download->signal(true);
         }
 
         // close the output file descriptor we were writing the download to
@@ -159,5 +175,5 @@ int input_curl(srcml_input_src& input) {
     });
 
     // wait to see if curl is able to download the url at all
-    return waitCurl();
+    return download->wait();
 }
diff --git a/src/client/srcml_execute.cpp b/src/client/srcml_execute.cpp
index 3e912b8..9c94d3f 100644
--- a/src/client/srcml_execute.cpp
+++ b/src/client/srcml_execute.cpp
@@ -67,7 +67,11 @@ void srcml_execute(const srcml_request_t& srcml_request,
 
         /* run this step in the sequence */
         pipethreads.push_back(std::thread(
-            command,
+            [command, last](const srcml_request_t& request, const srcml_input_t& input_sources, const srcml_output_dest& destination) {
+                if (!last)
+                    srcml_pipe_block_signal();
+                command(request, input_sources, destination);
+            },
             srcml_request,
             /* first process_srcml uses input_source, rest input from previous output pipe */
             first ? input_sources : srcml_input_t(1, srcml_input_src("stdin://-", prevoutfd)),
diff --git a/src/client/srcml_pipe.cpp b/src/client/srcml_pipe.cpp
index 7a54a18..4779480 100644
--- a/src/client/srcml_pipe.cpp
+++ b/src/client/srcml_pipe.cpp
@@ -30,6 +30,8 @@
 #include <io.h>
 #include <fcntl.h>
 #include <windows.h>
+#else
+#include <signal.h>
 #endif
 
 static std::list<std::thread*> lthreads;
@@ -54,7 +56,10 @@ void srcml_pipe(srcml_input_src& input, srcml_pipe_process process, srcml_reques
 
     // create a single thread to prefix decompression
     lthreads.push_back(new std::thread(
-            process,
+            [process](const srcml_request_t& request, const srcml_input_t& input_sources, const srcml_output_dest& destination) {
+                srcml_pipe_block_signal();
+                process(request, input_sources, destination);
+            },
             srcml_request,
             srcml_input_t(1, input),
             srcml_output_dest("-", fds[1])
@@ -73,3 +78,12 @@ void srcml_pipe_clean() {
     }
 }
 
+void srcml_pipe_block_signal() {
+
+#if !defined(_MSC_BUILD) && !defined(__MINGW32__)
+    sigset_t signals;
+    sigemptyset(&signals);
+    sigaddset(&signals, SIGPIPE);
+    pthread_sigmask(SIG_BLOCK, &signals, nullptr);
+#endif
+}
diff --git a/src/client/srcml_pipe.hpp b/src/client/srcml_pipe.hpp
index 92f5d38..06f8764 100644
--- a/src/client/srcml_pipe.hpp
+++ b/src/client/srcml_pipe.hpp
@@ -25,12 +25,16 @@
 
 #include <srcml_input_src.hpp>
 #include <srcml_cli.hpp>
+#include <functional>
 
 // has to be a typedef for older gcc compilers
-typedef void (*srcml_pipe_process)(const srcml_request_t&, const srcml_input_t&, const srcml_output_dest&);
+typedef std::function<void(const srcml_request_t&, const srcml_input_t&, const srcml_output_dest&)> srcml_pipe_process;
 
 void srcml_pipe(srcml_input_src& input, srcml_pipe_process process, srcml_request_t srcml_request = srcml_request_t());
 
 void srcml_pipe_clean();
 
+// current thread writes to an internal pipe, whose reader may be done before all is written
+void srcml_pipe_block_signal();
+
 #endif
-- 
2.43.0


From c787487420c0c82ec199e329e9f78f587a0ad061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:29 +0000
Subject: [PATCH 58/87] fix: output per unit outside of the directory or
 unreported, and --cat output not well formed

---
 src/client/mkDir.cpp       | 36 +++++++++++++++++++++++++++++++++++
 src/client/mkDir.hpp       |  4 ++++
 src/client/srcml_write.cpp | 39 +++++++++++++++++++++++++++++---------
 3 files changed, 70 insertions(+), 9 deletions(-)

diff --git a/src/client/mkDir.cpp b/src/client/mkDir.cpp
index 06ee588..215ab04 100644
--- a/src/client/mkDir.cpp
+++ b/src/client/mkDir.cpp
@@ -21,6 +21,42 @@
  */
 
 #include <mkDir.hpp>
+#include <sstream>
+#include <vector>
+
+std::string resolve_path(const std::string& filename) {
+
+    std::vector<std::string> parts;
+    std::string part;
+    std::istringstream path(filename);
+    while (std::getline(path, part, '/')) {
+
+        if (part.empty() || part == ".")
+            continue;
+
+        if (part != "..") {
+            parts.push_back(part);
+            continue;
+        }
+
+        if (parts.empty())
+            return "";
+        parts.pop_back();
+    }
+
+    // last part has to be the name of a file
+    if (filename.empty() || filename.back() == '/' || part == "." || part == "..")
+        return "";
+
+    std::string resolved;
+    for (const auto& part : parts) {
+        if (!resolved.empty())
+            resolved += '/';
+        resolved += part;
+    }
+
+    return resolved;
+}
 
 mkDir::mkDir() {
 
diff --git a/src/client/mkDir.hpp b/src/client/mkDir.hpp
index 9347880..8e54cd1 100644
--- a/src/client/mkDir.hpp
+++ b/src/client/mkDir.hpp
@@ -27,6 +27,10 @@
 #include <archive_entry.h>
 #include <string>
 
+// path with any "." and ".." parts resolved. Empty if the path does not name a file,
+// or the file would be outside of the starting directory
+std::string resolve_path(const std::string& filename);
+
 class mkDir {
 public:
     mkDir();
diff --git a/src/client/srcml_write.cpp b/src/client/srcml_write.cpp
index a9cec15..c8d16cb 100644
--- a/src/client/srcml_write.cpp
+++ b/src/client/srcml_write.cpp
@@ -38,7 +38,7 @@
 #include <cmath>
 
 // Public consumption thread function
-void srcml_write_request(std::shared_ptr<ParseRequest> request, TraceLog& log, const srcml_output_dest& /* destination */) {
+void srcml_write_request(std::shared_ptr<ParseRequest> request, TraceLog& log, const srcml_output_dest& destination) {
 
     if (!request)
         return;
@@ -75,12 +75,17 @@ void srcml_write_request(std::shared_ptr<ParseRequest> request, TraceLog& log, c
     // open the archive (if per-unit)
     if (request->unit && option(SRCML_COMMAND_NOARCHIVE)) {
 
-        std::string filename;
-        if (option(SRCML_COMMAND_TO_DIRECTORY)) {
-            filename += *request->disk_dir;
-            filename += "/";
+        // the output file is named after the input, and is in the output directory
+        const char* unit_filename = srcml_unit_get_filename(request->unit.get());
+        std::string filename = resolve_path(unit_filename ? unit_filename : "");
+        if (filename.empty()) {
+            SRCMLstatus(WARNING_MSG, std::string("srcml: Unit is not written, as there is no such file in the output directory: ") + (unit_filename ? unit_filename : ""));
+            if (request->results)
+                srcml_transform_free(request->results);
+            return;
         }
-        filename += *request->filename;
+        if (option(SRCML_COMMAND_TO_DIRECTORY))
+            filename = (request->disk_dir ? *request->disk_dir : destination.resource) + "/" + filename;
         filename += ".xml";
 
         // create the output directory
@@ -99,7 +104,12 @@ void srcml_write_request(std::shared_ptr<ParseRequest> request, TraceLog& log, c
         srcml_archive_enable_solitary_unit(output_archive);
         srcml_archive_disable_hash(output_archive);
 
-        srcml_archive_write_open_filename(output_archive, filename.c_str());
+        if (srcml_archive_write_open_filename(output_archive, filename.c_str()) != SRCML_STATUS_OK) {
+            SRCMLstatus(ERROR_MSG, "srcml: unable to open output file " + filename);
+            if (request->results)
+                srcml_transform_free(request->results);
+            return;
+        }
     }
 
     // output scalar results
@@ -182,6 +192,8 @@ void srcml_write_request(std::shared_ptr<ParseRequest> request, TraceLog& log, c
                     auto sarchive = srcml_archive_clone(output_archive);
                     srcml_archive_enable_solitary_unit(sarchive);
                     srcml_archive_disable_hash(sarchive);
+                    // later units may have preprocessor elements
+                    srcml_archive_enable_option(sarchive, SRCML_OPTION_CPP);
                     char* buffer = 0;
                     size_t size = 0;
                     srcml_archive_write_open_memory(sarchive, &buffer, &size);
@@ -189,8 +201,17 @@ void srcml_write_request(std::shared_ptr<ParseRequest> request, TraceLog& log, c
                     srcml_unit_parse_memory(aunit.get(), "", 0);
                     srcml_archive_write_unit(sarchive, aunit.get());
                     srcml_archive_close(sarchive);
-                    status = srcml_archive_write_string(output_archive, buffer, (int) size - 51);
-                    status = srcml_archive_write_string(output_archive, ">", 1);
+                    srcml_archive_free(sarchive);
+
+                    // start tag of the empty unit, without the hash
+                    std::string tag(buffer, size);
+                    srcml_memory_free(buffer);
+                    tag.erase(tag.rfind("/>"));
+                    auto hash = tag.rfind(" hash=\"");
+                    if (hash != std::string::npos)
+                        tag.erase(hash, tag.find('"', hash + 7) + 1 - hash);
+                    tag += '>';
+                    status = srcml_archive_write_string(output_archive, tag.c_str(), (int) tag.size());
 
                     first = false;
                 }
-- 
2.43.0


From 791a3980f7c36552c05e7ebccc93797b95e9567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:29 +0000
Subject: [PATCH 59/87] fix: unit, encoding, and eol ignored when extracting to
 a directory or archive, hang with compressed source output

---
 src/client/create_src.cpp            | 37 +++++++++++++++--
 src/client/src_output_filesystem.cpp | 62 ++++++++--------------------
 src/client/src_output_filesystem.hpp |  2 +-
 src/client/src_output_libarchive.cpp | 17 +++++++-
 src/client/src_output_libarchive.hpp |  2 +-
 src/client/srcml.cpp                 | 16 +++++++
 6 files changed, 84 insertions(+), 52 deletions(-)

diff --git a/src/client/create_src.cpp b/src/client/create_src.cpp
index 52b5333..7ea9cc2 100644
--- a/src/client/create_src.cpp
+++ b/src/client/create_src.cpp
@@ -86,6 +86,18 @@ static std::unique_ptr<srcml_archive> srcml_read_open_internal(const srcml_input
 }
 
 // create source from the current request
+// with an individual unit, the previous step may still be writing
+static void read_to_end(const srcml_request_t& srcml_request, const srcml_input_src& input_source) {
+
+    if (!srcml_request.unit || !contains<int>(input_source))
+        return;
+
+    std::vector<char> buffer(16384);
+    while (read(*input_source.fd, buffer.data(), buffer.size()) > 0) {
+        // not needed
+    }
+}
+
 void create_src(const srcml_request_t& srcml_request,
                 const srcml_input_t& input_sources,
                 const srcml_output_dest& destination) {
@@ -99,7 +111,12 @@ void create_src(const srcml_request_t& srcml_request,
         for (const auto& input_source : input_sources) {
             auto arch(srcml_read_open_internal(input_source, srcml_request.revision));
 
-            src_output_filesystem(arch.get(), destination, log);
+            if (srcml_request.src_encoding)
+                srcml_archive_set_src_encoding(arch.get(), srcml_request.src_encoding->c_str());
+
+            src_output_filesystem(arch.get(), destination, log, input_sources.size() == 1 ? srcml_request.unit : 0, srcml_request.eol ? &*srcml_request.eol : nullptr);
+
+            read_to_end(srcml_request, input_source);
         }
 
     } else if (input_sources.size() == 1 && contains<int>(destination) &&
@@ -138,8 +155,8 @@ void create_src(const srcml_request_t& srcml_request,
 
             // null separator before every unit (except the first)
             if (count) {
-                if (write(1, "", 1) == -1) {
-                    SRCMLstatus(ERROR_MSG, "Unable to write to stdout");
+                if (write(*destination.fd, "", 1) == -1) {
+                    SRCMLstatus(ERROR_MSG, "srcml: unable to write the complete output");
                     break;
                 }
             }
@@ -157,6 +174,11 @@ void create_src(const srcml_request_t& srcml_request,
             ++count;
         }
 
+        read_to_end(srcml_request, input_sources[0]);
+
+        // important to close, since this is how the next step gets an EOF
+        close(*destination.fd);
+
     } else if (input_sources.size() == 1 && destination.compressions.empty() && destination.archives.empty()) {
 
         auto arch(srcml_read_open_internal(input_sources[0], srcml_request.revision));
@@ -190,6 +212,8 @@ void create_src(const srcml_request_t& srcml_request,
             exit(1);
         }
 
+        read_to_end(srcml_request, input_sources[0]);
+
     } else {
 
         // srcml->src extract to libarchive file
@@ -224,8 +248,13 @@ void create_src(const srcml_request_t& srcml_request,
 
             auto arch(srcml_read_open_internal(input_source, srcml_request.revision));
 
+            if (srcml_request.src_encoding)
+                srcml_archive_set_src_encoding(arch.get(), srcml_request.src_encoding->c_str());
+
             // extract this srcml archive to the source archive
-            src_output_libarchive(arch.get(), ar.get());
+            src_output_libarchive(arch.get(), ar.get(), input_sources.size() == 1 ? srcml_request.unit : 0, srcml_request.eol ? &*srcml_request.eol : nullptr);
+
+            read_to_end(srcml_request, input_source);
         }
     }
 }
diff --git a/src/client/src_output_filesystem.cpp b/src/client/src_output_filesystem.cpp
index c8f28aa..aca712c 100644
--- a/src/client/src_output_filesystem.cpp
+++ b/src/client/src_output_filesystem.cpp
@@ -26,50 +26,9 @@
 #include <srcml_utilities.hpp>
 #include <mkDir.hpp>
 #include <SRCMLStatus.hpp>
-#include <sstream>
 #include <string>
-#include <vector>
 
-namespace {
-
-    // path with any "." and ".." parts resolved. Empty if the path does not name a file,
-    // or the file would be outside of the starting directory
-    std::string resolve_path(const std::string& filename) {
-
-        std::vector<std::string> parts;
-        std::string part;
-        std::istringstream path(filename);
-        while (std::getline(path, part, '/')) {
-
-            if (part.empty() || part == ".")
-                continue;
-
-            if (part != "..") {
-                parts.push_back(part);
-                continue;
-            }
-
-            if (parts.empty())
-                return "";
-            parts.pop_back();
-        }
-
-        // last part has to be the name of a file
-        if (filename.empty() || filename.back() == '/' || part == "." || part == "..")
-            return "";
-
-        std::string resolved;
-        for (const auto& part : parts) {
-            if (!resolved.empty())
-                resolved += '/';
-            resolved += part;
-        }
-
-        return resolved;
-    }
-}
-
-void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_dir, TraceLog& log) {
+void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_dir, TraceLog& log, int single_unit, const int* eol) {
 
     // construct the relative directory
     std::string prefix;
@@ -79,9 +38,21 @@ void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_
     // create output directory structure as needed
     mkDir dir;
 
+    // move to the correct unit (if requested)
+    for (int i = 1; i < single_unit; ++i) {
+        if (!srcml_archive_skip_unit(srcml_arch))
+            break;
+    }
+
     int count = 0;
-    std::string last;
-    while (std::unique_ptr<srcml_unit> unit{srcml_archive_read_unit(srcml_arch)}) {
+    bool unit_found = false;
+    while (std::unique_ptr<srcml_unit> unit{single_unit && unit_found ? nullptr : srcml_archive_read_unit(srcml_arch)}) {
+
+        unit_found = true;
+
+        // if requested eol, then use that
+        if (eol)
+            srcml_unit_set_eol(unit.get(), *eol);
 
         const char* cfilename = srcml_unit_get_filename(unit.get());
         if (!cfilename) {
@@ -110,4 +81,7 @@ void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_
         if (srcml_unit_unparse_filename(unit.get(), fullfilename.c_str()) != SRCML_STATUS_OK)
             SRCMLstatus(WARNING_MSG, "srcml: Unable to write " + fullfilename);
     }
+
+    if (single_unit && !unit_found)
+        SRCMLstatus(ERROR_MSG, "Requested unit %s out of range.", single_unit);
 }
diff --git a/src/client/src_output_filesystem.hpp b/src/client/src_output_filesystem.hpp
index e3f44c6..e68f273 100644
--- a/src/client/src_output_filesystem.hpp
+++ b/src/client/src_output_filesystem.hpp
@@ -27,6 +27,6 @@
 #include <string>
 #include <TraceLog.hpp>
 
-void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_dir, TraceLog& log);
+void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_dir, TraceLog& log, int single_unit = 0, const int* eol = nullptr);
 
 #endif
diff --git a/src/client/src_output_libarchive.cpp b/src/client/src_output_libarchive.cpp
index 22a377c..7686af1 100644
--- a/src/client/src_output_libarchive.cpp
+++ b/src/client/src_output_libarchive.cpp
@@ -32,14 +32,24 @@
 #include <libarchive_utilities.hpp>
 #include <srcml_utilities.hpp>
 
-void src_output_libarchive(srcml_archive* srcml_arch, archive* src_archive) {
+void src_output_libarchive(srcml_archive* srcml_arch, archive* src_archive, int single_unit, const int* eol) {
+
+    // move to the correct unit (if requested)
+    for (int i = 1; i < single_unit; ++i) {
+        if (!srcml_archive_skip_unit(srcml_arch))
+            break;
+    }
 
     ssize_t arch_status = ARCHIVE_OK;
     int unitcounter = 0;
-    while (std::unique_ptr<srcml_unit> unit{srcml_archive_read_unit(srcml_arch)}) {
+    while (std::unique_ptr<srcml_unit> unit{single_unit && unitcounter ? nullptr : srcml_archive_read_unit(srcml_arch)}) {
 
         ++unitcounter;
 
+        // if requested eol, then use that
+        if (eol)
+            srcml_unit_set_eol(unit.get(), *eol);
+
         // have to make sure we have a valid filename
         std::string newfilename = srcml_unit_get_filename(unit.get()) ? srcml_unit_get_filename(unit.get()) : "";
         if (newfilename.empty()) {
@@ -88,4 +98,7 @@ void src_output_libarchive(srcml_archive* srcml_arch, archive* src_archive) {
             break;
         }
     }
+
+    if (single_unit && unitcounter == 0)
+        SRCMLstatus(ERROR_MSG, "Requested unit %s out of range.", single_unit);
 }
diff --git a/src/client/src_output_libarchive.hpp b/src/client/src_output_libarchive.hpp
index e9c1397..615f6be 100644
--- a/src/client/src_output_libarchive.hpp
+++ b/src/client/src_output_libarchive.hpp
@@ -26,6 +26,6 @@
 #include <archive.h>
 #include <srcml.h>
 
-void src_output_libarchive(srcml_archive* srcml_arch, archive* ar);
+void src_output_libarchive(srcml_archive* srcml_arch, archive* ar, int single_unit = 0, const int* eol = nullptr);
 
 #endif
diff --git a/src/client/srcml.cpp b/src/client/srcml.cpp
index 7267ca5..6dafaaa 100644
--- a/src/client/srcml.cpp
+++ b/src/client/srcml.cpp
@@ -150,6 +150,14 @@ See `srcml --help` for more information.
 #endif
     }
 
+    // with several steps, the files in a directory are the result of the last step
+    if (pipeline.size() > 1 && pipeline.back() == create_src)
+        SRCMLOptions::set(SRCMLOptions::get() & ~SRCML_COMMAND_NOARCHIVE);
+
+    // with several steps, the first step has already selected the individual unit of a srcML file
+    if (pipeline.size() > 1 && pipeline.front() == create_srcml && srcml_request.input_sources.size() == 1 && srcml_request.input_sources[0].state != SRC && !option(SRCML_COMMAND_PARSER_TEST))
+        srcml_request.unit = 0;
+
     // should always have something to do
     if (pipeline.empty()) {
         SRCMLstatus(ERROR_MSG, "srcml: Internal error, cannot decide what processing needed");
@@ -217,6 +225,14 @@ namespace {
     */
     bool request_output_compression(const srcml_request_t& request) {
 
+        // source archives perform their own compression, and metadata is not written to the output file
+        if (request_display_metadata(request) || (request_create_src(request) && !request.output_filename.archives.empty()))
+            return false;
+
+        // output to a directory is not compressed
+        if (option(SRCML_COMMAND_TO_DIRECTORY))
+            return false;
+
         return request.output_filename.compressions.size() >= 1;
     }
 
-- 
2.43.0


From 99da1dcfc1484256eb5207c93e6769cef9407048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:29 +0000
Subject: [PATCH 60/87] fix: url of a directory, output directories, and
 arguments that end in = on the command line

---
 src/client/srcml_cli.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/client/srcml_cli.cpp b/src/client/srcml_cli.cpp
index d104208..28e2b09 100644
--- a/src/client/srcml_cli.cpp
+++ b/src/client/srcml_cli.cpp
@@ -114,7 +114,7 @@ srcml_request_t parseCLI11(int argc, char* argv[]) {
             arg[7] = '=';
         }
 
-        if (arg.back() == '=') {
+        if (arg.substr(0, 2) == "--" && arg.find('=') == arg.size() - 1) {
             commandline.push_back(arg.substr(0, arg.size() - 1));
             commandline.push_back("");
         } else {
@@ -181,8 +181,7 @@ srcml_request_t parseCLI11(int argc, char* argv[]) {
         ->each([&](std::string value) {
             srcml_request.output_filename = srcml_output_dest(value);
 
-            if (srcml_request.output_filename.isdirectory || (srcml_request.output_filename.extension.empty()
-                && srcml_request.output_filename.filename.back() == '/')) {
+            if (srcml_request.output_filename.isdirectory || srcml_request.output_filename.isdirectoryform) {
 
                 srcml_request.command |= SRCML_COMMAND_TO_DIRECTORY;
                 srcml_request.command |= SRCML_COMMAND_NOARCHIVE;
@@ -651,7 +650,7 @@ srcml_request_t parseCLI11(int argc, char* argv[]) {
         srcml_request.input_sources.push_back(srcml_input_src("stdin://-"));
     }
 
-    if (srcml_request.input_sources.size() == 1 && srcml_request.input_sources[0].isdirectory) {
+    if (!srcml_request.att_url && srcml_request.input_sources.size() == 1 && srcml_request.input_sources[0].isdirectory) {
         auto url = srcml_request.input_sources[0].resource;
         while (url.length() > 0 && (url[0] == '.' || url[0] == '/')) {
             url.erase(0,1);
@@ -673,7 +672,7 @@ srcml_request_t parseCLI11(int argc, char* argv[]) {
         }
 
         // A reserved uri is set to a different prefix
-        if (user_uris.find(std_uri) != user_namespaces.end() && user_uris[std_uri] != std_prefix) {
+        if (user_uris.find(std_uri) != user_uris.end() && user_uris[std_uri] != std_prefix) {
             continue;
         }
 
-- 
2.43.0


From 4ff5a223f52afff3ba007f8053a00057b0b1308b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:29 +0000
Subject: [PATCH 61/87] fix: quotes in XSLT parameters, protocol of a url, and
 output lost when an input fails

---
 src/client/create_srcml.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/client/create_srcml.cpp b/src/client/create_srcml.cpp
index 2e47936..6fe309a 100644
--- a/src/client/create_srcml.cpp
+++ b/src/client/create_srcml.cpp
@@ -145,7 +145,7 @@ void create_srcml(const srcml_request_t& srcml_request,
 
     // for single input src archives (e.g., .tar), url attribute is the source url (if not already given)
     if (srcml_request.att_url) {
-        std::string url = src_prefix_resource(*srcml_request.att_url);
+        const std::string& url = *srcml_request.att_url;
         if (srcml_archive_set_url(srcml_arch.get(), url.c_str()) != SRCML_STATUS_OK) {
             SRCMLstatus(ERROR_MSG, "srcml: invalid url attribute value '%s' for srcml archive", url);
             exit(SRCML_STATUS_INVALID_ARGUMENT);
@@ -288,12 +288,12 @@ void create_srcml(const srcml_request_t& srcml_request,
             auto pos = resource.find('=');
             std::string name = resource.substr(0, pos);
             std::string value = resource.substr(pos + 1);
-            if (value[0] != '"') {
-                value.insert(0, 1, '"');
-                value.append("\"");
-            }
 
-            srcml_append_transform_param(srcml_arch.get(), name.c_str(), value.c_str());
+            // value may already be wrapped with quotes
+            if (value[0] == '"')
+                srcml_append_transform_param(srcml_arch.get(), name.c_str(), value.c_str());
+            else
+                srcml_append_transform_stringparam(srcml_arch.get(), name.c_str(), value.c_str());
 
         } else if (protocol == "relaxng") {
             if (apply_relaxng(srcml_arch.get(), resource) != SRCML_STATUS_OK) {
@@ -363,6 +363,9 @@ void create_srcml(const srcml_request_t& srcml_request,
             SRCMLstatus(ERROR_MSG, "srcml: unable to write the complete output");
     }
 
+    // finish writing to the output before it is closed
+    srcml_arch.reset();
+
     if (destination.fd)
         close(*destination.fd);
 }
-- 
2.43.0


From 4c3b2d97bb991a45dd1729d5bc3b7b6c4d6482ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:25 +0000
Subject: [PATCH 62/87] fix: namespaces added to a unit by a transformation
 were not declared

---
 src/libsrcml/srcml_transform.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 8770667..938380a 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -768,6 +768,12 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
             // also performs a free of resources
             xmlOutputBufferClose(output);
 
+            // the transformation may have added namespaces to the unit
+            for (auto ns = unitWrapped ? node->nsDef : nullptr; ns; ns = ns->next) {
+                if (ns->href && view.find((const char*) ns->href) == view.end())
+                    nunit->namespaces->push_back({ ns->prefix ? (const char*) ns->prefix : "", (const char*) ns->href, NS_REGISTERED });
+            }
+
             // update the cpp namespace if actually used
             if (usesURI(node, SRCML_CPP_NS_URI)) {
 
-- 
2.43.0


From 5b02c7ad1fc2d3d49e987dfe971fc04a901126b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:41 +0000
Subject: [PATCH 63/87] fix: downloads that were cut off were taken as
 complete, or could hang when not all of them was read

---
 src/client/create_srcml.cpp         |  8 ++++-
 src/client/decompress_srcml.cpp     |  4 +++
 src/client/input_curl.cpp           | 48 +++++++++++++++++++++--------
 src/client/input_curl.hpp           |  3 +-
 src/client/src_input_libarchive.cpp |  4 +--
 src/client/unarchive_srcml.cpp      |  4 +++
 6 files changed, 54 insertions(+), 17 deletions(-)

diff --git a/src/client/create_srcml.cpp b/src/client/create_srcml.cpp
index 6fe309a..28c198b 100644
--- a/src/client/create_srcml.cpp
+++ b/src/client/create_srcml.cpp
@@ -96,7 +96,13 @@ int srcml_handler_dispatch(ParseQueue& queue,
         return -1;
     }
 
-    return src_input_libarchive(queue, srcml_arch, srcml_request, uninput);
+    int status = src_input_libarchive(queue, srcml_arch, srcml_request, uninput);
+
+    // let the download end, as not all of it may have been read
+    if (contains<int>(uninput) && !contains<int>(input))
+        close(*uninput.fd);
+
+    return status;
 }
 
 // create srcml from the current request
diff --git a/src/client/decompress_srcml.cpp b/src/client/decompress_srcml.cpp
index 9b0d194..21181a7 100644
--- a/src/client/decompress_srcml.cpp
+++ b/src/client/decompress_srcml.cpp
@@ -107,4 +107,8 @@ void decompress_srcml(const srcml_request_t& /* srcml_request */,
 
     // important to close, since this is how the file descriptor reader get an EOF
     close(*destination.fd);
+
+    // the previous stage may still be writing data that is not needed
+    if (contains<int>(input_sources[0]))
+        close(*input_sources[0].fd);
 }
diff --git a/src/client/input_curl.cpp b/src/client/input_curl.cpp
index ab132d6..057332c 100644
--- a/src/client/input_curl.cpp
+++ b/src/client/input_curl.cpp
@@ -27,6 +27,8 @@
 #include <mutex>
 #include <condition_variable>
 #include <atomic>
+#include <cerrno>
+#include <map>
 #include <memory>
 
 bool curl_supported(const std::string& input_protocol) {
@@ -60,6 +62,12 @@ namespace {
             cv.notify_one();
         }
 
+        // data could not be completely downloaded
+        std::atomic<bool> failed{ false };
+
+        // reader of the data does not need any more
+        bool unread = false;
+
     private:
         bool done = false;
         bool go = false;
@@ -73,17 +81,17 @@ namespace {
         Download* download = nullptr;
     };
 
-    std::atomic<bool> curl_errors(false);
+    // latest download for each file descriptor that a download is read from
+    std::map<int, std::shared_ptr<Download>> downloads;
+    std::mutex downloads_mutex;
 }
 
-// coordinate curl error response
-// only call before the download is signaled
-void setCurlErrors(bool flag) {
-    curl_errors = flag;
-}
+bool getCurlErrors(int fd) {
 
-bool getCurlErrors() {
-    return curl_errors;
+    std::lock_guard<std::mutex> lock(downloads_mutex);
+
+    auto it = downloads.find(fd);
+    return it != downloads.end() && it->second->failed;
 }
 
 /*
@@ -107,9 +115,19 @@ size_t our_curl_write_callback(char *ptr, size_t size, size_t nmemb, void *userd
 
     data->download->signal(true);
 
-    ssize_t result = write(data->outfd, ptr, size * nmemb);
+    size_t written = 0;
+    while (written < size * nmemb) {
+
+        ssize_t result = write(data->outfd, ptr + written, size * nmemb - written);
+        if (result == -1) {
+            data->download->unread = errno == EPIPE;
+            return 0;
+        }
+
+        written += (size_t) result;
+    }
 
-    return result == -1 ? 0 : (size_t) result;
+    return written;
 }
 
 // downloads URL into file descriptor
@@ -153,14 +171,13 @@ int input_curl(srcml_input_src& input) {
         CURLcode response = curl_easy_perform(curl_handle);
 
         // check for download errors
-        if (response != CURLE_OK) {
+        if (response != CURLE_OK && !download->unread) {
             SRCMLstatus(WARNING_MSG, "srcml: Unable to access URL " + url);
-            setCurlErrors(true);
+            download->failed = true;
             download->signal(false);
 
         } else {
 
-            setCurlErrors(false);
             download->signal(true);
         }
 
@@ -174,6 +191,11 @@ int input_curl(srcml_input_src& input) {
         curl_global_cleanup();
     });
 
+    {
+        std::lock_guard<std::mutex> lock(downloads_mutex);
+        downloads[*input.fd] = download;
+    }
+
     // wait to see if curl is able to download the url at all
     return download->wait();
 }
diff --git a/src/client/input_curl.hpp b/src/client/input_curl.hpp
index 5859583..f688bd1 100644
--- a/src/client/input_curl.hpp
+++ b/src/client/input_curl.hpp
@@ -30,6 +30,7 @@ bool curl_supported(const std::string& input_protocol);
 // adjust input for libcurl and libarchive decompressions
 int input_curl(srcml_input_src& input);
 
-bool getCurlErrors();
+// if the download that is read from the file descriptor is not complete
+bool getCurlErrors(int fd);
 
 #endif
diff --git a/src/client/src_input_libarchive.cpp b/src/client/src_input_libarchive.cpp
index 834b87f..1be78d9 100644
--- a/src/client/src_input_libarchive.cpp
+++ b/src/client/src_input_libarchive.cpp
@@ -147,7 +147,7 @@ int src_input_libarchive(ParseQueue& queue,
             (status == ARCHIVE_WARN) ||
             (status == ARCHIVE_EOF && !count))) {
 
-        if (status == ARCHIVE_EOF && getCurlErrors())
+        if (status == ARCHIVE_EOF && contains<int>(input_file) && getCurlErrors(*input_file.fd))
             return 0;
 
         // a warning, e.g., on the characters in a filename, does not affect the contents
@@ -282,7 +282,7 @@ int src_input_libarchive(ParseQueue& queue,
             }
 
             // incomplete source code is not parsed
-            if (data_status != ARCHIVE_EOF) {
+            if (data_status != ARCHIVE_EOF || (contains<int>(input_file) && archive_format(arch.get()) == ARCHIVE_FORMAT_RAW && getCurlErrors(*input_file.fd))) {
                 SRCMLstatus(WARNING_MSG, "srcml: Unable to read file " + filename);
                 ++count;
                 continue;
diff --git a/src/client/unarchive_srcml.cpp b/src/client/unarchive_srcml.cpp
index df6e9a2..f93f7db 100644
--- a/src/client/unarchive_srcml.cpp
+++ b/src/client/unarchive_srcml.cpp
@@ -79,4 +79,8 @@ void unarchive_srcml(const srcml_request_t& /* srcml_request */,
 
     // important to close, since this is how the file descriptor reader get an EOF
     close(*destination.fd);
+
+    // the previous stage may still be writing data that is not needed
+    if (contains<int>(input_sources[0]))
+        close(*input_sources[0].fd);
 }
-- 
2.43.0


From d7523b09c82b8a311ffda4d718ac74cdc1d557f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:51 +0000
Subject: [PATCH 64/87] fix: errors writing compressed output or closing a
 source archive were not reported

---
 src/client/compress_srcml.cpp | 14 +++++++++++---
 src/client/create_src.cpp     |  4 ++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/client/compress_srcml.cpp b/src/client/compress_srcml.cpp
index 57affd2..97c8610 100644
--- a/src/client/compress_srcml.cpp
+++ b/src/client/compress_srcml.cpp
@@ -74,15 +74,23 @@ void compress_srcml(const srcml_request_t& /* srcml_request */,
     }
 
     // write the data into the archive
+    // after an error, continue to read so that the previous step can end
+    bool written = true;
     std::vector<char> buffer(4092);
     while (true) {
         ssize_t s = read(*input_sources[0].fd, buffer.data(), (size_t) buffer.size());
         if (s <= 0)
             break;
 
-        ssize_t status = archive_write_data(ar.get(), buffer.data(), s);
-        if (status == 0)
-            break;
+        if (written && archive_write_data(ar.get(), buffer.data(), s) != s)
+            written = false;
     }
+
+    // part of the data may be written when closed
+    if (archive_write_close(ar.get()) != ARCHIVE_OK)
+        written = false;
+
+    if (!written)
+        SRCMLstatus(ERROR_MSG, "srcml: unable to write the complete output");
 }
 #endif
diff --git a/src/client/create_src.cpp b/src/client/create_src.cpp
index 7ea9cc2..d2feb1d 100644
--- a/src/client/create_src.cpp
+++ b/src/client/create_src.cpp
@@ -256,5 +256,9 @@ void create_src(const srcml_request_t& srcml_request,
 
             read_to_end(srcml_request, input_source);
         }
+
+        // part of the archive may be written when closed
+        if (archive_write_close(ar.get()) != ARCHIVE_OK)
+            SRCMLstatus(ERROR_MSG, "srcml: unable to write the complete output");
     }
 }
-- 
2.43.0


From 233b8a3e95ebb8feb11f10f79d197c2766af9727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:51 +0000
Subject: [PATCH 65/87] fix: .tbz, .lz, .xar, and several compressions were not
 what their extensions say

---
 src/client/compress_srcml.cpp | 6 +++---
 src/client/create_src.cpp     | 6 +++---
 src/client/src_archive.cpp    | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/client/compress_srcml.cpp b/src/client/compress_srcml.cpp
index 97c8610..963b98b 100644
--- a/src/client/compress_srcml.cpp
+++ b/src/client/compress_srcml.cpp
@@ -41,9 +41,9 @@ void compress_srcml(const srcml_request_t& /* srcml_request */,
     }
     archive_write_set_format_raw(ar.get());
 
-    // setup compressions
-    for (const auto& ext : destination.compressions)
-        archive_write_set_compression_by_extension(ar.get(), ext.c_str());
+    // setup compressions, where the last extension is for the outermost compression
+    for (auto ext = destination.compressions.rbegin(); ext != destination.compressions.rend(); ++ext)
+        archive_write_set_compression_by_extension(ar.get(), ext->c_str());
 
     // open the new archive based on input source
     int status = ARCHIVE_OK;
diff --git a/src/client/create_src.cpp b/src/client/create_src.cpp
index d2feb1d..ad5577a 100644
--- a/src/client/create_src.cpp
+++ b/src/client/create_src.cpp
@@ -228,9 +228,9 @@ void create_src(const srcml_request_t& srcml_request,
         for (const auto& ext : destination.archives)
             archive_write_set_format_by_extension(ar.get(), ext.c_str());
 
-        // setup compressions
-        for (const auto& ext : destination.compressions)
-            archive_write_set_compression_by_extension(ar.get(), ext.c_str());
+        // setup compressions, where the last extension is for the outermost compression
+        for (auto ext = destination.compressions.rbegin(); ext != destination.compressions.rend(); ++ext)
+            archive_write_set_compression_by_extension(ar.get(), ext->c_str());
 
         int status = ARCHIVE_OK;
         if (contains<int>(destination)) {
diff --git a/src/client/src_archive.cpp b/src/client/src_archive.cpp
index 7d7dc5a..4beb26b 100644
--- a/src/client/src_archive.cpp
+++ b/src/client/src_archive.cpp
@@ -44,7 +44,7 @@ namespace {
         { ".tgz",  archive_write_set_format_pax_restricted },  // (archive w/ compression)
         { ".tlz",  archive_write_set_format_pax_restricted },  // (archive w/ compression)
         { ".txz",  archive_write_set_format_pax_restricted },  // (archive w/ compression)
-        { ".xar",  archive_write_set_format_pax_restricted },
+        { ".xar",  archive_write_set_format_xar },  // (archive w/ compression)
         { ".zip",  archive_write_set_format_zip },  // (archive w/ compression)
     };
 
@@ -53,15 +53,15 @@ namespace {
 
         { ".bz2" , archive_write_add_filter_bzip2 },
         { ".gz"  , archive_write_add_filter_gzip },
-        { ".lz"  , archive_write_add_filter_lzma },
+        { ".lz"  , archive_write_add_filter_lzip },
         { ".lzma", archive_write_add_filter_lzma },
         { ".taz",  archive_write_add_filter_compress },  // (archive w/ compression)
         { ".tb2",  archive_write_add_filter_bzip2 },  // (archive w/ compression)
+        { ".tbz",  archive_write_add_filter_bzip2 },  // (archive w/ compression)
         { ".tbz2", archive_write_add_filter_bzip2 }, // (archive w/ compression)
         { ".tgz",  archive_write_add_filter_gzip },  // (archive w/ compression)
         { ".tlz",  archive_write_add_filter_lzma },  // (archive w/ compression)
         { ".txz",  archive_write_add_filter_xz },  // (archive w/ compression)
-        { ".xar",  archive_write_add_filter_xz },
         { ".xz"  , archive_write_add_filter_xz },
         { ".z"   , archive_write_add_filter_compress },
     };
-- 
2.43.0


From dc497009cb5a5b5e4d49aa1f9654e4d880f5b99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:51 +0000
Subject: [PATCH 66/87] fix: errors reading a directory were not reported, and
 its other files were lost

---
 src/client/src_input_filesystem.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/client/src_input_filesystem.cpp b/src/client/src_input_filesystem.cpp
index 1ce146b..55f4e97 100644
--- a/src/client/src_input_filesystem.cpp
+++ b/src/client/src_input_filesystem.cpp
@@ -27,6 +27,7 @@
 #include <src_input_libarchive.hpp>
 #include <src_input_filesystem.hpp>
 #include <srcml_input_srcml.hpp>
+#include <SRCMLStatus.hpp>
 
 #include <list>
 #include <deque>
@@ -77,7 +78,16 @@ int src_input_filesystem(ParseQueue& queue,
     archive_entry* entry = archive_entry_new();
     bool first = true;
     int status = ARCHIVE_OK;
-    while ((status = archive_read_next_header2(darchive, entry)) == ARCHIVE_OK) {
+    while ((status = archive_read_next_header2(darchive, entry)) != ARCHIVE_EOF) {
+
+        // part of the directory may not be readable
+        if (status < ARCHIVE_WARN) {
+            const char* reason = archive_error_string(darchive);
+            SRCMLstatus(WARNING_MSG, "srcml: Unable to read all of directory " + input + (reason ? std::string(": ") + reason : ""));
+            if (status == ARCHIVE_FATAL)
+                break;
+            continue;
+        }
 
         std::string filename = archive_entry_pathname(entry);
 
-- 
2.43.0


From c8f327f4f399f026dd071ec4435fcf50e063d618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:51 +0000
Subject: [PATCH 67/87] fix: a pipe that cannot be created was used

---
 src/client/srcml_execute.cpp | 2 +-
 src/client/srcml_pipe.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/srcml_execute.cpp b/src/client/srcml_execute.cpp
index 9c94d3f..25e866f 100644
--- a/src/client/srcml_execute.cpp
+++ b/src/client/srcml_execute.cpp
@@ -53,7 +53,7 @@ void srcml_execute(const srcml_request_t& srcml_request,
 #if !defined(_MSC_BUILD) && !defined(__MINGW32__)
             if (pipe(fds) == -1) {
                 perror("srcml");
-                return;
+                exit(1);
             }
 #else
             HANDLE read_pipe;
diff --git a/src/client/srcml_pipe.cpp b/src/client/srcml_pipe.cpp
index 4779480..b9b7f0d 100644
--- a/src/client/srcml_pipe.cpp
+++ b/src/client/srcml_pipe.cpp
@@ -43,7 +43,7 @@ void srcml_pipe(srcml_input_src& input, srcml_pipe_process process, srcml_reques
 #if !defined(_MSC_BUILD) && !defined(__MINGW32__)
     if (pipe(fds) == -1) {
         perror("srcml");
-        return;
+        exit(1);
     }
 #else
     HANDLE read_pipe;
-- 
2.43.0


From 24a50e6bd0770deaa4ca7383636b93b688c3556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:51 +0000
Subject: [PATCH 68/87] fix: dlclose of a libxslt that was not loaded

---
 src/libsrcml/xpathTransformation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index e4746f1..12eff28 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -101,7 +101,8 @@ xpathTransformation::~xpathTransformation() {
         xmlFreeNs(element_ns);
 
 #ifdef DLLOAD
-    dlclose(handle);
+    if (handle)
+        dlclose(handle);
 #endif
 }
 
-- 
2.43.0


From 61dec8620cea0a01e6516fc2c41fd028ce35beb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:51 +0000
Subject: [PATCH 69/87] fix: an archive entry named data was taken for a single
 file, directories in an archive for units

---
 src/client/src_input_libarchive.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/client/src_input_libarchive.cpp b/src/client/src_input_libarchive.cpp
index 1be78d9..5c58af2 100644
--- a/src/client/src_input_libarchive.cpp
+++ b/src/client/src_input_libarchive.cpp
@@ -162,8 +162,10 @@ int src_input_libarchive(ParseQueue& queue,
         }
 
         // skip any directories
-        if (status == ARCHIVE_OK && archive_entry_filetype(entry) == AE_IFDIR)
+        if (status == ARCHIVE_OK && archive_entry_filetype(entry) == AE_IFDIR) {
+            ++count;
             continue;
+        }
 
         // default is filename from archive entry (if not empty)
         const char* pathname = status == ARCHIVE_OK ? archive_entry_pathname(entry) : "";
@@ -177,23 +179,25 @@ int src_input_libarchive(ParseQueue& queue,
 
         // starting in libarchive 3.4 gz compression, although ARCHIVE_FORMAT_RAW, has an
         // entry. For consisten behavior, ignore this for now
-        if (archive_format(arch.get()) == ARCHIVE_FORMAT_RAW) {
+        // note that a source archive may have an entry with this name
+        const bool is_single_file = archive_format(arch.get()) == ARCHIVE_FORMAT_RAW;
+        if (is_single_file) {
             filename = "data";
         }
 
         // stdin, single files require a explicit filename
-        if (filename == "data" && !srcml_request.att_language && input_file.filename == "stdin://-") {
+        if (is_single_file && !srcml_request.att_language && input_file.filename == "stdin://-") {
             SRCMLstatus(ERROR_MSG, "Language required for stdin single files");
             exit(1);
         }
 
         // if a prefix (e.g., from filesystem), tack that on to the libarchive entry
-        if (filename != "data" && !filename.empty() && !input_file.prefix.empty()) {
+        if (!is_single_file && !filename.empty() && !input_file.prefix.empty()) {
             filename = input_file.prefix + "/" + filename;
         }
 
         // archive entry filename for non-archive input is "data"
-        if (filename.empty() || filename == "data") {
+        if (filename.empty() || is_single_file) {
             filename = input_file.resource;
             auto it = filename.begin();
             while (*it == '.' && std::next(it) != filename.end() && *std::next(it) == '/') {
-- 
2.43.0


From 2374b5becb74f27d49c7aa562ac9ca1743bea6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:51 +0000
Subject: [PATCH 70/87] fix: parser test read past the end of strings and
 reported a wrong language, url, and percentage

---
 src/client/ParserTest.cpp | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/client/ParserTest.cpp b/src/client/ParserTest.cpp
index a0ed4f8..bb11ab9 100644
--- a/src/client/ParserTest.cpp
+++ b/src/client/ParserTest.cpp
@@ -41,8 +41,11 @@ void ParserTest::entry(const ParseRequest* request, srcml_archive* archive, srcm
 
     bool color = !(SRCMLOptions::get() & SRCML_COMMAND_NO_COLOR);
 
-    if (request->url)
-        url = *request->url;
+    url = request->url ? *request->url : "";
+
+    // units of the same file may be in different languages
+    if (srcml_unit_get_language(unit))
+        unit_language = srcml_unit_get_language(unit);
 
     if (previous_filename.empty() || (request->parsertest_filename != previous_filename)) {
 
@@ -52,8 +55,6 @@ void ParserTest::entry(const ParseRequest* request, srcml_archive* archive, srcm
         if (!srcml_unit_get_language(unit))
             return;
 
-        unit_language = srcml_unit_get_language(unit);
-
         std::ostringstream sout;
         sout << '\n' << std::setw(FIELD_WIDTH_LANGUAGE) << std::left << unit_language;
         sout << std::setw(FIELD_WIDTH_URL) << std::left << url;
@@ -116,33 +117,29 @@ void ParserTest::entry(const ParseRequest* request, srcml_archive* archive, srcm
             std::count(ssout.begin(), ssout.end(), '\n') > CUTOFF) {
 
             // find where the strings are different
-            auto off = std::mismatch(sxml.begin(), sxml.end(), ssout.begin());
+            auto off = std::mismatch(sxml.begin(), sxml.begin() + (std::ptrdiff_t) std::min(sxml.size(), ssout.size()), ssout.begin());
 
             // backup to right after the previous newline
-            while (off.first != sxml.begin() && *off.first != '\n') {
+            while (off.first != sxml.begin() && *std::prev(off.first) != '\n') {
                 off.first = std::prev(off.first);
                 off.second = std::prev(off.second);
             }
-            if (*off.first == '\n') {
-                off.first = std::next(off.first);
-                off.second = std::next(off.second);
-            }
 
             // remove the common start of the strings
             sxml.erase(sxml.begin(), off.first);
             ssout.erase(ssout.begin(), off.second);
 
             // find where the strings are different at the end
-            const auto endoff = std::mismatch(sxml.rbegin(), sxml.rend(), ssout.rbegin());
+            auto endoff = std::mismatch(sxml.rbegin(), sxml.rbegin() + (std::ptrdiff_t) std::min(sxml.size(), ssout.size()), ssout.rbegin());
 
-            // backup to right before the previous newline
-            while (off.first != sxml.begin() && *off.first != '\n') {
-                off.first = std::prev(off.first);
-                off.second = std::prev(off.second);
+            // forward to right after the next newline
+            while (endoff.first != sxml.rbegin() && *std::prev(endoff.first) != '\n') {
+                endoff.first = std::prev(endoff.first);
+                endoff.second = std::prev(endoff.second);
             }
-            if (*off.first == '\n') {
-                off.first = std::next(off.first);
-                off.second = std::next(off.second);
+            if (endoff.first != sxml.rbegin()) {
+                endoff.first = std::prev(endoff.first);
+                endoff.second = std::prev(endoff.second);
             }
 
             // remove the common end of the strings
@@ -154,7 +151,7 @@ void ParserTest::entry(const ParseRequest* request, srcml_archive* archive, srcm
         std::ostringstream error_report;
         error_report << (color ? "\033[0;30;1m" : "") << unit_language << '\t' << url << '\t' << previous_filename << '\t' << std::to_string(count) << (color ? "\033[0m" : "") << '\n' << (color ? "\033[0;30;1m" : "") << " "
                      << "test:\n" << (color ? "\033[0m" : "") << sxml << (color ? "\033[0;30;1m" : "");
-         if (sxml.back() != '\n')
+         if (sxml.empty() || sxml.back() != '\n')
             error_report << '\n';
         error_report << "srcml:\n" << (color ? "\033[0m" : "") << ssout << '\n';
         errors.push_back(error_report.str());
@@ -198,7 +195,7 @@ void ParserTest::report(srcml_archive* archive) {
     sout << (color ? "\033[0;30;1m" : "") << "\nCounts: " << (color ? "\033[0m" : "") << std::setw(FIELD_WIDTH_LANGUAGE) << std::left << "Total" << std::setw(6) << std::right << failed << std::setw(6) << std::right << total << '\t';
     sout << std::setw(4) << std::right;
     if (percent == 0 || percent >= 1)
-        sout << std::setprecision(2) << percent;
+        sout << std::setprecision(percent < 99.5 ? 2 : 3) << percent;
     else
         sout << "<1";
     sout << "%" << '\n';
@@ -210,7 +207,7 @@ void ParserTest::report(srcml_archive* archive) {
         sout << "        " << std::setw(FIELD_WIDTH_LANGUAGE) << std::left << kv.first << std::setw(6) << std::right << misses[kv.first] << std::setw(6) << std::right << kv.second << '\t';
         sout << std::setw(4) << std::right;
         if (percent == 0 || percent >= 1)
-            sout << std::setprecision(2) << percent;
+            sout << std::setprecision(percent < 99.5 ? 2 : 3) << percent;
         else
             sout << "<1";
         sout << "%" << '\n';
-- 
2.43.0


From e6afe7911b2780dae2e0feb38b8357cfd6e83fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:51 +0000
Subject: [PATCH 71/87] fix: an else after a try statement, or after a loop
 with an if, was not part of the if it belongs to

---
 src/parser/srcMLParser.g | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index d2cfd23..114eb06 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -3664,7 +3664,12 @@ else_handling[] { ENTRY_DEBUG } :
             bool restoftry = LA(1) == CATCH || LA(1) == CXX_CATCH || LA(1) == FINALLY;
             if (intry && !restoftry) {
                 endMode(MODE_TRY);
-                endDownToMode(MODE_TOP);
+
+                // an else that follows may belong to an if statement that the try statement is the then of
+                if (LA(1) == ELSE && inTransparentMode(MODE_IF))
+                    endDownToModeSet(MODE_TOP | MODE_IF | MODE_ELSE);
+                else
+                    endDownToMode(MODE_TOP);
             }
 
             // handle parts of if
@@ -3696,6 +3701,11 @@ else_handling[] { ENTRY_DEBUG } :
 
                             endMode();
 
+                            // the if statement may be nested in a statement, e.g., a loop, that ends
+                            // here as the else belongs to an outer if
+                            if (inTransparentMode(MODE_IF))
+                                endDownToModeSet(MODE_TOP | MODE_IF | MODE_ELSE);
+
                         }
 
                     }
-- 
2.43.0


From dcb76ba373b7d9a4d666c5b1f905ecdaf37f01e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:51 +0000
Subject: [PATCH 72/87] fix: the ~ at the start of a ternary was put before it

---
 src/parser/srcMLParser.g | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 114eb06..c0a6d16 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -6223,8 +6223,9 @@ expression_part_no_ternary[CALL_TYPE type = NOCALL, int call_count = 1] { bool f
         // looks like general operators and variable identifier can match same thing
         (options { generateAmbigWarnings = false; } : general_operators
         {
+            // not the call of a destructor, but may be the start of a ternary
             if (inLanguage(LANGUAGE_CXX_FAMILY) && LA(1) == DESTOP)
-                general_operators();
+                notdestructor = true;
         }
         | qmark | /* newop | */ period | member_pointer | member_pointer_dereference | dot_dereference |
 
@@ -7948,8 +7949,9 @@ expression_part[CALL_TYPE type = NOCALL, int call_count = 1] { bool flag; bool i
         // looks like general operators and variable identifier can match same thing
         (options { generateAmbigWarnings = false; } : general_operators
         {
+            // not the call of a destructor, but may be the start of a ternary
             if (inLanguage(LANGUAGE_CXX_FAMILY) && LA(1) == DESTOP)
-                general_operators();
+                notdestructor = true;
         }
         | qmark | /* newop | */ period | member_pointer | member_pointer_dereference | dot_dereference |
 
-- 
2.43.0


From 81eb8943af4bc794558e9db65095202c1e451e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:34 +0000
Subject: [PATCH 73/87] fix: C++ constructors after a nested class or its
 declaration were marked as macros

---
 src/parser/srcMLParser.g | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index c0a6d16..174f455 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -731,7 +731,16 @@ public:
     bool is_qmark = false;
     bool notdestructor = false;
     bool operatorname = false;
-    std::stack<std::string> class_namestack;
+    // names of the classes, with the number of modes when the class was started
+    std::vector<std::pair<std::string, size_t>> class_namestack;
+
+    // name of the innermost class that was started and has not ended
+    bool is_class_name(const std::string& name) const {
+        auto pos = class_namestack.rbegin();
+        while (pos != class_namestack.rend() && pos->second >= (size_t) size())
+            ++pos;
+        return pos != class_namestack.rend() && pos->first == name;
+    }
 
     bool skip_ternary = false;
 
@@ -3323,7 +3332,11 @@ class_header_base[] { bool insuper = false; ENTRY_DEBUG } :
     {
         setMode(MODE_CLASS_NAME);
 
-        class_namestack.push(LT(1)->getText());
+        // classes that ended in the meantime
+        while (!class_namestack.empty() && class_namestack.back().second >= (size_t) size())
+            class_namestack.pop_back();
+
+        class_namestack.emplace_back(LT(1)->getText(), size());
     }
         // suppress ()* warning
         ({ LA(1) != FINAL }? compound_name | keyword_name)
@@ -3520,14 +3533,8 @@ rcurly[] { ENTRY_DEBUG } :
             // end any elements inside of the block
             // basically, endDownToMode(MODE_TOP), but checking for class ending
             if (inTransparentMode(MODE_TOP)) {
-                while (size() > 1 && !inMode(MODE_TOP)) {
-                    if (inMode(MODE_CLASS))
-                        if (!class_namestack.empty()) {
-                            class_namestack.pop();
-                        }
-
+                while (size() > 1 && !inMode(MODE_TOP))
                     endMode();
-                }
             }
 
             // flush any whitespace tokens since sections should
@@ -4534,7 +4541,7 @@ pattern_check_core[int& token,      /* second token, after name (always returned
 
                  (
                     // inside of a C++ class definition must match class name
-                    (inMode(MODE_ACCESS_REGION) && !class_namestack.empty() && class_namestack.top() == namestack[0]) ||
+                    (inMode(MODE_ACCESS_REGION) && is_class_name(namestack[0])) ||
 
                     (inTransparentMode(MODE_ACCESS_REGION) && inMode(MODE_TEMPLATE)) ||
 
-- 
2.43.0


From c525be5e5fe1582791f3667250908e9bfec0cae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:34 +0000
Subject: [PATCH 74/87] fix: commas between arguments were taken for the comma
 of a foreach

---
 src/parser/srcMLParser.g | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 174f455..bc72359 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -4017,7 +4017,8 @@ comma[] { bool markup_comma = true; ENTRY_DEBUG } :
         }
         comma_marked[markup_comma]
         {
-            if (inTransparentMode(MODE_CONTROL_CONDITION | MODE_END_AT_COMMA)) {
+            // a comma between arguments does not start the range
+            if (inTransparentMode(MODE_CONTROL_CONDITION | MODE_END_AT_COMMA) && !inMode(MODE_ARGUMENT)) {
 
                 startNewMode(MODE_LIST | MODE_IN_INIT | MODE_EXPRESSION | MODE_EXPECT);
                 startNoSkipElement(SDECLARATION_RANGE);
-- 
2.43.0


From c58e75ba04021a568c8255b88263104612525bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:35 +0000
Subject: [PATCH 75/87] fix: auto& and auto* declarations were taken for
 expressions

---
 src/parser/srcMLParser.g | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index bc72359..8647702 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -4440,7 +4440,7 @@ pattern_check_core[int& token,      /* second token, after name (always returned
                 set_bool[operatorname, false] |
 
                 // always count as a name for now since is always used as a type or type modifier
-                auto_keyword[false] | 
+                auto_keyword[false] set_bool[foundpure, foundpure || next_token() != LBRACKET] | 
 
                 EVENT set_bool[is_event] |
 
@@ -5835,7 +5835,9 @@ single_keyword_specifier[] { SingleElement element(this); ENTRY_DEBUG } :
 // C/C++ auto specifier (as either type name or specifier)
 auto_keyword[bool is_specifier] { SingleElement element(this); ENTRY_DEBUG } :
         {
-            if (is_specifier)
+            // the type itself if all that follows are modifiers, e.g., const auto& a
+            int next = is_specifier ? next_token() : 0;
+            if (is_specifier && next != REFOPS && next != RVALUEREF && next != MULTOPS)
                 startElement(SFUNCTION_SPECIFIER);
             else
                 startElement(SNAME);
-- 
2.43.0


From 49e8071700e1f59f0ed963bcee60316170b9e62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:35 +0000
Subject: [PATCH 76/87] fix: the last call in braces was taken for a macro

---
 src/parser/srcMLParser.g | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 8647702..2292284 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -1970,7 +1970,7 @@ perform_call_check[CALL_TYPE& type, bool& isempty, int& call_count, int secondto
             (((!inLanguage(LANGUAGE_OBJECTIVE_C) || !inTransparentMode(MODE_OBJECTIVE_C_CALL)) && (keyword_token_set.member(postcalltoken) || postcalltoken == NAME || postcalltoken == VOID))
             || (!inLanguage(LANGUAGE_CSHARP) && postcalltoken == LCURLY)
             || postcalltoken == EXTERN || postcalltoken == STRUCT || postcalltoken == UNION || postcalltoken == CLASS || postcalltoken == CXX_CLASS
-            || (!inLanguage(LANGUAGE_CSHARP) && postcalltoken == RCURLY)
+            || (!inLanguage(LANGUAGE_CSHARP) && postcalltoken == RCURLY && !inTransparentMode(MODE_INTERNAL_END_CURLY))
             || (postnametoken != 1 && postcalltoken == 1 /* EOF ? */)
             || postcalltoken == TEMPLATE || postcalltoken == INLINE
             || postcalltoken == PUBLIC || postcalltoken == PRIVATE || postcalltoken == PROTECTED || postcalltoken == SIGNAL
-- 
2.43.0


From 5ead33b83842fc4791ce5e8e488c4139529a2ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:35 +0000
Subject: [PATCH 77/87] fix: the braces of an initial value in the body of a
 lambda or delegate were taken for a block

---
 src/parser/srcMLParser.g | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 2292284..b6468ba 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -864,7 +864,7 @@ start[] { ++start_count; ENTRY_DEBUG_START ENTRY_DEBUG } :
         { ((inTransparentMode(MODE_CONDITION) ||
             (!inMode(MODE_EXPRESSION) && !inMode(MODE_EXPRESSION_BLOCK | MODE_EXPECT))) 
         && !inTransparentMode(MODE_CALL | MODE_INTERNAL_END_PAREN)
-        && (!inLanguage(LANGUAGE_CXX) || !inTransparentMode(MODE_INIT | MODE_EXPECT))) || inTransparentMode(MODE_ANONYMOUS) }? lcurly |
+        && (!inLanguage(LANGUAGE_CXX) || (!inTransparentMode(MODE_INIT | MODE_EXPECT) && !inMode(MODE_ARGUMENT | MODE_LIST)))) || (inTransparentMode(MODE_ANONYMOUS) && !inMode(MODE_EXPRESSION) && !inMode(MODE_INIT)) }? lcurly |
 
         { inMode(MODE_ARGUMENT_LIST) }? call_argument_list |
 
-- 
2.43.0


From f73953ed0007ef2ca239230bf4a5022133453380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:35 +0000
Subject: [PATCH 78/87] fix: the arguments of a call of a call in an index or
 new were not marked

---
 src/parser/srcMLParser.g | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index b6468ba..0c96755 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -5249,6 +5249,9 @@ complete_expression[] { CompleteElement element(this); ENTRY_DEBUG } :
 
             { inLanguage(LANGUAGE_OBJECTIVE_C) && LA(1) == LBRACKET }? complete_objective_c_call |
 
+            // arguments of the call of a call
+            { inMode(MODE_ARGUMENT_LIST) && LA(1) == LPAREN }? call_argument_list |
+
             // argument mode (as part of call)
             { inMode(MODE_ARGUMENT) }? argument |
 
-- 
2.43.0


From 5b86c2c33eae4c0afae5fa1069aea5899d2c70ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:35 +0000
Subject: [PATCH 79/87] fix: noexcept in arguments and conditions was not an
 operator

---
 src/parser/srcMLParser.g | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 0c96755..78842c6 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -1716,11 +1716,16 @@ noexcept_list[] { ENTRY_DEBUG } :
         { 
 
             if (LA(1) != LPAREN) endMode(); 
-            else startElement(SARGUMENT_LIST); 
+            else {
+
+                setMode(MODE_INTERNAL_END_PAREN | MODE_END_ONLY_AT_RPAREN);
+                startElement(SARGUMENT_LIST); 
+
+            }
 
         } 
 
-        (options { greedy = true;} : LPAREN)*
+        (options { greedy = true;} : LPAREN)?
 ;
 
 // match a thow list completely
@@ -3795,7 +3800,8 @@ statement_part[] { int type_count; int secondtoken = 0; int after_token = 0; STM
         ref_qualifier |
 
         // throw list at end of function header
-        { (inLanguage(LANGUAGE_CXX))&& inTransparentMode(MODE_FUNCTION_TAIL) }?
+        { (inLanguage(LANGUAGE_CXX))&& inTransparentMode(MODE_FUNCTION_TAIL) && !inMode(MODE_EXPRESSION) && (!inMode(MODE_ARGUMENT | MODE_LIST) || inPrevMode(MODE_FUNCTION_TAIL))
+          && !inMode(MODE_CONDITION | MODE_EXPECT) && !inMode(MODE_CONTROL_CONDITION | MODE_EXPECT) && !inMode(MODE_CONTROL_INCREMENT | MODE_EXPECT) }?
         noexcept_list |
 
         // throw list at end of function header
-- 
2.43.0


From f96bfe5c3423a364adc732258fbd35a2d08f7d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:35 +0000
Subject: [PATCH 80/87] fix: a lambda in braces did not end with its body

---
 src/parser/srcMLParser.g | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 78842c6..77a7031 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -851,7 +851,7 @@ start[] { ++start_count; ENTRY_DEBUG_START ENTRY_DEBUG } :
         { !inTransparentMode(MODE_INTERNAL_END_PAREN) || inPrevMode(MODE_CONDITION) }? rparen[false] |
 
         // characters with special actions that usually end currently open elements
-        { !inTransparentMode(MODE_INTERNAL_END_CURLY) }? block_end |
+        { !inTransparentMode(MODE_INTERNAL_END_CURLY) || (getFirstMode(MODE_INTERNAL_END_CURLY | MODE_BLOCK) & MODE_INTERNAL_END_CURLY) == 0 }? block_end |
 
         terminate |
 
-- 
2.43.0


From 4460ea43d1cc4c9c8083953dcfda4c6a62234c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:35 +0000
Subject: [PATCH 81/87] fix: C# arguments with braces or a query were taken for
 a macro

---
 src/parser/srcMLParser.g | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 77a7031..4295194 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -2033,7 +2033,7 @@ call_check[int& postnametoken, int& argumenttoken, int& postcalltoken, bool& ise
 ;
 
 // check the contents of a call
-call_check_paren_pair[int& argumenttoken, int depth = 0] { int call_token = LA(1); bool name = false; ENTRY_DEBUG } :
+call_check_paren_pair[int& argumenttoken, int depth = 0] { int call_token = LA(1); bool name = false; bool linq = false; ENTRY_DEBUG } :
 
         (LPAREN | { inLanguage(LANGUAGE_CXX) }? LCURLY)
 
@@ -2042,10 +2042,13 @@ call_check_paren_pair[int& argumenttoken, int depth = 0] { int call_token = LA(1
         ( options { greedy = true; generateAmbigWarnings = false;} :
 
             // recursive nested parentheses
+            { LA(1) != LCURLY || !inLanguage(LANGUAGE_CSHARP) }?
             call_check_paren_pair[argumenttoken, depth + 1] set_bool[name, false] |
 
             // special case for something that looks like a declaration
-            { !name || (depth > 0) }?
+            // names follow each other in a linq expression
+            { !name || (depth > 0) || linq }?
+            set_bool[linq, linq || (inLanguage(LANGUAGE_CSHARP) && LA(1) == FROM && next_token() == NAME)]
             (identifier | generic_selection) set_bool[name, true] |
 
             keyword_call_tokens (options { greedy = true; } : DOTDOTDOT | generic_argument_list | cuda_argument_list)* |
-- 
2.43.0


From 9b703ebf186070e8e4f147f2a93746e134da9596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:35 +0000
Subject: [PATCH 82/87] fix: the condition of a ternary began before the lambda
 that it is the body of

---
 src/parser/srcMLParser.g | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 4295194..15d5f9c 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -2107,13 +2107,13 @@ perform_ternary_check[] returns [bool is_ternary] {
 ternary_check[] { ENTRY_DEBUG } :
 
 
-    // ends are catch alls ok if overlap
+    // ends are catch alls ok if overlap, what follows the parameters of a lambda is not of the same expression
     ({ LA(1) != 1 }? (options { generateAmbigWarnings = false; } : {identifier_list_tokens_set.member(LA(1)) }? compound_name_inner[false] | paren_pair | bracket_pair (options { greedy = true; } : paren_pair | curly_pair)*
-         | ~(QMARK | TERMINATE | LCURLY | COLON | RPAREN | COMMA | RBRACKET | RCURLY | EQUAL | ASSIGNMENT)))
+         | { LA(1) != LAMBDA && (LA(1) != TRETURN || !inLanguage(LANGUAGE_JAVA)) }? ~(QMARK | TERMINATE | LCURLY | COLON | RPAREN | COMMA | RBRACKET | RCURLY | EQUAL | ASSIGNMENT)))
 
     // ends are catch alls ok if overlap
     ({ LA(1) != 1 }? (options { generateAmbigWarnings = false; } : {identifier_list_tokens_set.member(LA(1)) }? compound_name_inner[false] | paren_pair | bracket_pair (options { greedy = true; } : paren_pair | curly_pair)*
-         | ~(QMARK | TERMINATE | LCURLY  | COLON | RPAREN | COMMA | RBRACKET | RCURLY | EQUAL | ASSIGNMENT)))* 
+         | { LA(1) != LAMBDA && (LA(1) != TRETURN || !inLanguage(LANGUAGE_JAVA)) }? ~(QMARK | TERMINATE | LCURLY  | COLON | RPAREN | COMMA | RBRACKET | RCURLY | EQUAL | ASSIGNMENT)))* 
 ;
 
 
-- 
2.43.0


From 3fb9ff0902412498d5a1d4d2ec2bee6dd18eb947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:35 +0000
Subject: [PATCH 83/87] fix: C# commas in braces in an index ended the braces

---
 src/parser/srcMLParser.g | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 15d5f9c..7af424f 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -5250,7 +5250,8 @@ complete_expression[] { CompleteElement element(this); ENTRY_DEBUG } :
         (options { greedy = true; } :
 
             // commas as in a list
-            { (inTransparentMode(MODE_END_ONLY_AT_RPAREN) && (getFirstMode(MODE_END_ONLY_AT_RPAREN | MODE_END_AT_COMMA)& MODE_END_AT_COMMA) == 0) || !inTransparentMode(MODE_END_AT_COMMA) }?
+            { (inTransparentMode(MODE_END_ONLY_AT_RPAREN) && (getFirstMode(MODE_END_ONLY_AT_RPAREN | MODE_END_AT_COMMA)& MODE_END_AT_COMMA) == 0) || !inTransparentMode(MODE_END_AT_COMMA)
+                || (inTransparentMode(MODE_INTERNAL_END_CURLY) && (getFirstMode(MODE_INTERNAL_END_CURLY | MODE_END_AT_COMMA) & MODE_END_AT_COMMA) == 0) }?
             comma |
 
             // right parentheses, unless we are in a pair of parentheses in an expression
-- 
2.43.0


From 41c6987f0c71c9cb471cbf7c1ede488dc9c4cad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:35 +0000
Subject: [PATCH 84/87] fix: a lambda did not end with its expression, default
 values ended with their first call

---
 src/parser/srcMLParser.g | 103 +++++++++++++++++++++++++++++++--------
 1 file changed, 83 insertions(+), 20 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 7af424f..c2c52ea 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -805,6 +805,16 @@ public:
     void endAllModes();
 
     // has the current token changed since the last one recorded
+    // whether the body of a lambda or the default value of a parameter goes on, end is the token after it
+    bool in_bounded_expression(antlr::RefToken& end) {
+
+        // the end was in a list of generic arguments
+        if (LT(1)->getLine() > end->getLine() || (LT(1)->getLine() == end->getLine() && LT(1)->getColumn() > end->getColumn()))
+            end = bounded_expression_end();
+
+        return LA(1) != 1 /* EOF */ && LT(1) != end;
+    }
+
     bool token_advanced(antlr::RefToken& last) {
 
         antlr::RefToken current = LT(1);
@@ -1200,6 +1210,31 @@ look_past_two[int skiptoken1, int skiptoken2] returns [int token] {
         rewind(place);
 } :;
 
+// the token after an expression that ends before a comma or the end of what it is in
+bounded_expression_end[] returns [antlr::RefToken token] {
+
+        int place = mark();
+        inputState->guessing++;
+
+        int depth = 0;
+        while (LA(1) != 1 /* EOF */) {
+
+            if (LA(1) == LPAREN || LA(1) == LBRACKET || LA(1) == LCURLY)
+                ++depth;
+            else if (depth == 0 && (LA(1) == RPAREN || LA(1) == RBRACKET || LA(1) == RCURLY || LA(1) == COMMA || LA(1) == TERMINATE))
+                break;
+            else if (LA(1) == RPAREN || LA(1) == RBRACKET || LA(1) == RCURLY)
+                --depth;
+
+            consume();
+        }
+
+        token = LT(1);
+
+        inputState->guessing--;
+        rewind(place);
+} :;
+
 // give the next token as if rule was applied.  If rule can not be applied return -1
 look_past_rule[void (srcMLParser::*rule)()] returns [int token] {
 
@@ -1501,14 +1536,19 @@ overloaded_operator[] { CompleteElement element(this); ENTRY_DEBUG } :
 lambda_expression_csharp[] { bool first = true; ENTRY_DEBUG } :
         {
 
-            startNewMode(MODE_FUNCTION_TAIL | MODE_ANONYMOUS | MODE_END_AT_COMMA);      
+            startNewMode(MODE_FUNCTION_TAIL | MODE_ANONYMOUS);      
 
             startElement(SFUNCTION_LAMBDA);
 
         }
 
         (options { greedy = true; } : specifier)*
-        (parameter_list | lambda_single_parameter) lambda_csharp (options { greedy = true; } : { LA(1) != LCURLY && first }? complete_expression set_bool[first, false])*
+        (parameter_list | lambda_single_parameter) lambda_csharp (options { greedy = true; } : { LA(1) != LCURLY && first }? bounded_expression set_bool[first, false])*
+        {
+            // lambda with an expression ends with the expression
+            if (!first)
+                endMode();
+        }
 ;
 
 // handle a C++11 lambda expression
@@ -1639,7 +1679,40 @@ lambda_expression_java[] { bool first = true; ENTRY_DEBUG } :
 
         }
 
-        (parameter_list | lambda_single_parameter) lambda_java (options { greedy = true; } : { LA(1) != LCURLY && first }? complete_expression set_bool[first, false])*
+        (parameter_list | lambda_single_parameter) lambda_java (options { greedy = true; } : { LA(1) != LCURLY && first }? bounded_expression set_bool[first, false])*
+        {
+            // lambda with an expression ends with the expression
+            if (!first)
+                endMode();
+        }
+;
+
+// expression that is the body of a lambda or the default value of a parameter
+bounded_expression[] { CompleteElement element(this); antlr::RefToken end = bounded_expression_end(); ENTRY_DEBUG } :
+        {
+            // start a mode to end after the expression
+            startNewMode(MODE_TOP | MODE_EXPECT | MODE_EXPRESSION);
+        }
+        (options { greedy = true; } :
+
+            // commas inside of the expression
+            { in_bounded_expression(end) }?
+            comma |
+
+            // right parentheses, unless we are in a pair of parentheses in an expression
+            { in_bounded_expression(end) && !inTransparentMode(MODE_INTERNAL_END_PAREN) }? rparen[false] |
+
+            // arguments of the call of a call
+            { in_bounded_expression(end) && inMode(MODE_ARGUMENT_LIST) && LA(1) == LPAREN }? call_argument_list |
+
+            // argument mode (as part of call)
+            { in_bounded_expression(end) && inMode(MODE_ARGUMENT) }? argument |
+
+            { in_bounded_expression(end) }? expression |
+
+            { in_bounded_expression(end) }? colon_marked
+
+        )*
 ;
 
 lambda_single_parameter { CompleteElement element(this); ENTRY_DEBUG } :
@@ -5167,28 +5240,18 @@ complete_arguments[] { CompleteElement element(this); int count_paren = 1; CALL_
 
 // Full, complete expression matched all at once (no stream).
 // May be better version of complete_expression
-complete_default_parameter[] { CompleteElement element(this); int count_paren = 0; CALL_TYPE type = NOCALL; 
-    bool isempty = false; int call_count = 0; ENTRY_DEBUG } : 
-       { getParen() == 0 }? rparen[false] |
-        { getCurly() == 0 }? rcurly_argument |
-        {
-            // argument with nested expression
-            startNewMode(MODE_TOP | MODE_EXPECT | MODE_EXPRESSION);
-        }
-        (options {warnWhenFollowAmbig = false; } : { (LA(1) != RPAREN && LA(1) != COMMA) || count_paren > 0 }?
-
-        ({ LA(1) == LPAREN }? expression set_int[count_paren, count_paren + 1] |
+complete_default_parameter[] { antlr::RefToken end = bounded_expression_end(); ENTRY_DEBUG } :
 
-        { LA(1) == RPAREN && inputState->guessing }? rparen set_int[count_paren, count_paren - 1] |
+        { inputState->guessing }?
+        (options { greedy = true; } :
 
-        { LA(1) == RPAREN && !inputState->guessing}? expression set_int[count_paren, count_paren - 1] |
+            { in_bounded_expression(end) && identifier_list_tokens_set.member(LA(1)) && next_token() != QMARK }? compound_name_inner[false] |
 
-        { perform_call_check(type, isempty, call_count, -1) && type == CALL }? 
-        set_int[count_paren, isempty ? count_paren : count_paren + 1] expression |
+            { in_bounded_expression(end) }? ~(TERMINATE)
 
-        expression | comma
+        )* |
 
-        ))*
+        bounded_expression
 ;
 
 
-- 
2.43.0


From 683763d8ea5b93bf59250ca1f90c45c32b04796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:35 +0000
Subject: [PATCH 85/87] fix: a ternary after the first brace of an initial
 value was not marked

---
 src/parser/srcMLParser.g | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index c2c52ea..b2bc85b 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -6352,7 +6352,8 @@ expression_part_no_ternary[CALL_TYPE type = NOCALL, int call_count = 1] { bool f
         {
             incCurly();
             startNewMode(MODE_EXPRESSION | MODE_EXPECT | MODE_LIST | MODE_INTERNAL_END_CURLY);
-        } |
+        }
+        set_bool[skip_ternary, false] |
         { inTransparentMode(MODE_INTERNAL_END_CURLY) }?
         {
 
@@ -8083,7 +8084,8 @@ expression_part[CALL_TYPE type = NOCALL, int call_count = 1] { bool flag; bool i
         {
             incCurly();
             startNewMode(MODE_EXPRESSION | MODE_EXPECT | MODE_LIST | MODE_INTERNAL_END_CURLY);
-        } |
+        }
+        set_bool[skip_ternary, false] |
         { inTransparentMode(MODE_INTERNAL_END_CURLY) }?
         {
 
-- 
2.43.0


From 17baa00934fbdead6d60c11c19a59d4080105c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:35 +0000
Subject: [PATCH 86/87] fix: C# catch in a lambda or delegate lost the type of
 its parameter

---
 src/parser/srcMLParser.g | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index b2bc85b..cab2762 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -8449,6 +8449,7 @@ parameter_type_variable[int type_count, STMT_TYPE stmt_type] { bool output_type
 
                 int look_past_token = 0;
                 output_type = !((inLanguage(LANGUAGE_JAVA) || inLanguage(LANGUAGE_CSHARP)) && type_count == 1 && LA(1) != DOTDOTDOT && inTransparentMode(MODE_FUNCTION_TAIL | MODE_ANONYMOUS)
+                    && (getFirstMode(MODE_BLOCK | MODE_ANONYMOUS) & MODE_ANONYMOUS) != 0
                     && ((look_past_token = look_past_rule(&srcMLParser::type_identifier)) == COMMA ||
                         look_past_token == RPAREN || look_past_token == TRETURN || look_past_token == LAMBDA));
 
-- 
2.43.0


From 1791a653de6b0e7d873e6bdf166ed9c69c521cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:35 +0000
Subject: [PATCH 87/87] fix: sizeof of a unary expression gave an empty name

---
 src/parser/srcMLParser.g | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index cab2762..50f52de 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -6402,7 +6402,7 @@ keyword_call_tokens[] { ENTRY_DEBUG } :
 ;
 
 // sizeof unary_expression
-sizeof_unary_expression[] { CompleteElement element(this); ENTRY_DEBUG } :
+sizeof_unary_expression[] { CompleteElement element(this); CALL_TYPE type = NOCALL; bool isempty = false; int call_count = 0; ENTRY_DEBUG } :
     {
         startNewMode(MODE_LOCAL);
 
@@ -6410,7 +6410,19 @@ sizeof_unary_expression[] { CompleteElement element(this); ENTRY_DEBUG } :
 
     }
     SIZEOF
-    variable_identifier
+
+    // unary operators before the operand
+    (options { greedy = true; } : general_operators)*
+
+    // the operand, others are not part of the sizeof
+    (options { greedy = true; } :
+        { perform_call_check(type, isempty, call_count, -1) && type == CALL && call_count == 1 }?
+        call complete_arguments (options { greedy = true; } : { !isempty }? rparen[false] set_bool[isempty, true])* |
+
+        variable_identifier |
+
+        literals
+    )?
 ;
 
 // sizeof(...)
-- 
2.43.0

