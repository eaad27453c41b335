From 8a9e1a59a87804459036452a7f7b1e33d12344cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:34 +0000
Subject: [PATCH 01/43] verif: guarded verification hooks (NANOLOG_VERIF)

---
 runtime/Config.h         | 31 +++++++++++++++++++++++++++++++
 runtime/RuntimeLogger.cc |  8 ++++++++
 runtime/RuntimeLogger.h  |  5 +++++
 3 files changed, 44 insertions(+)

diff --git a/runtime/Config.h b/runtime/Config.h
index 3ee6d87..da1dc29 100644
--- a/runtime/Config.h
+++ b/runtime/Config.h
@@ -23,9 +23,32 @@
  * This file centralizes the Configuration Options that can be made to NanoLog
  */
 
+// Verification hooks; all of them vanish unless NANOLOG_VERIF is defined.
+// NANOLOG_VERIF permits overriding sizes (NANOLOG_VERIF_STAGING_SIZE,
+// NANOLOG_VERIF_OUTPUT_SIZE) and file flags (NANOLOG_VERIF_FILE_PARAMS); NANOLOG_VERIF_POINTS
+// additionally calls out to an externally supplied function at interesting
+// points of the runtime so that delays can be injected there.
+#ifndef NANOLOG_VERIF
+#undef NANOLOG_VERIF_STAGING_SIZE
+#undef NANOLOG_VERIF_OUTPUT_SIZE
+#undef NANOLOG_VERIF_FILE_PARAMS
+#undef NANOLOG_VERIF_POINTS
+#endif
+
+#ifdef NANOLOG_VERIF_POINTS
+extern "C" void nanologVerifPoint(int point);
+#define NANOLOG_VERIF_POINT(point) nanologVerifPoint(point)
+#else
+#define NANOLOG_VERIF_POINT(point) do { } while (0)
+#endif
+
 namespace NanoLogConfig {
     // Controls in what mode the compressed log file will be opened
+#ifdef NANOLOG_VERIF_FILE_PARAMS
+    static const int FILE_PARAMS = NANOLOG_VERIF_FILE_PARAMS;
+#else
     static const int FILE_PARAMS = O_APPEND|O_RDWR|O_CREAT|O_NOATIME|O_DSYNC;
+#endif
 
     // Location of the initial log file
     static const char DEFAULT_LOG_FILE[] = "./compressedLog";
@@ -33,12 +56,20 @@ namespace NanoLogConfig {
     // Determines the byte size of the per-thread StagingBuffer that decouples
     // the producer logging thread from the consumer background compression
     // thread. This value should be large enough to handle bursts of activity.
+#ifdef NANOLOG_VERIF_STAGING_SIZE
+    static const uint32_t STAGING_BUFFER_SIZE = NANOLOG_VERIF_STAGING_SIZE;
+#else
     static const uint32_t STAGING_BUFFER_SIZE = 1<<20;
+#endif
 
     // Determines the size of the output buffer used to store compressed log
     // messages. It should be at least 8MB large to amortize disk seeks and
     // shall not be smaller than STAGING_BUFFER_SIZE.
+#ifdef NANOLOG_VERIF_OUTPUT_SIZE
+    static const uint32_t OUTPUT_BUFFER_SIZE = NANOLOG_VERIF_OUTPUT_SIZE;
+#else
     static const uint32_t OUTPUT_BUFFER_SIZE = 1<<26;
+#endif
 
     // This invariant must be true so that we can output at least one full
     // StagingBuffer per output buffer.
diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 56b7c0f..6ee5c5d 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -384,6 +384,7 @@ RuntimeLogger::compressionThreadMain() {
                                         || hasOutstandingOperation)
     {
         coreId = sched_getcpu();
+        NANOLOG_VERIF_POINT(0);
 
         // Indicates how many bytes we have consumed from the StagingBuffers
         // in a single iteration of the while above. A value of 0 means we
@@ -420,6 +421,7 @@ RuntimeLogger::compressionThreadMain() {
                 uint64_t peekBytes = 0;
                 StagingBuffer *sb = threadBuffers[i];
                 char *peekPosition = sb->peek(&peekBytes);
+                NANOLOG_VERIF_POINT(1);
 
                 // If there's work, unlock to perform it
                 if (peekBytes > 0) {
@@ -463,6 +465,7 @@ RuntimeLogger::compressionThreadMain() {
                             break;
                         }
 
+                        NANOLOG_VERIF_POINT(2);
                         wrapAround = false;
                         remaining -= downCast<uint32_t>(bytesRead);
                         sb->consume(bytesRead);
@@ -507,6 +510,8 @@ RuntimeLogger::compressionThreadMain() {
             cyclesScanningAndCompressing += PerfUtils::Cycles::rdtsc() - start;
         }
 
+        NANOLOG_VERIF_POINT(3);
+
         // If there's no data to output, go to sleep.
         if (encoder.getEncodedBytes() == 0) {
             std::unique_lock<std::mutex> lock(condMutex);
@@ -606,6 +611,7 @@ RuntimeLogger::compressionThreadMain() {
             }
         }
 
+        NANOLOG_VERIF_POINT(4);
         aioCb.aio_fildes = outputFd;
         aioCb.aio_buf = compressingBuffer;
         aioCb.aio_nbytes = bytesToWrite;
@@ -780,6 +786,7 @@ RuntimeLogger::StagingBuffer::reserveSpaceInternal(size_t nbytes, bool blocking)
             if (cachedConsumerPos != storage) {
                 // prevents producerPos from updating before endOfRecordedSpace
                 Fence::sfence();
+                NANOLOG_VERIF_POINT(5);
                 producerPos = storage;
                 minFreeSpace = cachedConsumerPos - producerPos;
             }
@@ -827,6 +834,7 @@ char *
 RuntimeLogger::StagingBuffer::peek(uint64_t *bytesAvailable) {
     // Save a consistent copy of producerPos
     char *cachedProducerPos = producerPos;
+    NANOLOG_VERIF_POINT(6);
 
     if (cachedProducerPos < consumerPos) {
         Fence::lfence(); // Prevent reading new producerPos but old endOf...
diff --git a/runtime/RuntimeLogger.h b/runtime/RuntimeLogger.h
index 03ba2b9..2ea2216 100644
--- a/runtime/RuntimeLogger.h
+++ b/runtime/RuntimeLogger.h
@@ -57,6 +57,7 @@ using namespace NanoLog;
             if (logId != UNASSIGNED_LOGID)
                 return;
 
+            NANOLOG_VERIF_POINT(10);
             logId = static_cast<int32_t>(invocationSites.size());
             invocationSites.push_back(info);
 
@@ -178,6 +179,7 @@ using namespace NanoLog;
                 // Unlocked for the expensive StagingBuffer allocation
                 guard.unlock();
                 stagingBuffer = new StagingBuffer(bufferId);
+                NANOLOG_VERIF_POINT(9);
                 guard.lock();
 
                 threadBuffers.push_back(stagingBuffer);
@@ -356,6 +358,7 @@ using namespace NanoLog;
                        storage + NanoLogConfig::STAGING_BUFFER_SIZE);
 
                 Fence::sfence(); // Ensures producer finishes writes before bump
+                NANOLOG_VERIF_POINT(7);
                 minFreeSpace -= nbytes;
                 producerPos += nbytes;
             }
@@ -373,6 +376,7 @@ using namespace NanoLog;
             inline void
             consume(uint64_t nbytes) {
                 Fence::lfence(); // Make sure consumer reads finish before bump
+                NANOLOG_VERIF_POINT(8);
                 consumerPos += nbytes;
             }
 
@@ -511,6 +515,7 @@ using namespace NanoLog;
 
             virtual ~StagingBufferDestroyer() {
                 if (stagingBuffer != nullptr) {
+                    NANOLOG_VERIF_POINT(11);
                     stagingBuffer->shouldDeallocate = true;
                     stagingBuffer = nullptr;
                 }
-- 
2.43.0


From ddae5826e4dab513719dbbbf13c00ee3afd040f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:25 +0000
Subject: [PATCH 02/43] fix: keep scanning all staging buffers after one is
 reclaimed

When the background thread deleted the buffer of an exited thread at the
index where the pass had started, the pass ended there (or skipped the
start buffer) although other buffers had not been visited. A sync(), a
setLogFile() or the shutdown could then complete without their messages.
---
 runtime/RuntimeLogger.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 6ee5c5d..6665621 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -487,13 +487,15 @@ RuntimeLogger::compressionThreadMain() {
                             break;
                         }
 
-                        // Back up the indexes so that we ensure we wont skip
-                        // a buffer in our pass (and it's okay to redo one)
-                        if (lastStagingBufferChecked >= i &&
-                            lastStagingBufferChecked > 0) {
-                            --lastStagingBufferChecked;
+                        // The next buffer (if any) has moved into this index.
+                        // Restart the pass from it so that every remaining
+                        // buffer is visited (and it's okay to redo some).
+                        if (i == threadBuffers.size()) {
+                            i = 0;
+                            wrapAround = true;
                         }
-                        --i;
+                        lastStagingBufferChecked = i;
+                        continue;
                     }
                 }
 
-- 
2.43.0


From 6b95f90366c09a389f377571da1a7d26c7970cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:43 +0000
Subject: [PATCH 03/43] fix: do not treat backslashes in format strings as
 escapes when decoding

The dictionary holds the format after the compiler processed escapes, so a
backslash is literal text; skipping the character after it made the decoder
miss a specifier in formats such as "\\%d".
---
 runtime/Log.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index d941041..2993643 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -866,12 +866,6 @@ Log::Decoder::createMicroCode(char **microCode,
     while (i < formatStringLength) {
         char c = formatString[i];
 
-        // Skip the next character if there's an escape
-        if (c == '\\') {
-            i += 2;
-            continue;
-        }
-
         if (c != '%') {
             ++i;
             consecutivePercents = 0;
-- 
2.43.0


From a0660b3777e8998f8e7fc0498aae758b0b36e23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:55 +0000
Subject: [PATCH 04/43] fix: decode specifiers with an empty precision ("%.f",
 "%.s")

A lone period is a precision of zero; the decoder did not recognise the
specifier, dropped its argument and shifted all the following ones.
---
 runtime/Log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 2993643..a90bbb9 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -847,7 +847,7 @@ Log::Decoder::createMicroCode(char **microCode,
     std::regex regex("^%"
                      "([-+ #0]+)?" // Flags (Position 1)
                      "([\\d]+|\\*)?" // Width (Position 2)
-                     "(\\.(\\d+|\\*))?"// Precision (Position 4; 3 includes '.')
+                     "(\\.(\\d+|\\*)?)?"// Precision (Position 4; 3 includes '.')
                      "(hh|h|l|ll|j|z|Z|t|L)?" // Length (Position 5)
                      "([diuoxXfFeEgGaAcspn])"// Specifier (Position 6)
                      );
-- 
2.43.0


From 7fbf4f7281524249d00db8c1c2d06ed94b6ce49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:01 +0000
Subject: [PATCH 05/43] fix: pass negative dynamic widths and precisions on to
 printf

The decoder used negative values as 'no dynamic width/precision', so a
negative one (left-justify, or precision omitted) left the fragment's '*'
without an argument and printed garbage.
---
 runtime/Log.cc | 59 ++++++++++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index a90bbb9..5126f45 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1238,20 +1238,21 @@ Log::Decoder::BufferFragment::readBufferExtent(FILE *fd, bool *wrapAround) {
  *      Type of the argument (automatically inferred)
  * \param outputFd
  *      Where to output the statement
- * \param formatString
- *      Partial format string containing exactly 1 format specifier
+ * \param pf
+ *      Fragment with a partial format string containing exactly 1 format
+ *      specifier and the flags telling which dynamic parameters it takes
  * \param arg
  *      Argument to pass in with the format string
  * \param width
- *      Width parameter of a printf-specifier, a value of -1 specifies none
+ *      Width parameter, used only if the fragment has a dynamic width
  * \param precision
- *      precision parameter of a printf-specifier, a value of -1 specifies none
+ *      Precision parameter, used only if the fragment has a dynamic precision
  */
 template<typename T>
 static inline void
 printSingleArg(FILE *outputFd,
                NanoLogInternal::Log::LogMessage &logArguments,
-               const char* formatString,
+               const NanoLogInternal::Log::PrintFragment *pf,
                T arg,
                int width = -1,
                int precision = -1)
@@ -1261,15 +1262,17 @@ printSingleArg(FILE *outputFd,
     if (outputFd == nullptr)
         return;
 
+    const char *formatString = pf->formatFragment;
+
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wformat-security"
 #pragma GCC diagnostic ignored "-Wformat-nonliteral"
 
-    if (width < 0 && precision < 0) {
+    if (!pf->hasDynamicWidth && !pf->hasDynamicPrecision) {
         fprintf(outputFd, formatString, arg);
-    } else if (width >= 0 && precision < 0)
+    } else if (pf->hasDynamicWidth && !pf->hasDynamicPrecision)
         fprintf(outputFd, formatString, width, arg);
-    else if (width >= 0 && precision >= 0)
+    else if (pf->hasDynamicWidth && pf->hasDynamicPrecision)
         fprintf(outputFd, formatString, width, precision, arg);
     else
         fprintf(outputFd, formatString, precision, arg);
@@ -1452,7 +1455,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case unsigned_char_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<unsigned char>(),
                                    width, precision);
                     break;
@@ -1460,7 +1463,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case unsigned_short_int_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<unsigned short int>(),
                                    width, precision);
                     break;
@@ -1468,7 +1471,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case unsigned_int_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<unsigned int>(),
                                    width, precision);
                     break;
@@ -1476,7 +1479,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case unsigned_long_int_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<unsigned long int>(),
                                    width, precision);
                     break;
@@ -1484,7 +1487,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case unsigned_long_long_int_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<unsigned long long int>(),
                                    width, precision);
                     break;
@@ -1492,7 +1495,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case uintmax_t_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<uintmax_t>(),
                                    width, precision);
                     break;
@@ -1500,7 +1503,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case size_t_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<size_t>(),
                                    width, precision);
                     break;
@@ -1508,7 +1511,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case wint_t_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<wint_t>(),
                                    width, precision);
                     break;
@@ -1516,7 +1519,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case signed_char_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<signed char>(),
                                    width, precision);
                     break;
@@ -1524,7 +1527,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case short_int_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<short int>(),
                                    width, precision);
                     break;
@@ -1532,7 +1535,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case int_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<int>(),
                                    width, precision);
                     break;
@@ -1540,7 +1543,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case long_int_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<long int>(),
                                    width, precision);
                     break;
@@ -1548,7 +1551,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case long_long_int_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<long long int>(),
                                    width, precision);
                     break;
@@ -1556,7 +1559,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case intmax_t_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<intmax_t>(),
                                    width, precision);
                     break;
@@ -1564,7 +1567,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case ptrdiff_t_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<ptrdiff_t>(),
                                    width, precision);
                     break;
@@ -1572,7 +1575,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case double_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<double>(),
                                    width, precision);
                     break;
@@ -1580,7 +1583,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case long_double_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<long double>(),
                                    width, precision);
                     break;
@@ -1588,7 +1591,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case const_void_ptr_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<const void *>(),
                                    width, precision);
                     break;
@@ -1597,7 +1600,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case const_char_ptr_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nextStringArg,
                                    width, precision);
 
@@ -1636,7 +1639,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                     wstrArg = reinterpret_cast<const wchar_t *>(nextStringArg);
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    wstrArg,
                                    width, precision);
                     // +1 for NULL
-- 
2.43.0


From bf4792951b655b9efa1232be04b9519c758d9946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:04 +0000
Subject: [PATCH 06/43] fix: decode wide strings from an aligned copy

wcslen() inside of printf needs an aligned wchar_t array, but the decoder
handed it the packed bytes at whatever address they had, which truncated
wide strings or tripped glibc assertions.
---
 runtime/Log.cc | 60 ++++++++++++++++++++++++++------------------------
 runtime/Log.h  |  6 +++++
 2 files changed, 37 insertions(+), 29 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 5126f45..e46c99c 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -503,6 +503,7 @@ Log::LogMessage::LogMessage()
         , totalCapacity(sizeof(rawArgs)/sizeof(uint64_t))
         , rawArgs()
         , rawArgsExtension(nullptr)
+        , wideStrings()
 {}
 
 // Destructor for LogMessage
@@ -570,6 +571,32 @@ Log::LogMessage::reset(FormatMetadata *meta, uint32_t logId, uint64_t rdtsc)
     this->rdtsc = rdtsc;
     this->logId = logId;
     numArgs = 0;
+    wideStrings.clear();
+}
+
+/**
+ * Makes an aligned copy of a wide string stored at an arbitrary (possibly
+ * unaligned) address. The copy lives until the next reset() or destruction.
+ *
+ * \param packed
+ *      Bytes of the NULL-terminated wide string
+ * \return
+ *      Aligned copy of the string
+ */
+const wchar_t*
+Log::LogMessage::copyWideString(const char *packed)
+{
+    std::wstring copy;
+    wchar_t next;
+    for (memcpy(&next, packed, sizeof(next)); next != L'\0';
+            memcpy(&next, packed, sizeof(next)))
+    {
+        copy.push_back(next);
+        packed += sizeof(next);
+    }
+
+    wideStrings.push_back(std::move(copy));
+    return wideStrings.back().c_str();
 }
 
 // Indicates whether the structure stores a valid log statement or not
@@ -1608,35 +1635,10 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                     break;
 
                 case const_wchar_t_ptr_t:
-
-                    /**
-                     * I've occasionally encountered the following assertion:
-                     * __wcsrtombs: Assertion `data.__outbuf[-1] == '\0'' failed
-                     *
-                     * I don't know why this occurs, but it appears to be caused
-                     * by a wcslen() call deep inside printf returning the wrong
-                     * value when called on the dynamic buffer. I've found
-                     * that copying the data into a stack buffer first fixes
-                     * the problem (not implemented here).
-                     *
-                     * I don't know why this is the case and I'm inclined to
-                     * believe it's a problem with the library because I've...
-                     *  (1) verified byte by byte that the copied wchar_t
-                     *      strings and the surrounding bytes are exactly the
-                     *      same in the dynamic and stack allocated buffers.
-                     *  (2) copied the wcslen code from the glib sources into
-                     *      to this file and calling it on the dynamic buffer
-                     *      works, but the public wcslen() API still returns an
-                     *      incorrect value.
-                     *  (3) verified that no corruption occurs in the buffers
-                     *      before and after the wcslen() returns the wrong val
-                     *
-                     * If wide character support becomes important and this
-                     * assertion keeps erroring out, I would work around it
-                     * by copying the wide string into a stack buffer before
-                     * passing it to printf.
-                     */
-                    wstrArg = reinterpret_cast<const wchar_t *>(nextStringArg);
+                    // The packed string may be at any address, but wchar_t
+                    // functions (wcslen() inside of printf) require alignment,
+                    // so work on an aligned copy owned by logArgs.
+                    wstrArg = logArgs.copyWideString(nextStringArg);
                     printSingleArg(outputFd,
                                    logArgs,
                                    pf,
diff --git a/runtime/Log.h b/runtime/Log.h
index abf2873..62b5219 100644
--- a/runtime/Log.h
+++ b/runtime/Log.h
@@ -14,6 +14,8 @@
  */
 
 #include <ctime>
+#include <list>
+#include <string>
 #include <vector>
 
 #include <cassert>
@@ -746,6 +748,9 @@ namespace Log {
         // Extension for the arguments if we run out of space above
         uint64_t *rawArgsExtension;
 
+        // Aligned copies of the wide string arguments (rawArgs points to them)
+        std::list<std::wstring> wideStrings;
+
         void reserve(int nparams);
 
     PUBLIC:
@@ -758,6 +763,7 @@ namespace Log {
         uint64_t getTimestamp();
         void reset(FormatMetadata *fm= nullptr, uint32_t logId=uint32_t(-1),
                         uint64_t rdtsc=0);
+        const wchar_t *copyWideString(const char *packed);
 
         /**
          * Add a dynamic log argument into the structure.
-- 
2.43.0


From ffc3fe2d74fd01a1a49a936fee778287c00a752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:29 +0000
Subject: [PATCH 07/43] fix: log signed and unsigned character strings in the
 C++17 front end

printf accepts any pointer to a character type for %s, but such arguments
were stored as a bare pointer and then read back as a length-prefixed
string, which crashed the background thread.
---
 runtime/NanoLogCpp17.h | 55 +++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/runtime/NanoLogCpp17.h b/runtime/NanoLogCpp17.h
index ffb063e..af43c82 100644
--- a/runtime/NanoLogCpp17.h
+++ b/runtime/NanoLogCpp17.h
@@ -341,6 +341,21 @@ getNumNibblesNeeded(const char (&fmt)[N])
     return numNibbles;
 }
 
+/**
+ * Type trait that tells whether T is a pointer to characters, i.e. a type that
+ * printf accepts for "%s" or "%ls" (which includes signed/unsigned char*).
+ */
+template<typename T>
+struct IsStringType {
+    typedef typename std::remove_const<
+                        typename std::remove_pointer<T>::type>::type CharT;
+    static constexpr bool value = std::is_pointer<T>::value
+                                    && (std::is_same<CharT, char>::value
+                                    || std::is_same<CharT, signed char>::value
+                                    || std::is_same<CharT, unsigned char>::value
+                                    || std::is_same<CharT, wchar_t>::value);
+};
+
 /**
  * Stores a single printf argument into a buffer and bumps the buffer pointer.
  *
@@ -367,11 +382,7 @@ getNumNibblesNeeded(const char (&fmt)[N])
  */
 template<typename T>
 inline
-typename std::enable_if<!std::is_same<T, const wchar_t*>::value
-                        && !std::is_same<T, const char*>::value
-                        && !std::is_same<T, wchar_t*>::value
-                        && !std::is_same<T, char*>::value
-                        , void>::type
+typename std::enable_if<!IsStringType<T>::value, void>::type
 store_argument(char **storage,
                T arg,
                ParamType paramType,
@@ -389,11 +400,7 @@ store_argument(char **storage,
 // string specialization of the above
 template<typename T>
 inline
-typename std::enable_if<std::is_same<T, const wchar_t*>::value
-                        || std::is_same<T, const char*>::value
-                        || std::is_same<T, wchar_t*>::value
-                        || std::is_same<T, char*>::value
-                        , void>::type
+typename std::enable_if<IsStringType<T>::value, void>::type
 store_argument(char **storage,
                T arg,
                const ParamType paramType,
@@ -550,10 +557,7 @@ as_uint64_t(T t) {
  */
 template<typename T>
 inline
-typename std::enable_if<!std::is_same<T, const wchar_t*>::value
-                        && !std::is_same<T, const char*>::value
-                        && !std::is_same<T, wchar_t*>::value
-                        && !std::is_same<T, char*>::value
+typename std::enable_if<!IsStringType<T>::value
                         && !std::is_same<T, const void*>::value
                         && !std::is_same<T, void*>::value
                         , size_t>::type
@@ -627,6 +631,29 @@ getArgSize(const ParamType fmtType,
     return stringBytes + sizeof(uint32_t);
 }
 
+/**
+ * Specializations of the above for the other narrow character types.
+ */
+inline size_t
+getArgSize(const ParamType fmtType,
+           uint64_t &previousPrecision,
+           size_t &stringBytes,
+           const unsigned char* str)
+{
+    return getArgSize(fmtType, previousPrecision, stringBytes,
+                      reinterpret_cast<const char*>(str));
+}
+
+inline size_t
+getArgSize(const ParamType fmtType,
+           uint64_t &previousPrecision,
+           size_t &stringBytes,
+           const signed char* str)
+{
+    return getArgSize(fmtType, previousPrecision, stringBytes,
+                      reinterpret_cast<const char*>(str));
+}
+
 /**
  * Wide-character string specialization of the above.
  */
-- 
2.43.0


From 27856b1263713da41cc9e5f81e859425e458effb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:48 +0000
Subject: [PATCH 08/43] fix: never read string arguments beyond their precision

A string logged with a precision (%.Ns, %.*s) needs no terminator, but its
length was taken with strlen()/wcslen() before truncating.
---
 runtime/NanoLogCpp17.h | 44 +++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/runtime/NanoLogCpp17.h b/runtime/NanoLogCpp17.h
index af43c82..8602d26 100644
--- a/runtime/NanoLogCpp17.h
+++ b/runtime/NanoLogCpp17.h
@@ -613,20 +613,22 @@ getArgSize(const ParamType fmtType,
     if (fmtType <= ParamType::NON_STRING)
         return sizeof(void*);
 
-    stringBytes = strlen(str);
-    uint32_t fmtLength = static_cast<uint32_t>(fmtType);
-
     // Strings with static length specifiers (ex %.10s), have non-negative
     // ParamTypes equal to the static length. Thus, we use that value to
-    // truncate the string as necessary.
-    if (fmtType >= ParamType::STRING && stringBytes > fmtLength)
-        stringBytes = fmtLength;
+    // truncate the string as necessary. Note that a string with a precision
+    // needs no terminator, so nothing beyond the precision may be read.
+    if (fmtType >= ParamType::STRING)
+        stringBytes = strnlen(str, static_cast<uint32_t>(fmtType));
 
     // If the string had a dynamic precision specified (i.e. %.*s), use
-    // the previous parameter as the precision and truncate as necessary.
-    else if (fmtType == ParamType::STRING_WITH_DYNAMIC_PRECISION &&
-                stringBytes > previousPrecision)
-        stringBytes = previousPrecision;
+    // the previous parameter as the precision and truncate as necessary
+    // (a negative one, which arrives here as a huge one, means none).
+    else if (fmtType == ParamType::STRING_WITH_DYNAMIC_PRECISION
+                && previousPrecision <= std::numeric_limits<uint32_t>::max())
+        stringBytes = strnlen(str, previousPrecision);
+
+    else
+        stringBytes = strlen(str);
 
     return stringBytes + sizeof(uint32_t);
 }
@@ -666,20 +668,22 @@ getArgSize(const ParamType fmtType,
     if (fmtType <= ParamType::NON_STRING)
         return sizeof(void*);
 
-    stringBytes = wcslen(wstr);
-    uint32_t fmtLength = static_cast<uint32_t>(fmtType);
-
     // Strings with static length specifiers (ex %.10s), have non-negative
     // ParamTypes equal to the static length. Thus, we use that value to
-    // truncate the string as necessary.
-    if (fmtType >= ParamType::STRING && stringBytes > fmtLength)
-        stringBytes = fmtLength;
+    // truncate the string as necessary. Note that a string with a precision
+    // needs no terminator, so nothing beyond the precision may be read.
+    if (fmtType >= ParamType::STRING)
+        stringBytes = wcsnlen(wstr, static_cast<uint32_t>(fmtType));
 
     // If the string had a dynamic precision specified (i.e. %.*s), use
-    // the previous parameter as the precision and truncate as necessary.
-    else if (fmtType == ParamType::STRING_WITH_DYNAMIC_PRECISION &&
-             stringBytes > previousPrecision)
-        stringBytes = previousPrecision;
+    // the previous parameter as the precision and truncate as necessary
+    // (a negative one, which arrives here as a huge one, means none).
+    else if (fmtType == ParamType::STRING_WITH_DYNAMIC_PRECISION
+                && previousPrecision <= std::numeric_limits<uint32_t>::max())
+        stringBytes = wcsnlen(wstr, previousPrecision);
+
+    else
+        stringBytes = wcslen(wstr);
 
     stringBytes *= sizeof(wchar_t);
     return stringBytes + sizeof(uint32_t);
-- 
2.43.0


From ced04b2a349ba9f9ec34420a7f9721a87bda1bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:33 +0000
Subject: [PATCH 09/43] fix: flush the old dictionary before reading the new
 one

readDictionary() read the new dictionary's bytes behind the old ones and
only then rewound to the start, so it indexed the old execution's entries
when two executions with embedded dictionaries share a log file.
---
 runtime/Log.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index e46c99c..737a278 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -678,6 +678,12 @@ Log::Decoder::readDictionary(FILE *fd, bool flushOldDictionary) {
         return false;
     }
 
+    if (flushOldDictionary) {
+        endOfRawMetadata = rawMetadata;
+        fmtId2metadata.clear();
+        fmtId2fmtString.clear();
+    }
+
     size_t bytesRead = fread(endOfRawMetadata, 1, checkpoint.newMetadataBytes,
                              fd);
     if (bytesRead != checkpoint.newMetadataBytes) {
@@ -685,12 +691,6 @@ Log::Decoder::readDictionary(FILE *fd, bool flushOldDictionary) {
         return false;
     }
 
-    if (flushOldDictionary) {
-        endOfRawMetadata = rawMetadata;
-        fmtId2metadata.clear();
-        fmtId2fmtString.clear();
-    }
-
     // Build an index of format id to metadata
     const char *start = endOfRawMetadata;
     const char *newEnd = endOfRawMetadata + bytesRead;
-- 
2.43.0


From 4ec8138593edba17238460f87112bf713b168ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:36 +0000
Subject: [PATCH 10/43] fix: keep a full window of stages in ordered
 decompression

Only one depleted stage was retired per round, and extents without messages
were counted as stages. Both shrank the reorder window, so messages came out
of order, and with stages[0] empty a new execution's dictionary could replace
the one still needed by the remaining stages.
---
 runtime/Log.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 737a278..54c0d86 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1855,8 +1855,15 @@ Log::Decoder::decompressTo(FILE* outputFd)
                     good = bf->readBufferExtent(inputFd, &newStage);
                     ++numBufferFragmentsRead;
 
-                    if (good)
+                    // Extents without messages are left over when the output
+                    // buffer ran full; the writer repeats their new pass
+                    // indication with the next extent, so skip them entirely.
+                    if (good && bf->hasNext()) {
                         stages[stagesBuffered].push_back(bf);
+                    } else {
+                        newStage = false;
+                        freeBufferFragment(bf);
+                    }
 
                     break;
                 }
@@ -1948,17 +1955,21 @@ Log::Decoder::decompressTo(FILE* outputFd)
                 freeBufferFragment(bf);
             }
 
-            // Step 3c: Check for exit condition
-            if (stages[0].empty()) {
+            // Step 3c: Check for exit condition. Later stages may be depleted
+            // too by now and they must make room for new stages as well.
+            bool depletedAStage = false;
+            while (stagesBuffered > 0 && stages[0].empty()) {
                 for (uint32_t i = 0; i < stagesBuffered - 1; ++i) {
                     stages[i] = stages[i+1];
                 }
                 stages[stagesBuffered - 1].clear();
 
                 --stagesBuffered;
-                if (!mustDepleteAllStages)
-                    break;
+                depletedAStage = true;
             }
+
+            if (depletedAStage && !mustDepleteAllStages)
+                break;
         }
     }
 
-- 
2.43.0


From 0df18f078507b0e3442c7be8b80c2de307e4feda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:01 +0000
Subject: [PATCH 11/43] fix: enlarge the reorder window of ordered
 decompression by one stage

The first extent of a pass is filed under the previous stage, so a message
can be three stages away from an earlier one of another thread (one pass for
the scan order, one for a staging buffer wrap-around, one for the filing).
---
 runtime/Log.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 54c0d86..2b3b56e 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1819,15 +1819,16 @@ Log::Decoder::decompressTo(FILE* outputFd)
         return -1;
 
     // In ordered decompression, we must sort the entries by time which means
-    // we need to buffer in 3 rounds of NanoLog output. We need more than one
+    // we need to buffer in 4 rounds of NanoLog output. We need more than one
     // round of output because the compression is non-quiescent, which means
     // that as we're outputting the nth buffer, new entries may be added to
     // n-1 and n, and the entries in n could logically come /before/ the new
-    // entries added to n-1. The reason why we need at least 3 is due to an
-    // implementation detail in StagingBuffer whereby one peek() does not
-    // return all the data and at least 2 peek()'s are needed to deplete a
-    // buffer.
-    static const uint32_t stagesToBuffer = 3;
+    // entries added to n-1. One more is needed due to an implementation
+    // detail in StagingBuffer whereby one peek() does not return all the data
+    // and at least 2 peek()'s are needed to deplete a buffer. And another one
+    // is needed since the first extent of a new pass (the one that carries the
+    // new pass indication) is added to the stage of the pass before it.
+    static const uint32_t stagesToBuffer = 4;
     std::vector<BufferFragment*> stages[stagesToBuffer];
 
     // Running number of stages being kept in stages
-- 
2.43.0


From 3eca8418be7093c8f9d78bbf0fe35c76d3f3c0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:46 +0000
Subject: [PATCH 12/43] fix: do not touch 64 MB of memory for every buffered
 extent

Ordered decompression holds one BufferFragment per extent of several passes;
zero-filling each needed gigabytes for a few dozen threads and ran out of
memory with some hundred.
---
 runtime/Log.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 2b3b56e..961d779 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1172,10 +1172,11 @@ Log::Decoder::freeBufferFragment(BufferFragment *bf)
     freeBuffers.push_back(bf);
 }
 
-// BufferFragment constructor
+// BufferFragment constructor. Note that storage is deliberately left
+// uninitialized; it's huge and touching all of it for every extent that is
+// buffered would commit far more memory than the log file takes.
 Log::Decoder::BufferFragment::BufferFragment()
-    : storage()
-    , validBytes(0)
+    : validBytes(0)
     , runtimeId(-1)
     , readPos(nullptr)
     , endOfBuffer(nullptr)
@@ -1215,8 +1216,8 @@ Log::Decoder::BufferFragment::readBufferExtent(FILE *fd, bool *wrapAround) {
     validBytes = fread(storage, 1, sizeof(BufferExtent), fd);
     BufferExtent *be = reinterpret_cast<BufferExtent*>(storage);
 
-    if (be->entryType != EntryType::BUFFER_EXTENT ||
-            validBytes < sizeof(BufferExtent) ||
+    if (validBytes < sizeof(BufferExtent) ||
+            be->entryType != EntryType::BUFFER_EXTENT ||
             be->length > sizeof(storage)) {
         reset();
         return false;
-- 
2.43.0


From cd11445759d58d3b964b8e1dcc7aa1e3147c1a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:25 +0000
Subject: [PATCH 13/43] fix: carry the rounding of a timestamp's nanoseconds
 into the seconds

A fraction within half a nanosecond of a full second was printed with ten
digits (x.1000000000).
---
 runtime/Log.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 961d779..53e6a6d 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -14,6 +14,7 @@
  */
 
 #include <algorithm>
+#include <cmath>
 
 #include <bits/algorithmfwd.h>
 #include <regex>
@@ -1386,6 +1387,14 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
             nanos += 1.0e9;
         }
 
+        // Round here rather than when printing, since rounding up may carry
+        // over to the next second.
+        nanos = std::rint(nanos);
+        if (nanos >= 1.0e9) {
+            wholeSeconds++;
+            nanos -= 1.0e9;
+        }
+
         std::time_t absTime = wholeSeconds + checkpoint.unixTime;
         std::tm *tm = localtime(&absTime);
         strftime(timeString, sizeof(timeString), "%Y-%m-%d %H:%M:%S", tm);
-- 
2.43.0


From a392507abef6d22c2e9e76450e3f38662964b9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:31 +0000
Subject: [PATCH 14/43] fix: let a decoder be reused without leaking or mixing
 files

open() leaked the previous FILE and kept the undecoded rest of the previous
file's extent, which the iterator then returned with the new dictionary. The
destructor leaked the 1 GB metadata buffer and the iterator's fragment.
---
 runtime/Log.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 53e6a6d..c4867a7 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1106,6 +1106,12 @@ Log::Decoder::readDictionaryFragment(FILE *fd) {
  */
 bool
 Log::Decoder::open(const char *filename) {
+    // Drop everything that belongs to a previously opened file
+    if (inputFd)
+        fclose(inputFd);
+    this->filename.clear();
+    bufferFragment->reset();
+
     inputFd = fopen(filename, "rb");
     good = false;
 
@@ -1140,6 +1146,12 @@ Log::Decoder::~Decoder() {
         delete bf;
 
     freeBuffers.clear();
+
+    delete bufferFragment;
+    bufferFragment = nullptr;
+
+    free(rawMetadata);
+    rawMetadata = endOfRawMetadata = nullptr;
 }
 
 /**
-- 
2.43.0


From b22afe41ab68e680649e5af08b5fc28f82a45d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:05 +0000
Subject: [PATCH 15/43] fix: pad O_DIRECT output at its end

The padding was written over the start of the compressed data.
---
 runtime/RuntimeLogger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 6665621..5f881ab 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -607,7 +607,7 @@ RuntimeLogger::compressionThreadMain() {
             ssize_t bytesOver = bytesToWrite % 512;
 
             if (bytesOver != 0) {
-                memset(compressingBuffer, 0, 512 - bytesOver);
+                memset(compressingBuffer + bytesToWrite, 0, 512 - bytesOver);
                 bytesToWrite = bytesToWrite + 512 - bytesOver;
                 padBytesWritten += (512 - bytesOver);
             }
-- 
2.43.0


From 996d66682ebe8c458d61368dcb5b853321e5b53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:54 +0000
Subject: [PATCH 16/43] fix: wait for the outstanding write when a signal
 interrupts the wait

An interrupted aio_suspend() was taken for a completed write, so the buffer
in flight was overwritten and its control block reused.
---
 runtime/RuntimeLogger.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 5f881ab..52a0f6f 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -548,11 +548,16 @@ RuntimeLogger::compressionThreadMain() {
                     // If the output buffer is full and we're not done,
                     // wait for completion
                     cyclesActive += PerfUtils::Cycles::rdtsc() - cyclesAwakeStart;
-                    int err = aio_suspend(aiocb_list, 1, NULL);
+
+                    // The wait may be interrupted by a signal, but the buffer
+                    // can only be reused once the operation is complete.
+                    do {
+                        int err = aio_suspend(aiocb_list, 1, NULL);
+                        if (err != 0 && errno != EINTR)
+                            perror("LogCompressor's Posix AIO "
+                                           "suspend operation failed");
+                    } while (aio_error(&aioCb) == EINPROGRESS);
                     cyclesAwakeStart = PerfUtils::Cycles::rdtsc();
-                    if (err != 0)
-                        perror("LogCompressor's Posix AIO "
-                                       "suspend operation failed");
                 } else {
                     // If there's no new data, go to sleep.
                     if (bytesConsumedThisIteration == 0 &&
-- 
2.43.0


From 01053cd653aaf27652854ab419a582cf57879e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:38 +0000
Subject: [PATCH 17/43] fix: write the rest after a partial write

A write that completed only partially was taken for complete, leaving a torn
block in the log file that made everything behind it undecodable.
---
 runtime/RuntimeLogger.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 52a0f6f..32e36a0 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -585,6 +585,14 @@ RuntimeLogger::compressionThreadMain() {
                         " with %d: %s\r\n", err, strerror(err));
             } else if (ret < 0) {
                 perror("LogCompressor's Posix AIO Write failed");
+            } else if (ret > 0 && ret < static_cast<ssize_t>(aioCb.aio_nbytes)) {
+                // Only a part was written, continue with the rest.
+                aioCb.aio_buf = static_cast<volatile char*>(aioCb.aio_buf) + ret;
+                aioCb.aio_nbytes -= ret;
+                if (aio_write(&aioCb) == 0)
+                    continue;
+
+                fprintf(stderr, "Error at aio_write(): %s\n", strerror(errno));
             }
             ++numAioWritesCompleted;
             hasOutstandingOperation = false;
-- 
2.43.0


From bad209790c8924d77dd06443fc7e08bc8581c6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:42 +0000
Subject: [PATCH 18/43] fix: count the active readers of a time trace

printInternal() used fetch_and(), which never raises the count above zero, so
recording was not suspended while a trace was being printed and events could
be overwritten under the printer.
---
 runtime/TimeTrace.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/TimeTrace.cc b/runtime/TimeTrace.cc
index 4e8fa97..0414fae 100644
--- a/runtime/TimeTrace.cc
+++ b/runtime/TimeTrace.cc
@@ -215,7 +215,7 @@ TimeTrace::printInternal(std::vector<TimeTrace::Buffer*>* buffers, string* s)
 {
     bool printedAnything = false;
     for (uint32_t i = 0; i < buffers->size(); i++) {
-        buffers->at(i)->activeReaders.fetch_and(1);
+        buffers->at(i)->activeReaders.fetch_add(1);
     }
 
     // Initialize file for writing
@@ -331,7 +331,7 @@ TimeTrace::printInternal(std::vector<TimeTrace::Buffer*>* buffers, string* s)
     }
 
     for (uint32_t i = 0; i < buffers->size(); i++) {
-        buffers->at(i)->activeReaders.fetch_and(-1);
+        buffers->at(i)->activeReaders.fetch_sub(1);
     }
     if (output && output != stdout)
         fclose(output);
-- 
2.43.0


From 440bed0395f908fe1d5ce5115fde036a734c6a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:43 +0000
Subject: [PATCH 19/43] fix: publish a time trace event only once it is
 complete

record() advanced nextIndex before filling the event in, so a concurrent
getTrace()/print() could print a half-recorded event.
---
 runtime/TimeTrace.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtime/TimeTrace.cc b/runtime/TimeTrace.cc
index 0414fae..02ea6d4 100644
--- a/runtime/TimeTrace.cc
+++ b/runtime/TimeTrace.cc
@@ -130,7 +130,6 @@ void TimeTrace::Buffer::record(uint64_t timestamp, const char* format,
     }
 
     Event* event = &events[nextIndex];
-    nextIndex = (nextIndex + 1) & BUFFER_MASK;
 
     // There used to be code here for prefetching the next few events,
     // in order to minimize cache misses on the array of events. However,
@@ -144,6 +143,11 @@ void TimeTrace::Buffer::record(uint64_t timestamp, const char* format,
     event->arg1 = arg1;
     event->arg2 = arg2;
     event->arg3 = arg3;
+
+    // Only advance once the event is complete: a concurrent reader never
+    // looks at the entry at nextIndex.
+    std::atomic_signal_fence(std::memory_order_seq_cst);
+    nextIndex = (nextIndex + 1) & BUFFER_MASK;
 }
 
 /**
-- 
2.43.0


From 12b17f62ba239d0b291fe18af3396700eae67c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:49 +0000
Subject: [PATCH 20/43] fix: aggregate over log ids that are unused or out of
 range

minMaxMean divided by zero when the log had no message with the given id and
read beyond the dictionary for ids that do not exist.
---
 runtime/LogDecompressor.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runtime/LogDecompressor.cc b/runtime/LogDecompressor.cc
index 5ac00a4..46a8b1c 100644
--- a/runtime/LogDecompressor.cc
+++ b/runtime/LogDecompressor.cc
@@ -197,6 +197,11 @@ int main(int argc, char** argv) {
             printf("The logId must be positive: %s\r\n", argv[3]);
             exit(-1);
         }
+
+        if (static_cast<size_t>(filterId) >= GeneratedFunctions::numLogIds) {
+            printf("No log message has the logId %s\r\n", argv[3]);
+            exit(-1);
+        }
     } else if (strcmp(command, "find") == 0) {
         if (argc < 4) {
             printHelp(argv[0]);
@@ -322,6 +327,11 @@ int main(int argc, char** argv) {
                 filterId);
 #endif // PREPROCESSOR_NANOLOG
     printf("Logs Encountered: %lu\r\n", numLogs);
+    if (count == 0) {
+        printf("Matching Logs: 0\r\n");
+        return 0;
+    }
+
     printf("Matching Logs: %ld (%0.2lf%%)\r\n", count,
             (100.0*(double)count)/(double)numLogs);
     printf("Min: %ld\r\n", min);
-- 
2.43.0


From 175ad4bf90fdd68aef53de409227536706ccb596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:49 +0000
Subject: [PATCH 21/43] fix: compute no distribution of fewer than two messages

rcdfTime read the front of an empty vector and divided by zero.
---
 runtime/LogDecompressor.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/runtime/LogDecompressor.cc b/runtime/LogDecompressor.cc
index 46a8b1c..47a223b 100644
--- a/runtime/LogDecompressor.cc
+++ b/runtime/LogDecompressor.cc
@@ -79,6 +79,11 @@ printLogMetadataContainingSubstring(std::string searchString)
  *      conversion factor of tsc counts to seconds
  */
 void runRCDF(std::vector<uint64_t> timeDeltas, double cyclesPerSecond) {
+    if (timeDeltas.empty()) {
+        printf("# Not enough log messages to compute time differences\r\n");
+        return;
+    }
+
     printf("# Aggregating...\r\n");
     std::sort(timeDeltas.begin(), timeDeltas.end());
     printf("# Done; printing rcdf\r\n");
@@ -254,6 +259,9 @@ int main(int argc, char** argv) {
         stop = PerfUtils::Cycles::rdtsc();
         double rcdfTime = PerfUtils::Cycles::toSeconds(stop - start);
 
+        if (interLogTimes.empty())
+            return 0;
+
         double totalTime = reserveTime + decodeTime + rcdfTime;
         printf("# Took %0.2lf seconds to aggregate %lu time entries "
                "(%0.2lf ns/event avg)\r\n",
-- 
2.43.0


From d14cdbbc70d408eee81e7987a58883c07482e2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:49 +0000
Subject: [PATCH 22/43] fix: include the smallest time difference in the
 reported mean

---
 runtime/LogDecompressor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/LogDecompressor.cc b/runtime/LogDecompressor.cc
index 47a223b..acef2d2 100644
--- a/runtime/LogDecompressor.cc
+++ b/runtime/LogDecompressor.cc
@@ -89,7 +89,7 @@ void runRCDF(std::vector<uint64_t> timeDeltas, double cyclesPerSecond) {
     printf("# Done; printing rcdf\r\n");
     printf("#   Latency     Percentage of Operations\r\n");
 
-    uint64_t sum = 0;
+    uint64_t sum = timeDeltas.front();
     double boundary = 1.0e-10; // 1 decimal points into nanoseconds
     uint64_t bound = PerfUtils::Cycles::fromSeconds(boundary, cyclesPerSecond);
     double size = double(timeDeltas.size());
-- 
2.43.0


From b0dadea719f76e8e148c24fe81cf3e4cd0b4e3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:23 +0000
Subject: [PATCH 23/43] fix: report files that are not logs instead of aborting

---
 runtime/Log.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/Log.h b/runtime/Log.h
index 62b5219..60bfcbd 100644
--- a/runtime/Log.h
+++ b/runtime/Log.h
@@ -610,8 +610,8 @@ namespace Log {
         if (!numRead)
             return false;
 
-        assert(cp.entryType == EntryType::CHECKPOINT);
-        return true;
+        // Whatever else the file contains, it is not a log
+        return cp.entryType == EntryType::CHECKPOINT;
     }
 
     /**
-- 
2.43.0


From 403d7ae2aa962202249a425a06d9aa36e5cbdd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:17 +0000
Subject: [PATCH 24/43] fix: mark no new pass when the output fills up at the
 last buffer

---
 runtime/RuntimeLogger.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 32e36a0..077ee15 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -474,6 +474,11 @@ RuntimeLogger::compressionThreadMain() {
                     }
                     cyclesCompressing += PerfUtils::Cycles::rdtsc() - start;
                     lock.lock();
+
+                    // The pass is resumed at this very buffer, so it must not
+                    // be taken for completed if this is the last buffer.
+                    if (outputBufferFull)
+                        break;
                 } else {
                     // If there's no work, check if we're supposed to delete
                     // the stagingBuffer
-- 
2.43.0


From bdc39172e6fe7d09d80c9978b3804d9b9b92c19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:31 +0000
Subject: [PATCH 25/43] fix: treat a write that could not be submitted as not
 outstanding

aio_error() and aio_return() of the control block still describe the
previous write then; waiting for them takes a stale result for the
outcome of a write that never happened.
---
 runtime/RuntimeLogger.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 077ee15..b6e0743 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -640,8 +640,8 @@ RuntimeLogger::compressionThreadMain() {
         cyclesAtLastAIOStart = PerfUtils::Cycles::rdtsc();
         if (aio_write(&aioCb) == -1)
             fprintf(stderr, "Error at aio_write(): %s\n", strerror(errno));
-
-        hasOutstandingOperation = true;
+        else
+            hasOutstandingOperation = true;
 
         // Swap buffers
         encoder.swapBuffer(outputDoubleBuffer,
-- 
2.43.0


From 407c06b85da277c5995a925a2b36ef97c4aa05cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:50 +0000
Subject: [PATCH 26/43] fix: find the end of format strings that end in a
 backslash

The quote after an escaped backslash ("C:\\\\") was taken for an escaped
quote, and the statement rejected as having no literal format string.
---
 preprocessor/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index ff03dba..7a1a4c2 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -121,7 +121,7 @@ def extractCString(source):
         isInQuotes = not isInQuotes
       elif isInQuotes:
         returnString += c
-        prevWasEscape = c == "\\"
+        prevWasEscape = c == "\\" and not prevWasEscape
       else:
         if not (c.isspace()):
           return None
-- 
2.43.0


From 57402a8ce928357d2761e9eb913b216d704ebf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:50 +0000
Subject: [PATCH 27/43] fix: keep adjacent string literals apart after a hex or
 octal escape

"\\x1" "2" was joined into "\\x12", a different character.
---
 preprocessor/parser.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index 7a1a4c2..b639b60 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -114,12 +114,23 @@ def extractCString(source):
   returnString = ""
   isInQuotes = False
   prevWasEscape = False
+  startOfLiteral = False
 
   for line in source.splitlines(True):
     for c in line:
       if c == "\"" and not prevWasEscape:
         isInQuotes = not isInQuotes
+        startOfLiteral = isInQuotes
       elif isInQuotes:
+        # Keep the literals apart if the escape sequence at the end of one
+        # would otherwise swallow the start of the next (i.e. "\x1" "2")
+        if startOfLiteral:
+          escape = re.search(r"(?:^|[^\\])(?:\\\\)*\\(x|[0-7])[0-9a-fA-F]*$",
+                             returnString)
+          if escape and c in "0123456789abcdefABCDEF":
+            returnString += "\"\""
+          startOfLiteral = False
+
         returnString += c
         prevWasEscape = c == "\\" and not prevWasEscape
       else:
-- 
2.43.0


From 74e6cf0ecf24777cea5f9711cde9385f79b0a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:11 +0000
Subject: [PATCH 28/43] fix: recognize character literals in log statements

A quote, parenthesis, comma or brace in a character literal was taken for
syntax. Statements were rejected, swallowed by the one before ('"' in the
arguments of both) or left as they were (after a '"' on the same line).
---
 preprocessor/parser.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index b639b60..3c6f7d8 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -142,6 +142,22 @@ def extractCString(source):
 
   return returnString
 
+# Determines whether the single quote at an offset of a line separates the digits
+# of a number (i.e. 1'000) rather than starting a character literal.
+#
+# \param line
+#         line that contains the single quote
+# \param offset
+#         position of the single quote in line
+#
+# \return
+#         True if it's a digit separator
+def isDigitSeparator(line, offset):
+  start = offset
+  while start > 0 and (line[start - 1].isalnum() or line[start - 1] in "_.'"):
+    start = start - 1
+  return line[start:offset].lstrip(".")[:1].isdigit()
+
 # Attempt to extract a single argument in a C++ function invocation given
 # the argument's start position (immediately after left parenthesis or comma)
 # within a file.
@@ -166,6 +182,7 @@ def parseArgumentStartingAt(lines, startPos):
   curlyDepth = 0
   bracketDepth = 0
   inQuotes = False
+  inCharLiteral = False
   argSrcStr = ""
 
   offset = startPos.offset
@@ -183,11 +200,14 @@ def parseArgumentStartingAt(lines, startPos):
         continue
 
       # Start counting depths
-      if c == "\"":
+      if c == "\"" and not inCharLiteral:
         inQuotes = not inQuotes
+      elif c == "'" and not inQuotes \
+              and (inCharLiteral or not isDigitSeparator(line, i)):
+        inCharLiteral = not inCharLiteral
 
       # Don't count curlies and parenthesis when in quotes
-      if inQuotes:
+      if inQuotes or inCharLiteral:
         continue
 
       if c == "{":
@@ -397,6 +417,7 @@ def processFile(inputFile, mapOutputFilename):
         # all #define's have been resolved.
         prevWasEscape = False
         inQuotes = False
+        inCharLiteral = False
         charOffset = -1
 
         # Optimization: Make sure line has LOG_FUNCTION before doing more work
@@ -413,8 +434,11 @@ def processFile(inputFile, mapOutputFilename):
             lastChar = c
             continue
 
-          if c == "\"":
+          if c == "\"" and not inCharLiteral:
             inQuotes = not inQuotes
+          elif c == "'" and not inQuotes \
+                  and (inCharLiteral or not isDigitSeparator(line, charOffset)):
+            inCharLiteral = not inCharLiteral
 
           # If we match the first character, cheat a little and scan forward
           if c == LOG_FUNCTION[0] and not inQuotes:
-- 
2.43.0


From b2570bd6c742f8b61e076fa1456a4e3a4d7ca30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 29/43] fix: rewrite log statements in the arguments of a log
 statement

With both on one line, rewriting the inner one (in a lambda) undid the
rewriting of the outer one, which then called the placeholder NANO_LOG.
---
 preprocessor/parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index 3c6f7d8..d19c4c6 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -578,12 +578,16 @@ def processFile(inputFile, mapOutputFilename):
             headOfLine = line[:charOffset]
             tailOfLine = line[offsetAfterLogFn:].rjust(len(line))
 
+            # The tail goes on a line of its own and is scanned next, as the
+            # arguments can contain log statements, too (i.e. in a lambda).
             lines[lineIndex] = \
                           headOfLine \
                             + "\r\n# %d \"injectedCode.fake\"\r\n" % ppLineNum \
-                            + "{ " + recordFn \
-                            + "\r\n# %d \"%s\"\r\n" % (ppLineNum, ppFileName) \
-                            + tailOfLine
+                            + "{ " + recordFn + "\r\n"
+            lines.insert(lineIndex + 1,
+                         "# %d \"%s\"\r\n" % (ppLineNum, ppFileName))
+            lines.insert(lineIndex + 2, tailOfLine)
+            break
 
           lastChar = c
     except ValueError as e:
-- 
2.43.0


From f3e22a9daa832ab290c5e245a3100793882fcc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:17 +0000
Subject: [PATCH 30/43] fix: skip line directives in the middle of a log
 statement

The preprocessor leaves one behind for a long comment in a statement. It
was taken for a part of the argument (rejecting the format string) and the
line numbers of the statements that follow were wrong.
---
 preprocessor/parser.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index d19c4c6..fb611e3 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -91,6 +91,9 @@ ignored_files = set([
 # End library implementer parameters
 ####
 
+# Directives of the GNU preprocessor ('# lineNumber "filename" flags')
+DIRECTIVE_REGEX = re.compile("^# (\\d+) \"(.*)\"(.*)")
+
 # Simple structure to identify a position within a file via a line number
 # and an offset on that line
 FilePosition = namedtuple('FilePosition', ['lineNum', 'offset'])
@@ -189,6 +192,10 @@ def parseArgumentStartingAt(lines, startPos):
   for lineNum in range(startPos.lineNum, len(lines)):
     line = lines[lineNum]
 
+    # Directives may occur in the middle of an argument (i.e. after a comment)
+    if DIRECTIVE_REGEX.match(line):
+      continue
+
     prevWasEscape = False
     for i in range(offset, len(line)):
       c = line[i]
@@ -328,6 +335,11 @@ def peekNextMeaningfulChar(lines, filePos):
 
   while lineNum < len(lines):
     line = lines[lineNum]
+
+    # Skip directives
+    if DIRECTIVE_REGEX.match(line):
+      offset = len(line)
+
     while offset < len(line):
       c = line[offset]
       if not c.isspace():
@@ -353,7 +365,6 @@ def peekNextMeaningfulChar(lines, filePos):
 #
 def processFile(inputFile, mapOutputFilename):
   functionGenerator = FunctionGenerator()
-  directiveRegex = re.compile("^# (\d+) \"(.*)\"(.*)")
 
   with open(inputFile) as f, open(inputFile + "i", 'w') as output:
     try:
@@ -390,7 +401,7 @@ def processFile(inputFile, mapOutputFilename):
         # Parse special preprocessor directives that follows the format
         # '# lineNumber "filename" flags'
         if line[0] == "#":
-          directive = directiveRegex.match(line)
+          directive = DIRECTIVE_REGEX.match(line)
           if directive:
               # -1 since the line num describes the line after it, not the
               # current one, so we decrement it here before looping
@@ -541,7 +552,11 @@ def processFile(inputFile, mapOutputFilename):
             scLine = lines[scLineNum]
 
             # Extrapolate the symbolic line number
-            scPPLineNum = ppLineNum + (scLineNum - lineIndex)
+            scPPLineNum = ppLineNum
+            for i in range(lineIndex + 1, scLineNum + 1):
+              directive = DIRECTIVE_REGEX.match(lines[i])
+              scPPLineNum = int(directive.group(1)) - 1 if directive \
+                                                        else scPPLineNum + 1
 
             # Split the line
             scHeadLine = scLine[:scOffset + 1] + "\r\n"
-- 
2.43.0


From 78f287c763f875b1ac210253ad4b9185554f7ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:17 +0000
Subject: [PATCH 31/43] fix: tell log statements on the same line apart by
 their severity

Statements on one line that have the same format string (or ones that only
differ in characters that are mangled into the same id) shared one entry:
all were printed with the severity and format of the first.
---
 preprocessor/FunctionGenerator.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index 45e8892..7b01d34 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -346,9 +346,15 @@ size_t numLogIds = {count};
         logId = generateLogIdStr(fmtString, filename, linenum)
 
         # If we've already generated code for this invocation, don't do it again
-        if self.logId2Code.get(logId):
+        while self.logId2Code.get(logId):
             code = self.logId2Code.get(logId)
-            return (code.get('recordFnDecl'), code.get('recordFnName'))
+            if (code.get('fmtString'), code.get('filename'),
+                    code.get('logLevel').strip()) == (fmtString, filename,
+                                                      logLevel.strip()):
+                return (code.get('recordFnDecl'), code.get('recordFnName'))
+
+            # The id belongs to another log statement on the same line
+            logId += generateLogIdStr(logLevel.strip(), "", linenum)
 
         # Get a preprocessed list of the format specifiers in a format string
         fmtSpecifiers = splitAndParseTypesInFmtString(fmtString)
@@ -893,6 +899,7 @@ def generateIdVariableNameFromLogId(logId):
 
 def generateLogIdStr(fmtString, filename, linenum):
     def encode(string):
-        return "".join([c if c.isalnum() else str(ord(c)) for c in string])
+        return "".join([c if c.isalnum() and ord(c) < 128 else str(ord(c))
+                                                            for c in string])
 
     return "__%s__%s__%d__" % (encode(fmtString), encode(filename), linenum)
-- 
2.43.0


From 2de371b49f41b6738a22722e461814c0097e7501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:17 +0000
Subject: [PATCH 32/43] fix: count the bytes of file names with escapes or
 non-ASCII characters

The length of the name in the dictionary was that of its source text in
characters, which made the whole log undecodable for other file names.
---
 preprocessor/FunctionGenerator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index 7b01d34..cebce72 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -657,7 +657,7 @@ inline void
            numPrintFragments=len(fmtSpecifiers),
            logLevel=logLevel,
            linenum=linenum,
-           filenameLength=len(filename) + 1,
+           filenameLength=cStringLength(filename) + 1,
            filename=filename,
            fmtString=fmtString
            )
@@ -893,6 +893,11 @@ def isStringType(typeStr):
 def isWideString(typeStr):
     return typeStr and -1 != typeStr.find("wchar_t*")
 
+# Given the contents of a C string literal, return the number of bytes that
+# the string takes up (without the terminating NULL)
+def cStringLength(string):
+    return len(re.sub(r"\\([0-7]{1,3}|.)", "x", string).encode("utf-8"))
+
 # Helper functions to generate variable names
 def generateIdVariableNameFromLogId(logId):
     return "__fmtId" + logId
-- 
2.43.0


From 427fdd2c31a786bdc582d51e93a0f6a918e3b920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:07 +0000
Subject: [PATCH 33/43] fix: compile wide string specifiers with a precision

The code generated for "%.3ls" called wcsnlen_s, which glibc lacks.
---
 preprocessor/FunctionGenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index cebce72..9e78352 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -424,10 +424,10 @@ size_t numLogIds = {count};
                     strlenToAdd += "(1 + wcslen(arg{0}))*sizeof(wchar_t);"\
                                         .format(argNum)
                 elif precision == '*':
-                    strlenToAdd += "(1 + wcsnlen_s(arg{0}, arg{1}))*sizeof(wchar_t);"\
+                    strlenToAdd += "(1 + wcsnlen(arg{0}, arg{1}))*sizeof(wchar_t);"\
                                         .format(argNum,argNum - 1)
                 else:
-                    strlenToAdd += "(1 + wcsnlen_s(arg{0}, {1}))*sizeof(wchar_t);"\
+                    strlenToAdd += "(1 + wcsnlen(arg{0}, {1}))*sizeof(wchar_t);"\
                                         .format(argNum, precision)
             else:
                 if not precision:
-- 
2.43.0


From 67731cba0220fa137d71ffd26b9d3ec487d1033e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:33 +0000
Subject: [PATCH 34/43] fix: do not read beyond the precision of a string in
 generated code

The record function copied the character after the last one that the
precision allows, and scanned strings with a precision of 0 to the end.
---
 preprocessor/FunctionGenerator.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index 9e78352..2c2c8ac 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -402,6 +402,7 @@ size_t numLogIds = {count};
 
         # Create more usable strings for each list
         strlenDeclarations = []
+        stringArgsWithPrecision = []
         argNum = 0
         for fmtSpecifier in fmtSpecifiers:
             precision = fmtSpecifier.precision
@@ -420,7 +421,7 @@ size_t numLogIds = {count};
 
             # The +1's below are for the NULL character
             if isWideString(fmtSpecifier.type):
-                if not precision:
+                if precision is None:
                     strlenToAdd += "(1 + wcslen(arg{0}))*sizeof(wchar_t);"\
                                         .format(argNum)
                 elif precision == '*':
@@ -430,7 +431,7 @@ size_t numLogIds = {count};
                     strlenToAdd += "(1 + wcsnlen(arg{0}, {1}))*sizeof(wchar_t);"\
                                         .format(argNum, precision)
             else:
-                if not precision:
+                if precision is None:
                     strlenToAdd += "1 + strlen(arg{0});".format(argNum)
                 elif precision == '*':
                     strlenToAdd += "1 + strnlen(arg{0}, arg{1});".format(argNum,
@@ -439,6 +440,8 @@ size_t numLogIds = {count};
                     strlenToAdd += "1 + strnlen(arg{0}, {1});".format(argNum,
                                                                      precision)
             strlenDeclarations.append(strlenToAdd)
+            if precision is not None:
+                stringArgsWithPrecision.append(argNum)
 
             argNum += 1
 
@@ -457,10 +460,14 @@ size_t numLogIds = {count};
         recordNonStringArgsCode = "".join(["\t%s(buffer, arg%d);\n" % \
                 (RECORD_PRIMITIVE_FN, idx) for idx in nonStringArgsIdx])
 
-        recordStringsArgsCode = ["memcpy(buffer, arg{0}, str{0}Len); "
+        # Strings with a precision may lack the terminating NULL; it's written
+        # below in any case, so don't read it.
+        recordStringsArgsCode = ["memcpy(buffer, arg{0}, str{0}Len{1}); "
                "buffer += str{0}Len;"
                "*(reinterpret_cast<std::remove_const<typename std::remove_pointer<decltype(arg{0})>::type>::type*>(buffer) - 1) = L'\\0';".format(
-                                               idx) for idx in stringArgsIdx]
+                   idx,
+                   " - sizeof(*arg%d)" % idx if idx in stringArgsWithPrecision
+                                             else "") for idx in stringArgsIdx]
 
         # Start Generating the record code
         recordCode = \
-- 
2.43.0


From d85f33cc04481bf12c0b4c4043ad7913d43ce97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:32 +0000
Subject: [PATCH 35/43] fix: accept an empty format string in the preprocessor

---
 preprocessor/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index fb611e3..39b0c0a 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -500,7 +500,7 @@ def processFile(inputFile, mapOutputFilename):
                                 "#include-ing the NanoLog header!",
                                lines[lineIndex:lastLogStatementLine + 1])
 
-            if not fmtString:
+            if fmtString is None or not fmtArg.source.strip():
               raise ValueError("NANO_LOG statement expects a literal format "
                                "string for its second argument",
                                 lines[lineIndex:lastLogStatementLine + 1])
-- 
2.43.0


From 8ecd6d5e55220e51c3d2b76ae1a9221a63e21aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:52 +0000
Subject: [PATCH 36/43] fix: accept a period without digits as a precision of 0
 in the preprocessor

---
 preprocessor/FunctionGenerator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index 2c2c8ac..898b6c7 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -776,7 +776,7 @@ def splitAndParseTypesInFmtString(fmtString):
                 match = re.match("^%"
                                  "(?P<flags>[-+ #0]+)?"
                                  "(?P<width>[\\d]+|\\*)?"
-                                 "(\\.(?P<precision>\\d+|\\*))?"
+                                 "(\\.(?P<precision>\\d+|\\*|))?"
                                  "(?P<length>hh|h|l|ll|j|z|Z|t|L)?"
                                  "(?P<specifier>[diuoxXfFeEgGaAcspn])",
                                  fmtString[charIndex:])
@@ -809,7 +809,10 @@ def splitAndParseTypesInFmtString(fmtString):
         length = fmt.group('length')
         specifier = fmt.group('specifier')
         precision = fmt.group("precision")
-        if precision and precision != '*':
+        if precision == "":
+            # A lone period stands for a precision of 0
+            precision = 0
+        elif precision and precision != '*':
             precision = int(float(precision))
         width = fmt.group('width')
         if width and width != '*':
-- 
2.43.0


From c1d0329c9cbe35b75abf512bee37d8c611d03155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 37/43] fix: complete sync() and exit while other threads keep
 logging

The background thread only completed a sync() (or the exit requested by
setLogFile() and at the end of the process) once a pass over all the staging
buffers found nothing. Threads that log steadily could postpone that forever.
Now it picks up no more messages once every buffer was scanned twice since the
request.
---
 runtime/RuntimeLogger.cc | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index b6e0743..e372e33 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -372,6 +372,13 @@ RuntimeLogger::compressionThreadMain() {
     // zero-th index, but have not yet encoded that in he compressed output
     bool wrapAround = false;
 
+    // Number of times the scans have passed the zero-th index since the last
+    // sync or exit request was noticed.
+    uint32_t wrapAroundsSinceRequest = 0;
+
+    // Indicates that the request to exit has been noticed
+    bool exiting = false;
+
     // Keeps a shadow mapping of the log identifiers to static information
     // to allow the logging threads to register in parallel with compression
     // lookup
@@ -386,6 +393,18 @@ RuntimeLogger::compressionThreadMain() {
         coreId = sched_getcpu();
         NANOLOG_VERIF_POINT(0);
 
+        if (compressionThreadShouldExit && !exiting) {
+            exiting = true;
+            wrapAroundsSinceRequest = 0;
+        }
+
+        // Between three wrap arounds, every buffer is scanned twice, i.e. what
+        // was logged before the request has been compressed. Write that out
+        // before picking up more or else threads that keep logging could
+        // postpone the completion of a sync() or exit forever.
+        bool finishRequest = wrapAroundsSinceRequest >= 3 &&
+                        (exiting || syncStatus == PERFORMING_SECOND_PASS);
+
         // Indicates how many bytes we have consumed from the StagingBuffers
         // in a single iteration of the while above. A value of 0 means we
         // were unable to consume anymore data any of the stagingBuffers
@@ -416,7 +435,8 @@ RuntimeLogger::compressionThreadMain() {
 
             // Scan through the threadBuffers looking for log messages to
             // compress while the output buffer is not full.
-            while (!outputBufferFull && !threadBuffers.empty())
+            while (!outputBufferFull && !finishRequest
+                                                    && !threadBuffers.empty())
             {
                 uint64_t peekBytes = 0;
                 StagingBuffer *sb = threadBuffers[i];
@@ -498,6 +518,7 @@ RuntimeLogger::compressionThreadMain() {
                         if (i == threadBuffers.size()) {
                             i = 0;
                             wrapAround = true;
+                            ++wrapAroundsSinceRequest;
                         }
                         lastStagingBufferChecked = i;
                         continue;
@@ -506,8 +527,10 @@ RuntimeLogger::compressionThreadMain() {
 
                 i = (i + 1) % threadBuffers.size();
 
-                if (i == 0)
+                if (i == 0) {
                     wrapAround = true;
+                    ++wrapAroundsSinceRequest;
+                }
 
                 // Completed a full pass through the buffers
                 if (i == lastStagingBufferChecked)
@@ -527,6 +550,7 @@ RuntimeLogger::compressionThreadMain() {
             // pass to make sure we got everything up to the sync point.
             if (syncStatus == SYNC_REQUESTED) {
                 syncStatus = PERFORMING_SECOND_PASS;
+                wrapAroundsSinceRequest = 0;
                 continue;
             }
 
@@ -544,6 +568,10 @@ RuntimeLogger::compressionThreadMain() {
                     NanoLogConfig::POLL_INTERVAL_NO_WORK_US));
 
             cyclesAwakeStart = PerfUtils::Cycles::rdtsc();
+        } else if (syncStatus == SYNC_REQUESTED) {
+            std::unique_lock<std::mutex> lock(condMutex);
+            syncStatus = PERFORMING_SECOND_PASS;
+            wrapAroundsSinceRequest = 0;
         }
 
         if (hasOutstandingOperation) {
-- 
2.43.0


From 27383e338a28d46f4c4156b59a21fa4fd0e2cbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:15 +0000
Subject: [PATCH 38/43] fix: let static objects log before main() and after
 exit()

The logger was constructed in link order, usually after the application's own
static objects. What these had logged by then was lost, and their staging
buffer freed twice at exit.
---
 runtime/Cycles.cc        | 2 +-
 runtime/Portability.h    | 9 +++++++++
 runtime/RuntimeLogger.cc | 2 +-
 runtime/TimeTrace.cc     | 3 ++-
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/runtime/Cycles.cc b/runtime/Cycles.cc
index 11d86d5..640e744 100644
--- a/runtime/Cycles.cc
+++ b/runtime/Cycles.cc
@@ -30,7 +30,7 @@ namespace PerfUtils {
 double Cycles::cyclesPerSec = 0;
 uint64_t Cycles::mockTscValue = 0;
 double Cycles::mockCyclesPerSec = 0;
-static Initialize _(Cycles::init);
+static Initialize _ NANOLOG_INIT_PRIORITY(101) (Cycles::init);
 
 /**
  * Perform once-only overall initialization for the Cycles class, such
diff --git a/runtime/Portability.h b/runtime/Portability.h
index 129c051..88395aa 100644
--- a/runtime/Portability.h
+++ b/runtime/Portability.h
@@ -28,6 +28,15 @@
 #define NANOLOG_PACK_POP
 #endif
 
+// Objects marked with a lower priority are constructed before (and destroyed
+// after) all others, i.e. they can be used by the constructors and destructors
+// of the application's static objects.
+#if defined(__GNUC__)
+#define NANOLOG_INIT_PRIORITY(priority) __attribute__((init_priority(priority)))
+#else
+#define NANOLOG_INIT_PRIORITY(priority)
+#endif
+
 #if _MSC_VER
 
 #ifdef _USE_ATTRIBUTES_FOR_SAL
diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index e372e33..8969139 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -33,7 +33,7 @@ namespace NanoLogInternal {
 // Define the static members of RuntimeLogger here
 __thread RuntimeLogger::StagingBuffer *RuntimeLogger::stagingBuffer = nullptr;
 thread_local RuntimeLogger::StagingBufferDestroyer RuntimeLogger::sbc;
-RuntimeLogger RuntimeLogger::nanoLogSingleton;
+RuntimeLogger RuntimeLogger::nanoLogSingleton NANOLOG_INIT_PRIORITY(102);
 
 // RuntimeLogger constructor
 RuntimeLogger::RuntimeLogger()
diff --git a/runtime/TimeTrace.cc b/runtime/TimeTrace.cc
index 02ea6d4..49b4e95 100644
--- a/runtime/TimeTrace.cc
+++ b/runtime/TimeTrace.cc
@@ -22,7 +22,8 @@ using std::string;
 using std::vector;
 namespace PerfUtils {
 __thread TimeTrace::Buffer* TimeTrace::threadBuffer = NULL;
-std::vector<TimeTrace::Buffer*> TimeTrace::threadBuffers;
+std::vector<TimeTrace::Buffer*> TimeTrace::threadBuffers
+        NANOLOG_INIT_PRIORITY(102);
 std::mutex TimeTrace::mutex;
 const char* TimeTrace::filename = NULL;
 
-- 
2.43.0


From d4677599df061982e6232d9414ac3b901a1ac94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:42 +0000
Subject: [PATCH 39/43] fix: keep a thread's staging buffer until its
 thread_local objects are gone

A thread that logged from the destructor of a thread_local object constructed
before its first message got a second buffer (and thread number) that nothing
ever marked for deletion.
---
 runtime/RuntimeLogger.cc | 17 +++++++++++--
 runtime/RuntimeLogger.h  | 53 +++++++++-------------------------------
 2 files changed, 27 insertions(+), 43 deletions(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 8969139..4751594 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -32,12 +32,12 @@ namespace NanoLogInternal {
 
 // Define the static members of RuntimeLogger here
 __thread RuntimeLogger::StagingBuffer *RuntimeLogger::stagingBuffer = nullptr;
-thread_local RuntimeLogger::StagingBufferDestroyer RuntimeLogger::sbc;
 RuntimeLogger RuntimeLogger::nanoLogSingleton NANOLOG_INIT_PRIORITY(102);
 
 // RuntimeLogger constructor
 RuntimeLogger::RuntimeLogger()
-        : threadBuffers()
+        : threadDeathKey()
+        , threadBuffers()
         , nextBufferId()
         , bufferMutex()
         , compressionThread()
@@ -72,6 +72,11 @@ RuntimeLogger::RuntimeLogger()
     for (size_t i = 0; i < Util::arraySize(stagingBufferPeekDist); ++i)
         stagingBufferPeekDist[i] = 0;
 
+    if (pthread_key_create(&threadDeathKey, threadDied) != 0) {
+        fprintf(stderr, "NanoLog could not create a pthread key\r\n");
+        std::exit(-1);
+    }
+
     const char *filename = NanoLogConfig::DEFAULT_LOG_FILE;
     outputFd = open(filename, NanoLogConfig::FILE_PARAMS, 0666);
     if (outputFd < 0) {
@@ -136,6 +141,14 @@ RuntimeLogger::~RuntimeLogger() {
     outputFd = 0;
 }
 
+// See documentation in RuntimeLogger.h
+void
+RuntimeLogger::threadDied(void *buffer) {
+    NANOLOG_VERIF_POINT(11);
+    static_cast<StagingBuffer *>(buffer)->shouldDeallocate = true;
+    stagingBuffer = nullptr;
+}
+
 // Documentation in NanoLog.h
 std::string
 RuntimeLogger::getStats() {
diff --git a/runtime/RuntimeLogger.h b/runtime/RuntimeLogger.h
index 2ea2216..bbdf41f 100644
--- a/runtime/RuntimeLogger.h
+++ b/runtime/RuntimeLogger.h
@@ -18,6 +18,7 @@
 
 #include <aio.h>
 #include <cassert>
+#include <pthread.h>
 
 #include <condition_variable>
 #include <mutex>
@@ -141,14 +142,12 @@ using namespace NanoLog;
 
         // Forward Declarations
         class StagingBuffer;
-        class StagingBufferDestroyer;
 
         // Storage for staging uncompressed log statements for compression
         static __thread StagingBuffer *stagingBuffer;
 
-        // Destroys the __thread StagingBuffer upon its own destruction, which
-        // is synchronized with thread death
-        static thread_local StagingBufferDestroyer sbc;
+        // Marks the thread's StagingBuffer for deletion upon thread death
+        static void threadDied(void *buffer);
 
         // Singleton RuntimeLogger that manages the thread-local structures and
         // background output thread.
@@ -183,9 +182,18 @@ using namespace NanoLog;
                 guard.lock();
 
                 threadBuffers.push_back(stagingBuffer);
+
+                // Arranges for threadDied() to be invoked
+                pthread_setspecific(threadDeathKey, stagingBuffer);
             }
         }
 
+        // Invokes threadDied() for every thread that has a StagingBuffer. This
+        // is a pthread key rather than a C++ thread_local object because its
+        // destructor runs after those of all thread_local objects, so that the
+        // latter can still log.
+        pthread_key_t threadDeathKey;
+
         // Globally the thread-local stagingBuffers
         std::vector<StagingBuffer *> threadBuffers;
 
@@ -412,10 +420,6 @@ using namespace NanoLog;
                     , shouldDeallocate(false)
                     , id(bufferId)
                     , storage() {
-                // Empty function, but causes the C++ runtime to instantiate the
-                // sbc thread_local (see documentation in function).
-                sbc.stagingBufferCreated();
-
                 for (size_t i = 0; i < Util::arraySize(
                                               cyclesProducerBlockedDist); ++i)
                 {
@@ -485,43 +489,10 @@ using namespace NanoLog;
             char storage[NanoLogConfig::STAGING_BUFFER_SIZE];
 
             friend RuntimeLogger;
-            friend StagingBufferDestroyer;
 
             DISALLOW_COPY_AND_ASSIGN(StagingBuffer);
         };
 
-        // This class is intended to be instantiated as a C++ thread_local to
-        // synchronize marking the thread local stagingBuffer for deletion with
-        // thread death.
-        //
-        // The reason why this class exists rather than wrapping the stagingBuffer
-        // in a unique_ptr or declaring the stagingBuffer itself to be thread_local
-        // is because of performance. Dereferencing the former costs 10 ns and the
-        // latter allocates large amounts of resources for every thread that is
-        // created, which is wasteful for threads that do not use the RuntimeLogger.
-        class StagingBufferDestroyer {
-        public:
-            // TODO(syang0) I wonder if it'll be better if stagingBuffer was
-            // actually a thread_local wrapper with dereference operators
-            // implemented.
-
-            explicit StagingBufferDestroyer() {
-            }
-
-            // Weird C++ hack; C++ thread_local are instantiated upon first use
-            // thus the StagingBuffer has to invoke this function in order
-            // to instantiate this object.
-            void stagingBufferCreated() {}
-
-            virtual ~StagingBufferDestroyer() {
-                if (stagingBuffer != nullptr) {
-                    NANOLOG_VERIF_POINT(11);
-                    stagingBuffer->shouldDeallocate = true;
-                    stagingBuffer = nullptr;
-                }
-            }
-        };
-
         DISALLOW_COPY_AND_ASSIGN(RuntimeLogger);
     };  // RuntimeLogger
 }; // Namespace NanoLogInternal
-- 
2.43.0


From f0acd35cfbf42caa7b9b37a85325466dee98ae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:42 +0000
Subject: [PATCH 40/43] fix: print producer statistics of threads that never
 blocked

getHistograms() divided by zero when compiled with RECORD_PRODUCER_STATS, and
left the average (and the title of the distribution) out.
---
 runtime/RuntimeLogger.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 4751594..9117b5c 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -288,12 +288,15 @@ RuntimeLogger::getHistograms()
                 out << buffer;
 
 #ifdef RECORD_PRODUCER_STATS
-                uint64_t averageBlockNs = PerfUtils::Cycles::toNanoseconds(
+                uint64_t averageBlockNs = 0;
+                if (sb->numTimesProducerBlocked > 0)
+                    averageBlockNs = PerfUtils::Cycles::toNanoseconds(
                         sb->cyclesProducerBlocked)/sb->numTimesProducerBlocked;
                 snprintf(buffer, 1024,
                                  "\tAvgBlock (ns) : %lu\r\n"
                                  "\tBlock Dist\r\n",
                          averageBlockNs);
+                out << buffer;
                 for (size_t i = 0; i < Util::arraySize(
                         sb->cyclesProducerBlockedDist); ++i)
                 {
-- 
2.43.0


From 04735d4b5e746f4014ff4ef7b15f1c42ac259b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:43 +0000
Subject: [PATCH 41/43] fix: wake all threads whose sync() has completed

sync() can be called by several threads at the same time, but the background
thread woke only one of them per completion and the next one only once it ran
out of work, which never happens while other threads keep logging.
---
 runtime/RuntimeLogger.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 9117b5c..74d6c88 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -357,7 +357,7 @@ RuntimeLogger::waitForAIO() {
 
         if (syncStatus == WAITING_ON_AIO) {
             syncStatus = SYNC_COMPLETED;
-            hintSyncCompleted.notify_one();
+            hintSyncCompleted.notify_all();
         }
     }
 }
@@ -576,7 +576,7 @@ RuntimeLogger::compressionThreadMain() {
             }
 
             if (syncStatus == SYNC_COMPLETED) {
-                hintSyncCompleted.notify_one();
+                hintSyncCompleted.notify_all();
             }
 
             cyclesActive += PerfUtils::Cycles::rdtsc() - cyclesAwakeStart;
@@ -652,7 +652,7 @@ RuntimeLogger::compressionThreadMain() {
                 std::unique_lock<std::mutex> lock(nanoLogSingleton.condMutex);
                 if (syncStatus == WAITING_ON_AIO) {
                     syncStatus = SYNC_COMPLETED;
-                    hintSyncCompleted.notify_one();
+                    hintSyncCompleted.notify_all();
                 }
             }
         }
-- 
2.43.0


From e31173a870b6acd0c9dc16722fc98b021d6bb239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:15 +0000
Subject: [PATCH 42/43] fix: recognise identifiers like NNANO_LOG that end in
 the log function's name

---
 preprocessor/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index 39b0c0a..d59c62f 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -465,6 +465,7 @@ def processFile(inputFile, mapOutputFilename):
                 break
 
             if not found:
+              lastChar = c
               continue
 
             # Valid identifier characters are [a-zA-Z_][a-zA-Z0-9_]*
-- 
2.43.0


From 725b18960cc71c201d178094a806a5485a162897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:51 +0000
Subject: [PATCH 43/43] fix: convert the times of rcdfTime with the log's own
 clock rate

---
 runtime/Log.h              | 10 ++++++++++
 runtime/LogDecompressor.cc |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/runtime/Log.h b/runtime/Log.h
index 60bfcbd..b1deafd 100644
--- a/runtime/Log.h
+++ b/runtime/Log.h
@@ -879,6 +879,16 @@ namespace Log {
         bool getNextLogStatement(LogMessage &logMsg,
                                  FILE *outputFd= nullptr);
 
+        /**
+         * Returns the factor that converts the timestamps of the log messages
+         * read last (see LogMessage::getTimestamp()) to seconds, as recorded
+         * by the machine that produced the log.
+         */
+        inline double
+        getCyclesPerSecond() const {
+            return checkpoint.cyclesPerSecond;
+        }
+
     PRIVATE:
         /**
          * Reads and stores a BufferExtent from the compressed log and
diff --git a/runtime/LogDecompressor.cc b/runtime/LogDecompressor.cc
index acef2d2..04c4fa8 100644
--- a/runtime/LogDecompressor.cc
+++ b/runtime/LogDecompressor.cc
@@ -255,7 +255,7 @@ int main(int argc, char** argv) {
         double decodeTime = PerfUtils::Cycles::toSeconds(stop - start);
 
         start = PerfUtils::Cycles::rdtsc();
-        runRCDF(interLogTimes, PerfUtils::Cycles::getCyclesPerSec());
+        runRCDF(interLogTimes, decoder.getCyclesPerSecond());
         stop = PerfUtils::Cycles::rdtsc();
         double rcdfTime = PerfUtils::Cycles::toSeconds(stop - start);
 
-- 
2.43.0

