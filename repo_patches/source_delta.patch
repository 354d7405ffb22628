From f364c7bb0c2ecb490cb2ecc4f4e32867e1c06cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:12 +0000
Subject: [PATCH 01/20] fix: heap overflow in SimpleMarkov, the context of all
 ones had no counter

---
 probmodels/ProbabilityModel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probmodels/ProbabilityModel.cpp b/probmodels/ProbabilityModel.cpp
index 9db31af..75e5604 100644
--- a/probmodels/ProbabilityModel.cpp
+++ b/probmodels/ProbabilityModel.cpp
@@ -88,7 +88,8 @@ template <typename UnsignedInt>
 SimpleMarkov<UnsignedInt>::SimpleMarkov() :
     m_prev(static_cast<UnsignedInt>(0)), m_history(0)
 {
-  uint64 size = (static_cast<uint64>(1) << 8*sizeof(UnsignedInt)) - 1;
+  /* One counter for each value m_prev can have. */
+  uint64 size = static_cast<uint64>(1) << 8*sizeof(UnsignedInt);
   m_history = new char[size];
   std::fill(m_history, m_history + size, 0);
 }
-- 
2.43.0


From f9f1bd61f5fc9dfd034eebda74e1c47bd294e9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:12 +0000
Subject: [PATCH 02/20] fix: undefined negative shift in
 SimpleMarkov::probabilityOfOne

---
 probmodels/ProbabilityModel.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/probmodels/ProbabilityModel.cpp b/probmodels/ProbabilityModel.cpp
index 75e5604..63ab5d3 100644
--- a/probmodels/ProbabilityModel.cpp
+++ b/probmodels/ProbabilityModel.cpp
@@ -116,8 +116,10 @@ void SimpleMarkov<UnsignedInt>::update(bool bit) {
 template <typename UnsignedInt>
 Probability SimpleMarkov<UnsignedInt>::probabilityOfOne() const {
   Probability val = kProbabilityScale >> (kLogProbabilityScale/2);
-  if (m_history[m_prev] > 0) return val << 2*m_history[m_prev];
-  else return val >> 2*m_history[m_prev];
+  if (m_history[m_prev] >= 0) return val << 2*m_history[m_prev];
+  /* Shifting right by a negative amount is undefined. In practice it has
+   * resulted in zero, which is kept because existing archives rely on it. */
+  else return 0;
 }
 
 template <typename UnsignedInt>
-- 
2.43.0


From 0c13bafbf1afec8c0a4bc74dd1e6c8f0d11ad809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:50 +0000
Subject: [PATCH 03/20] fix: iterator past the end of the candidates in
 WaveletTree::bitsForIntegers

---
 WaveletTree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/WaveletTree.hpp b/WaveletTree.hpp
index 6b3fa7b..add76c8 100644
--- a/WaveletTree.hpp
+++ b/WaveletTree.hpp
@@ -1593,7 +1593,8 @@ uint64 WaveletTree<BitVector>::bitsForIntegers(
   // We need at least 'depthForFixedCodes' integers to Huffman tree
   if(depthForFixedCodes > codeLengths.size()) {
     std::map<uint64, uint32>::const_reverse_iterator it = notRemoved.rbegin();
-    for(int i = 0; i< (int)(depthForFixedCodes-codeLengths.size()); ++i, ++it){
+    for(int i = 0; i< (int)(depthForFixedCodes-codeLengths.size()) &&
+            it != notRemoved.rend(); ++i, ++it){
       removed[it->second] = true;
       codeLengths.push_back(integerFrequencies[it->second]);
       if(minFreq == 0 || minFreq > it->first) {
-- 
2.43.0


From 71ca8be1e0ab03d5984f176042a116c5a351eb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:59 +0000
Subject: [PATCH 04/20] fix: read past the end of the table in
 FrequencyTable::increase

---
 preprocessors/FrequencyTable.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocessors/FrequencyTable.cpp b/preprocessors/FrequencyTable.cpp
index fab008c..b3058b5 100644
--- a/preprocessors/FrequencyTable.cpp
+++ b/preprocessors/FrequencyTable.cpp
@@ -132,7 +132,8 @@ void FrequencyTable::increase(byte key, size_t value) {
   assert(m_frequencies[freqIndex].first == key);
   std::pair<byte, size_t> pair = std::make_pair(key, value);
   
-  while (freqIndex < m_last && value > m_frequencies[freqIndex + 1].second)
+  while (freqIndex + 1 < m_last &&
+         value > m_frequencies[freqIndex + 1].second)
   {
     --m_location[m_frequencies[freqIndex + 1].first];
     m_frequencies[freqIndex] = m_frequencies[freqIndex + 1];
-- 
2.43.0


From a9da7c80f450121834cea4bb6320977c2be66bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:59 +0000
Subject: [PATCH 05/20] fix: in-place pair replacement lost the last byte of
 very short blocks

---
 preprocessors/PairReplacer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessors/PairReplacer.cpp b/preprocessors/PairReplacer.cpp
index 62ccd61..9013632 100644
--- a/preprocessors/PairReplacer.cpp
+++ b/preprocessors/PairReplacer.cpp
@@ -359,7 +359,7 @@ writeReplacedVersion(byte *src, size_t length) const {
     }
     ++i;
   }
-  filled += buffer.consume(src + filled, i);
+  filled += buffer.consume(src + filled, length - filled);
   return filled;
 }
 
-- 
2.43.0


From b371458e8b01adfb29804684a106040012b28f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:59 +0000
Subject: [PATCH 06/20] fix: don't run pair replacement on blocks of one or two
 bytes

---
 preprocessors/Precompressor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocessors/Precompressor.cpp b/preprocessors/Precompressor.cpp
index 6cf3e3a..ac53bcf 100644
--- a/preprocessors/Precompressor.cpp
+++ b/preprocessors/Precompressor.cpp
@@ -73,7 +73,8 @@ void Precompressor::precompress(PrecompressorBlock& block) const {
     size_t oldLength = length;
     bool useTempArray = false;
 
-    for(size_t i = 0; i < m_preprocessingOptions.size(); ++i) {
+    // PairReplacer can't handle blocks of one or two bytes
+    for(size_t i = 0; i < m_preprocessingOptions.size() && length > 2; ++i) {
       char c = m_preprocessingOptions[i];
       double ratio = (double)length/block.originalSize();
       if(ratio < 0.666 && !useTempArray) {
-- 
2.43.0


From c9e933262128db0e67663235d37b3e49900e381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:32 +0000
Subject: [PATCH 07/20] fix: overlapping pairs were counted twice, replacing
 them could overflow the block

---
 preprocessors/PairReplacer.cpp | 17 ++++++++---------
 preprocessors/PairReplacer.hpp | 21 ++++++++-------------
 2 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/preprocessors/PairReplacer.cpp b/preprocessors/PairReplacer.cpp
index 9013632..a4ef614 100644
--- a/preprocessors/PairReplacer.cpp
+++ b/preprocessors/PairReplacer.cpp
@@ -37,14 +37,16 @@
 namespace bwtc {
 
 PairReplacer::PairReplacer(Grammar& grammar)
-    : m_grammar(grammar), m_prev(0), m_numOfReplacements(0),
-      m_numOfFreedSymbols(0), m_numOfNewSpecials(0), m_commonByte(0),
+    : m_grammar(grammar), m_prev(0), m_prevCounted(false),
+      m_numOfReplacements(0), m_numOfFreedSymbols(0),
+      m_numOfNewSpecials(0), m_commonByte(0),
       m_analysationStarted(false), m_verbose(false)
 {}
 
 PairReplacer::PairReplacer(Grammar& grammar, bool verbose)
-    : m_grammar(grammar), m_prev(0), m_numOfReplacements(0),
-      m_numOfFreedSymbols(0), m_numOfNewSpecials(0), m_commonByte(0),
+    : m_grammar(grammar), m_prev(0), m_prevCounted(false),
+      m_numOfReplacements(0), m_numOfFreedSymbols(0),
+      m_numOfNewSpecials(0), m_commonByte(0),
       m_analysationStarted(false), m_verbose(verbose)
 {}
 
@@ -55,11 +57,7 @@ void PairReplacer::analyseData(const byte *data, size_t length, bool reset) {
   size_t i = 0;
   if(!m_analysationStarted) beginAnalysing(data[i++], reset);
 
-  for(; i < ((length-1) & 0xfffffffe); ++i) {
-    analyseData0(data[i]);
-    analyseData(data[++i]);
-  }
-  if((length & 0x1) == 0) analyseData0(data[i]);
+  for(; i < length; ++i) analyseData(data[i]);
 }
 
 void PairReplacer::finishAnalysation() {}
@@ -72,6 +70,7 @@ void PairReplacer::resetAnalyseData() {
 void PairReplacer::beginAnalysing(byte first, bool reset) {
   beginAnalysing(reset);
   m_prev = first;
+  m_prevCounted = false;
   ++m_frequencies[first];
   const size_t* grammarFreq = m_grammar.frequencies();
   for(int i = 0; i < 256; ++i) m_frequencies[i] += grammarFreq[i];
diff --git a/preprocessors/PairReplacer.hpp b/preprocessors/PairReplacer.hpp
index 2c9363d..8656833 100644
--- a/preprocessors/PairReplacer.hpp
+++ b/preprocessors/PairReplacer.hpp
@@ -48,22 +48,14 @@ class PairReplacer {
     assert(m_analysationStarted);
     assert(m_pairFrequencies);
     assert(m_frequencies);
-    m_prev = (m_prev << 8) | next;
-    
-    ++m_pairFrequencies[m_prev];
-    ++m_frequencies[next];
-  }
-
-  inline void analyseData0(byte next) {
-    ++m_frequencies[next];
     uint16 prev = m_prev;
     m_prev = (m_prev << 8) | next;
 
-    int pXc = prev ^ m_prev;
-    // compute min(pXc,1)
-    int min = 1 + ((pXc - 1) & ((pXc - 1) >> (sizeof(int)*__CHAR_BIT__ - 1)));
-    
-    m_pairFrequencies[m_prev] += min;
+    // Occurrences of the pair xx overlap in the runs of x. Only the ones which
+    // can be replaced simultaneously are counted.
+    m_prevCounted = !(m_prevCounted && prev == m_prev);
+    m_pairFrequencies[m_prev] += m_prevCounted;
+    ++m_frequencies[next];
   }
 
   void beginAnalysing(bool reset);
@@ -124,6 +116,9 @@ class PairReplacer {
   /**Used in the analysation phase. */
   uint16 m_prev;
 
+  /**Tells if the pair in m_prev was counted in the analysation phase. */
+  bool m_prevCounted;
+
   /** Stores the total number of replacements stored and to be executed. */
   uint16 m_numOfReplacements;
 
-- 
2.43.0


From b5b9a4a63d3a6cec1cba07e4bd1ecd2291753979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:53 +0000
Subject: [PATCH 08/20] fix: binary codes overflowed when the range was wider
 than 2^30

---
 Utils.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Utils.hpp b/Utils.hpp
index fb75faa..e640cd5 100644
--- a/Utils.hpp
+++ b/Utils.hpp
@@ -122,7 +122,7 @@ static byte logFloor(unsigned long n) {
 template <typename Unsigned>
 byte logCeiling(Unsigned n) {
   byte log = logFloor(n);
-  return static_cast<Unsigned>(1 << log) < n ? log+1 : log;
+  return (static_cast<Unsigned>(1) << log) < n ? log+1 : log;
 }
 
 uint32 mostSignificantBit16(uint32 n);
@@ -240,7 +240,7 @@ void binaryCode(size_t n, size_t lo, size_t hi, BitVector& bits) {
   size_t rangeLen = hi - lo + 1;
   if(rangeLen == 1) return;
   byte codeLength = logCeiling(rangeLen);
-  size_t shortCodewords = (1 << codeLength) - rangeLen;
+  size_t shortCodewords = (static_cast<size_t>(1) << codeLength) - rangeLen;
   size_t longCodewords2 = (rangeLen - shortCodewords)/2;
   if(n - lo < longCodewords2) {
     pushBits(n - lo, codeLength, bits);
@@ -301,7 +301,7 @@ size_t binaryDecode(Input& input, size_t lo, size_t hi) {
   size_t rangeLen = hi - lo + 1;
   if(rangeLen == 1) return lo;
   byte codeLength = logCeiling(rangeLen);
-  size_t shortCodewords = (1 << codeLength) - rangeLen;
+  size_t shortCodewords = (static_cast<size_t>(1) << codeLength) - rangeLen;
   size_t longCodewords2 = (rangeLen - shortCodewords)/2;
   size_t result = 0;
   for(int i = 0; i < codeLength - 1; ++i) {
@@ -322,7 +322,7 @@ size_t binaryDecode(Input& input, size_t lo, size_t hi, size_t *bitsRead) {
   size_t rangeLen = hi - lo + 1;
   if(rangeLen == 1) return lo;
   byte codeLength = logCeiling(rangeLen);
-  size_t shortCodewords = (1 << codeLength) - rangeLen;
+  size_t shortCodewords = (static_cast<size_t>(1) << codeLength) - rangeLen;
   size_t longCodewords2 = (rangeLen - shortCodewords)/2;
   size_t result = 0;
   *bitsRead += codeLength;
-- 
2.43.0


From 069a5dcadaa032a22f2813d570e80929c19ab517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:08 +0000
Subject: [PATCH 09/20] fix: failing writes were ignored and the program exited
 successfully

---
 Streams.cpp | 29 +++++++++++++++++++----------
 Streams.hpp |  1 +
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/Streams.cpp b/Streams.cpp
index 7f9cd35..61637d6 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -26,6 +26,7 @@
  */
 
 #include <cassert>
+#include <cstdlib>
 
 #include <fstream>
 #include <iostream>
@@ -40,6 +41,12 @@
 
 namespace bwtc {
 
+/* Losing data silently isn't an option, so failing operation is fatal. */
+static void ioError(const std::string& name, const char *fallback) {
+  perror(name != "" ? name.c_str() : fallback);
+  exit(1);
+}
+
 RawOutStream::RawOutStream(const std::string& file_name)
     :m_name(file_name) {
   m_buffer = new byte[kBufferSize];
@@ -62,11 +69,9 @@ RawOutStream::RawOutStream(const std::string& file_name)
 
 RawOutStream::~RawOutStream() {
   PROFILE("RawOutStream::~RawOutStream()");
-  if (m_filled > 0) {
-    flush();
-  }
-  if (m_fileptr != stdout) {
-    fclose(m_fileptr);
+  flush();
+  if (m_fileptr != stdout && fclose(m_fileptr) != 0) {
+    ioError(m_name, "stdout");
   }
   delete[] m_buffer;
 }
@@ -74,17 +79,21 @@ RawOutStream::~RawOutStream() {
 void RawOutStream::writeByte(byte b) {
   m_buffer[m_filled++] = b;
   if (m_filled == kBufferSize) {
-    fwrite(m_buffer, 1, m_filled, m_fileptr);
+    writeToFile(m_buffer, m_filled);
     m_filled = 0;
   }
 }
 
+void RawOutStream::writeToFile(const byte *data, size_t size) {
+  if (fwrite(data, 1, size, m_fileptr) != size) ioError(m_name, "stdout");
+}
+
 void RawOutStream::flush() {
   if (m_filled > 0) {
-    fwrite(m_buffer, 1, m_filled, m_fileptr);
+    writeToFile(m_buffer, m_filled);
     m_filled = 0;
   }
-  fflush(m_fileptr);
+  if (fflush(m_fileptr) != 0) ioError(m_name, "stdout");
 }
 
 long int RawOutStream::getPos() {
@@ -99,7 +108,7 @@ void RawOutStream::writeBlock(const byte *begin, const byte *end) {
     m_filled += size;
   } else {
     flush();
-    fwrite(begin, 1, size, m_fileptr);
+    writeToFile(begin, size);
   }
 }
 
@@ -111,7 +120,7 @@ void RawOutStream::write48bits(uint64 to_written, long int position) {
   fseek(m_fileptr, position, SEEK_SET);
   for(int i = 5; i >= 0; --i) {
     byte b = 0xFF & (to_written >> i*8);
-    fputc(b, m_fileptr);
+    writeToFile(&b, 1);
   }
   fseek(m_fileptr, current, SEEK_SET);
 }
diff --git a/Streams.hpp b/Streams.hpp
index 236c4c4..0feded7 100644
--- a/Streams.hpp
+++ b/Streams.hpp
@@ -103,6 +103,7 @@ class RawOutStream : public OutStream {
   uint32 m_filled;
   byte *m_buffer;
 
+  void writeToFile(const byte *data, size_t size);
   RawOutStream& operator=(const RawOutStream& os);
   RawOutStream(const RawOutStream& os);
 };
-- 
2.43.0


From 3121d7500e90433e6c5064ac3cf5070dfbdec4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:08 +0000
Subject: [PATCH 10/20] fix: failing read was interpreted as the end of the
 input

---
 Streams.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Streams.cpp b/Streams.cpp
index 61637d6..d895831 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -177,6 +177,7 @@ int32 RawInStream::fetchByte() {
   if (m_bigbuf_left <= 0) {
     m_bigbuf_pos = 0;
     m_bigbuf_left = fread(m_bigbuf, 1, kBigbufSize, m_fileptr);
+    if (ferror(m_fileptr)) ioError(m_name, "stdin");
     if (m_bigbuf_left <= 0) return EOF;
   }
   --m_bigbuf_left;
@@ -187,6 +188,7 @@ int32 RawInStream::peekByte() {
   if (m_bigbuf_left <= 0) {
     m_bigbuf_pos = 0;
     m_bigbuf_left = fread(m_bigbuf, 1, kBigbufSize, m_fileptr);
+    if (ferror(m_fileptr)) ioError(m_name, "stdin");
     if (m_bigbuf_left <= 0) return EOF;
   }
   return m_bigbuf[m_bigbuf_pos];
-- 
2.43.0


From 76414ac799133c510769bb2c274843679ff20a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:15 +0000
Subject: [PATCH 11/20] fix: truncated archives were decoded to garbage or
 forever instead of being rejected

---
 HuffmanCoders.cpp      |  1 -
 PrecompressorBlock.cpp |  6 +++++-
 Streams.cpp            | 12 +++++++++++-
 Streams.hpp            |  7 +++++--
 WaveletCoders.cpp      |  1 -
 5 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/HuffmanCoders.cpp b/HuffmanCoders.cpp
index 5fcb2f0..fea4e32 100644
--- a/HuffmanCoders.cpp
+++ b/HuffmanCoders.cpp
@@ -337,7 +337,6 @@ readBlockHeader(BWTBlock& block, std::vector<uint64>* stats, InStream* in) {
 
 void HuffmanDecoder::decodeBlock(BWTBlock& block, InStream* in) {
   PROFILE("HuffmanDecoder::decodeBlock");
-  if(in->compressedDataEnding()) return;
 
   std::vector<uint64> context_lengths;
   uint64 compr_len = readBlockHeader(block, &context_lengths, in);
diff --git a/PrecompressorBlock.cpp b/PrecompressorBlock.cpp
index e74b5db..a695793 100644
--- a/PrecompressorBlock.cpp
+++ b/PrecompressorBlock.cpp
@@ -30,6 +30,7 @@
 #include "Utils.hpp"
 
 #include <cassert>
+#include <cstdio>
 #include <cstdlib>
 
 namespace bwtc {
@@ -113,7 +114,10 @@ readBlockHeader(InStream* in, MetaData metadata) {
     if(compressedSize != 0) {
       pb->grammar().readGrammar(in);
       uint64 read = in->readBlock(pb->begin(), compressedSize);
-      assert(read == compressedSize);
+      if(read != compressedSize) {
+        fprintf(stderr, "Unexpected end of file\n");
+        exit(1);
+      }
       pb->setSize(read);
     }
     return pb;
diff --git a/Streams.cpp b/Streams.cpp
index d895831..30605f7 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -129,7 +129,7 @@ uint64 RawInStream::read48bits() {
   uint64 result = 0;
   for(int i = 0; i < 6; ++i) {
     result <<= 8;
-    result |= static_cast<byte>(fetchByte());
+    result |= fetchExistingByte();
   }
   return result;
 }
@@ -184,6 +184,16 @@ int32 RawInStream::fetchByte() {
   return m_bigbuf[m_bigbuf_pos++];
 }
 
+byte RawInStream::fetchExistingByte() {
+  int32 b = fetchByte();
+  if (b == EOF) {
+    fprintf(stderr, "%s: Unexpected end of file\n",
+            m_name != "" ? m_name.c_str() : "stdin");
+    exit(1);
+  }
+  return static_cast<byte>(b);
+}
+
 int32 RawInStream::peekByte() {
   if (m_bigbuf_left <= 0) {
     m_bigbuf_pos = 0;
diff --git a/Streams.hpp b/Streams.hpp
index 0feded7..c8e228d 100644
--- a/Streams.hpp
+++ b/Streams.hpp
@@ -120,7 +120,7 @@ class RawInStream : public InStream {
 
   virtual inline bool readBit() {
     if (m_bitsInBuffer == 0) {
-      m_buffer = static_cast<byte>(fetchByte());
+      m_buffer = fetchExistingByte();
       m_bitsInBuffer = 8;
     }
     return (m_buffer >> --m_bitsInBuffer) & 1;
@@ -128,7 +128,7 @@ class RawInStream : public InStream {
 
   virtual inline byte readByte() {
     assert(m_bitsInBuffer < 8);
-    byte nextByte = static_cast<byte>(fetchByte());
+    byte nextByte = fetchExistingByte();
     m_buffer = (m_buffer << 8) | nextByte;
     return (m_buffer >> m_bitsInBuffer) & 0xff;
   }
@@ -165,6 +165,9 @@ class RawInStream : public InStream {
   uint32 m_bigbuf_pos;
 
   int fetchByte();
+  /* For the cases where the format of data guarantees that there is a byte
+   * left. Terminates the program if there isn't. */
+  byte fetchExistingByte();
   int peekByte();
   RawInStream& operator=(const RawInStream& os);
   RawInStream(const RawInStream& os);
diff --git a/WaveletCoders.cpp b/WaveletCoders.cpp
index d647adc..1f89f2c 100644
--- a/WaveletCoders.cpp
+++ b/WaveletCoders.cpp
@@ -245,7 +245,6 @@ WaveletDecoder::readBlockHeader(BWTBlock& block, std::vector<uint64>* stats,
 
 void WaveletDecoder::decodeBlock(BWTBlock& block, InStream* in) {
   PROFILE("WaveletDecoder::decodeBlock");
-  if(in->compressedDataEnding()) return;
 
   std::vector<uint64> context_lengths;
   uint64 compr_len = readBlockHeader(block, &context_lengths, in);
-- 
2.43.0


From ca96ab1fce5c2e5417f1e74ad7e8930f95156fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:01 +0000
Subject: [PATCH 12/20] fix: archives compressed into pipes or appended to
 files were corrupted

---
 Streams.cpp | 36 +++++++++++++++++++++++++++++++++---
 Streams.hpp |  9 +++++++++
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/Streams.cpp b/Streams.cpp
index 30605f7..c5e252f 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -27,6 +27,7 @@
 
 #include <cassert>
 #include <cstdlib>
+#include <fcntl.h>
 
 #include <fstream>
 #include <iostream>
@@ -48,7 +49,7 @@ static void ioError(const std::string& name, const char *fallback) {
 }
 
 RawOutStream::RawOutStream(const std::string& file_name)
-    :m_name(file_name) {
+    :m_name(file_name), m_holding(false), m_heldPosition(0) {
   m_buffer = new byte[kBufferSize];
   if (!m_buffer) {
     fprintf(stderr,"Memory allocation error!\n");
@@ -65,11 +66,14 @@ RawOutStream::RawOutStream(const std::string& file_name)
   }
   m_filled = 0;
   assert(m_fileptr);
+  int flags = fcntl(fileno(m_fileptr), F_GETFL);
+  m_seekable = (flags == -1 || !(flags & O_APPEND)) && ftell(m_fileptr) != -1;
 }
 
 RawOutStream::~RawOutStream() {
   PROFILE("RawOutStream::~RawOutStream()");
   flush();
+  writeHeld();
   if (m_fileptr != stdout && fclose(m_fileptr) != 0) {
     ioError(m_name, "stdout");
   }
@@ -85,7 +89,20 @@ void RawOutStream::writeByte(byte b) {
 }
 
 void RawOutStream::writeToFile(const byte *data, size_t size) {
+  if (m_holding) {
+    m_held.insert(m_held.end(), data, data + size);
+    return;
+  }
   if (fwrite(data, 1, size, m_fileptr) != size) ioError(m_name, "stdout");
+  m_heldPosition += size;
+}
+
+void RawOutStream::writeHeld() {
+  if (!m_holding) return;
+  m_holding = false;
+  if (!m_held.empty()) writeToFile(&m_held[0], m_held.size());
+  m_held.clear();
+  if (fflush(m_fileptr) != 0) ioError(m_name, "stdout");
 }
 
 void RawOutStream::flush() {
@@ -98,6 +115,11 @@ void RawOutStream::flush() {
 
 long int RawOutStream::getPos() {
   flush();
+  if (!m_seekable) {
+    writeHeld();
+    m_holding = true;
+    return m_heldPosition;
+  }
   return ftell(m_fileptr);
 }
 
@@ -115,14 +137,22 @@ void RawOutStream::writeBlock(const byte *begin, const byte *end) {
 void RawOutStream::write48bits(uint64 to_written, long int position) {
   assert((to_written & (((uint64)0xFFFF) << 48)) == 0);
   flush();
+  if (m_holding) {
+    assert(position >= m_heldPosition);
+    assert(position + 6 <= m_heldPosition + (long int)m_held.size());
+    for(int i = 5; i >= 0; --i) {
+      m_held[position++ - m_heldPosition] = 0xFF & (to_written >> i*8);
+    }
+    return;
+  }
   long int current = ftell(m_fileptr);
   // fseeking with negative offset from SEEK_CUR might be faster.
-  fseek(m_fileptr, position, SEEK_SET);
+  if (fseek(m_fileptr, position, SEEK_SET) != 0) ioError(m_name, "stdout");
   for(int i = 5; i >= 0; --i) {
     byte b = 0xFF & (to_written >> i*8);
     writeToFile(&b, 1);
   }
-  fseek(m_fileptr, current, SEEK_SET);
+  if (fseek(m_fileptr, current, SEEK_SET) != 0) ioError(m_name, "stdout");
 }
 
 uint64 RawInStream::read48bits() {
diff --git a/Streams.hpp b/Streams.hpp
index c8e228d..120ae14 100644
--- a/Streams.hpp
+++ b/Streams.hpp
@@ -103,7 +103,16 @@ class RawOutStream : public OutStream {
   uint32 m_filled;
   byte *m_buffer;
 
+  /* Positions in the pipes and in the files opened for appending can't be
+   * overwritten. With them everything written after the last call of getPos()
+   * is held in memory so that write48bits is able to fill its field. */
+  bool m_seekable;
+  bool m_holding;
+  std::vector<byte> m_held;
+  long int m_heldPosition;
+
   void writeToFile(const byte *data, size_t size);
+  void writeHeld();
   RawOutStream& operator=(const RawOutStream& os);
   RawOutStream(const RawOutStream& os);
 };
-- 
2.43.0


From 6ec515a4358587d8df44c0321834a42487f40e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:34 +0000
Subject: [PATCH 13/20] fix: decoder leaked a tree node for every section

---
 WaveletTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/WaveletTree.hpp b/WaveletTree.hpp
index add76c8..650bc76 100644
--- a/WaveletTree.hpp
+++ b/WaveletTree.hpp
@@ -422,6 +422,7 @@ size_t WaveletTree<BitVector>::readShape(Input& input) {
     codeLengths.push_back(std::make_pair(len, alphabet[i]));
   }
 
+  destroy(m_root); // Empty tree from the constructor
   assignPrefixCodes(codeLengths);
   collectCodes(m_codes, m_root);
   
-- 
2.43.0


From 97c53f7dc2e90b3d500bdad687316045474581c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:20 +0000
Subject: [PATCH 14/20] fix: limit of the block size was one too large, big
 memory limits hit an assertion

---
 Compressor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Compressor.cpp b/Compressor.cpp
index 0ca118a..3503e88 100644
--- a/Compressor.cpp
+++ b/Compressor.cpp
@@ -76,7 +76,7 @@ size_t Compressor::compress(size_t threads) {
    * enough to be on the safe side). */
   size_t pbBlockSize = static_cast<size_t>(m_options.memLimit*0.74);
   size_t bwtBlockSize = std::min(static_cast<size_t>(m_options.memLimit*0.185),
-                                 static_cast<size_t>(0x7fffffff - 1));
+                                 static_cast<size_t>(0x7fffffff - 2));
 
   if(m_precompressor.options().size() == 0) pbBlockSize = bwtBlockSize;
   
@@ -94,7 +94,7 @@ size_t Compressor::compress(size_t threads) {
      */
     if(pbBlockSize != bwtBlockSize) {
       size_t s = (m_options.memLimit - pb->size())/4.5;
-      bwtBlockSize = std::min(s,static_cast<size_t>(0x7fffffff - 1));
+      bwtBlockSize = std::min(s,static_cast<size_t>(0x7fffffff - 2));
     }
     
     pb->sliceIntoBlocks(bwtBlockSize);
-- 
2.43.0


From 51c12b1b95ddcfae048790f0c5b4f679ed3e26e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:26 +0000
Subject: [PATCH 15/20] fix: Huffman coder lost bits of runs longer than 2^29
 bytes

---
 HuffmanCoders.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/HuffmanCoders.cpp b/HuffmanCoders.cpp
index fea4e32..ef7e2f9 100644
--- a/HuffmanCoders.cpp
+++ b/HuffmanCoders.cpp
@@ -230,14 +230,21 @@ encodeData(const byte* block, const std::vector<uint32>& stats,
     bitsInBuffer = 0;
     for (uint64 k = 0; k < nRuns; ++k) {
       int gammaCodeLen = utils::logFloor(runlen[k]) * 2 + 1;
-      while (bitsInBuffer + gammaCodeLen > 64) {
-        bitsInBuffer -= 8;
-        out->writeByte((buffer >> bitsInBuffer) & 0xff);
-        ++m_compressedBlockLength;
+      // Codes of more than 57 bits don't necessarily fit into the buffer along
+      // with the incomplete byte, so leading zeros are handled separately.
+      int pieceLen = gammaCodeLen <= 57 ? gammaCodeLen : gammaCodeLen / 2;
+      while (gammaCodeLen > 0) {
+        while (bitsInBuffer + pieceLen > 64) {
+          bitsInBuffer -= 8;
+          out->writeByte((buffer >> bitsInBuffer) & 0xff);
+          ++m_compressedBlockLength;
+        }
+        gammaCodeLen -= pieceLen;
+        buffer <<= pieceLen;
+        if (gammaCodeLen == 0) buffer |= runlen[k];
+        bitsInBuffer += pieceLen;
+        pieceLen = gammaCodeLen;
       }
-      buffer <<= gammaCodeLen;
-      buffer |= runlen[k];
-      bitsInBuffer += gammaCodeLen;
     }
     while (bitsInBuffer >= 8) {
       bitsInBuffer -= 8;
-- 
2.43.0


From 1bec37bbc68518f04112347358a00b2c207d5dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:58 +0000
Subject: [PATCH 16/20] fix: memory limits or block sizes over the available
 memory crashed the preprocessing

---
 PrecompressorBlock.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/PrecompressorBlock.cpp b/PrecompressorBlock.cpp
index a695793..4b3024b 100644
--- a/PrecompressorBlock.cpp
+++ b/PrecompressorBlock.cpp
@@ -39,12 +39,29 @@ PrecompressorBlock::PrecompressorBlock(size_t size)
     : m_data((byte*)malloc(sizeof(byte)*(size+1))), m_used(0),
       m_originalSize(size), m_reserved(size+1) {}
 
+static byte* reallocate(byte* data, size_t size) {
+  data = (byte*)realloc(data, sizeof(byte)*size);
+  if(!data) {
+    fprintf(stderr, "Memory allocation error!\n");
+    exit(1);
+  }
+  return data;
+}
+
 PrecompressorBlock::PrecompressorBlock(size_t maxSize, InStream* in)
-    : m_data((byte*)malloc(sizeof(byte)*(maxSize+1))), m_used(0),
-      m_originalSize(0), m_reserved(maxSize+1)
+    : m_data(0), m_used(0), m_originalSize(0), m_reserved(0)
 {
-  uint64 read = in->readBlock(m_data, maxSize);
-  m_data = (byte*)realloc(m_data, sizeof(byte)*(read+1));
+  /* The limit can be more than there is memory, so the space is allocated as
+   * the data arrives. */
+  size_t limit = std::min(maxSize, static_cast<size_t>(1 << 20));
+  m_data = reallocate(m_data, limit+1);
+  uint64 read = in->readBlock(m_data, limit);
+  while(read == limit && limit < maxSize) {
+    limit = (limit > maxSize/2) ? maxSize : 2*limit;
+    m_data = reallocate(m_data, limit+1);
+    read += in->readBlock(m_data + read, limit - read);
+  }
+  m_data = reallocate(m_data, read+1);
   m_reserved = read + 1;
   m_originalSize = m_used = read;
 }
-- 
2.43.0


From 49bca09336fb79d5c262cbd12ff6a55f559c5cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:58 +0000
Subject: [PATCH 17/20] fix: memory limit and block size overflowed, input was
 dropped

---
 compress.cpp   | 3 +++
 preprocess.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/compress.cpp b/compress.cpp
index 97182a8..ad06d0a 100644
--- a/compress.cpp
+++ b/compress.cpp
@@ -177,6 +177,9 @@ int main(int argc, char** argv) {
     std::clog << "Maximum memory to use = " << mem <<  "MB" << std::endl;
   }
   if (mem <= 0) mem = 1;
+  // The limit in bytes has to fit in 64 bits
+  const uint64 max_mem = ~static_cast<uint64>(0)/1000000;
+  if (mem > max_mem) mem = max_mem;
 
   if (stdout) output_name = "";
   if (stdin)  input_name = "";
diff --git a/preprocess.cpp b/preprocess.cpp
index 8514858..1872939 100644
--- a/preprocess.cpp
+++ b/preprocess.cpp
@@ -173,6 +173,9 @@ int main(int argc, char** argv) {
     std::clog << "Block size = " << block_size <<  "kB" << std::endl;
   }
   if (block_size <= 0) block_size = 1;
+  // The limit in bytes has to fit in 64 bits
+  const uint64 max_block_size = ~static_cast<uint64>(0)/1024;
+  if (block_size > max_block_size) block_size = max_block_size;
 
   if (stdout) output_name = "";
   if (stdin)  input_name = "";
-- 
2.43.0


From d8d9bae2be688d5d1386894eff38e098ee207c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:41 +0000
Subject: [PATCH 18/20] fix: naming the input file as the output file destroyed
 it

---
 Streams.cpp     | 12 ++++++++++++
 Streams.hpp     |  4 ++++
 compress.cpp    |  1 +
 postprocess.cpp |  1 +
 preprocess.cpp  |  1 +
 uncompress.cpp  |  1 +
 6 files changed, 20 insertions(+)

diff --git a/Streams.cpp b/Streams.cpp
index c5e252f..197b556 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -28,6 +28,7 @@
 #include <cassert>
 #include <cstdlib>
 #include <fcntl.h>
+#include <sys/stat.h>
 
 #include <fstream>
 #include <iostream>
@@ -48,6 +49,17 @@ static void ioError(const std::string& name, const char *fallback) {
   exit(1);
 }
 
+void requireDifferentFiles(const std::string& input,
+                           const std::string& output) {
+  struct stat in, out;
+  if (output == "" || stat(output.c_str(), &out) != 0) return;
+  if ((input != "" ? stat(input.c_str(), &in) : fstat(0, &in)) != 0) return;
+  if (S_ISREG(in.st_mode) && in.st_dev == out.st_dev && in.st_ino == out.st_ino) {
+    fprintf(stderr, "%s: input file is output file\n", output.c_str());
+    exit(1);
+  }
+}
+
 RawOutStream::RawOutStream(const std::string& file_name)
     :m_name(file_name), m_holding(false), m_heldPosition(0) {
   m_buffer = new byte[kBufferSize];
diff --git a/Streams.hpp b/Streams.hpp
index 120ae14..7ec6146 100644
--- a/Streams.hpp
+++ b/Streams.hpp
@@ -182,6 +182,10 @@ class RawInStream : public InStream {
   RawInStream(const RawInStream& os);
 };
 
+/**Opening the output would destroy the input if they are the same file, so in
+ * that case the program is terminated. Empty names mean the standard streams. */
+void requireDifferentFiles(const std::string& input, const std::string& output);
+
 } //namespace bwtc
 
 
diff --git a/compress.cpp b/compress.cpp
index ad06d0a..a177df1 100644
--- a/compress.cpp
+++ b/compress.cpp
@@ -183,6 +183,7 @@ int main(int argc, char** argv) {
 
   if (stdout) output_name = "";
   if (stdin)  input_name = "";
+  bwtc::requireDifferentFiles(input_name, output_name);
 
   if (verbosity > 1) {
     if (input_name != "") std::clog << "Input: " << input_name << std::endl;
diff --git a/postprocess.cpp b/postprocess.cpp
index 41bf8c1..da0dc5e 100644
--- a/postprocess.cpp
+++ b/postprocess.cpp
@@ -148,6 +148,7 @@ int main(int argc, char** argv) {
 
   if (stdout) output_name = "";
   if (stdin)  input_name = "";
+  bwtc::requireDifferentFiles(input_name, output_name);
 
   postprocess(input_name, output_name, verbosity);
   
diff --git a/preprocess.cpp b/preprocess.cpp
index 1872939..b1da6d6 100644
--- a/preprocess.cpp
+++ b/preprocess.cpp
@@ -179,6 +179,7 @@ int main(int argc, char** argv) {
 
   if (stdout) output_name = "";
   if (stdin)  input_name = "";
+  bwtc::requireDifferentFiles(input_name, output_name);
 
   preprocess(input_name, output_name, block_size*1024, preprocessing, escaping);
 
diff --git a/uncompress.cpp b/uncompress.cpp
index 1b56487..03ce4dd 100644
--- a/uncompress.cpp
+++ b/uncompress.cpp
@@ -94,6 +94,7 @@ int main(int argc, char** argv) {
 
   if (stdout) output_name = "";
   if (stdin)  input_name = "";
+  bwtc::requireDifferentFiles(input_name, output_name);
 
   bwtc::Decompressor decompressor(input_name, output_name);
   decompressor.decompress(1);
-- 
2.43.0


From 81b6b7ed94d4897a2e7aa4ea1fc0ab8c478004ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:57 +0000
Subject: [PATCH 19/20] fix: failing memory allocation in the transform was
 ignored, data was lost

---
 bwtransforms/Divsufsorter.hpp | 8 ++++++--
 bwtransforms/sais.hxx         | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/bwtransforms/Divsufsorter.hpp b/bwtransforms/Divsufsorter.hpp
index 140b1b2..add1229 100644
--- a/bwtransforms/Divsufsorter.hpp
+++ b/bwtransforms/Divsufsorter.hpp
@@ -30,6 +30,7 @@
 #include <cassert>
 
 #include <algorithm>
+#include <new>
 #include <vector>
 
 #include "BWTransform.hpp"
@@ -54,14 +55,17 @@ class Divsufsorter : public BWTransform {
   void
   doTransform(byte *begin, uint32 length, std::vector<uint32>& LFpowers) const {
     PROFILE("Divsufsorter::doTransform");
-    divbwt(begin, begin, 0, length, &LFpowers[0], LFpowers.size());
+    if(divbwt(begin, begin, 0, length, &LFpowers[0], LFpowers.size()) < 0)
+      throw std::bad_alloc();
   }
 
   void
   doTransform(byte *begin, uint32 length, std::vector<uint32>& LFpowers,
               uint32 *freqs) const {
     PROFILE("Divsufsorter::doTransform");
-    divbwtf(begin, begin, 0, length, &LFpowers[0], LFpowers.size(), freqs);
+    if(divbwtf(begin, begin, 0, length, &LFpowers[0], LFpowers.size(),
+               freqs) < 0)
+      throw std::bad_alloc();
   }
 
   /* The following values aren't correct */
diff --git a/bwtransforms/sais.hxx b/bwtransforms/sais.hxx
index e9dd4f7..0ef3672 100644
--- a/bwtransforms/sais.hxx
+++ b/bwtransforms/sais.hxx
@@ -33,6 +33,7 @@
 #include <cassert>
 #include <iterator>
 #include <limits>
+#include <new>
 
 #ifdef __INTEL_COMPILER
 #pragma warning(disable : 383 981 1418)
@@ -792,6 +793,7 @@ index_type i, pidx;
   } else {
     pidx = saisxx_private::suffixsort(T, A, 0, n, k, true, LFpowers);
   }
+  if(pidx == -2) { throw std::bad_alloc(); }
 
   if(0 <= pidx) {
     for(i = 0; i < n; ++i) {
@@ -818,6 +820,7 @@ index_type i, pidx;
   } else {
     pidx = saisxx_private::suffixsort(T, A, 0, n, k, true, LFpowers);
   }
+  if(pidx == -2) { throw std::bad_alloc(); }
 
   if(0 <= pidx) {
     for(i = 0; i < n; ++i) {
-- 
2.43.0


From 1828a56bf563cf0d58ef00f4a3c2a3328463c8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:13 +0000
Subject: [PATCH 20/20] fix: preprocess reported a wrong total size for an
 empty input

---
 preprocess.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocess.cpp b/preprocess.cpp
index b1da6d6..42e7f69 100644
--- a/preprocess.cpp
+++ b/preprocess.cpp
@@ -72,7 +72,7 @@ void preprocess(const std::string& input_name, const std::string& output_name,
   bwtc::RawOutStream out(output_name);
 
   unsigned blocks = 0;
-  bwtc::uint64 last_s = 0;
+  bwtc::uint64 total_size = 0;
   while(bwtc::PrecompressorBlock* block = preprocessor.readBlock(block_size, &in)) {
     if(block->originalSize() == 0) {
       delete block;
@@ -84,7 +84,7 @@ void preprocess(const std::string& input_name, const std::string& output_name,
     block->writeBlockHeader(&out, PRECOMP_COMPRESSED_SIZE); 
     out.writeBlock(block->begin(), block->end());
 
-    last_s = block->originalSize();
+    total_size += block->originalSize();
     delete block;
   }
 
@@ -92,7 +92,7 @@ void preprocess(const std::string& input_name, const std::string& output_name,
   
   if (verbosity > 0) {
     std::clog << "Read " << blocks << " block" << ((blocks < 2)?"":"s") << "\n";
-    std::clog << "Total size: " << (blocks-1)*block_size + last_s << "B\n";
+    std::clog << "Total size: " << total_size << "B\n";
   }
 }
 
-- 
2.43.0

