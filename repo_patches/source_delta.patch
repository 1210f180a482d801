From 652463ba80838370095c151e0187baa5c245650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:42 +0000
Subject: [PATCH 01/24] fix: length-terminated UTF-8 checks read one byte past
 the given length

---
 source/string.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 97a658f..6402f10 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -181,8 +181,9 @@ inline bool isFirstHalfUtf16AsUtf8
 // Utility function to decide if a to-be-decoded character must be teh second
 // half of a UTF-16 character in two UTF-8 values.
 //
-// Note: Call only if p points to 3-character sequence start AND there are
-//       at least two more bytes available in the character stream
+// Note: Call only if p points to 3-character sequence start AND there is
+//       at least one more byte available in the character stream. The third
+//       byte is not needed (its six bits cannot leave DC00..DFFF).
 //
 // Returns true if byte starts a 3-byte UTF-8 character and isSecondHalfUtf16
 
@@ -194,7 +195,7 @@ inline bool isSecondHalfUtf16AsUtf8
     return isSecondHalfUtf16(rawDecodeUtf8(
                 static_cast<unsigned char>(p[0]),
                 static_cast<unsigned char>(p[1]),
-                static_cast<unsigned char>(p[2])));
+                0));
 }
 
 //=========================================================================
-- 
2.43.0


From ed138ec18f674b431d604e82f8293913f935c56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:49 +0000
Subject: [PATCH 02/24] fix: length-terminated UTF-16 length count read one
 unit past the given length

---
 source/string.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/string.cxx b/source/string.cxx
index 6402f10..3765b2a 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -875,7 +875,7 @@ unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
         }
 
         // or if null terminated, is there another piece?
-        auto c1 = p[1];
+        char16_t c1 = isFirstHalf ? p[1] : 0;
         if (isFirstHalf && c1 == 0)
         {
             return r - 1;
-- 
2.43.0


From c7eeb7d16726aa21190a2bee52dc3b89612f171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:56 +0000
Subject: [PATCH 03/24] fix: unicodeLength underflowed for text cut off inside
 its first character

---
 source/string.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 3765b2a..2c7e2b8 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -805,7 +805,7 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
         if (c == 0)
         {
             // decoding to 0 when *p != 0 is invalid UTF-8
-            return (*p == 0) ? (r - 1) : 0;
+            return (*p == 0 && r != 0) ? (r - 1) : 0;
         }
 
         // decoded -- how much was used?
@@ -878,7 +878,7 @@ unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
         char16_t c1 = isFirstHalf ? p[1] : 0;
         if (isFirstHalf && c1 == 0)
         {
-            return r - 1;
+            return r != 0 ? r - 1 : 0;
         }
 
         // and if in two pieces, is it valid?
-- 
2.43.0


From 16806ae7827da1c50176fd6b8019636cf6ac8939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:04 +0000
Subject: [PATCH 04/24] fix: toUtf8 encoded an orphan second half of a UTF-16
 pair instead of rejecting it

---
 source/string.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/string.cxx b/source/string.cxx
index 2c7e2b8..916a0a2 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -504,6 +504,10 @@ string toUtf8(const char16_t* src)
                 char32_t c32 = rawDecodeUtf16(c, c1);
                 encodeUtf8(c32, adder);
             }
+            else if (isSecondHalfUtf16(c))
+            {
+                return string();
+            }
             else
             {
                 encodeUtf8(c, adder);
-- 
2.43.0


From ff1a9cae9fb106963591de772f70efb042dd619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:32 +0000
Subject: [PATCH 05/24] fix: length-terminated UTF-8 checks accepted broken
 bytes at the end of the text

---
 source/string.cxx | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 916a0a2..f10afff 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -198,6 +198,35 @@ inline bool isSecondHalfUtf16AsUtf8
                 0));
 }
 
+//=========================================================================
+// Utility function to decide if the bytes left at the end of a length-
+// terminated string could be the beginning of a longer UTF-8 sequence (or of
+// a UTF-16 pair in two UTF-8 values)
+//
+// Note: Call only if p points to a sequence start
+//
+// Returns true if every byte after the first is one that can continue the
+// sequence, false otherwise
+
+inline bool isPartialSequence
+(
+    const char*         p,          // I - points to first byte of sequence
+    unsigned int        available   // I - number of bytes there are
+)
+{
+    for (unsigned int i = 1; i < available; ++i)
+    {
+        auto uc = static_cast<unsigned char>(p[i]);
+        // the second half of a UTF-16 pair starts with another first byte
+        bool startsSecondHalf = i == 3 && static_cast<unsigned char>(*p) <= 0xef;
+        if ((uc & (startsSecondHalf ? 0xf0 : 0xc0)) != (startsSecondHalf ? 0xe0 : 0x80))
+        {
+            return false;
+        }
+    }
+    return true;
+}
+
 //=========================================================================
 // Utility function to check the UTF-8 encoding of a length- or null-
 // terminated string of bytes.
@@ -266,7 +295,7 @@ bool isUtf8
             // if out of space, and not otherwise invalid, leave with success
             if (seqStarts > lengthLeft)
             {
-                return true;
+                return isPartialSequence(p, lengthLeft);
             }
         }
 
@@ -773,8 +802,13 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
         // sequence, quit, now
         if (lengthTerminated)
         {
-            // result will always be positive, p is never nullptr
-            unsigned int seqStarts = sequenceSizeCharStarts(p);
+            // p is never nullptr but this may not be a first byte
+            int seqSize = sequenceSizeCharStarts(p);
+            if (seqSize < 0)
+            {
+                return 0;
+            }
+            unsigned int seqStarts = seqSize;
             // "3" long sequences might be UTF-16 parts
             if (seqStarts == 3)
             {
@@ -792,7 +826,7 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
             // if out of space, and not otherwise invalid, leave with success
             if (seqStarts > lengthLeft)
             {
-                return r;
+                return isPartialSequence(p, lengthLeft) ? r : 0;
             }
         }
         // GUARANTEE: if lengthTerminated, lengthLeft >= to-be-usedThisTime
-- 
2.43.0


From bbcc07154a9f75ea92e6c194d3290948eb46bf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:59 +0000
Subject: [PATCH 06/24] fix: getUnicodeVersionSupported read an uninitialised
 string during static construction

---
 source/bits10/char_is_unicode.cxx | 2 +-
 source/bits11/char_is_unicode.cxx | 2 +-
 source/bits12/char_is_unicode.cxx | 2 +-
 source/bits13/char_is_unicode.cxx | 2 +-
 source/bits14/char_is_unicode.cxx | 2 +-
 source/bits15/char_is_unicode.cxx | 2 +-
 source/bits16/char_is_unicode.cxx | 2 +-
 source/bits7/char_is_unicode.cxx  | 2 +-
 source/bits8/char_is_unicode.cxx  | 2 +-
 source/bits9/char_is_unicode.cxx  | 2 +-
 source/string_internal.hxx        | 2 +-
 11 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/source/bits10/char_is_unicode.cxx b/source/bits10/char_is_unicode.cxx
index 0725933..33762b3 100644
--- a/source/bits10/char_is_unicode.cxx
+++ b/source/bits10/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "10.0.0";
+const char supportedUnicodeVersion[] = "10.0.0";
 
 namespace
 {
diff --git a/source/bits11/char_is_unicode.cxx b/source/bits11/char_is_unicode.cxx
index a17178f..c9266f0 100644
--- a/source/bits11/char_is_unicode.cxx
+++ b/source/bits11/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "11.0.0";
+const char supportedUnicodeVersion[] = "11.0.0";
 
 namespace
 {
diff --git a/source/bits12/char_is_unicode.cxx b/source/bits12/char_is_unicode.cxx
index d50de0a..6161dc2 100644
--- a/source/bits12/char_is_unicode.cxx
+++ b/source/bits12/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "12.0.0";
+const char supportedUnicodeVersion[] = "12.0.0";
 
 namespace
 {
diff --git a/source/bits13/char_is_unicode.cxx b/source/bits13/char_is_unicode.cxx
index 6824dac..4c35e32 100644
--- a/source/bits13/char_is_unicode.cxx
+++ b/source/bits13/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "13.0.0";
+const char supportedUnicodeVersion[] = "13.0.0";
 
 namespace
 {
diff --git a/source/bits14/char_is_unicode.cxx b/source/bits14/char_is_unicode.cxx
index 1520b5a..3fca02f 100644
--- a/source/bits14/char_is_unicode.cxx
+++ b/source/bits14/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "14.0.0";
+const char supportedUnicodeVersion[] = "14.0.0";
 
 namespace
 {
diff --git a/source/bits15/char_is_unicode.cxx b/source/bits15/char_is_unicode.cxx
index 00c01b3..f08b49f 100644
--- a/source/bits15/char_is_unicode.cxx
+++ b/source/bits15/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "15.0.0";
+const char supportedUnicodeVersion[] = "15.0.0";
 
 namespace
 {
diff --git a/source/bits16/char_is_unicode.cxx b/source/bits16/char_is_unicode.cxx
index 175ab79..012854e 100644
--- a/source/bits16/char_is_unicode.cxx
+++ b/source/bits16/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "16.0.0";
+const char supportedUnicodeVersion[] = "16.0.0";
 
 namespace
 {
diff --git a/source/bits7/char_is_unicode.cxx b/source/bits7/char_is_unicode.cxx
index 3f6a0b2..7b233e2 100644
--- a/source/bits7/char_is_unicode.cxx
+++ b/source/bits7/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "7.0.0";
+const char supportedUnicodeVersion[] = "7.0.0";
 
 namespace
 {
diff --git a/source/bits8/char_is_unicode.cxx b/source/bits8/char_is_unicode.cxx
index c9dd870..3388add 100644
--- a/source/bits8/char_is_unicode.cxx
+++ b/source/bits8/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "8.0.0";
+const char supportedUnicodeVersion[] = "8.0.0";
 
 namespace
 {
diff --git a/source/bits9/char_is_unicode.cxx b/source/bits9/char_is_unicode.cxx
index f5f6f3d..a4c3e35 100644
--- a/source/bits9/char_is_unicode.cxx
+++ b/source/bits9/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "9.0.0";
+const char supportedUnicodeVersion[] = "9.0.0";
 
 namespace
 {
diff --git a/source/string_internal.hxx b/source/string_internal.hxx
index 0409b51..48c54a3 100644
--- a/source/string_internal.hxx
+++ b/source/string_internal.hxx
@@ -108,7 +108,7 @@ private:
 //=========================================================================
 // Get current implementation's supported Unicode version string.
 
-extern const utf8String supportedUnicodeVersion;
+extern const char supportedUnicodeVersion[];
 
 //=========================================================================
 // Returns true if the character is in the selected Unicode 8 standard, false
-- 
2.43.0


From 7aca28a9a7fad82202841ab8622b5062b67b9408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:02 +0000
Subject: [PATCH 07/24] fix: mkUnicodeTestData looped for ever or exited 0
 after read, write and open errors

---
 mkUnicodeTestData/mkUnicodeTestData.cxx | 55 ++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/mkUnicodeTestData/mkUnicodeTestData.cxx b/mkUnicodeTestData/mkUnicodeTestData.cxx
index afadd52..01efedb 100644
--- a/mkUnicodeTestData/mkUnicodeTestData.cxx
+++ b/mkUnicodeTestData/mkUnicodeTestData.cxx
@@ -53,6 +53,7 @@
 
 #include <fstream>
 
+#include <stdexcept>
 #include <string>
 #include <vector>
 #include "string_splitjoin.hxx"
@@ -60,36 +61,59 @@
 using namespace std;
 using namespace ansak;
 
+///////////////////////////////////////////////////////////////////////////
+// getFields -- read the next line that isn't blank and split it. There is no
+// line and there are no fields at the end of the file.
+//
+// Throws runtime_error for a line that isn't ;-delimited Unicode data
+
+void getFields(istream& inStream, string& oneLine, vector<string>& fields)
+{
+    do
+    {
+        if (!getline(inStream, oneLine))
+        {
+            oneLine.clear();
+        }
+    } while (oneLine.empty() && inStream);
+
+    fields = split(oneLine, ';');
+    if (!fields.empty() && (fields.size() < 2 || oneLine.size() <= 10))
+    {
+        throw runtime_error("malformed line of Unicode data");
+    }
+}
+
 ///////////////////////////////////////////////////////////////////////////
 // process -- once the two files have been determined and opened/created,
-// convert the one format to the other
+// convert the one format to the other. Throws an exception if that fails.
 
 void process(filebuf& inbuf, filebuf& outbuf)
 {
     istream inStream(&inbuf);
     ostream outStream(&outbuf);
+    inStream.exceptions(ios::badbit);
+    outStream.exceptions(ios::badbit | ios::failbit);
 
     string oneLine;
-    getline(inStream, oneLine);
-    auto fields = split(oneLine, ';');
+    vector<string> fields;
+    getFields(inStream, oneLine, fields);
     if (!fields.empty())
     {
         outStream << "char32_t validUnicodeCodePoints[] = {" << endl << "    ";
         int nCount = 0;
-        while (oneLine.size() > 10)
+        while (!fields.empty())
         {
             auto surrogateN = fields[1].find("Surrogate");
             auto privateN = fields[1].find("Private");
             if (surrogateN != string::npos || privateN != string::npos)
             {
-                getline(inStream, oneLine);
-                fields = split(oneLine, ';');
+                getFields(inStream, oneLine, fields);
                 continue;
             }
 
             outStream << " 0x" << fields[0] << ',';
-            getline(inStream, oneLine);
-            fields = split(oneLine, ';');
+            getFields(inStream, oneLine, fields);
             ++nCount;
             if (oneLine.size() != 0 && nCount % 10 == 0)
             {
@@ -100,7 +124,10 @@ void process(filebuf& inbuf, filebuf& outbuf)
         outStream << " 0xFFFFFFFF };" << endl;
     }
 
-    outbuf.close();
+    if (outbuf.close() == nullptr)
+    {
+        throw runtime_error("could not finish writing");
+    }
 }
 
 ///////////////////////////////////////////////////////////////////////////
@@ -131,11 +158,17 @@ int main(int argc, char* argv[])
     try
     {
         filebuf inBuf;
-        inBuf.open(argv[1], std::ios::in);
+        if (inBuf.open(argv[1], std::ios::in) == nullptr)
+        {
+            throw runtime_error("could not open");
+        }
         opened1 = true;
 
         filebuf outBuf;
-        outBuf.open(argv[2], std::ios::out | std::ios::trunc);
+        if (outBuf.open(argv[2], std::ios::out | std::ios::trunc) == nullptr)
+        {
+            throw runtime_error("could not create");
+        }
         opened2 = true;
 
         process(inBuf, outBuf);
-- 
2.43.0


From 19661ceab2e404f0120709ec7fd570955be9fb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:19 +0000
Subject: [PATCH 08/24] fix: values above 10FFFF passed the checks for UTF-16
 which cannot hold them

---
 source/string.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/string.cxx b/source/string.cxx
index f10afff..db4092d 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -60,8 +60,9 @@ namespace {
 ///////////////////////////////////////////////////////////////////////////
 // Local Data
 
+// UTF-16 can hold exactly the Unicode values, not every 21-bit value
 RangeTypeFlags rangeTypeToRangeFlag[RangeType::kFirstInvalidRange] =
-    { kAsciiFlag, kUtf8Flag, kUcs2Flag, kUtf16Flag, kUcs4Flag, kUnicodeFlag };
+    { kAsciiFlag, kUtf8Flag, kUcs2Flag, kUnicodeFlag, kUcs4Flag, kUnicodeFlag };
 
 ///////////////////////////////////////////////////////////////////////////
 // Local Functions
-- 
2.43.0


From 1bcb9904513d415e62bae8ef80e5dc3fbe433bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:45 +0000
Subject: [PATCH 09/24] fix: make.py installed the x64 MinSizeRel library as
 the Win32 one

---
 make.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/make.py b/make.py
index 35957db..05b8f4d 100755
--- a/make.py
+++ b/make.py
@@ -335,9 +335,7 @@ class Maker:
                 shutil.copy2(os.path.join('build', 'Win32', 'RelWithDebInfo',
                                           pdb),
                              paths['lib_win32_relwithdebinfo'])
-                shutil.copy2(os.path.join('build', 'Win32', 'Release', lib),
-                             paths['lib_win32_release'])
-                shutil.copy2(os.path.join('build', 'x64', 'MinSizeRel', lib),
+                shutil.copy2(os.path.join('build', 'Win32', 'MinSizeRel', lib),
                              paths['lib_win32_minsizerel'])
 
                 shutil.copy2(os.path.join('build', 'x64', 'Release', lib),
-- 
2.43.0


From 0485e2a1bfe04c9357dc0db217778082bc7dfeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:00 +0000
Subject: [PATCH 10/24] fix: make.py scrub did not remove configvars.py

---
 make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/make.py b/make.py
index 05b8f4d..d159efe 100755
--- a/make.py
+++ b/make.py
@@ -158,7 +158,7 @@ def cmake_modules_path():
 
 
 def rm_f(path):
-    if os.path.isdir(os.path.dirname(path)) and os.path.isfile(path):
+    if os.path.isfile(path):
         os.unlink(path)
 
 
-- 
2.43.0


From a4323301e045e044051472b347c089839c109848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:28 +0000
Subject: [PATCH 11/24] fix: make.py clean, stopped half way, left a build that
 looked complete

---
 make.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/make.py b/make.py
index d159efe..791f38e 100755
--- a/make.py
+++ b/make.py
@@ -491,9 +491,10 @@ class Maker:
                 else:
                     rm_f(path)
 
-        deleteThese([self.win32_dir_, self.x64_dir_,
-                     MakerDirs.nsis_dests()['nsis'], self.package_path_])
+        # first what says that the rest is complete
         deleteThese(MakerDirs.touch_files())
+        deleteThese([self.package_path_, self.win32_dir_, self.x64_dir_,
+                     os.path.join('build', 'nsis')])
 
         self.step_performed_ = True
 
-- 
2.43.0


From b08ae9132e8bbefccf0d1f803b01e0518591befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:28 +0000
Subject: [PATCH 12/24] fix: make.py scrub ignored failures and, stopped half
 way, left a build that looked complete

---
 make.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/make.py b/make.py
index 791f38e..e73f5cc 100755
--- a/make.py
+++ b/make.py
@@ -499,11 +499,17 @@ class Maker:
         self.step_performed_ = True
 
     def scrub(self):
+        def rmdir(path):
+            return Proc(CMD, C, 'rmdir', '/s', '/q', path).run()
+
+        # first what says that the rest is complete
+        for path in MakerDirs.touch_files() + [self.package_path_]:
+            rm_f(path)
         if os.path.isdir('build'):
-            Proc(CMD, C, 'rmdir', '/s', '/q', 'build').run()
+            run_or_die(lambda: rmdir('build'))
         rm_f('configvars.py')
         if os.path.isdir('__pycache__'):
-            Proc(CMD, C, 'rmdir', '/s', '/q', '__pycache__').run()
+            run_or_die(lambda: rmdir('__pycache__'))
         self.step_performed_ = True
 
     def cmake_install(self):
-- 
2.43.0


From c644d7f6631037284892fbe75fad6e49c5bef426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:28 +0000
Subject: [PATCH 13/24] fix: make.py package did not notice a changed
 FindANSAK.cmake

---
 make.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/make.py b/make.py
index e73f5cc..1336891 100755
--- a/make.py
+++ b/make.py
@@ -414,7 +414,9 @@ class Maker:
             self.test()
 
         # dependency check of product vs. its sources
-        if not source_is_newer(self.package_path_, Path('NSIS').glob('*')):
+        if not source_is_newer(self.package_path_,
+                               itertools.chain(Path('NSIS').glob('*'),
+                                               ('FindANSAK.cmake',))):
             return
 
         # prep the directories
-- 
2.43.0


From 11284f1959e21e2c4f996ae046f17f4633e3008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:57 +0000
Subject: [PATCH 14/24] fix: make.py package, stopped half way, left a cut-off
 installer that looked complete

---
 make.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/make.py b/make.py
index 1336891..3b0fdd9 100755
--- a/make.py
+++ b/make.py
@@ -482,7 +482,8 @@ class Maker:
                         cwd=nsis_dests['nsis']).run()
 
         run_or_die(run_nsis)
-        shutil.copy2(os.path.join(nsis_dests['nsis'], PACKAGE_NAME), 'build')
+        os.replace(os.path.join(nsis_dests['nsis'], PACKAGE_NAME),
+                   self.package_path_)
         self.step_performed_ = True
 
     def clean(self):
-- 
2.43.0


From 45da82832527aeb582de9bceabb6fd4209dbce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:16 +0000
Subject: [PATCH 15/24] fix: make uninstall failed for good on a partly
 installed or shared prefix

It stopped at the first file that an interrupted install or uninstall had not
left there, failed when include/ansak, include or lib held files of others, and
removed (or failed to remove) directories of $HOME whatever the prefix.
---
 Makefile | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Makefile b/Makefile
index c4b3798..ea4f597 100644
--- a/Makefile
+++ b/Makefile
@@ -82,13 +82,13 @@ install: build/all.touch
 	$(SUDO) cp $(PRODUCT_DIR)/libansakString.a $(PREFIX)/lib
 
 
-uninstall:
-	$(SUDO) rm $(PREFIX)/include/ansak/string.hxx $(PREFIX)/include/ansak/string_trim.hxx $(PREFIX)/include/ansak/string_splitjoin.hxx
-	$(SUDO) rm $(PREFIX)/lib/libansakString.a
-	if test -d $(PREFIX)/include/ansak; then $(SUDO) rmdir $(PREFIX)/include/ansak; fi
+uninstall: config.make
+	$(SUDO) rm -f $(PREFIX)/include/ansak/string.hxx $(PREFIX)/include/ansak/string_trim.hxx $(PREFIX)/include/ansak/string_splitjoin.hxx
+	$(SUDO) rm -f $(PREFIX)/lib/libansakString.a
+	if test -d $(PREFIX)/include/ansak; then $(SUDO) rmdir $(PREFIX)/include/ansak 2>/dev/null || true; fi
 	if [ "$(SUDO)" = "" ]; then \
-		if test -d $(PREFIX)/include; then rmdir $$HOME/include; fi ;\
-		if test -d $(PREFIX)/lib; then rmdir $$HOME/lib; fi ;\
+		if test -d $(PREFIX)/include; then rmdir $(PREFIX)/include 2>/dev/null || true; fi ;\
+		if test -d $(PREFIX)/lib; then rmdir $(PREFIX)/lib 2>/dev/null || true; fi ;\
 	fi
 
 
-- 
2.43.0


From 5f7b94efba82018b2ff02e73ef5bdbb422c2ce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:16 +0000
Subject: [PATCH 16/24] fix: make clean without a build directory removed the
 sources

Without build, which an interrupted scrub leaves behind, 'cd build' failed and
'rm -rf *' emptied the checkout. It also removed build/deps, after which changed
sources went unnoticed until the next configure, and, stopped half way, could
leave all.touch behind without the library.
---
 Makefile | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Makefile b/Makefile
index ea4f597..29228c7 100644
--- a/Makefile
+++ b/Makefile
@@ -140,8 +140,10 @@ cmake-uninstall:
 
 
 clean:
-	@cd build; \
-	rm -rf *
+	@rm -f build/*.touch
+	@for f in build/*; do \
+		if [ "$$f" != build/deps ]; then rm -rf "$$f" || exit 1; fi ;\
+	done
 
 
 scrub:
-- 
2.43.0


From 60d49e2f57958e5e3a8a7bc02befeb6acfa1d720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:16 +0000
Subject: [PATCH 17/24] fix: make scrub, stopped half way, left a build that
 looked complete

With build/deps gone and config.make and all.touch still there, make all reported
success for sources that had changed.
---
 Makefile | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Makefile b/Makefile
index 29228c7..0493bd8 100644
--- a/Makefile
+++ b/Makefile
@@ -147,8 +147,8 @@ clean:
 
 
 scrub:
-	rm -rf build 2>/dev/null
 	rm -f config.make
+	rm -rf build
 
 
 help:
-- 
2.43.0


From a5fda80fe27187f2845830baee98fcd308259bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:16 +0000
Subject: [PATCH 18/24] fix: make cmake-install and cmake-uninstall went to
 /Modules when cmake failed

---
 Makefile | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Makefile b/Makefile
index 0493bd8..c94cd9d 100644
--- a/Makefile
+++ b/Makefile
@@ -131,11 +131,13 @@ arch: deb
 
 cmake-install:
 	@CMAKE_ROOT=`cmake --system-information | grep ^CMAKE_ROOT | awk '{print $$2;}' | tr -d '"'` export CMAKE_ROOT ;\
+	test -n "$$CMAKE_ROOT" || exit 1 ;\
 	$(SUDO) cp FindANSAK.cmake $$CMAKE_ROOT/Modules
 
 
 cmake-uninstall:
 	@CMAKE_ROOT=`cmake --system-information | grep ^CMAKE_ROOT | awk '{print $$2;}' | tr -d '"'` export CMAKE_ROOT ;\
+	test -n "$$CMAKE_ROOT" || exit 1 ;\
 	$(SUDO) rm -f $$CMAKE_ROOT/Modules/FindANSAK.cmake
 
 
-- 
2.43.0


From 0235992928d0b04a90b5965cd16a0c91d106d509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:10 +0000
Subject: [PATCH 19/24] fix: configure reported success after failing to write
 config.make

Stopped or failing half way, it left a config.make without PREFIX, with which
make install went to /include and /lib, or a config.make without build/deps, with
which changed sources went unnoticed. Both files are now written completely, or
not at all, and failures are reported.
---
 configure | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/configure b/configure
index bd3986e..64046be 100755
--- a/configure
+++ b/configure
@@ -198,8 +198,8 @@ else
     generator="Unix Makefiles"
 fi
 
-# output config.make
-rm -f config.make
+# output config.make, last and in one step, so that a failure or an interruption
+# leaves the previous configuration or none
 if [ $verbose -ne 0 ]; then
 	printf "Writing config.make file:\n"
 	printf "    SUDO = %s\n" $sudo
@@ -212,18 +212,21 @@ if [ $verbose -ne 0 ]; then
     printf "    BUILDS_RPM = %s\n" $builds_rpm
     printf "    BUILDS_ARCH = %s\n" $builds_arch
 fi
-echo SUDO = $sudo >> config.make
-echo PREFIX = $prefix >> config.make
-echo CXX = $compiler >> config.make
-echo CONFIG = $config >> config.make
-echo GENERATOR = $generator >> config.make
-echo UNICODE_VERSION = $unicodeVersion >> config.make
-echo BUILDS_DEB = $builds_deb >> config.make
-echo BUILDS_RPM = $builds_rpm >> config.make
-echo BUILDS_ARCH = $builds_arch >> config.make
-
-mkdir -p build
-find . -name submods -prune -o \( -name '*.[ch]xx' -o -name 'CMakeLists.txt' \) -type f -print | xargs echo SRCS = packaging.cmake > build/deps
+mkdir -p build || _exit 1
+find . -name submods -prune -o \( -name '*.[ch]xx' -o -name 'CMakeLists.txt' \) -type f -print | xargs echo SRCS = packaging.cmake > build/deps.new || _exit 1
+{
+	echo SUDO = $sudo &&
+	echo PREFIX = $prefix &&
+	echo CXX = $compiler &&
+	echo CONFIG = $config &&
+	echo GENERATOR = $generator &&
+	echo UNICODE_VERSION = $unicodeVersion &&
+	echo BUILDS_DEB = $builds_deb &&
+	echo BUILDS_RPM = $builds_rpm &&
+	echo BUILDS_ARCH = $builds_arch
+} > config.make.new || _exit 1
+mv -f build/deps.new build/deps || _exit 1
+mv -f config.make.new config.make || _exit 1
 
 if [ $popit -ne 0 ]; then
 	popd >/dev/null
-- 
2.43.0


From 3d2f88c073158a15c8da3efed75020ada99f2816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:10 +0000
Subject: [PATCH 20/24] fix: configure --compiler had no effect on a build
 directory already in use

---
 configure | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/configure b/configure
index 64046be..fa25fe1 100755
--- a/configure
+++ b/configure
@@ -226,6 +226,8 @@ find . -name submods -prune -o \( -name '*.[ch]xx' -o -name 'CMakeLists.txt' \)
 	echo BUILDS_ARCH = $builds_arch
 } > config.make.new || _exit 1
 mv -f build/deps.new build/deps || _exit 1
+# cmake keeps the compiler and generator of an existing cache
+rm -rf build/CMakeCache.txt build/CMakeFiles || _exit 1
 mv -f config.make.new config.make || _exit 1
 
 if [ $popit -ne 0 ]; then
-- 
2.43.0


From e7aa879fcf44e99b99951198355dcf89d6ea7b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:41 +0000
Subject: [PATCH 21/24] fix: make test failed after a configure that could not
 write config.make

The build directory had lost its cache while all.touch still said that it was
complete, so cmake was not run again.
---
 configure | 1 +
 1 file changed, 1 insertion(+)

diff --git a/configure b/configure
index fa25fe1..c11f12b 100755
--- a/configure
+++ b/configure
@@ -227,6 +227,7 @@ find . -name submods -prune -o \( -name '*.[ch]xx' -o -name 'CMakeLists.txt' \)
 } > config.make.new || _exit 1
 mv -f build/deps.new build/deps || _exit 1
 # cmake keeps the compiler and generator of an existing cache
+rm -f build/all.touch || _exit 1
 rm -rf build/CMakeCache.txt build/CMakeFiles || _exit 1
 mv -f config.make.new config.make || _exit 1
 
-- 
2.43.0


From 1fcd73217c0e0b6224e3dbfbf05799e050be2825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:39 +0000
Subject: [PATCH 22/24] fix: FindANSAK ignored the environment variable
 ANSAK_DIR on Unix

---
 FindANSAK.cmake | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FindANSAK.cmake b/FindANSAK.cmake
index d31dd6e..73f02f9 100644
--- a/FindANSAK.cmake
+++ b/FindANSAK.cmake
@@ -245,7 +245,7 @@ if( UNIX OR MINGW OR CYGWIN )
                                                    DOC "ANSAK string library"
                                                    REQUIRED )
     elseif( NOT "$ENV{ANSAK_DIR}" STREQUAL "" )
-        find_library( _loctaor ${_srch_string_lib} HINTS "$ENV{ANSAK_DIR}/lib"
+        find_library( _locator ${_srch_string_lib} HINTS "$ENV{ANSAK_DIR}/lib"
                                                    DOC "ANSAK string library"
                                                    REQUIRED )
     else()
-- 
2.43.0


From 9faacdb91231a2534d96e0fc52bedcf74e661e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:39 +0000
Subject: [PATCH 23/24] fix: FindANSAK added a directory named ANSAK_INCLUDE
 instead of the include path

---
 FindANSAK.cmake | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FindANSAK.cmake b/FindANSAK.cmake
index 73f02f9..486479b 100644
--- a/FindANSAK.cmake
+++ b/FindANSAK.cmake
@@ -494,7 +494,7 @@ endif()
 
 message( "Looking for ANSAK components... done" )
 if ( ANSAK_INCLUDE AND NOT ANSAK_ISOLATE )
-    include_directories( ANSAK_INCLUDE )
+    include_directories( "${ANSAK_INCLUDE}" )
 endif()
 if ( ANSAK_DEBUG )
     set( _comp_found "" )
-- 
2.43.0


From 26d2f100567518336370eb3bdc747acb58b07758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 24/24] fix: FindANSAK never reported what was installed after
 a first failed search

The results stayed in cmake's cache as they were first set.
---
 FindANSAK.cmake | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/FindANSAK.cmake b/FindANSAK.cmake
index 486479b..dffcd48 100644
--- a/FindANSAK.cmake
+++ b/FindANSAK.cmake
@@ -407,7 +407,7 @@ find_file( ANSAK_SQLITE_HEADER "sqlite_exception.hxx" HINTS "${_include_dir}" )
 
 # if no string.hxx file, there's nothing more to find
 if( ANSAK_STRING_HEADER STREQUAL "ANSAK_STRING_HEADER-NOTFOUND" )
-    set( ANSAK_FOUND False CACHE BOOL "ANSAK components not found." )
+    set( ANSAK_FOUND False CACHE BOOL "ANSAK components not found." FORCE )
     message( SEND_ERROR "ANSAK string header not found. Giving up." )
     return()
     # early exit
@@ -415,7 +415,7 @@ if( ANSAK_STRING_HEADER STREQUAL "ANSAK_STRING_HEADER-NOTFOUND" )
 endif()
 
 # we have the string library and the header -- ready to compile/link something
-set( ANSAK_FOUND True CACHE BOOL "ANSAK components found." )
+set( ANSAK_FOUND True CACHE BOOL "ANSAK components found." FORCE )
 get_filename_component( _file_dir "${ANSAK_STRING_HEADER}" DIRECTORY )  # ".../ansak/string.hxx --> .../ansak
 get_filename_component( _include_path "${_file_dir}" DIRECTORY )        # location that has ansak dir in it
 # for standard Unix-style locations, ANSAK_INCLUDE is blank and won't add -I elements
@@ -438,11 +438,11 @@ if( NOT ANSAK_LIB_HEADER STREQUAL "ANSAK_LIB_HEADER-NOTFOUND" )
     find_library( _platform_ansak_lib ${_srch_lib} HINTS "${_locator_dir}" DOC "ANSAK general library" )
     if( _platform_ansak_lib STREQUAL "_platform_ansak_lib-NOTFOUND" )
         set( ANSAK_LIB_HEADER "ANSAK_LIB_HEADER-NOTFOUND" CACHE STRING "Library not present, ignoring header" FORCE )
-        set( ANSAK_LIB_FOUND False CACHE BOOL "ANSAK library not found." )
+        set( ANSAK_LIB_FOUND False CACHE BOOL "ANSAK library not found." FORCE )
         # if we have the library but not the header, no point...
         ####################################################################
     else()
-        set( ANSAK_LIB_FOUND True CACHE BOOL "ANSAK library found." )
+        set( ANSAK_LIB_FOUND True CACHE BOOL "ANSAK library found." FORCE )
         if ( _vs_match AND _split_libs )
             set( ANSAK_LIB "${_locator_parent_dir}/$<CONFIG>/ansak.lib" CACHE FILEPATH "ANSAK general Library" )
         else()
@@ -450,7 +450,7 @@ if( NOT ANSAK_LIB_HEADER STREQUAL "ANSAK_LIB_HEADER-NOTFOUND" )
         endif()
     endif()
 else()
-    set( ANSAK_LIB_FOUND False CACHE BOOL "ANSAK library not found." )
+    set( ANSAK_LIB_FOUND False CACHE BOOL "ANSAK library not found." FORCE )
 endif()
 
 # if we have the sqlite library header, do we have SQLite3 and the lib?
@@ -459,11 +459,11 @@ if( SQLite3_FOUND )
         find_library( _platform_ansak_sqlite_lib ${_srch_sqlite_lib} HINTS "${_locator_dir}" DOC "ANSAK SQLite library" )
         if( _platform_ansak_sqlite_lib STREQUAL "_platform_ansak_sqlite_lib-NOTFOUND" )
             set( ANSAK_SQLITE_HEADER "ANSAK_SQLITE_HEADER-NOTFOUND" CACHE STRING "SQLite library not present, ignoring header" FORCE )
-            set( ANSAK_SQLITE_FOUND False CACHE  BOOL "ANSAK SQLite library not found." )
+            set( ANSAK_SQLITE_FOUND False CACHE  BOOL "ANSAK SQLite library not found." FORCE )
             # if we have the library but not the header, no point...
             ################################################################
         else()
-            set( ANSAK_SQLITE_FOUND True CACHE  BOOL "ANSAK SQLite library found." )
+            set( ANSAK_SQLITE_FOUND True CACHE  BOOL "ANSAK SQLite library found." FORCE )
             if ( _vs_match AND _split_libs )
               set( ANSAK_SQLITE_LIB "${_locator_parent_dir}/$<CONFIG>/ansakSqlite.lib" CACHE FILEPATH "ANSAK SQLite Library" )
             else()
@@ -474,11 +474,11 @@ if( SQLite3_FOUND )
 elseif( NOT ANSAK_SQLITE_HEADER STREQUAL "ANSAK_SQLITE_HEADER-NOTFOUND" )
     message( STATUS "SQLite3 not found, ignoring ANSAK sqlite feature." )
     set( ANSAK_SQLITE_HEADER "ANSAK_SQLITE_HEADER-NOTFOUND" CACHE STRING "SQLite3 not found, ignoring header" FORCE )
-    set( ANSAK_SQLITE_FOUND False CACHE  BOOL "SQLite3 is not found, ANSAK SQLite library is irrelevant." )
+    set( ANSAK_SQLITE_FOUND False CACHE  BOOL "SQLite3 is not found, ANSAK SQLite library is irrelevant." FORCE )
     # if we have the header, but SQLite3 is not found, no point
     ########################################################################
 else()
-    set( ANSAK_SQLITE_FOUND False CACHE  BOOL "Neither ANSAK SQLite library nor SQLite3 found." )
+    set( ANSAK_SQLITE_FOUND False CACHE  BOOL "Neither ANSAK SQLite library nor SQLite3 found." FORCE )
     # we have no header and SQLite3 is not found, no point -- except to document
     ########################################################################
 endif()
-- 
2.43.0

