From e6711f9bb0e4c473fb92425099d02168e3678b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 01/93] fix: decode ASCIIHex pairs split by white space and
 stop at EOD

---
 pdfmajor/utils/ascii85.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pdfmajor/utils/ascii85.py b/pdfmajor/utils/ascii85.py
index ec05158..0715945 100644
--- a/pdfmajor/utils/ascii85.py
+++ b/pdfmajor/utils/ascii85.py
@@ -45,8 +45,7 @@ def ascii85decode(data):
     return out
 
 # asciihexdecode(data)
-hex_re = re.compile(b'([a-f\d]{2})', re.IGNORECASE) # pylint: disable=W1401
-trail_re = re.compile(b'^(?:[a-f\d]{2}|\s)*([a-f\d])[\s>]*$', re.IGNORECASE) # pylint: disable=W1401
+hex_re = re.compile(b'[a-f\\d]', re.IGNORECASE) # pylint: disable=W1401
 
 
 def asciihexdecode(data):
@@ -64,10 +63,17 @@ def asciihexdecode(data):
         return int2byte(i)
 
     out=b''
-    for x in hex_re.findall(data):
-        out+=decode(x)
-
-    m = trail_re.search(data)
-    if m:
-        out+=decode(m.group(1)+b'0')
+    pair=b''
+    for i in iter(data):
+        c=int2byte(i)
+        if c == b'>':
+            break
+        if not hex_re.match(c):
+            continue
+        pair+=c
+        if len(pair) == 2:
+            out+=decode(pair)
+            pair=b''
+    if pair:
+        out+=decode(pair+b'0')
     return out
-- 
2.43.0


From 1a42f6e6b904c0051548c5bde13ce86e06e393f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 02/93] fix: stop LZW decoding at the EOD code

---
 pdfmajor/utils/lzw.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/utils/lzw.py b/pdfmajor/utils/lzw.py
index 03d0dc7..82f4832 100644
--- a/pdfmajor/utils/lzw.py
+++ b/pdfmajor/utils/lzw.py
@@ -83,6 +83,9 @@ class LZWDecoder(object):
                 code = self.readbits(self.nbits)
             except EOFError:
                 break
+            if code == 257:
+                # EOD: whatever follows it is not part of the data
+                break
             try:
                 x = self.feed(code)
             except CorruptDataError:
-- 
2.43.0


From 64f1e974276ac974ed7f5f5ac58bcfd7e73e09d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 03/93] fix: PNG predictors Sub, Average, Paeth and Up with
 several colour components

---
 pdfmajor/utils/generic.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index e6e3149..f5759d1 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -25,15 +25,25 @@ def compatible_encode_method(bytesorstring, encoding='utf-8', erraction='ignore'
 
 ##  PNG Predictor
 ##
+def paeth(a, b, c):
+    """Returns whichever of a (left), b (above), c (upper left) is closest to a+b-c."""
+    (pa, pb, pc) = (abs(b-c), abs(a-c), abs(a+b-2*c))
+    if pa <= pb and pa <= pc:
+        return a
+    if pb <= pc:
+        return b
+    return c
+
 def apply_png_predictor(pred, colors, columns, bitspercomponent, data):
     if bitspercomponent != 8:
         # unsupported
         raise ValueError("Unsupported `bitspercomponent': %d" %
                          bitspercomponent)
     nbytes = colors * columns * bitspercomponent // 8
+    bpp = colors * bitspercomponent // 8  # bytes per complete pixel
     i = 0
     buf = b''
-    line0 = b'\x00' * columns
+    line0 = b'\x00' * nbytes
     for i in range(0, len(data), nbytes+1):
         ft = data[i]
         i += 1
@@ -43,10 +53,10 @@ def apply_png_predictor(pred, colors, columns, bitspercomponent, data):
             # PNG none
             line2 += line1
         elif ft == 1:
-            # PNG sub (UNTESTED)
-            c = 0
-            for b in line1:
-                c = (c+b) & 255
+            # PNG sub
+            for (j, b) in enumerate(line1):
+                a = line2[j-bpp] if j >= bpp else 0
+                c = (a+b) & 255
                 line2 += int2byte(c)
         elif ft == 2:
             # PNG up
@@ -54,10 +64,16 @@ def apply_png_predictor(pred, colors, columns, bitspercomponent, data):
                 c = (a+b) & 255
                 line2 += int2byte(c)
         elif ft == 3:
-            # PNG average (UNTESTED)
-            c = 0
-            for (a, b) in zip(line0, line1):
-                c = ((c+a+b)//2) & 255
+            # PNG average
+            for (j, b) in enumerate(line1):
+                a = line2[j-bpp] if j >= bpp else 0
+                c = ((a+line0[j])//2+b) & 255
+                line2 += int2byte(c)
+        elif ft == 4:
+            # PNG paeth
+            for (j, b) in enumerate(line1):
+                (left, upleft) = (line2[j-bpp], line0[j-bpp]) if j >= bpp else (0, 0)
+                c = (paeth(left, line0[j], upleft)+b) & 255
                 line2 += int2byte(c)
         else:
             # unsupported
-- 
2.43.0


From 531ede2663c80d63ef57e94f1e163f168a64c68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 04/93] fix: CCITT output with array.tobytes (tostring is gone
 since Python 3.9)

---
 pdfmajor/parser/PDFStream/ccitt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFStream/ccitt.py b/pdfmajor/parser/PDFStream/ccitt.py
index e1d47b9..b58afb5 100644
--- a/pdfmajor/parser/PDFStream/ccitt.py
+++ b/pdfmajor/parser/PDFStream/ccitt.py
@@ -541,7 +541,7 @@ class CCITTFaxDecoder(CCITTG4Parser):
         for (i, b) in enumerate(bits):
             if b:
                 bytes[i//8] += (128, 64, 32, 16, 8, 4, 2, 1)[i % 8]
-        self._buf += bytes.tostring()
+        self._buf += bytes.tobytes()
         return
 
 
-- 
2.43.0


From 520090373906152da9cf37abe1eae9982ecc45b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 05/93] fix: CCITTFaxDecode Columns defaults to 1728

---
 pdfmajor/parser/PDFStream/ccitt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFStream/ccitt.py b/pdfmajor/parser/PDFStream/ccitt.py
index b58afb5..7455b07 100644
--- a/pdfmajor/parser/PDFStream/ccitt.py
+++ b/pdfmajor/parser/PDFStream/ccitt.py
@@ -547,7 +547,7 @@ class CCITTFaxDecoder(CCITTG4Parser):
 
 def ccittfaxdecode(data, params):
     K = params.get('K')
-    cols = params.get('Columns')
+    cols = params.get('Columns', 1728)
     bytealign = params.get('EncodedByteAlign')
     reversed = params.get('BlackIs1')
     if K == -1:
-- 
2.43.0


From edbf82da173f6cd427f43aaad99429d770a61661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 06/93] fix: resolve indirect stream filters and decode
 parameters

---
 pdfmajor/parser/PDFStream/__init__.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index 82ec8c0..8f9d420 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -58,8 +58,8 @@ class PDFStream(PDFObject):
         return default
 
     def get_filters(self):
-        filters = self.get_any(('F', 'Filter'))
-        params = self.get_any(('DP', 'DecodeParms', 'FDecodeParms'), {})
+        filters = resolve1(self.get_any(('F', 'Filter')))
+        params = resolve1(self.get_any(('DP', 'DecodeParms', 'FDecodeParms'), {}))
         if not filters:
             return []
         if not isinstance(filters, list):
@@ -72,9 +72,7 @@ class PDFStream(PDFObject):
         # resolve filter if possible
         _filters = []
         for fltr in filters:
-            if hasattr(fltr, 'resolve'):
-                fltr = fltr.resolve()[0]
-            _filters.append(fltr)
+            _filters.append(resolve1(fltr))
         return list(zip(_filters, params)) #solves https://github.com/pdfminer/pdfminer.six/issues/15
 
     def decode(self):
@@ -89,6 +87,7 @@ class PDFStream(PDFObject):
             self.rawdata = None
             return
         for (f,params) in filters:
+            params = resolve1(params)
             if f in LITERALS_FLATE_DECODE:
                 # will get errors if the document is encrypted.
                 try:
-- 
2.43.0


From 65d0e57d08e09dcb6906d1526869cf8a195248c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 07/93] fix: import the exceptions that stream decoding raises

---
 pdfmajor/execptions.py                | 3 +++
 pdfmajor/parser/PDFStream/__init__.py | 1 +
 pdfmajor/parser/PDFStream/util.py     | 1 +
 3 files changed, 5 insertions(+)

diff --git a/pdfmajor/execptions.py b/pdfmajor/execptions.py
index fa8cdf6..0736de3 100644
--- a/pdfmajor/execptions.py
+++ b/pdfmajor/execptions.py
@@ -60,6 +60,9 @@ class PDFException(ParserError):
 class PDFTypeError(PDFException):
     pass
 
+class PDFNotImplementedError(PDFException):
+    pass
+
 class PDFSyntaxError(PDFException):
     pass
 
diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index 8f9d420..10ae956 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -1,5 +1,6 @@
 import zlib
 
+from pdfmajor.execptions import PDFException, PDFTypeError, PDFNotImplementedError
 from ...utils import lzwdecode
 from ...utils import ascii85decode, asciihexdecode, apply_png_predictor
 
diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index eae568f..f6f2f33 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -1,3 +1,4 @@
+from pdfmajor.execptions import PDFTypeError
 from .PDFObjRef import PDFObjRef
 from ...utils import settings, isnumber, int2byte
 
-- 
2.43.0


From 5dbb8d8d8d805dea24c68708b33bbec06cc8ab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:45 +0000
Subject: [PATCH 08/93] fix: ignore the high-order overflow of octal escapes in
 strings

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 707e575..a00a7ce 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -299,7 +299,8 @@ class PSBaseParser(object):
             self.oct += c
             return i+1
         if self.oct:
-            self._curtoken += int2byte(int(self.oct, 8))
+            # high-order overflow is ignored (e.g. \\777)
+            self._curtoken += int2byte(int(self.oct, 8) & 0xff)
             self._current_parse_func = self._parse_string
             return i
         if c in ESC_STRING:
-- 
2.43.0


From e879c25542e968c0fb7647263a4d952de7ffefa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:45 +0000
Subject: [PATCH 09/93] fix: skip both characters of an escaped CR LF in a
 string

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index a00a7ce..1ff7e1b 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -305,9 +305,19 @@ class PSBaseParser(object):
             return i
         if c in ESC_STRING:
             self._curtoken += int2byte(ESC_STRING[c])
+        elif c == b'\r':
+            self._current_parse_func = self._parse_string_cr
+            return i+1
         self._current_parse_func = self._parse_string
         return i+1
 
+    def _parse_string_cr(self, s, i):
+        # an escaped end-of-line marker may be b'\r\n'
+        if s[i:i+1] == b'\n':
+            i += 1
+        self._current_parse_func = self._parse_string
+        return i
+
     def _parse_wopen(self, s, i):
         c = s[i:i+1]
         if c == b'<':
-- 
2.43.0


From fc0990f2b8594a1aa9ccd54120577ba56084e3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:45 +0000
Subject: [PATCH 10/93] fix: treat NUL as white space when splitting tokens

---
 pdfmajor/parser/PSStackParser/constants.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/parser/PSStackParser/constants.py b/pdfmajor/parser/PSStackParser/constants.py
index 970a9c4..93b900e 100644
--- a/pdfmajor/parser/PSStackParser/constants.py
+++ b/pdfmajor/parser/PSStackParser/constants.py
@@ -15,14 +15,14 @@ KEYWORD_DICT_END = KWD(b'>>')
 ##  PSBaseParser
 ##
 EOL = re.compile(br'[\r\n]')
-SPC = re.compile(br'\s')
-NONSPC = re.compile(br'\S')
+SPC = re.compile(br'[\s\0]')
+NONSPC = re.compile(br'[^\s\0]')
 HEX = re.compile(br'[0-9a-fA-F]')
-END_LITERAL = re.compile(br'[#/%\[\]()<>{}\s]')
-END_HEX_STRING = re.compile(br'[^\s0-9a-fA-F]')
+END_LITERAL = re.compile(br'[#/%\[\]()<>{}\s\0]')
+END_HEX_STRING = re.compile(br'[^\s\x000-9a-fA-F]')
 HEX_PAIR = re.compile(br'[0-9a-fA-F]{2}|.')
 END_NUMBER = re.compile(br'[^0-9]')
-END_KEYWORD = re.compile(br'[#/%\[\]()<>{}\s]')
+END_KEYWORD = re.compile(br'[#/%\[\]()<>{}\s\0]')
 END_STRING = re.compile(br'[()\134]')
 OCT_STRING = re.compile(br'[0-7]')
 ESC_STRING = {b'b': 8, b't': 9, b'n': 10, b'f': 12, b'r': 13, b'(': 40, b')': 41, b'\\': 92}
-- 
2.43.0


From 7b5f62f476ce3bcb78e7fede270b0578a928f1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:45 +0000
Subject: [PATCH 11/93] fix: return the last token of data that ends without a
 delimiter

---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 1ff7e1b..82c1175 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -350,7 +350,16 @@ class PSBaseParser(object):
 
     def nexttoken(self):
         while not self._tokens:
-            self.fillbuf()
+            try:
+                self.fillbuf()
+            except PSEOF:
+                # the end of the data also ends the last token
+                i = 0
+                while i < 1:
+                    i = self._current_parse_func(b'\n', i)
+                if not self._tokens:
+                    raise
+                break
             self.charpos = self._current_parse_func(self.buf, self.charpos)
         token = self._tokens.pop(0)
         log.debug('nexttoken: %r', token)
-- 
2.43.0


From eb3c57b1e073fcace99c93fb87c68b0634c2a650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:00 +0000
Subject: [PATCH 12/93] fix: end the token at the end of each content stream

---
 pdfmajor/parser/PDFContentParser.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 98ef0da..18353be 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -39,13 +39,13 @@ class PDFContentParser(PSStackParser):
     def fillbuf(self):
         if self.charpos < len(self.buf):
             return
-        while 1:
-            self.fillfp()
-            self.bufpos = self.fp.tell()
-            self.buf = self.fp.read(self.BUFSIZ)
-            if self.buf:
-                break
+        self.fillfp()
+        self.bufpos = self.fp.tell()
+        self.buf = self.fp.read(self.BUFSIZ)
+        if not self.buf:
+            # the end of a stream ends the token, too
             self.fp = None
+            self.buf = b'\n'
         self.charpos = 0
         return
 
-- 
2.43.0


From 0be8221015dcc3f4092e280c4578c71782846e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 13/93] fix: null in object streams is the null object

---
 pdfmajor/parser/PDFParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index daf443d..840d54d 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -169,6 +169,10 @@ class PDFStreamParser(PDFParser):
                 # stream; the obj and endobj keywords are not used.
                 raise PDFSyntaxError('Keyword endobj found in stream')
             return
+        elif token is self.KEYWORD_NULL:
+            # null object
+            self.push((pos, None))
+            return
         # others
         self.push((pos, token))
         return
-- 
2.43.0


From ba26efe2a945ece6f8a4da7289cda0f52f313d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 14/93] fix: strip only the line end before EI from inline
 image data

---
 pdfmajor/parser/PDFContentParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 18353be..62951ef 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -76,7 +76,7 @@ class PDFContentParser(PSStackParser):
                     data += self.buf[self.charpos:]
                     self.charpos = len(self.buf)
         data = data[:-(len(target)+1)]  # strip the last part
-        data = re.sub(br'(\x0d\x0a|[\x0d\x0a])$', b'', data)
+        data = re.sub(br'(\x0d\x0a|[\x0d\x0a])\Z', b'', data)
         return (pos, data)
 
     def flush(self):
-- 
2.43.0


From 5350a01dcfb209d6213dfedc5db9e2f242ff2189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 15/93] fix: nunpack accepts fields of 5 to 7 bytes

---
 pdfmajor/utils/generic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index f5759d1..0aef66b 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -142,7 +142,7 @@ def choplist(n, seq):
 
 # nunpack
 def nunpack(s, default=0):
-    """Unpacks 1 to 4 or 8 byte integers (big endian)."""
+    """Unpacks 1 to 8 byte integers (big endian)."""
     l = len(s)
     if not l:
         return default
@@ -154,8 +154,8 @@ def nunpack(s, default=0):
         return struct.unpack('>L', b'\x00'+s)[0]
     elif l == 4:
         return struct.unpack('>L', s)[0]
-    elif l == 8:
-        return struct.unpack('>Q', s)[0]
+    elif l <= 8:
+        return struct.unpack('>Q', b'\x00'*(8-l)+s)[0]
     else:
         raise TypeError('invalid length: %d' % l)
 
-- 
2.43.0


From b55b2d80728114f37386343ffd85ab4b528ecd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 16/93] fix: PDFXRef raises PDFNoValidXRef, which was never
 imported

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 07b507e..4b2b3d1 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -2,7 +2,7 @@ import re
 from logging import getLogger
 from typing import Tuple, Optional, Dict
 
-from pdfmajor.execptions import PSEOF, PDFSyntaxError
+from pdfmajor.execptions import PSEOF, PDFSyntaxError, PDFNoValidXRef
 
 from ...utils import settings, choplist, nunpack
 from ..PSStackParser import KWD
-- 
2.43.0


From 5a9d3a32a4411c139b45dc4f4edba4c96d2fa427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 17/93] fix: PDFXRefStream.get_objids looks at the entries of
 its own subsection

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 4b2b3d1..e6357bc 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -201,13 +201,15 @@ class PDFXRefStream(PDFBaseXRef):
         return self.trailer
 
     def get_objids(self):
+        index = 0
         for (start, nobjs) in self.ranges:
             for i in range(nobjs):
-                offset = self.entlen * i
+                offset = self.entlen * (index + i)
                 ent = self.data[offset:offset+self.entlen]
                 f1 = nunpack(ent[:self.fl1], 1)
                 if f1 == 1 or f1 == 2:
                     yield start+i
+            index += nobjs
         return
 
     def get_pos(self, objid):
-- 
2.43.0


From e2cecc3093ab56080b3192ec092d517308793457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 18/93] fix: a startxref without a number means no valid
 cross-reference section

---
 pdfmajor/parser/PDFDocument/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 44790cb..ff2e378 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -296,7 +296,10 @@ class PDFDocument(object):
         else:
             raise PDFNoValidXRef('Unexpected EOF')
         log.info('xref found: pos=%r', prev)
-        return int(prev)
+        try:
+            return int(prev)
+        except (TypeError, ValueError):
+            raise PDFNoValidXRef('Invalid startxref: %r' % prev)
 
     # read xref table
     def read_xref_from(self, parser, start, xrefs):
-- 
2.43.0


From 393fd4ad861f46e5a7c975f39a64a328ed7484aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 19/93] fix: a stream ends where its Length says when endstream
 follows

---
 pdfmajor/parser/PDFParser.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index 840d54d..4199a2c 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -56,6 +56,11 @@ class PDFParser(PSStackParser):
     KEYWORD_XREF = KWD(b'xref')
     KEYWORD_STARTXREF = KWD(b'startxref')
 
+    def is_endstream(self, pos):
+        """Is there an 'endstream' (on its own line or not) at the position?"""
+        self.fp.seek(pos)
+        return self.fp.read(11).lstrip(b'\r\n').startswith(b'endstream')
+
     def do_keyword(self, pos, token):
         """Handles PDF-related keywords."""
 
@@ -98,6 +103,13 @@ class PDFParser(PSStackParser):
                     raise PDFSyntaxError('Unexpected EOF')
                 return
             pos += len(line)
+            fallback = self.fallback
+            if fallback:
+                # a /Length that leads to 'endstream' can be trusted
+                length = dic.get('Length')
+                if isinstance(length, int) and length >= 0 and self.is_endstream(pos+length):
+                    objlen = length
+                    fallback = False
             self.fp.seek(pos)
             data = bytearray(self.fp.read(objlen))
             self.seek(pos+objlen)
@@ -111,11 +123,11 @@ class PDFParser(PSStackParser):
                 if b'endstream' in line:
                     i = line.index(b'endstream')
                     objlen += i
-                    if self.fallback:
+                    if fallback:
                         data += line[:i]
                     break
                 objlen += len(line)
-                if self.fallback:
+                if fallback:
                     data += line
             data = bytes(data)
             self.seek(pos+objlen)
-- 
2.43.0


From d96cb16df694984a07134345475fce606cae1d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 20/93] fix: a reference to object 0 is a reference to no
 object

---
 pdfmajor/parser/PDFDocument/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index ff2e378..f9617b1 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -187,7 +187,8 @@ class PDFDocument(object):
 
     # can raise PDFObjectNotFound
     def getobj(self, objid):
-        assert objid != 0
+        if objid == 0:
+            raise PDFObjectNotFound(objid)
         if not self.xrefs:
             raise ParserError('PDFDocument is not initialized')
         log.debug('getobj: objid=%r', objid)
-- 
2.43.0


From dc514650c2267ff87d70053537e73c15fce991ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 21/93] fix: a cross-reference stream that cannot be read means
 no valid section

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index e6357bc..73588bd 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -177,11 +177,14 @@ class PDFXRefStream(PDFBaseXRef):
         return '<PDFXRefStream: ranges=%r>' % (self.ranges)
 
     def load(self, parser):
-        (_, objid) = parser.nexttoken()  # ignored
-        (_, genno) = parser.nexttoken()  # ignored
-        (_, kwd) = parser.nexttoken()
-        (_, stream) = parser.nextobject()
-        if not isinstance(stream, PDFStream) or stream['Type'] is not LITERAL_XREF:
+        try:
+            (_, objid) = parser.nexttoken()  # ignored
+            (_, genno) = parser.nexttoken()  # ignored
+            (_, kwd) = parser.nexttoken()
+            (_, stream) = parser.nextobject()
+        except PSEOF:
+            raise PDFNoValidXRef('Unexpected EOF - file corrupted?')
+        if not isinstance(stream, PDFStream) or stream.get('Type') is not LITERAL_XREF:
             raise PDFNoValidXRef('Invalid PDF stream spec.')
         size = stream['Size']
         index_array = stream.get('Index', (0, size))
-- 
2.43.0


From 07a87ad2f6cd853921c2afed95a61639c3d95dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 22/93] fix: stray R and stream keywords without their operands
 are ignored

---
 pdfmajor/parser/PDFParser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index 4199a2c..85f91e2 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -81,12 +81,15 @@ class PDFParser(PSStackParser):
                 (objid, genno) = (int(objid), int(genno)) # pylint: disable=E0632
                 obj = PDFObjRef(self.doc, objid, genno) # pylint: disable=E0632
                 self.push((pos, obj))
-            except PSSyntaxError:
+            except (PSSyntaxError, TypeError, ValueError):
                 pass
 
         elif token is self.KEYWORD_STREAM:
             # stream object
-            ((_, dic),) = self.pop(1) # pylint: disable=E0632
+            try:
+                ((_, dic),) = self.pop(1) # pylint: disable=E0632
+            except ValueError:
+                return
             dic = dict_value(dic)
             objlen = 0
             if not self.fallback:
@@ -172,7 +175,7 @@ class PDFStreamParser(PDFParser):
                 (objid, genno) = (int(objid), int(genno))
                 obj = PDFObjRef(self.doc, objid, genno)
                 self.push((pos, obj))
-            except PSSyntaxError:
+            except (PSSyntaxError, TypeError, ValueError):
                 pass
             return
         elif token in (self.KEYWORD_OBJ, self.KEYWORD_ENDOBJ):
-- 
2.43.0


From 827724e35aadd79d35e49b23e7cb6ef45bc78eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 23/93] fix: a missing trailer keyword means no valid section

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 73588bd..ac9caac 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -84,7 +84,8 @@ class PDFXRef(PDFBaseXRef):
     def load_trailer(self, parser):
         try:
             (_, kwd) = parser.nexttoken()
-            assert kwd is KWD(b'trailer'), str(kwd)
+            if kwd is not KWD(b'trailer'):
+                raise PDFNoValidXRef('Trailer not found: %r' % kwd)
             (_, dic) = parser.nextobject()
         except PSEOF:
             x = parser.pop(1)
-- 
2.43.0


From b081a0e42647a5a7788f3e2ae6ec39963b968722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 24/93] fix: list each page object once when the document has
 no page tree

---
 pdfmajor/parser/PDFPage.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index c9844e9..a7f60a9 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -107,8 +107,12 @@ class PDFPage(object):
                 pages = True
         if not pages:
             # fallback when /Pages is missing.
+            visited = set()
             for xref in document.xrefs:
                 for objid in xref.get_objids():
+                    # later revisions list the same objects again
+                    if objid in visited: continue
+                    visited.add(objid)
                     try:
                         obj = document.getobj(objid)
                         if isinstance(obj, dict) and obj.get('Type') is LITERAL_PAGE:
-- 
2.43.0


From 64323fbb02ce8df5197dd1acbbc59d0fd713a452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 25/93] fix: iterate over all pages after an iteration that
 stopped early

---
 pdfmajor/interpreter/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/__init__.py b/pdfmajor/interpreter/__init__.py
index dcb4d32..4e2dbd0 100644
--- a/pdfmajor/interpreter/__init__.py
+++ b/pdfmajor/interpreter/__init__.py
@@ -45,6 +45,7 @@ class PDFInterpreter:
         log.info("Opening file...")
         with open(self.input_file_path, 'rb') as input_file:
             font_cache = {}
+            loaded = []
             log.info("Parsing file...")
             pages = PDFPage.get_pages(
                 input_file, 
@@ -55,8 +56,10 @@ class PDFInterpreter:
                 check_extractable=self.check_extractable
             )
             for page_num, page in enumerate(pages):
-                self.__pages.append(PageInterpreter(page, page_num, font_cache, ignore_bad_chars=self.ignore_bad_chars))
-                yield self.__pages[-1]
+                loaded.append(PageInterpreter(page, page_num, font_cache, ignore_bad_chars=self.ignore_bad_chars))
+                yield loaded[-1]
+            # only a complete run is reused
+            self.__pages = loaded
             log.info(f"Done Reading {len(self.__pages)} pages.")
         set_log_level(logging.WARNING)
         
-- 
2.43.0


From cd085abb20bf0c0b41fcdf3ef1fd581c7b365a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 26/93] fix: keep pages readable after all pages were loaded

---
 pdfmajor/interpreter/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/interpreter/__init__.py b/pdfmajor/interpreter/__init__.py
index 4e2dbd0..70d1678 100644
--- a/pdfmajor/interpreter/__init__.py
+++ b/pdfmajor/interpreter/__init__.py
@@ -1,3 +1,4 @@
+from io import BytesIO
 from typing import List
 
 from pdfmajor.execptions import EmptyDocumentError
@@ -44,6 +45,8 @@ class PDFInterpreter:
         set_log_level(self.debug_level)
         log.info("Opening file...")
         with open(self.input_file_path, 'rb') as input_file:
+            # pages are read on demand, also after the file is closed
+            input_file = BytesIO(input_file.read())
             font_cache = {}
             loaded = []
             log.info("Parsing file...")
-- 
2.43.0


From daa3d23ddbfe89929ff80b0b56c6ccd12f96fcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 27/93] fix: a page without content is empty

---
 pdfmajor/interpreter/commands/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 8eb3c73..056ee4e 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -1,6 +1,6 @@
 from typing import List
 
-from pdfmajor.execptions import CommandProcessorError
+from pdfmajor.execptions import CommandProcessorError, PSEOF
 from pdfmajor.parser.PDFContentParser import PDFContentParser, PDFStream
 from pdfmajor.parser.PSStackParser import PSKeyword, keyword_name
 from pdfmajor.utils import get_logger
@@ -21,7 +21,11 @@ log = get_logger('process_command_stream')
 def process_command_stream(streams: List[PDFStream], font_cache: dict = None, state: PDFStateStack = None):
     if font_cache is None:
         font_cache = {}
-    parser = PDFContentParser(streams)
+    try:
+        parser = PDFContentParser(streams)
+    except PSEOF:
+        # empty page
+        return
     for obj in parser:
         if isinstance(obj, PSKeyword):
             name = keyword_name(obj)
-- 
2.43.0


From 4b0195c84005a6a6a415a9aa59d5dac8303ba891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 28/93] fix: raise the encryption errors instead of NameError

---
 pdfmajor/execptions.py                            | 6 ++++++
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 2 ++
 pdfmajor/parser/PDFDocument/__init__.py           | 1 +
 3 files changed, 9 insertions(+)

diff --git a/pdfmajor/execptions.py b/pdfmajor/execptions.py
index 0736de3..2954345 100644
--- a/pdfmajor/execptions.py
+++ b/pdfmajor/execptions.py
@@ -69,6 +69,12 @@ class PDFSyntaxError(PDFException):
 class PDFTextExtractionNotAllowed(PDFException):
     pass
 
+class PDFEncryptionError(PDFException):
+    pass
+
+class PDFPasswordIncorrect(PDFEncryptionError):
+    pass
+
 class PSEOF(PSException):
     pass
 
diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 71b9bc1..9a5a0c8 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -3,6 +3,8 @@ import hashlib as md5
 from Crypto.Cipher import ARC4, AES
 from Crypto.Hash import SHA256
 
+from pdfmajor.execptions import PDFEncryptionError, PDFPasswordIncorrect
+
 from ..PDFStream import int_value, str_value, dict_value
 from ..PSStackParser import literal_name
 from ...utils import int2byte, struct
diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index f9617b1..196d08c 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -12,6 +12,7 @@ from pdfmajor.execptions import (
     PSEOF,
     PDFObjectNotFound, 
     PDFTypeError,
+    PDFEncryptionError,
     PDFSyntaxError
 )
 
-- 
2.43.0


From f4ba6f96a2dff78de3088f3446bf53efe21eb09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 29/93] fix: no password (None) is the empty password

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 9a5a0c8..4aa5e00 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -20,7 +20,7 @@ class PDFStandardSecurityHandler(object):
     def __init__(self, docid, param, password=''):
         self.docid = docid
         self.param = param
-        self.password = password
+        self.password = password or ''
         self.encrypt_metadata = False
         self.init()
         return
-- 
2.43.0


From d485debfd2ee1a66dcb31a0bb11031ee9243ff1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 30/93] fix: permissions of encrypted files may be written as
 unsigned numbers

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 4aa5e00..bb02cb5 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -76,7 +76,7 @@ class PDFStandardSecurityHandler(object):
         password = (password + self.PASSWORD_PADDING)[:32]  # 1
         hash = md5.md5(password)  # 2
         hash.update(self.o)  # 3
-        hash.update(struct.pack('<l', self.p))  # 4
+        hash.update(struct.pack('<L', self.p & 0xffffffff))  # 4
         hash.update(self.docid[0])  # 5
         if self.r >= 4:
             if not self.encrypt_metadata:
-- 
2.43.0


From fe56d345adaad9cf87ff06159927d50e1759e00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 31/93] fix: remove the padding of AES encrypted strings and
 streams

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index bb02cb5..4bda9e5 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -188,7 +188,14 @@ class PDFStandardSecurityHandlerV4(PDFStandardSecurityHandler):
         key = self.key + struct.pack('<L', objid)[:3] + struct.pack('<L', genno)[:2] + b'sAlT'
         hash = md5.md5(key)
         key = hash.digest()[:min(len(key), 16)]
-        return AES.new(key, mode=AES.MODE_CBC, IV=data[:16]).decrypt(data[16:])
+        return self.decrypt_aes(key, data)
+
+    def decrypt_aes(self, key, data):
+        data = AES.new(key, mode=AES.MODE_CBC, IV=data[:16]).decrypt(data[16:])
+        # PKCS#5 padding
+        if data and 1 <= data[-1] <= 16:
+            data = data[:-data[-1]]
+        return data
 
 
 class PDFStandardSecurityHandlerV5(PDFStandardSecurityHandlerV4):
@@ -233,4 +240,4 @@ class PDFStandardSecurityHandlerV5(PDFStandardSecurityHandlerV4):
         return None
 
     def decrypt_aes256(self, objid, genno, data):
-        return AES.new(self.key, mode=AES.MODE_CBC, IV=data[:16]).decrypt(data[16:])
+        return self.decrypt_aes(self.key, data)
-- 
2.43.0


From cbc337f4ad9de183355895ced0a9ff5e2b647855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 32/93] fix: accept empty and truncated AES encrypted data

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 4bda9e5..284ce11 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -191,6 +191,10 @@ class PDFStandardSecurityHandlerV4(PDFStandardSecurityHandler):
         return self.decrypt_aes(key, data)
 
     def decrypt_aes(self, key, data):
+        # an initialization vector and whole blocks
+        data = data[:len(data) // 16 * 16]
+        if not data:
+            return b''
         data = AES.new(key, mode=AES.MODE_CBC, IV=data[:16]).decrypt(data[16:])
         # PKCS#5 padding
         if data and 1 <= data[-1] <= 16:
-- 
2.43.0


From 2849b1ea77e3a53c135dcf5cdcc798057179cf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 33/93] fix: crypt filters of encrypted files default to
 Identity

---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 284ce11..54bc1d8 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -148,8 +148,8 @@ class PDFStandardSecurityHandlerV4(PDFStandardSecurityHandler):
         super(PDFStandardSecurityHandlerV4, self).init_params()
         self.length = 128
         self.cf = dict_value(self.param.get('CF'))
-        self.stmf = literal_name(self.param['StmF'])
-        self.strf = literal_name(self.param['StrF'])
+        self.stmf = literal_name(self.param['StmF']) if 'StmF' in self.param else 'Identity'
+        self.strf = literal_name(self.param['StrF']) if 'StrF' in self.param else 'Identity'
         self.encrypt_metadata = bool(self.param.get('EncryptMetadata', True))
         if self.stmf != self.strf:
             raise PDFEncryptionError('Unsupported crypt filter: param=%r' % self.param)
-- 
2.43.0


From b7cd41f5d9a779c3f7d1dc209b700d0bbdba5f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 34/93] fix: decipher the strings of stream dictionaries

---
 pdfmajor/parser/PDFDocument/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 196d08c..60c975c 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -209,6 +209,8 @@ class PDFDocument(object):
                         obj = self._getobj_parse(index, objid)
                         if self.decipher:
                             obj = decipher_all(self.decipher, objid, genno, obj)
+                            if isinstance(obj, PDFStream):
+                                decipher_all(self.decipher, objid, genno, obj.attrs)
 
                     if isinstance(obj, PDFStream):
                         obj.set_objid(objid, genno)
-- 
2.43.0


From 10feddd8d0c01f6ab497f06a43baab1f332fbcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 35/93] fix: scanning a document with enciphered object streams

---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index ac9caac..02aa36f 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -160,6 +160,9 @@ class PDFXRefFallback(PDFXRef):
                 n = min(n, len(objs)//2)
                 for index in range(n):
                     objid1 = objs[index*2]
+                    # the stream may be enciphered
+                    if not isinstance(objid1, int):
+                        continue
                     self.offsets[objid1] = (objid, index, 0)
         return
 
-- 
2.43.0


From 2a2b9468ebe642dd3e336d4adac1366f878f9990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:50 +0000
Subject: [PATCH 36/93] fix: k sets the non-stroking colour

---
 pdfmajor/interpreter/commands/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index cb6838f..1134d7b 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -318,7 +318,7 @@ def set_stroke_cmyk(stack: PDFStateStack, c, m, y, k) -> PDFStateStack:
 # setcmyk-non-stroking
 @PDFCommands.add('k')
 def set_nonstroke_cmyk(stack: PDFStateStack, c, m, y, k) -> PDFStateStack:
-    stack.graphics.set_stroke_color(
+    stack.graphics.set_nostroke_color(
         stack.colorspace_map['DeviceCMYK'], 
         c, m, y, k
     )
-- 
2.43.0


From a0a89ef407f7fdd121efb126d47959eb6a2231f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:50 +0000
Subject: [PATCH 37/93] fix: g, rg and k set the colour space that sc uses

---
 pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py b/pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py
index 4a24fbe..47802b0 100644
--- a/pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py
+++ b/pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py
@@ -19,11 +19,13 @@ class PDFGraphicState(object):
     def set_stroke_color(self, colspace: PDFColorSpace, *values):
         if colspace is None:
             colspace = self.scolspace
+        self.scolspace = colspace
         self.scolor = PDFColor(colspace, *values)
 
     def set_nostroke_color(self, colspace: PDFColorSpace, *values):
         if colspace is None:
             colspace = self.ncolspace
+        self.ncolspace = colspace
         self.ncolor = PDFColor(colspace, *values)
 
     def copy(self):
-- 
2.43.0


From da6c44161d16bf441f32bf208b29dd21de9f425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:50 +0000
Subject: [PATCH 38/93] fix: cs and CS set the initial color of the space

---
 pdfmajor/converters/html.py                        |  2 +-
 pdfmajor/interpreter/commands/commands.py          | 14 +++++++++-----
 .../state/PDFGraphicState/PDFColorSpace.py         | 10 ++++++++++
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/converters/html.py b/pdfmajor/converters/html.py
index 9b8b335..de651b5 100644
--- a/pdfmajor/converters/html.py
+++ b/pdfmajor/converters/html.py
@@ -121,7 +121,7 @@ def render_page(html: HTMLMaker, ltpage: PageInterpreter):
 def get_color(col: PDFColor, default: str = ""):
     if col.color_space is not None:
         if col.color_space.ncomponents == 1:
-            if type(col.values[0]) in [float, int]:
+            if col.values and type(col.values[0]) in [float, int]:
                 return f"rgba(0,0,0,{1 - float(col.values[0])})"
         elif col.color_space.ncomponents == 3:
             return f"rgb({','.join(map(str, col.values))})"
diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 1134d7b..aea0c48 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -5,7 +5,7 @@ from pdfmajor.parser.PDFStream import PDFStream, list_value, dict_value
 from pdfmajor.parser.constants import LITERAL_FORM, LITERAL_IMAGE
 
 from .PDFCommands import PDFCommands
-from .state import PDFStateStack, PDFGraphicState, LTTextBlock
+from .state import PDFStateStack, PDFGraphicState, PDFColor, LTTextBlock
 from .state.Curves import CurveMethod, CurvePath, CurvePoint
 # from .state.PDFItem import PDFImage, PDFShape, PDFText, PDFXObject
 from .state import make_char_block, make_curve, make_image, make_xobject
@@ -251,19 +251,23 @@ def curve_close_only(stack: PDFStateStack) -> PDFStateStack:
 @PDFCommands.add('CS')
 def set_stroke_colorspace(stack: PDFStateStack, name: str) -> PDFStateStack:
     try:
-        stack.graphics.scolspace = stack.colorspace_map[literal_name(name)]
-        return stack
+        colspace = stack.colorspace_map[literal_name(name)]
     except KeyError:
         raise InvalidOperation('Undefined ColorSpace: %r' % name)
+    stack.graphics.scolspace = colspace
+    stack.graphics.scolor = PDFColor(colspace, *(() if colspace is None else colspace.initial_values()))
+    return stack
 
 # setcolorspace-non-strokine
 @PDFCommands.add('cs')
 def set_nonstroke_colorspace(stack: PDFStateStack, name: str) -> PDFStateStack:
     try:
-        stack.graphics.ncolspace = stack.colorspace_map[literal_name(name)]
-        return stack
+        colspace = stack.colorspace_map[literal_name(name)]
     except KeyError:
         raise InvalidOperation('Undefined ColorSpace: %r' % name)
+    stack.graphics.ncolspace = colspace
+    stack.graphics.ncolor = PDFColor(colspace, *(() if colspace is None else colspace.initial_values()))
+    return stack
 
 # setgray-stroking
 @PDFCommands.add('G')
diff --git a/pdfmajor/interpreter/commands/state/PDFGraphicState/PDFColorSpace.py b/pdfmajor/interpreter/commands/state/PDFGraphicState/PDFColorSpace.py
index 0560259..0f10b83 100644
--- a/pdfmajor/interpreter/commands/state/PDFGraphicState/PDFColorSpace.py
+++ b/pdfmajor/interpreter/commands/state/PDFGraphicState/PDFColorSpace.py
@@ -7,6 +7,16 @@ class PDFColorSpace(object):
         self.name: str = name
         self.ncomponents: int = ncomponents
 
+    def initial_values(self) -> tuple:
+        """components of the color that selecting the space sets"""
+        if self.name == 'Pattern':
+            return ()
+        elif self.name == 'DeviceCMYK':
+            return (0, 0, 0, 1)
+        elif self.name in ('Separation', 'DeviceN'):
+            return (1,)*self.ncomponents
+        return (0,)*self.ncomponents
+
     def __repr__(self):
         return '<PDFColorSpace: %s, ncomponents=%d>' % (self.name, self.ncomponents)
 
-- 
2.43.0


From e72937648fb5fb4664ecb4e6bfbfe041bac0c834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:42 +0000
Subject: [PATCH 39/93] fix: bounding boxes and points of curves are in page
 coordinates

---
 pdfmajor/interpreter/commands/commands.py          |  4 ----
 pdfmajor/interpreter/commands/state/Curves.py      |  9 ++-------
 .../interpreter/commands/state/layout/__init__.py  | 14 +++++++-------
 3 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index aea0c48..fb58e13 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -190,7 +190,6 @@ def curve_rect(stack: PDFStateStack, x, y, w, h) -> PDFStateStack:
 @PDFCommands.add('S', 'f', 'F', 'B')
 def curve_complete_path(stack: PDFStateStack) -> PDFStateStack:
     stack.complete_layout_items.append(make_curve(
-        stack.t_matrix,
         stack.graphics.copy(),
         False,
         stack.curvestacks
@@ -202,7 +201,6 @@ def curve_complete_path(stack: PDFStateStack) -> PDFStateStack:
 @PDFCommands.add('f_a', 'B_a')
 def curve_complete_path_evenodd(stack: PDFStateStack) -> PDFStateStack:
     stack.complete_layout_items.append(make_curve(
-        stack.t_matrix,
         stack.graphics.copy(),
         True,
         stack.curvestacks
@@ -217,7 +215,6 @@ def curve_close_complete(stack: PDFStateStack) -> PDFStateStack:
         CurvePath.METHOD.CLOSE_PATH
     ))
     stack.complete_layout_items.append(make_curve(
-        stack.t_matrix,
         stack.graphics.copy(),
         False,
         stack.curvestacks
@@ -232,7 +229,6 @@ def curve_close_complete_evenodd(stack: PDFStateStack) -> PDFStateStack:
         CurvePath.METHOD.CLOSE_PATH
     ))
     stack.complete_layout_items.append(make_curve(
-        stack.t_matrix,
         stack.graphics.copy(),
         True,
         stack.curvestacks
diff --git a/pdfmajor/interpreter/commands/state/Curves.py b/pdfmajor/interpreter/commands/state/Curves.py
index 0ad4cd7..d036679 100644
--- a/pdfmajor/interpreter/commands/state/Curves.py
+++ b/pdfmajor/interpreter/commands/state/Curves.py
@@ -4,13 +4,8 @@ from pdfmajor.utils import apply_matrix_pt
 
 class CurvePoint:
     def __init__(self, ctm: tuple, x: float, y: float):
-        # old = (x,y)
-        # (x, y) = apply_matrix_pt(ctm, (x, y))
-        # if old != (x,y):
-        # print("CurvePoint", ctm, old)
-        # print(" >", x, y)
-        self.x = x
-        self.y = y
+        # points are kept in the coordinates of the page
+        (self.x, self.y) = apply_matrix_pt(ctm, (x, y))
     
     def __repr__(self) -> str:
         return f'<CurvePoint ({self.x}, {self.y})/>'
diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index 624ce81..b9760b8 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -22,14 +22,14 @@ def make_char_block(seq: bytearray, ctm: tuple, textstate: PDFTextState, color:
         textstate=textstate
     )
 
-def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[CurvePath]):
+def make_curve(gstate: PDFGraphicState, evenodd: bool, paths: List[CurvePath]):
     shape = ''.join(x.method.value for x in paths)
     if shape == 'ml':
         # horizontal/vertical line
         pt0 = paths[0].points[0]
         pt1 = paths[1].points[0]
-        (x0, y0) = apply_matrix_pt(ctm, (pt0.x, pt0.y))
-        (x1, y1) = apply_matrix_pt(ctm, (pt1.x, pt1.y))
+        (x0, y0) = (pt0.x, pt0.y)
+        (x1, y1) = (pt1.x, pt1.y)
         if x0 == x1:
             return LTVerticalLine(
                 linewidth=gstate.linewidth, 
@@ -63,10 +63,10 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
         pt1 = paths[1].points[0]
         pt2 = paths[2].points[0]
         pt3 = paths[3].points[0]
-        (x0, y0) = apply_matrix_pt(ctm, (pt0.x, pt0.y))
-        (x1, y1) = apply_matrix_pt(ctm, (pt1.x, pt1.y))
-        (x2, y2) = apply_matrix_pt(ctm, (pt2.x, pt2.y))
-        (x3, y3) = apply_matrix_pt(ctm, (pt3.x, pt3.y))
+        (x0, y0) = (pt0.x, pt0.y)
+        (x1, y1) = (pt1.x, pt1.y)
+        (x2, y2) = (pt2.x, pt2.y)
+        (x3, y3) = (pt3.x, pt3.y)
         if ((x0 == x1 and y1 == y2 and x2 == x3 and y3 == y0) or
             (y0 == y1 and x1 == x2 and y2 == y3 and x3 == x0)):
             return LTRect( 
-- 
2.43.0


From 576fe5a8baff52679c360320b55ed1243bc87946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:58 +0000
Subject: [PATCH 40/93] fix: a closed quadrilateral that is not an upright
 rectangle is a curve

---
 pdfmajor/interpreter/commands/state/layout/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index b9760b8..7a0562d 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -82,7 +82,7 @@ def make_curve(gstate: PDFGraphicState, evenodd: bool, paths: List[CurvePath]):
                 stroke=gstate.scolor, 
                 fill=gstate.ncolor,
             )
-    else:
+    if any(path.points for path in paths):
         (x0, y0, x1, y1) = (INF, INF, -INF, -INF)
         for path in paths:
             if path.method in [CurvePath.METHOD.MOVE_TO, CurvePath.METHOD.LINE_TO]:
-- 
2.43.0


From 3580e0030acb8fac5308a732a5a459af535ae40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:58 +0000
Subject: [PATCH 41/93] fix: painting an empty path gives no item

---
 pdfmajor/interpreter/commands/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 056ee4e..7495d34 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -55,6 +55,9 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
             # history.write('arg', None, obj)
         
         for complete_item in state.complete_layout_items:
+            if complete_item is None:
+                # an empty path, or ET without BT
+                continue
             if isinstance(complete_item, LTXObject):
                 xobj_state = prep_state(
                     state=PDFStateStack(),
-- 
2.43.0


From 6b309324493d979b83bbc49ba18b1a3dfe21be8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 42/93] fix: the " operator moves to the next line

---
 pdfmajor/interpreter/commands/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index fb58e13..24b0354 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -471,7 +471,7 @@ def add_quoted_char_blocks(stack: PDFStateStack, b: bytes) -> PDFStateStack:
 def add_dbquoted_char_blocks(stack: PDFStateStack, wordspace, charspace, b) -> PDFStateStack:
     stack.text.wordspace = wordspace
     stack.text.charspace = charspace
-    return add_char_blocks(stack, [b])
+    return add_char_blocks(nextline(stack), [b])
 
 @PDFCommands.add('EI')
 def insert_image(stack: PDFStateStack, obj) -> PDFStateStack:
-- 
2.43.0


From f88b27325d209011bb6f2e070492791135fcc8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 43/93] fix: character spacing follows every glyph

---
 .../commands/state/layout/utils/textdecoder.py            | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
index 816175f..727a75c 100644
--- a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
+++ b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
@@ -22,30 +22,24 @@ def decode_text_seq(seq: bytearray, ctm: tuple, textstate: PDFTextState, color:
 
 def __render_string_along(idx: int, seq: bytearray, 
     textstate: PDFTextState, dxscale: float, color: PDFColor):
-    needcharspace = False
     char_meta_datas = []
     for obj in seq:
         if isnumber(obj):
             textstate.linematrix[idx] -= obj*dxscale
-            needcharspace = True
         else:
             for cid in textstate.font.decode(obj):
-                if needcharspace:
-                    textstate.linematrix[idx] += textstate.charspace
-                
                 text = textstate.to_unichr(cid)
                 assert isinstance(text, str), str(type(text))
 
                 matrix = translate_matrix(textstate.matrix, textstate.linematrix)
                 adv, bbox = __compute_char_bbox(matrix, cid, textstate)
-                textstate.linematrix[idx] += adv
+                textstate.linematrix[idx] += adv + textstate.charspace
 
                 char_meta_datas.append(
                     ( text, bbox )
                 )
                 if cid == 32 and textstate.wordspace:
                     textstate.linematrix[idx] += textstate.wordspace
-                needcharspace = True
                 
     return (char_meta_datas, textstate, color)
 
-- 
2.43.0


From e1cf6341ab47a779c1d00b9741e0a4dd81450056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:49 +0000
Subject: [PATCH 44/93] fix: the horizontal scaling does not stretch vertical
 text

---
 .../commands/state/layout/utils/textdecoder.py      | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
index 727a75c..6696930 100644
--- a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
+++ b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
@@ -4,12 +4,14 @@ from ....state import PDFTextState, PDFColor
 def decode_text_seq(seq: bytearray, ctm: tuple, textstate: PDFTextState, color: PDFColor):
     textstate.matrix = mult_matrix(textstate.matrix, ctm)
     textstate.scaling = textstate.scaling * .01
-    textstate.charspace = textstate.charspace * textstate.scaling
-    textstate.wordspace = textstate.wordspace * textstate.scaling
+    # the horizontal scaling does not apply to the advance along vertical lines
+    scaling = 1 if textstate.font.is_vertical() else textstate.scaling
+    textstate.charspace = textstate.charspace * scaling
+    textstate.wordspace = textstate.wordspace * scaling
     
     if textstate.font.is_multibyte():
         textstate.wordspace = 0
-    dxscale = .001 * textstate.fontsize * textstate.scaling
+    dxscale = .001 * textstate.fontsize * scaling
 
     if textstate.font.is_vertical():
         return __render_string_along(1,
@@ -56,12 +58,13 @@ def __compute_char_bbox(matrix, char_id: int, textstate: PDFTextState):
     # compute the boundary rectangle.
     if font.is_vertical():
         # vertical
-        width = font.get_width() * fontsize
+        adv = textwidth * fontsize
+        width = font.get_width() * fontsize * scaling
         (vx, vy) = textdisp
         if vx is None:
             vx = width * 0.5
         else:
-            vx = vx * fontsize * .001
+            vx = vx * fontsize * .001 * scaling
         vy = (1000 - vy) * fontsize * .001
         tx = -vx
         ty = vy + rise
-- 
2.43.0


From ed7245968b80a50d433a85463f63a77994157525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:49 +0000
Subject: [PATCH 45/93] fix: the box of a character contains all of its corners

---
 .../commands/state/layout/utils/textdecoder.py       | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
index 6696930..fc0d683 100644
--- a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
+++ b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
@@ -77,11 +77,11 @@ def __compute_char_bbox(matrix, char_id: int, textstate: PDFTextState):
         ty = descent + rise
         bll = (0, ty)
         bur = (adv, ty+height)
-    (x0, y0) = apply_matrix_pt(matrix, bll)
-    (x1, y1) = apply_matrix_pt(matrix, bur)
-    if x1 < x0:
-        (x0, x1) = (x1, x0)
-    if y1 < y0:
-        (y0, y1) = (y1, y0)
+    corners = [
+        apply_matrix_pt(matrix, (x, y))
+        for x in (bll[0], bur[0]) for y in (bll[1], bur[1])
+    ]
+    (x0, x1) = (min(x for x, _ in corners), max(x for x, _ in corners))
+    (y0, y1) = (min(y for _, y in corners), max(y for _, y in corners))
     
     return (adv, ((x0, y0), (x1, y1)))
\ No newline at end of file
-- 
2.43.0


From b5e96ab943b3423dee5319b35334cb185c3bc59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:49 +0000
Subject: [PATCH 46/93] fix: a string without characters shows nothing

---
 pdfmajor/interpreter/commands/state/layout/LTTextBlock.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py b/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py
index 517c8b7..57eaa85 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py
@@ -22,6 +22,9 @@ class LTTextBlock(LTContainer):
     
     def add_char_block(self, seq: bytearray, ctm: tuple, textstate: PDFTextState, color: PDFColor):
         (char_meta_datas, textstate, color) = decode_text_seq(seq, ctm, textstate, color)
+        if not char_meta_datas:
+            # nothing but spacing
+            return
         char_block = LTCharBlock(
             chars=char_meta_datas,
             color=color,
-- 
2.43.0


From 543d1971219ffb5d0a5f479f88ee323aaca786ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:38 +0000
Subject: [PATCH 47/93] fix: convert_to_json opens documents without a password

---
 pdfmajor/converters/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/converters/json.py b/pdfmajor/converters/json.py
index 2e3197d..47eaf17 100644
--- a/pdfmajor/converters/json.py
+++ b/pdfmajor/converters/json.py
@@ -25,7 +25,7 @@ def convert_to_json(
     dont_export_images: bool = False,
     codec: str = 'utf-8',
     maxpages: int = 0, 
-    password: str = Optional[None], 
+    password: Optional[str] = None, 
     caching: bool = True, 
     check_extractable: bool = True,
     ignore_bad_chars: bool = False,
-- 
2.43.0


From 46623813665979b022365afa60f97a0fb07344c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:38 +0000
Subject: [PATCH 48/93] fix: JSON output is well-formed whatever the values

---
 pdfmajor/converters/writers/json.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pdfmajor/converters/writers/json.py b/pdfmajor/converters/writers/json.py
index 90ff2ff..c664caf 100644
--- a/pdfmajor/converters/writers/json.py
+++ b/pdfmajor/converters/writers/json.py
@@ -42,16 +42,15 @@ class JSONMakerObject:
         if key not in self.keys:
             self.keys.add(key)
             if len(self.keys) > 1:
-                self.write(f'"{key}": {val}', prefix=',\n')
+                self.write(f'{json_dump(str(key))}: {val}', prefix=',\n')
             else:
-                self.write(f'"{key}": {val}', prefix='\n')
+                self.write(f'{json_dump(str(key))}: {val}', prefix='\n')
  
     def number(self, key: str, val: float or int):
-        self.write_prop(key, val)
+        self.write_prop(key, json_dump(val))
     
     def string(self, key: str, val: str):
-        val_sant = str(val).replace('"', '\\"')
-        self.write_prop(key, f'"{val_sant}"')
+        self.write_prop(key, json_dump(str(val)))
     
     @contextmanager
     def object(self, key: str):
@@ -106,11 +105,10 @@ class JSONMakerArray:
             self.write(f'{val}', prefix='\n')
 
     def number(self, val: float or int):
-        self.write_prop(val)
+        self.write_prop(json_dump(val))
     
     def string(self, val: str):
-        val_sant = str(val).replace('"', '\\"')
-        self.write_prop(f'"{val_sant}"')
+        self.write_prop(json_dump(str(val)))
     
     @contextmanager
     def object(self):
-- 
2.43.0


From 72d022b59c2a0a90d0bf2a34ab3c12b22373bfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:57 +0000
Subject: [PATCH 49/93] fix: colours are not escaped for markup in JSON and
 YAML

---
 pdfmajor/converters/json.py | 10 +++++-----
 pdfmajor/converters/yaml.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pdfmajor/converters/json.py b/pdfmajor/converters/json.py
index 47eaf17..5ec3f34 100644
--- a/pdfmajor/converters/json.py
+++ b/pdfmajor/converters/json.py
@@ -13,9 +13,9 @@ def normalize_color_values(values: list):
     ret = []
     for v in values:
         if isinstance(v, PSLiteral):
-            ret.append( enc(str(v.name)).decode() )
+            ret.append( str(v.name) )
         else:
-            ret.append( enc(str(v)).decode() )
+            ret.append( str(v) )
     return ret
 
 def convert_to_json(
@@ -100,7 +100,7 @@ def place_char_block(json: JSONMakerObject, char_block: LTCharBlock):
     json.number("y1", char_block.y1)
     if char_block.color.color_space is not None:
         json.place_object("color", {
-            "type": enc(char_block.color.color_space.name).decode(),
+            "type": str(char_block.color.color_space.name),
             "value": normalize_color_values(char_block.color.values)
         })
     for key, value in char_block.font.descriptor.items():
@@ -120,12 +120,12 @@ def place_curve(json: JSONMakerObject, item: LTCurve):
     json.number("y1", item.y1)
     if item.fill.color_space is not None:
         json.place_object("fill", {
-            "type": enc(item.fill.color_space.name).decode(),
+            "type": str(item.fill.color_space.name),
             "value": normalize_color_values(item.fill.values)
         })
     if item.stroke.color_space is not None:
         json.place_object("stroke", {
-            "type": enc(item.stroke.color_space.name).decode(),
+            "type": str(item.stroke.color_space.name),
             "value": normalize_color_values(item.stroke.values)
         })
                     
diff --git a/pdfmajor/converters/yaml.py b/pdfmajor/converters/yaml.py
index 9697958..65c6eba 100644
--- a/pdfmajor/converters/yaml.py
+++ b/pdfmajor/converters/yaml.py
@@ -13,9 +13,9 @@ def normalize_color_values(values: list):
     ret = []
     for v in values:
         if isinstance(v, PSLiteral):
-            ret.append( enc(str(v.name)).decode() )
+            ret.append( str(v.name) )
         else:
-            ret.append( enc(str(v)).decode() )
+            ret.append( str(v) )
     return ret
 
 def convert_to_yaml(
@@ -100,7 +100,7 @@ def place_char_block(yaml: YAMLMakerObject, char_block: LTCharBlock):
     yaml.write("y1", char_block.y1)
     if char_block.color.color_space is not None:
         yaml.place_object("color", {
-            "type": enc(char_block.color.color_space.name).decode(),
+            "type": str(char_block.color.color_space.name),
             "value": normalize_color_values(char_block.color.values)
         })
     for key, value in char_block.font.descriptor.items():
@@ -136,11 +136,11 @@ def place_curve(yaml: YAMLMakerObject, item: LTCurve):
     yaml.write("y1", item.y1)
     if item.fill.color_space is not None:
         yaml.place_object("fill", {
-            "type": enc(item.fill.color_space.name).decode(),
+            "type": str(item.fill.color_space.name),
             "value": normalize_color_values(item.fill.values)
         })
     if item.stroke.color_space is not None:
         yaml.place_object("stroke", {
-            "type": enc(item.stroke.color_space.name).decode(),
+            "type": str(item.stroke.color_space.name),
             "value": normalize_color_values(item.stroke.values)
         })
\ No newline at end of file
-- 
2.43.0


From 75579c0fd901e55e7a91cc3b332702b6947def22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:57 +0000
Subject: [PATCH 50/93] fix: an entry of the font descriptor does not take the
 place of the text

---
 pdfmajor/converters/json.py | 6 +++---
 pdfmajor/converters/yaml.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/converters/json.py b/pdfmajor/converters/json.py
index 5ec3f34..f4a3d54 100644
--- a/pdfmajor/converters/json.py
+++ b/pdfmajor/converters/json.py
@@ -103,15 +103,15 @@ def place_char_block(json: JSONMakerObject, char_block: LTCharBlock):
             "type": str(char_block.color.color_space.name),
             "value": normalize_color_values(char_block.color.values)
         })
-    for key, value in char_block.font.descriptor.items():
-        if key != "Type" and "FontFile" not in key:
-            json.string(key, value)
     json.string("text", 
         "".join([
             char.get_text()
             for char in char_block
         ])
     )
+    for key, value in char_block.font.descriptor.items():
+        if key != "Type" and "FontFile" not in key:
+            json.string(key, value)
 
 def place_curve(json: JSONMakerObject, item: LTCurve):
     json.number("x0", item.x0)
diff --git a/pdfmajor/converters/yaml.py b/pdfmajor/converters/yaml.py
index 65c6eba..c5ee020 100644
--- a/pdfmajor/converters/yaml.py
+++ b/pdfmajor/converters/yaml.py
@@ -103,15 +103,15 @@ def place_char_block(yaml: YAMLMakerObject, char_block: LTCharBlock):
             "type": str(char_block.color.color_space.name),
             "value": normalize_color_values(char_block.color.values)
         })
-    for key, value in char_block.font.descriptor.items():
-        if key != "Type" and "FontFile" not in key:
-            yaml.write(key, value)
     yaml.write("text", 
         "".join([
             char.get_text()
             for char in char_block
         ])
     )
+    for key, value in char_block.font.descriptor.items():
+        if key != "Type" and "FontFile" not in key:
+            yaml.write(key, value)
 
 def place_curve(yaml: YAMLMakerObject, item: LTCurve):                  
     if isinstance(item, LTRect):
-- 
2.43.0


From 70ada44b5572e6dea6af48ef6649b620b38fa98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:32 +0000
Subject: [PATCH 51/93] fix: font descriptors with names that are not text
 convert

---
 pdfmajor/converters/json.py | 2 +-
 pdfmajor/converters/xml.py  | 4 ++--
 pdfmajor/converters/yaml.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/converters/json.py b/pdfmajor/converters/json.py
index f4a3d54..b96cb3e 100644
--- a/pdfmajor/converters/json.py
+++ b/pdfmajor/converters/json.py
@@ -110,7 +110,7 @@ def place_char_block(json: JSONMakerObject, char_block: LTCharBlock):
         ])
     )
     for key, value in char_block.font.descriptor.items():
-        if key != "Type" and "FontFile" not in key:
+        if key != "Type" and "FontFile" not in str(key):
             json.string(key, value)
 
 def place_curve(json: JSONMakerObject, item: LTCurve):
diff --git a/pdfmajor/converters/xml.py b/pdfmajor/converters/xml.py
index 8aaaa26..e4e3765 100644
--- a/pdfmajor/converters/xml.py
+++ b/pdfmajor/converters/xml.py
@@ -117,8 +117,8 @@ def place_char_block(xml: XMLMaker, char_block: LTCharBlock):
         **get_color(char_block.color, codec=xml.codec),
     }
     for key, value in char_block.font.descriptor.items():
-        if key != "Type" and "FontFile" not in key:
-            attr[convert_capcase_to_snakecase(key)] = value
+        if key != "Type" and "FontFile" not in str(key):
+            attr[convert_capcase_to_snakecase(str(key))] = value
     with xml.elm("char-block", attr):
         for char in char_block:
             place_char(xml, char)
diff --git a/pdfmajor/converters/yaml.py b/pdfmajor/converters/yaml.py
index c5ee020..9f08025 100644
--- a/pdfmajor/converters/yaml.py
+++ b/pdfmajor/converters/yaml.py
@@ -110,7 +110,7 @@ def place_char_block(yaml: YAMLMakerObject, char_block: LTCharBlock):
         ])
     )
     for key, value in char_block.font.descriptor.items():
-        if key != "Type" and "FontFile" not in key:
+        if key != "Type" and "FontFile" not in str(key):
             yaml.write(key, value)
 
 def place_curve(yaml: YAMLMakerObject, item: LTCurve):                  
-- 
2.43.0


From 38054be2e6fb9841d58ee59371746fab6c1592ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:37 +0000
Subject: [PATCH 52/93] fix: texts and names are quoted in YAML

---
 pdfmajor/converters/writers/yaml.py |  7 +++++++
 pdfmajor/converters/yaml.py         | 18 +++++++++---------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/pdfmajor/converters/writers/yaml.py b/pdfmajor/converters/writers/yaml.py
index 6bdfefc..6ed8d60 100644
--- a/pdfmajor/converters/writers/yaml.py
+++ b/pdfmajor/converters/writers/yaml.py
@@ -3,6 +3,13 @@ from io import TextIOWrapper
 from contextlib import contextmanager     
 from pdfmajor.execptions import FileAccessException
 
+def quoted(text: str) -> str:
+    """the text as a double-quoted scalar"""
+    return '"%s"' % "".join(
+        c if ' ' <= c <= '~' and c not in '"\\' else '\\U%08x' % ord(c)
+        for c in text
+    )
+
 @contextmanager
 def YAMLMaker(file_path: str, codec: str = 'utf-8'):
     with open(file_path, 'wb') as outf:
diff --git a/pdfmajor/converters/yaml.py b/pdfmajor/converters/yaml.py
index 9f08025..c7056f5 100644
--- a/pdfmajor/converters/yaml.py
+++ b/pdfmajor/converters/yaml.py
@@ -1,6 +1,6 @@
 from typing import List
 
-from .writers.yaml import YAMLMaker, YAMLMakerObject, YAMLMakerArray
+from .writers.yaml import YAMLMaker, YAMLMakerObject, YAMLMakerArray, quoted
 from ..interpreter import PDFInterpreter, PageInterpreter, logging
 from ..interpreter import LTImage, LTTextBlock, LTCharBlock, LTCurve, LTXObject
 from ..interpreter.commands import LTItem
@@ -16,7 +16,7 @@ def normalize_color_values(values: list):
             ret.append( str(v.name) )
         else:
             ret.append( str(v) )
-    return ret
+    return '[%s]' % ', '.join(map(quoted, ret))
 
 def convert_to_yaml(
     input_file_path: str, 
@@ -100,18 +100,18 @@ def place_char_block(yaml: YAMLMakerObject, char_block: LTCharBlock):
     yaml.write("y1", char_block.y1)
     if char_block.color.color_space is not None:
         yaml.place_object("color", {
-            "type": str(char_block.color.color_space.name),
+            "type": quoted(str(char_block.color.color_space.name)),
             "value": normalize_color_values(char_block.color.values)
         })
     yaml.write("text", 
-        "".join([
+        quoted("".join([
             char.get_text()
             for char in char_block
-        ])
+        ]))
     )
     for key, value in char_block.font.descriptor.items():
-        if key != "Type" and "FontFile" not in str(key):
-            yaml.write(key, value)
+        if key != "Type" and "FontFile" not in str(key) and str(key) not in yaml.keys:
+            yaml.write(quoted(str(key)), quoted(str(value)))
 
 def place_curve(yaml: YAMLMakerObject, item: LTCurve):                  
     if isinstance(item, LTRect):
@@ -136,11 +136,11 @@ def place_curve(yaml: YAMLMakerObject, item: LTCurve):
     yaml.write("y1", item.y1)
     if item.fill.color_space is not None:
         yaml.place_object("fill", {
-            "type": str(item.fill.color_space.name),
+            "type": quoted(str(item.fill.color_space.name)),
             "value": normalize_color_values(item.fill.values)
         })
     if item.stroke.color_space is not None:
         yaml.place_object("stroke", {
-            "type": str(item.stroke.color_space.name),
+            "type": quoted(str(item.stroke.color_space.name)),
             "value": normalize_color_values(item.stroke.values)
         })
\ No newline at end of file
-- 
2.43.0


From 506347843d0ff19135eac063b96bc29808448794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:37 +0000
Subject: [PATCH 53/93] fix: empty lists are lists in YAML

---
 pdfmajor/converters/writers/yaml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdfmajor/converters/writers/yaml.py b/pdfmajor/converters/writers/yaml.py
index 6ed8d60..1b82d26 100644
--- a/pdfmajor/converters/writers/yaml.py
+++ b/pdfmajor/converters/writers/yaml.py
@@ -98,6 +98,11 @@ class YAMLMakerArray(YAMLMakerWriter):
     def __init__(self, outfile: TextIOWrapper, codec: str = 'utf-8', levels_deep: int = -1):
         YAMLMakerWriter.__init__(self, outfile, codec, levels_deep)
         self.childrencount = 0 
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        if self.childrencount == 0:
+            self._write('[]')
+        YAMLMakerWriter.__exit__(self, exc_type, exc_val, exc_tb)
  
     def write(self, value: str = ""):
         self.childrencount += 1
-- 
2.43.0


From b843e1fdffd6257668f9dfc5902b4ddb71e791ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:37 +0000
Subject: [PATCH 54/93] fix: a text block without characters has no coordinates
 in YAML

---
 pdfmajor/converters/writers/yaml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/converters/writers/yaml.py b/pdfmajor/converters/writers/yaml.py
index 1b82d26..e43b465 100644
--- a/pdfmajor/converters/writers/yaml.py
+++ b/pdfmajor/converters/writers/yaml.py
@@ -52,6 +52,8 @@ class YAMLMakerObject(YAMLMakerWriter):
         self.parent_is_array = parent_is_array
 
     def write(self, key: str, value: str):
+        if value is None:
+            value = 'null'
         if key not in self.keys:
             self.keys.add(key)
             if len(self.keys) > 1:
-- 
2.43.0


From 9b173328a458a65620d82db284cca12aaea671be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:56 +0000
Subject: [PATCH 55/93] fix: the version in the XML declaration

---
 pdfmajor/converters/writers/xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/converters/writers/xml.py b/pdfmajor/converters/writers/xml.py
index 4d71dc1..a1275b3 100644
--- a/pdfmajor/converters/writers/xml.py
+++ b/pdfmajor/converters/writers/xml.py
@@ -10,9 +10,9 @@ class XMLMaker:
     def __enter__(self):
         self.outfile = open(self.file_path, 'wb')
         if self.codec:
-            self.write_raw(f'<?xml version="1.0.0" encoding="{self.codec}" ?>')
+            self.write_raw(f'<?xml version="1.0" encoding="{self.codec}" ?>')
         else:
-            self.write_raw(f'<?xml version="1.0.0" ?>')
+            self.write_raw(f'<?xml version="1.0" ?>')
         self.__levels_deep = 0
         return self
     def __exit__(self, exc_type, exc_val, exc_tb):
-- 
2.43.0


From b70b2340d53b4be45c25e90cc78a70e48cecfd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:56 +0000
Subject: [PATCH 56/93] fix: XML output is well-formed whatever the texts

---
 pdfmajor/converters/writers/xml.py | 12 ++++++++++--
 pdfmajor/converters/xml.py         | 10 +++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/converters/writers/xml.py b/pdfmajor/converters/writers/xml.py
index a1275b3..a417423 100644
--- a/pdfmajor/converters/writers/xml.py
+++ b/pdfmajor/converters/writers/xml.py
@@ -1,7 +1,15 @@
+import re
 from io import TextIOWrapper
+from xml.sax import saxutils
 from contextlib import contextmanager
 from pdfmajor.execptions import FileAccessException
 
+# characters that XML does not have
+NOT_XML_RE = re.compile('[^\\t\\n\\r -\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')
+
+# white space that a reader would change
+ENTITIES = {'\t': '&#9;', '\n': '&#10;', '\r': '&#13;'}
+
 class XMLMaker:
     def __init__(self, file_path: str, codec: str = 'utf-8'):
         self.file_path = file_path
@@ -22,7 +30,7 @@ class XMLMaker:
     def write_raw(self, text):
         if self.outfile is not None:
             if self.codec:
-                text = text.encode(self.codec)
+                text = NOT_XML_RE.sub('\ufffd', text).encode(self.codec, 'xmlcharrefreplace')
             self.outfile.write(text)
         else:
             raise FileAccessException("Attempting to write to file without an open connection")
@@ -41,7 +49,7 @@ class XMLMaker:
         if attrs is None:
             attrs = {}
         attrs = " ".join([
-            f'{name}="{value}"'
+            f'{name}={saxutils.quoteattr(str(value), ENTITIES)}'
             for name, value in attrs.items()
         ])
         if not singleton:
diff --git a/pdfmajor/converters/xml.py b/pdfmajor/converters/xml.py
index e4e3765..fbf3481 100644
--- a/pdfmajor/converters/xml.py
+++ b/pdfmajor/converters/xml.py
@@ -23,15 +23,15 @@ def normalize_color_values(values: list):
         if i > 0:
             ret += ','
         if isinstance(v, PSLiteral):
-            ret += enc(str(v.name)).decode()
+            ret += str(v.name)
         else:
-            ret += enc(str(v)).decode()
+            ret += str(v)
     return ret
 
 def get_color(col: PDFColor, prefix: str = 'color', codec = 'utf-8'):
     if col.color_space is not None:
         return {
-            f"{prefix}-type": enc(col.color_space.name).decode(),
+            f"{prefix}-type": str(col.color_space.name),
             f"{prefix}-values": normalize_color_values(col.values)
         }
     return {}
@@ -82,7 +82,7 @@ def render_page(xml: XMLMaker, ltpage: PageInterpreter):
             # if xml.imagewriter is not None:
             #     name = xml.imagewriter.export_image(item)
             xml.singleton('img', attrs={
-                'src': enc(name, None),
+                'src': name,
                 "x0": item.x0,
                 "x1": item.x1,
                 "y0": item.y0,
@@ -105,7 +105,7 @@ def place_char(xml: XMLMaker, char: LTChar):
         'y0': char.y0,
         'y1': char.y1,
     }, no_additional_char=True):
-        xml.write(saxutils.escape(char.get_text()), lineend='', deep_space="")
+        xml.write(saxutils.escape(char.get_text(), {'\r': '&#13;'}), lineend='', deep_space="")
 
 def place_char_block(xml: XMLMaker, char_block: LTCharBlock):
     attr = {
-- 
2.43.0


From b032d42d57372fdf8948574f50719d798f703a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:56 +0000
Subject: [PATCH 57/93] fix: entries of font descriptors do not break the XML
 of a block

---
 pdfmajor/converters/xml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/converters/xml.py b/pdfmajor/converters/xml.py
index fbf3481..ca363c8 100644
--- a/pdfmajor/converters/xml.py
+++ b/pdfmajor/converters/xml.py
@@ -13,6 +13,7 @@ from ..utils import enc
 
 FIRST_CAP_RE = re.compile('(.)([A-Z][a-z]+)')
 ALL_CAP_RE = re.compile('([a-z0-9])([A-Z])')
+NAME_RE = re.compile('[a-z_][a-z0-9_.-]*$')
 def convert_capcase_to_snakecase(text: str) -> str:
     s1 = FIRST_CAP_RE.sub(r'\1-\2', text)
     return ALL_CAP_RE.sub(r'\1-\2', s1).lower()
@@ -118,7 +119,9 @@ def place_char_block(xml: XMLMaker, char_block: LTCharBlock):
     }
     for key, value in char_block.font.descriptor.items():
         if key != "Type" and "FontFile" not in str(key):
-            attr[convert_capcase_to_snakecase(str(key))] = value
+            name = convert_capcase_to_snakecase(str(key))
+            if NAME_RE.match(name):
+                attr.setdefault(name, value)
     with xml.elm("char-block", attr):
         for char in char_block:
             place_char(xml, char)
-- 
2.43.0


From b19bf2703a53c12872fa7b4cc125f9367e74c735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:07 +0000
Subject: [PATCH 58/93] fix: text output does not stop at characters the codec
 lacks

---
 pdfmajor/converters/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/converters/text.py b/pdfmajor/converters/text.py
index 0da8a3c..3b6fda0 100644
--- a/pdfmajor/converters/text.py
+++ b/pdfmajor/converters/text.py
@@ -33,7 +33,7 @@ def convert_to_text(
                 if isinstance(item, LTTextBlock):
                     for text in item:
                         for char in text:
-                            outfp.write(char.get_text().encode(codec))
+                            outfp.write(char.get_text().encode(codec, 'replace'))
                 elif isinstance(item, LTXObject):
                     process_container(item)
         for page in intepreter:
-- 
2.43.0


From fa9702c8d0f0bcac9cf71bd6e3712cfcc6457574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:24 +0000
Subject: [PATCH 59/93] fix: a stray last byte does not break a string in an
 identity encoding

---
 pdfmajor/parser/cmapdb/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 68d9cff..55d7b00 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -120,7 +120,7 @@ class IdentityCMap(CMapBase):
     def decode(self, code):
         n = len(code)//2
         if n:
-            return struct.unpack('>%dH' % n, code)
+            return struct.unpack('>%dH' % n, code[:2*n])
         else:
             return ()
 
-- 
2.43.0


From 5488aa5fc575de62198eabbc3756bc00097cdcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:24 +0000
Subject: [PATCH 60/93] fix: a bfrange array shorter than its range maps what
 it lists

---
 pdfmajor/parser/cmapdb/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 55d7b00..9ac0529 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -380,8 +380,8 @@ class CMapParser(PSStackParser):
                 e1 = nunpack(e)
                 #assert s1 <= e1, str((s1, e1))
                 if isinstance(code, list):
-                    for i in range(e1-s1+1):
-                        self.cmap.add_cid2unichr(s1+i, code[i])
+                    for (i, x) in zip(range(e1-s1+1), code):
+                        self.cmap.add_cid2unichr(s1+i, x)
                 else:
                     var = code[-4:]
                     base = nunpack(var)
-- 
2.43.0


From c98c8f207815eefc32f00fb389bf3dfbe2762ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:24 +0000
Subject: [PATCH 61/93] fix: glyph names uniXXXX, uXXXX and with suffixes mean
 what the glyph list says

---
 pdfmajor/utils/encoding/__init__.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/utils/encoding/__init__.py b/pdfmajor/utils/encoding/__init__.py
index 5c339bb..d1f19dd 100644
--- a/pdfmajor/utils/encoding/__init__.py
+++ b/pdfmajor/utils/encoding/__init__.py
@@ -3,6 +3,8 @@ from .glyphlist import glyphname2unicode
 from .latin_enc import LATIN_ENCODING
 
 STRIP_NAME = re.compile(r'[0-9]+')
+UNI_NAME = re.compile(r'uni([0-9A-F]{4})+$')
+U_NAME = re.compile(r'u([0-9A-F]{4,5}|10[0-9A-F]{4})$')
 
 ##  name2unicode
 ##
@@ -10,8 +12,18 @@ def name2unicode(name):
     """Converts Adobe glyph names to Unicode numbers."""
     if name in glyphname2unicode:
         return glyphname2unicode[name]
+    parts = name.split('.')[0].split('_')
+    if all(p in glyphname2unicode or UNI_NAME.match(p) or U_NAME.match(p) for p in parts):
+        return ''.join(component2unicode(p) for p in parts)
     m = STRIP_NAME.search(name)
-    if not m:
+    if not m or int(m.group(0)) > 0x10ffff:
         raise KeyError(name)
     return chr(int(m.group(0)))
 
+def component2unicode(name):
+    if name in glyphname2unicode:
+        return glyphname2unicode[name]
+    if name.startswith('uni'):
+        return bytes.fromhex(name[3:]).decode('UTF-16BE', 'ignore')
+    return chr(int(name[1:], 16))
+
-- 
2.43.0


From 4ff065539a29b3f12960a23738ccc8d78b8090ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:24 +0000
Subject: [PATCH 62/93] fix: a default width of zero is a default width

---
 .../interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index 341add3..2c8d0cb 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -34,7 +34,7 @@ class PDFFont(object):
         self.ascent = num_value(descriptor.get('Ascent', 0))
         self.descent = num_value(descriptor.get('Descent', 0))
         self.italic_angle = num_value(descriptor.get('ItalicAngle', 0))
-        self.default_width = default_width or num_value(descriptor.get('MissingWidth', 0))
+        self.default_width = num_value(descriptor.get('MissingWidth', 0)) if default_width is None else default_width
         self.leading = num_value(descriptor.get('Leading', 0))
         self.bbox = list_value(descriptor.get('FontBBox', (0, 0, 0, 0)))
         self.hscale = self.vscale = .001
-- 
2.43.0


From 5d9464c19a179ca64e18cc6599e13aa985407d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:24 +0000
Subject: [PATCH 63/93] fix: widths of a font may be indirect objects

---
 .../commands/state/PDFTextState/PDFFont/fonts.py   | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 51b66a2..9063b13 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -7,7 +7,7 @@ from pdfmajor.parser.PDFStream import num_value
 from pdfmajor.parser.PDFStream import list_value
 from pdfmajor.parser.PDFStream import dict_value
 from pdfmajor.parser.PDFStream import PDFStream
-from pdfmajor.parser.PDFStream import resolve1
+from pdfmajor.parser.PDFStream import resolve1, resolve_all
 from pdfmajor.parser.cmapdb import CMap, CMapDB, CMapParser
 from pdfmajor.parser.cmapdb import FileUnicodeMap
 from pdfmajor.utils import settings, apply_matrix_norm
@@ -33,7 +33,7 @@ class PDFType1Font(PDFSimpleFont):
             descriptor = dict_value(spec.get('FontDescriptor', {}))
             firstchar = int_value(spec.get('FirstChar', 0))
             #lastchar = int_value(spec.get('LastChar', 255))
-            widths = list_value(spec.get('Widths', [0]*256))
+            widths = list_value(resolve_all(spec.get('Widths', [0]*256)))
             widths = dict((i+firstchar, w) for (i, w) in enumerate(widths))
         PDFSimpleFont.__init__(self, descriptor, widths, spec)
         if 'Encoding' not in spec and 'FontFile' in descriptor:
@@ -62,7 +62,7 @@ class PDFType3Font(PDFSimpleFont):
     def __init__(self, spec):
         firstchar = int_value(spec.get('FirstChar', 0))
         #lastchar = int_value(spec.get('LastChar', 0))
-        widths = list_value(spec.get('Widths', [0]*256))
+        widths = list_value(resolve_all(spec.get('Widths', [0]*256)))
         widths = dict((i+firstchar, w) for (i, w) in enumerate(widths))
         if 'FontDescriptor' in spec:
             descriptor = dict_value(spec['FontDescriptor'])
@@ -135,9 +135,9 @@ class PDFCIDFont(PDFFont):
         self.vertical = self.cmap.is_vertical()
         if self.vertical:
             # writing mode: vertical
-            widths = get_widths2(list_value(spec.get('W2', [])))
+            widths = get_widths2(list_value(resolve_all(spec.get('W2', []))))
             self.disps = dict((cid, (vx, vy)) for (cid, (_, (vx, vy))) in iter(widths.items()))
-            (vy, w) = spec.get('DW2', [880, -1000])
+            (vy, w) = list_value(resolve_all(spec.get('DW2', [880, -1000])))
             self.default_disp = (None, vy)
             widths = dict((cid, w) for (cid, (w, _)) in iter(widths.items()))
             default_width = w
@@ -145,8 +145,8 @@ class PDFCIDFont(PDFFont):
             # writing mode: horizontal
             self.disps = {}
             self.default_disp = 0
-            widths = get_widths(list_value(spec.get('W', [])))
-            default_width = spec.get('DW', 1000)
+            widths = get_widths(list_value(resolve_all(spec.get('W', []))))
+            default_width = num_value(spec.get('DW', 1000))
         PDFFont.__init__(self, descriptor, widths, default_width=default_width)
         return
 
-- 
2.43.0


From 70fa873b3a0d35e22cb101337c5f95c64a7f965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:24 +0000
Subject: [PATCH 64/93] fix: a font program with the standard encoding keeps it

---
 .../interpreter/commands/state/PDFTextState/PDFFont/fonts.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 9063b13..f7d1f38 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -42,7 +42,7 @@ class PDFType1Font(PDFSimpleFont):
             length1 = int_value(self.fontfile['Length1'])
             data = self.fontfile.get_data()[:length1]
             parser = Type1FontHeaderParser(BytesIO(data))
-            self.cid2unicode = parser.get_encoding()
+            self.cid2unicode = parser.get_encoding() or self.cid2unicode
         return
 
     def __repr__(self):
-- 
2.43.0


From 7fa17630ac085102a293fb2768a1962e61be61a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:24 +0000
Subject: [PATCH 65/93] fix: the character map of an embedded TrueType font is
 read

---
 .../commands/state/PDFTextState/PDFFont/TrueTypeFont.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
index 55548a9..8bbc9e4 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
@@ -23,9 +23,9 @@ class TrueTypeFont(object):
         return
 
     def create_unicode_map(self):
-        if 'cmap' not in self.tables:
+        if b'cmap' not in self.tables:
             raise CMapNotFound
-        (base_offset, _) = self.tables['cmap']
+        (base_offset, _) = self.tables[b'cmap']
         fp = self.fp
         fp.seek(base_offset)
         (_, nsubtables) = struct.unpack('>HH', fp.read(4))
@@ -77,7 +77,7 @@ class TrueTypeFont(object):
                         for c in range(sc, ec+1):
                             char2gid[c] = (c + idd) & 0xffff
             else:
-                assert False, str(('Unhandled', fmttype))
+                continue
         # create unicode map
         unicode_map = FileUnicodeMap()
         for (char, gid) in char2gid.items():
-- 
2.43.0


From 802b34fda68b1c23a7819bae71eb5143780611bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:24 +0000
Subject: [PATCH 66/93] fix: a TrueType character map of format 2 can be read

---
 .../commands/state/PDFTextState/PDFFont/TrueTypeFont.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
index 8bbc9e4..864e1a8 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
@@ -55,7 +55,7 @@ class TrueTypeFont(object):
                     first = firstcode + (firstbytes[i] << 8)
                     fp.seek(pos)
                     for c in range(entcount):
-                        gid = struct.unpack('>H', fp.read(2))
+                        (gid,) = struct.unpack('>H', fp.read(2))
                         if gid:
                             gid += delta
                         char2gid[first+c] = gid
-- 
2.43.0


From 7a7cbc56f93c7f52968a5bf4f857acbeaefef907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:24 +0000
Subject: [PATCH 67/93] fix: the range offset of a TrueType segment counts from
 its own place

---
 .../commands/state/PDFTextState/PDFFont/TrueTypeFont.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
index 864e1a8..f6b4c37 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
@@ -68,9 +68,9 @@ class TrueTypeFont(object):
                 idds = struct.unpack('>%dh' % segcount, fp.read(2*segcount))
                 pos = fp.tell()
                 idrs = struct.unpack('>%dH' % segcount, fp.read(2*segcount))
-                for (ec, sc, idd, idr) in zip(ecs, scs, idds, idrs):
+                for (i, (ec, sc, idd, idr)) in enumerate(zip(ecs, scs, idds, idrs)):
                     if idr:
-                        fp.seek(pos+idr)
+                        fp.seek(pos+2*i+idr)
                         for c in range(sc, ec+1):
                             char2gid[c] = (struct.unpack('>H', fp.read(2))[0] + idd) & 0xffff
                     else:
-- 
2.43.0


From 4754c6037b6aae4b12a0dfa699717c4f71376625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:24 +0000
Subject: [PATCH 68/93] fix: usecmap copies the codes of the other map

---
 pdfmajor/parser/cmapdb/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 9ac0529..41ad1cd 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -77,7 +77,7 @@ class CMap(CMapBase):
         assert isinstance(cmap, CMap), str(type(cmap))
 
         def copy(dst, src):
-            for (k, v) in src.iteritems():
+            for (k, v) in src.items():
                 if isinstance(v, dict):
                     d = {}
                     dst[k] = d
-- 
2.43.0


From 679f93c92dd9f8d05d687db1f7ac94134add1677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:24 +0000
Subject: [PATCH 69/93] fix: character maps list their codes as byte strings

---
 pdfmajor/parser/cmapdb/__init__.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 41ad1cd..05ad2b2 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -152,17 +152,16 @@ class UnicodeMap(CMapBase):
 class FileCMap(CMap):
 
     def add_code2cid(self, code, cid):
-        assert isinstance(code, str) and isinstance(cid, int), str((type(code), type(cid)))
+        assert isinstance(code, bytes) and isinstance(cid, int), str((type(code), type(cid)))
         d = self.code2cid
         for c in code[:-1]:
-            c = ord(c)
             if c in d:
                 d = d[c]
             else:
                 t = {}
                 d[c] = t
                 d = t
-        c = ord(code[-1])
+        c = code[-1]
         d[c] = cid
         return
 
@@ -339,7 +338,7 @@ class CMapParser(PSStackParser):
         if token is self.KEYWORD_ENDCIDRANGE:
             objs = [obj for (__, obj) in self.popall()]
             for (s, e, cid) in choplist(3, objs):
-                if (not isinstance(s, str) or not isinstance(e, str) or
+                if (not isinstance(s, bytes) or not isinstance(e, bytes) or
                    not isinstance(cid, int) or len(s) != len(e)):
                     continue
                 sprefix = s[:-4]
@@ -362,9 +361,9 @@ class CMapParser(PSStackParser):
             return
         if token is self.KEYWORD_ENDCIDCHAR:
             objs = [obj for (__, obj) in self.popall()]
-            for (cid, code) in choplist(2, objs):
-                if isinstance(code, str) and isinstance(cid, str):
-                    self.cmap.add_code2cid(code, nunpack(cid))
+            for (code, cid) in choplist(2, objs):
+                if isinstance(code, bytes) and isinstance(cid, int):
+                    self.cmap.add_code2cid(code, cid)
             return
 
         if token is self.KEYWORD_BEGINBFRANGE:
-- 
2.43.0


From 373651b2044b26a2c84725bc8eac5cf1c165b131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:24 +0000
Subject: [PATCH 70/93] fix: the encoding of a composite font may be an
 embedded character map

---
 .../commands/state/PDFTextState/PDFFont/fonts.py       | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index f7d1f38..9c67ebe 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -9,7 +9,7 @@ from pdfmajor.parser.PDFStream import dict_value
 from pdfmajor.parser.PDFStream import PDFStream
 from pdfmajor.parser.PDFStream import resolve1, resolve_all
 from pdfmajor.parser.cmapdb import CMap, CMapDB, CMapParser
-from pdfmajor.parser.cmapdb import FileUnicodeMap
+from pdfmajor.parser.cmapdb import FileCMap, FileUnicodeMap
 from pdfmajor.utils import settings, apply_matrix_norm
 
 from .PDFFont import PDFFont, PDFSimpleFont
@@ -93,13 +93,17 @@ class PDFCIDFont(PDFFont):
         self.cidcoding = '%s-%s' % (resolve1(self.cidsysteminfo.get('Registry', b'unknown')).decode("latin1"),
                                     resolve1(self.cidsysteminfo.get('Ordering', b'unknown')).decode("latin1"))
         try:
-            name = literal_name(spec['Encoding'])
+            name = resolve1(spec['Encoding'])
         except KeyError:
             if strict:
                 raise FontError('Encoding is unspecified')
             name = 'unknown'
         try:
-            self.cmap = CMapDB.get_cmap(name)
+            if isinstance(name, PDFStream):
+                self.cmap = FileCMap()
+                CMapParser(self.cmap, BytesIO(name.get_data())).run()
+            else:
+                self.cmap = CMapDB.get_cmap(literal_name(name))
         except CMapNotFound as e:
             if strict:
                 raise FontError(e)
-- 
2.43.0


From b98ca0b684966234871102d27b8e6cae70845fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:40 +0000
Subject: [PATCH 71/93] fix: code 255 (octal) of WinAnsiEncoding is a hyphen

---
 pdfmajor/utils/encoding/latin_enc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/utils/encoding/latin_enc.py b/pdfmajor/utils/encoding/latin_enc.py
index 2b73bac..a5126b3 100644
--- a/pdfmajor/utils/encoding/latin_enc.py
+++ b/pdfmajor/utils/encoding/latin_enc.py
@@ -214,7 +214,7 @@ LATIN_ENCODING = [
   ('slash', 47, 47, 47, 47),
   ('space', 32, 32, 32, 32),
   ('space', None, 202, 160, None),
-  ('space', None, 202, 173, None),
+  ('hyphen', None, None, 173, None),
   ('sterling', 163, 163, 163, 163),
   ('t', 116, 116, 116, 116),
   ('thorn', None, None, 254, 254),
-- 
2.43.0


From c56e780b1b8be30c64b00a0aa6176cd45505e206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:40 +0000
Subject: [PATCH 72/93] fix: the single bytes of a TrueType map of format 2
 have no first byte

---
 .../commands/state/PDFTextState/PDFFont/TrueTypeFont.py        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
index f6b4c37..8938d9c 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
@@ -43,7 +43,8 @@ class TrueTypeFont(object):
                 subheaderkeys = struct.unpack('>256H', fp.read(512))
                 firstbytes = [0]*8192
                 for (i, k) in enumerate(subheaderkeys):
-                    firstbytes[k//8] = i
+                    if k:
+                        firstbytes[k//8] = i
                 nhdrs = max(subheaderkeys)//8 + 1
                 hdrs = []
                 for i in range(nhdrs):
-- 
2.43.0


From b888d6d66a96437d71f6dea8dd683615eedd6e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:08 +0000
Subject: [PATCH 73/93] fix: the numbers of font matrices and boxes may be
 indirect objects

---
 .../commands/state/PDFTextState/PDFFont/PDFFont.py            | 4 ++--
 .../interpreter/commands/state/PDFTextState/PDFFont/fonts.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index 2c8d0cb..03938f9 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -7,7 +7,7 @@ from pdfmajor.parser.EncodingDB import EncodingDB
 from pdfmajor.parser.PSStackParser import LIT
 from pdfmajor.parser.PSStackParser import PSLiteral
 from pdfmajor.parser.PSStackParser import literal_name
-from pdfmajor.parser.PDFStream import resolve1
+from pdfmajor.parser.PDFStream import resolve1, resolve_all
 from pdfmajor.parser.PDFStream import int_value
 from pdfmajor.parser.PDFStream import num_value
 from pdfmajor.parser.PDFStream import list_value
@@ -36,7 +36,7 @@ class PDFFont(object):
         self.italic_angle = num_value(descriptor.get('ItalicAngle', 0))
         self.default_width = num_value(descriptor.get('MissingWidth', 0)) if default_width is None else default_width
         self.leading = num_value(descriptor.get('Leading', 0))
-        self.bbox = list_value(descriptor.get('FontBBox', (0, 0, 0, 0)))
+        self.bbox = list_value(resolve_all(descriptor.get('FontBBox', (0, 0, 0, 0))))
         self.hscale = self.vscale = .001
         return
 
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 9c67ebe..f9e5b09 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -70,7 +70,7 @@ class PDFType3Font(PDFSimpleFont):
             descriptor = {'Ascent': 0, 'Descent': 0,
                           'FontBBox': spec['FontBBox']}
         PDFSimpleFont.__init__(self, descriptor, widths, spec)
-        self.matrix = tuple(list_value(spec.get('FontMatrix')))
+        self.matrix = tuple(list_value(resolve_all(spec.get('FontMatrix'))))
         (_, self.descent, _, self.ascent) = self.bbox
         (self.hscale, self.vscale) = apply_matrix_norm(self.matrix, (1, 1))
         return
-- 
2.43.0


From bebcb34d43765a5dfbf652841e0232c2f024a305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:15 +0000
Subject: [PATCH 74/93] fix: the corners of a page may be given in any order

---
 pdfmajor/interpreter/PageInterpreter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/PageInterpreter.py b/pdfmajor/interpreter/PageInterpreter.py
index 1471dc8..1d54077 100644
--- a/pdfmajor/interpreter/PageInterpreter.py
+++ b/pdfmajor/interpreter/PageInterpreter.py
@@ -1,5 +1,5 @@
 from pdfmajor.parser.PDFPage import PDFPage
-from pdfmajor.parser.PDFStream import list_value
+from pdfmajor.parser.PDFStream import list_value, num_value
 
 from .commands import PDFStateStack
 from .commands import process_command_stream, prep_state
@@ -7,7 +7,10 @@ from .commands import process_command_stream, prep_state
 class PageInterpreter:
 
     def __init__(self, page: PDFPage, page_num: int, font_cache: dict = None, ignore_bad_chars = False):
-        (x0, y0, x1, y1) = page.mediabox
+        # any two opposite corners, in either order
+        (x0, y0, x1, y1) = map(num_value, page.mediabox)
+        (x0, x1) = (min(x0, x1), max(x0, x1))
+        (y0, y1) = (min(y0, y1), max(y0, y1))
         if page.rotate == 90:
             ctm = [0, -1, 1, 0, -y0, x1]
         elif page.rotate == 180:
-- 
2.43.0


From bdf31248d1695bcd7f035f78c59bde6d8ab65086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:15 +0000
Subject: [PATCH 75/93] fix: a page turned on its side has its width and height
 swapped

---
 pdfmajor/interpreter/PageInterpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/interpreter/PageInterpreter.py b/pdfmajor/interpreter/PageInterpreter.py
index 1d54077..9e6fa2a 100644
--- a/pdfmajor/interpreter/PageInterpreter.py
+++ b/pdfmajor/interpreter/PageInterpreter.py
@@ -26,6 +26,8 @@ class PageInterpreter:
         self.page_num = page_num
         self.height = y1-y0
         self.width = x1-x0
+        if page.rotate in (90, 270):
+            (self.width, self.height) = (self.height, self.width)
 
         # Init State
         self.state: PDFStateStack = prep_state(
-- 
2.43.0


From 18025e2d0747826e5a56dfe2a8d6a61bba924442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:15 +0000
Subject: [PATCH 76/93] fix: reading a page again gives the same items

---
 pdfmajor/interpreter/PageInterpreter.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/interpreter/PageInterpreter.py b/pdfmajor/interpreter/PageInterpreter.py
index 9e6fa2a..00ca9b1 100644
--- a/pdfmajor/interpreter/PageInterpreter.py
+++ b/pdfmajor/interpreter/PageInterpreter.py
@@ -30,16 +30,22 @@ class PageInterpreter:
             (self.width, self.height) = (self.height, self.width)
 
         # Init State
-        self.state: PDFStateStack = prep_state(
+        self.ctm = ctm
+        self.ignore_bad_chars = ignore_bad_chars
+        self.state: PDFStateStack = self.make_state()
+
+    def make_state(self) -> PDFStateStack:
+        return prep_state(
             PDFStateStack(), 
-            ctm=ctm, 
-            resources=page.resources, 
+            ctm=self.ctm, 
+            resources=self.page.resources, 
             font_cache=self.font_cache,
-            ignore_bad_chars=ignore_bad_chars
+            ignore_bad_chars=self.ignore_bad_chars
         )
-
     
     def __iter__(self):
+        # every run starts afresh
+        self.state = self.make_state()
         for item in process_command_stream(
             streams=list_value(self.page.contents),
             font_cache=self.font_cache,
-- 
2.43.0


From 3f20fd17a6c27993dd024c635e5c7eb9e67b11e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:26 +0000
Subject: [PATCH 77/93] fix: the box of a form object is given by two corners

---
 pdfmajor/interpreter/commands/state/layout/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index 7a0562d..75973e7 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -121,12 +121,12 @@ def make_image(obj, ctm):
     )
 
 def make_xobject(obj, bbox, ctm, matrix, resources):
-    (x, y, w, h) = bbox
+    (x0, y0, x1, y1) = bbox
     return LTXObject(
         name=str(id(obj)),
         bbox=Bbox.from_points([
             apply_matrix_pt(matrix, (p, q))
-            for (p, q) in ((x, y), (x+w, y), (x, y+h), (x+w, y+h))
+            for (p, q) in ((x0, y0), (x1, y0), (x0, y1), (x1, y1))
         ]),
         xobj_stream=obj,
         resources=resources,
-- 
2.43.0


From c6dde4a03b6bcb84c6c1e7a5d0fe70a2826e7968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:26 +0000
Subject: [PATCH 78/93] fix: form objects are placed by their matrix and that
 of the page

---
 pdfmajor/interpreter/commands/state/layout/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index 75973e7..f0b3f25 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -122,6 +122,8 @@ def make_image(obj, ctm):
 
 def make_xobject(obj, bbox, ctm, matrix, resources):
     (x0, y0, x1, y1) = bbox
+    # coordinates of the form, then those of its place on the page
+    matrix = mult_matrix(matrix, ctm)
     return LTXObject(
         name=str(id(obj)),
         bbox=Bbox.from_points([
@@ -130,5 +132,5 @@ def make_xobject(obj, bbox, ctm, matrix, resources):
         ]),
         xobj_stream=obj,
         resources=resources,
-        t_matrix = ctm
+        t_matrix = matrix
     )
\ No newline at end of file
-- 
2.43.0


From c02cc52a83d51c56296bd85b46095c11d5be6236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:26 +0000
Subject: [PATCH 79/93] fix: form objects start with the text state of their
 surroundings

---
 pdfmajor/interpreter/commands/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 7495d34..d65d30d 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -66,6 +66,7 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
                     font_cache=font_cache
                 )
                 xobj_state.graphics = state.graphics.copy()
+                xobj_state.text = state.text.copy()
                 for item in process_command_stream(
                     [complete_item.stream], 
                     font_cache=font_cache, 
-- 
2.43.0


From 2cd6608922ea13291b90ffe226780c22ba85319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:54 +0000
Subject: [PATCH 80/93] fix: inline images may spell out the names of their
 entries

---
 pdfmajor/interpreter/commands/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 24b0354..7135703 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -475,7 +475,7 @@ def add_dbquoted_char_blocks(stack: PDFStateStack, wordspace, charspace, b) -> P
 
 @PDFCommands.add('EI')
 def insert_image(stack: PDFStateStack, obj) -> PDFStateStack:
-    if 'W' in obj and 'H' in obj:
+    if ('W' in obj or 'Width' in obj) and ('H' in obj or 'Height' in obj):
         stack.complete_layout_items.append(make_image(
             obj,  stack.t_matrix
         ))
-- 
2.43.0


From f13d3311db8b97f0b5126470662bf5638ce1c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:34 +0000
Subject: [PATCH 81/93] fix: text and attribute values of HTML are escaped

---
 pdfmajor/converters/html.py         | 3 ++-
 pdfmajor/converters/writers/html.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/converters/html.py b/pdfmajor/converters/html.py
index de651b5..e96f796 100644
--- a/pdfmajor/converters/html.py
+++ b/pdfmajor/converters/html.py
@@ -1,3 +1,4 @@
+from html import escape
 from typing import List, Optional
 from .writers.html import HTMLMaker
 from ..interpreter import PDFInterpreter, PageInterpreter, logging
@@ -81,7 +82,7 @@ def render_page(html: HTMLMaker, ltpage: PageInterpreter):
                 'min-height': str(item.height) + "px",
                 'max-height': str(item.height) + "px",
             }):
-                html.write(item.get_text())
+                html.write(escape(item.get_text()))
         elif isinstance(item, LTTextBlock):
             with html.elm('span', {'class': 'text-block'}):
                 for char in item:
diff --git a/pdfmajor/converters/writers/html.py b/pdfmajor/converters/writers/html.py
index 89961e6..a3af84f 100644
--- a/pdfmajor/converters/writers/html.py
+++ b/pdfmajor/converters/writers/html.py
@@ -1,3 +1,4 @@
+from html import escape
 from typing import Optional
 from io import TextIOWrapper
 from contextlib import contextmanager
@@ -45,7 +46,7 @@ class HTMLMaker:
                 for name, value in css.items()
             ])
         attrs_str = " ".join([
-            f'{name}="{value}"'
+            f'{name}="{escape(str(value))}"'
             for name, value in attrs.items()
         ])
         if not singleton:
-- 
2.43.0


From bb50e16da96bb49d31d3a422be134a4838c69ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:34 +0000
Subject: [PATCH 82/93] fix: HTML refers by number to the characters that its
 encoding does not have

---
 pdfmajor/converters/writers/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/converters/writers/html.py b/pdfmajor/converters/writers/html.py
index a3af84f..b4fbe09 100644
--- a/pdfmajor/converters/writers/html.py
+++ b/pdfmajor/converters/writers/html.py
@@ -22,7 +22,7 @@ class HTMLMaker:
     def write_raw(self, text):
         if self.outfile is not None:
             if self.codec:
-                text = text.encode(self.codec)
+                text = text.encode(self.codec, 'xmlcharrefreplace')
             self.outfile.write(text)
         else:
             raise FileAccessException("Attempting to write to file without an open connection")
-- 
2.43.0


From 7d31550e7645e49f11d2083f316e0b53f40dd26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:34 +0000
Subject: [PATCH 83/93] fix: the attributes given for an HTML element are not
 changed

---
 pdfmajor/converters/writers/html.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfmajor/converters/writers/html.py b/pdfmajor/converters/writers/html.py
index b4fbe09..625ff62 100644
--- a/pdfmajor/converters/writers/html.py
+++ b/pdfmajor/converters/writers/html.py
@@ -41,6 +41,7 @@ class HTMLMaker:
         if attrs is None:
             attrs = {}
         if css is not None:
+            attrs = dict(attrs)
             attrs['style'] = ";".join([
                 f'{name}: {value}'
                 for name, value in css.items()
-- 
2.43.0


From 7ae8a7eb23e8f4a7b1631de1851ade4e07261f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:34 +0000
Subject: [PATCH 84/93] fix: a curve of no width or height is drawn in HTML

---
 pdfmajor/converters/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/converters/html.py b/pdfmajor/converters/html.py
index e96f796..81dd51a 100644
--- a/pdfmajor/converters/html.py
+++ b/pdfmajor/converters/html.py
@@ -174,7 +174,7 @@ def create_svg_path(item: LTCurve):
             "viewBox": "0 0 %s %s" % ( item.width/item.height, 1 )
         })
     else:
-        dx = 1.0/(item.x1-item.x0)
+        dx = 1.0/max([(item.x1-item.x0),0.01])
         dy = 1.0
         svg_attr.update({
             "viewBox": "0 0 1 1"
-- 
2.43.0


From aabd000161b08c43b028008292e2656b7bedaa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:34 +0000
Subject: [PATCH 85/93] fix: the curves of the operators v and y are drawn in
 HTML

---
 pdfmajor/converters/html.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/converters/html.py b/pdfmajor/converters/html.py
index 81dd51a..24ccfbd 100644
--- a/pdfmajor/converters/html.py
+++ b/pdfmajor/converters/html.py
@@ -203,15 +203,27 @@ def create_svg_path(item: LTCurve):
     def pY(val: float) -> float:
         return ( item.height- (val-item.y0) )*dy
 
+    start = point = None
     for p in item.paths:
+        points = p.points
+        if p.method == CurvePath.METHOD.CURVE_NEXT_TO:
+            # the first control point is the current point
+            points = (point or points[0], *points)
+        elif p.method == CurvePath.METHOD.CURVE_FIRST_TO:
+            # the second control point is the end point
+            points = (*points, points[-1])
+        elif p.method == CurvePath.METHOD.MOVE_TO:
+            start = points[-1]
+        point = points[-1] if points else start
+
         if p.method == CurvePath.METHOD.MOVE_TO:
             path += f'M{" ".join( f"{pX(p.x)} {pY(p.y)}" for p in p.points )} '
         elif p.method == CurvePath.METHOD.LINE_TO:
             path += f'L{" ".join( f"{pX(p.x)} {pY(p.y)}" for p in p.points )} '
         elif p.method == CurvePath.METHOD.CLOSE_PATH:
             path += 'Z'
-        elif p.method == CurvePath.METHOD.CURVE_BOTH_TO:
-            path += f'C{" ".join( f"{pX(pt.x)} {pY(pt.y)}" for pt in p.points )} '
+        else:
+            path += f'C{" ".join( f"{pX(pt.x)} {pY(pt.y)}" for pt in points )} '
     
     return path, svg_attr
 
-- 
2.43.0


From 9df2fa4995682699181dc740ddb352b3bccb5eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:00 +0000
Subject: [PATCH 86/93] fix: RGB and CMYK colors are colors of CSS

---
 pdfmajor/converters/html.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/converters/html.py b/pdfmajor/converters/html.py
index 24ccfbd..11f21fe 100644
--- a/pdfmajor/converters/html.py
+++ b/pdfmajor/converters/html.py
@@ -124,10 +124,13 @@ def get_color(col: PDFColor, default: str = ""):
         if col.color_space.ncomponents == 1:
             if col.values and type(col.values[0]) in [float, int]:
                 return f"rgba(0,0,0,{1 - float(col.values[0])})"
-        elif col.color_space.ncomponents == 3:
-            return f"rgb({','.join(map(str, col.values))})"
-        elif col.color_space.ncomponents == 4:
-            return f"cmyk({','.join(map(str, col.values))})"
+        elif all(type(value) in [float, int] for value in col.values):
+            values = col.values
+            if len(values) == 4:
+                # CSS has no CMYK colors
+                values = [1 - min(1, value + values[3]) for value in values[:3]]
+            if len(values) == 3:
+                return f"rgb({','.join(f'{100*value}%' for value in values)})"
         return f"{col.color_space.name}({','.join(map(str, col.values))})"
     else:
         return default
-- 
2.43.0


From d98f873510f5e3239462b22b251b24101998a3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:53 +0000
Subject: [PATCH 87/93] fix: the modules that convert CMYK images are imported

---
 pdfmajor/interpreter/commands/state/layout/LTImage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index f2e7bc1..33f58cf 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -1,7 +1,7 @@
 import os
 from io import BytesIO
 
-import PIL as pillow
+from PIL import Image, ImageChops
 
 from pdfmajor.BMPWriter import BMPWriter
 from pdfmajor.utils import Bbox
@@ -62,8 +62,8 @@ class LTImage(LTComponent):
                 raw_data = stream.get_rawdata()
                 if LITERAL_DEVICE_CMYK in self.colorspace:
                     ifp = BytesIO(raw_data)
-                    i = pillow.Image.open(ifp)
-                    i = pillow.ImageChops.invert(i)
+                    i = Image.open(ifp)
+                    i = ImageChops.invert(i)
                     i = i.convert('RGB')
                     i.save(fp, 'JPEG')
                 else:
-- 
2.43.0


From d2081cd154c34bff749ed59fbb9a32c9901a7092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:53 +0000
Subject: [PATCH 88/93] fix: the parameters of an image may be indirect objects

---
 .../interpreter/commands/state/layout/LTImage.py     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index 33f58cf..2f5d40c 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -5,7 +5,7 @@ from PIL import Image, ImageChops
 
 from pdfmajor.BMPWriter import BMPWriter
 from pdfmajor.utils import Bbox
-from pdfmajor.parser.PDFStream import PDFStream, LITERALS_DCT_DECODE
+from pdfmajor.parser.PDFStream import PDFStream, LITERALS_DCT_DECODE, resolve1
 from pdfmajor.parser.constants import LIT
 
 from ._base import LTComponent
@@ -22,11 +22,11 @@ class LTImage(LTComponent):
         LTComponent.__init__(self, bbox)
         self.name = name
         self.stream = stream
-        self.srcsize = (stream.get_any(('W', 'Width')),
-                        stream.get_any(('H', 'Height')))
-        self.imagemask = stream.get_any(('IM', 'ImageMask'))
-        self.bits = stream.get_any(('BPC', 'BitsPerComponent'), 1)
-        self.colorspace = stream.get_any(('CS', 'ColorSpace'))
+        self.srcsize = (resolve1(stream.get_any(('W', 'Width'))),
+                        resolve1(stream.get_any(('H', 'Height'))))
+        self.imagemask = resolve1(stream.get_any(('IM', 'ImageMask')))
+        self.bits = resolve1(stream.get_any(('BPC', 'BitsPerComponent'), 1))
+        self.colorspace = resolve1(stream.get_any(('CS', 'ColorSpace')))
         if not isinstance(self.colorspace, list):
             self.colorspace = [self.colorspace]
         return
-- 
2.43.0


From 441d76bb9d10c730f220c783cb38d75ad7b6bc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:53 +0000
Subject: [PATCH 89/93] fix: a saved image has the size of its samples, not of
 its place on the page

---
 pdfmajor/interpreter/commands/state/layout/LTImage.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index 2f5d40c..72826d8 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -39,8 +39,7 @@ class LTImage(LTComponent):
     def save_image(self, outdir: str, file_name: str = None):
         stream = self.stream
         filters = stream.get_filters()
-        width = self.bbox.width
-        height = self.bbox.height
+        (width, height) = self.srcsize
         bits = self.bits
 
         if len(filters) == 1 and filters[0][0] in LITERALS_DCT_DECODE:
-- 
2.43.0


From dbf3fc1e674074eea17052d6630224832e1d5e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:53 +0000
Subject: [PATCH 90/93] fix: 8-bit gray and RGB images are saved as bitmaps of
 8 and 24 bits

---
 pdfmajor/BMPWriter/__init__.py                     |  2 +-
 .../interpreter/commands/state/layout/LTImage.py   | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pdfmajor/BMPWriter/__init__.py b/pdfmajor/BMPWriter/__init__.py
index 2e93a9a..ba0ad70 100644
--- a/pdfmajor/BMPWriter/__init__.py
+++ b/pdfmajor/BMPWriter/__init__.py
@@ -13,7 +13,7 @@ class BMPWriter(object):
 
     @classmethod
     def write_all(cls, fp, stream: PDFStream, bits: int, width: float, height: float, step: float):
-        bmp = cls(fp, 1, width, height)
+        bmp = cls(fp, bits, width, height)
         data = stream.get_data()
         i = 0
         for y in range(height):
diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index 72826d8..f088156 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -10,9 +10,9 @@ from pdfmajor.parser.constants import LIT
 
 from ._base import LTComponent
 
-LITERAL_DEVICE_GRAY = LIT('DeviceGray')
-LITERAL_DEVICE_RGB = LIT('DeviceRGB')
-LITERAL_DEVICE_CMYK = LIT('DeviceCMYK')
+LITERALS_DEVICE_GRAY = (LIT('DeviceGray'), LIT('G'))
+LITERALS_DEVICE_RGB = (LIT('DeviceRGB'), LIT('RGB'))
+LITERALS_DEVICE_CMYK = (LIT('DeviceCMYK'), LIT('CMYK'))
 
 ##  LTImage
 ##
@@ -45,7 +45,7 @@ class LTImage(LTComponent):
         if len(filters) == 1 and filters[0][0] in LITERALS_DCT_DECODE:
             ext = '.jpg'
         elif (bits == 1 or
-                bits == 8 and self.colorspace in (LITERAL_DEVICE_RGB, LITERAL_DEVICE_GRAY)):
+                bits == 8 and self.colorspace[0] in LITERALS_DEVICE_RGB+LITERALS_DEVICE_GRAY):
             ext = '.w%dh%d.bmp' % (width, height)
         else:
             ext = '.b%dw%dh%d.img' % (bits, width, height)
@@ -59,7 +59,7 @@ class LTImage(LTComponent):
         with open(path, 'wb') as fp:
             if ext == '.jpg':
                 raw_data = stream.get_rawdata()
-                if LITERAL_DEVICE_CMYK in self.colorspace:
+                if self.colorspace[0] in LITERALS_DEVICE_CMYK:
                     ifp = BytesIO(raw_data)
                     i = Image.open(ifp)
                     i = ImageChops.invert(i)
@@ -69,9 +69,9 @@ class LTImage(LTComponent):
                     fp.write(raw_data)
             elif bits == 1:
                 BMPWriter.write_all(fp, stream, 1, width, height, (width+7)//8)
-            elif bits == 8 and self.colorspace is LITERAL_DEVICE_RGB:
+            elif bits == 8 and self.colorspace[0] in LITERALS_DEVICE_RGB:
                 BMPWriter.write_all(fp, stream, 24, width, height, width*3)
-            elif bits == 8 and self.colorspace is LITERAL_DEVICE_GRAY:
+            elif bits == 8 and self.colorspace[0] in LITERALS_DEVICE_GRAY:
                 BMPWriter.write_all(fp, stream, 8, width, height, width)
             else:
                 fp.write(stream.get_data())
-- 
2.43.0


From b846741dcdea083a64874796a8cdc6741fb9bcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:53 +0000
Subject: [PATCH 91/93] fix: the components of a bitmap are blue, green, red

---
 pdfmajor/BMPWriter/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/BMPWriter/__init__.py b/pdfmajor/BMPWriter/__init__.py
index ba0ad70..21b51f8 100644
--- a/pdfmajor/BMPWriter/__init__.py
+++ b/pdfmajor/BMPWriter/__init__.py
@@ -17,7 +17,11 @@ class BMPWriter(object):
         data = stream.get_data()
         i = 0
         for y in range(height):
-            bmp.write_line(y, data[i:i+step])
+            line = bytearray(data[i:i+step].ljust(step, b'\x00'))
+            if bits == 24:
+                # a bitmap has blue first
+                (line[0::3], line[2::3]) = (line[2::3], line[0::3])
+            bmp.write_line(y, line)
             i += step
 
     def __init__(self, fp, bits, width, height):
-- 
2.43.0


From 2407d554a4196cf66a975f5198602996b511de37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:53 +0000
Subject: [PATCH 92/93] fix: the lines of a bitmap are complete

---
 pdfmajor/BMPWriter/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/BMPWriter/__init__.py b/pdfmajor/BMPWriter/__init__.py
index 21b51f8..0a20213 100644
--- a/pdfmajor/BMPWriter/__init__.py
+++ b/pdfmajor/BMPWriter/__init__.py
@@ -60,5 +60,5 @@ class BMPWriter(object):
 
     def write_line(self, y, data):
         self.fp.seek(self.pos1 - (y+1)*self.linesize)
-        self.fp.write(data)
+        self.fp.write(data.ljust(self.linesize, b'\x00'))
         return
-- 
2.43.0


From 74b9c73aa44b5114e02ae159bcf635ed7174e5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:53 +0000
Subject: [PATCH 93/93] fix: JPEG images are saved from the data under their
 other filters and encryption

---
 pdfmajor/interpreter/commands/state/layout/LTImage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index f088156..f230331 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -42,7 +42,7 @@ class LTImage(LTComponent):
         (width, height) = self.srcsize
         bits = self.bits
 
-        if len(filters) == 1 and filters[0][0] in LITERALS_DCT_DECODE:
+        if filters and filters[-1][0] in LITERALS_DCT_DECODE:
             ext = '.jpg'
         elif (bits == 1 or
                 bits == 8 and self.colorspace[0] in LITERALS_DEVICE_RGB+LITERALS_DEVICE_GRAY):
@@ -58,7 +58,7 @@ class LTImage(LTComponent):
         
         with open(path, 'wb') as fp:
             if ext == '.jpg':
-                raw_data = stream.get_rawdata()
+                raw_data = stream.get_data()
                 if self.colorspace[0] in LITERALS_DEVICE_CMYK:
                     ifp = BytesIO(raw_data)
                     i = Image.open(ifp)
-- 
2.43.0

