From 7909f97ca2faa6f2af8ff7d0e7ea56f97514b234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:39 +0000
Subject: [PATCH 01/35] fix: image header bPCIsValid accepted every
 out-of-range bit depth

Only bPC == 255 means that the bit depth varies; any other value must give a
bit depth in the range 1-38.
---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 5f5ef9e..906c7cf 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -535,7 +535,7 @@ class BoxValidator:
         # 1. bPCDepth in range 1-38 (including limits)
         # 2. OR bPC equal 255 (indicating that components vary in bit depth)
         bPCDepthIsWithinAllowedRange = 1 <= bPCDepth <= 38
-        bitDepthIsVariable = 1 <= bPC <= 255
+        bitDepthIsVariable = bPC == 255
 
         if bPCDepthIsWithinAllowedRange or bitDepthIsVariable:
             bPCIsValid = True
-- 
2.43.0


From d4dbcfb7aba2dccb41f04023e7a1c14cf9036331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:39 +0000
Subject: [PATCH 02/35] fix: cAssocIsValid in channel definition box tested
 cTyp instead of cAssoc

---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 906c7cf..a2db5b3 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1099,7 +1099,7 @@ class BoxValidator:
             self.addCharacteristic("cAssoc", cAssoc)
 
             # Allowed range: 0 - 65535
-            self.testFor("cAssocIsValid", 0 <= cTyp <= 65535)
+            self.testFor("cAssocIsValid", 0 <= cAssoc <= 65535)
 
             if cTyp in [1, 2]:
                 alphaChannels.append([cTyp, cAssoc])
-- 
2.43.0


From 478a8460b7577199583b9f7ec4ea4f0b8dfb7724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:39 +0000
Subject: [PATCH 03/35] fix: compression ratio of bare codestreams used xOsiz
 as vertical offset

---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index a2db5b3..19212c7 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1729,7 +1729,7 @@ class BoxValidator:
                 # Calculate compression ratio
                 ssizDepthValues = characteristicsSIZ.findAllText('ssizDepth')
                 ysiz = characteristicsSIZ.findElementText('ysiz')
-                yOsiz = characteristicsSIZ.findElementText('xOsiz')
+                yOsiz = characteristicsSIZ.findElementText('yOsiz')
                 xsiz = characteristicsSIZ.findElementText('xsiz')
                 xOsiz = characteristicsSIZ.findElementText('xOsiz')
 
-- 
2.43.0


From 93eb7c9a52e27664bb9ff5032abe4e846a2269c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:39 +0000
Subject: [PATCH 04/35] fix: internal error on rsiz with profile 8 or undefined
 mainlevel

The capability variable was not set in these cases.
---
 jpylyzer/boxvalidator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 19212c7..ffd235d 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1807,6 +1807,8 @@ class BoxValidator:
                 capability = "Scalable 4K digital cinema profile"
             elif mainLevel == 7:
                 capability = "Long-term storage profile"
+            else:
+                capability = "Unknown (value not defined in ISO/IEC 15444-1)"
         elif profile == 1:
             capability = "Broadcast Contribution Single Tile Profile, Mainlevel " + \
                 str(mainLevel)
@@ -1829,7 +1831,7 @@ class BoxValidator:
             capability = "2k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
                 str(mainLevel) + "; Sublevel " + str(subLevel)
         elif profile == 8:
-            rsiz = "4k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
+            capability = "4k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
                 str(mainLevel) + "; Sublevel " + str(subLevel)
         elif profile == 9:
             capability = "8k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
-- 
2.43.0


From efcd39c5ce863dcdc165631953572d09f79eddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:11 +0000
Subject: [PATCH 05/35] fix: PRF and CPF marker segments were read incorrectly

Only the first profile word was ever used, the tests on the last word were
never carried out, and the length test of CPF had a wrong name.
---
 jpylyzer/boxvalidator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index ffd235d..0d88fbe 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2871,9 +2871,10 @@ class BoxValidator:
         for i in range(nopprfs):
             pprf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
             PRFnum += pprf * 2 ** (16 * i)
-            if i == nopprfs:
+            if i == nopprfs - 1:
                 # last pprf shall not be zero
                 self.testFor("pprfIsValid", pprf != 0)
+            offset += 2
 
         self.testFor("PRFnumIsValid", PRFnum > 4095)
         self.addCharacteristic("PRFnum", PRFnum)
@@ -2887,7 +2888,7 @@ class BoxValidator:
 
         # lcpf  must be within range 4-65534
         if self.format in ['jph', 'jhc']:
-            self.testFor("lcpIsValid", 4 <= lcpf <= 65534)
+            self.testFor("lcpfIsValid", 4 <= lcpf <= 65534)
 
         # Number of pcpf entries
         nopcpfs = int((lcpf - 2) / 2)
@@ -2899,10 +2900,11 @@ class BoxValidator:
         for i in range(nopcpfs):
             pcpf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
             CPFnum += pcpf * 2 ** (16 * i)
-            if i == nopcpfs:
+            if i == nopcpfs - 1:
                 # last pcpf shall not be zero
                 if self.format in ['jph', 'jhc']:
                     self.testFor("pcpfIsValid", pcpf != 0)
+            offset += 2
 
         self.addCharacteristic("CPFnum", CPFnum)
 
-- 
2.43.0


From 8f0f051a3c5bf9ca7ebf3920de69e3c71caedb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:11 +0000
Subject: [PATCH 06/35] fix: QCC step sizes were read one byte too early

---
 jpylyzer/boxvalidator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 0d88fbe..0483dea 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2524,6 +2524,7 @@ class BoxValidator:
 
         # Quantization style for this component
         sqcc = bc.bytesToUnsignedChar(self.boxContents[offset:offset + 1])
+        offset += 1
 
         # sqcc contains 2 quantization parameters: style + no of guard bits
 
-- 
2.43.0


From a433daecc903683a48dd2c06c167b68252a1ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:11 +0000
Subject: [PATCH 07/35] fix: internal error on zero denominator in resolution
 boxes

---
 jpylyzer/boxvalidator.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 0483dea..76c713b 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -229,6 +229,16 @@ class BoxValidator:
 
         return compressionRatio
 
+    def _calculateResolution(self, numerator, denominator, exponent):
+        """Compute resolution (in pixels per meter)."""
+        if denominator != 0:
+            resolution = (numerator / denominator) * (10 ** exponent)
+        else:
+            # Illegal value (which is reported by the test on the denominator)
+            resolution = -9999
+
+        return resolution
+
     def _getBitValue(self, n, p, wordLength=8):
         """Get the bit value of denary (base 10) number n.
 
@@ -1213,11 +1223,11 @@ class BoxValidator:
 
         # Include vertical and horizontal resolution values in pixels per meter
         # and pixels per inch in output
-        vRescInPixelsPerMeter = (vRcN / vRcD) * (10 ** (vRcE))
+        vRescInPixelsPerMeter = self._calculateResolution(vRcN, vRcD, vRcE)
         self.addCharacteristic(
             "vRescInPixelsPerMeter", round(vRescInPixelsPerMeter, 2))
 
-        hRescInPixelsPerMeter = (hRcN / hRcD) * (10 ** (hRcE))
+        hRescInPixelsPerMeter = self._calculateResolution(hRcN, hRcD, hRcE)
         self.addCharacteristic(
             "hRescInPixelsPerMeter", round(hRescInPixelsPerMeter, 2))
 
@@ -1272,11 +1282,11 @@ class BoxValidator:
 
         # Include vertical and horizontal resolution values in pixels per meter
         # and pixels per inch in output
-        vResdInPixelsPerMeter = (vRdN / vRdD) * (10 ** (vRdE))
+        vResdInPixelsPerMeter = self._calculateResolution(vRdN, vRdD, vRdE)
         self.addCharacteristic(
             "vResdInPixelsPerMeter", round(vResdInPixelsPerMeter, 2))
 
-        hResdInPixelsPerMeter = (hRdN / hRdD) * (10 ** (hRdE))
+        hResdInPixelsPerMeter = self._calculateResolution(hRdN, hRdD, hRdE)
         self.addCharacteristic(
             "hResdInPixelsPerMeter", round(hResdInPixelsPerMeter, 2))
 
-- 
2.43.0


From f07c116901ae1f0ab758a6e6f1e8d25551b59fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:22 +0000
Subject: [PATCH 08/35] fix: cut-off box type could be mistaken for a
 codestream marker

A box type of which only 2 bytes are left (e.g. 0xff52) was dispatched to the
validator function of the marker segment with that code, and the analysis
ended with an internal error.
---
 jpylyzer/boxvalidator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 76c713b..b2499ed 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -143,6 +143,10 @@ class BoxValidator:
         # Box type
         boxType = self.boxContents[byteStart + 4:byteStart + 8]
 
+        # Pad box type that is cut off by the end of the data, as it could otherwise be
+        # mistaken for the (2 byte) code of a codestream marker segment
+        boxType = boxType.ljust(4, b'\x00')
+
         # Start byte of box contents
         contentsStartOffset = 8
 
-- 
2.43.0


From 7e2e733067057591977d2249d944b071498973e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:22 +0000
Subject: [PATCH 09/35] fix: internal error on incomplete UUIDs in UUID and
 UUID list boxes

---
 jpylyzer/boxvalidator.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index b2499ed..d0d0375 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -3331,7 +3331,11 @@ class BoxValidator:
 
         # First 16 bytes contain UUID, convert to string of hex digits
         # in standard form
-        boxUUID = str(uuid.UUID(bytes=self.boxContents[0:16]))
+        if boxLength >= 16:
+            boxUUID = str(uuid.UUID(bytes=self.boxContents[0:16]))
+        else:
+            # UUID is incomplete
+            boxUUID = ""
 
         if boxUUID == "be7acfcb-97a9-42e8-9c71-999491e3afac":
             # XMP packet
@@ -3429,6 +3433,9 @@ class BoxValidator:
         # Loop through all UUIDs
         offset = 2
         for _ in range(nU):
+            if offset + 16 > len(self.boxContents):
+                # Remaining UUIDs are missing or incomplete
+                break
             boxUUID = str(
                 uuid.UUID(bytes=self.boxContents[offset:offset + 16]))
             self.addCharacteristic("uuid", boxUUID)
-- 
2.43.0


From ace866a317607689aa7df7a07a0b007fcf8fcab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:22 +0000
Subject: [PATCH 10/35] fix: endless loop on tile-part whose length cannot be
 decoded

---
 jpylyzer/boxvalidator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index d0d0375..fb31f99 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1687,12 +1687,13 @@ class BoxValidator:
                         # tilePartsPerTileFound (e.g. because the isot field is
                         # damaged)
                         break
-                    if offsetNext != offset:
+                    if offsetNext > offset:
                         offset = offsetNext
                     else:
                         # offsetNext same as offset: this happens if image only contains
                         # one single tile-part (psot=0), in which case we break out of
-                        # this loop
+                        # this loop. A smaller value means that psot could not be decoded,
+                        # and following it could result in an infinite loop
                         break
 
             # Length of tileIndices must equal numberOfTilesExpected
-- 
2.43.0


From 8656fcfe1db1d6e38c467e93ea20701e432d4159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:22 +0000
Subject: [PATCH 11/35] fix: tile with a non-existing index was counted as one
 of the expected tiles

---
 jpylyzer/boxvalidator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index fb31f99..d3b1b30 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1696,9 +1696,11 @@ class BoxValidator:
                         # and following it could result in an infinite loop
                         break
 
-            # Length of tileIndices must equal numberOfTilesExpected
-            self.testFor("foundExpectedNumberOfTiles", len(
-                tileIndices) == numberOfTilesExpected)
+            # Length of tileIndices must equal numberOfTilesExpected, and all indices
+            # must refer to existing tiles
+            self.testFor("foundExpectedNumberOfTiles",
+                         len(tileIndices) == numberOfTilesExpected and all(
+                             0 <= i < numberOfTilesExpected for i in tileIndices))
 
             # Found numbers of tile	parts per tile must match expected
             if tilePartsPerTileExpected:
-- 
2.43.0


From 2740d085917226b56aaa44c6f8cf6deab322bf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:22 +0000
Subject: [PATCH 12/35] fix: valid files rejected if tnsot is only defined for
 some of the tiles

A tnsot value of 0 means that the number of tile-parts is not defined, so
there is nothing to compare for tiles with only such values.
---
 jpylyzer/boxvalidator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index d3b1b30..09c84c4 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1702,10 +1702,12 @@ class BoxValidator:
                          len(tileIndices) == numberOfTilesExpected and all(
                              0 <= i < numberOfTilesExpected for i in tileIndices))
 
-            # Found numbers of tile	parts per tile must match expected
+            # Found numbers of tile	parts per tile must match expected (for all tiles
+            # for which the number of tile-parts is defined)
             if tilePartsPerTileExpected:
-                self.testFor("foundExpectedNumberOfTileParts",
-                            tilePartsPerTileExpected == tilePartsPerTileFound)
+                self.testFor("foundExpectedNumberOfTileParts", all(
+                    tilePartsPerTileFound.get(tile) == tileParts
+                    for tile, tileParts in tilePartsPerTileExpected.items()))
 
             # Add tile-part tests, characteristics and warnings to tree
             self.tests.appendIfNotEmpty(tilePartTests)
-- 
2.43.0


From 77fc0afdc33bdad4cee91bc429ce4b4edaab1531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:22 +0000
Subject: [PATCH 13/35] fix: packet lengths of 3 or more bytes, and endless
 loop on cut-off length

The most significant bits of packet lengths stored in 3 or more bytes were
lost, and a last byte that announces a continuation led to an endless loop.
---
 jpylyzer/boxvalidator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 09c84c4..62a29d0 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -281,16 +281,16 @@ class BoxValidator:
         while i < lpl and i < len(
                 self.boxContents):  # Don't over-read on bad lplt/lplm
             ipl_i_len = 1  # number of bytes making up the current ipl(t|m)_i
-            while bc.bytesToUnsignedChar(
-                    self.boxContents[i + ipl_i_len - 1:i + ipl_i_len]) & 0x80:
+            while (i + ipl_i_len < len(self.boxContents) and bc.bytesToUnsignedChar(
+                    self.boxContents[i + ipl_i_len - 1:i + ipl_i_len]) & 0x80):
                 ipl_i_len += 1
 
             # Join all the segments together
-            iplt_i = bc.bytesToUnsignedChar(self.boxContents[i:i + 1])
-            for ipl_index in range(1, ipl_i_len):
-                iplt_i = (iplt_i & 0x7F) << 7
+            iplt_i = 0
+            for ipl_index in range(ipl_i_len):
+                iplt_i <<= 7
                 iplt_i |= bc.bytesToUnsignedChar(
-                    self.boxContents[i + ipl_index:i + ipl_index + 1])
+                    self.boxContents[i + ipl_index:i + ipl_index + 1]) & 0x7F
 
             i += ipl_i_len
             iplt += ('{:0' + str(2 * ipl_i_len) + 'X},').format(iplt_i)
-- 
2.43.0


From c542435117840edb60b82fadd4e1824dead7991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:55 +0000
Subject: [PATCH 14/35] fix: palette entries were read in the wrong order

According to ISO/IEC 15444-1 Section I.5.3.4 the values of all columns are
grouped by entry, and the size of each value depends on its own column.
---
 jpylyzer/boxvalidator.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 62a29d0..e79ac0e 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -979,6 +979,14 @@ class BoxValidator:
         # nPC within range 1-255
         self.testFor("nPCIsValid", 1 <= nPC <= 255)
 
+        # Sizes (in bytes) of the entries of all columns. Entries are stored in "component
+        # major" order: the values of all columns for the first entry, followed by the
+        # values of all columns for the second entry, and so on
+        entrySizes = []
+        for i in range(nPC):
+            b = bc.bytesToUnsignedChar(self.boxContents[3 + i:4 + i])
+            entrySizes.append(math.ceil(((b & 127) + 1) / 8))
+
         # Following parameters are repeated for each column
         for i in range(nPC):
 
@@ -1006,8 +1014,8 @@ class BoxValidator:
             bDepthPadded = math.ceil(bDepth / 8) * 8
             bytesPadded = int(bDepthPadded / 8)
 
-            # Start offset of cP entries for this column
-            offset = nPC + 3 + i * (nE * bytesPadded)
+            # Offset of first cP entry for this column
+            offset = nPC + 3 + sum(entrySizes[0:i])
 
             for _ in range(nE):
                 # Get bytes for this entry
@@ -1018,7 +1026,7 @@ class BoxValidator:
                 cP = bc.bytesToInteger(cPAsBytes)
                 self.addCharacteristic("cP", cP)
 
-                offset += bytesPadded
+                offset += sum(entrySizes)
 
     def validate_componentMappingBox(self):
         """Component mapping box (ISO/IEC 15444-1 Section I.5.3.5).
-- 
2.43.0


From 4c2dd6dad54cbb5b6f6234313462186522dc8ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:55 +0000
Subject: [PATCH 15/35] fix: ICC primary platform 'SGI ' was not mapped to its
 name

The signature in the profile is 4 bytes long (padded with a space).
---
 jpylyzer/jpylyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index b95af40..ce9e749 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -128,7 +128,7 @@ def generatePropertiesRemapTable():
     primaryPlatformMap = {}
     primaryPlatformMap[b'APPL'] = "Apple Computer, Inc."
     primaryPlatformMap[b'MSFT'] = "Microsoft Corporation"
-    primaryPlatformMap[b'SGI'] = "Silicon Graphics, Inc."
+    primaryPlatformMap[b'SGI '] = "Silicon Graphics, Inc."
     primaryPlatformMap[b'SUNW'] = "Sun Microsystems, Inc."
 
     # Transparency (ICC)
-- 
2.43.0


From eb429a13b1117f3f091ee6b38cf390de71f62875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:56 +0000
Subject: [PATCH 16/35] fix: internal error on profile numbers of more than
 4300 digits

PRF and CPF marker segments can hold more than 30000 words, which results in
numbers that exceed Python's limit for integer to string conversions.
---
 jpylyzer/etpatch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jpylyzer/etpatch.py b/jpylyzer/etpatch.py
index 741d15e..a050f59 100644
--- a/jpylyzer/etpatch.py
+++ b/jpylyzer/etpatch.py
@@ -20,6 +20,7 @@ TODO:
 #
 
 import xml.etree.ElementTree as ET
+from decimal import Decimal
 from . import byteconv as bc
 from . import config
 
@@ -122,6 +123,10 @@ class Element(ET.Element):
                 # Convert text field, depending on type
                 if textType == bytes:
                     textOut = bc.bytesToText(remappedValue)
+                elif textType == int:
+                    # Avoids limit on number of digits of int to string conversions
+                    # (profile numbers can be very large)
+                    textOut = str(Decimal(remappedValue))
                 elif textType in numericTypes:
                     textOut = str(remappedValue)
                 else:
-- 
2.43.0


From a595b86bb0cd77f97180b99604ee8fcfac997baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:16 +0000
Subject: [PATCH 17/35] fix: analysis of long PRF and CPF marker segments took
 more than 30 seconds

Computing a power for each profile word is very slow for the (illegal, but
readable) length values found in damaged files; shifting is not.
---
 jpylyzer/boxvalidator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index e79ac0e..dc9d0bd 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2898,7 +2898,7 @@ class BoxValidator:
 
         for i in range(nopprfs):
             pprf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
-            PRFnum += pprf * 2 ** (16 * i)
+            PRFnum += pprf << (16 * i)
             if i == nopprfs - 1:
                 # last pprf shall not be zero
                 self.testFor("pprfIsValid", pprf != 0)
@@ -2927,7 +2927,7 @@ class BoxValidator:
 
         for i in range(nopcpfs):
             pcpf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
-            CPFnum += pcpf * 2 ** (16 * i)
+            CPFnum += pcpf << (16 * i)
             if i == nopcpfs - 1:
                 # last pcpf shall not be zero
                 if self.format in ['jph', 'jhc']:
-- 
2.43.0


From 06dedd591254d21631d8450261e42496ddbcda07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:48 +0000
Subject: [PATCH 18/35] fix: palette box with damaged number of entries could
 exhaust memory

A box of a few bytes was enough to make jpylyzer report 16.7 million entries.
---
 jpylyzer/boxvalidator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index dc9d0bd..e252343 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -972,6 +972,10 @@ class BoxValidator:
         # nE within range 1-1024
         self.testFor("nEIsValid", 1 <= nE <= 1024)
 
+        # Impose upper limit on number of reported entries to avoid freezes and memory
+        # errors in case of byte corrupted file
+        nE = min(nE, 1024)
+
         # Number of palette columns
         nPC = bc.bytesToUnsignedChar(self.boxContents[2:3])
         self.addCharacteristic("nPC", nPC)
-- 
2.43.0


From 99abc2bfb2d4fce27a98c0f51c5a4d2859de5091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:54 +0000
Subject: [PATCH 19/35] fix: MIX output crashed on valid JPH files without
 enumerated or ICC colour space

---
 jpylyzer/mix.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index 25bde6d..085b01e 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -104,11 +104,14 @@ class Mix:
             mixPI.append(mixColorProfile)
             mixBic.append(mixPI)
         else:
-            mixPI = ET.Element('mix:PhotometricInterpretation')
-            colorSpace = properties.find(
-                'jp2HeaderBox/colourSpecificationBox/enumCS').text
-            mixPI.appendChildTagWithText('mix:colorSpace', colorSpace.strip())
-            mixBic.append(mixPI)
+            enumCSElement = properties.find(
+                'jp2HeaderBox/colourSpecificationBox/enumCS')
+            # Colour space may be undefined (JPH)
+            if enumCSElement is not None:
+                mixPI = ET.Element('mix:PhotometricInterpretation')
+                colorSpace = enumCSElement.text
+                mixPI.appendChildTagWithText('mix:colorSpace', colorSpace.strip())
+                mixBic.append(mixPI)
         mixBio.append(mixBic)
 
         mixSFC = ET.Element('mix:SpecialFormatCharacteristics')
-- 
2.43.0


From 15144f6aa7122b43186c42f8525a31648e3f3f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:54 +0000
Subject: [PATCH 20/35] fix: MIX output crashed on XMP metadata without
 rdf:Description element

---
 jpylyzer/mix.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index 085b01e..4cdc17f 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -162,7 +162,11 @@ class Mix:
         if value is not None:
             return value.text
 
-        value = prop.find(prefixPath).attrib.get(ns + tag, None)
+        parent = prop.find(prefixPath)
+        if parent is None:
+            return None
+
+        value = parent.attrib.get(ns + tag, None)
         if value and value is not None:
             return value
         return None
-- 
2.43.0


From 79408a7543d154385d81bcea3f942dc153fd02a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:54 +0000
Subject: [PATCH 21/35] fix: MIX sampling frequencies were truncated instead of
 rounded

E.g. a resolution of 1.13 pixels per metre resulted in a numerator of 112.
---
 jpylyzer/mix.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index 4cdc17f..87a12ad 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -264,26 +264,30 @@ class Mix:
             'jp2HeaderBox/resolutionBox/captureResolutionBox')
         if resolutionBox is not None:
             numX = int(
-                float(
-                    resolutionBox.find('hRescInPixelsPerMeter').text) *
-                100)
+                round(
+                    float(
+                        resolutionBox.find('hRescInPixelsPerMeter').text) *
+                    100))
             numY = int(
-                float(
-                    resolutionBox.find('vRescInPixelsPerMeter').text) *
-                100)
+                round(
+                    float(
+                        resolutionBox.find('vRescInPixelsPerMeter').text) *
+                    100))
         else:
             # Then try the displayResolutionBox
             resolutionBox = properties.find(
                 'jp2HeaderBox/resolutionBox/displayResolutionBox')
             if resolutionBox is not None:
                 numX = int(
-                    float(
-                        resolutionBox.find('hResdInPixelsPerMeter').text) *
-                    100)
+                    round(
+                        float(
+                            resolutionBox.find('hResdInPixelsPerMeter').text) *
+                        100))
                 numY = int(
-                    float(
-                        resolutionBox.find('vResdInPixelsPerMeter').text) *
-                    100)
+                    round(
+                        float(
+                            resolutionBox.find('vResdInPixelsPerMeter').text) *
+                        100))
         if resolutionBox is not None:
             mixSm = ET.Element('mix:SpatialMetrics')
             if self.mixFlag == 1:
-- 
2.43.0


From 8695d209187603c205e7773200fd17b886935bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:54 +0000
Subject: [PATCH 22/35] fix: checkOneFile crashed on valid codestreams if MIX
 output was requested

---
 jpylyzer/jpylyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index ce9e749..1752e88 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -443,7 +443,7 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
         warnings.appendChildTagWithText("warning", failureMessage)
         shared.printWarning(failureMessage)
 
-    if mixFlag != 0 and fileIsValid:
+    if mixFlag != 0 and validationFormat in ['jp2', 'jph'] and fileIsValid:
         mixProperties = mix.Mix(mixFlag).generateMix(characteristics)
 
     # Add status info
-- 
2.43.0


From 3a6e5665255c7be4d63c90f0f01b0529441322d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:15 +0000
Subject: [PATCH 23/35] fix: files that cannot be opened were reported as
 unknown errors

open() raises subclasses of IOError (e.g. PermissionError), which were not
recognised as I/O errors.
---
 jpylyzer/jpylyzer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 1752e88..f7b3edd 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -424,13 +424,12 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     except Exception as ex:
         fileIsValid = False
         success = False
-        exceptionType = type(ex)
 
-        if exceptionType == MemoryError:
+        if isinstance(ex, MemoryError):
             failureMessage = "memory error (file size too large)"
-        elif exceptionType == IOError:
+        elif isinstance(ex, IOError):
             failureMessage = "I/O error (cannot open file)"
-        elif exceptionType == RuntimeError:
+        elif isinstance(ex, RuntimeError):
             failureMessage = "runtime error, please report to developers by creating " + \
                              "an issue at https://github.com/openpreserve/jpylyzer/issues"
         else:
-- 
2.43.0


From 43112586b03612cdbf754ac586b5b3774bcaea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:15 +0000
Subject: [PATCH 24/35] fix: crash on files with a modification time that is
 out of range

The workaround for such dates raised a TypeError itself.
---
 jpylyzer/jpylyzer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index f7b3edd..3f1ebb0 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -33,7 +33,6 @@ Contributors:
 
 import sys
 import os
-import time
 import datetime
 import glob
 import argparse
@@ -365,11 +364,11 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     try:
         dt = os.path.getmtime(path)
         lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
-    except ValueError:
-        # Dates earlier than 1 Jan 1970 can raise ValueError on Windows
+    except (ValueError, OverflowError, OSError):
+        # Dates earlier than 1 Jan 1970 can raise ValueError on Windows, and dates that
+        # are out of range can raise any of these errors on all platforms
         # Workaround: replace by lowest possible value (typically 1 Jan 1970)
-        dt = time.ctime(0)
-        lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
+        lastModifiedDate = datetime.datetime.fromtimestamp(0).isoformat()
     fileInfo.appendChildTagWithText(
         "fileLastModified", lastModifiedDate)
 
-- 
2.43.0


From 61a268185c5a71bb299e09bdf8c9313c517b99d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:15 +0000
Subject: [PATCH 25/35] fix: file that disappears during a run aborted the
 analysis of all other files

---
 jpylyzer/jpylyzer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 3f1ebb0..6579491 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -359,8 +359,13 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     # Produce some general tool and file meta info
     fileInfo.appendChildTagWithText("fileName", fileNameCleaned)
     fileInfo.appendChildTagWithText("filePath", filePathCleaned)
-    fileInfo.appendChildTagWithText(
-        "fileSizeInBytes", str(os.path.getsize(path)))
+    try:
+        fileSize = os.path.getsize(path)
+    except OSError:
+        # File cannot be accessed (e.g. because it was removed in the meantime); this
+        # will be reported below
+        fileSize = -9999
+    fileInfo.appendChildTagWithText("fileSizeInBytes", str(fileSize))
     try:
         dt = os.path.getmtime(path)
         lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
-- 
2.43.0


From f10ea9831fa4e5ecae64c4a3c501f2dca0fb869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:29 +0000
Subject: [PATCH 26/35] fix: control characters in file names made the output
 ill-formed

Characters that cannot be represented in XML are now replaced by question
marks (as was already the case for surrogates).
---
 jpylyzer/jpylyzer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 6579491..8412ca9 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -33,6 +33,7 @@ Contributors:
 
 import sys
 import os
+import re
 import datetime
 import glob
 import argparse
@@ -353,8 +354,8 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
 
     # If file name / path contain any surrogate pairs, remove them to
     # avoid problems when writing to XML
-    fileNameCleaned = stripSurrogatePairs(fileName)
-    filePathCleaned = stripSurrogatePairs(filePath)
+    fileNameCleaned = replaceIllegalXMLCharacters(stripSurrogatePairs(fileName))
+    filePathCleaned = replaceIllegalXMLCharacters(stripSurrogatePairs(filePath))
 
     # Produce some general tool and file meta info
     fileInfo.appendChildTagWithText("fileName", fileNameCleaned)
@@ -516,6 +517,11 @@ def stripSurrogatePairs(ustring):
     return ustring
 
 
+def replaceIllegalXMLCharacters(ustring):
+    """Replace characters that cannot be represented in XML by question marks."""
+    return re.sub('[^\t\n\r\x20-\uD7FF\uE000-\uFFFD\U00010000-\U0010FFFF]', '?', ustring)
+
+
 def getFiles(searchpattern):
     """Append paths of all files that match search pattern to EXISTING_FILES."""
     results = glob.glob(searchpattern)
-- 
2.43.0


From 08bc4f4716deec3c800b6c19bceaf95284708ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:29 +0000
Subject: [PATCH 27/35] fix: recursion into directories included broken links
 and special files

A dangling symbolic link aborted the whole run, and opening a named pipe
blocked it forever.
---
 jpylyzer/jpylyzer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 8412ca9..149a243 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -557,7 +557,8 @@ def getFilesFromTree(rootDir):
 
         for filename in filenames:
             thisFile = os.path.join(dirname, filename)
-            EXISTING_FILES.append(thisFile)
+            if os.path.isfile(thisFile):
+                EXISTING_FILES.append(thisFile)
 
 
 def findFiles(recurse, paths):
-- 
2.43.0


From cf472ec55081d877b3d6e80761a157db52977d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:29 +0000
Subject: [PATCH 28/35] fix: files in subdirectories with wildcard characters
 in their names were skipped

When recursing with a wildcard expression, names of existing directories like
'scans [2019]' were interpreted as patterns.
---
 jpylyzer/jpylyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 149a243..cabd3d5 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -540,7 +540,7 @@ def getFilesWithPatternFromTree(rootDir, pattern):
         for subdirname in dirnames:
             thisDirectory = os.path.join(dirname, subdirname)
             # find files matching the pattern in current path
-            searchpattern = os.path.join(thisDirectory, pattern)
+            searchpattern = os.path.join(glob.escape(thisDirectory), pattern)
             getFiles(searchpattern)
 
 
-- 
2.43.0


From 1bdf69d1bdb5babaca20a90e1127bc2e5b0eb054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:31 +0000
Subject: [PATCH 29/35] fix: internal error on very deeply nested superboxes

A few kilobytes of nested JP2 header boxes exceeded Python's recursion limit.
---
 jpylyzer/boxvalidator.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index e252343..c7fb6b2 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -70,18 +70,28 @@ class BoxValidator:
         'startOfTile': 'sot'
     }
 
+    # Superboxes, and the level up to which these may be nested. Legal files don't need more
+    # than 3 levels; the limit prevents recursion errors on damaged files
+    superBoxes = ["jp2HeaderBox", "resolutionBox", "uuidInfoBox"]
+    maxNestingLevel = 50
+
     # Reverse access of typemap for quick lookup
     boxTagMap = {v: k for k, v in typeMap.items()}
 
     def __init__(self, options, bType, boxContents,
                  startOffset=None, components=None):
         """Initialise a BoxValidator."""
-        self.options = options
+        # Keep track of nesting level (copy because options are shared by all validators)
+        self.options = dict(options)
+        self.options['nestingLevel'] = options.get('nestingLevel', 0) + 1
+        # Superboxes that are nested too deeply are ignored
+        ignoreBox = (self.options['nestingLevel'] > self.maxNestingLevel and
+                     self.typeMap.get(bType) in self.superBoxes)
         self.format = self.options['validationFormat']
         self.verboseFlag = self.options['verboseFlag']
         self.nullxmlFlag = self.options['nullxmlFlag']
         self.packetmarkersFlag = self.options['packetmarkersFlag']
-        if bType in self.typeMap:
+        if bType in self.typeMap and not ignoreBox:
             self.boxType = self.typeMap[bType]
         elif bType == "JP2":
             self.characteristics = ET.Element("properties")
-- 
2.43.0


From 7de840d58da170457a31683270bd83158b2990de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:01 +0000
Subject: [PATCH 30/35] fix: MIX output took minutes on long codestream
 comments

The expression that looks for the codec version was tried at every
position of the comment, which is quadratic in its length. Anchoring it
to the start of a line finds the same match in linear time.
---
 jpylyzer/mix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index 87a12ad..cc16068 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -119,7 +119,7 @@ class Mix:
         comment = properties.find('contiguousCodestreamBox/com/comment')
         if comment is not None:
             commentText = comment.text
-            m = re.search(r'(.*)-v([0-9\.]*)', commentText)
+            m = re.search(r'^(.*)-v([0-9\.]*)', commentText, re.MULTILINE)
             if m:
                 # generate CodecCompliance only if it matches the regex
                 mixCodecCompliance = ET.Element('mix:CodecCompliance')
-- 
2.43.0


From c42f65ce7a632fc9b1089fc0927c22d5422a38cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:50 +0000
Subject: [PATCH 31/35] fix: schema rejected reports on files with a video full
 range flag

The value of vidFRng is reported as "yes" or "no", but the schema only
allowed integers.
---
 xsd/jpylyzer-v-2-2.xsd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd/jpylyzer-v-2-2.xsd b/xsd/jpylyzer-v-2-2.xsd
index f812e44..111afc1 100644
--- a/xsd/jpylyzer-v-2-2.xsd
+++ b/xsd/jpylyzer-v-2-2.xsd
@@ -274,7 +274,7 @@
   <xs:element name="colPrims" type="xs:integer"/>
   <xs:element name="transfC" type="xs:integer"/>
   <xs:element name="matCoeffs" type="xs:integer"/>
-  <xs:element name="vidFRng" type="xs:integer"/>
+  <xs:element name="vidFRng" type="xs:string"/>
 
   <xs:element name="icc">
     <xs:complexType>
-- 
2.43.0


From a211a29446740efbcffe5055437433b51f82b440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:50 +0000
Subject: [PATCH 32/35] fix: schema rejected reports on very large or small
 resolution values

Resolutions beyond 1e16 and below 1e-4 are reported in exponential
notation, which is not allowed for xs:decimal.
---
 xsd/jpylyzer-v-2-2.xsd | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/xsd/jpylyzer-v-2-2.xsd b/xsd/jpylyzer-v-2-2.xsd
index 111afc1..c8bc622 100644
--- a/xsd/jpylyzer-v-2-2.xsd
+++ b/xsd/jpylyzer-v-2-2.xsd
@@ -417,10 +417,10 @@
   <xs:element name="hRcD" type="xs:integer"/>
   <xs:element name="vRcE" type="xs:integer"/>
   <xs:element name="hRcE" type="xs:integer"/>
-  <xs:element name="vRescInPixelsPerMeter" type="xs:decimal"/>
-  <xs:element name="hRescInPixelsPerMeter" type="xs:decimal"/>
-  <xs:element name="vRescInPixelsPerInch" type="xs:decimal"/>
-  <xs:element name="hRescInPixelsPerInch" type="xs:decimal"/>  
+  <xs:element name="vRescInPixelsPerMeter" type="xs:double"/>
+  <xs:element name="hRescInPixelsPerMeter" type="xs:double"/>
+  <xs:element name="vRescInPixelsPerInch" type="xs:double"/>
+  <xs:element name="hRescInPixelsPerInch" type="xs:double"/>  
   
   <xs:element name="displayResolutionBox">
     <xs:complexType>
@@ -445,10 +445,10 @@
   <xs:element name="hRdD" type="xs:integer"/>
   <xs:element name="vRdE" type="xs:integer"/>
   <xs:element name="hRdE" type="xs:integer"/>
-  <xs:element name="vResdInPixelsPerMeter" type="xs:decimal"/>
-  <xs:element name="hResdInPixelsPerMeter" type="xs:decimal"/>
-  <xs:element name="vResdInPixelsPerInch" type="xs:decimal"/>
-  <xs:element name="hResdInPixelsPerInch" type="xs:decimal"/>  
+  <xs:element name="vResdInPixelsPerMeter" type="xs:double"/>
+  <xs:element name="hResdInPixelsPerMeter" type="xs:double"/>
+  <xs:element name="vResdInPixelsPerInch" type="xs:double"/>
+  <xs:element name="hResdInPixelsPerInch" type="xs:double"/>  
   
   <xs:element name="intellectualPropertyBox">
     <xs:complexType>
-- 
2.43.0


From 5ff37655304bf8b61a28c07d7b1ceb21ac0ff88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:05 +0000
Subject: [PATCH 33/35] fix: schema rejected reports on boxes and segments with
 empty lists

A UUID list box may be empty, and in damaged files the lists of other
boxes and marker segments can be empty or missing as well.
---
 xsd/jpylyzer-v-2-2.xsd | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/xsd/jpylyzer-v-2-2.xsd b/xsd/jpylyzer-v-2-2.xsd
index c8bc622..7b58648 100644
--- a/xsd/jpylyzer-v-2-2.xsd
+++ b/xsd/jpylyzer-v-2-2.xsd
@@ -201,7 +201,7 @@
       <xs:sequence>
         <xs:element ref="br"/>
         <xs:element ref="minV"/>
-        <xs:element ref="cL" maxOccurs="unbounded"/>
+        <xs:element ref="cL" minOccurs="0" maxOccurs="unbounded"/>
       </xs:sequence>
     </xs:complexType>
   </xs:element>
@@ -244,7 +244,7 @@
 
   <xs:element name="bitsPerComponentBox">  
     <xs:complexType>
-      <xs:sequence maxOccurs="unbounded">
+      <xs:sequence minOccurs="0" maxOccurs="unbounded">
         <xs:element ref="bPCSign"/>
         <xs:element ref="bPCDepth"/>
       </xs:sequence>
@@ -339,7 +339,7 @@
       <xs:sequence>
         <xs:element ref="nE"/>
         <xs:element ref="nPC"/>
-          <xs:sequence maxOccurs="unbounded">
+          <xs:sequence minOccurs="0" maxOccurs="unbounded">
             <xs:element ref="bSign"/>
             <xs:element ref="bDepth"/>
             <xs:element ref="cP" minOccurs="0" maxOccurs="unbounded"/>
@@ -356,7 +356,7 @@
 
   <xs:element name="componentMappingBox">
     <xs:complexType>
-      <xs:sequence maxOccurs="unbounded">
+      <xs:sequence minOccurs="0" maxOccurs="unbounded">
         <xs:element ref="cMP"/>
         <xs:element ref="mTyp"/>
         <xs:element ref="pCol"/>
@@ -372,7 +372,7 @@
     <xs:complexType>
       <xs:sequence>
         <xs:element ref="n"/>
-        <xs:sequence maxOccurs="unbounded">
+        <xs:sequence minOccurs="0" maxOccurs="unbounded">
           <xs:element ref="cN"/>
           <xs:element ref="cTyp"/>
           <xs:element ref="cAssoc"/>
@@ -487,7 +487,7 @@
     <xs:complexType>
       <xs:sequence>
         <xs:element ref="nU"/>
-        <xs:element ref="uuid" maxOccurs="unbounded"/>
+        <xs:element ref="uuid" minOccurs="0" maxOccurs="unbounded"/>
       </xs:sequence>
     </xs:complexType>
   </xs:element>
@@ -561,7 +561,7 @@
         <xs:element ref="yTOsiz"/>
         <xs:element ref="numberOfTiles"/>
         <xs:element ref="csiz"/>
-        <xs:sequence maxOccurs="unbounded">
+        <xs:sequence minOccurs="0" maxOccurs="unbounded">
           <xs:element ref="ssizSign"/>
           <xs:element ref="ssizDepth"/>
           <xs:element ref="xRsiz"/>
@@ -782,7 +782,7 @@
     <xs:complexType>
       <xs:sequence>
         <xs:element ref="lpoc"/>
-        <xs:sequence maxOccurs="unbounded">
+        <xs:sequence minOccurs="0" maxOccurs="unbounded">
           <xs:element ref="rspoc"/>
           <xs:element ref="cspoc"/>
           <xs:element ref="lyepoc"/>
@@ -805,7 +805,7 @@
     <xs:complexType>
       <xs:sequence>
         <xs:element ref="lcrg"/>
-        <xs:sequence maxOccurs="unbounded">
+        <xs:sequence minOccurs="0" maxOccurs="unbounded">
           <xs:element ref="xcrg"/>
           <xs:element ref="ycrg"/>
         </xs:sequence>
-- 
2.43.0


From 087cd6407ff483159c9221db0d844c6df16a14d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:05 +0000
Subject: [PATCH 34/35] fix: schema rejected reports on cut-off COD and COC
 segments

If the code block exponents are missing, the code block size is reported
as 0.0, which is not an integer.
---
 xsd/jpylyzer-v-2-2.xsd | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd/jpylyzer-v-2-2.xsd b/xsd/jpylyzer-v-2-2.xsd
index 7b58648..b127303 100644
--- a/xsd/jpylyzer-v-2-2.xsd
+++ b/xsd/jpylyzer-v-2-2.xsd
@@ -675,8 +675,8 @@
   <xs:element name="layers" type="xs:integer"/>
   <xs:element name="multipleComponentTransformation" type="xs:string"/>
   <xs:element name="levels" type="xs:integer"/>
-  <xs:element name="codeBlockWidth" type="xs:integer"/>
-  <xs:element name="codeBlockHeight" type="xs:integer"/>
+  <xs:element name="codeBlockWidth" type="xs:double"/>
+  <xs:element name="codeBlockHeight" type="xs:double"/>
   <xs:element name="codingBypass" type="xs:string"/>
   <xs:element name="resetOnBoundaries" type="xs:string"/>
   <xs:element name="termOnEachPass" type="xs:string"/>
-- 
2.43.0


From 3c206f538b95d937c7ecc20d89bffff6b07897fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:03 +0000
Subject: [PATCH 35/35] fix: warning about unsupported boxes was missing in the
 report

The manual says that file-level warnings are also written to the warnings
element.
---
 jpylyzer/boxvalidator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index c7fb6b2..bd99618 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -131,6 +131,7 @@ class BoxValidator:
             # trigger "unknown" box validator function
             msg = "ignoring '" + self.boxType + \
                 "' (validator function not yet implemented)"
+            self.addWarning(msg)
             shared.printWarning(msg)
         else:
             to_call()
-- 
2.43.0

