From 3cdb27183e30895c47f65198c060859cf179c18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 01/34] fix: parse OCR codes on Python 3 (b32decode takes
 bytes)

---
 librksv/receipt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 0d81c14..15a47c9 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -552,7 +552,7 @@ class Receipt(object):
 
         encTurnoverCounter = None
         try:
-            encTurnoverCounter = utils.b32decode(segments[10])
+            encTurnoverCounter = utils.b32decode(segments[10].encode('utf-8'))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Encrypted turnover counter \"{}\" not Base 32 encoded.'
@@ -560,7 +560,7 @@ class Receipt(object):
 
         previousChain = None
         try:
-            previousChain = utils.b32decode(segments[12])
+            previousChain = utils.b32decode(segments[12].encode('utf-8'))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Chaining value \"{}\" not Base 32 encoded.'
@@ -568,7 +568,7 @@ class Receipt(object):
 
         signature = None
         try:
-            signature = utils.b32decode(segments[13])
+            signature = utils.b32decode(segments[13].encode('utf-8'))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Signature \"{}\" not Base 32 encoded.'
-- 
2.43.0


From 4b95873553a87a7dc1cc957766e81f8dfd14cd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 02/34] fix: give every work package its own used receipt IDs
 object

---
 librksv/verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/verify.py b/librksv/verify.py
index ad32b45..c15d3be 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -582,7 +582,7 @@ def prepareVerificationTuples(chunksWithVerifiers, key, prevStartJWS,
     del pkgRStates[-1]
 
     return zip(chunksWithVerifiers, [key] * npkgs, [prevStartJWS] * npkgs,
-            pkgRStates, [usedRecIdsBackend()] * npkgs)
+            pkgRStates, [ usedRecIdsBackend() for i in range(npkgs) ])
 
 def verifyParsedDEP(parser, keyStore, key, state = None,
         cashRegisterIdx = None, pool = None, nprocs = 1,
-- 
2.43.0


From f5cdf11a90f5da48c8e9c74598fa311c3caa36b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 03/34] fix: do not merge DEP groups with different certificate
 chains

---
 librksv/depexport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/depexport.py b/librksv/depexport.py
index 063f3c3..c2e4729 100644
--- a/librksv/depexport.py
+++ b/librksv/depexport.py
@@ -100,7 +100,7 @@ class MergingDEPStream(DEPStream):
                 except StopIteration:
                     # no more receipts, fetch next group, see if it continues
                     rec_tuples, cert, cert_list = next(self._outer._backing)
-                    if self.cert == cert and cert_list == cert_list:
+                    if self.cert == cert and self.cert_list == cert_list:
                         # more of this group, try again
                         self.extend(rec_tuples)
                         continue
-- 
2.43.0


From c7501af1b33b27b89704883b14b8fe074779a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 04/34] fix: make InvalidKeyException survive pickling between
 processes

---
 librksv/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/librksv/utils.py b/librksv/utils.py
index 1fbde92..9efec82 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -68,6 +68,7 @@ class InvalidKeyException(RKSVException):
 
     def __init__(self):
         super(InvalidKeyException, self).__init__(_("Invalid key."))
+        self._initargs = ()
 
 def depParserChunkSize():
     """
-- 
2.43.0


From a92b03f6e6251b80c492fdd90c76df21866200a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 05/34] fix: do not record a start receipt for a register that
 has a last receipt

---
 librksv/verification_state.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 7fb81ea..7e39c09 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -386,7 +386,9 @@ class CashRegisterState(object):
         else:
             self.needRestoreReceipt = False
 
-        if not self.startReceiptJWS:
+        # Like verifyGroup(), only register a start receipt if there is no
+        # previous receipt.
+        if not self.startReceiptJWS and not self.lastReceiptJWS:
             self.startReceiptJWS = depparser.expandDEPReceipt(group[0])
 
         self.lastReceiptJWS = depparser.expandDEPReceipt(group[-1])
-- 
2.43.0


From 9348e09b3107ecb00f49a2590ea66c5cfffb3409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 06/34] fix: check start receipts for already used receipt IDs
 too

---
 librksv/verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/verify.py b/librksv/verify.py
index c15d3be..7de2212 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -396,8 +396,8 @@ def verifyGroup(group, rv, key, prevStartReceiptJWS, cashRegisterState,
 
             cashRegisterState.startReceiptJWS = r
 
+        usedReceiptIds.check(ro.receiptId)
         if prevObj:
-            usedReceiptIds.check(ro.receiptId)
             if prevObj.registerId != ro.registerId:
                 raise ChangingRegisterIdException(ro.receiptId)
             if (prevObj.zda == 'AT0' and ro.zda != 'AT0') or (
-- 
2.43.0


From a756ff3ce5fbfa899105ddfb3a82c77eadcfa07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 07/34] fix: report an empty certificate ID in a key store as
 malformed

---
 librksv/key_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/key_store.py b/librksv/key_store.py
index f2c2742..c43f1db 100644
--- a/librksv/key_store.py
+++ b/librksv/key_store.py
@@ -195,7 +195,7 @@ def strSerialToKeyIds(serial):
     empty if the serial is invalid.
     """
     # for some reason the ref impl has a negative serial on some certs
-    if serial[0] == '-':
+    if serial.startswith('-'):
         serial = serial[1:]
 
     validKeyIds = list()
-- 
2.43.0


From 225161a9574667697840e592242dad876289a1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 08/34] fix: import the URL helper the state script uses

---
 verification_state.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verification_state.py b/verification_state.py
index edd509f..3e959e5 100755
--- a/verification_state.py
+++ b/verification_state.py
@@ -32,6 +32,7 @@ gettext.install('rktool', './lang', True)
 from librksv import depparser
 from librksv import utils
 from librksv.receipt import Receipt
+from librksv.url_receipt_helpers import getBasicCodeFromURL
 from librksv.verification_state import (CashRegisterState, ClusterState,
         DEFAULT_USED_RECEIPT_IDS_BACKEND)
 
-- 
2.43.0


From b1f13ce894c6430d9c1da75bd86c705b05dec65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 09/34] fix: export generators, not object IDs, by default

---
 librksv/depexport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/depexport.py b/librksv/depexport.py
index c2e4729..a89ff4f 100644
--- a/librksv/depexport.py
+++ b/librksv/depexport.py
@@ -197,7 +197,7 @@ class DEPExporter(DEPExporterI):
     which can be used to create new lists from the generators (by passing list).
     """
 
-    def __init__(self, dep_stream, output_generator_wrapper=id):
+    def __init__(self, dep_stream, output_generator_wrapper=lambda gen: gen):
         self._stream = dep_stream
         self._wrapper = output_generator_wrapper
         self._extra = dict()
-- 
2.43.0


From 5845d47cdc1fe10a255a7cbe51d98aa11a6feb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 10/34] fix: natural sort of receipt IDs with non-ASCII digits

---
 librksv/verification_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 7e39c09..24bac6b 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -228,7 +228,7 @@ class UsedReceiptIdsSortedNatural(UsedReceiptIdsBackend):
     # https://blog.codinghorror.com/sorting-for-humans-natural-sort-order/
     @staticmethod
     def _key(recId):
-        convert = lambda text: int(text) if text.isdigit() else text.lower()
+        convert = lambda text: int(text) if _numSplitRegex.match(text) else text.lower()
         return [ convert(c) for c in _numSplitRegex.split(recId) ]
 
     def __init__(self):
-- 
2.43.0


From 2be1a5a163d328082162327f31df3f3b412e6347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 11/34] fix: accept an empty certificate element before the
 receipts in streams

---
 librksv/depparser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index d76bea3..7879c88 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -165,6 +165,8 @@ class DEPStateWithIncompleteData(DEPStateWithData):
     class WIPData(object):
         def __init__(self):
             self.cert = None
+            # an empty certificate element is represented by None as well
+            self.cert_known = False
             self.cert_chain = None
             self.recs = list()
 
@@ -177,12 +179,13 @@ class DEPStateWithIncompleteData(DEPStateWithData):
         self.idx = idx
 
     def needCrt(self):
-        if self.wip.cert is None or self.wip.cert_chain is None:
+        if not self.wip.cert_known or self.wip.cert_chain is None:
             return self.idx
         return None
 
     def setCrt(self, cert, cert_chain):
         self.wip.cert = cert
+        self.wip.cert_known = True
         self.wip.cert_chain = cert_chain
 
     def mergeIntoChunk(self):
@@ -283,6 +286,7 @@ class DEPStateGroup(DEPStateWithIncompleteData):
                         _('not a string'), self.idx)
             self.cert_seen = True
             self.wip.cert = parseDEPCert(value) if value != '' else None
+            self.wip.cert_known = True
 
         elif prefix == 'Belege-Gruppe.item.Zertifizierungsstellen':
             if self.cert_list_seen:
-- 
2.43.0


From ea19fb6b2f0e8b7a2009bd23b6514c249c633e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 12/34] fix: report missing or malformed certificate elements
 found by look-ahead

---
 librksv/depparser.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index 7879c88..441edd0 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -542,10 +542,23 @@ class FileDEPParser(IncrementalDEPParser):
         return items
 
     def _needCerts(self, state, chunksize, groupidx):
-        cert_str = self.__getItems(
-                'Belege-Gruppe.item.Signaturzertifikat', chunksize)[groupidx]
-        cert_str_list = self.__getItems(
-                'Belege-Gruppe.item.Zertifizierungsstellen', chunksize)[groupidx]
+        certs = self.__getItems(
+                'Belege-Gruppe.item.Signaturzertifikat', chunksize)
+        if groupidx >= len(certs):
+            raise MissingDEPElementException('Signaturzertifikat', groupidx)
+        cert_lists = self.__getItems(
+                'Belege-Gruppe.item.Zertifizierungsstellen', chunksize)
+        if groupidx >= len(cert_lists):
+            raise MissingDEPElementException('Zertifizierungsstellen', groupidx)
+
+        cert_str = certs[groupidx]
+        if not isinstance(cert_str, string_types):
+            raise MalformedDEPElementException('Signaturzertifikat',
+                    _('not a string'), groupidx)
+        cert_str_list = cert_lists[groupidx]
+        if not isinstance(cert_str_list, list):
+            raise MalformedDEPElementException('Zertifizierungsstellen',
+                    _('not a list'), groupidx)
         cert = parseDEPCert(cert_str) if cert_str != '' else None
         cert_list = [ parseDEPCert(cs) for cs in cert_str_list ]
         state.setCrt(cert, cert_list)
-- 
2.43.0


From f41ddbdab65777de0f824c73a5737a138c4af401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 13/34] fix: reject receipt lists in DEPs that are no lists of
 strings

---
 librksv/depparser.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index 441edd0..3fb701a 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -345,7 +345,7 @@ def shrinkDEPReceipt(rec, idx = None):
     """
     try:
         return rec.encode('utf-8')
-    except TypeError:
+    except (AttributeError, TypeError):
         if idx is None:
             raise MalformedDEPElementException(_('Receipt \"{}\"').format(rec))
         else:
@@ -619,7 +619,7 @@ class DictDEPParser(DEPParserI):
 
         cert_str = group['Signaturzertifikat']
         cert_str_list = group['Zertifizierungsstellen']
-        receipts = (shrinkDEPReceipt(r) for r in group['Belege-kompakt'])
+        recs = group['Belege-kompakt']
 
         if not isinstance(cert_str, string_types):
             raise MalformedDEPElementException('Signaturzertifikat',
@@ -627,12 +627,11 @@ class DictDEPParser(DEPParserI):
         if not isinstance(cert_str_list, list):
             raise MalformedDEPElementException('Zertifizierungsstellen',
                     _('not a list'), idx)
-        try:
-            iter(receipts)
-        except TypeError:
+        if not isinstance(recs, list):
             raise MalformedDEPElementException('Belege-kompakt',
                     _('not a list'), idx)
 
+        receipts = (shrinkDEPReceipt(r) for r in recs)
         cert = parseDEPCert(cert_str) if cert_str != '' else None
         cert_list = [ parseDEPCert(cs) for cs in cert_str_list ]
 
-- 
2.43.0


From e4f128797218fda21d7f3cdf3e16e259bcd4cece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 14/34] fix: treat receipts that can not be encoded as UTF-8 as
 malformed

---
 librksv/depparser.py |  2 +-
 librksv/receipt.py   | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index 3fb701a..ee04664 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -345,7 +345,7 @@ def shrinkDEPReceipt(rec, idx = None):
     """
     try:
         return rec.encode('utf-8')
-    except (AttributeError, TypeError):
+    except (AttributeError, TypeError, UnicodeEncodeError):
         if idx is None:
             raise MalformedDEPElementException(_('Receipt \"{}\"').format(rec))
         else:
diff --git a/librksv/receipt.py b/librksv/receipt.py
index 15a47c9..7bc2b6d 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -189,6 +189,13 @@ def _getEmptyOrB64(b, receiptId, reason):
     except (TypeError, binascii.Error):
         raise MalformedReceiptException(receiptId, reason)
 
+def _isEncodable(s):
+    try:
+        s.encode('utf-8')
+        return True
+    except UnicodeEncodeError:
+        return False
+
 class Receipt(object):
     """
     The basic receipt class. Contains methods to convert a receipt to and from
@@ -312,7 +319,8 @@ class Receipt(object):
         :throws: UnknownAlgorithmException
         :throws: AlgorithmMismatchException
         """
-        if not isinstance(jwsString, string_types):
+        if not isinstance(jwsString, string_types) \
+                or not _isEncodable(jwsString):
             raise MalformedReceiptException(jwsString, _('Invalid JWS.'))
 
         jwsSegs = jwsString.split('.')
@@ -449,7 +457,8 @@ class Receipt(object):
         :throws: MalformedReceiptException
         :throws: UnknownAlgorithmException
         """
-        if not isinstance(basicCode, string_types):
+        if not isinstance(basicCode, string_types) \
+                or not _isEncodable(basicCode):
             raise MalformedReceiptException(basicCode,
                     _('Invalid machine-readable code.'))
 
@@ -541,7 +550,8 @@ class Receipt(object):
         :throws: MalformedReceiptException
         :throws: UnknownAlgorithmException
         """
-        if not isinstance(ocrCode, string_types):
+        if not isinstance(ocrCode, string_types) \
+                or not _isEncodable(ocrCode):
             raise MalformedReceiptException(ocrCode,
                     _('Invalid OCR code.'))
 
-- 
2.43.0


From 92e5d1d05b4f4eddd0542fdb87976ad69c6d4fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 15/34] fix: treat signatures as invalid if the key is not an
 EC key

---
 librksv/algorithms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/librksv/algorithms.py b/librksv/algorithms.py
index c0b9d1d..016669d 100644
--- a/librksv/algorithms.py
+++ b/librksv/algorithms.py
@@ -29,6 +29,7 @@ import base64
 import jwt
 import jwt.algorithms
 
+from cryptography.hazmat.primitives.asymmetric import ec
 from six import binary_type
 
 from . import utils
@@ -186,6 +187,10 @@ class R1(AlgorithmI):
         return sig
 
     def verify(self, jwsString, pubKey):
+        # ES256 signatures can't be verified with anything else.
+        if not isinstance(pubKey, ec.EllipticCurvePublicKey):
+            return False
+
         payload = None
         try:
             payload = jwt.PyJWS().decode(jwsString, pubKey)
-- 
2.43.0


From aaf5cb813707dc7bf38776efdbdc51cf75718a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 16/34] fix: sum up turnovers exactly instead of with floats

---
 librksv/receipt.py            | 9 +++++++++
 librksv/verification_state.py | 6 ++----
 librksv/verify.py             | 3 +--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 7bc2b6d..4e7b5b7 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -735,6 +735,15 @@ class Receipt(object):
         """
         return self.sumA == 0.0 and self.sumB == 0.0 and self.sumC == 0.0 and self.sumD == 0.0 and self.sumE == 0.0
 
+    def turnover(self):
+        """
+        Sums up the turnover of this receipt. The sum is calculated from the
+        string representations because floats can't represent large sums.
+        :return: The turnover in cents as int.
+        """
+        return sum(int(s.replace(',', '')) for s in (self.sumAStr,
+            self.sumBStr, self.sumCStr, self.sumDStr, self.sumEStr))
+
     def decryptTurnoverCounter(self, key, algorithm):
         """
         Decrypts the encrypted turnover counter using the given key and
diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 24bac6b..e15c698 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -410,8 +410,7 @@ class CashRegisterState(object):
                 reversals.insert(0, ro)
 
         for ro in reversals:
-            self.lastTurnoverCounter += int(round(
-                (ro.sumA + ro.sumB + ro.sumC + ro.sumD + ro.sumE) * 100))
+            self.lastTurnoverCounter += ro.turnover()
 
     def __eq__(self, other):
         if isinstance(other, self.__class__):
@@ -450,8 +449,7 @@ class ClusterState(object):
         dummyLastTC = 0
         if key and not rec.isDummy() and not rec.isReversal():
             curTC = rec.decryptTurnoverCounter(key, algorithm)
-            dummyLastTC = curTC - int(round((rec.sumA + rec.sumB + rec.sumC
-                + rec.sumD + rec.sumE) * 100))
+            dummyLastTC = curTC - rec.turnover()
 
         dummyChain = base64.b64encode("DUMMY000".encode('utf-8'))
         dummyRec = receipt.Receipt(rec.zda, rec.registerId, "dummyrec",
diff --git a/librksv/verify.py b/librksv/verify.py
index 7de2212..dc55ec4 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -429,8 +429,7 @@ def verifyGroup(group, rv, key, prevStartReceiptJWS, cashRegisterState,
         if not ro.isDummy():
             if key is not None:
                 utils.raiseForKey(key, algorithm)
-                newC = cashRegisterState.lastTurnoverCounter + int(round(
-                    (ro.sumA + ro.sumB + ro.sumC + ro.sumD + ro.sumE) * 100))
+                newC = cashRegisterState.lastTurnoverCounter + ro.turnover()
                 if not ro.isReversal():
                     turnoverCounter = ro.decryptTurnoverCounter(key, algorithm)
                     if turnoverCounter != newC:
-- 
2.43.0


From ed11117b8114e5254f6a6ac9e0e982896b8048dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 17/34] fix: extract certificates stored after the receipts of
 a chunked group

---
 cert_extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cert_extract.py b/cert_extract.py
index cc71ad6..a7fc38b 100755
--- a/cert_extract.py
+++ b/cert_extract.py
@@ -43,7 +43,7 @@ if __name__ == "__main__":
         os.mkdir(outDir)
     os.chdir(outDir)
 
-    parser = depparser.CertlessStreamDEPParser(sys.stdin)
+    parser = depparser.IncrementalDEPParser.fromFd(sys.stdin, True)
     for chunk in parser.parse(utils.depParserChunkSize()):
         for recs, cert, cert_list in chunk:
             groupCerts = list(cert_list)
-- 
2.43.0


From a73244a7aed2eeea4d2ce9c8c51c26edc363bfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:32 +0000
Subject: [PATCH 18/34] fix: let the scripts start on Python 3.11 and later

---
 cert_extract.py           |  4 ++--
 convert.py                |  4 ++--
 demo.py                   |  4 ++--
 img_decode.py             |  4 ++--
 key_store.py              |  4 ++--
 librksv/gettext_helper.py | 10 ++++++++++
 merge.py                  |  4 ++--
 receipt.py                |  4 ++--
 receipt_host.py           |  4 ++--
 rktool.py                 |  4 ++--
 split.py                  |  4 ++--
 verification_state.py     |  4 ++--
 verify.py                 |  4 ++--
 verify_receipt.py         |  4 ++--
 14 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/cert_extract.py b/cert_extract.py
index a7fc38b..68eb9c8 100755
--- a/cert_extract.py
+++ b/cert_extract.py
@@ -20,8 +20,8 @@
 from builtins import int
 from builtins import range
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 import os
 import sys
diff --git a/convert.py b/convert.py
index 81263d8..3a100dd 100755
--- a/convert.py
+++ b/convert.py
@@ -21,8 +21,8 @@ from __future__ import print_function
 from builtins import int
 from builtins import range
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 import sys
 
diff --git a/demo.py b/demo.py
index d56d710..ec88121 100755
--- a/demo.py
+++ b/demo.py
@@ -21,8 +21,8 @@ from __future__ import print_function
 from builtins import int
 from builtins import range
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 import datetime
 import random
diff --git a/img_decode.py b/img_decode.py
index 8662b35..ccaa851 100755
--- a/img_decode.py
+++ b/img_decode.py
@@ -70,8 +70,8 @@ except ImportError:
         return syms
 
 if __name__ == "__main__":
-    import gettext
-    gettext.install('rktool', './lang', True)
+    from librksv import gettext_helper
+    gettext_helper.install()
 
     import sys
     from PIL import Image
diff --git a/key_store.py b/key_store.py
index 5ad9762..9a9bf3a 100755
--- a/key_store.py
+++ b/key_store.py
@@ -24,8 +24,8 @@ import configparser
 import json
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import utils
 from librksv.key_store import KeyStore
diff --git a/librksv/gettext_helper.py b/librksv/gettext_helper.py
index 851f95d..79d3a93 100644
--- a/librksv/gettext_helper.py
+++ b/librksv/gettext_helper.py
@@ -22,3 +22,13 @@ import six
 # We always want text to be unicode encoded.
 _gt = gettext.translation('rktool', './lang', fallback=True)
 _ = _gt.ugettext if six.PY2 else _gt.gettext
+
+def install():
+    """
+    Makes the gettext function available to the scripts. Only Python 2 has (and
+    needs) the flag to return unicode strings.
+    """
+    if six.PY2:
+        gettext.install('rktool', './lang', True)
+    else:
+        gettext.install('rktool', './lang')
diff --git a/merge.py b/merge.py
index 80e6ff4..3b28d3c 100755
--- a/merge.py
+++ b/merge.py
@@ -22,8 +22,8 @@ from builtins import int
 
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depexport
 from librksv import depparser
diff --git a/receipt.py b/receipt.py
index ada49d9..0e68de2 100755
--- a/receipt.py
+++ b/receipt.py
@@ -21,8 +21,8 @@ from builtins import int
 
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv.receipt import Receipt
 from librksv.url_receipt_helpers import getBasicCodeFromURL
diff --git a/receipt_host.py b/receipt_host.py
index 6e4077c..a2bb3dd 100755
--- a/receipt_host.py
+++ b/receipt_host.py
@@ -24,8 +24,8 @@ import sys
 
 from flask import Flask, abort, jsonify, make_response
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depparser
 from librksv import receipt
diff --git a/rktool.py b/rktool.py
index 6fa1884..5c36e86 100755
--- a/rktool.py
+++ b/rktool.py
@@ -1040,8 +1040,8 @@ class RKToolApp(App):
         return sm
 
 if __name__ == '__main__':
-    import gettext
-    gettext.install('rktool', './lang', True)
+    from librksv import gettext_helper
+    gettext_helper.install()
 
     if platform != 'android':
         from kivy.config import Config
diff --git a/split.py b/split.py
index 40174d7..2d0dfe4 100755
--- a/split.py
+++ b/split.py
@@ -22,8 +22,8 @@ from builtins import int
 import os
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depexport
 from librksv import depparser
diff --git a/verification_state.py b/verification_state.py
index 3e959e5..3aa0c6b 100755
--- a/verification_state.py
+++ b/verification_state.py
@@ -26,8 +26,8 @@ import copy
 import json
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depparser
 from librksv import utils
diff --git a/verify.py b/verify.py
index dbf7ae4..b97aefb 100755
--- a/verify.py
+++ b/verify.py
@@ -24,8 +24,8 @@ from builtins import range
 import json
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depparser
 from librksv import key_store
diff --git a/verify_receipt.py b/verify_receipt.py
index 03bdd76..94a8bbf 100755
--- a/verify_receipt.py
+++ b/verify_receipt.py
@@ -24,8 +24,8 @@ import sys
 
 from six import string_types
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import key_store
 from librksv import receipt
-- 
2.43.0


From cc02189d69b7a69d1cbe579096948f2955b986cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:37 +0000
Subject: [PATCH 19/34] fix: let key stores with RSA keys be passed to worker
 processes

---
 librksv/key_store.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/librksv/key_store.py b/librksv/key_store.py
index c43f1db..f5ba26b 100644
--- a/librksv/key_store.py
+++ b/librksv/key_store.py
@@ -256,6 +256,14 @@ class KeyTuple(object):
         self.key = key
         self.cert = cert
 
+    # The public key classes (other than the one for EC keys) can't be pickled.
+    def __getstate__(self):
+        return (self.keyId, utils.exportKeyToPEM(self.key), self.cert)
+
+    def __setstate__(self, state):
+        self.keyId, keyStr, self.cert = state
+        self.key = utils.loadPubKey(utils.addPEMPubKeyHeaders(keyStr))
+
 class KeyStore(KeyStoreI):
     """
     A basic implementation of a key store. It allows writing the store to and
-- 
2.43.0


From 601f838d29d901a32fee657ed328f052e34f090a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 20/34] fix: treat certificates of unsupported kinds as
 malformed or unverifiable

---
 librksv/utils.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/librksv/utils.py b/librksv/utils.py
index 9efec82..31dbdc5 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -41,7 +41,7 @@ from cryptography.hazmat.primitives.asymmetric import ec, rsa, padding
 from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
 from cryptography.hazmat.primitives.serialization import load_pem_private_key, load_pem_public_key, Encoding, PublicFormat
 from cryptography.hazmat.primitives import hashes
-from cryptography.exceptions import InvalidSignature
+from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
 from cryptography.x509.oid import NameOID
 
 class RKSVException(Exception):
@@ -132,8 +132,17 @@ def loadCert(pem):
     Creates a cryptography certificate object from the given PEM certificate.
     :param pem: A certificate as a PEM string.
     :return: A cryptography certificate object.
+    :throws: ValueError if the certificate is malformed or uses a version or a
+    public key that is not supported.
     """
-    return x509.load_pem_x509_certificate(pem.encode("utf-8"), default_backend())
+    try:
+        cert = x509.load_pem_x509_certificate(pem.encode("utf-8"),
+                default_backend())
+        # The key is not parsed before someone asks for it.
+        cert.public_key()
+    except (x509.InvalidVersion, UnsupportedAlgorithm) as e:
+        raise ValueError(str(e))
+    return cert
 
 def loadPubKey(pem):
     """
@@ -205,7 +214,13 @@ def verifyCert(cert, signCert):
     :return: True if the signature is a valid ECDSA signature, False otherwise.
     """
     # FIXME: This is very likely wrong and we should find a better way to verify certs.
-    halg = cert.signature_hash_algorithm
+    try:
+        halg = cert.signature_hash_algorithm
+    except UnsupportedAlgorithm:
+        return False
+    # Not all signature algorithms use a hash algorithm (e.g. Ed25519).
+    if halg is None:
+        return False
     sig = cert.signature
     data = cert.tbs_certificate_bytes
 
-- 
2.43.0


From bc1c4589dc40ac630592e0ebf143a280e97da190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 21/34] fix: report invalid UTF-8 and huge numbers in a DEP
 file as malformed JSON

---
 librksv/depparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index ee04664..5259cf4 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -473,7 +473,9 @@ class IncrementalDEPParser(DEPParserI):
                 yield last
             elif not got_something:
                 raise MalformedDEPException(_('No receipts found'))
-        except ijson.JSONError as e:
+        # ijson lets errors for invalid UTF-8 and for numbers out of the range of
+        # its decimal type pass.
+        except (ijson.JSONError, UnicodeDecodeError, ArithmeticError) as e:
             raise DEPParseException(_('Malformed JSON: {}.').format(e))
 
 
-- 
2.43.0


From ce700ad7f72f3f13334f35fcd2eabf39ca5c9296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:55 +0000
Subject: [PATCH 22/34] fix: treat public keys of unsupported kinds as
 malformed

---
 librksv/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/librksv/utils.py b/librksv/utils.py
index 31dbdc5..605d786 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -149,8 +149,13 @@ def loadPubKey(pem):
     Creates a cryptography public key object from the given PEM public key.
     :param pem: A public key as a PEM string.
     :return: A cryptography public key object.
+    :throws: ValueError if the public key is malformed or of a kind that is not
+    supported.
     """
-    return load_pem_public_key(pem.encode("utf-8"), default_backend())
+    try:
+        return load_pem_public_key(pem.encode("utf-8"), default_backend())
+    except UnsupportedAlgorithm as e:
+        raise ValueError(str(e))
 
 def loadPrivKey(pem):
     """
-- 
2.43.0


From 296e4a7739843b2ab17b9dcdb082c69177b9ed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:28 +0000
Subject: [PATCH 23/34] fix: leave the passed state untouched when a
 verification fails

---
 librksv/verification_state.py | 11 +++++++++++
 librksv/verify.py             |  6 ++++++
 2 files changed, 17 insertions(+)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index e15c698..37c641f 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -468,6 +468,17 @@ class ClusterState(object):
         cs = ClusterState(usedRecIdsBackend, rec.previousChain)
         return cs
 
+    def shallowCopy(self):
+        """
+        Creates a copy of the cluster state to which cash registers can be added
+        and in which cash registers and used receipt IDs can be replaced without
+        affecting the original.
+        :return: The copy as a ClusterState object.
+        """
+        new = copy.copy(self)
+        new.cashRegisters = list(self.cashRegisters)
+        return new
+
     def addNewCashRegister(self):
         """
         Appends a new cash register to the list of cash registers. If the
diff --git a/librksv/verify.py b/librksv/verify.py
index dc55ec4..8436e9b 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -643,6 +643,9 @@ def verifyParsedDEP(parser, keyStore, key, state = None,
     """
     if not state:
         state = verification_state.ClusterState(usedRecIdsBackend)
+    else:
+        # The caller's state must stay usable if the verification fails.
+        state = state.shallowCopy()
 
     # Use the same backend in all processes so we don't have to do merging
     # across different backends.
@@ -724,6 +727,9 @@ def verifyDEP(dep, keyStore, key, state = None, cashRegisterIdx = None,
     """
     if not state:
         state = verification_state.ClusterState(usedRecIdsBackend)
+    else:
+        # The caller's state must stay usable if the verification fails.
+        state = state.shallowCopy()
 
     prevStart, rState, usedRecIds = state.getCashRegisterInfo(
             cashRegisterIdx)
-- 
2.43.0


From 5ce2d02ab6aa83f551d8b8215b94660853933fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:14 +0000
Subject: [PATCH 24/34] fix: let the GUI open receipts of a DEP

The parsers keep the receipts of a DEP as bytes, which have to be expanded
before they can be read as a JWS.
---
 rktool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rktool.py b/rktool.py
index 5c36e86..7531c6a 100755
--- a/rktool.py
+++ b/rktool.py
@@ -600,7 +600,7 @@ class VerifyDEPWidget(BoxLayout):
     def viewReceipt(self, btn):
         try:
             recs, cert, cert_list = self.dep[btn.group_id]
-            jws = recs[btn.receipt_id]
+            jws = depparser.expandDEPReceipt(recs[btn.receipt_id])
             rec, prefix = receipt.Receipt.fromJWSString(jws)
 
             self._receipt_view = getModalView()
-- 
2.43.0


From 7445c16c29969e695f3237c81869a6945cbeadd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:25 +0000
Subject: [PATCH 25/34] fix: show errors of a key store import in the GUI

configparser is not imported any more, so every error ended in a NameError;
errors of the key store itself were not shown either.
---
 rktool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rktool.py b/rktool.py
index 7531c6a..a86f941 100755
--- a/rktool.py
+++ b/rktool.py
@@ -943,7 +943,7 @@ class KeyStoreWidget(BoxLayout):
 
             App.get_running_app().curSearchPath = path
         except (IOError, UnicodeDecodeError, ValueError,
-                configparser.Error) as e:
+                key_store.KeyStoreException) as e:
             displayError(e)
         except KeyError:
             displayError(_("Malformed crypto container"))
-- 
2.43.0


From a19660b1d58f0d35e748c02e7b18e716383811d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:38 +0000
Subject: [PATCH 26/34] fix: show an error for malformed receipt server
 responses in the GUI

---
 rktool.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rktool.py b/rktool.py
index a86f941..b046ec9 100755
--- a/rktool.py
+++ b/rktool.py
@@ -538,7 +538,13 @@ class VerifyReceiptWidget(BoxLayout):
                 rec, prefix = receipt.Receipt.fromOCRCode(self.receiptInput.text)
             elif (self._input_type == 'URL'):
                 urlHash = getURLHashFromURL(self.receiptInput.text)
-                basicCode = getBasicCodeFromURL(self.receiptInput.text)
+                try:
+                    basicCode = getBasicCodeFromURL(self.receiptInput.text)
+                except RequestException:
+                    raise
+                except (ValueError, KeyError, TypeError):
+                    displayError(_("Malformed response from server."))
+                    return
 
                 rec, prefix = receipt.Receipt.fromBasicCode(basicCode)
 
-- 
2.43.0


From ac2a64584f28cf8cd020d74c035787e422f89ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:31 +0000
Subject: [PATCH 27/34] fix: show an error for crypto containers with a
 malformed AES key in the GUI

---
 rktool.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rktool.py b/rktool.py
index b046ec9..ff95aea 100755
--- a/rktool.py
+++ b/rktool.py
@@ -23,6 +23,8 @@ from builtins import range
 import kivy
 kivy.require('1.9.0')
 
+from six import string_types
+
 import os
 import json
 
@@ -245,6 +247,12 @@ class ViewReceiptItem(GridLayout, SelectableView):
     item_name = ObjectProperty(None)
     item_value = ObjectProperty(None)
 
+def getAESFromJson(jsonAES):
+    if not isinstance(jsonAES, dict) or not isinstance(
+            jsonAES.get("base64AESKey"), string_types):
+        raise KeyError("base64AESKey")
+    return jsonAES["base64AESKey"]
+
 def verifyReceiptTask(rec, prefix, store):
     try:
         rv = verify_receipt.ReceiptVerifier.fromKeyStore(store)
@@ -385,7 +393,7 @@ class ViewReceiptWidget(BoxLayout):
             with open(full) as f:
                 if full.endswith(".json"):
                     jsonAES = utils.readJsonStream(f)
-                    key = jsonAES["base64AESKey"]
+                    key = getAESFromJson(jsonAES)
                 else:
                     key = f.read()
 
@@ -802,7 +810,7 @@ class VerifyDEPWidget(BoxLayout):
             with open(full) as f:
                 if full.endswith(".json"):
                     jsonAES = utils.readJsonStream(f)
-                    self.aesInput.text = jsonAES["base64AESKey"]
+                    self.aesInput.text = getAESFromJson(jsonAES)
                 else:
                     self.aesInput.text = f.read()
 
-- 
2.43.0


From 8241eab46f69f3a171fd1a30f158e87da725c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:12 +0000
Subject: [PATCH 28/34] fix: report unusable AES keys when verifying a DEP in
 the GUI

InvalidKeyException is neither a ReceiptException nor a DEPException. It got
lost in the worker process and the verification never ended.
---
 rktool.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rktool.py b/rktool.py
index ff95aea..1c2ee2f 100755
--- a/rktool.py
+++ b/rktool.py
@@ -580,21 +580,21 @@ def verifyDEP_prepare_Task(dep, store, key, nprocs):
         inargs = verify.prepareVerificationTuples(pkgs, key, None, rState,
                 verification_state.UsedReceiptIdsUnique)
         return None, inargs
-    except (receipt.ReceiptException, depparser.DEPException) as e:
+    except utils.RKSVException as e:
         return e, None
 
 def verifyDEP_main_Task(args):
     try:
         rState, usedRecIds = verify.verifyGroupsWithVerifiersTuple(args)
         return None, usedRecIds
-    except (receipt.ReceiptException, depparser.DEPException) as e:
+    except utils.RKSVException as e:
         return e, None
 
 def verifyDEP_finalize_Task(outUsedRecIds, usedRecIds):
     try:
         usedRecIds.merge(outUsedRecIds)
         return None, usedRecIds
-    except (receipt.ReceiptException, depparser.DEPException) as e:
+    except utils.RKSVException as e:
         return e, None
 
 # TODO: add a visual way to determine where an error happened?
-- 
2.43.0


From 00e6c3fde1cffd076f18cc3176590917e11e1196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:06 +0000
Subject: [PATCH 29/34] fix: show large sums and counters exactly in the GUI

---
 rktool.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/rktool.py b/rktool.py
index 1c2ee2f..fe41726 100755
--- a/rktool.py
+++ b/rktool.py
@@ -253,6 +253,14 @@ def getAESFromJson(jsonAES):
         raise KeyError("base64AESKey")
     return jsonAES["base64AESKey"]
 
+# No floats for sums, they can't represent large ones.
+def formatCents(cents):
+    return '%s%d.%02d' % ('-' if cents < 0 else '', abs(cents) // 100,
+            abs(cents) % 100)
+
+def formatSum(sumStr):
+    return sumStr.strip().replace(',', '.')
+
 def verifyReceiptTask(rec, prefix, store):
     try:
         rv = verify_receipt.ReceiptVerifier.fromKeyStore(store)
@@ -328,7 +336,7 @@ class ViewReceiptWidget(BoxLayout):
         elif key and (algorithmPrefix in algorithms.ALGORITHMS):
             algorithm = algorithms.ALGORITHMS[algorithmPrefix]
             turnoverCounter = receipt.decryptTurnoverCounter(key, algorithm)
-            turnoverCounter = str(float(turnoverCounter) / 100)
+            turnoverCounter = formatCents(turnoverCounter)
 
         signature = receipt.signature
         if receipt.isSignedBroken():
@@ -338,11 +346,11 @@ class ViewReceiptWidget(BoxLayout):
                 , 2: ( _('Cash Register ID'), receipt.registerId )
                 , 3: ( _('Receipt ID'), receipt.receiptId )
                 , 4: ( _('Timestamp'), receipt.dateTime.strftime("%Y-%m-%dT%H:%M:%S") )
-                , 5: ( _('Sum Tax Normal'), str(receipt.sumA) )
-                , 6: ( _('Sum Tax Reduced 1'), str(receipt.sumB) )
-                , 7: ( _('Sum Tax Reduced 2'), str(receipt.sumC) )
-                , 8: ( _('Sum Tax Zero'), str(receipt.sumD) )
-                , 9: ( _('Sum Tax Special'), str(receipt.sumE) )
+                , 5: ( _('Sum Tax Normal'), formatSum(receipt.sumAStr) )
+                , 6: ( _('Sum Tax Reduced 1'), formatSum(receipt.sumBStr) )
+                , 7: ( _('Sum Tax Reduced 2'), formatSum(receipt.sumCStr) )
+                , 8: ( _('Sum Tax Zero'), formatSum(receipt.sumDStr) )
+                , 9: ( _('Sum Tax Special'), formatSum(receipt.sumEStr) )
                 ,10: ( _('Turnover Counter'), turnoverCounter )
                 ,11: ( _('Certificate Serial/Key ID'), receipt.certSerial )
                 ,12: ( _('Chaining Value'), receipt.previousChain )
-- 
2.43.0


From 54e4c0ca713d089c5c7eabcef8e7e85ceb3ffade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:06 +0000
Subject: [PATCH 30/34] fix: handle DEP verification results in the main thread
 of the GUI

---
 rktool.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rktool.py b/rktool.py
index fe41726..fb815fb 100755
--- a/rktool.py
+++ b/rktool.py
@@ -736,6 +736,7 @@ class VerifyDEPWidget(BoxLayout):
             App.get_running_app().pool.map_async(verifyDEP_main_Task,
                     result[1], callback = self.verifyDEP_main_Cb)
 
+    @mainthread
     def verifyDEP_main_Cb(self, result):
         if not self._verifying:
             return
-- 
2.43.0


From 6f9ff21accc3d4d416280db23dfefeef682b0dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:10 +0000
Subject: [PATCH 31/34] fix: refuse "_" in CSV receipts

The separator of the machine-readable code was taken as a field separator
in CSV as well, so lines with too few columns were accepted and written
back differently.
---
 librksv/receipt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 4e7b5b7..7ae44fc 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -656,7 +656,8 @@ class Receipt(object):
         :throws: MalformedReceiptException
         :throws: UnknownAlgorithmException
         """
-        if not isinstance(csv, string_types):
+        # No field can contain the separator of the machine-readable code.
+        if not isinstance(csv, string_types) or '_' in csv:
             raise MalformedReceiptException(csv,
                     _('Invalid CSV.'))
 
-- 
2.43.0


From 8ada5ec8440628eec32eb8102a2ded98ed80b4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:45 +0000
Subject: [PATCH 32/34] fix: accept DEP elements with an empty name when
 reading incrementally

---
 librksv/depparser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index 5259cf4..eaa2562 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -226,8 +226,17 @@ class DEPStateRootMap(DEPStateWithData):
     def __init__(self, chunksize, upper):
         super(DEPStateRootMap, self).__init__(chunksize, upper)
         self.groups_seen = False
+        self.unnamed_depth = 0
 
     def parse(self, prefix, event, value):
+        # An element with an empty name has the same prefix as the root.
+        if prefix == '' and event == 'start_map':
+            self.unnamed_depth += 1
+            return self
+        if prefix == '' and event == 'end_map' and self.unnamed_depth > 0:
+            self.unnamed_depth -= 1
+            return self
+
         if prefix == '' and event == 'end_map':
             if not self.groups_seen:
                 raise MissingDEPElementException('Belege-Gruppe')
-- 
2.43.0


From 12c7284edba91e47d1bbdaebf829871644f816f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:11 +0000
Subject: [PATCH 33/34] fix: do not take other DEP elements for group
 certificates

---
 librksv/depparser.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index eaa2562..46b322d 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -537,6 +537,16 @@ class FileDEPParser(IncrementalDEPParser):
     DEP to be returned in a single chunk.
     """
 
+    def __groupEvents(self):
+        # Other elements must not be mistaken for the list of groups because
+        # their names look like the path of an element in it.
+        name = None
+        for prefix, event, value in ijson.parse(self.fd):
+            if prefix == '' and event == 'map_key':
+                name = value
+            if prefix == '' or name == 'Belege-Gruppe':
+                yield prefix, event, value
+
     def __getItems(self, prefix, chunksize):
         if prefix in self.cache:
             return self.cache[prefix]
@@ -544,7 +554,7 @@ class FileDEPParser(IncrementalDEPParser):
         # cache miss, gotta parse the JSON again
         ofs = self.fd.tell()
         self.fd.seek(self.startpos)
-        items = list(ijson.items(self.fd, prefix))
+        items = list(ijson.common.items(self.__groupEvents(), prefix))
         self.fd.seek(ofs)
 
         if chunksize == 0 or len(items) <= chunksize:
-- 
2.43.0


From 0044846e126ab14d695d567464f974dbd3d072e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:26 +0000
Subject: [PATCH 34/34] fix: let DEP streams hold any number of groups

---
 librksv/depexport.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/librksv/depexport.py b/librksv/depexport.py
index a89ff4f..cdb4ea5 100644
--- a/librksv/depexport.py
+++ b/librksv/depexport.py
@@ -33,7 +33,7 @@ except ImportError:
     # fall back to import from "backports_abc"
     from backports_abc import Generator
 
-from collections import OrderedDict
+from collections import OrderedDict, deque
 
 from . import utils
 
@@ -51,13 +51,21 @@ class DEPStream(Generator):
 
     def __init__(self, stream=None):
         self._last = None
-        if stream is None:
-            self._backing = itertools.chain()
-        else:
-            self._backing = itertools.chain(stream)
+        # Nested itertools.chain objects would exhaust the stack eventually.
+        self._backing = deque()
+        if stream is not None:
+            self.extend(stream)
+
+    def _next(self):
+        while self._backing:
+            try:
+                return next(self._backing[0])
+            except StopIteration:
+                self._backing.popleft()
+        raise StopIteration
 
     def send(self, dummy):
-        return next(self._backing)
+        return self._next()
 
     def throw(self, type=None, value=None, traceback=None):
         raise StopIteration
@@ -73,11 +81,10 @@ class DEPStream(Generator):
         :param cert_chain: A list of certificate objects containing the
         chain of signing certificates used for the group.
         """
-        ng = (receipt_tuples, cert, cert_chain)
-        self._backing = itertools.chain(self._backing, [ng])
+        self.extend([(receipt_tuples, cert, cert_chain)])
 
     def extend(self, more):
-        self._backing = itertools.chain(self._backing, more)
+        self._backing.append(iter(more))
 
 class MergingDEPStream(DEPStream):
     """
@@ -99,15 +106,14 @@ class MergingDEPStream(DEPStream):
                     return next(self._backing)
                 except StopIteration:
                     # no more receipts, fetch next group, see if it continues
-                    rec_tuples, cert, cert_list = next(self._outer._backing)
+                    rec_tuples, cert, cert_list = self._outer._next()
                     if self.cert == cert and self.cert_list == cert_list:
                         # more of this group, try again
                         self.extend(rec_tuples)
                         continue
                     # no additional receipts, reinsert extracted group and stop
-                    self._outer._backing = itertools.chain(
-                            [(rec_tuples, cert, cert_list)],
-                            self._outer._backing)
+                    self._outer._backing.appendleft(
+                            iter([(rec_tuples, cert, cert_list)]))
                     raise
 
         def throw(self, type=None, value=None, traceback=None):
@@ -118,7 +124,7 @@ class MergingDEPStream(DEPStream):
 
     def send(self, dummy):
         while True:
-            rec_tuples, cert, cert_list = next(self._backing)
+            rec_tuples, cert, cert_list = self._next()
 
             if (self._last is None or self._last.cert != cert or
                     self._last.cert_list != cert_list):
-- 
2.43.0

