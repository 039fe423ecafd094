From 41f8e824d7474c9014e218f3dd0e5af0e1fdb503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:49 +0000
Subject: [PATCH 01/55] fix: read_uint64 decodes values of 2**63 and above as
 unsigned

---
 opendis/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 908e976..2e43fe7 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -101,7 +101,7 @@ class DataInputStream:
         return uint32(self.read_unsigned_int())
 
     def read_uint64(self) -> uint64:
-        return uint64(self.read_long())
+        return uint64(struct.unpack('>Q', self.stream.read(8))[0])
 
 
 class DataOutputStream:
-- 
2.43.0


From 5704629b1c35def83f32390c5e5f8792656efc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:49 +0000
Subject: [PATCH 02/55] fix: read_char8/write_char8 both use one unsigned octet

---
 opendis/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 2e43fe7..4e20734 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -71,7 +71,7 @@ class DataInputStream:
 
     # Aliases for convenience
     def read_char8(self) -> char8:
-        return char8(self.read_char())
+        return char8(chr(self.read_unsigned_byte()))
 
     def read_float32(self) -> float32:
         return float32(self.read_float())
@@ -151,7 +151,7 @@ class DataOutputStream:
 
     # Aliases for convenience
     def write_char8(self, val: char8) -> None:
-        self.write_byte(ord(val))
+        self.write_unsigned_byte(ord(val))
 
     def write_float32(self, val: float32) -> None:
         self.write_float(val)
-- 
2.43.0


From 7ceee4d8a19c7a8209094a2d84323e070636d9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:49 +0000
Subject: [PATCH 03/55] fix: read_bytes and read_utf raise on a short read
 instead of returning less data

---
 opendis/stream.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 4e20734..c64105e 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -57,7 +57,7 @@ class DataInputStream:
 
     def read_utf(self) -> bytes:
         utf_length = struct.unpack('>H', self.stream.read(2))[0]
-        return self.stream.read(utf_length)
+        return self.read_bytes(utf_length)
 
     def read_int(self) -> int32:
         return struct.unpack('>i', self.stream.read(4))[0]
@@ -66,8 +66,12 @@ class DataInputStream:
         return struct.unpack('>I', self.stream.read(4))[0]
 
     def read_bytes(self, n: int) -> bytes:
-        """Read n bytes from the stream."""
-        return self.stream.read(n)
+        """Read exactly n bytes from the stream.
+
+        Like the fixed-size reads, raises struct.error if the stream holds
+        fewer than n bytes.
+        """
+        return struct.unpack(f'{n}s', self.stream.read(n))[0]
 
     # Aliases for convenience
     def read_char8(self) -> char8:
-- 
2.43.0


From 1c14d2be0230d0a143eb9a4b45c2202546d0433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:49 +0000
Subject: [PATCH 04/55] fix: factory decodes PDU type 6 as ResupplyOfferPdu

---
 opendis/PduFactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/PduFactory.py b/opendis/PduFactory.py
index 97921de..b8dd6a9 100644
--- a/opendis/PduFactory.py
+++ b/opendis/PduFactory.py
@@ -14,7 +14,7 @@ PduTypeDecoders = {
     ,  3 : DetonationPdu
     ,  4 : CollisionPdu
     ,  5 : ServiceRequestPdu
-    ,  6 : CollisionElasticPdu
+    ,  6 : ResupplyOfferPdu
     ,  7 : ResupplyReceivedPdu
     ,  9 : RepairCompletePdu
     , 10 : RepairResponsePdu
-- 
2.43.0


From 2cfceef04cc6cda697731170fe89bfad596001a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:49 +0000
Subject: [PATCH 05/55] fix: factory no longer decodes type 41 (Environmental
 Process) as PointObjectStatePdu

---
 opendis/PduFactory.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/opendis/PduFactory.py b/opendis/PduFactory.py
index b8dd6a9..18eff9e 100644
--- a/opendis/PduFactory.py
+++ b/opendis/PduFactory.py
@@ -42,7 +42,6 @@ PduTypeDecoders = {
     , 36 : IsPartOfPdu
     , 37 : MinefieldStatePdu
     , 40 : MinefieldResponseNackPdu
-    , 41 : PointObjectStatePdu
     , 43 : PointObjectStatePdu
     , 44 : LinearObjectStatePdu
     , 45 : ArealObjectStatePdu
-- 
2.43.0


From 3e2d91d34dc9fdd4d85d53b9099860f95bc3c877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:49 +0000
Subject: [PATCH 06/55] fix: factory decodes types 30, 53 and 68, whose PDU
 classes exist

---
 opendis/PduFactory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opendis/PduFactory.py b/opendis/PduFactory.py
index 18eff9e..9a85717 100644
--- a/opendis/PduFactory.py
+++ b/opendis/PduFactory.py
@@ -36,6 +36,7 @@ PduTypeDecoders = {
     , 26 : SignalPdu
     , 27 : ReceiverPdu
     , 29 : UaPdu
+    , 30 : SeesPdu
     , 31 : IntercomSignalPdu
     , 32 : IntercomControlPdu
     , 33 : AggregateStatePdu
@@ -47,6 +48,7 @@ PduTypeDecoders = {
     , 45 : ArealObjectStatePdu
     , 51 : CreateEntityReliablePdu
     , 52 : RemoveEntityReliablePdu
+    , 53 : StartResumeReliablePdu
     , 54 : StopFreezeReliablePdu
     , 55 : AcknowledgeReliablePdu
     , 56 : ActionRequestReliablePdu
@@ -59,6 +61,7 @@ PduTypeDecoders = {
     , 63 : RecordQueryReliablePdu
     , 66 : CollisionElasticPdu
     , 67 : EntityStateUpdatePdu
+    , 68 : DirectedEnergyFirePdu
     , 69 : EntityDamageStatusPdu
  }
 
-- 
2.43.0


From 6c9e3078c52ca3225b49a2f88eccbee4830c99d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:49 +0000
Subject: [PATCH 07/55] fix: factory reads the PDU type as the unsigned octet
 it is

---
 opendis/PduFactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/PduFactory.py b/opendis/PduFactory.py
index 9a85717..5f1106d 100644
--- a/opendis/PduFactory.py
+++ b/opendis/PduFactory.py
@@ -68,7 +68,7 @@ PduTypeDecoders = {
 
 def getPdu(inputStream: DataInputStream) -> PduSuperclass | None:
     inputStream.stream.seek(2, 0) # Skip ahead to PDU type enum field
-    pduType = inputStream.read_byte()
+    pduType = inputStream.read_unsigned_byte()
     inputStream.stream.seek(0, 0) # Rewind to start
 
     if pduType in PduTypeDecoders.keys():
-- 
2.43.0


From a9deb4583c367ed713f054acf2c881740b96c166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:49 +0000
Subject: [PATCH 08/55] fix: standard variable records write one record header,
 with the 16-bit length parse expects

---
 opendis/record/__init__.py         | 2 --
 opendis/record/base.py             | 2 +-
 opendis/record/warfare/__init__.py | 6 ------
 3 files changed, 1 insertion(+), 9 deletions(-)

diff --git a/opendis/record/__init__.py b/opendis/record/__init__.py
index 50f57b7..4aeb047 100644
--- a/opendis/record/__init__.py
+++ b/opendis/record/__init__.py
@@ -57,8 +57,6 @@ def getStandardVariableClass(
 
         def serialize(self, outputStream: DataOutputStream) -> None:
             super().serialize(outputStream)
-            outputStream.write_uint32(self.recordType)
-            outputStream.write_uint16(self.recordLength)
             outputStream.write_bytes(self.data)
 
         def parse(self,
diff --git a/opendis/record/base.py b/opendis/record/base.py
index 735025f..455501b 100644
--- a/opendis/record/base.py
+++ b/opendis/record/base.py
@@ -85,7 +85,7 @@ class StandardVariableRecord(VariableRecord):
         """Serialize the record to the output stream."""
         super().serialize(outputStream)
         outputStream.write_uint32(self.recordType)
-        outputStream.write_uint32(self.recordLength)
+        outputStream.write_uint16(self.recordLength)
 
     @abstractmethod
     def parse(self,  # pyright: ignore [reportIncompatibleMethodOverride]
diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index d0ea1dd..04e56d3 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -74,8 +74,6 @@ class DirectedEnergyDamage(DamageDescriptionRecord):
 
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         self.damageLocation.serialize(outputStream)
         outputStream.write_float32(self.damageDiameter)
@@ -138,8 +136,6 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
     
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         outputStream.write_uint16(self.beamAntennaPatternCount)
         outputStream.write_uint16(
@@ -209,8 +205,6 @@ class DirectedEnergyPrecisionAimpoint(DamageDescriptionRecord):
 
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         self.targetSpotLocation.serialize(outputStream)
         self.targetSpotEntityLocation.serialize(outputStream)
-- 
2.43.0


From 45f28f8e7e59d9b553f4c9effff221e0b2b51c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 09/55] fix: DE Area Aimpoint record length counts all its
 fields and pads to 64 bits

---
 opendis/record/warfare/__init__.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index 04e56d3..c7b2e05 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -126,14 +126,21 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
     def directedEnergyTargetEnergyDepositionCount(self) -> uint16:
         return len(self.directedEnergyTargetEnergyDepositions)
 
-    def marshalledSize(self) -> int:
-        size = 8  # recordType, recordLength, padding
+    def _contentSize(self) -> int:
+        size = 12  # recordType, recordLength, padding, both counts
         for record in self.beamAntennaPatterns:
             size += record.marshalledSize()
         for record in self.directedEnergyTargetEnergyDepositions:
             size += record.marshalledSize()
         return size
-    
+
+    def _trailingPaddingSize(self) -> int:
+        # Pads the record to a 64-bit boundary
+        return -self._contentSize() % 8
+
+    def marshalledSize(self) -> int:
+        return self._contentSize() + self._trailingPaddingSize()
+
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
         outputStream.write_uint16(self.padding)
@@ -146,6 +153,7 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
 
         for record in self.directedEnergyTargetEnergyDepositions:
             record.serialize(outputStream)
+        outputStream.write_bytes(bytes(self._trailingPaddingSize()))
 
     def parse(self,
               inputStream: DataInputStream,
@@ -163,6 +171,7 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
             record = DirectedEnergyTargetEnergyDeposition()
             record.parse(inputStream)
             self.directedEnergyTargetEnergyDepositions.append(record)
+        inputStream.read_bytes(self._trailingPaddingSize())
 
 
 class DirectedEnergyPrecisionAimpoint(DamageDescriptionRecord):
-- 
2.43.0


From 54946e57677b8afd04d9a526578e96944023734a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 10/55] fix: unrecognised variable records are accepted where a
 narrower record type is expected

---
 opendis/record/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opendis/record/__init__.py b/opendis/record/__init__.py
index 4aeb047..67734c6 100644
--- a/opendis/record/__init__.py
+++ b/opendis/record/__init__.py
@@ -45,7 +45,9 @@ def getStandardVariableClass(
 
     # Declare a local class since the recordType class variable will need to be
     # set for each new unrecognised record type.
-    class UnknownStandardVariableRecord(base.StandardVariableRecord):
+    # Deriving from expectedType lets an unrecognised record be carried wherever
+    # a record of that type is allowed.
+    class UnknownStandardVariableRecord(expectedType):
         """A placeholder class for unrecognised Standard Variable Records."""
         recordType: enum32
 
-- 
2.43.0


From a9ff54621cedb1a88ec4466748f11a788988e2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 11/55] fix: the declared length of a standard variable record
 bounds what parsing it consumes

---
 opendis/dis7.py        | 6 +++++-
 opendis/record/base.py | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 1b0036b..b03fb4d 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2,6 +2,7 @@
 #This code is licensed under the BSD software license
 #
 
+from io import BytesIO
 from typing import Sequence
 
 from .record import (
@@ -64,7 +65,10 @@ def parseStandardVariableRecord(
     recordLength = inputStream.read_uint16()
     svClass = getStandardVariableClass(recordType, expectedType)
     sv_instance = svClass()
-    sv_instance.parse(inputStream, recordLength)
+    # recordLength frames the record: confine parsing to its own bytes, so that
+    # the stream is left at the next record whatever the record class reads.
+    record = DataInputStream(BytesIO(inputStream.read_bytes(max(recordLength - 6, 0))))
+    sv_instance.parse(record, recordLength)
     return sv_instance
 
 
diff --git a/opendis/record/base.py b/opendis/record/base.py
index 455501b..ef1bc3b 100644
--- a/opendis/record/base.py
+++ b/opendis/record/base.py
@@ -104,4 +104,8 @@ class StandardVariableRecord(VariableRecord):
             raise ValueError(
                 f"bytelength must be a multiple of 8, got {bytelength!r}"
             )
+        if bytelength < 8:
+            raise ValueError(
+                f"bytelength must include the record header, got {bytelength!r}"
+            )
         # TODO: Implement padding handling
-- 
2.43.0


From 267279ede720dc822e2a1c3f454f423f29d20a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 12/55] fix: unknown antenna patterns keep all the bytes their
 length declares

---
 opendis/record/radio/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opendis/record/radio/__init__.py b/opendis/record/radio/__init__.py
index 8667ef5..ec63bc5 100644
--- a/opendis/record/radio/__init__.py
+++ b/opendis/record/radio/__init__.py
@@ -95,8 +95,7 @@ class UnknownAntennaPattern(AntennaPatternRecord):
               bytelength: int) -> None:
         # Validate bytelength argument by calling base method
         super().parse(inputStream, bytelength)
-        # Read the remaining bytes in the record
-        self.data = inputStream.read_bytes(bytelength - 6)
+        self.data = inputStream.read_bytes(bytelength)
 
 
 # Implementations
-- 
2.43.0


From 3166240046b197db944e063c0eadbd544235f25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 13/55] fix: SpreadSpectrum and DEFireFlags carry their
 reserved bits both ways

---
 opendis/record/radio/__init__.py | 1 +
 opendis/record/warfare/enums.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/opendis/record/radio/__init__.py b/opendis/record/radio/__init__.py
index ec63bc5..f9b0cd2 100644
--- a/opendis/record/radio/__init__.py
+++ b/opendis/record/radio/__init__.py
@@ -212,6 +212,7 @@ class SpreadSpectrum(base.Record):
         self.frequencyHopping = bool(record_bitfield.frequencyHopping)
         self.pseudoNoise = bool(record_bitfield.pseudoNoise)
         self.timeHopping = bool(record_bitfield.timeHopping)
+        self.padding = record_bitfield.padding
 
 
 class ModulationType(base.Record):
diff --git a/opendis/record/warfare/enums.py b/opendis/record/warfare/enums.py
index 01d188a..b6a9e97 100644
--- a/opendis/record/warfare/enums.py
+++ b/opendis/record/warfare/enums.py
@@ -29,6 +29,7 @@ class DEFireFlags(base.Record):
         self._struct(
             self.weaponOn,
             self.stateUpdateFlag,
+            self.padding,
         ).serialize(outputStream)
 
     def parse(self, inputStream: DataInputStream) -> None:
-- 
2.43.0


From 7407217fe5313f4d3024dc09cc4a93d5435553e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 14/55] fix: TransmitterPdu honours the declared lengths of its
 modulation and antenna records

---
 opendis/dis7.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index b03fb4d..0d05b3a 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5084,16 +5084,17 @@ class TransmitterPdu(RadioCommunicationsFamilyPdu):
                     radio = SimpleIntercomRadio()
                 else:
                     radio = GenericRadio()
-                radio.parse(inputStream)
             elif self.modulationType.radioSystem in (2, 3, 4):  # HAVE QUICK I | II | HAVE QUICK IIA
                 radio = BasicHaveQuickMP()
-                radio.parse(inputStream)
             elif self.modulationType.radioSystem == 6:  # CCTT SINCGARS
                 radio = CCTTSincgarsMP()
-                radio.parse(inputStream)
             else:  # Other | Unknown
                 radio = UnknownRadio()
-                radio.parse(inputStream, bytelength=modulationParametersLength)
+            if radio.marshalledSize() != modulationParametersLength:
+                # Not the layout we know: keep the bytes as they are, so that
+                # what follows them is still read from the right place
+                radio = UnknownRadio()
+            radio.parse(inputStream, bytelength=modulationParametersLength)
             self.modulationParameters = radio
         else:
             self.modulationParameters = None
@@ -5102,13 +5103,14 @@ class TransmitterPdu(RadioCommunicationsFamilyPdu):
         if antennaPatternLength > 0:
             if self.antennaPatternType == 1:
                 self.antennaPattern = BeamAntennaPattern()
-                self.antennaPattern.parse(inputStream)
             else:
                 self.antennaPattern = UnknownAntennaPattern()
-                self.antennaPattern.parse(
-                    inputStream,
-                    bytelength=antennaPatternLength
-                )
+            if self.antennaPattern.marshalledSize() != antennaPatternLength:
+                self.antennaPattern = UnknownAntennaPattern()
+            self.antennaPattern.parse(
+                inputStream,
+                bytelength=antennaPatternLength
+            )
         else:
             self.antennaPattern = None
         
-- 
2.43.0


From 3759718d21d02c46d5086d9283d2bc834718958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 15/55] fix: lists of plain numbers can be sent and received
 (grid axis, appearances, intercom data, record IDs, NACKs)

---
 opendis/dis7.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 0d05b3a..a4d88d6 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2138,7 +2138,7 @@ class GridAxisDescriptorVariable:
         outputStream.write_double(self.coordinateScaleXi)
         outputStream.write_double(self.coordinateOffsetXi)
         for anObj in self.xiValues:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_short(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -2154,8 +2154,7 @@ class GridAxisDescriptorVariable:
         self.coordinateScaleXi = inputStream.read_double()
         self.coordinateOffsetXi = inputStream.read_double()
         for idx in range(0, self.numberOfPointsOnXiAxis):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_short()
             self.xiValues.append(element)
 
 
@@ -2209,7 +2208,7 @@ class SilentEntitySystem:
         outputStream.write_unsigned_short(self.numberOfAppearanceRecords)
         self.entityType.serialize(outputStream)
         for anObj in self.appearanceRecordList:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_int(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -2217,8 +2216,7 @@ class SilentEntitySystem:
         numberOfAppearanceRecords = inputStream.read_unsigned_short()
         self.entityType.parse(inputStream)
         for idx in range(0, numberOfAppearanceRecords):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_int()
             self.appearanceRecordList.append(element)
 
 
@@ -4264,7 +4262,7 @@ class IntercomSignalPdu(RadioCommunicationsFamilyPdu):
         outputStream.write_unsigned_short(self.dataLength)
         outputStream.write_unsigned_short(self.samples)
         for anObj in self.data:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_byte(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -4279,8 +4277,7 @@ class IntercomSignalPdu(RadioCommunicationsFamilyPdu):
         # sampleSize = dataLength / samples
         # FIXME: Read sampleSize number of bits from inputStream for data
         for idx in range(0, dataLength // 8):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_byte()
             self.data.append(element)
 
 
@@ -6569,7 +6566,7 @@ class RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
         outputStream.write_unsigned_int(self.time)
         outputStream.write_unsigned_int(self.numberOfRecords)
         for anObj in self.recordIDs:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_int(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -6582,8 +6579,7 @@ class RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
         self.time = inputStream.read_unsigned_int()
         numberOfRecords = inputStream.read_unsigned_int()
         for idx in range(0, numberOfRecords):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_int()
             self.recordIDs.append(element)
 
 
@@ -7289,7 +7285,7 @@ class MinefieldResponseNackPdu(MinefieldFamilyPdu):
         outputStream.write_unsigned_byte(self.requestID)
         outputStream.write_unsigned_byte(self.numberOfMissingPdus)
         for anObj in self.missingPduSequenceNumbers:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_byte(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -7300,8 +7296,7 @@ class MinefieldResponseNackPdu(MinefieldFamilyPdu):
         self.requestID = inputStream.read_unsigned_byte()
         numberOfMissingPdus = inputStream.read_unsigned_byte()
         for idx in range(0, numberOfMissingPdus):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_byte()
             self.missingPduSequenceNumbers.append(element)
 
 
-- 
2.43.0


From 091c3d0b14b3ffe65c78b54e7ebf5ca7d2103a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 16/55] fix: lists of records whose element class exists can be
 received (resupply, SEES, SV and record specifications)

---
 opendis/dis7.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index a4d88d6..f6f0e39 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2612,8 +2612,8 @@ class StandardVariableSpecification:
         numberOfStandardVariableRecords = inputStream.read_unsigned_short(
         )
         for idx in range(0, numberOfStandardVariableRecords):
-            element = null()
-            element.parse(inputStream)
+            element = parseStandardVariableRecord(
+                inputStream, StandardVariableRecord)
             self.standardVariables.append(element)
 
 
@@ -3287,7 +3287,7 @@ class RecordSpecification:
         """Parse a message. This may recursively call embedded objects."""
         numberOfRecordSets = inputStream.read_unsigned_int()
         for idx in range(0, numberOfRecordSets):
-            element = null()
+            element = RecordSpecificationElement()
             element.parse(inputStream)
             self.recordSets.append(element)
 
@@ -4351,7 +4351,7 @@ class ResupplyReceivedPdu(LogisticsFamilyPdu):
         self.padding1 = inputStream.read_short()
         self.padding2 = inputStream.read_byte()
         for idx in range(0, numberOfSupplyTypes):
-            element = null()
+            element = SupplyQuantity()
             element.parse(inputStream)
             self.supplies.append(element)
 
@@ -7111,12 +7111,12 @@ class SeesPdu(DistributedEmissionsFamilyPdu):
         numberOfPropulsionSystems = inputStream.read_unsigned_short()
         numberOfVectoringNozzleSystems = inputStream.read_unsigned_short()
         for idx in range(0, numberOfPropulsionSystems):
-            element = null()
+            element = PropulsionSystemData()
             element.parse(inputStream)
             self.propulsionSystemData.append(element)
 
         for idx in range(0, numberOfVectoringNozzleSystems):
-            element = null()
+            element = VectoringNozzleSystem()
             element.parse(inputStream)
             self.vectoringSystemData.append(element)
 
-- 
2.43.0


From 50bea3da70d5011c1b4676e2bd5a334ee246d4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 17/55] fix: LinearObjectStatePdu can be constructed

---
 opendis/dis7.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index f6f0e39..8418e84 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4135,7 +4135,6 @@ class LinearObjectStatePdu(SyntheticEnvironmentFamilyPdu):
         self.updateNumber = updateNumber
         """unique update number of each state transition of an object"""
         self.forceID = forceID
-        self.numberOfSegments = numberOfSegments
         """number of linear segment parameters"""
         self.requesterID = requesterID or SimulationAddress()
         self.receivingID = receivingID or SimulationAddress()
-- 
2.43.0


From f24e42a6f6435d7a245f190072c037eba16a220c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 18/55] fix: DirectedEnergyFirePdu sends and receives
 cumulativeShotTime

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 8418e84..3fa852d 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6364,7 +6364,7 @@ class DirectedEnergyFirePdu(WarfareFamilyPdu):
         super(DirectedEnergyFirePdu, self).serialize(outputStream)
         self.munitionType.serialize(outputStream)
         self.shotStartTime.serialize(outputStream)
-        outputStream.write_float32(self.commulativeShotTime)
+        outputStream.write_float32(self.cumulativeShotTime)
         self.apertureEmitterLocation.serialize(outputStream)
         outputStream.write_float32(self.apertureDiameter)
         outputStream.write_float32(self.wavelength)
@@ -6384,7 +6384,7 @@ class DirectedEnergyFirePdu(WarfareFamilyPdu):
         super(DirectedEnergyFirePdu, self).parse(inputStream)
         self.munitionType.parse(inputStream)
         self.shotStartTime.parse(inputStream)
-        self.commulativeShotTime = inputStream.read_float32()
+        self.cumulativeShotTime = inputStream.read_float32()
         self.apertureEmitterLocation.parse(inputStream)
         self.apertureDiameter = inputStream.read_float32()
         self.wavelength = inputStream.read_float32()
-- 
2.43.0


From dc94bd247511e496e507fcf626cd2210f03ddce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 19/55] fix: SilentAggregateSystem serializes its aggregate
 type

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 3fa852d..edfad9a 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2236,7 +2236,7 @@ class SilentAggregateSystem:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_short(self.numberOfAggregates)
-        self.entityType.serialize(outputStream)
+        self.aggregateType.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
-- 
2.43.0


From 84d42a0db4163a3d93db3bba62bfab30463ef877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 20/55] fix: SeparationVP serializes its station location
 record

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index edfad9a..5353f08 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3610,7 +3610,7 @@ class SeparationVP:
         outputStream.write_unsigned_byte(self.padding1)
         self.parentEntityID.serialize(outputStream)
         outputStream.write_unsigned_short(self.padding2)
-        outputStream.write_unsigned_int(self.stationLocation)
+        self.stationLocation.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -3620,7 +3620,7 @@ class SeparationVP:
         self.padding1 = inputStream.read_unsigned_byte()
         self.parentEntityID.parse(inputStream)
         self.padding2 = inputStream.read_unsigned_short()
-        self.stationLocation = inputStream.read_unsigned_int()
+        self.stationLocation.parse(inputStream)
 
 
 class EmitterSystem:
-- 
2.43.0


From ba01b68d94aa116edc802860c8559c5f8f8f70b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 21/55] fix: AttachedParts serializes its attached part type

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 5353f08..1e08797 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -804,7 +804,7 @@ class AttachedParts:
         outputStream.write_unsigned_byte(self.detachedIndicator)
         outputStream.write_unsigned_short(self.partAttachedTo)
         outputStream.write_unsigned_int(self.parameterType)
-        outputStream.write_long(self.parameterValue)
+        self.attachedPartType.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -812,7 +812,7 @@ class AttachedParts:
         self.detachedIndicator = inputStream.read_unsigned_byte()
         self.partAttachedTo = inputStream.read_unsigned_short()
         self.parameterType = inputStream.read_unsigned_int()
-        self.parameterValue = inputStream.read_long()
+        self.attachedPartType.parse(inputStream)
 
 
 class Attribute:
-- 
2.43.0


From caad3a93083f803c4450f7103ef98c8f56793f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 22/55] fix: constructors keep the values they are given
 (AngularVelocityVector, EngineFuel, AggregateMarking, DataQueryPdu)

---
 opendis/dis7.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 1e08797..7501a04 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1975,13 +1975,13 @@ class EngineFuel:
                  fuelMeasurementUnits: enum8 = 0,  # [UID 328]
                  fuelType: enum8 = 0,  # [UID 413]
                  fuelLocation: enum8 = 0):  # [UID 329]
-        self.fuelQuantity = 0
+        self.fuelQuantity = fuelQuantity
         """Fuel quantity, units specified by next field"""
-        self.fuelMeasurementUnits = 0
+        self.fuelMeasurementUnits = fuelMeasurementUnits
         """Units in which the fuel is measured"""
-        self.fuelType = 0
+        self.fuelType = fuelType
         """Type of fuel"""
-        self.fuelLocation = 0
+        self.fuelLocation = fuelLocation
         """Location of fuel as related to entity. See section 14 of EBV document"""
         self.padding: uint8 = 0
 
@@ -2710,11 +2710,11 @@ class AngularVelocityVector:
     """
 
     def __init__(self, x: float32 = 0.0, y: float32 = 0.0, z: float32 = 0.0):
-        self.x = 0
+        self.x = x
         """angular velocity about the x axis"""
-        self.y = 0
+        self.y = y
         """angular velocity about the y axis"""
-        self.z = 0
+        self.z = z
         """angular velocity about the zaxis"""
 
     def serialize(self, outputStream):
@@ -2742,7 +2742,7 @@ class AggregateMarking:
                  characters=None):
         self.characterSet = characterSet
         """The character set"""
-        self.characters = [0] * 31
+        self.characters = characters or [0] * 31
         """The characters"""
 
     def serialize(self, outputStream):
@@ -4071,8 +4071,8 @@ class DataQueryPdu(SimulationManagementFamilyPdu):
                  fixedDatumIDs: list[enum32] | None = None,
                  variableDatumIDs: list[enum32] | None = None):
         super(DataQueryPdu, self).__init__()
-        self.requestID = 0
-        self.timeInterval = 0
+        self.requestID = requestID
+        self.timeInterval = timeInterval
         """time issues between issues of Data PDUs. Zero means send once only."""
         # Use DataQueryDatumSpecification
         self._dataQuery = DataQueryDatumSpecification(fixedDatumIDs or [],
-- 
2.43.0


From 5772e9a1590f1fc92ace7023a48e9c38d295fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 23/55] fix: IntercomControlPdu sends its 16-bit source device
 ID in 16 bits

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 7501a04..0ad17ea 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6926,7 +6926,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         outputStream.write_unsigned_byte(self.controlType)
         outputStream.write_unsigned_byte(self.communicationsChannelType)
         self.sourceEntityID.serialize(outputStream)
-        outputStream.write_unsigned_byte(self.sourceCommunicationsDeviceID)
+        outputStream.write_unsigned_short(self.sourceCommunicationsDeviceID)
         outputStream.write_unsigned_byte(self.sourceLineID)
         outputStream.write_unsigned_byte(self.transmitPriority)
         outputStream.write_unsigned_byte(self.transmitLineState)
@@ -6943,7 +6943,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         self.controlType = inputStream.read_unsigned_byte()
         self.communicationsChannelType = inputStream.read_unsigned_byte()
         self.sourceEntityID.parse(inputStream)
-        self.sourceCommunicationsDeviceID = inputStream.read_unsigned_byte()
+        self.sourceCommunicationsDeviceID = inputStream.read_unsigned_short()
         self.sourceLineID = inputStream.read_unsigned_byte()
         self.transmitPriority = inputStream.read_unsigned_byte()
         self.transmitLineState = inputStream.read_unsigned_byte()
-- 
2.43.0


From 5bfcf6d6959806a77bd3f1e1643eb0c8143f1d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 24/55] fix: IntercomControlPdu can be sent and received, with
 or without parameter records

---
 opendis/dis7.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 0ad17ea..a17ff90 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6892,7 +6892,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
                  command: enum8 = 0,  # [UID 182]
                  masterEntityID: "EntityIdentifier | UnattachedIdentifier | None" = None,
                  masterCommunicationsDeviceID: uint16 = 0,
-                 intercomParameters: "IntercomCommunicationsParameters | None" = None):
+                 intercomParameters: list["IntercomCommunicationsParameters"] | None = None):
         super(IntercomControlPdu, self).__init__()
         self.controlType = controlType
         self.communicationsChannelType = communicationsChannelType
@@ -6911,14 +6911,13 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         """eid of the entity that has created this intercom channel."""
         self.masterCommunicationsDeviceID = masterCommunicationsDeviceID
         """specific intercom device that has created this intercom channel"""
-        self.intercomParameters = intercomParameters
+        self.intercomParameters = intercomParameters or []
         """^^^This is wrong the length of the data field is variable. Using a long for now."""
 
     @property
     def intercomParametersLength(self) -> uint32:
-        # FIXME: This is incorrect
-        #        It should return the number of bytes in intercomParameters
-        return len(self.intercomParameters)
+        # in bytes; each record is serialized in 8
+        return 8 * len(self.intercomParameters)
 
     def serialize(self, outputStream):
         """serialize the class"""
@@ -6951,8 +6950,11 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         self.masterEntityID.parse(inputStream)
         self.masterCommunicationsDeviceID = inputStream.read_unsigned_short()
         intercomParametersLength = inputStream.read_unsigned_int()
-        # TODO: Validate intercomParametersLength against rest of input stream?
-        self.intercomParameters = IntercomCommunicationsParameters.parse(inputStream)
+        self.intercomParameters = []
+        for idx in range(0, intercomParametersLength // 8):
+            element = IntercomCommunicationsParameters()
+            element.parse(inputStream)
+            self.intercomParameters.append(element)
 
 
 class SignalPdu(RadioCommunicationsFamilyPdu):
-- 
2.43.0


From 68ae047dad837c428054464e7d9e640caab52291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 25/55] fix: EventReportPdu gives access to its datum records

---
 opendis/dis7.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index a17ff90..94df04e 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5489,6 +5489,22 @@ class EventReportPdu(SimulationManagementFamilyPdu):
         self._datums = DatumSpecification(fixedDatumRecords or [],
                                           variableDatumRecords or [])
 
+    @property
+    def numberOfFixedDatumRecords(self) -> int:
+        return self._datums.numberOfFixedDatumRecords
+
+    @property
+    def numberOfVariableDatumRecords(self) -> int:
+        return self._datums.numberOfVariableDatumRecords
+
+    @property
+    def fixedDatumRecords(self) -> list["FixedDatum"]:
+        return self._datums.fixedDatumRecords
+
+    @property
+    def variableDatumRecords(self) -> list["VariableDatum"]:
+        return self._datums.variableDatumRecords
+
     def serialize(self, outputStream):
         """serialize the class"""
         super(EventReportPdu, self).serialize(outputStream)
-- 
2.43.0


From 34598eecaccabf491547a80d0455153135399244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 26/55] fix: EventReportReliablePdu sends its 32-bit event type
 in 32 bits

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 94df04e..954bb32 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7257,14 +7257,14 @@ class EventReportReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
     def serialize(self, outputStream):
         """serialize the class"""
         super(EventReportReliablePdu, self).serialize(outputStream)
-        outputStream.write_unsigned_short(self.eventType)
+        outputStream.write_unsigned_int(self.eventType)
         outputStream.write_unsigned_int(self.pad1)
         self._datums.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         super(EventReportReliablePdu, self).parse(inputStream)
-        self.eventType = inputStream.read_unsigned_short()
+        self.eventType = inputStream.read_unsigned_int()
         self.pad1 = inputStream.read_unsigned_int()
         self._datums.parse(inputStream)
 
-- 
2.43.0


From fb3a1159148b49554f34c23ef92dcccef8a939fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 27/55] fix: VariableDatum keeps the last, partly used octet of
 a datum, so that it fills whole 64-bit words

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 954bb32..1372be7 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3321,7 +3321,7 @@ class VariableDatum:
         """serialize the class"""
         outputStream.write_unsigned_int(self.variableDatumID)
         outputStream.write_unsigned_int(self.variableDatumLength)
-        for x in range(self.variableDatumLength // 8):  # length is in bits
+        for x in range((self.variableDatumLength + 7) // 8):  # length is in bits
             outputStream.write_unsigned_byte(self.variableData[x])
 
         #send padding
@@ -3332,7 +3332,7 @@ class VariableDatum:
         """Parse a message. This may recursively call embedded objects."""
         self.variableDatumID = inputStream.read_unsigned_int()
         self.variableDatumLength = inputStream.read_unsigned_int()
-        for x in range(self.variableDatumLength // 8):  # length is in bits
+        for x in range((self.variableDatumLength + 7) // 8):  # length is in bits
             self.variableData.append(inputStream.read_unsigned_byte())
 
         # Skip over padding
-- 
2.43.0


From 0ee92e4821161d63931b13848af9ce82a2677602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:30 +0000
Subject: [PATCH 28/55] fix: PduHeader sends its length in 16 bits and its
 status in 8

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 1372be7..663506e 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3407,8 +3407,8 @@ class PduHeader:
         outputStream.write_unsigned_byte(self.pduType)
         outputStream.write_unsigned_byte(self.protocolFamily)
         outputStream.write_unsigned_int(self.timestamp)
-        outputStream.write_unsigned_byte(self.pduLength)
-        outputStream.write_unsigned_short(self.pduStatus)
+        outputStream.write_unsigned_short(self.pduLength)
+        outputStream.write_unsigned_byte(self.pduStatus)
         outputStream.write_unsigned_byte(self.padding)
 
     def parse(self, inputStream):
@@ -3418,8 +3418,8 @@ class PduHeader:
         self.pduType = inputStream.read_unsigned_byte()
         self.protocolFamily = inputStream.read_unsigned_byte()
         self.timestamp = inputStream.read_unsigned_int()
-        self.pduLength = inputStream.read_unsigned_byte()
-        self.pduStatus = inputStream.read_unsigned_short()
+        self.pduLength = inputStream.read_unsigned_short()
+        self.pduStatus = inputStream.read_unsigned_byte()
         self.padding = inputStream.read_unsigned_byte()
 
 
-- 
2.43.0


From 7c74f863fdcaa8b765799113a9153a5fd2dcee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:30 +0000
Subject: [PATCH 29/55] fix: EntityMarking sends and receives unsigned octets

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 663506e..44ba881 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1238,14 +1238,14 @@ class EntityMarking:
         """serialize the class"""
         outputStream.write_unsigned_byte(self.characterSet)
         for idx in range(0, 11):
-            outputStream.write_byte(self.characters[idx])
+            outputStream.write_unsigned_byte(self.characters[idx])
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.characterSet = inputStream.read_unsigned_byte()
         self.characters = [0] * 11
         for idx in range(0, 11):
-            val = inputStream.read_byte()
+            val = inputStream.read_unsigned_byte()
             self.characters[idx] = val
 
 
-- 
2.43.0


From f1b071b4a72a2263b5578f5ad67d5787a772be79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 30/55] fix: StorageFuelReload sends its 32-bit reload times in
 32 bits

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 44ba881..e498923 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2979,8 +2979,8 @@ class StorageFuelReload:
         """serialize the class"""
         outputStream.write_unsigned_int(self.standardQuantity)
         outputStream.write_unsigned_int(self.maximumQuantity)
-        outputStream.write_unsigned_byte(self.standardQuantityReloadTime)
-        outputStream.write_unsigned_byte(self.maximumQuantityReloadTime)
+        outputStream.write_unsigned_int(self.standardQuantityReloadTime)
+        outputStream.write_unsigned_int(self.maximumQuantityReloadTime)
         outputStream.write_unsigned_byte(self.fuelMeasurementUnits)
         outputStream.write_unsigned_byte(self.fuelType)
         outputStream.write_unsigned_byte(self.fuelLocation)
@@ -2990,8 +2990,8 @@ class StorageFuelReload:
         """Parse a message. This may recursively call embedded objects."""
         self.standardQuantity = inputStream.read_unsigned_int()
         self.maximumQuantity = inputStream.read_unsigned_int()
-        self.standardQuantityReloadTime = inputStream.read_unsigned_byte()
-        self.maximumQuantityReloadTime = inputStream.read_unsigned_byte()
+        self.standardQuantityReloadTime = inputStream.read_unsigned_int()
+        self.maximumQuantityReloadTime = inputStream.read_unsigned_int()
         self.fuelMeasurementUnits = inputStream.read_unsigned_byte()
         self.fuelType = inputStream.read_unsigned_byte()
         self.fuelLocation = inputStream.read_unsigned_byte()
-- 
2.43.0


From 4bf30b9881e4a8d76ff20b94322d6260a51cf8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 31/55] fix: Environment can be serialized (the padding it
 writes is the padding it has)

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index e498923..605a347 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2660,14 +2660,14 @@ class Environment:
         outputStream.write_unsigned_int(self.environmentType)
         outputStream.write_unsigned_short(self.length)
         outputStream.write_unsigned_byte(self.index)
-        outputStream.write_unsigned_byte(self.padding)
+        outputStream.write_unsigned_byte(self.padding0)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.environmentType = inputStream.read_unsigned_int()
         self.length = inputStream.read_unsigned_short()
         self.index = inputStream.read_unsigned_byte()
-        self.padding = inputStream.read_unsigned_byte()
+        self.padding0 = inputStream.read_unsigned_byte()
 
 
 class AcousticEmitter:
-- 
2.43.0


From ba8f17313c1bd3b758ee27c022e2b688e4537ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 32/55] fix: EnvironmentGeneral sends its 16-bit length in 16
 bits and has the padding it writes

---
 opendis/dis7.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 605a347..e8ab008 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3186,7 +3186,7 @@ class EnvironmentGeneral:
         """length, in bits"""
         self.index = index
         """Identify the sequentially numbered record index"""
-        self.padding = 0
+        self.padding1: uint8 = 0
         self.geometry = geometry
         """Geometry or state record"""
         self.padding2 = 0
@@ -3195,7 +3195,7 @@ class EnvironmentGeneral:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_int(self.environmentType)
-        outputStream.write_unsigned_byte(self.length)
+        outputStream.write_unsigned_short(self.length)
         outputStream.write_unsigned_byte(self.index)
         outputStream.write_unsigned_byte(self.padding1)
         outputStream.write_unsigned_byte(self.geometry)
@@ -3204,7 +3204,7 @@ class EnvironmentGeneral:
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.environmentType = inputStream.read_unsigned_int()
-        self.length = inputStream.read_unsigned_byte()
+        self.length = inputStream.read_unsigned_short()
         self.index = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_unsigned_byte()
         self.geometry = inputStream.read_unsigned_byte()
-- 
2.43.0


From 41656d357e2fd36079f4c21684188233b5b227a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 33/55] fix: IFFData writes the record length parse expects,
 which counts its 6-byte header

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index e8ab008..7931736 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -188,7 +188,7 @@ class IFFData:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_int(self.recordType)
-        outputStream.write_unsigned_short(len(self.iffData))
+        outputStream.write_unsigned_short(6 + len(self.iffData))
         for anObj in self.iffData:
             outputStream.write_unsigned_byte(anObj)
         """TODO add padding to end on 32-bit boundary"""
-- 
2.43.0


From 21636cf4b6396499df45fe3f7d6bd6a1b963d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 34/55] fix: AttributePdu has its PDU type, 72, and the factory
 decodes it

---
 opendis/PduFactory.py | 1 +
 opendis/dis7.py       | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/opendis/PduFactory.py b/opendis/PduFactory.py
index 5f1106d..0bb001d 100644
--- a/opendis/PduFactory.py
+++ b/opendis/PduFactory.py
@@ -63,6 +63,7 @@ PduTypeDecoders = {
     , 67 : EntityStateUpdatePdu
     , 68 : DirectedEnergyFirePdu
     , 69 : EntityDamageStatusPdu
+    , 72 : AttributePdu
  }
 
 
diff --git a/opendis/dis7.py b/opendis/dis7.py
index 7931736..ce61f4e 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5341,6 +5341,8 @@ class AttributePdu(EntityInformationFamilyPdu):
     for this PDU. INCOMPLETE
     """
 
+    pduType: enum8 = 72  # [UID 4]
+
     def __init__(self,
                  originatingSimulationAddress: "SimulationAddress | None" = None,
                  attributeRecordPduType: enum8 = 0,  # [UID 4]
-- 
2.43.0


From 636423fe071ad38928fea9ca505ce9f9d23efddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 35/55] fix: FastEntityStatePdu carries counts and bit flags
 with the top bit set

---
 opendis/dis7.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index ce61f4e..f4cd7a2 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5788,7 +5788,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         outputStream.write_unsigned_short(self.application)
         outputStream.write_unsigned_short(self.entity)
         outputStream.write_unsigned_byte(self.forceId)
-        outputStream.write_byte(len(self.variableParameters))
+        outputStream.write_unsigned_byte(len(self.variableParameters))
         outputStream.write_unsigned_byte(self.entityKind)
         outputStream.write_unsigned_byte(self.domain)
         outputStream.write_unsigned_short(self.country)
@@ -5812,7 +5812,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         outputStream.write_float(self.psi)
         outputStream.write_float(self.theta)
         outputStream.write_float(self.phi)
-        outputStream.write_int(self.entityAppearance)
+        outputStream.write_unsigned_int(self.entityAppearance)
         outputStream.write_unsigned_byte(self.deadReckoningAlgorithm)
         for idx in range(0, 15):
             outputStream.write_byte(self.otherParameters[idx])
@@ -5826,7 +5826,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         for idx in range(0, 12):
             outputStream.write_byte(self.marking[idx])
 
-        outputStream.write_int(self.capabilities)
+        outputStream.write_unsigned_int(self.capabilities)
         for anObj in self.variableParameters:
             anObj.serialize(outputStream)
 
@@ -5837,7 +5837,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         self.application = inputStream.read_unsigned_short()
         self.entity = inputStream.read_unsigned_short()
         self.forceId = inputStream.read_unsigned_byte()
-        self.numberOfVariableParameters = inputStream.read_byte()
+        self.numberOfVariableParameters = inputStream.read_unsigned_byte()
         self.entityKind = inputStream.read_unsigned_byte()
         self.domain = inputStream.read_unsigned_byte()
         self.country = inputStream.read_unsigned_short()
@@ -5861,7 +5861,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         self.psi = inputStream.read_float()
         self.theta = inputStream.read_float()
         self.phi = inputStream.read_float()
-        self.entityAppearance = inputStream.read_int()
+        self.entityAppearance = inputStream.read_unsigned_int()
         self.deadReckoningAlgorithm = inputStream.read_unsigned_byte()
         self.otherParameters = [0] * 15
         for idx in range(0, 15):
@@ -5881,7 +5881,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
 
             self.marking[idx] = val
 
-        self.capabilities = inputStream.read_int()
+        self.capabilities = inputStream.read_unsigned_int()
         for idx in range(0, self.numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
-- 
2.43.0


From c5b8833dd57147237023d7490a14e80d3ca0563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 36/55] fix: AggregateStatePdu has its center of mass in world
 coordinates and its velocity as a vector

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index f4cd7a2..a327339 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7434,8 +7434,8 @@ class AggregateStatePdu(EntityManagementFamilyPdu):
                  aggregateMarking: "AggregateMarking | None" = None,
                  dimensions: Vector3Float | None = None,
                  orientation: EulerAngles | None = None,
-                 centerOfMass: Vector3Float | None = None,
-                 velocity: WorldCoordinates | None = None,
+                 centerOfMass: WorldCoordinates | None = None,
+                 velocity: Vector3Float | None = None,
                  aggregateIDs: list[AggregateIdentifier] | None = None,
                  entityIDs: list[EntityIdentifier] | None = None,
                  silentAggregateSystems: list[SilentAggregateSystem] | None = None,
@@ -7455,9 +7455,9 @@ class AggregateStatePdu(EntityManagementFamilyPdu):
         self.dimensions = dimensions or Vector3Float()
         """Orientation of the aggregate, average of the orientations of the constituents"""
         self.orientation = orientation or EulerAngles()
-        self.centerOfMass = centerOfMass or Vector3Float()
+        self.centerOfMass = centerOfMass or WorldCoordinates()
         """Aggregates linear velocity. The coordinate system is dependent on the dead reckoning algorithm"""
-        self.velocity = velocity or WorldCoordinates()
+        self.velocity = velocity or Vector3Float()
         """Identify subaggregates that are transmitting Aggregate State PDUs"""
         self.aggregateIDs = aggregateIDs or []
         """Constituent entities transmitting Entity State PDUs"""
-- 
2.43.0


From 360d596187469041a8dc3762c6187fcf850c52b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 37/55] fix: parsing into an object replaces its lists instead
 of appending to them

---
 opendis/dis7.py                    | 44 ++++++++++++++++++++++++++++++
 opendis/record/warfare/__init__.py |  2 ++
 2 files changed, 46 insertions(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index a327339..d7f2d71 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -108,9 +108,11 @@ class DataQueryDatumSpecification:
         """Parse a message. This may recursively call embedded objects."""
         numberOfFixedDatumIDs = inputStream.read_unsigned_int()
         numberOfVariableDatumIDs = inputStream.read_unsigned_int()
+        self.fixedDatumIDs = []
         for idx in range(0, numberOfFixedDatumIDs):
             datumID = inputStream.read_unsigned_int()
             self.fixedDatumIDs.append(datumID)
+        self.variableDatumIDs = []
         for idx in range(0, numberOfVariableDatumIDs):
             datumID = inputStream.read_unsigned_int()
             self.variableDatumIDs.append(datumID)
@@ -200,6 +202,7 @@ class IFFData:
         # The record length includes the length of record type field (32 bits)
         # and record length field (16 bits) so we subtract 6 bytes total for
         # those
+        self.iffData = []
         for idx in range(0, self.recordLength - 6):
             val = inputStream.read_unsigned_byte()
             self.iffData.append(val)
@@ -743,6 +746,7 @@ class IFFDataSpecification:
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         numberOfIFFDataRecords = inputStream.read_unsigned_short()
+        self.iffDataRecords = []
         for idx in range(0, numberOfIFFDataRecords):
             element = IFFData()
             element.parse(inputStream)
@@ -867,6 +871,7 @@ class RecordQuerySpecification:
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         numberOfRecords = inputStream.read_unsigned_int()
+        self.recordIDs = []
         for idx in range(0, numberOfRecords):
             val = inputStream.read_unsigned_int()
             self.recordIDs.append(val)
@@ -1630,11 +1635,13 @@ class DatumSpecification:
         """Parse a message. This may recursively call embedded objects."""
         numberOfFixedDatumRecords = inputStream.read_unsigned_int()
         numberOfVariableDatumRecords = inputStream.read_unsigned_int()
+        self.fixedDatumRecords = []
         for idx in range(0, numberOfFixedDatumRecords):
             element = FixedDatum()
             element.parse(inputStream)
             self.fixedDatumRecords.append(element)
 
+        self.variableDatumRecords = []
         for idx in range(0, numberOfVariableDatumRecords):
             element = VariableDatum()
             element.parse(inputStream)
@@ -2153,6 +2160,7 @@ class GridAxisDescriptorVariable:
         self.initialIndex = inputStream.read_unsigned_short()
         self.coordinateScaleXi = inputStream.read_double()
         self.coordinateOffsetXi = inputStream.read_double()
+        self.xiValues = []
         for idx in range(0, self.numberOfPointsOnXiAxis):
             element = inputStream.read_unsigned_short()
             self.xiValues.append(element)
@@ -2215,6 +2223,7 @@ class SilentEntitySystem:
         self.numberOfEntities = inputStream.read_unsigned_short()
         numberOfAppearanceRecords = inputStream.read_unsigned_short()
         self.entityType.parse(inputStream)
+        self.appearanceRecordList = []
         for idx in range(0, numberOfAppearanceRecords):
             element = inputStream.read_unsigned_int()
             self.appearanceRecordList.append(element)
@@ -2611,6 +2620,7 @@ class StandardVariableSpecification:
         """Parse a message. This may recursively call embedded objects."""
         numberOfStandardVariableRecords = inputStream.read_unsigned_short(
         )
+        self.standardVariables = []
         for idx in range(0, numberOfStandardVariableRecords):
             element = parseStandardVariableRecord(
                 inputStream, StandardVariableRecord)
@@ -3286,6 +3296,7 @@ class RecordSpecification:
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         numberOfRecordSets = inputStream.read_unsigned_int()
+        self.recordSets = []
         for idx in range(0, numberOfRecordSets):
             element = RecordSpecificationElement()
             element.parse(inputStream)
@@ -3332,6 +3343,7 @@ class VariableDatum:
         """Parse a message. This may recursively call embedded objects."""
         self.variableDatumID = inputStream.read_unsigned_int()
         self.variableDatumLength = inputStream.read_unsigned_int()
+        self.variableData = []
         for x in range((self.variableDatumLength + 7) // 8):  # length is in bits
             self.variableData.append(inputStream.read_unsigned_byte())
 
@@ -3816,6 +3828,7 @@ class EntityStateUpdatePdu(EntityInformationFamilyPdu):
         self.entityLocation.parse(inputStream)
         self.entityOrientation.parse(inputStream)
         self.entityAppearance = inputStream.read_unsigned_int()
+        self.variableParameters = []
         for idx in range(0, numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
@@ -3868,6 +3881,7 @@ class ServiceRequestPdu(LogisticsFamilyPdu):
         self.serviceTypeRequested = inputStream.read_unsigned_byte()
         numberOfSupplyTypes = inputStream.read_unsigned_byte()
         self.serviceRequestPadding = inputStream.read_short()
+        self.supplies = []
         for idx in range(0, numberOfSupplyTypes):
             element = SupplyQuantity()
             element.parse(inputStream)
@@ -4170,6 +4184,7 @@ class LinearObjectStatePdu(SyntheticEnvironmentFamilyPdu):
         self.requesterID.parse(inputStream)
         self.receivingID.parse(inputStream)
         self.objectType.parse(inputStream)
+        self.linearSegmentParameters = []
         for idx in range(0, numberOfSegments):
             element = LinearSegmentParameter()
             element.parse(inputStream)
@@ -4275,6 +4290,7 @@ class IntercomSignalPdu(RadioCommunicationsFamilyPdu):
         self.samples = inputStream.read_unsigned_short()
         # sampleSize = dataLength / samples
         # FIXME: Read sampleSize number of bits from inputStream for data
+        self.data = []
         for idx in range(0, dataLength // 8):
             element = inputStream.read_unsigned_byte()
             self.data.append(element)
@@ -4349,6 +4365,7 @@ class ResupplyReceivedPdu(LogisticsFamilyPdu):
         numberOfSupplyTypes = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_short()
         self.padding2 = inputStream.read_byte()
+        self.supplies = []
         for idx in range(0, numberOfSupplyTypes):
             element = SupplyQuantity()
             element.parse(inputStream)
@@ -4881,6 +4898,7 @@ class EntityStatePdu(EntityInformationFamilyPdu):
         self.deadReckoningParameters.parse(inputStream)
         self.marking.parse(inputStream)
         self.capabilities = inputStream.read_unsigned_int()
+        self.variableParameters = []
         for idx in range(0, numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
@@ -5110,6 +5128,7 @@ class TransmitterPdu(RadioCommunicationsFamilyPdu):
         else:
             self.antennaPattern = None
         
+        self.variableTransmitterParameters = []
         for _ in range(0, variableTransmitterParameterCount):
             vtp = parseStandardVariableRecord(
                 inputStream,
@@ -5165,6 +5184,7 @@ class ElectromagneticEmissionsPdu(DistributedEmissionsFamilyPdu):
         numberOfSystems = inputStream.read_unsigned_byte()
         self.paddingForEmissionsPdu = inputStream.read_unsigned_short()
 
+        self.systems = []
         for idx in range(0, numberOfSystems):
             element = EmissionSystemRecord()
             element.parse(inputStream)
@@ -5227,6 +5247,7 @@ class EmissionSystemBeamRecord:
         self.beamStatus.parse(inputStream)
         self.jammingModeSequence = inputStream.read_unsigned_int()
 
+        self.trackJamRecords = []
         for idx in range(0, numberOfTargetsInTrackJam):
             element = TrackJamData()
             element.parse(inputStream)
@@ -5272,6 +5293,7 @@ class EmissionSystemRecord:
         inputStream.read_unsigned_short()  # 16 bit padding
         self.emitterSystem.parse(inputStream)
         self.location.parse(inputStream)
+        self.beamRecords = []
         for idx in range(0, numberOfBeams):
             element = EmissionSystemBeamRecord()
             element.parse(inputStream)
@@ -5323,6 +5345,7 @@ class ResupplyOfferPdu(LogisticsFamilyPdu):
         numberOfSupplyTypes = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_byte()
         self.padding2 = inputStream.read_short()
+        self.supplies = []
         for idx in range(0, numberOfSupplyTypes):
             element = SupplyQuantity()
             element.parse(inputStream)
@@ -5882,6 +5905,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
             self.marking[idx] = val
 
         self.capabilities = inputStream.read_unsigned_int()
+        self.variableParameters = []
         for idx in range(0, self.numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
@@ -6039,6 +6063,7 @@ class ArealObjectStatePdu(SyntheticEnvironmentFamilyPdu):
         numberOfPoints = inputStream.read_unsigned_short()
         self.requesterID.parse(inputStream)
         self.receivingID.parse(inputStream)
+        self.objectLocation = []
         for idx in range(0, numberOfPoints):
             element = WorldCoordinates()
             element.parse(inputStream)
@@ -6181,11 +6206,13 @@ class MinefieldStatePdu(MinefieldFamilyPdu):
         self.minefieldOrientation.parse(inputStream)
         self.appearance = inputStream.read_unsigned_short()
         self.protocolMode = inputStream.read_unsigned_short()
+        self.perimeterPoints = []
         for idx in range(0, numberOfPerimeterPoints):
             element = Vector2Float()
             element.parse(inputStream)
             self.perimeterPoints.append(element)
 
+        self.mineTypes = []
         for idx in range(0, numberOfMineTypes):
             element = EntityType()
             element.parse(inputStream)
@@ -6415,6 +6442,7 @@ class DirectedEnergyFirePdu(WarfareFamilyPdu):
         self.padding3 = inputStream.read_uint32()
         self.padding4 = inputStream.read_uint16()
         numberOfDERecords = inputStream.read_uint16()
+        self.dERecords = []
         for _ in range(0, numberOfDERecords):
             vtp = parseStandardVariableRecord(
                 inputStream,
@@ -6489,6 +6517,7 @@ class DetonationPdu(WarfareFamilyPdu):
         self.detonationResult = inputStream.read_unsigned_byte()
         numberOfVariableParameters = inputStream.read_unsigned_byte()
         self.pad = inputStream.read_unsigned_short()
+        self.variableParameters = []
         for idx in range(0, numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
@@ -6595,6 +6624,7 @@ class RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
         self.eventType = inputStream.read_unsigned_short()
         self.time = inputStream.read_unsigned_int()
         numberOfRecords = inputStream.read_unsigned_int()
+        self.recordIDs = []
         for idx in range(0, numberOfRecords):
             element = inputStream.read_unsigned_int()
             self.recordIDs.append(element)
@@ -6688,6 +6718,7 @@ class EntityDamageStatusPdu(WarfareFamilyPdu):
         self.padding1 = inputStream.read_uint16()
         self.padding2 = inputStream.read_uint16()
         damageDescriptionCount = inputStream.read_uint16()
+        self.damageDescriptions = []
         for _ in range(0, damageDescriptionCount):
             record = parseStandardVariableRecord(
                 inputStream,
@@ -6875,14 +6906,17 @@ class UaPdu(DistributedEmissionsFamilyPdu):
         numberOfShafts = inputStream.read_unsigned_byte()
         numberOfAPAs = inputStream.read_unsigned_byte()
         numberOfUAEmitterSystems = inputStream.read_unsigned_byte()
+        self.shaftRPMs = []
         for idx in range(0, numberOfShafts):
             element = null()
             element.parse(inputStream)
             self.shaftRPMs.append(element)
+        self.apaData = []
         for idx in range(0, numberOfAPAs):
             element = null()
             element.parse(inputStream)
             self.apaData.append(element)
+        self.emitterSystems = []
         for idx in range(0, numberOfUAEmitterSystems):
             element = null()
             element.parse(inputStream)
@@ -6969,6 +7003,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         self.masterCommunicationsDeviceID = inputStream.read_unsigned_short()
         intercomParametersLength = inputStream.read_unsigned_int()
         self.intercomParameters = []
+        self.intercomParameters = []
         for idx in range(0, intercomParametersLength // 8):
             element = IntercomCommunicationsParameters()
             element.parse(inputStream)
@@ -7031,6 +7066,7 @@ class SignalPdu(RadioCommunicationsFamilyPdu):
         self.sampleRate = inputStream.read_unsigned_int()
         dataLength = inputStream.read_unsigned_short()
         self.samples = inputStream.read_unsigned_short()
+        self.data = []
         for idx in range(0, dataLength // 8):
             element = inputStream.read_unsigned_byte()
             self.data.append(element)
@@ -7129,11 +7165,13 @@ class SeesPdu(DistributedEmissionsFamilyPdu):
         )
         numberOfPropulsionSystems = inputStream.read_unsigned_short()
         numberOfVectoringNozzleSystems = inputStream.read_unsigned_short()
+        self.propulsionSystemData = []
         for idx in range(0, numberOfPropulsionSystems):
             element = PropulsionSystemData()
             element.parse(inputStream)
             self.propulsionSystemData.append(element)
 
+        self.vectoringSystemData = []
         for idx in range(0, numberOfVectoringNozzleSystems):
             element = VectoringNozzleSystem()
             element.parse(inputStream)
@@ -7314,6 +7352,7 @@ class MinefieldResponseNackPdu(MinefieldFamilyPdu):
         self.requestingEntityID.parse(inputStream)
         self.requestID = inputStream.read_unsigned_byte()
         numberOfMissingPdus = inputStream.read_unsigned_byte()
+        self.missingPduSequenceNumbers = []
         for idx in range(0, numberOfMissingPdus):
             element = inputStream.read_unsigned_byte()
             self.missingPduSequenceNumbers.append(element)
@@ -7534,23 +7573,28 @@ class AggregateStatePdu(EntityManagementFamilyPdu):
         numberOfEntityIDs = inputStream.read_unsigned_short()
         numberOfSilentAggregateSystems = inputStream.read_unsigned_short()
         numberOfSilentEntitySystems = inputStream.read_unsigned_short()
+        self.aggregateIDs = []
         for idx in range(0, numberOfAggregateIDs):
             element = AggregateIdentifier()
             element.parse(inputStream)
             self.aggregateIDs.append(element)
+        self.entityIDs = []
         for idx in range(0, numberOfEntityIDs):
             element = EntityIdentifier()
             element.parse(inputStream)
             self.entityIDs.append(element)
+        self.silentAggregateSystems = []
         for idx in range(0, numberOfSilentAggregateSystems):
             element = SilentAggregateSystem()
             element.parse(inputStream)
             self.silentAggregateSystems.append(element)
+        self.silentEntitySystems = []
         for idx in range(0, numberOfSilentEntitySystems):
             element = SilentEntitySystem()
             element.parse(inputStream)
             self.silentEntitySystems.append(element)
         numberOfVariableDatumRecords = inputStream.read_unsigned_int()
+        self.variableDatumRecords = []
         for idx in range(0, numberOfVariableDatumRecords):
             element = VariableDatum()
             element.parse(inputStream)
diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index c7b2e05..837b08a 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -163,10 +163,12 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
         self.padding = inputStream.read_uint16()
         beamAntennaPatternCount = inputStream.read_uint16()
         directedEnergyTargetEnergyDepositionCount = inputStream.read_uint16()
+        self.beamAntennaPatterns = []
         for _ in range(0, beamAntennaPatternCount):
             record = BeamAntennaPattern()
             record.parse(inputStream)
             self.beamAntennaPatterns.append(record)
+        self.directedEnergyTargetEnergyDepositions = []
         for _ in range(0, directedEnergyTargetEnergyDepositionCount):
             record = DirectedEnergyTargetEnergyDeposition()
             record.parse(inputStream)
-- 
2.43.0


From 4ef45e6c9f757b18cdb176825cc35fbb0c67c1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 38/55] fix: ecef2lla ends, and is accurate, for every location
 but the exact center of the earth

---
 opendis/RangeCoordinates.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 4c9da54..8fabec6 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -42,7 +42,7 @@ Classes:
         g0
 """
 #Import required packages
-from math import sqrt, pi, sin, cos, tan, atan, atan2, asin
+from math import sqrt, pi, sin, cos, tan, atan, atan2, asin, hypot
 from numpy import array, dot, identity
 
 
@@ -128,9 +128,8 @@ class GPS:
         lon = atan2(y, x)
 
         # Initialize the variables to calculate lat and alt
-        alt = 0
         N = self.wgs84.a
-        p = sqrt(x**2 + y**2)
+        p = hypot(x, y)
         lat = 0
         previousLat = 90
 
@@ -148,10 +147,12 @@ class GPS:
         # Iterate until tolerance is reached
         while abs(lat - previousLat) >= tolerance:
             previousLat = lat
-            sinLat = z / (N * (1 - self.wgs84.e**2) + alt)
-            lat = atan((z + self.wgs84.e**2 * N * sinLat) / p)
-            N = self.wgs84.a / sqrt(1 - (self.wgs84.e * sinLat)**2)
-            alt = p / cos(lat) - N
+            lat = atan2(z + self.wgs84.e**2 * N * sin(lat), p)
+            N = self.wgs84.a / sqrt(1 - (self.wgs84.e * sin(lat))**2)
+
+        # Unlike p / cos(lat) - N this stays accurate up to the poles
+        alt = (p * cos(lat) + z * sin(lat)
+               - self.wgs84.a * sqrt(1 - (self.wgs84.e * sin(lat))**2))
 
         # Return the lla coordinates
         return (rad2deg(lat), rad2deg(lon), alt)
-- 
2.43.0


From 30d126a2671c065fa0db80ccea6e9de80d438391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 39/55] fix: dis_receiver example labels roll and yaw as what
 they are

---
 examples/dis_receiver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/dis_receiver.py b/examples/dis_receiver.py
index 25b118f..0a5dedf 100644
--- a/examples/dis_receiver.py
+++ b/examples/dis_receiver.py
@@ -46,9 +46,9 @@ def recv():
               + " Latitude  : {:.2f} degrees\n".format(rad2deg(body[0]))
               + " Longitude : {:.2f} degrees\n".format(rad2deg(body[1]))
               + " Altitude  : {:.0f} meters\n".format(body[2])
-              + " Yaw       : {:.2f} degrees\n".format(rad2deg(body[3]))
+              + " Roll      : {:.2f} degrees\n".format(rad2deg(body[3]))
               + " Pitch     : {:.2f} degrees\n".format(rad2deg(body[4]))
-              + " Roll      : {:.2f} degrees\n".format(rad2deg(body[5]))
+              + " Yaw       : {:.2f} degrees\n".format(rad2deg(body[5]))
               )
     else:
         print("Received {}, {} bytes".format(pduTypeName, len(data)), flush=True)
-- 
2.43.0


From 038f372af0f11b0219108e9584f4daddd976672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 40/55] fix: dis_receiver example receives PDUs of more than
 1024 bytes

---
 examples/dis_receiver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/dis_receiver.py b/examples/dis_receiver.py
index 0a5dedf..3142ceb 100644
--- a/examples/dis_receiver.py
+++ b/examples/dis_receiver.py
@@ -24,7 +24,7 @@ gps = GPS()
 def recv():
     print('Reading from socket...')
 
-    data = udpSocket.recv(1024) # buffer size in bytes
+    data = udpSocket.recv(65535) # buffer size in bytes, the largest UDP datagram
     pdu = createPdu(data)
 
     pduTypeName = pdu.__class__.__name__
-- 
2.43.0


From c0493ba26e58bcf2260d7f4b67ecce5ac32e5d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 41/55] fix: dis_receiver example survives datagrams it cannot
 decode

---
 examples/dis_receiver.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/examples/dis_receiver.py b/examples/dis_receiver.py
index 3142ceb..8ee9062 100644
--- a/examples/dis_receiver.py
+++ b/examples/dis_receiver.py
@@ -25,7 +25,15 @@ def recv():
     print('Reading from socket...')
 
     data = udpSocket.recv(65535) # buffer size in bytes, the largest UDP datagram
-    pdu = createPdu(data)
+    try:
+        pdu = createPdu(data)
+    except Exception as e:
+        print("Received {} bytes that are no DIS PDU: {!r}".format(len(data), e), flush=True)
+        return
+
+    if pdu is None:
+        print("Received a PDU of an unknown type, {} bytes".format(len(data)), flush=True)
+        return
 
     pduTypeName = pdu.__class__.__name__
 
@@ -39,7 +47,11 @@ def recv():
                pdu.entityOrientation.phi
                )
 
-        body = gps.ecef2llarpy(*loc)
+        try:
+            body = gps.ecef2llarpy(*loc)
+        except Exception as e:
+            print("Received {} with no location on earth: {!r}".format(pduTypeName, e), flush=True)
+            return
 
         print("Received {}\n".format(pduTypeName)
               + " Id        : {}\n".format(pdu.entityID.entityNumber)
-- 
2.43.0


From ea34daed910e6c6095ca8f3aea49e8a6bf766bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 42/55] fix: a bit field refuses a value that does not fit
 instead of sending another

---
 opendis/record/bitfield.py | 246 +++++++++++++++++++------------------
 1 file changed, 127 insertions(+), 119 deletions(-)

diff --git a/opendis/record/bitfield.py b/opendis/record/bitfield.py
index a3df951..c58d171 100644
--- a/opendis/record/bitfield.py
+++ b/opendis/record/bitfield.py
@@ -1,119 +1,127 @@
-"""Bitfield type factory and related utilities.
-
-This module provides a factory function to create ctypes.Structure subclasses
-representing bitfields as defined in the DIS standard. These bitfields are used
-in various DIS records to pack multiple non-octet-aligned fields into a compact
-binary representation.
-"""
-
-from ctypes import (
-    _SimpleCData,
-    BigEndianStructure,
-    c_uint8,
-    c_uint16,
-    c_uint32,
-    sizeof,
-)
-from typing import Literal, Sequence
-
-from opendis.stream import DataInputStream, DataOutputStream
-from opendis.types import bf_enum, bf_int, bf_uint
-
-# Type definitions for bitfield field descriptors
-CTypeFieldDescription = tuple[str, type[_SimpleCData], int]
-DisFieldDescription = tuple[str, "DisFieldType", int]
-
-# Field type constants simplify the construction of bitfields
-# which would otherwise require manually specifying ctypes types.
-# The currently implemented bitfields only use integers, but DIS7
-# mentions CHAR types which may be needed in future.
-DisFieldType = Literal["INTEGER"]
-INTEGER = "INTEGER"
-
-
-def _field(name: str,
-          ftype: DisFieldType,
-          bits: int,
-          base_ctype: type[_SimpleCData]) -> CTypeFieldDescription:
-    """Helper function to create the field description tuple used by ctypes.
-
-    Args:
-        name: Field name
-        ftype: Field type (currently only INTEGER supported)
-        bits: Number of bits for this field
-        base_ctype: The base C type to use for all fields (ensures proper packing)
-    """
-    if ftype != INTEGER:
-        raise ValueError(f"Unrecognized ftype: {ftype}")
-    if bits <= 0 or bits > 32:
-        raise ValueError(f"Field size must be between 1 and 32: got {bits}")
-    return (name, base_ctype, bits)
-
-
-def bitfield(name: str,
-              fields: Sequence[DisFieldDescription]):
-    """Factory function for bitfield structs, which are subclasses of
-    ctypes.Structure.
-    These are used in records that require them to unpack non-octet-sized fields.
-
-    Args:
-        name: Name of the bitfield struct.
-        bytesize: Size of the bitfield in bytes.
-        fields: Sequence of tuples defining fields of the bitfield, in the form
-            (field_name, "INTEGER", field_size_in_bits).
-    """
-    # First pass: calculate total bitsize and validate
-    bitsize = 0
-    for field_name, ftype, bits in fields:
-        if ftype not in (INTEGER,):
-            raise ValueError(f"Unsupported field type: {ftype}")
-        if not isinstance(bits, int):
-            raise ValueError(f"Field size must be int: {bits!r}")
-        if bits <= 0 or bits > 32:
-            raise ValueError(f"Field size must be between 1 and 32: got {bits}")
-        bitsize += bits
-
-    if bitsize == 0:
-        raise ValueError(f"Bitfield size cannot be zero")
-    elif bitsize % 8 != 0:
-        raise ValueError(f"Bitfield size must be multiple of 8, got {bitsize}")
-    bytesize = bitsize // 8
-
-    # Determine base ctype based on TOTAL size (critical for Python 3.12+ compatibility)
-    # All fields must use the same underlying type to avoid padding issues
-    if bitsize <= 8:
-        base_ctype = c_uint8
-    elif bitsize <= 16:
-        base_ctype = c_uint16
-    elif bitsize <= 32:
-        base_ctype = c_uint32
-    else:
-        raise ValueError(f"Bitfield size {bitsize} exceeds maximum of 32 bits")
-
-    # Second pass: create fields with consistent base type
-    struct_fields = []
-    for field_name, ftype, bits in fields:
-        struct_fields.append(_field(field_name, ftype, bits, base_ctype))
-
-    # Create the struct class
-    class Bitfield(BigEndianStructure):
-        _fields_ = struct_fields
-
-        @staticmethod
-        def marshalledSize() -> int:
-            return bytesize
-
-        def serialize(self, outputStream: DataOutputStream) -> None:
-            outputStream.write_bytes(bytes(self))
-
-        @classmethod
-        def parse(cls, inputStream: DataInputStream) -> "Bitfield":
-            return cls.from_buffer_copy(inputStream.read_bytes(bytesize))
-
-    # Sanity check: ensure the struct size matches expected size
-    assert sizeof(Bitfield) == bytesize, \
-        f"Bitfield size mismatch: expected {bytesize}, got {sizeof(Bitfield)}"
-
-    # Assign the class name
-    Bitfield.__name__ = name
-    return Bitfield
+"""Bitfield type factory and related utilities.
+
+This module provides a factory function to create ctypes.Structure subclasses
+representing bitfields as defined in the DIS standard. These bitfields are used
+in various DIS records to pack multiple non-octet-aligned fields into a compact
+binary representation.
+"""
+
+from ctypes import (
+    _SimpleCData,
+    BigEndianStructure,
+    c_uint8,
+    c_uint16,
+    c_uint32,
+    sizeof,
+)
+from typing import Literal, Sequence
+
+from opendis.stream import DataInputStream, DataOutputStream
+from opendis.types import bf_enum, bf_int, bf_uint
+
+# Type definitions for bitfield field descriptors
+CTypeFieldDescription = tuple[str, type[_SimpleCData], int]
+DisFieldDescription = tuple[str, "DisFieldType", int]
+
+# Field type constants simplify the construction of bitfields
+# which would otherwise require manually specifying ctypes types.
+# The currently implemented bitfields only use integers, but DIS7
+# mentions CHAR types which may be needed in future.
+DisFieldType = Literal["INTEGER"]
+INTEGER = "INTEGER"
+
+
+def _field(name: str,
+          ftype: DisFieldType,
+          bits: int,
+          base_ctype: type[_SimpleCData]) -> CTypeFieldDescription:
+    """Helper function to create the field description tuple used by ctypes.
+
+    Args:
+        name: Field name
+        ftype: Field type (currently only INTEGER supported)
+        bits: Number of bits for this field
+        base_ctype: The base C type to use for all fields (ensures proper packing)
+    """
+    if ftype != INTEGER:
+        raise ValueError(f"Unrecognized ftype: {ftype}")
+    if bits <= 0 or bits > 32:
+        raise ValueError(f"Field size must be between 1 and 32: got {bits}")
+    return (name, base_ctype, bits)
+
+
+def bitfield(name: str,
+              fields: Sequence[DisFieldDescription]):
+    """Factory function for bitfield structs, which are subclasses of
+    ctypes.Structure.
+    These are used in records that require them to unpack non-octet-sized fields.
+
+    Args:
+        name: Name of the bitfield struct.
+        bytesize: Size of the bitfield in bytes.
+        fields: Sequence of tuples defining fields of the bitfield, in the form
+            (field_name, "INTEGER", field_size_in_bits).
+    """
+    # First pass: calculate total bitsize and validate
+    bitsize = 0
+    for field_name, ftype, bits in fields:
+        if ftype not in (INTEGER,):
+            raise ValueError(f"Unsupported field type: {ftype}")
+        if not isinstance(bits, int):
+            raise ValueError(f"Field size must be int: {bits!r}")
+        if bits <= 0 or bits > 32:
+            raise ValueError(f"Field size must be between 1 and 32: got {bits}")
+        bitsize += bits
+
+    if bitsize == 0:
+        raise ValueError(f"Bitfield size cannot be zero")
+    elif bitsize % 8 != 0:
+        raise ValueError(f"Bitfield size must be multiple of 8, got {bitsize}")
+    bytesize = bitsize // 8
+
+    # Determine base ctype based on TOTAL size (critical for Python 3.12+ compatibility)
+    # All fields must use the same underlying type to avoid padding issues
+    if bitsize <= 8:
+        base_ctype = c_uint8
+    elif bitsize <= 16:
+        base_ctype = c_uint16
+    elif bitsize <= 32:
+        base_ctype = c_uint32
+    else:
+        raise ValueError(f"Bitfield size {bitsize} exceeds maximum of 32 bits")
+
+    # Second pass: create fields with consistent base type
+    struct_fields = []
+    for field_name, ftype, bits in fields:
+        struct_fields.append(_field(field_name, ftype, bits, base_ctype))
+
+    # Create the struct class
+    class Bitfield(BigEndianStructure):
+        _fields_ = struct_fields
+
+        def __init__(self, *args: int, **kwargs: int):
+            super().__init__(*args, **kwargs)
+            # ctypes drops the bits that do not fit, without an error
+            names = [field_name for field_name, _, _ in fields]
+            for field_name, value in [*zip(names, args), *kwargs.items()]:
+                if getattr(self, field_name) != value:
+                    raise ValueError(f"{value} does not fit bit field {name}.{field_name}")
+
+        @staticmethod
+        def marshalledSize() -> int:
+            return bytesize
+
+        def serialize(self, outputStream: DataOutputStream) -> None:
+            outputStream.write_bytes(bytes(self))
+
+        @classmethod
+        def parse(cls, inputStream: DataInputStream) -> "Bitfield":
+            return cls.from_buffer_copy(inputStream.read_bytes(bytesize))
+
+    # Sanity check: ensure the struct size matches expected size
+    assert sizeof(Bitfield) == bytesize, \
+        f"Bitfield size mismatch: expected {bytesize}, got {sizeof(Bitfield)}"
+
+    # Assign the class name
+    Bitfield.__name__ = name
+    return Bitfield
-- 
2.43.0


From edb9e0a3d5b78b4acc83ffdd0255b0de17329a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 43/55] Revert "fix: dis_receiver example survives datagrams it
 cannot decode"

This reverts commit c0493ba26e58bcf2260d7f4b67ecce5ac32e5d5e.
---
 examples/dis_receiver.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/examples/dis_receiver.py b/examples/dis_receiver.py
index 8ee9062..3142ceb 100644
--- a/examples/dis_receiver.py
+++ b/examples/dis_receiver.py
@@ -25,15 +25,7 @@ def recv():
     print('Reading from socket...')
 
     data = udpSocket.recv(65535) # buffer size in bytes, the largest UDP datagram
-    try:
-        pdu = createPdu(data)
-    except Exception as e:
-        print("Received {} bytes that are no DIS PDU: {!r}".format(len(data), e), flush=True)
-        return
-
-    if pdu is None:
-        print("Received a PDU of an unknown type, {} bytes".format(len(data)), flush=True)
-        return
+    pdu = createPdu(data)
 
     pduTypeName = pdu.__class__.__name__
 
@@ -47,11 +39,7 @@ def recv():
                pdu.entityOrientation.phi
                )
 
-        try:
-            body = gps.ecef2llarpy(*loc)
-        except Exception as e:
-            print("Received {} with no location on earth: {!r}".format(pduTypeName, e), flush=True)
-            return
+        body = gps.ecef2llarpy(*loc)
 
         print("Received {}\n".format(pduTypeName)
               + " Id        : {}\n".format(pdu.entityID.entityNumber)
-- 
2.43.0


From 52b5513c97defcd685e5e8d4cf007ebfea35fabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 44/55] Revert "fix: dis_receiver example receives PDUs of more
 than 1024 bytes"

This reverts commit 038f372af0f11b0219108e9584f4daddd976672b.
---
 examples/dis_receiver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/dis_receiver.py b/examples/dis_receiver.py
index 3142ceb..0a5dedf 100644
--- a/examples/dis_receiver.py
+++ b/examples/dis_receiver.py
@@ -24,7 +24,7 @@ gps = GPS()
 def recv():
     print('Reading from socket...')
 
-    data = udpSocket.recv(65535) # buffer size in bytes, the largest UDP datagram
+    data = udpSocket.recv(1024) # buffer size in bytes
     pdu = createPdu(data)
 
     pduTypeName = pdu.__class__.__name__
-- 
2.43.0


From 1fb54da663ec90bed91ffa8fd7bef5396489b700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 45/55] Revert "fix: dis_receiver example labels roll and yaw
 as what they are"

This reverts commit 30d126a2671c065fa0db80ccea6e9de80d438391.
---
 examples/dis_receiver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/dis_receiver.py b/examples/dis_receiver.py
index 0a5dedf..25b118f 100644
--- a/examples/dis_receiver.py
+++ b/examples/dis_receiver.py
@@ -46,9 +46,9 @@ def recv():
               + " Latitude  : {:.2f} degrees\n".format(rad2deg(body[0]))
               + " Longitude : {:.2f} degrees\n".format(rad2deg(body[1]))
               + " Altitude  : {:.0f} meters\n".format(body[2])
-              + " Roll      : {:.2f} degrees\n".format(rad2deg(body[3]))
+              + " Yaw       : {:.2f} degrees\n".format(rad2deg(body[3]))
               + " Pitch     : {:.2f} degrees\n".format(rad2deg(body[4]))
-              + " Yaw       : {:.2f} degrees\n".format(rad2deg(body[5]))
+              + " Roll      : {:.2f} degrees\n".format(rad2deg(body[5]))
               )
     else:
         print("Received {}, {} bytes".format(pduTypeName, len(data)), flush=True)
-- 
2.43.0


From 5fdae690b2045bfc8ca3ac508a784074dfb31705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 46/55] fix: bitfield.py has the line endings it had before
 ea34dae

---
 opendis/record/bitfield.py | 254 ++++++++++++++++++-------------------
 1 file changed, 127 insertions(+), 127 deletions(-)

diff --git a/opendis/record/bitfield.py b/opendis/record/bitfield.py
index c58d171..258a7da 100644
--- a/opendis/record/bitfield.py
+++ b/opendis/record/bitfield.py
@@ -1,127 +1,127 @@
-"""Bitfield type factory and related utilities.
-
-This module provides a factory function to create ctypes.Structure subclasses
-representing bitfields as defined in the DIS standard. These bitfields are used
-in various DIS records to pack multiple non-octet-aligned fields into a compact
-binary representation.
-"""
-
-from ctypes import (
-    _SimpleCData,
-    BigEndianStructure,
-    c_uint8,
-    c_uint16,
-    c_uint32,
-    sizeof,
-)
-from typing import Literal, Sequence
-
-from opendis.stream import DataInputStream, DataOutputStream
-from opendis.types import bf_enum, bf_int, bf_uint
-
-# Type definitions for bitfield field descriptors
-CTypeFieldDescription = tuple[str, type[_SimpleCData], int]
-DisFieldDescription = tuple[str, "DisFieldType", int]
-
-# Field type constants simplify the construction of bitfields
-# which would otherwise require manually specifying ctypes types.
-# The currently implemented bitfields only use integers, but DIS7
-# mentions CHAR types which may be needed in future.
-DisFieldType = Literal["INTEGER"]
-INTEGER = "INTEGER"
-
-
-def _field(name: str,
-          ftype: DisFieldType,
-          bits: int,
-          base_ctype: type[_SimpleCData]) -> CTypeFieldDescription:
-    """Helper function to create the field description tuple used by ctypes.
-
-    Args:
-        name: Field name
-        ftype: Field type (currently only INTEGER supported)
-        bits: Number of bits for this field
-        base_ctype: The base C type to use for all fields (ensures proper packing)
-    """
-    if ftype != INTEGER:
-        raise ValueError(f"Unrecognized ftype: {ftype}")
-    if bits <= 0 or bits > 32:
-        raise ValueError(f"Field size must be between 1 and 32: got {bits}")
-    return (name, base_ctype, bits)
-
-
-def bitfield(name: str,
-              fields: Sequence[DisFieldDescription]):
-    """Factory function for bitfield structs, which are subclasses of
-    ctypes.Structure.
-    These are used in records that require them to unpack non-octet-sized fields.
-
-    Args:
-        name: Name of the bitfield struct.
-        bytesize: Size of the bitfield in bytes.
-        fields: Sequence of tuples defining fields of the bitfield, in the form
-            (field_name, "INTEGER", field_size_in_bits).
-    """
-    # First pass: calculate total bitsize and validate
-    bitsize = 0
-    for field_name, ftype, bits in fields:
-        if ftype not in (INTEGER,):
-            raise ValueError(f"Unsupported field type: {ftype}")
-        if not isinstance(bits, int):
-            raise ValueError(f"Field size must be int: {bits!r}")
-        if bits <= 0 or bits > 32:
-            raise ValueError(f"Field size must be between 1 and 32: got {bits}")
-        bitsize += bits
-
-    if bitsize == 0:
-        raise ValueError(f"Bitfield size cannot be zero")
-    elif bitsize % 8 != 0:
-        raise ValueError(f"Bitfield size must be multiple of 8, got {bitsize}")
-    bytesize = bitsize // 8
-
-    # Determine base ctype based on TOTAL size (critical for Python 3.12+ compatibility)
-    # All fields must use the same underlying type to avoid padding issues
-    if bitsize <= 8:
-        base_ctype = c_uint8
-    elif bitsize <= 16:
-        base_ctype = c_uint16
-    elif bitsize <= 32:
-        base_ctype = c_uint32
-    else:
-        raise ValueError(f"Bitfield size {bitsize} exceeds maximum of 32 bits")
-
-    # Second pass: create fields with consistent base type
-    struct_fields = []
-    for field_name, ftype, bits in fields:
-        struct_fields.append(_field(field_name, ftype, bits, base_ctype))
-
-    # Create the struct class
-    class Bitfield(BigEndianStructure):
-        _fields_ = struct_fields
-
-        def __init__(self, *args: int, **kwargs: int):
-            super().__init__(*args, **kwargs)
-            # ctypes drops the bits that do not fit, without an error
-            names = [field_name for field_name, _, _ in fields]
-            for field_name, value in [*zip(names, args), *kwargs.items()]:
-                if getattr(self, field_name) != value:
-                    raise ValueError(f"{value} does not fit bit field {name}.{field_name}")
-
-        @staticmethod
-        def marshalledSize() -> int:
-            return bytesize
-
-        def serialize(self, outputStream: DataOutputStream) -> None:
-            outputStream.write_bytes(bytes(self))
-
-        @classmethod
-        def parse(cls, inputStream: DataInputStream) -> "Bitfield":
-            return cls.from_buffer_copy(inputStream.read_bytes(bytesize))
-
-    # Sanity check: ensure the struct size matches expected size
-    assert sizeof(Bitfield) == bytesize, \
-        f"Bitfield size mismatch: expected {bytesize}, got {sizeof(Bitfield)}"
-
-    # Assign the class name
-    Bitfield.__name__ = name
-    return Bitfield
+"""Bitfield type factory and related utilities.
+
+This module provides a factory function to create ctypes.Structure subclasses
+representing bitfields as defined in the DIS standard. These bitfields are used
+in various DIS records to pack multiple non-octet-aligned fields into a compact
+binary representation.
+"""
+
+from ctypes import (
+    _SimpleCData,
+    BigEndianStructure,
+    c_uint8,
+    c_uint16,
+    c_uint32,
+    sizeof,
+)
+from typing import Literal, Sequence
+
+from opendis.stream import DataInputStream, DataOutputStream
+from opendis.types import bf_enum, bf_int, bf_uint
+
+# Type definitions for bitfield field descriptors
+CTypeFieldDescription = tuple[str, type[_SimpleCData], int]
+DisFieldDescription = tuple[str, "DisFieldType", int]
+
+# Field type constants simplify the construction of bitfields
+# which would otherwise require manually specifying ctypes types.
+# The currently implemented bitfields only use integers, but DIS7
+# mentions CHAR types which may be needed in future.
+DisFieldType = Literal["INTEGER"]
+INTEGER = "INTEGER"
+
+
+def _field(name: str,
+          ftype: DisFieldType,
+          bits: int,
+          base_ctype: type[_SimpleCData]) -> CTypeFieldDescription:
+    """Helper function to create the field description tuple used by ctypes.
+
+    Args:
+        name: Field name
+        ftype: Field type (currently only INTEGER supported)
+        bits: Number of bits for this field
+        base_ctype: The base C type to use for all fields (ensures proper packing)
+    """
+    if ftype != INTEGER:
+        raise ValueError(f"Unrecognized ftype: {ftype}")
+    if bits <= 0 or bits > 32:
+        raise ValueError(f"Field size must be between 1 and 32: got {bits}")
+    return (name, base_ctype, bits)
+
+
+def bitfield(name: str,
+              fields: Sequence[DisFieldDescription]):
+    """Factory function for bitfield structs, which are subclasses of
+    ctypes.Structure.
+    These are used in records that require them to unpack non-octet-sized fields.
+
+    Args:
+        name: Name of the bitfield struct.
+        bytesize: Size of the bitfield in bytes.
+        fields: Sequence of tuples defining fields of the bitfield, in the form
+            (field_name, "INTEGER", field_size_in_bits).
+    """
+    # First pass: calculate total bitsize and validate
+    bitsize = 0
+    for field_name, ftype, bits in fields:
+        if ftype not in (INTEGER,):
+            raise ValueError(f"Unsupported field type: {ftype}")
+        if not isinstance(bits, int):
+            raise ValueError(f"Field size must be int: {bits!r}")
+        if bits <= 0 or bits > 32:
+            raise ValueError(f"Field size must be between 1 and 32: got {bits}")
+        bitsize += bits
+
+    if bitsize == 0:
+        raise ValueError(f"Bitfield size cannot be zero")
+    elif bitsize % 8 != 0:
+        raise ValueError(f"Bitfield size must be multiple of 8, got {bitsize}")
+    bytesize = bitsize // 8
+
+    # Determine base ctype based on TOTAL size (critical for Python 3.12+ compatibility)
+    # All fields must use the same underlying type to avoid padding issues
+    if bitsize <= 8:
+        base_ctype = c_uint8
+    elif bitsize <= 16:
+        base_ctype = c_uint16
+    elif bitsize <= 32:
+        base_ctype = c_uint32
+    else:
+        raise ValueError(f"Bitfield size {bitsize} exceeds maximum of 32 bits")
+
+    # Second pass: create fields with consistent base type
+    struct_fields = []
+    for field_name, ftype, bits in fields:
+        struct_fields.append(_field(field_name, ftype, bits, base_ctype))
+
+    # Create the struct class
+    class Bitfield(BigEndianStructure):
+        _fields_ = struct_fields
+
+        def __init__(self, *args: int, **kwargs: int):
+            super().__init__(*args, **kwargs)
+            # ctypes drops the bits that do not fit, without an error
+            names = [field_name for field_name, _, _ in fields]
+            for field_name, value in [*zip(names, args), *kwargs.items()]:
+                if getattr(self, field_name) != value:
+                    raise ValueError(f"{value} does not fit bit field {name}.{field_name}")
+
+        @staticmethod
+        def marshalledSize() -> int:
+            return bytesize
+
+        def serialize(self, outputStream: DataOutputStream) -> None:
+            outputStream.write_bytes(bytes(self))
+
+        @classmethod
+        def parse(cls, inputStream: DataInputStream) -> "Bitfield":
+            return cls.from_buffer_copy(inputStream.read_bytes(bytesize))
+
+    # Sanity check: ensure the struct size matches expected size
+    assert sizeof(Bitfield) == bytesize, \
+        f"Bitfield size mismatch: expected {bytesize}, got {sizeof(Bitfield)}"
+
+    # Assign the class name
+    Bitfield.__name__ = name
+    return Bitfield
-- 
2.43.0


From 7e81467a38204b83abc9d37cf71a9dae3f800764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:21 +0000
Subject: [PATCH 47/55] fix: longitude 180 E is in UTM zone 60, there is no
 zone 61

---
 opendis/RangeCoordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 8fabec6..c301d5a 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -344,7 +344,7 @@ class GPS:
         lon = lla[1]
         alt = lla[2]
         #Determine the zone number
-        zoneNumber = int((lon+180.)/6) + 1
+        zoneNumber = min(int((lon+180.)/6) + 1, 60)
         #Special zone for Norway
         if (56. <= lat < 64.) and (3. <= lon < 12.):
             zoneNumber = 32
-- 
2.43.0


From a1035eb87ca64f9eeee4b08544370fdef1005fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:21 +0000
Subject: [PATCH 48/55] fix: UTM latitude band X reaches to 84 N

---
 opendis/RangeCoordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index c301d5a..71306e8 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -561,7 +561,7 @@ class GPS:
         elif 48 <= lat < 56: return 'U'
         elif 56 <= lat < 64: return 'V'
         elif 64 <= lat < 72: return 'W'
-        elif 72 <= lat < 80: return 'X'
+        elif 72 <= lat <= 84: return 'X'
         else: return 'Z'
 
 
-- 
2.43.0


From 67576ee2d836cf73b486a37f38982e8a939e6c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:21 +0000
Subject: [PATCH 49/55] fix: UTM northings of the southern hemisphere have
 their false northing of 10000 km

---
 opendis/RangeCoordinates.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 71306e8..00822ce 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -391,6 +391,9 @@ class GPS:
                 A**2/2. + \
                 (5.-T+9.*C+4.*C**2)*A**4/24. + \
                 (61.-58.*T+T**2+600.*C-330.*ePrimeSquared)*A**6/720.))
+        #False northing of the southern hemisphere
+        if lat < 0:
+            y += 10000000.
         #Calculate scale factor
         k = k0*(1 + \
             (1+C)*A**2/2. + \
-- 
2.43.0


From 606ce900c1e5d1a90fe3fccfa57365c879adabd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:50 +0000
Subject: [PATCH 50/55] fix: rotate_3x3 takes its axis as the 3x1 matrix it
 documents

---
 opendis/RangeCoordinates.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 00822ce..c9f31be 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -522,6 +522,7 @@ class GPS:
               the rotation.
         """
 
+        normal_vec = array(normal_vec, dtype=float).reshape(3)
         n_x = array([[      0  , -normal_vec[2], normal_vec[1] ],
                      [normal_vec[2] ,       0  , -normal_vec[0]],
                      [-normal_vec[1], normal_vec[0] ,   0      ]
-- 
2.43.0


From 75ca22ab1227110c43da73d7cf04e11c7fb13c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:13 +0000
Subject: [PATCH 51/55] fix: a bit field keeps its layout when the application
 reuses the list it declared it with

---
 opendis/record/bitfield.py | 254 ++++++++++++++++++-------------------
 1 file changed, 127 insertions(+), 127 deletions(-)

diff --git a/opendis/record/bitfield.py b/opendis/record/bitfield.py
index 258a7da..5aeef34 100644
--- a/opendis/record/bitfield.py
+++ b/opendis/record/bitfield.py
@@ -1,127 +1,127 @@
-"""Bitfield type factory and related utilities.
-
-This module provides a factory function to create ctypes.Structure subclasses
-representing bitfields as defined in the DIS standard. These bitfields are used
-in various DIS records to pack multiple non-octet-aligned fields into a compact
-binary representation.
-"""
-
-from ctypes import (
-    _SimpleCData,
-    BigEndianStructure,
-    c_uint8,
-    c_uint16,
-    c_uint32,
-    sizeof,
-)
-from typing import Literal, Sequence
-
-from opendis.stream import DataInputStream, DataOutputStream
-from opendis.types import bf_enum, bf_int, bf_uint
-
-# Type definitions for bitfield field descriptors
-CTypeFieldDescription = tuple[str, type[_SimpleCData], int]
-DisFieldDescription = tuple[str, "DisFieldType", int]
-
-# Field type constants simplify the construction of bitfields
-# which would otherwise require manually specifying ctypes types.
-# The currently implemented bitfields only use integers, but DIS7
-# mentions CHAR types which may be needed in future.
-DisFieldType = Literal["INTEGER"]
-INTEGER = "INTEGER"
-
-
-def _field(name: str,
-          ftype: DisFieldType,
-          bits: int,
-          base_ctype: type[_SimpleCData]) -> CTypeFieldDescription:
-    """Helper function to create the field description tuple used by ctypes.
-
-    Args:
-        name: Field name
-        ftype: Field type (currently only INTEGER supported)
-        bits: Number of bits for this field
-        base_ctype: The base C type to use for all fields (ensures proper packing)
-    """
-    if ftype != INTEGER:
-        raise ValueError(f"Unrecognized ftype: {ftype}")
-    if bits <= 0 or bits > 32:
-        raise ValueError(f"Field size must be between 1 and 32: got {bits}")
-    return (name, base_ctype, bits)
-
-
-def bitfield(name: str,
-              fields: Sequence[DisFieldDescription]):
-    """Factory function for bitfield structs, which are subclasses of
-    ctypes.Structure.
-    These are used in records that require them to unpack non-octet-sized fields.
-
-    Args:
-        name: Name of the bitfield struct.
-        bytesize: Size of the bitfield in bytes.
-        fields: Sequence of tuples defining fields of the bitfield, in the form
-            (field_name, "INTEGER", field_size_in_bits).
-    """
-    # First pass: calculate total bitsize and validate
-    bitsize = 0
-    for field_name, ftype, bits in fields:
-        if ftype not in (INTEGER,):
-            raise ValueError(f"Unsupported field type: {ftype}")
-        if not isinstance(bits, int):
-            raise ValueError(f"Field size must be int: {bits!r}")
-        if bits <= 0 or bits > 32:
-            raise ValueError(f"Field size must be between 1 and 32: got {bits}")
-        bitsize += bits
-
-    if bitsize == 0:
-        raise ValueError(f"Bitfield size cannot be zero")
-    elif bitsize % 8 != 0:
-        raise ValueError(f"Bitfield size must be multiple of 8, got {bitsize}")
-    bytesize = bitsize // 8
-
-    # Determine base ctype based on TOTAL size (critical for Python 3.12+ compatibility)
-    # All fields must use the same underlying type to avoid padding issues
-    if bitsize <= 8:
-        base_ctype = c_uint8
-    elif bitsize <= 16:
-        base_ctype = c_uint16
-    elif bitsize <= 32:
-        base_ctype = c_uint32
-    else:
-        raise ValueError(f"Bitfield size {bitsize} exceeds maximum of 32 bits")
-
-    # Second pass: create fields with consistent base type
-    struct_fields = []
-    for field_name, ftype, bits in fields:
-        struct_fields.append(_field(field_name, ftype, bits, base_ctype))
-
-    # Create the struct class
-    class Bitfield(BigEndianStructure):
-        _fields_ = struct_fields
-
-        def __init__(self, *args: int, **kwargs: int):
-            super().__init__(*args, **kwargs)
-            # ctypes drops the bits that do not fit, without an error
-            names = [field_name for field_name, _, _ in fields]
-            for field_name, value in [*zip(names, args), *kwargs.items()]:
-                if getattr(self, field_name) != value:
-                    raise ValueError(f"{value} does not fit bit field {name}.{field_name}")
-
-        @staticmethod
-        def marshalledSize() -> int:
-            return bytesize
-
-        def serialize(self, outputStream: DataOutputStream) -> None:
-            outputStream.write_bytes(bytes(self))
-
-        @classmethod
-        def parse(cls, inputStream: DataInputStream) -> "Bitfield":
-            return cls.from_buffer_copy(inputStream.read_bytes(bytesize))
-
-    # Sanity check: ensure the struct size matches expected size
-    assert sizeof(Bitfield) == bytesize, \
-        f"Bitfield size mismatch: expected {bytesize}, got {sizeof(Bitfield)}"
-
-    # Assign the class name
-    Bitfield.__name__ = name
-    return Bitfield
+"""Bitfield type factory and related utilities.
+
+This module provides a factory function to create ctypes.Structure subclasses
+representing bitfields as defined in the DIS standard. These bitfields are used
+in various DIS records to pack multiple non-octet-aligned fields into a compact
+binary representation.
+"""
+
+from ctypes import (
+    _SimpleCData,
+    BigEndianStructure,
+    c_uint8,
+    c_uint16,
+    c_uint32,
+    sizeof,
+)
+from typing import Literal, Sequence
+
+from opendis.stream import DataInputStream, DataOutputStream
+from opendis.types import bf_enum, bf_int, bf_uint
+
+# Type definitions for bitfield field descriptors
+CTypeFieldDescription = tuple[str, type[_SimpleCData], int]
+DisFieldDescription = tuple[str, "DisFieldType", int]
+
+# Field type constants simplify the construction of bitfields
+# which would otherwise require manually specifying ctypes types.
+# The currently implemented bitfields only use integers, but DIS7
+# mentions CHAR types which may be needed in future.
+DisFieldType = Literal["INTEGER"]
+INTEGER = "INTEGER"
+
+
+def _field(name: str,
+          ftype: DisFieldType,
+          bits: int,
+          base_ctype: type[_SimpleCData]) -> CTypeFieldDescription:
+    """Helper function to create the field description tuple used by ctypes.
+
+    Args:
+        name: Field name
+        ftype: Field type (currently only INTEGER supported)
+        bits: Number of bits for this field
+        base_ctype: The base C type to use for all fields (ensures proper packing)
+    """
+    if ftype != INTEGER:
+        raise ValueError(f"Unrecognized ftype: {ftype}")
+    if bits <= 0 or bits > 32:
+        raise ValueError(f"Field size must be between 1 and 32: got {bits}")
+    return (name, base_ctype, bits)
+
+
+def bitfield(name: str,
+              fields: Sequence[DisFieldDescription]):
+    """Factory function for bitfield structs, which are subclasses of
+    ctypes.Structure.
+    These are used in records that require them to unpack non-octet-sized fields.
+
+    Args:
+        name: Name of the bitfield struct.
+        bytesize: Size of the bitfield in bytes.
+        fields: Sequence of tuples defining fields of the bitfield, in the form
+            (field_name, "INTEGER", field_size_in_bits).
+    """
+    # First pass: calculate total bitsize and validate
+    bitsize = 0
+    for field_name, ftype, bits in fields:
+        if ftype not in (INTEGER,):
+            raise ValueError(f"Unsupported field type: {ftype}")
+        if not isinstance(bits, int):
+            raise ValueError(f"Field size must be int: {bits!r}")
+        if bits <= 0 or bits > 32:
+            raise ValueError(f"Field size must be between 1 and 32: got {bits}")
+        bitsize += bits
+
+    if bitsize == 0:
+        raise ValueError(f"Bitfield size cannot be zero")
+    elif bitsize % 8 != 0:
+        raise ValueError(f"Bitfield size must be multiple of 8, got {bitsize}")
+    bytesize = bitsize // 8
+
+    # Determine base ctype based on TOTAL size (critical for Python 3.12+ compatibility)
+    # All fields must use the same underlying type to avoid padding issues
+    if bitsize <= 8:
+        base_ctype = c_uint8
+    elif bitsize <= 16:
+        base_ctype = c_uint16
+    elif bitsize <= 32:
+        base_ctype = c_uint32
+    else:
+        raise ValueError(f"Bitfield size {bitsize} exceeds maximum of 32 bits")
+
+    # Second pass: create fields with consistent base type
+    struct_fields = []
+    for field_name, ftype, bits in fields:
+        struct_fields.append(_field(field_name, ftype, bits, base_ctype))
+
+    # Create the struct class
+    class Bitfield(BigEndianStructure):
+        _fields_ = struct_fields
+
+        def __init__(self, *args: int, **kwargs: int):
+            super().__init__(*args, **kwargs)
+            # ctypes drops the bits that do not fit, without an error
+            names = [field_name for field_name, _, _ in struct_fields]
+            for field_name, value in [*zip(names, args), *kwargs.items()]:
+                if getattr(self, field_name) != value:
+                    raise ValueError(f"{value} does not fit bit field {name}.{field_name}")
+
+        @staticmethod
+        def marshalledSize() -> int:
+            return bytesize
+
+        def serialize(self, outputStream: DataOutputStream) -> None:
+            outputStream.write_bytes(bytes(self))
+
+        @classmethod
+        def parse(cls, inputStream: DataInputStream) -> "Bitfield":
+            return cls.from_buffer_copy(inputStream.read_bytes(bytesize))
+
+    # Sanity check: ensure the struct size matches expected size
+    assert sizeof(Bitfield) == bytesize, \
+        f"Bitfield size mismatch: expected {bytesize}, got {sizeof(Bitfield)}"
+
+    # Assign the class name
+    Bitfield.__name__ = name
+    return Bitfield
-- 
2.43.0


From ca9c5292c93cd80a57f0487ffbe926a9a173a6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:42 +0000
Subject: [PATCH 52/55] fix: LiveEntityPdu sends its 8-bit subprotocol number
 in 8 bits, so that its header has the length of the PDU header

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index d7f2d71..f5d74c7 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3699,13 +3699,13 @@ class LiveEntityPdu(PduSuperclass):
     def serialize(self, outputStream):
         """serialize the class"""
         super(LiveEntityPdu, self).serialize(outputStream)
-        outputStream.write_unsigned_short(self.subprotocolNumber)
+        outputStream.write_unsigned_byte(self.subprotocolNumber)
         outputStream.write_unsigned_byte(self.padding)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         super(LiveEntityPdu, self).parse(inputStream)
-        self.subprotocolNumber = inputStream.read_unsigned_short()
+        self.subprotocolNumber = inputStream.read_unsigned_byte()
         self.padding = inputStream.read_unsigned_byte()
 
 
-- 
2.43.0


From 3e061f4815cbe29e22d46b491ffaadee35a6a4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:42 +0000
Subject: [PATCH 53/55] fix: a PDU keeps the protocol family of its class when
 only its type is passed in, and one that has none is refused

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index f5d74c7..2258d91 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3461,9 +3461,9 @@ class PduSuperclass:
             self.pduType = pduType
         """Type of pdu, unique for each PDU class"""
         
-        if protocolFamily is None and not hasattr(self, 'pduType'):
+        if protocolFamily is None and not hasattr(self, 'protocolFamily'):
             raise ValueError("protocolFamily must be set on subclasses of PduSuperclass or passed in via init")
-        elif pduType is not None:
+        elif protocolFamily is not None:
             self.protocolFamily = protocolFamily
         """value that refers to the protocol family, eg SimulationManagement, et"""
         
-- 
2.43.0


From adb173a38a13d553a2fa565991861822de294c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:13 +0000
Subject: [PATCH 54/55] fix: unknown variable records can be pickled, so PDUs
 that hold them can be saved

---
 opendis/record/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/opendis/record/__init__.py b/opendis/record/__init__.py
index 67734c6..f593db0 100644
--- a/opendis/record/__init__.py
+++ b/opendis/record/__init__.py
@@ -68,6 +68,10 @@ def getStandardVariableClass(
             # Subtract 6 bytes for type and length
             self.data = inputStream.read_bytes(bytelength - 6)
 
+        def __reduce__(self):
+            # The class exists only here: copies have it made again
+            return _newStandardVariableRecord, (recordType, expectedType), self.__dict__
+
     if not isinstance(recordType, int) or recordType < 0:
         raise ValueError(
             f"recordType must be a non-negative integer, got {recordType!r}"
@@ -83,3 +87,11 @@ def getStandardVariableClass(
             f"a subclass of {expectedType.__name__}"
         )
     return vrClass
+
+
+def _newStandardVariableRecord(
+        recordType: enum32,
+        expectedType: type[base.StandardVariableRecord]
+) -> base.StandardVariableRecord:
+    """Return a new record of the class for the given recordType."""
+    return getStandardVariableClass(recordType, expectedType)()
-- 
2.43.0


From a40bf37f97e904fe078e227d95cb2507171cdbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:01 +0000
Subject: [PATCH 55/55] fix: designator algorithms and UA state change
 indicators are unsigned octets

Both are 8-bit enumerations, and are annotated so, but were sent and read as
signed integers: 128 to 255 were refused, or decoded as negative numbers.
---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 2258d91..af1f01e 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4748,7 +4748,7 @@ class DesignatorPdu(DistributedEmissionsFamilyPdu):
         outputStream.write_float(self.designatorWavelength)
         self.designatorSpotWrtDesignated.serialize(outputStream)
         self.designatorSpotLocation.serialize(outputStream)
-        outputStream.write_byte(self.deadReckoningAlgorithm)
+        outputStream.write_unsigned_byte(self.deadReckoningAlgorithm)
         outputStream.write_unsigned_short(self.padding1)
         outputStream.write_byte(self.padding2)
         self.entityLinearAcceleration.serialize(outputStream)
@@ -4764,7 +4764,7 @@ class DesignatorPdu(DistributedEmissionsFamilyPdu):
         self.designatorWavelength = inputStream.read_float()
         self.designatorSpotWrtDesignated.parse(inputStream)
         self.designatorSpotLocation.parse(inputStream)
-        self.deadReckoningAlgorithm = inputStream.read_byte()
+        self.deadReckoningAlgorithm = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_unsigned_short()
         self.padding2 = inputStream.read_byte()
         self.entityLinearAcceleration.parse(inputStream)
@@ -6880,7 +6880,7 @@ class UaPdu(DistributedEmissionsFamilyPdu):
         super(UaPdu, self).serialize(outputStream)
         self.emittingEntityID.serialize(outputStream)
         self.eventID.serialize(outputStream)
-        outputStream.write_byte(self.stateChangeIndicator)
+        outputStream.write_unsigned_byte(self.stateChangeIndicator)
         outputStream.write_byte(self.pad)
         outputStream.write_unsigned_short(self.passiveParameterIndex)
         outputStream.write_unsigned_byte(self.propulsionPlantConfiguration)
@@ -6899,7 +6899,7 @@ class UaPdu(DistributedEmissionsFamilyPdu):
         super(UaPdu, self).parse(inputStream)
         self.emittingEntityID.parse(inputStream)
         self.eventID.parse(inputStream)
-        self.stateChangeIndicator = inputStream.read_byte()
+        self.stateChangeIndicator = inputStream.read_unsigned_byte()
         self.pad = inputStream.read_byte()
         self.passiveParameterIndex = inputStream.read_unsigned_short()
         self.propulsionPlantConfiguration = inputStream.read_unsigned_byte()
-- 
2.43.0

