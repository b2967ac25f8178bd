From 7bb8822cda45226bbe36775c77578ca0dc1671f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 01/25] fix: decode a cancelled splice_insert, which ends after
 the cancel indicator

---
 pkg/scte35/splice_insert.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/scte35/splice_insert.go b/pkg/scte35/splice_insert.go
index 30af225..b101c2d 100644
--- a/pkg/scte35/splice_insert.go
+++ b/pkg/scte35/splice_insert.go
@@ -162,10 +162,10 @@ func (cmd *SpliceInsert) decode(b []byte) error {
 			r.Skip(6) // reserved
 			cmd.BreakDuration.Duration = r.Uint64(33)
 		}
+		cmd.UniqueProgramID = r.Uint32(16)
+		cmd.AvailNum = r.Uint32(8)
+		cmd.AvailsExpected = r.Uint32(8)
 	}
-	cmd.UniqueProgramID = r.Uint32(16)
-	cmd.AvailNum = r.Uint32(8)
-	cmd.AvailsExpected = r.Uint32(8)
 
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("splice_insert: %w", err)
-- 
2.43.0


From cbfb6ac66ce22a88fbf554c5326a98c84bfe5a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 02/25] fix: encode and decode cancelled splice_schedule
 events, which end after the cancel indicator

---
 pkg/scte35/splice_schedule.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index ef47b7a..487a34a 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -81,10 +81,10 @@ func (cmd *SpliceSchedule) decode(b []byte) error {
 				r.Skip(6) // reserved
 				e.BreakDuration.Duration = r.Uint64(33)
 			}
+			e.UniqueProgramID = r.Uint32(16)
+			e.AvailNum = r.Uint32(8)
+			e.AvailsExpected = r.Uint32(8)
 		}
-		e.UniqueProgramID = r.Uint32(16)
-		e.AvailNum = r.Uint32(8)
-		e.AvailsExpected = r.Uint32(8)
 		cmd.Events[i] = e
 	}
 
@@ -124,10 +124,10 @@ func (cmd *SpliceSchedule) encode() ([]byte, error) {
 				iow.PutUint32(6, Reserved)
 				iow.PutUint64(33, e.BreakDuration.Duration)
 			}
+			iow.PutUint32(16, e.UniqueProgramID)
+			iow.PutUint32(8, e.AvailNum)
+			iow.PutUint32(8, e.AvailsExpected)
 		}
-		iow.PutUint32(16, e.UniqueProgramID)
-		iow.PutUint32(8, e.AvailNum)
-		iow.PutUint32(8, e.AvailsExpected)
 	}
 
 	err := iow.Flush()
-- 
2.43.0


From 595a9d2c96d2e1af24068cc47f120895fc30adcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 03/25] fix: write audio_count as the 4-bit field it is and
 flush the audio_descriptor

---
 pkg/scte35/audio_descriptor.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/audio_descriptor.go b/pkg/scte35/audio_descriptor.go
index 4ad6c18..78df1e3 100644
--- a/pkg/scte35/audio_descriptor.go
+++ b/pkg/scte35/audio_descriptor.go
@@ -81,7 +81,7 @@ func (sd *AudioDescriptor) encode() ([]byte, error) {
 	iow.PutUint32(8, AudioDescriptorTag)
 	iow.PutUint32(8, uint32(length))
 	iow.PutUint32(32, CUEIdentifier)
-	iow.PutUint32(8, uint32(len(sd.AudioChannels)))
+	iow.PutUint32(4, uint32(len(sd.AudioChannels)))
 	iow.PutUint32(4, Reserved)
 	for _, ad := range sd.AudioChannels {
 		iow.PutUint32(8, ad.ComponentTag)
@@ -90,7 +90,9 @@ func (sd *AudioDescriptor) encode() ([]byte, error) {
 		iow.PutUint32(4, ad.NumChannels)
 		iow.PutBit(ad.FullSrvcAudio)
 	}
-	return buf, nil
+
+	err := iow.Flush()
+	return buf, err
 }
 
 // descriptorLength returns the descriptor_length
-- 
2.43.0


From 9e308a86db281a3520d9d94d20be945a20dc08e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 04/25] fix: keep the private_command of an XML
 splice_info_section

---
 pkg/scte35/splice_info_section.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index a392c95..135244d 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -436,6 +436,9 @@ func (i *iSIS) SpliceCommand() SpliceCommand {
 	if i.BandwidthReservation != nil {
 		return i.BandwidthReservation
 	}
+	if i.PrivateCommand != nil {
+		return i.PrivateCommand
+	}
 
 	// no valid splice_command?
 	if i.SpliceCommandRaw == nil {
-- 
2.43.0


From 3c5a738cc533e58831ebede7d7d3cc43e4b7cf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 05/25] fix: marshal a splice_info_section without a
 splice_command to JSON

---
 pkg/scte35/splice_info_section.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 135244d..8d9d36c 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -286,7 +286,9 @@ func (sis *SpliceInfoSection) Table(prefix, indent string) string {
 func (sis *SpliceInfoSection) MarshalJSON() ([]byte, error) {
 	// ensure JSONTypes are all set before marshalling. These are included in
 	// each SpliceCommand.Type() and SpliceDescriptor.Tag() implementation.
-	sis.SpliceCommand.Type()
+	if sis.SpliceCommand != nil {
+		sis.SpliceCommand.Type()
+	}
 	for i := range sis.SpliceDescriptors {
 		sis.SpliceDescriptors[i].Tag()
 	}
-- 
2.43.0


From f21c123031986cf07ec24215b67ad8722ffdc2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 06/25] fix: report unread bytes after splice_null and
 bandwidth_reservation as an underflow

---
 pkg/scte35/bandwidth_reservation.go | 2 +-
 pkg/scte35/splice_null.go           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/bandwidth_reservation.go b/pkg/scte35/bandwidth_reservation.go
index c6607f7..c14c258 100644
--- a/pkg/scte35/bandwidth_reservation.go
+++ b/pkg/scte35/bandwidth_reservation.go
@@ -52,7 +52,7 @@ func (cmd *BandwidthReservation) Type() uint32 {
 // decode a binary bandwidth_reservation.
 func (cmd *BandwidthReservation) decode(b []byte) error {
 	if len(b) > 0 {
-		return fmt.Errorf("bandwidth_reservation: %w", ErrBufferOverflow)
+		return fmt.Errorf("bandwidth_reservation: %w", ErrBufferUnderflow)
 	}
 	return nil
 }
diff --git a/pkg/scte35/splice_null.go b/pkg/scte35/splice_null.go
index 6ac71cf..7edf6af 100644
--- a/pkg/scte35/splice_null.go
+++ b/pkg/scte35/splice_null.go
@@ -46,7 +46,7 @@ func (cmd *SpliceNull) Type() uint32 {
 // decode a binary splice_null.
 func (cmd *SpliceNull) decode(b []byte) error {
 	if len(b) > 0 {
-		return fmt.Errorf("splice_null: %w", ErrBufferOverflow)
+		return fmt.Errorf("splice_null: %w", ErrBufferUnderflow)
 	}
 	return nil
 }
-- 
2.43.0


From 3836e1453eabe4fe4d5d24145e23ef4e70e6453f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 07/25] fix: treat a 12-byte EIDR as compact binary even if it
 contains 0x2F

---
 pkg/scte35/segmentation_upid.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 5e26ccc..043567c 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -303,8 +303,9 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 
 // canonicalEIDR returns a canonical EIDR.
 func canonicalEIDR(b []byte) string {
-	// already canonical
-	if bytes.Contains(b, []byte("/")) {
+	// already canonical (12 bytes are always compact binary, even if one of
+	// them happens to be a slash)
+	if len(b) != 12 && bytes.Contains(b, []byte("/")) {
 		return string(b)
 	}
 
-- 
2.43.0


From e200ddc099f75df0a06bde1094a990e5a6bb14b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 08/25] fix: do not let a decoded signal alias the caller's
 buffer

---
 pkg/scte35/private_command.go     | 3 ++-
 pkg/scte35/private_descriptor.go  | 3 ++-
 pkg/scte35/splice_info_section.go | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/scte35/private_command.go b/pkg/scte35/private_command.go
index bb62457..1d64ec0 100644
--- a/pkg/scte35/private_command.go
+++ b/pkg/scte35/private_command.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"bytes"
 	"encoding/binary"
 	"encoding/xml"
 	"fmt"
@@ -60,7 +61,7 @@ func (cmd *PrivateCommand) decode(b []byte) error {
 	r := iobit.NewReader(b)
 
 	cmd.Identifier = r.Uint32(32)
-	cmd.PrivateBytes = r.LeftBytes()
+	cmd.PrivateBytes = bytes.Clone(r.LeftBytes()) // the caller may reuse its buffer
 	// LeftBytes doesnt advance position
 	r.Skip(uint(len(cmd.PrivateBytes) * 8))
 
diff --git a/pkg/scte35/private_descriptor.go b/pkg/scte35/private_descriptor.go
index 7a3985c..d204a07 100644
--- a/pkg/scte35/private_descriptor.go
+++ b/pkg/scte35/private_descriptor.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"bytes"
 	"encoding/binary"
 	"encoding/xml"
 	"fmt"
@@ -54,7 +55,7 @@ func (sd *PrivateDescriptor) decode(b []byte) error {
 	sd.PrivateTag = r.Uint32(8)
 	r.Skip(8) // descriptor_length
 	sd.Identifier = r.Uint32(32)
-	sd.PrivateBytes = r.LeftBytes()
+	sd.PrivateBytes = bytes.Clone(r.LeftBytes()) // the caller may reuse its buffer
 	// LeftBytes doesnt advance position
 	r.Skip(uint(len(sd.PrivateBytes) * 8))
 
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 8d9d36c..9bb6522 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"bytes"
 	"encoding/base64"
 	"encoding/hex"
 	"encoding/json"
@@ -122,13 +123,13 @@ func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
 	if encryptedPacket {
 		stuffedBytes := (int(r.LeftBits()) - 64) / 8
 		if stuffedBytes > 0 {
-			sis.alignmentStuffing = r.Bytes(stuffedBytes)
+			sis.alignmentStuffing = bytes.Clone(r.Bytes(stuffedBytes))
 		}
 		sis.ecrc32 = r.Bytes(4)
 	} else {
 		stuffedBytes := (int(r.LeftBits()) - 32) / 8
 		if stuffedBytes > 0 {
-			sis.alignmentStuffing = r.Bytes(stuffedBytes)
+			sis.alignmentStuffing = bytes.Clone(r.Bytes(stuffedBytes))
 		}
 	}
 	sis.crc32 = r.Bytes(4)
-- 
2.43.0


From 4072110da89b21806f8aae72bc2302a18cfe6660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 09/25] fix: drop the previous signal when decoding into a
 reused SpliceInfoSection

---
 pkg/scte35/splice_info_section.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 9bb6522..0e144fc 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -81,6 +81,9 @@ func (sis *SpliceInfoSection) Base64() string {
 
 // Decode the contents of a byte array into this SpliceInfoSection.
 func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
+	// nothing of a previously decoded signal may survive
+	*sis = SpliceInfoSection{}
+
 	r := iobit.NewReader(b)
 	r.Skip(8) // table_id (shall be 0xFC)
 	r.Skip(1) // section_syntax_indicator (shall be 0)
@@ -319,6 +322,7 @@ func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
 		return err
 	}
 
+	*sis = SpliceInfoSection{}
 	sis.EncryptedPacket = tmp.EncryptedPacket
 	sis.SpliceCommand = tmp.SpliceCommand()
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
@@ -339,6 +343,7 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	if err := d.DecodeElement(&tmp, &start); err != nil {
 		return err
 	}
+	*sis = SpliceInfoSection{}
 	sis.EncryptedPacket = tmp.EncryptedPacket
 	sis.SpliceCommand = tmp.SpliceCommand()
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
-- 
2.43.0


From 02844fe144f3db9e7a0924f647ce32a401b39446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 10/25] fix: read preRollMilliSeconds back from XML

---
 pkg/scte35/splice_info_section.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 0e144fc..1c57f88 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -352,6 +352,7 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	} else {
 		sis.SAPType = SAPTypeNotSpecified
 	}
+	sis.PreRollMilliSeconds = tmp.PreRollMilliSeconds
 	sis.PTSAdjustment = tmp.PTSAdjustment
 	sis.ProtocolVersion = tmp.ProtocolVersion
 	sis.Tier = tmp.Tier
@@ -421,6 +422,7 @@ type iSIS struct {
 	PrivateCommand       *PrivateCommand       `xml:"http://www.scte.org/schemas/35 PrivateCommand" json:"-"`
 	SpliceDescriptors    SpliceDescriptors     `xml:",any" json:"spliceDescriptors"`
 	SAPType              *uint32               `xml:"sapType,attr" json:"sapType,omitempty"`
+	PreRollMilliSeconds  uint32                `xml:"preRollMilliSeconds,attr" json:"-"`
 	PTSAdjustment        uint64                `xml:"ptsAdjustment,attr" json:"ptsAdjustment"`
 	ProtocolVersion      uint32                `xml:"protocolVersion,attr" json:"protocolVersion"`
 	Tier                 uint32                `xml:"tier,attr" json:"tier"`
-- 
2.43.0


From cc44ca2451ad0b58ae8b23b72eab0af6aea52d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 11/25] fix: cover E_CRC_32 when calculating the CRC_32 of an
 encrypted signal

---
 pkg/scte35/splice_info_section.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 1c57f88..2c39f8d 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -216,6 +216,9 @@ func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 	// Encoding encrypted signals is untested.
 	if sis.EncryptedPacket.EncryptionAlgorithm != EncryptionAlgorithmNone {
 		iow.PutUint32(32, calculateCRC32(buf[:iow.Index()/8])) // E_CRC_32
+		if err := iow.Flush(); err != nil {                    // CRC_32 covers E_CRC_32
+			return buf, err
+		}
 	}
 
 	// Re-calculate CRC_32 to ensure correctness
-- 
2.43.0


From eb7c7213f241d821acc0f0f2f6be8f8e052c02d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 12/25] fix: keep whitespace at the edges of text UPIDs, and
 leave the UPID as it was when encoding

---
 pkg/scte35/segmentation_upid.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 043567c..a320377 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -21,6 +21,7 @@ import (
 	"encoding/base64"
 	"encoding/binary"
 	"encoding/hex"
+	"encoding/xml"
 	"fmt"
 	"strconv"
 	"strings"
@@ -139,6 +140,17 @@ type SegmentationUPID struct {
 	Value            string  `xml:",chardata" json:"value"`
 }
 
+// UnmarshalXML decodes a SegmentationUPID from XML. The XML schema defines its
+// value as a token, surrounding whitespace is not part of it.
+func (upid *SegmentationUPID) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	type plain SegmentationUPID
+	if err := d.DecodeElement((*plain)(upid), &start); err != nil {
+		return err
+	}
+	upid.Value = strings.TrimSpace(upid.Value)
+	return nil
+}
+
 // Name returns the name for the segmentation_upid_type.
 func (upid *SegmentationUPID) Name() string {
 	switch upid.Type {
@@ -257,16 +269,17 @@ func (upid *SegmentationUPID) formatIdentifierString() string {
 
 // valueBytes returns the value as a byte array.
 func (upid *SegmentationUPID) valueBytes() []byte {
-	upid.Value = strings.TrimSpace(upid.Value)
+	// surrounding whitespace is significant in plain text only
+	value := strings.TrimSpace(upid.Value)
 
 	// this switch should align with the constructor above
 	switch upid.Type {
 	// EIDR - custom
 	case SegmentationUPIDTypeEIDR:
-		return upid.compressEIDR(upid.Value)
+		return upid.compressEIDR(value)
 	// ISAN - base64
 	case SegmentationUPIDTypeISAN, SegmentationUPIDTypeISANDeprecated:
-		b, err := base64.StdEncoding.DecodeString(upid.Value)
+		b, err := base64.StdEncoding.DecodeString(value)
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
 			return b
@@ -276,7 +289,7 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 	case SegmentationUPIDTypeMPU:
 		b := make([]byte, 4)
 		binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
-		v, err := base64.StdEncoding.DecodeString(upid.Value)
+		v, err := base64.StdEncoding.DecodeString(value)
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
 			return b
@@ -286,7 +299,7 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 	// TI - unsigned int
 	case SegmentationUPIDTypeTI:
 		b := make([]byte, 8)
-		i, err := strconv.ParseUint(strings.TrimSpace(upid.Value), 10, 64)
+		i, err := strconv.ParseUint(value, 10, 64)
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
 			return b
-- 
2.43.0


From 29f7ac62d54bd6b370754aa75cc62f3b62b92541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 13/25] fix: do not panic on an MPU() UPID without a format
 identifier

---
 pkg/scte35/segmentation_upid.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index a320377..88bc7af 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -262,6 +262,9 @@ func (upid *SegmentationUPID) eidrTypeName() string {
 
 // formatIdentifierString returns the format identifier as a string
 func (upid *SegmentationUPID) formatIdentifierString() string {
+	if upid.FormatIdentifier == nil {
+		return ""
+	}
 	b := make([]byte, 4)
 	binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
 	return string(b)
@@ -287,8 +290,10 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 		return b
 	// MPU - custom
 	case SegmentationUPIDTypeMPU:
-		b := make([]byte, 4)
-		binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
+		var b []byte
+		if upid.FormatIdentifier != nil {
+			b = binary.BigEndian.AppendUint32(b, *upid.FormatIdentifier)
+		}
 		v, err := base64.StdEncoding.DecodeString(value)
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
-- 
2.43.0


From 67a089c3d9af4e15fb5196b48a843da086678f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 14/25] fix: do not wrap utc_splice_time values after 2106 to
 1970

---
 pkg/scte35/scte35.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index c8fab99..2a0256d 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -125,7 +125,7 @@ func (bb *Bytes) UnmarshalText(b []byte) error {
 // from GPS Epoch (01 Jan 1980, 00:00:00 UTC)
 func NewUTCSpliceTime(sec uint32) UTCSpliceTime {
 	return UTCSpliceTime{
-		time.Unix(int64(sec+unixEpochToGPSEpoch), 0),
+		time.Unix(int64(sec)+int64(unixEpochToGPSEpoch), 0),
 	}
 }
 
-- 
2.43.0


From c1c478452ae9a43769bb1ecf6c91aa48464cbbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 15/25] fix: print the sub-segment numbers instead of their
 addresses in the table

---
 pkg/scte35/table.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/scte35/table.go b/pkg/scte35/table.go
index 702e16e..d97246f 100644
--- a/pkg/scte35/table.go
+++ b/pkg/scte35/table.go
@@ -74,6 +74,11 @@ func valueString(value any) string {
 			return ""
 		}
 		return strconv.FormatUint(*vt, 10)
+	case *uint32:
+		if vt == nil {
+			return ""
+		}
+		return strconv.FormatUint(uint64(*vt), 10)
 	case bool:
 		if vt {
 			return "true"
-- 
2.43.0


From 5ca156dc4cf95db13439ca826f31b1f5ca916898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 16/25] fix: print the tenths of a DTMF preroll in the table

---
 pkg/scte35/dtmf_descriptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index 2183bd8..94e8938 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -45,7 +45,7 @@ func (sd *DTMFDescriptor) writeTo(t *table) {
 	t.row(1, "splice_descriptor_tag", fmt.Sprintf("%#02x", DTMFDescriptorTag))
 	t.row(1, "descriptor_length", sd.length())
 	t.row(1, "identifier", fmt.Sprintf("%#08x (%s)", CUEIdentifier, CUEIASCII))
-	t.row(1, "preroll", float32(sd.Preroll/10))
+	t.row(1, "preroll", float32(sd.Preroll)/10)
 	t.row(1, "dtmf_count", len(sd.DTMFChars))
 	t.row(1, "dtmf_chars", sd.DTMFChars)
 	t.row(0, "}", nil)
-- 
2.43.0


From 766bf492c213ab9e51785822cc593ed4e59d1682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 17/25] fix: write sub-segment fields exactly where the decoder
 reads them, and list them all in the table

---
 pkg/scte35/segmentation_descriptor.go | 84 ++++++++++++++++-----------
 1 file changed, 50 insertions(+), 34 deletions(-)

diff --git a/pkg/scte35/segmentation_descriptor.go b/pkg/scte35/segmentation_descriptor.go
index d4611c0..3667082 100644
--- a/pkg/scte35/segmentation_descriptor.go
+++ b/pkg/scte35/segmentation_descriptor.go
@@ -330,6 +330,42 @@ func (sd *SegmentationDescriptor) SegmentationUpidLength() int {
 	return length / 8
 }
 
+// subSegmentsAllowed returns true if the segmentation_type_id may be followed
+// by sub_segment_num and sub_segments_expected.
+func (sd *SegmentationDescriptor) subSegmentsAllowed() bool {
+	switch sd.SegmentationTypeID {
+	case SegmentationTypeProviderAdStart,
+		SegmentationTypeDistributorAdStart,
+		SegmentationTypeProviderPOStart,
+		SegmentationTypeDistributorPOStart,
+		SegmentationTypeProviderOverlayPOStart,
+		SegmentationTypeDistributorOverlayPOStart,
+		SegmentationTypeProviderAdBlockStart,
+		SegmentationTypeDistributorAdBlockStart:
+		return true
+	default:
+		return false
+	}
+}
+
+// subSegmentsIncluded returns true if the sub-segment fields, which always
+// come as a pair, are part of this descriptor.
+func (sd *SegmentationDescriptor) subSegmentsIncluded() bool {
+	return sd.subSegmentsAllowed() && (sd.SubSegmentNum != nil || sd.SubSegmentsExpected != nil)
+}
+
+// subSegments returns sub_segment_num and sub_segments_expected, an absent one
+// is zero.
+func (sd *SegmentationDescriptor) subSegments() (n uint32, e uint32) {
+	if sd.SubSegmentNum != nil {
+		n = *sd.SubSegmentNum
+	}
+	if sd.SubSegmentsExpected != nil {
+		e = *sd.SubSegmentsExpected
+	}
+	return n, e
+}
+
 // decode updates this splice_descriptor from binary.
 func (sd *SegmentationDescriptor) decode(b []byte) error {
 	r := iobit.NewReader(b)
@@ -405,21 +441,11 @@ func (sd *SegmentationDescriptor) decode(b []byte) error {
 		sd.SegmentsExpected = r.Uint32(8)
 
 		// sub-segment indicators
-		if r.LeftBits() == 16 {
-			switch sd.SegmentationTypeID {
-			case SegmentationTypeProviderAdStart,
-				SegmentationTypeDistributorAdStart,
-				SegmentationTypeProviderPOStart,
-				SegmentationTypeDistributorPOStart,
-				SegmentationTypeProviderOverlayPOStart,
-				SegmentationTypeDistributorOverlayPOStart,
-				SegmentationTypeProviderAdBlockStart,
-				SegmentationTypeDistributorAdBlockStart:
-				n := r.Uint32(8)
-				e := r.Uint32(8)
-				sd.SubSegmentNum = &n
-				sd.SubSegmentsExpected = &e
-			}
+		if r.LeftBits() == 16 && sd.subSegmentsAllowed() {
+			n := r.Uint32(8)
+			e := r.Uint32(8)
+			sd.SubSegmentNum = &n
+			sd.SubSegmentsExpected = &e
 		}
 	}
 
@@ -495,11 +521,10 @@ func (sd *SegmentationDescriptor) encode() ([]byte, error) {
 		iow.PutUint32(8, sd.SegmentNum)
 		iow.PutUint32(8, sd.SegmentsExpected)
 
-		if sd.SubSegmentNum != nil {
-			iow.PutUint32(8, *sd.SubSegmentNum)
-		}
-		if sd.SubSegmentsExpected != nil {
-			iow.PutUint32(8, *sd.SubSegmentsExpected)
+		if sd.subSegmentsIncluded() {
+			n, e := sd.subSegments()
+			iow.PutUint32(8, n)
+			iow.PutUint32(8, e)
 		}
 	}
 
@@ -543,10 +568,8 @@ func (sd *SegmentationDescriptor) length() int {
 		length += 8                               // segment_num
 		length += 8                               // segments_expected
 
-		if sd.SubSegmentNum != nil {
+		if sd.subSegmentsIncluded() {
 			length += 8 // sub_segment_num
-		}
-		if sd.SubSegmentsExpected != nil {
 			length += 8 // sub_segments_expected
 		}
 	}
@@ -601,17 +624,10 @@ func (sd *SegmentationDescriptor) writeTo(t *table) {
 	t.row(1, "segmentation_type_id", fmt.Sprintf("%#02x (%s)", sd.SegmentationTypeID, sd.Name()))
 	t.row(1, "segment_num", sd.SegmentNum)
 	t.row(1, "segments_expected", sd.SegmentsExpected)
-	switch sd.SegmentationTypeID {
-	case SegmentationTypeProviderPOStart,
-		SegmentationTypeDistributorPOStart,
-		SegmentationTypeProviderOverlayPOStart,
-		SegmentationTypeDistributorOverlayPOStart:
-		if sd.SubSegmentNum != nil {
-			t.row(1, "sub_segment_num", sd.SubSegmentNum)
-		}
-		if sd.SubSegmentsExpected != nil {
-			t.row(1, "sub_segments_expected", sd.SubSegmentsExpected)
-		}
+	if sd.subSegmentsIncluded() {
+		n, e := sd.subSegments()
+		t.row(1, "sub_segment_num", n)
+		t.row(1, "sub_segments_expected", e)
 	}
 	t.row(0, "}", nil)
 }
-- 
2.43.0


From 910720001a74103ec2ea6abd965526234a1a80d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 18/25] fix: return an error for a malformed JSON
 splice_command instead of dropping it

---
 pkg/scte35/splice_info_section.go | 40 ++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 2c39f8d..33993ad 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -325,9 +325,14 @@ func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
 		return err
 	}
 
+	sc, err := tmp.SpliceCommand()
+	if err != nil {
+		return err
+	}
+
 	*sis = SpliceInfoSection{}
 	sis.EncryptedPacket = tmp.EncryptedPacket
-	sis.SpliceCommand = tmp.SpliceCommand()
+	sis.SpliceCommand = sc
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
 	if tmp.SAPType != nil {
 		sis.SAPType = *tmp.SAPType
@@ -346,9 +351,14 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	if err := d.DecodeElement(&tmp, &start); err != nil {
 		return err
 	}
+	sc, err := tmp.SpliceCommand()
+	if err != nil {
+		return err
+	}
+
 	*sis = SpliceInfoSection{}
 	sis.EncryptedPacket = tmp.EncryptedPacket
-	sis.SpliceCommand = tmp.SpliceCommand()
+	sis.SpliceCommand = sc
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
 	if tmp.SAPType != nil {
 		sis.SAPType = *tmp.SAPType
@@ -432,30 +442,30 @@ type iSIS struct {
 }
 
 // SpliceCommand returns the polymorphic splice_command.
-func (i *iSIS) SpliceCommand() SpliceCommand {
+func (i *iSIS) SpliceCommand() (SpliceCommand, error) {
 	// xml unmarshalls to the corresponding struct
 	if i.SpliceNull != nil {
-		return i.SpliceNull
+		return i.SpliceNull, nil
 	}
 	if i.SpliceSchedule != nil {
-		return i.SpliceSchedule
+		return i.SpliceSchedule, nil
 	}
 	if i.SpliceInsert != nil {
-		return i.SpliceInsert
+		return i.SpliceInsert, nil
 	}
 	if i.TimeSignal != nil {
-		return i.TimeSignal
+		return i.TimeSignal, nil
 	}
 	if i.BandwidthReservation != nil {
-		return i.BandwidthReservation
+		return i.BandwidthReservation, nil
 	}
 	if i.PrivateCommand != nil {
-		return i.PrivateCommand
+		return i.PrivateCommand, nil
 	}
 
 	// no valid splice_command?
-	if i.SpliceCommandRaw == nil {
-		return nil
+	if i.SpliceCommandRaw == nil || string(i.SpliceCommandRaw) == "null" {
+		return nil, nil
 	}
 
 	// struct to determine the splice command's type
@@ -466,16 +476,14 @@ func (i *iSIS) SpliceCommand() SpliceCommand {
 	// get the type
 	var st sctype
 	if err := json.Unmarshal(i.SpliceCommandRaw, &st); err != nil {
-		Logger.Printf("error unmarshalling splice command type: %s", err)
-		return nil
+		return nil, fmt.Errorf("splice_command type: %w", err)
 	}
 
 	// and decode it
 	sc := NewSpliceCommand(st.Type)
 	if err := json.Unmarshal(i.SpliceCommandRaw, sc); err != nil {
-		Logger.Printf("error unmarshalling splice command: %s", err)
-		return nil
+		return nil, fmt.Errorf("splice_command: %w", err)
 	}
 
-	return sc
+	return sc, nil
 }
-- 
2.43.0


From 1fb677aafea565ce9bc0e5a4818a6f7026f4ea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 19/25] fix: reject a null splice_descriptor in JSON, it cannot
 be encoded

---
 pkg/scte35/splice_descriptor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scte35/splice_descriptor.go b/pkg/scte35/splice_descriptor.go
index 655d728..0277f0b 100644
--- a/pkg/scte35/splice_descriptor.go
+++ b/pkg/scte35/splice_descriptor.go
@@ -103,6 +103,9 @@ func (sds *SpliceDescriptors) UnmarshalJSON(data []byte) error {
 		if err := json.Unmarshal(items[i], &sd); err != nil {
 			return err
 		}
+		if sd == nil {
+			return fmt.Errorf("splice_descriptor %d is null", i)
+		}
 
 		results[i] = sd
 	}
-- 
2.43.0


From a4da19a60e63e3b573118df3ea2f6dfd0f4ffa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 20/25] fix: read the CLI's stdin as it is, joining its lines
 corrupted multi-line documents

---
 cmd/encode.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cmd/encode.go b/cmd/encode.go
index cd3850d..d63477f 100644
--- a/cmd/encode.go
+++ b/cmd/encode.go
@@ -17,10 +17,10 @@
 package cmd
 
 import (
-	"bufio"
 	"encoding/json"
 	"encoding/xml"
 	"fmt"
+	"io"
 	"os"
 	"strings"
 
@@ -47,15 +47,13 @@ func encodeCommand() *cobra.Command {
 			if len(args) == 1 {
 				input = args[0]
 			} else {
-				scanner := bufio.NewScanner(os.Stdin)
-				for scanner.Scan() {
-					input += scanner.Text()
-				}
-				err = scanner.Err()
+				var b []byte
+				b, err = io.ReadAll(os.Stdin)
 				if err != nil {
 					_, _ = fmt.Fprintf(os.Stderr, "Error: %s\n", err)
 					return
 				}
+				input = string(b)
 			}
 
 			switch {
-- 
2.43.0


From 93b97a3f342235a8b4c289ff65ab80331d54a556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 21/25] fix: return an error for signals that do not fit their
 length and count fields

---
 pkg/scte35/audio_descriptor.go    | 6 ++++++
 pkg/scte35/dtmf_descriptor.go     | 3 +++
 pkg/scte35/scte35.go              | 3 +++
 pkg/scte35/splice_info_section.go | 6 ++++++
 pkg/scte35/splice_insert.go       | 3 +++
 pkg/scte35/splice_schedule.go     | 6 ++++++
 6 files changed, 27 insertions(+)

diff --git a/pkg/scte35/audio_descriptor.go b/pkg/scte35/audio_descriptor.go
index 78df1e3..053953a 100644
--- a/pkg/scte35/audio_descriptor.go
+++ b/pkg/scte35/audio_descriptor.go
@@ -77,6 +77,9 @@ func (sd *AudioDescriptor) encode() ([]byte, error) {
 
 	// add 2 bytes to contain splice_descriptor_tag & descriptor_length
 	buf := make([]byte, length+2)
+	if len(sd.AudioChannels) > 0xF {
+		return buf, fmt.Errorf("audio_descriptor: audio_count: %w", ErrUnencodable)
+	}
 	iow := iobit.NewWriter(buf)
 	iow.PutUint32(8, AudioDescriptorTag)
 	iow.PutUint32(8, uint32(length))
@@ -84,6 +87,9 @@ func (sd *AudioDescriptor) encode() ([]byte, error) {
 	iow.PutUint32(4, uint32(len(sd.AudioChannels)))
 	iow.PutUint32(4, Reserved)
 	for _, ad := range sd.AudioChannels {
+		if len(ad.ISOCode) != 3 {
+			return buf, fmt.Errorf("audio_descriptor: iso_code: %w", ErrUnencodable)
+		}
 		iow.PutUint32(8, ad.ComponentTag)
 		_, _ = iow.Write([]byte(ad.ISOCode))
 		iow.PutUint32(3, ad.BitStreamMode)
diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index 94e8938..f409d74 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -81,6 +81,9 @@ func (sd *DTMFDescriptor) encode() ([]byte, error) {
 
 	// add 2 bytes to contain splice_descriptor_tag & descriptor_length
 	buf := make([]byte, length+2)
+	if len(sd.DTMFChars) > 7 {
+		return buf, fmt.Errorf("dtmf_descriptor: dtmf_count: %w", ErrUnencodable)
+	}
 	iow := iobit.NewWriter(buf)
 	iow.PutUint32(8, DTMFDescriptorTag)         // splice_descriptor_tag
 	iow.PutUint32(8, uint32(length))            // descriptor_length
diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index 2a0256d..4734a24 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -50,6 +50,9 @@ var (
 	// ErrUnsupportedEncoding is returned if the signal is not a base-64 encoded
 	// string.
 	ErrUnsupportedEncoding = errors.New("invalid or unsupported encoding")
+	// ErrUnencodable is returned when encoding a value that has no binary
+	// representation, such as a list longer than its count field can express.
+	ErrUnencodable = errors.New("value cannot be encoded")
 )
 
 // Logger for emitting debug messages.
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 33993ad..d1340b9 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -172,6 +172,9 @@ func (sis *SpliceInfoSection) Duration() time.Duration {
 // byte array.
 func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 	buf := make([]byte, sis.length())
+	if sis.sectionLength() > 0xFFF {
+		return buf, fmt.Errorf("splice_info_section: section_length: %w", ErrUnencodable)
+	}
 
 	iow := iobit.NewWriter(buf)
 	iow.PutUint32(8, TableID)
@@ -201,6 +204,9 @@ func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 
 	iow.PutUint32(16, uint32(sis.descriptorLoopLength()))
 	for _, sd := range sis.SpliceDescriptors {
+		if sd.length() > 0xFF {
+			return buf, fmt.Errorf("splice_info_section: descriptor_length: %w", ErrUnencodable)
+		}
 		sde, err := sd.encode()
 		if err != nil {
 			return buf, err
diff --git a/pkg/scte35/splice_insert.go b/pkg/scte35/splice_insert.go
index b101c2d..5be3465 100644
--- a/pkg/scte35/splice_insert.go
+++ b/pkg/scte35/splice_insert.go
@@ -176,6 +176,9 @@ func (cmd *SpliceInsert) decode(b []byte) error {
 // encode this splice_insert to binary.
 func (cmd *SpliceInsert) encode() ([]byte, error) {
 	buf := make([]byte, cmd.length())
+	if len(cmd.Components) > 0xFF {
+		return buf, fmt.Errorf("splice_insert: component_count: %w", ErrUnencodable)
+	}
 
 	iow := iobit.NewWriter(buf)
 	iow.PutUint32(32, cmd.SpliceEventID)
diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index 487a34a..ea9c1be 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -99,8 +99,14 @@ func (cmd *SpliceSchedule) encode() ([]byte, error) {
 	buf := make([]byte, cmd.length())
 	iow := iobit.NewWriter(buf)
 
+	if len(cmd.Events) > 0xFF {
+		return buf, fmt.Errorf("splice_schedule: splice_count: %w", ErrUnencodable)
+	}
 	iow.PutUint32(8, uint32(len(cmd.Events)))
 	for _, e := range cmd.Events {
+		if len(e.Components) > 0xFF {
+			return buf, fmt.Errorf("splice_schedule: component_count: %w", ErrUnencodable)
+		}
 		iow.PutUint32(32, e.SpliceEventID)
 		iow.PutBit(e.SpliceEventCancelIndicator)
 		iow.PutBit(!e.EventIDComplianceFlag) // event_id_compliance_flag has inverted semantics
-- 
2.43.0


From d584c301ba96e110339a6c162c56ce42e4df051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:02 +0000
Subject: [PATCH 22/25] fix: convert between ticks and durations exactly

---
 pkg/scte35/scte35.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index 4734a24..26ad245 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -23,7 +23,6 @@ import (
 	"encoding/hex"
 	"errors"
 	"log"
-	"math"
 	"strings"
 	"time"
 
@@ -88,13 +87,21 @@ func DecodeHex(s string) (*SpliceInfoSection, error) {
 
 // DurationToTicks converts a duration to 90MhZ ticks.
 func DurationToTicks(d time.Duration) uint64 {
-	return uint64(math.Ceil(float64(d) * TicksPerSecond / float64(time.Second)))
+	// 9 ticks are 100000ns. Floating point cannot represent longer durations
+	// exactly, rounding them up would add a tick.
+	q, r := d/100000, d%100000
+	if r > 0 {
+		r = (r*9 + 99999) / 100000
+	} else {
+		r = r * 9 / 100000
+	}
+	return uint64(q*9 + r)
 }
 
 // TicksToDuration converts 90MhZ ticks to a duration.
 func TicksToDuration(ticks uint64) time.Duration {
-	s := float64(ticks) / float64(TicksPerSecond)
-	return time.Duration(int64(s * float64(time.Second)))
+	// 9 ticks are 100000ns
+	return time.Duration(ticks/9*100000 + ticks%9*100000/9)
 }
 
 // BreakDuration specifies the duration of the commercial break(s). It may be
-- 
2.43.0


From 57f857a61139a5aac99592a3c57144f034f8391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 23/25] fix: report a splice_descriptor that runs past the
 descriptor loop as an overflow

---
 pkg/scte35/splice_descriptor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/scte35/splice_descriptor.go b/pkg/scte35/splice_descriptor.go
index 0277f0b..12967af 100644
--- a/pkg/scte35/splice_descriptor.go
+++ b/pkg/scte35/splice_descriptor.go
@@ -178,5 +178,10 @@ func decodeSpliceDescriptors(b []byte) ([]SpliceDescriptor, error) {
 		sds = append(sds, sd)
 	}
 
+	// the last descriptor must not claim more than the loop contains
+	if rerr := readerError(r); rerr != nil && err == nil {
+		err = fmt.Errorf("splice_descriptors: %w", rerr)
+	}
+
 	return sds, err
 }
-- 
2.43.0


From 4bffa93b1ac8a0235a22a118da1270323c47845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:35 +0000
Subject: [PATCH 24/25] fix: report fields that run past the end of their
 container as an overflow

---
 pkg/scte35/dtmf_descriptor.go     | 2 +-
 pkg/scte35/scte35.go              | 8 ++++++++
 pkg/scte35/splice_descriptor.go   | 2 +-
 pkg/scte35/splice_info_section.go | 8 ++++----
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index f409d74..1053e76 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -67,7 +67,7 @@ func (sd *DTMFDescriptor) decode(b []byte) error {
 	sd.Preroll = r.Uint32(8)
 	dtmfCount := int(r.Uint32(3))
 	r.Skip(5) // reserved
-	sd.DTMFChars = r.String(dtmfCount)
+	sd.DTMFChars = string(readBytes(&r, dtmfCount))
 
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("dtmf_descriptor: %w", err)
diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index 26ad245..fe2f22a 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -149,6 +149,14 @@ func (t UTCSpliceTime) GPSSeconds() uint32 {
 	return uint32(t.Time.Unix()) - unixEpochToGPSEpoch
 }
 
+// readBytes reads the n bytes the syntax calls for. If fewer are left, those are
+// returned and the reader has overflowed.
+func readBytes(r *iobit.Reader, n int) []byte {
+	b := r.Bytes(n)
+	r.Skip(uint(n-len(b)) * 8)
+	return b
+}
+
 // readerError returns the readers error state, if any.
 func readerError(r iobit.Reader) error {
 	if r.LeftBits() > 0 {
diff --git a/pkg/scte35/splice_descriptor.go b/pkg/scte35/splice_descriptor.go
index 12967af..bfaec3b 100644
--- a/pkg/scte35/splice_descriptor.go
+++ b/pkg/scte35/splice_descriptor.go
@@ -171,7 +171,7 @@ func decodeSpliceDescriptors(b []byte) ([]SpliceDescriptor, error) {
 		// Decode the full splice_descriptor (including splice_descriptor_tag
 		// and descriptor_length).
 		sd := NewSpliceDescriptor(identifier, spliceDescriptorTag)
-		if derr := sd.decode(r.Bytes(descriptorLength + 2)); derr != nil {
+		if derr := sd.decode(readBytes(&r, descriptorLength+2)); derr != nil {
 			// Store the error but continue decoding the rest of the signal.
 			err = derr
 		}
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index d1340b9..68668c4 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -111,14 +111,14 @@ func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
 		r.Skip(uint(sis.SpliceCommand.length() * 8))
 	default:
 		// standard signal, decode as usual
-		sis.SpliceCommand, err = decodeSpliceCommand(spliceCommandType, r.Bytes(spliceCommandLength))
+		sis.SpliceCommand, err = decodeSpliceCommand(spliceCommandType, readBytes(&r, spliceCommandLength))
 		if err != nil {
 			return err
 		}
 	}
 
 	descriptorLoopLength := int(r.Uint32(16)) // bytes
-	sis.SpliceDescriptors, err = decodeSpliceDescriptors(r.Bytes(descriptorLoopLength))
+	sis.SpliceDescriptors, err = decodeSpliceDescriptors(readBytes(&r, descriptorLoopLength))
 	if err != nil {
 		return err
 	}
@@ -128,14 +128,14 @@ func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
 		if stuffedBytes > 0 {
 			sis.alignmentStuffing = bytes.Clone(r.Bytes(stuffedBytes))
 		}
-		sis.ecrc32 = r.Bytes(4)
+		sis.ecrc32 = readBytes(&r, 4)
 	} else {
 		stuffedBytes := (int(r.LeftBits()) - 32) / 8
 		if stuffedBytes > 0 {
 			sis.alignmentStuffing = bytes.Clone(r.Bytes(stuffedBytes))
 		}
 	}
-	sis.crc32 = r.Bytes(4)
+	sis.crc32 = readBytes(&r, 4)
 
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("splice_info_section: %w", err)
-- 
2.43.0


From 4f1cc07f92d5074af51ff49744393bf04edaca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:48 +0000
Subject: [PATCH 25/25] fix: do not print absent fields of a cancelled
 segmentation_descriptor

---
 pkg/scte35/segmentation_descriptor.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/scte35/segmentation_descriptor.go b/pkg/scte35/segmentation_descriptor.go
index 3667082..25a89c6 100644
--- a/pkg/scte35/segmentation_descriptor.go
+++ b/pkg/scte35/segmentation_descriptor.go
@@ -619,15 +619,15 @@ func (sd *SegmentationDescriptor) writeTo(t *table) {
 			t.row(2, "segmentation_upid", u.Value)
 			t.row(1, "}", nil)
 		}
-	}
 
-	t.row(1, "segmentation_type_id", fmt.Sprintf("%#02x (%s)", sd.SegmentationTypeID, sd.Name()))
-	t.row(1, "segment_num", sd.SegmentNum)
-	t.row(1, "segments_expected", sd.SegmentsExpected)
-	if sd.subSegmentsIncluded() {
-		n, e := sd.subSegments()
-		t.row(1, "sub_segment_num", n)
-		t.row(1, "sub_segments_expected", e)
+		t.row(1, "segmentation_type_id", fmt.Sprintf("%#02x (%s)", sd.SegmentationTypeID, sd.Name()))
+		t.row(1, "segment_num", sd.SegmentNum)
+		t.row(1, "segments_expected", sd.SegmentsExpected)
+		if sd.subSegmentsIncluded() {
+			n, e := sd.subSegments()
+			t.row(1, "sub_segment_num", n)
+			t.row(1, "sub_segments_expected", e)
+		}
 	}
 	t.row(0, "}", nil)
 }
-- 
2.43.0

