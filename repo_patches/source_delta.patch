From e652dc93999e18fa33632ceb0dbe647e9463be8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 01/46] fix: read wide bit fields that span five bytes without
 losing high bits, and zero bits from an empty buffer

---
 net/h264/bits.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/net/h264/bits.go b/net/h264/bits.go
index 85581b4..700e355 100644
--- a/net/h264/bits.go
+++ b/net/h264/bits.go
@@ -33,16 +33,20 @@ func (r *BitReader) ReadBits(n uint) (val uint32, err error) {
 	if n > 32 || n > r.Available() {
 		return 0, io.ErrUnexpectedEOF
 	}
-	val = uint32(r.buffer[r.byten])
+	if n == 0 {
+		return 0, nil
+	}
+	// Unaligned read of 32 bits spans 5 bytes.
+	acc := uint64(r.buffer[r.byten])
 	bits := 8 - r.bitn
 	for n > bits {
 		// No check here as we already know there is enough data from AvailableBits().
 		r.byten++
-		val = (val << 8) | uint32(r.buffer[r.byten])
+		acc = (acc << 8) | uint64(r.buffer[r.byten])
 		bits += 8
 	}
 	// Align and nask out most significant bits that are not requested.
-	val = (val >> (bits - n)) & ((1 << n) - 1)
+	val = uint32((acc >> (bits - n)) & ((1 << n) - 1))
 	r.bitn = 8 - (bits - n)
 	return
 }
-- 
2.43.0


From b6690652877a0c23edfa4f41d0a1267dcfb09c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 02/46] fix: reject Exp-Golomb codes whose value does not fit
 in 32 bits

---
 net/h264/bits.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/net/h264/bits.go b/net/h264/bits.go
index 700e355..9e5fb6b 100644
--- a/net/h264/bits.go
+++ b/net/h264/bits.go
@@ -81,6 +81,10 @@ func (r *BitReader) ReadUnsignedGolomb() (val uint32, err error) {
 		}
 		zeroes++
 	}
+	if zeroes > 31 {
+		// The value does not fit in 32 bits.
+		return 0, io.ErrUnexpectedEOF
+	}
 	// Last read bit was 1.  Read (zeroes) more.
 	val, err = r.ReadBits(zeroes)
 	if err != nil {
-- 
2.43.0


From 5dab7dfcf8c5a1f56d68f566ef249fd453416b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 03/46] fix: add emulation prevention to runs of zeroes and to
 zeroes at the end of RBSP

---
 net/h264/annexb.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/net/h264/annexb.go b/net/h264/annexb.go
index 565f566..c463804 100644
--- a/net/h264/annexb.go
+++ b/net/h264/annexb.go
@@ -58,10 +58,12 @@ func RBSPToEncapsulated(buf []byte) []byte {
 	size := len(buf)
 	ebsp := make([]byte, 0, size*2)
 	for off := 0; off < size; {
-		if size-off >= 2 && buf[off] == 0 && buf[off+1] == 0 && buf[off+2] <= 3 {
+		if size-off >= 2 && buf[off] == 0 && buf[off+1] == 0 && (size-off == 2 || buf[off+2] <= 3) {
 			// Add emulation prevention bytes.
 			ebsp = append(ebsp, zero, zero, epb)
 			off += 2
+			// Bytes that follow may start with another pair of zeroes.
+			continue
 		}
 		ebsp = append(ebsp, buf[off])
 		off++
-- 
2.43.0


From 932be6d3846a3c98b8ac5dd2b2b53e7c06cde885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 04/46] fix: keep all units of an Annex B payload and remove
 emulation prevention from whole units only

---
 net/h264/annexb.go | 23 ++++++++++++++++++++---
 net/h264/packet.go | 18 ++++++++++--------
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/net/h264/annexb.go b/net/h264/annexb.go
index c463804..63a7f52 100644
--- a/net/h264/annexb.go
+++ b/net/h264/annexb.go
@@ -5,6 +5,23 @@ const shortStartCodeLen = 3
 // SplitAnnexB attempts to recognize a sequence of NALUs separated by start codes in the buffer.
 // Returns a list of raw/unparsed units with emulation bytes removed.
 func SplitAnnexB(buf []byte) [][]byte {
+	units := splitAnnexB(buf)
+	for i, unit := range units {
+		units[i] = EBSPToRaw(unit)
+	}
+	return units
+}
+
+// startsAnnexB tells if the buffer begins with a start code.
+func startsAnnexB(buf []byte) bool {
+	if len(buf) > shortStartCodeLen && buf[0] == 0 && buf[1] == 0 && buf[2] == 0 {
+		buf = buf[1:]
+	}
+	return len(buf) >= shortStartCodeLen && buf[0] == 0 && buf[1] == 0 && buf[2] == 1
+}
+
+// splitAnnexB splits the buffer on start codes and returns slices of the buffer, emulation bytes included.
+func splitAnnexB(buf []byte) [][]byte {
 	units := [][]byte{}
 	end := len(buf) - shortStartCodeLen
 	prev := 0
@@ -16,10 +33,10 @@ func SplitAnnexB(buf []byte) [][]byte {
 			// Do not insert 0-length slices.
 			if off > 0 && buf[off-1] == 0 {
 				if off > prev+1 {
-					units = append(units, EBSPToRaw(buf[prev:off-1]))
+					units = append(units, buf[prev:off-1])
 				}
 			} else if off > prev {
-				units = append(units, EBSPToRaw(buf[prev:off]))
+				units = append(units, buf[prev:off])
 			}
 			off += 3
 			prev = off
@@ -27,7 +44,7 @@ func SplitAnnexB(buf []byte) [][]byte {
 			off++
 		}
 	}
-	units = append(units, EBSPToRaw(buf[prev:]))
+	units = append(units, buf[prev:])
 	return units
 }
 
diff --git a/net/h264/packet.go b/net/h264/packet.go
index 8b96cb4..8054196 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -139,7 +139,7 @@ func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32
 			Header: indicator,
 			Don:    don,
 			TS:     ts,
-			Data:   data,
+			Data:   append([]byte{}, data...), // The buffer belongs to the caller.
 		},
 		Flags: header,
 	})
@@ -150,7 +150,7 @@ func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32
 		for _, frag := range s.Fragments {
 			data = append(data, frag.Data...)
 		}
-		s.Units = append(s.Units, NALUnit{Header: indicator, Don: don, TS: ts, Data: data})
+		s.Units = append(s.Units, NALUnit{Header: indicator, Don: don, TS: ts, Data: EBSPToRaw(data)})
 	}
 }
 
@@ -170,7 +170,7 @@ func (s *NALSink) parseSTAP(typ byte, buf []byte, ts uint32) error {
 		if len(buf) < int(size+2) {
 			return errPacketTooShort
 		}
-		s.Units = append(s.Units, NALUnit{Header: buf[2], Don: s.Don, TS: ts, Data: buf[3 : size+2]})
+		s.Units = append(s.Units, NALUnit{Header: buf[2], Don: s.Don, TS: ts, Data: EBSPToRaw(buf[3 : size+2])})
 		s.Don++
 		buf = buf[size+2:]
 	}
@@ -200,7 +200,7 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 		if len(buf) < int(size+off) {
 			return errPacketTooShort
 		}
-		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: buf[off+1 : size+off]})
+		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: EBSPToRaw(buf[off+1 : size+off])})
 		s.Don++
 		buf = buf[size+off:]
 	}
@@ -208,8 +208,11 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 
 // Push RTP payload parsing NAL units and handling aggregation and fragmenting.
 func (s *NALSink) Push(buf []byte, ts uint32) error {
-	// TODO: Detect Annex B vs AVC payloads.  If starts with Annex B start code then split on start code.
-	for _, nal := range SplitAnnexB(buf) {
+	s.Units = s.Units[:0]
+	if !startsAnnexB(buf) {
+		return s.parseNAL(buf, ts)
+	}
+	for _, nal := range splitAnnexB(buf) {
 		if err := s.parseNAL(nal, ts); err != nil {
 			return err
 		}
@@ -218,7 +221,6 @@ func (s *NALSink) Push(buf []byte, ts uint32) error {
 }
 
 func (s *NALSink) parseNAL(buf []byte, ts uint32) error {
-	s.Units = s.Units[:0]
 	if len(buf) < 1 {
 		return errPacketTooShort
 	}
@@ -246,7 +248,7 @@ func (s *NALSink) parseNAL(buf []byte, ts uint32) error {
 		}
 		s.AddFragment(nri+(buf[1]&0x1F), buf[1], be.Uint16(buf[2:]), ts, buf[4:])
 	default:
-		s.Units = append(s.Units, NALUnit{Header: buf[0], Don: s.Don, TS: ts, Data: buf[1:]})
+		s.Units = append(s.Units, NALUnit{Header: buf[0], Don: s.Don, TS: ts, Data: EBSPToRaw(buf[1:])})
 		s.Don++
 	}
 	return nil
-- 
2.43.0


From 014e74a4ee21682f2f45d9baefdcb1a4c9dda911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 05/46] fix: reject aggregation units of size zero and do not
 overflow sizes near 64K

---
 net/h264/packet.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 8054196..78dc495 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -167,12 +167,12 @@ func (s *NALSink) parseSTAP(typ byte, buf []byte, ts uint32) error {
 			return nil // Nothing more to process
 		}
 		size := be.Uint16(buf)
-		if len(buf) < int(size+2) {
+		if size == 0 || len(buf) < int(size)+2 {
 			return errPacketTooShort
 		}
-		s.Units = append(s.Units, NALUnit{Header: buf[2], Don: s.Don, TS: ts, Data: EBSPToRaw(buf[3 : size+2])})
+		s.Units = append(s.Units, NALUnit{Header: buf[2], Don: s.Don, TS: ts, Data: EBSPToRaw(buf[3 : int(size)+2])})
 		s.Don++
-		buf = buf[size+2:]
+		buf = buf[int(size)+2:]
 	}
 }
 
@@ -197,12 +197,12 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 		if typ == typeMtap24 {
 			tsoff = ts<<8 + uint32(buf[5])
 		}
-		if len(buf) < int(size+off) {
+		if size == 0 || len(buf) < int(size)+int(off) {
 			return errPacketTooShort
 		}
-		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: EBSPToRaw(buf[off+1 : size+off])})
+		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: EBSPToRaw(buf[off+1 : int(size)+int(off)])})
 		s.Don++
-		buf = buf[size+off:]
+		buf = buf[int(size)+int(off):]
 	}
 }
 
-- 
2.43.0


From 2bb5c963d87f792bb6168295dc879c91bb308a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 06/46] fix: number MTAP units by base and difference and read
 24-bit timestamp offsets

---
 net/h264/packet.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 78dc495..07dfa50 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -180,7 +180,7 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 	if len(buf) < 2 {
 		return errPacketTooShort
 	}
-	s.Don = be.Uint16(buf)
+	donb := be.Uint16(buf)
 	buf = buf[2:]
 	off := uint16(2 + 1 + 2) // size, donb, 16-bit ts offset
 	if typ == typeMtap24 {
@@ -195,12 +195,13 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 		// Read and handle 16-bit or 24-bit timestamp offset.
 		tsoff := uint32(buf[3])<<8 + uint32(buf[4])
 		if typ == typeMtap24 {
-			tsoff = ts<<8 + uint32(buf[5])
+			tsoff = tsoff<<8 + uint32(buf[5])
 		}
 		if size == 0 || len(buf) < int(size)+int(off) {
 			return errPacketTooShort
 		}
-		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: EBSPToRaw(buf[off+1 : int(size)+int(off)])})
+		s.Don = donb + dond
+		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don, TS: ts + tsoff, Data: EBSPToRaw(buf[off+1 : int(size)+int(off)])})
 		s.Don++
 		buf = buf[int(size)+int(off):]
 	}
-- 
2.43.0


From 651c4d66ba78f22fa7c120aecb676e898788858e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 07/46] fix: rebuild fragmented units from complete series
 only, with their header and decoding order number

---
 net/h264/packet.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 07dfa50..cded112 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -133,6 +133,8 @@ func NewNALSink() *NALSink {
 func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32, data []byte) {
 	if (header & 0x80) != 0 {
 		s.Fragments = s.Fragments[:0]
+	} else if len(s.Fragments) == 0 {
+		return // First fragment in a series was lost.
 	}
 	s.Fragments = append(s.Fragments, NALFragment{
 		NALUnit: NALUnit{
@@ -150,7 +152,11 @@ func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32
 		for _, frag := range s.Fragments {
 			data = append(data, frag.Data...)
 		}
-		s.Units = append(s.Units, NALUnit{Header: indicator, Don: don, TS: ts, Data: EBSPToRaw(data)})
+		// First fragment in a series carries the decoding order number.
+		s.Don = s.Fragments[0].Don
+		s.Units = append(s.Units, NALUnit{Header: indicator, Don: s.Don, TS: ts, Data: EBSPToRaw(data)})
+		s.Don++
+		s.Fragments = s.Fragments[:0]
 	}
 }
 
@@ -237,13 +243,13 @@ func (s *NALSink) parseNAL(buf []byte, ts uint32) error {
 	case typeMtap24:
 		return s.parseMTAP(typ, buf[1:], ts)
 	case typeFuA:
-		nri := buf[0] & 0x60
+		nri := buf[0] & 0xE0
 		if len(buf) < 2 {
 			return errPacketTooShort
 		}
 		s.AddFragment(nri+(buf[1]&0x1F), buf[1], s.Don, ts, buf[2:])
 	case typeFuB:
-		nri := buf[0] & 0x60
+		nri := buf[0] & 0xE0
 		if len(buf) < 4 {
 			return errPacketTooShort
 		}
-- 
2.43.0


From 688c136d57c7e8c16b32e32355536e9f10f63395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 08/46] fix: read picture order count offsets of SPS for type 1
 only

---
 net/h264/spspps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 5ac7854..b39d348 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -174,7 +174,7 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 		if sps.Log2MaxPicOrderCnt, err = br.ReadUnsignedGolomb(); err != nil {
 			return
 		}
-	} else {
+	} else if sps.PicOrderCntType == 1 {
 		if sps.DeltaPicOrderAlways0, err = br.ReadFlag(); err != nil {
 			return
 		}
-- 
2.43.0


From f9be7b37b4c949b5cdcce9c59ac5352f997d1a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 09/46] fix: read frame_mbs_only_flag of SPS as a flag and
 compute luma height from it

---
 net/h264/spspps.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index b39d348..4272c03 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -205,13 +205,13 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 	if sps.PicHeightInMapUnitsMinus1, err = br.ReadUnsignedGolomb(); err != nil {
 		return
 	}
-	if sps.FrameMbsOnly, err = br.ReadUnsignedGolomb(); err != nil {
+	if sps.FrameMbsOnly, err = br.ReadBits(1); err != nil {
 		return
 	}
 	if (sps.ConstraintSet&0x2) != 0 && (sps.ProfileIdc == 77 || sps.ProfileIdc == 88 || sps.ProfileIdc == 100) {
 		sps.FrameMbsOnly = 1
 	}
-	if sps.FrameMbsOnly != 0 {
+	if sps.FrameMbsOnly == 0 {
 		if sps.MbAdaptiveFrameField, err = br.ReadFlag(); err != nil {
 			return
 		}
@@ -255,7 +255,7 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 	// Macroblock width is 16 for luma.
 	sps.Width = (sps.PicWidthInMbsMinus1 + 1) * 16 // / subWidthC
 	// FrameMbsOnly designates either full frame or field (half frame).  Hence multiplier.
-	sps.Height = (2 - sps.FrameMbsOnly) * (sps.PicHeightInMapUnitsMinus1 + 1) * 16 / subHeightC
+	sps.Height = (2 - sps.FrameMbsOnly) * (sps.PicHeightInMapUnitsMinus1 + 1) * 16 // / subHeightC
 	// Adjust for crop if present.  This accounts for monochrome vs. various color chroma formats.
 	cropUnitX := subWidthC
 	cropUnitY := (2 - sps.FrameMbsOnly) * subHeightC
-- 
2.43.0


From dc5eada6e117080903f36ade57847f538f6a2245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 10/46] fix: remove emulation prevention from out-of-band
 parameter sets

---
 net/h264/spspps.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 4272c03..80ceac7 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -415,9 +415,9 @@ func (s *ParameterSets) ParseSprop(buf []byte) (err error) {
 	}
 	typ := buf[0] & 0x1F
 	if typ == typeSPS {
-		return s.ParseSPS(buf[1:])
+		return s.ParseSPS(EBSPToRaw(buf[1:]))
 	} else if typ == typePPS {
-		return s.ParsePPS(buf[1:])
+		return s.ParsePPS(EBSPToRaw(buf[1:]))
 	}
 	return
 }
-- 
2.43.0


From 58a2eaccf2f0cca8421f27d469f79f7a3cdea98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 11/46] fix: read slice group change fields of PPS for map
 types 3 and 4

---
 net/h264/spspps.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 80ceac7..439fd3b 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -313,9 +313,7 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 				}
 			}
 			break
-		case 3:
-		case 4:
-		case 5:
+		case 3, 4, 5:
 			if pps.SliceGroupChangeDirection, err = br.ReadFlag(); err != nil {
 				return
 			}
-- 
2.43.0


From 0ad0d2cb7851ed968da167476dc2f4e40edcbf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 12/46] fix: reject PPS with too many slice groups or more map
 units than data

---
 net/h264/spspps.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 439fd3b..1d76add 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -1,9 +1,15 @@
 package h264
 
 import (
+	"errors"
+	"io"
 	"math"
 )
 
+var (
+	errTooManySliceGroups = errors.New("PPS has too many slice groups")
+)
+
 type (
 	// SPSInfo holds Sequence Parameter Set information parsed from out-of-band or in-band data in the stream.
 	// Most of the information here is unused but parsed anyway.  VUI parameters are no parsed at all.
@@ -291,6 +297,9 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 	if pps.NumSliceGroupsMinus1, err = br.ReadUnsignedGolomb(); err != nil {
 		return
 	}
+	if pps.NumSliceGroupsMinus1 > 7 {
+		return errTooManySliceGroups
+	}
 	if pps.NumSliceGroupsMinus1 > 0 {
 		if pps.SliceGroupMapType, err = br.ReadUnsignedGolomb(); err != nil {
 			return
@@ -325,8 +334,11 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 			if pps.PicSizeInMapUnitsMinus1, err = br.ReadUnsignedGolomb(); err != nil {
 				return
 			}
-			pps.SliceGroupID = make([]byte, pps.PicSizeInMapUnitsMinus1+1)
 			bits := uint(math.Ceil(math.Log2(float64(pps.NumSliceGroupsMinus1 + 1))))
+			if (uint64(pps.PicSizeInMapUnitsMinus1)+1)*uint64(bits) > uint64(br.Available()) {
+				return io.ErrUnexpectedEOF
+			}
+			pps.SliceGroupID = make([]byte, pps.PicSizeInMapUnitsMinus1+1)
 			for i := uint32(0); i <= pps.PicSizeInMapUnitsMinus1; i++ {
 				if pps.SliceGroupID[i], err = br.ReadByteBits(bits); err != nil {
 					return
-- 
2.43.0


From c59998546c4752cf82449241af022579207cbddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 13/46] fix: read the optional part of PPS only if there is
 data before its trailing bits

---
 net/h264/bits.go   | 17 +++++++++++++++++
 net/h264/spspps.go |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/net/h264/bits.go b/net/h264/bits.go
index 9e5fb6b..9353751 100644
--- a/net/h264/bits.go
+++ b/net/h264/bits.go
@@ -27,6 +27,23 @@ func (r *BitReader) Available() uint {
 	return (r.count-r.byten)*8 - r.bitn
 }
 
+// moreRBSPData tells if there is data in the bit stream before the trailing stop bit
+// and any zeroes that follow it.
+func (r *BitReader) moreRBSPData() bool {
+	avail := r.Available()
+	for n := r.count; n > 0; n-- {
+		if b := r.buffer[n-1]; b != 0 {
+			// Bits from the stop bit, which is the last bit set, to the end of the buffer.
+			tail := (r.count-n)*8 + 1
+			for ; b&1 == 0; b >>= 1 {
+				tail++
+			}
+			return avail > tail
+		}
+	}
+	return false
+}
+
 // ReadBits attempts to read requested number of bits from the bit stream.
 // Returns an error if running into end of stream prematurely.
 func (r *BitReader) ReadBits(n uint) (val uint32, err error) {
diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 1d76add..70d59ff 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -376,7 +376,7 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 	if pps.RedundantPicCntPresent, err = br.ReadFlag(); err != nil {
 		return
 	}
-	if br.Available() > 0 {
+	if br.moreRBSPData() {
 		if pps.Transform8x8Mode, err = br.ReadFlag(); err != nil {
 			return
 		}
-- 
2.43.0


From 080d99d4679fcf92ed471a34ea3ba69142e60b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 14/46] fix: wrap the first segment of the playlist ring

---
 net/hls/playlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/hls/playlist.go b/net/hls/playlist.go
index 3704f21..94e4b6c 100644
--- a/net/hls/playlist.go
+++ b/net/hls/playlist.go
@@ -100,7 +100,7 @@ func (pl *Playlist) AddSegment(duration float64, length int64) {
 	pl.Segments[pl.Last].Position = pos
 	pl.Segments[pl.Last].Length = length
 	if pl.First == pl.Last {
-		pl.First++
+		pl.First = (pl.First + 1) % len(pl.Segments)
 	} else if pl.First < 0 {
 		pl.First = pl.Last
 	}
-- 
2.43.0


From fe560686c857fe29fcebd4c4955a1c5f6a76887d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 15/46] fix: check length of RTP packet against its header,
 sources and extension

---
 net/rtp/packet.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/net/rtp/packet.go b/net/rtp/packet.go
index 77c6af5..c7debd1 100644
--- a/net/rtp/packet.go
+++ b/net/rtp/packet.go
@@ -14,6 +14,8 @@ const (
 
 var (
 	errInvalidVersion = errors.New("Invalid version of RTP packet")
+	errInvalidPadding = errors.New("Invalid padding of RTP packet")
+	errPacketTooShort = errors.New("Packet is too short")
 )
 
 var be = binary.BigEndian
@@ -48,6 +50,9 @@ type (
 
 // Unpack validates a packed RTP packet and converts it into a sparse structure.
 func Unpack(buf []byte) (*Packet, error) {
+	if len(buf) < HeaderSize {
+		return nil, errPacketTooShort
+	}
 	if (buf[0] & 0xC0) != RtpVersion {
 		return nil, errInvalidVersion
 	}
@@ -60,6 +65,9 @@ func Unpack(buf []byte) (*Packet, error) {
 	}
 
 	off := HeaderSize
+	if len(buf) < off+int(packet.CC())*4 {
+		return nil, errPacketTooShort
+	}
 	packet.CSRC = make([]uint32, packet.CC())
 	for i := range packet.CSRC {
 		packet.CSRC[i] = be.Uint32(buf[off:])
@@ -67,9 +75,15 @@ func Unpack(buf []byte) (*Packet, error) {
 	}
 
 	if packet.X() {
+		if len(buf) < off+4 {
+			return nil, errPacketTooShort
+		}
 		packet.XH = be.Uint16(buf[off:])
 		packet.XL = be.Uint16(buf[off+2:])
 		off += 4
+		if len(buf) < off+int(packet.XL)*4 {
+			return nil, errPacketTooShort
+		}
 		if packet.XL > 0 {
 			packet.XD = buf[off : off+int(packet.XL)*4]
 			off += int(packet.XL) * 4
-- 
2.43.0


From b6adac40a8b5a883c8d1bf47e35d4ec3a59d2284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 16/46] fix: remove padding from RTP payload

---
 net/rtp/packet.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/net/rtp/packet.go b/net/rtp/packet.go
index c7debd1..e7fd2d8 100644
--- a/net/rtp/packet.go
+++ b/net/rtp/packet.go
@@ -91,6 +91,14 @@ func Unpack(buf []byte) (*Packet, error) {
 	}
 
 	packet.PL = buf[off:]
+	if packet.P() {
+		// Last byte of the packet is the number of padding bytes including itself.
+		pad := int(buf[len(buf)-1])
+		if pad == 0 || pad > len(packet.PL) {
+			return nil, errInvalidPadding
+		}
+		packet.PL = packet.PL[:len(packet.PL)-pad]
+	}
 
 	//s.rtpChan <- packet
 	return packet, nil
-- 
2.43.0


From e72979d043280a82ffb94f1d365dcf09fa2f5a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 17/46] fix: reject RTCP packet shorter than its header

---
 net/rtcp/packet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/rtcp/packet.go b/net/rtcp/packet.go
index e61e349..a9451c6 100644
--- a/net/rtcp/packet.go
+++ b/net/rtcp/packet.go
@@ -187,6 +187,9 @@ type DataBYE struct {
 
 // Unpack validates a packed RTCP packet and converts it into a sparse structure.
 func Unpack(buf []byte) (*Packet, error) {
+	if len(buf) < HeaderSize {
+		return nil, errPacketTooShort
+	}
 	packet := &Packet{
 		VPC: buf[0],
 		PT:  buf[1],
-- 
2.43.0


From 349abbacfd6532e3225d10c119dc1692c24b391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 18/46] fix: do not crash on SDP media line without port and
 format

---
 net/sdp/packet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/sdp/packet.go b/net/sdp/packet.go
index 79d3df5..093a897 100644
--- a/net/sdp/packet.go
+++ b/net/sdp/packet.go
@@ -49,6 +49,9 @@ func Parse(buf []byte) (feeds []Media) {
 					case "video": // case "audio", "video":
 						feeds = append(feeds, Media{audio: fields[0] == "audio"})
 						m = &feeds[len(feeds)-1]
+						if len(fields) < 2 {
+							continue
+						}
 						mfields := strings.Split(fields[1], " ")
 						if len(mfields) >= 3 {
 							m.PayloadType, _ = strconv.Atoi(mfields[2])
-- 
2.43.0


From 3b7fc49cb8f6d198e9e0dc3803f47d1d69645e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 19/46] fix: take each value of SDP media from its own
 attribute, single format parameter included

---
 net/sdp/packet.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/net/sdp/packet.go b/net/sdp/packet.go
index 093a897..c3aa20e 100644
--- a/net/sdp/packet.go
+++ b/net/sdp/packet.go
@@ -62,9 +62,10 @@ func Parse(buf []byte) (feeds []Media) {
 				}
 			case "a":
 				if m != nil {
-					for _, field := range fields {
+					attr := strings.SplitN(fields[0], ":", 2)[0]
+					for i, field := range fields {
 						keyval = strings.SplitN(field, ":", 2)
-						if len(keyval) >= 2 {
+						if i == 0 && len(keyval) >= 2 {
 							key := keyval[0]
 							val := keyval[1]
 							switch key {
@@ -75,7 +76,7 @@ func Parse(buf []byte) (feeds []Media) {
 							}
 						}
 						keyval = strings.Split(field, "/")
-						if len(keyval) >= 2 {
+						if attr == "rtpmap" && len(keyval) >= 2 {
 							key := keyval[0]
 							switch strings.ToUpper(key) {
 							case "MPEG4-GENERIC":
@@ -88,7 +89,7 @@ func Parse(buf []byte) (feeds []Media) {
 							}
 						}
 						keyval = strings.Split(field, ";")
-						if len(keyval) > 1 {
+						if attr == "fmtp" && i > 0 {
 							for _, field := range keyval {
 								keyval := strings.SplitN(field, "=", 2)
 								if len(keyval) == 2 {
-- 
2.43.0


From 1dc422a2fcbe1dc3606828c73801556923da0331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 20/46] fix: match names of SDP format parameters without
 regard to case

---
 net/sdp/packet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/sdp/packet.go b/net/sdp/packet.go
index c3aa20e..96c689b 100644
--- a/net/sdp/packet.go
+++ b/net/sdp/packet.go
@@ -93,7 +93,7 @@ func Parse(buf []byte) (feeds []Media) {
 							for _, field := range keyval {
 								keyval := strings.SplitN(field, "=", 2)
 								if len(keyval) == 2 {
-									key := strings.TrimSpace(keyval[0])
+									key := strings.ToLower(strings.TrimSpace(keyval[0]))
 									val := keyval[1]
 									switch key {
 									case "config":
-- 
2.43.0


From c5f2fc4e62009271c0db98b2999192d34b8f6864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 21/46] fix: compute MD5-sess key from the password for each
 response

---
 net/rtsp/digest.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index 619f4bb..abbcb2e 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -153,8 +153,9 @@ func (d *Digest) response(verb string, body []byte) string {
 		out.WriteString(", response=\"")
 		out.WriteString(md5hex(colonnade(d.ha1, d.nonce, d.ha2)))
 	} else {
+		ha1 := d.ha1
 		if d.algorithm == "md5-sess" {
-			d.ha1 = md5hex(colonnade(d.ha1, d.nonce, d.cnonce))
+			ha1 = md5hex(colonnade(ha1, d.nonce, d.cnonce))
 		}
 		out.WriteString(", qop=\"")
 		out.WriteString(d.qop)
@@ -163,7 +164,7 @@ func (d *Digest) response(verb string, body []byte) string {
 		out.WriteString(", cnonce=\"")
 		out.WriteString(d.cnonce)
 		out.WriteString("\", response=\"")
-		out.WriteString(md5hex(colonnade(d.ha1, d.nonce, d.nc, d.cnonce, d.qop, d.ha2)))
+		out.WriteString(md5hex(colonnade(ha1, d.nonce, d.nc, d.cnonce, d.qop, d.ha2)))
 	}
 	out.WriteByte('"')
 	return out.String()
-- 
2.43.0


From 862f7761713ef33a6a5e06023b8af28389df30d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 22/46] fix: count each use of the digest nonce

---
 net/rtsp/digest.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index abbcb2e..d4eb212 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -124,19 +124,22 @@ func (d *Digest) Authenticate(username, password string) DigestAuth {
 	}
 	out.WriteString("\"")
 	auth := out.String()
-	d.Next()
 	return func(verb string, body []byte) string {
+		d.Next() // Each use of the nonce counts.
 		return auth + d.response(verb, body)
 	}
 }
 
-// Next increments session count and generates new cnonce.
+// Next increments session count and generates cnonce for the first use of the nonce.
 func (d *Digest) Next() {
 	if d.qop == "" {
 		return
 	}
 	d.count++
 	d.nc = fmt.Sprintf("%08x", d.count)
+	if d.cnonce != "" {
+		return
+	}
 	b := make([]byte, 8)
 	rand.Read(b)
 	d.cnonce = hex.EncodeToString(b)[:8]
-- 
2.43.0


From 1cfad5185b31382d96e55d8fdc5998d5233868a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 23/46] fix: accept commas in quoted values, spaces and unknown
 parameters in authentication challenge

---
 net/rtsp/digest.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index d4eb212..2b7ce05 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -53,7 +53,14 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 	} else {
 		return nil, ErrAuthMalformedChallenge
 	}
-	parts := strings.Split(challenge, ",")
+	// Split on commas outside of quoted values.
+	quoted := false
+	parts := strings.FieldsFunc(challenge, func(r rune) bool {
+		if r == '"' {
+			quoted = !quoted
+		}
+		return r == ',' && !quoted
+	})
 	for i := 0; i < len(parts); i++ {
 		parts[i] = strings.TrimSpace(parts[i])
 		if len(parts[i]) == 0 {
@@ -62,7 +69,7 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 
 		attr, val := parts[i], ""
 		if j := strings.Index(attr, "="); j > 0 {
-			attr, val = strings.ToLower(attr[:j]), attr[j+1:]
+			attr, val = strings.ToLower(strings.TrimSpace(attr[:j])), strings.TrimSpace(attr[j+1:])
 			val = strings.Trim(val, "\"")
 			switch attr {
 			case "realm":
@@ -80,10 +87,8 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 			case "qop":
 				vals := strings.Split(val, ",")
 				if len(vals) > 0 {
-					d.qop = strings.ToLower(vals[0])
+					d.qop = strings.ToLower(strings.TrimSpace(vals[0]))
 				}
-			default:
-				return nil, ErrAuthMalformedChallenge
 			}
 		}
 	}
-- 
2.43.0


From 4558db766761da5e900d75ffc9ff22fab3293f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 24/46] fix: refuse unsupported digest algorithms always and
 match authentication scheme without regard to case

---
 net/rtsp/digest.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index 2b7ce05..ab63f17 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -44,10 +44,11 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 	d := &Digest{count: 0, uri: uri}
 	d.algorithm = "md5"
 	challenge = strings.TrimSpace(challenge)
-	if strings.HasPrefix(challenge, "Digest ") {
+	// Name of the scheme is not case sensitive.
+	if len(challenge) > 7 && strings.EqualFold(challenge[:7], "Digest ") {
 		d.basic = false
 		challenge = challenge[7:]
-	} else if strings.HasPrefix(challenge, "Basic ") {
+	} else if len(challenge) > 6 && strings.EqualFold(challenge[:6], "Basic ") {
 		d.basic = true
 		challenge = challenge[6:]
 	} else {
@@ -92,7 +93,7 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 			}
 		}
 	}
-	if d.nonce != "" {
+	if !d.basic {
 		if d.algorithm != "md5" && d.algorithm != "md5-sess" {
 			return nil, ErrAuthNotImpemented
 		}
-- 
2.43.0


From 5b089e188a3024d528f36afd3a16b9ec1865dfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 25/46] fix: number and send concurrent requests atomically and
 keep the number of a repeated request

---
 net/rtsp/session.go | 49 ++++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 5384c06..747dc3d 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -63,16 +63,33 @@ func (s *Session) authorize(challenge string) error {
 	}
 	username := s.URL.User.Username()
 	password, _ := s.URL.User.Password()
+	s.Lock()
+	defer s.Unlock()
 	s.auth = digest.Authenticate(username, password)
 	return nil
 }
 
-func (s *Session) enqueue(req *Request) {
+// enqueue sends the request and remembers it until there is a response.  Request that does not have
+// a sequence number yet gets the next one.  Lock ensures that concurrent requests get distinct numbers
+// and are written in the order of these.
+func (s *Session) enqueue(req *Request) error {
 	s.Lock()
 	defer s.Unlock()
-	req.Cseq = s.cseq
+	if req.Cseq == 0 {
+		s.cseq++
+		req.Cseq = s.cseq
+	}
 	req.Session = s.session
+	if s.auth != nil {
+		req.Auth = s.auth(req.Verb, nil)
+	}
 	s.queue[req.Cseq] = req
+	buf := req.Pack()
+
+	log.Println(string(buf))
+
+	_, err := s.Write(buf)
+	return err
 }
 
 func (s *Session) dequeue(seq int) (req *Request, ok bool) {
@@ -93,19 +110,7 @@ func (s *Session) command(verb, uri string, headers Headers) error {
 	for key, value := range headers {
 		req.Header.Set(key, value)
 	}
-	if s.auth != nil {
-		req.Auth = s.auth(req.Verb, nil)
-	}
-	s.cseq++
-	s.enqueue(req)
-	buf := req.Pack()
-
-	log.Println(string(buf))
-
-	if _, err := s.Write(buf); err != nil {
-		return err
-	}
-	return nil
+	return s.enqueue(req)
 }
 
 // Options handles client OPTIONS request in RTSP.
@@ -235,22 +240,16 @@ func (s *Session) handleRtsp() (err error) {
 		if err = s.authorize(rsp.Header.Get(HeaderAuthenticate)); err != nil {
 			return err
 		}
-		req.Auth = s.auth(req.Verb, nil)
 		// Treat this as retransmit of the same message.
-		// If the following line is uncommented, it will break matching responses to transport setup commands based on checking CSeq.
-		// s.cseq++
-		s.enqueue(req)
-		buf := req.Pack()
-
-		log.Println(string(buf))
-
-		_, err = s.Write(buf)
-		return err
+		// Assigning a new CSeq would break matching responses to transport setup commands based on checking CSeq.
+		return s.enqueue(req)
 	}
 
 	if sess := rsp.Header.Get(HeaderSession); sess != "" {
 		if fields := strings.Split(sess, ";"); len(fields) > 0 {
+			s.Lock()
 			s.session = fields[0]
+			s.Unlock()
 		}
 	}
 
-- 
2.43.0


From 944c502d059fddc561a5cac1705da1dd2f1fe813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 26/46] fix: match transport setup by the number of its own
 request

---
 net/rtsp/session.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 747dc3d..9cf0926 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -103,14 +103,21 @@ func (s *Session) dequeue(seq int) (req *Request, ok bool) {
 }
 
 func (s *Session) command(verb, uri string, headers Headers) error {
+	_, err := s.request(verb, uri, headers)
+	return err
+}
+
+// request issues a command and returns its sequence number.
+func (s *Session) request(verb, uri string, headers Headers) (int, error) {
 	if s.Conn == nil {
-		return errNoConnection
+		return 0, errNoConnection
 	}
 	req := &Request{Verb: verb, URI: uri, Header: make(MessageHeader)}
 	for key, value := range headers {
 		req.Header.Set(key, value)
 	}
-	return s.enqueue(req)
+	err := s.enqueue(req)
+	return req.Cseq, err
 }
 
 // Options handles client OPTIONS request in RTSP.
@@ -131,11 +138,11 @@ func (s *Session) Setup() error {
 		if !strings.HasPrefix(uri, "rtsp://") {
 			uri = s.BaseURI + "/" + uri
 		}
-		err := s.command(VerbSetup, uri, Headers{HeaderTransport: s.feeds[i].TransportHeader()})
+		cseq, err := s.request(VerbSetup, uri, Headers{HeaderTransport: s.feeds[i].TransportHeader()})
 		if err != nil {
 			return err
 		}
-		s.feeds[i].cseq = s.cseq
+		s.feeds[i].cseq = cseq
 	}
 	return nil
 }
-- 
2.43.0


From 56b39d2c6263afff2bbeaf6cfac68ddafb60929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 27/46] fix: do not repeat a request forever when credentials
 are refused

---
 net/rtsp/definitions.go | 1 +
 net/rtsp/message.go     | 1 +
 net/rtsp/session.go     | 4 ++++
 3 files changed, 6 insertions(+)

diff --git a/net/rtsp/definitions.go b/net/rtsp/definitions.go
index eb5322c..4f02af7 100644
--- a/net/rtsp/definitions.go
+++ b/net/rtsp/definitions.go
@@ -130,6 +130,7 @@ var (
 	errNotSupported      = errors.New("Unsupported protocol version")
 	errNoCredentials     = errors.New("Resource URI has no credentials to perform authorization")
 	errOutOfMemory       = errors.New("Out of memory")
+	errUnauthorized      = errors.New("Credentials have been refused")
 	errBadResponse       = errors.New("Bad or unexpected response")
 	errNoConnection      = errors.New("Connection to RTSP source is required")
 	errPacketTooShort    = errors.New("Packet is too short")
diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index 168021b..28ac224 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -22,6 +22,7 @@ type (
 		Auth    string
 		Session string
 		Header  MessageHeader
+		retried bool // Request has been repeated with authorization already.
 	}
 
 	// Response encapsulates RTSP response.  It is modeled by http.Response but includes only what is needed to handle RTSP.
diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 9cf0926..e565f1f 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -244,6 +244,10 @@ func (s *Session) handleRtsp() (err error) {
 	}
 
 	if rsp.StatusCode == RtspUnauthorized {
+		if req.retried {
+			return errUnauthorized
+		}
+		req.retried = true
 		if err = s.authorize(rsp.Header.Get(HeaderAuthenticate)); err != nil {
 			return err
 		}
-- 
2.43.0


From 862924936da5dddd4a8c752adb5557f3d1c83fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 28/46] fix: keep counting uses of a nonce when it is issued
 again

---
 net/rtsp/session.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index e565f1f..1a86a8e 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -21,6 +21,7 @@ type (
 		stage   int        // Current stage.
 		State   chan int   // Stage signaller.
 		auth    DigestAuth // Callback function to calculate digest authentication for a given verb/method.
+		digest  *Digest    // Authentication processor behind the callback.
 		queue   Queue      // RTSP requests that we are waiting responses for
 		done    chan struct{}
 		session string
@@ -65,6 +66,12 @@ func (s *Session) authorize(challenge string) error {
 	password, _ := s.URL.User.Password()
 	s.Lock()
 	defer s.Unlock()
+	if s.digest != nil && s.digest.nonce == digest.nonce {
+		// Several outstanding requests got the same challenge.  Keep counting uses of the nonce.
+		digest.count = s.digest.count
+		digest.cnonce = s.digest.cnonce
+	}
+	s.digest = digest
 	s.auth = digest.Authenticate(username, password)
 	return nil
 }
-- 
2.43.0


From 21840fde0c15f9b86c3ff694ed31484b280949b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:59 +0000
Subject: [PATCH 29/46] fix: authorize each request for its own URI

---
 net/rtsp/digest.go  | 6 +++---
 net/rtsp/session.go | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index ab63f17..3bd02e8 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -120,8 +120,8 @@ func (d *Digest) Authenticate(username, password string) DigestAuth {
 	out.WriteString(d.realm)
 	out.WriteString("\", nonce=\"")
 	out.WriteString(d.nonce)
-	out.WriteString("\", uri=\"")
-	out.WriteString(d.uri)
+	prefix := out.String()
+	out.Reset()
 	out.WriteString("\", algorithm=\"")
 	out.WriteString(d.algorithm)
 	if d.opaque != "" {
@@ -132,7 +132,7 @@ func (d *Digest) Authenticate(username, password string) DigestAuth {
 	auth := out.String()
 	return func(verb string, body []byte) string {
 		d.Next() // Each use of the nonce counts.
-		return auth + d.response(verb, body)
+		return prefix + "\", uri=\"" + d.uri + auth + d.response(verb, body)
 	}
 }
 
diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 1a86a8e..6021d90 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -88,6 +88,7 @@ func (s *Session) enqueue(req *Request) error {
 	}
 	req.Session = s.session
 	if s.auth != nil {
+		s.digest.uri = req.URI
 		req.Auth = s.auth(req.Verb, nil)
 	}
 	s.queue[req.Cseq] = req
-- 
2.43.0


From 2371768463afcedd0d4719fcb9dad0f5c2fbc54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 30/46] fix: set up streams from successful response to
 DESCRIBE only

---
 net/rtsp/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 6021d90..5dc9abf 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -281,7 +281,7 @@ func (s *Session) handleRtsp() (err error) {
 			return s.Describe()
 		}
 	case VerbDescribe:
-		if rsp.Body != nil {
+		if rsp.StatusCode == RtspOK && rsp.Body != nil {
 			if s.feeds, err = ParseFeeds(s.Proto, rsp.Body); err != nil {
 				return err
 			}
-- 
2.43.0


From 9ab52b194a2f6a6c5ac58a76f38933e95c048e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 31/46] fix: send session identifier without spaces around it
 and not at all when there is none

---
 net/rtsp/session.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 5dc9abf..0bf18b4 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -178,6 +178,9 @@ func (s *Session) KeepAlive() error {
 		if s.last.IsZero() || time.Now().Sub(s.last) >= keepAliveTimeout {
 			s.last = time.Now()
 			// OPTIONS without session might not keep session alive.  GET_PARAMETER may be unsupported by the server.  Check verbs.
+			if s.session == "" {
+				return s.command(VerbOptions, s.BaseURI, nil)
+			}
 			return s.command(VerbOptions, s.BaseURI, Headers{HeaderSession: s.session})
 		}
 	}
@@ -267,7 +270,7 @@ func (s *Session) handleRtsp() (err error) {
 	if sess := rsp.Header.Get(HeaderSession); sess != "" {
 		if fields := strings.Split(sess, ";"); len(fields) > 0 {
 			s.Lock()
-			s.session = fields[0]
+			s.session = strings.TrimSpace(fields[0])
 			s.Unlock()
 		}
 	}
-- 
2.43.0


From e6b71e9c5f6c64b24e59e79db758ad4f5f82ab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 32/46] fix: report the end of session when connection is lost

---
 net/rtsp/session.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 0bf18b4..2f72120 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -216,6 +216,12 @@ func (s *Session) receive() error {
 }
 
 func (s *Session) process() {
+	defer func() {
+		// Connection is lost or cannot be used anymore.
+		if s.stage != StageDone {
+			s.notify(StageDone)
+		}
+	}()
 	for {
 		select {
 		case <-s.done:
-- 
2.43.0


From 1984724ec26d846a10654e1de426022353318fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 33/46] fix: read packets and message bodies larger than the
 buffer or arriving with delays

---
 net/rtsp/connection.go | 22 ++++++++++++++++++----
 net/rtsp/message.go    |  3 +++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 2b296d7..1085ead 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -44,6 +44,9 @@ type (
 	}
 )
 
+// Limit on size of the body or a line of RTSP message.
+const maxMessageSize = 1 << 20
+
 var be = binary.BigEndian
 
 func isTimeoutOrTemp(err error) bool {
@@ -166,12 +169,23 @@ func (c *Conn) ReadByte() (byte, error) {
 }
 
 // ReadBytes reads requested number of bytes, returning a slice containing the data.
+// It keeps waiting for the rest of the data after a timeout.
 func (c *Conn) ReadBytes(n int) ([]byte, error) {
-	b, err := c.Peek(n)
-	if err == nil {
-		c.rdr.Discard(n)
+	if n < 0 || n > maxMessageSize {
+		return nil, errOutOfMemory
+	}
+	b := make([]byte, n)
+	for off := 0; off < n; {
+		if c.Timeout > 0 {
+			c.conn.SetReadDeadline(time.Now().Add(c.Timeout))
+		}
+		m, err := c.rdr.Read(b[off:])
+		off += m
+		if err != nil && !isTimeoutOrTemp(err) {
+			return nil, err
+		}
 	}
-	return b, err
+	return b, nil
 }
 
 // AddSink creates a listener on UDP port for RTP data or control channel.
diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index 28ac224..e8019e8 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -164,6 +164,9 @@ func Unpack(rdr *Conn) (*Response, error) {
 	}
 
 	if r.ContentLength > 0 {
+		if r.ContentLength > maxMessageSize {
+			return nil, errOutOfMemory
+		}
 		r.Body, err = rdr.ReadBytes(int(r.ContentLength))
 	}
 
-- 
2.43.0


From 2691e3aaf49505aab7e28a5871a451eb532c6df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 34/46] fix: resume reading a message after a timeout in the
 middle of it

---
 net/rtsp/connection.go | 22 ++++++++++++++++++++++
 net/rtsp/message.go    |  4 ++--
 net/rtsp/session.go    | 13 ++++++-------
 3 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 1085ead..d468e67 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -146,6 +146,28 @@ func (c *Conn) ReadLine() (string, error) {
 	return c.rdr.ReadString('\n')
 }
 
+// readMessageLine reads a line like ReadLine.  Unless the line starts a message and none of it has arrived,
+// it keeps waiting for the rest of the line after a timeout.
+func (c *Conn) readMessageLine(first bool) (string, error) {
+	line := []byte{}
+	for {
+		if c.Timeout > 0 {
+			c.conn.SetReadDeadline(time.Now().Add(c.Timeout))
+		}
+		part, err := c.rdr.ReadSlice('\n')
+		line = append(line, part...)
+		if err == nil {
+			return string(line), nil
+		}
+		if len(line) > maxMessageSize {
+			return "", errOutOfMemory
+		}
+		if err != bufio.ErrBufferFull && (!isTimeoutOrTemp(err) || (first && len(line) == 0)) {
+			return string(line), err
+		}
+	}
+}
+
 // ReadUint16 reads and returns an unsigned 2-byte integer.
 func (c *Conn) ReadUint16() (data uint16, err error) {
 	if c.Timeout > 0 {
diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index e8019e8..10c8c76 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -111,7 +111,7 @@ func (r *Request) Pack() []byte {
 
 // Unpack RTSP message into response structure.
 func Unpack(rdr *Conn) (*Response, error) {
-	line, err := rdr.ReadLine()
+	line, err := rdr.readMessageLine(true)
 	if err != nil {
 		return nil, err
 	}
@@ -141,7 +141,7 @@ func Unpack(rdr *Conn) (*Response, error) {
 
 	// Parse the response headers.
 	for {
-		line, err = rdr.ReadLine()
+		line, err = rdr.readMessageLine(false)
 		if err != nil {
 			return nil, err
 		}
diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 2f72120..d31b0fd 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -195,15 +195,14 @@ func (s *Session) receive() error {
 		return err
 	}
 	if b[0] == '$' {
-		s.Discard(1)
-		// RTSP allows for up to 8 transports so valid ch values are limited.
-		if ch, err = s.ReadByte(); err != nil {
-			return err
-		}
-		length, err := s.ReadUint16()
-		if err != nil {
+		// Leave header in the buffer until it is complete.
+		if b, err = s.Peek(4); err != nil {
 			return err
 		}
+		// RTSP allows for up to 8 transports so valid ch values are limited.
+		ch = b[1]
+		length := be.Uint16(b[2:])
+		s.Discard(4)
 		buf, err = s.ReadBytes(int(length))
 		if err == nil {
 			select {
-- 
2.43.0


From 7fd4034cda8987039af9b2af8fd7a6ca5eb6c9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 35/46] fix: do not double the slash between presentation URL
 and control

---
 net/rtsp/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index d31b0fd..55ee807 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -144,7 +144,7 @@ func (s *Session) Setup() error {
 		// Setup is done on a different URI that accounts for Control in media.
 		uri := s.feeds[i].Control
 		if !strings.HasPrefix(uri, "rtsp://") {
-			uri = s.BaseURI + "/" + uri
+			uri = strings.TrimSuffix(s.BaseURI, "/") + "/" + uri
 		}
 		cseq, err := s.request(VerbSetup, uri, Headers{HeaderTransport: s.feeds[i].TransportHeader()})
 		if err != nil {
-- 
2.43.0


From e59722eaf5139964abded51731547b8306cdd6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 36/46] fix: do not quit on RTP packet without payload

---
 cmd/ouro/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ouro/main.go b/cmd/ouro/main.go
index 6f6afa7..20cea8d 100644
--- a/cmd/ouro/main.go
+++ b/cmd/ouro/main.go
@@ -65,7 +65,7 @@ func handleStates(s *rtsp.Session) {
 				log.Printf("RTP [%d] PT=%d, CC=%d, M=%t, SN=%d\r\n", pkt.Channel, p.PT(), p.CC(), p.M(), p.SN)
 			
 				buf := p.PL
-				if buf != nil {
+				if len(buf) > 0 {
 					err := nalsink.Push(buf, p.TS)
 					if err != nil {
 						log.Println(err)
-- 
2.43.0


From 9587c73bf60dffc2b19cfdf2e8e5ef5ac6d1ac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 37/46] fix: SPS of profiles 134, 135 and 139 have chroma
 information

---
 net/h264/spspps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 70d59ff..6f38a28 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -126,7 +126,7 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 	}
 	if sps.ProfileIdc == 100 || sps.ProfileIdc == 110 || sps.ProfileIdc == 122 || sps.ProfileIdc == 244 ||
 		sps.ProfileIdc == 44 || sps.ProfileIdc == 83 || sps.ProfileIdc == 86 || sps.ProfileIdc == 118 ||
-		sps.ProfileIdc == 128 || sps.ProfileIdc == 138 {
+		sps.ProfileIdc == 128 || sps.ProfileIdc == 138 || sps.ProfileIdc == 139 || sps.ProfileIdc == 134 || sps.ProfileIdc == 135 {
 		if sps.ChromaFormatIdc, err = br.ReadUnsignedGolomb(); err != nil {
 			return
 		}
-- 
2.43.0


From 3fecba61bb2c13a1bee9be72dfb476138acec132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 38/46] fix: session given explicitly is not repeated in a
 request

---
 net/rtsp/message.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index 10c8c76..f813402 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -85,7 +85,8 @@ func (r *Request) Pack() []byte {
 		buf.WriteString(val)
 		buf.Write(crnl)
 	}
-	if r.Session != "" && r.Verb != VerbOptions && r.Verb != VerbSetup {
+	// A session given explicitly replaces the one of the request.
+	if r.Session != "" && r.Verb != VerbOptions && r.Verb != VerbSetup && r.Header.Get(HeaderSession) == "" {
 		buf.WriteString(HeaderSession)
 		buf.Write(colsp)
 		buf.WriteString(r.Session)
-- 
2.43.0


From 93268b0dd8739b44821902fb711671ee520d2a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 39/46] fix: status code of a response has to be three digits
 without a sign

---
 net/rtsp/http.go    | 4 ++--
 net/rtsp/message.go | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/net/rtsp/http.go b/net/rtsp/http.go
index 3588425..eab4161 100644
--- a/net/rtsp/http.go
+++ b/net/rtsp/http.go
@@ -66,8 +66,8 @@ func ReceiveHTTP(rdr *Conn) error {
 	if len(status) != 3 {
 		return errInvalidStatus
 	}
-	statusCode, err := strconv.Atoi(status)
-	if err != nil || statusCode < 0 {
+	// Digits only, no sign.
+	if _, err := strconv.ParseUint(status, 10, 16); err != nil {
 		return errInvalidStatus
 	}
 	// TODO: Verify expected 200 status.
diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index f813402..a25baad 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -135,10 +135,12 @@ func Unpack(rdr *Conn) (*Response, error) {
 	if len(statusCode) != 3 {
 		return nil, errInvalidStatus
 	}
-	r.StatusCode, err = strconv.Atoi(statusCode)
-	if err != nil || r.StatusCode < 0 {
+	// Digits only, no sign.
+	code, err := strconv.ParseUint(statusCode, 10, 16)
+	if err != nil {
 		return nil, errInvalidStatus
 	}
+	r.StatusCode = int(code)
 
 	// Parse the response headers.
 	for {
-- 
2.43.0


From ab5c59f9aa9f9204c3d5096b7c26bc398b40a8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 40/46] fix: parameters of Transport with slashes in values do
 not change the lower protocol

---
 net/rtsp/transport.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/transport.go b/net/rtsp/transport.go
index 64a736e..f78c819 100644
--- a/net/rtsp/transport.go
+++ b/net/rtsp/transport.go
@@ -160,7 +160,8 @@ func (t *Transport) Parse(value string) (err error) {
 	fields := strings.Split(value, ";")
 	for _, field := range fields {
 		keyval := strings.Split(field, "/")
-		if len(keyval) == 3 {
+		// Values of parameters may have slashes too.
+		if len(keyval) == 3 && !strings.Contains(field, "=") {
 			// Third part is lower protocol TCP/UDP
 			t.IsTCP = strings.ToUpper(keyval[2]) == "TCP"
 		}
-- 
2.43.0


From 9802b898c6da405b3a6f5178cae58a7b18ae9e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 41/46] fix: UDP listeners are bound to the local address of
 the connection to the server

---
 net/rtsp/connection.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index d468e67..052c2fe 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -213,13 +213,14 @@ func (c *Conn) ReadBytes(n int) ([]byte, error) {
 // AddSink creates a listener on UDP port for RTP data or control channel.
 func (c *Conn) AddSink(ch byte, port int) error {
 	if c.addr == nil {
-		var err error
-		if c.addr, err = net.ResolveIPAddr("ip", "127.0.0.1"); err != nil {
-			return err
+		// Server sends to the address from which the client has connected.
+		c.addr = &net.IPAddr{}
+		if local, ok := c.conn.LocalAddr().(*net.TCPAddr); ok {
+			c.addr.IP, c.addr.Zone = local.IP, local.Zone
 		}
 	}
 
-	conn, err := net.ListenUDP("udp", &net.UDPAddr{IP: c.addr.IP, Port: port, Zone: ""})
+	conn, err := net.ListenUDP("udp", &net.UDPAddr{IP: c.addr.IP, Port: port, Zone: c.addr.Zone})
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From b65528b738768e97c3b7f2acd867f6368a9c4a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 42/46] fix: UDP listeners deliver what they receive and can be
 stopped

---
 net/rtsp/connection.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 052c2fe..0498404 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -238,23 +238,22 @@ func (c *Conn) Start() {
 	for _, s := range c.sinks {
 		fmt.Printf("Reading from UDP sink %d", s.ch)
 		go func(sink udpsink) {
+			// Stop closes connection, which ends reading.
+			defer sink.Close()
 			var buf [2048]byte
 			for {
-				select {
-				case <-sink.done:
-					break
-				}
 				n, _, err := sink.ReadFromUDP(buf[:])
 				if err == nil {
 					select {
 					case c.Data <- RawPacket{Channel: sink.ch, Payload: append([]byte{}, buf[:n]...)}:
+					case <-sink.done:
+						return
 					}
 				} else if !isTimeoutOrTemp(err) {
-					break
+					// TODO: Notify caller about closed connection.
+					return
 				}
 			}
-			sink.Close()
-			// TODO: Notify caller about closed connection.
 		}(s)
 	}
 }
@@ -262,9 +261,8 @@ func (c *Conn) Start() {
 // Stop tells all UDP listeners to suspend processing and close.  The list of listerners is reset.
 func (c *Conn) Stop() {
 	for _, sink := range c.sinks {
-		select {
-		case sink.done <- 1:
-		}
+		close(sink.done)
+		sink.Close()
 	}
 	c.sinks = c.sinks[:0]
 }
-- 
2.43.0


From 69b99f650f32694a3065fc824a3d379658fbc3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 43/46] fix: UDP listeners use client ports and channels of
 their stream

---
 net/rtsp/session.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 55ee807..b433754 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -316,18 +316,22 @@ func (s *Session) handleRtsp() (err error) {
 
 func (s *Session) handleSetup(rsp *Response) (err error) {
 	if rsp.StatusCode == RtspOK {
-		for _, f := range s.feeds {
+		for i, f := range s.feeds {
 			if f.cseq == rsp.Cseq {
 				s.feedidx++
 				if err = f.TransportSetup(rsp.Header.Get(HeaderTransport)); err != nil {
 					return err
 				}
 				if !f.transp.IsTCP {
-					ch := byte(s.feedidx) * 2
-					if err := s.AddSink(ch, f.transp.Port.One); err != nil {
+					ch := byte(i) * 2
+					port := f.transp.ClientPort
+					if f.transp.IsMulticast {
+						port = f.transp.Port
+					}
+					if err := s.AddSink(ch, port.One); err != nil {
 						return err
 					}
-					if err := s.AddSink(ch+1, f.transp.Port.Two); err != nil {
+					if err := s.AddSink(ch+1, port.Two); err != nil {
 						return err
 					}
 				}
-- 
2.43.0


From cf9314ece93aa361a76a0ae590896811299d048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:50 +0000
Subject: [PATCH 44/46] fix: the program does not mix fragments of different
 streams

---
 cmd/ouro/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/ouro/main.go b/cmd/ouro/main.go
index 20cea8d..47861d5 100644
--- a/cmd/ouro/main.go
+++ b/cmd/ouro/main.go
@@ -15,7 +15,7 @@ import (
 
 func handleStates(s *rtsp.Session) {
 	state := rtsp.StageInit
-	nalsink := h264.NewNALSink()
+	nalsinks := map[byte]*h264.NALSink{} // Fragments of different streams must not be mixed.
 	tmr := time.NewTimer(time.Minute)
 	tmr.Stop()
 	for {
@@ -66,6 +66,11 @@ func handleStates(s *rtsp.Session) {
 			
 				buf := p.PL
 				if len(buf) > 0 {
+					nalsink, ok := nalsinks[pkt.Channel]
+					if !ok {
+						nalsink = h264.NewNALSink()
+						nalsinks[pkt.Channel] = nalsink
+					}
 					err := nalsink.Push(buf, p.TS)
 					if err != nil {
 						log.Println(err)
-- 
2.43.0


From 195768b4cf57f423603b139f57df007a431fe3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:50 +0000
Subject: [PATCH 45/46] fix: connection is closed when the HTTP tunnel is not
 established

---
 net/rtsp/connection.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 0498404..a41a660 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -95,10 +95,12 @@ func Dial(uri string, proto int) (*Conn, error) {
 		// Issue GET and read response.  Afterwards we'll be getting incoming RTSP/RTP/RTCP responses in a stream.
 		cmd := ConnectHTTP("GET", c.BaseURI, c.guid)
 		if _, err := c.conn.Write(cmd); err != nil {
+			c.conn.Close()
 			return nil, err
 		}
 		// Read response but only headers and prepare to receive content stream of unknown length.
 		if err := ReceiveHTTP(c); err != nil {
+			c.conn.Close()
 			return nil, err
 		}
 	}
-- 
2.43.0


From 97c2a05bf4b03c5d689d82ec72af8f9555c539a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:50 +0000
Subject: [PATCH 46/46] fix: commands fail instead of panicking when there is
 no connection

---
 net/rtsp/session.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index b433754..76b10d0 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -128,14 +128,22 @@ func (s *Session) request(verb, uri string, headers Headers) (int, error) {
 	return req.Cseq, err
 }
 
+// baseURI returns URI of the presentation.  There is none without connection.
+func (s *Session) baseURI() string {
+	if s.Conn == nil {
+		return ""
+	}
+	return s.BaseURI
+}
+
 // Options handles client OPTIONS request in RTSP.
 func (s *Session) Options() error {
-	return s.command(VerbOptions, s.BaseURI, nil)
+	return s.command(VerbOptions, s.baseURI(), nil)
 }
 
 // Describe handles DESCRIBE request in RTSP and parses SDP data in response.
 func (s *Session) Describe() error {
-	return s.command(VerbDescribe, s.BaseURI, Headers{HeaderAccept: "application/sdp"})
+	return s.command(VerbDescribe, s.baseURI(), Headers{HeaderAccept: "application/sdp"})
 }
 
 // Setup issues SETUP command for all playable media.
@@ -157,23 +165,26 @@ func (s *Session) Setup() error {
 
 // Play handles client PLAY request in RTSP.
 func (s *Session) Play() error {
-	return s.command(VerbPlay, s.BaseURI, nil)
+	return s.command(VerbPlay, s.baseURI(), nil)
 }
 
 // Pause handles client PAUSE request in RTSP.
 func (s *Session) Pause() error {
-	return s.command(VerbPause, s.BaseURI, nil)
+	return s.command(VerbPause, s.baseURI(), nil)
 }
 
 // Teardown handles client TEARDOWN request in RTSP.
 func (s *Session) Teardown() error {
 	// s.notify(StageDone)
-	return s.command(VerbTeardown, s.BaseURI, nil)
+	return s.command(VerbTeardown, s.baseURI(), nil)
 }
 
 // KeepAlive executes OPTIONS on a regular basis to keep connection alive.
 // RTP over TCP does not need keep-alive messages according to RFC.
 func (s *Session) KeepAlive() error {
+	if s.Conn == nil {
+		return errNoConnection
+	}
 	if s.Proto != ProtoHTTP && s.Proto != ProtoTCP && s.stage > StageInit && s.stage < StageDone {
 		if s.last.IsZero() || time.Now().Sub(s.last) >= keepAliveTimeout {
 			s.last = time.Now()
-- 
2.43.0

