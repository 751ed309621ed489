From 249555c35bb8820a7555916961e5ec659b234ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 001/207] fix: break the uncompressedheader -> tilegroup import
 cycle

The decoder packages could not be compiled at all: uncompressedheader
imported tilegroup for load_loop_filter_params/load_segmentation_params while
tilegroup imports uncompressedheader. The two functions move to
uncompressedheader unchanged.
---
 internal/tilegroup/decode_frame_wrapup.go       | 16 ++--------------
 .../uncompressedheader/uncompressed_header.go   | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 3bff199..50c9f9a 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -268,18 +268,6 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 		u.LoadGrainParams(u.FrameToShowMapIdx)
 	}
 
-	LoadLoopFilterParams(u.FrameToShowMapIdx)
-	LoadSegmentationParams(u.FrameToShowMapIdx)
-}
-
-// load_loop_filter_params( i )
-func LoadLoopFilterParams(i int) {
-	panic("not implemented")
-
-}
-
-// load_segmentation_params( i )
-func LoadSegmentationParams(i int) {
-	panic("not implemented")
-
+	uncompressedheader.LoadLoopFilterParams(u.FrameToShowMapIdx)
+	uncompressedheader.LoadSegmentationParams(u.FrameToShowMapIdx)
 }
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index a26a0d5..80eb5cb 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -6,7 +6,6 @@ import (
 	"github.com/m4tthewde/gov1/internal/sequenceheader"
 	"github.com/m4tthewde/gov1/internal/shared"
 	"github.com/m4tthewde/gov1/internal/state"
-	"github.com/m4tthewde/gov1/internal/tilegroup"
 	"github.com/m4tthewde/gov1/internal/tileinfo"
 	"github.com/m4tthewde/gov1/internal/util"
 )
@@ -631,8 +630,8 @@ func (u *UncompressedHeader) setupPastIndependence(s *state.State) {
 func (u *UncompressedHeader) loadPrevious(state *state.State) {
 	prevFrame := u.RefFrameIdx[u.PrimaryRefFrame]
 	state.PrevGmParams = state.SavedGmParams[prevFrame]
-	tilegroup.LoadLoopFilterParams(prevFrame)
-	tilegroup.LoadSegmentationParams(prevFrame)
+	LoadLoopFilterParams(prevFrame)
+	LoadSegmentationParams(prevFrame)
 
 	panic("not implemented")
 }
@@ -1341,3 +1340,15 @@ func (u *UncompressedHeader) TemporalPointInfo(sh sequenceheader.SequenceHeader,
 func (u *UncompressedHeader) LoadGrainParams(idx int) {
 	panic("not implemented")
 }
+
+// load_loop_filter_params( i )
+func LoadLoopFilterParams(i int) {
+	panic("not implemented")
+
+}
+
+// load_segmentation_params( i )
+func LoadSegmentationParams(i int) {
+	panic("not implemented")
+
+}
-- 
2.43.0


From 4daecfd80691e1bd139c570076682aa23e1c4221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 002/207] fix: round the argument in Round2Signed

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 688fa5f..3561505 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -94,7 +94,7 @@ func Round2(x int, n int) int {
 
 func Round2Signed(x int, n int) int {
 	if x >= 0 {
-		return Round2(2, n)
+		return Round2(x, n)
 	} else {
 		return -Round2(-x, n)
 	}
-- 
2.43.0


From 1fa94e3ccde95b5868248a6df5b2e469064a38b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 003/207] fix: clip the argument in Clip1

---
 internal/util/util.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 3561505..d224c53 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -1,7 +1,6 @@
 package util
 
 import (
-	"math"
 	"sort"
 
 	"github.com/m4tthewde/gov1/internal/shared"
@@ -123,7 +122,7 @@ func Clip3(x int, y int, z int) int {
 }
 
 func Clip1(x int, bitDepth int) int {
-	return Clip3(0, int(math.Pow(2, float64(bitDepth)-1)), 2)
+	return Clip3(0, (1<<bitDepth)-1, x)
 }
 
 func NegDeinterleave(diff int, ref int, max int) int {
-- 
2.43.0


From 3410ebeff2a7a847a4eabeaf0510a4bbf3a5773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 004/207] fix: NegDeinterleave reference test and mirrored tail

---
 internal/util/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index d224c53..85d68db 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -126,7 +126,7 @@ func Clip1(x int, bitDepth int) int {
 }
 
 func NegDeinterleave(diff int, ref int, max int) int {
-	if !(ref == 1) {
+	if ref == 0 {
 		return diff
 	}
 
@@ -152,7 +152,7 @@ func NegDeinterleave(diff int, ref int, max int) int {
 				return ref - (diff >> 1)
 			}
 		}
-		return max - diff + 1
+		return max - (diff + 1)
 	}
 }
 
-- 
2.43.0


From f7eb53b3ee5a42b238ec694ca8222e05c7e6ec03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 005/207] fix: first weight of the 32-wide OBMC mask

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 85d68db..4f8b5d1 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -200,7 +200,7 @@ var Obmc_Mask_4 = []int{39, 50, 59, 64}
 var Obmc_Mask_8 = []int{36, 42, 48, 53, 57, 61, 64, 64}
 var Obmc_Mask_16 = []int{34, 37, 40, 43, 46, 49, 52, 54, 56, 58, 60, 61, 64, 64, 64, 64}
 var Obmc_Mask_32 = []int{
-	3, 35, 36, 38, 40, 41, 43, 44,
+	33, 35, 36, 38, 40, 41, 43, 44,
 	45, 47, 48, 50, 51, 52, 53, 55,
 	56, 57, 58, 59, 60, 60, 61, 62,
 	64, 64, 64, 64, 64, 64, 64, 64,
-- 
2.43.0


From d4e814b91c6e5b133346c4bb305ed20d80507955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 006/207] fix: quadrant selection of Cos128

---
 internal/util/util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 4f8b5d1..2605937 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -223,17 +223,17 @@ var Cos128_Lookup = []int{
 
 func Cos128(angle int) int {
 	angle2 := angle & 255
-	if angle2 >= 0 || angle2 <= 64 {
+	if angle2 >= 0 && angle2 <= 64 {
 		return Cos128_Lookup[angle2]
 	}
-	if angle2 >= 64 || angle2 <= 128 {
+	if angle2 > 64 && angle2 <= 128 {
 		return Cos128_Lookup[128-angle2] * -1
 	}
-	if angle2 >= 128 || angle2 <= 192 {
+	if angle2 > 128 && angle2 <= 192 {
 		return Cos128_Lookup[angle2-128] * -1
 	}
 
-	return Cos128_Lookup[256-angle2] * -1
+	return Cos128_Lookup[256-angle2]
 }
 
 func Sin128(angle int) int {
-- 
2.43.0


From 096adfd48bdbf5e2fa5b625781db3a776cbaa7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 007/207] fix: Brev must reverse the bits of its argument

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 2605937..3fc584d 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -243,7 +243,7 @@ func Sin128(angle int) int {
 func Brev(numBits int, x int) int {
 	t := 0
 	for i := 0; i < numBits; i++ {
-		bit := (x >> 1) & 1
+		bit := (x >> i) & 1
 		t += bit << (numBits - 1 - i)
 	}
 
-- 
2.43.0


From e56213ee6cc7e6bd4693f34037f14e1d877b48ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 008/207] fix: read seq_level_idx only where it is coded, and
 with 5 bits

---
 internal/sequenceheader/sequence_header.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index f56b718..6ac4d12 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -110,13 +110,15 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 
 	operatingPointIdcArray := []int{0}
 
-	s.SeqLevelIdx = []int{b.F(5)}
+	s.SeqLevelIdx = []int{0}
 	s.SeqTier = []int{0}
 	s.DecoderModelPresentForThisOp = []bool{false}
 	s.InitialDisplayDelayPresentForThisOp = []bool{false}
 	s.InitialDisplayDelayMinusOne = []int{}
 
-	if !s.ReducedStillPictureHeader {
+	if s.ReducedStillPictureHeader {
+		s.SeqLevelIdx[0] = b.F(5)
+	} else {
 		timingInfoPresent := b.F(1) != 0
 		if timingInfoPresent {
 			s.TimingInfo = NewTimingInfo(b)
@@ -136,7 +138,7 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 
 			for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
 				operatingPointIdcArray[i] = b.F(12)
-				s.SeqLevelIdx[i] = b.F(12)
+				s.SeqLevelIdx[i] = b.F(5)
 
 				if s.SeqLevelIdx[i] > 7 {
 					s.SeqTier[i] = b.F(1)
-- 
2.43.0


From 78b10bc43fc6f3e52d9edbce84ae319c50e0053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 009/207] fix: un-nest the operating points and the frame size
 fields

---
 internal/sequenceheader/sequence_header.go | 171 +++++++++++----------
 1 file changed, 86 insertions(+), 85 deletions(-)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index 6ac4d12..d78e996 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -132,115 +132,116 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 					FramePresentationTimeLengthMinusOne: b.F(5),
 				}
 			}
+		}
 
-			s.InitialDisplayDelayPresent = util.Bool(b.F(1))
-			s.OperatingPointsCountMinusOne = b.F(5)
+		s.InitialDisplayDelayPresent = util.Bool(b.F(1))
+		s.OperatingPointsCountMinusOne = b.F(5)
 
-			for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
-				operatingPointIdcArray[i] = b.F(12)
-				s.SeqLevelIdx[i] = b.F(5)
+		for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
+			operatingPointIdcArray[i] = b.F(12)
+			s.SeqLevelIdx[i] = b.F(5)
 
-				if s.SeqLevelIdx[i] > 7 {
-					s.SeqTier[i] = b.F(1)
-				} else {
-					s.SeqTier[i] = 0
-				}
-				if s.DecoderModelInfoPresent {
-					s.DecoderModelPresentForThisOp[i] = util.Bool(b.F(1))
+			if s.SeqLevelIdx[i] > 7 {
+				s.SeqTier[i] = b.F(1)
+			} else {
+				s.SeqTier[i] = 0
+			}
+			if s.DecoderModelInfoPresent {
+				s.DecoderModelPresentForThisOp[i] = util.Bool(b.F(1))
 
-					if s.DecoderModelPresentForThisOp[i] {
-						s.operatingParametersInfo(b, i)
-					}
-				} else {
-					s.DecoderModelPresentForThisOp[i] = false
+				if s.DecoderModelPresentForThisOp[i] {
+					s.operatingParametersInfo(b, i)
 				}
+			} else {
+				s.DecoderModelPresentForThisOp[i] = false
+			}
 
-				if s.InitialDisplayDelayPresent {
-					s.InitialDisplayDelayPresentForThisOp[i] = util.Bool(b.F(1))
+			if s.InitialDisplayDelayPresent {
+				s.InitialDisplayDelayPresentForThisOp[i] = util.Bool(b.F(1))
 
-					if s.InitialDisplayDelayPresentForThisOp[i] {
-						s.InitialDisplayDelayMinusOne[i] = b.F(4)
-					}
+				if s.InitialDisplayDelayPresentForThisOp[i] {
+					s.InitialDisplayDelayMinusOne[i] = b.F(4)
 				}
 			}
 		}
-		operatingPoint := chooseOperatingPoint()
-		state.OperatingPointIdc = operatingPointIdcArray[operatingPoint]
+	}
+
+	operatingPoint := chooseOperatingPoint()
+	state.OperatingPointIdc = operatingPointIdcArray[operatingPoint]
+
+	s.FrameWidthBitsMinusOne = b.F(4)
+	s.FrameHeightBitsMinusOne = b.F(4)
 
-		s.FrameWidthBitsMinusOne = b.F(4)
-		s.FrameHeightBitsMinusOne = b.F(4)
+	n := s.FrameWidthBitsMinusOne + 1
+	s.MaxFrameWidthMinusOne = b.F(n)
 
-		n := s.FrameWidthBitsMinusOne + 1
-		s.MaxFrameWidthMinusOne = b.F(n)
+	n = s.FrameHeightBitsMinusOne + 1
+	s.MaxFrameHeightMinusOne = b.F(n)
 
-		n = s.FrameHeightBitsMinusOne + 1
-		s.MaxFrameHeightMinusOne = b.F(n)
+	s.FrameIdNumbersPresent = false
 
+	if s.ReducedStillPictureHeader {
 		s.FrameIdNumbersPresent = false
+	} else {
+		s.FrameIdNumbersPresent = b.F(1) != 0
+	}
 
-		if s.ReducedStillPictureHeader {
-			s.FrameIdNumbersPresent = false
-		} else {
-			s.FrameIdNumbersPresent = b.F(1) != 0
-		}
+	if s.FrameIdNumbersPresent {
+		s.DeltaFrameIdLengthMinusTwo = b.F(4)
+		s.AdditionalFrameIdLengthMinusOne = b.F(3)
+	}
 
-		if s.FrameIdNumbersPresent {
-			s.DeltaFrameIdLengthMinusTwo = b.F(4)
-			s.AdditionalFrameIdLengthMinusOne = b.F(3)
+	s.Use128x128SuperBlock = b.F(1) != 0
+	s.EnableFilterIntra = b.F(1) != 0
+	s.EnableIntraEdgeFilter = b.F(1) != 0
+	s.EnableInterIntraCompound = false
+	s.EnableMaskedCompound = false
+	s.EnableWarpedMotion = false
+	s.EnableDualFilter = false
+	s.EnableOrderHint = false
+	s.EnableJntComp = false
+	s.EnableRefFrameMvs = false
+
+	// SELECT_SCREEN_CONTENT_TOOLS
+	s.SeqForceScreenContentTools = 2
+
+	// SELECT_INTEGER_MV
+	s.SeqForceIntegerMv = 2
+
+	s.OrderHintBits = 0
+
+	if !s.ReducedStillPictureHeader {
+		s.EnableInterIntraCompound = b.F(1) != 0
+		s.EnableMaskedCompound = b.F(1) != 0
+		s.EnableWarpedMotion = b.F(1) != 0
+		s.EnableDualFilter = b.F(1) != 0
+		s.EnableOrderHint = b.F(1) != 0
+		if s.EnableOrderHint {
+			s.EnableJntComp = b.F(1) != 0
+			s.EnableRefFrameMvs = b.F(1) != 0
 		}
 
-		s.Use128x128SuperBlock = b.F(1) != 0
-		s.EnableFilterIntra = b.F(1) != 0
-		s.EnableIntraEdgeFilter = b.F(1) != 0
-		s.EnableInterIntraCompound = false
-		s.EnableMaskedCompound = false
-		s.EnableWarpedMotion = false
-		s.EnableDualFilter = false
-		s.EnableOrderHint = false
-		s.EnableJntComp = false
-		s.EnableRefFrameMvs = false
-
-		// SELECT_SCREEN_CONTENT_TOOLS
-		s.SeqForceScreenContentTools = 2
-
-		// SELECT_INTEGER_MV
-		s.SeqForceIntegerMv = 2
-
-		s.OrderHintBits = 0
-
-		if !s.ReducedStillPictureHeader {
-			s.EnableInterIntraCompound = b.F(1) != 0
-			s.EnableMaskedCompound = b.F(1) != 0
-			s.EnableWarpedMotion = b.F(1) != 0
-			s.EnableDualFilter = b.F(1) != 0
-			s.EnableOrderHint = b.F(1) != 0
-			if s.EnableOrderHint {
-				s.EnableJntComp = b.F(1) != 0
-				s.EnableRefFrameMvs = b.F(1) != 0
-			}
-
-			s.SeqChooseScreenContentTools = b.F(1) != 0
-			if s.SeqChooseScreenContentTools {
-				s.SeqForceScreenContentTools = 2
-			} else {
-				s.SeqForceScreenContentTools = b.F(1)
-			}
+		s.SeqChooseScreenContentTools = b.F(1) != 0
+		if s.SeqChooseScreenContentTools {
+			s.SeqForceScreenContentTools = 2
+		} else {
+			s.SeqForceScreenContentTools = b.F(1)
+		}
 
-			if s.SeqForceScreenContentTools > 0 {
-				seqChooseIntegerMv := b.F(1) != 0
+		if s.SeqForceScreenContentTools > 0 {
+			seqChooseIntegerMv := b.F(1) != 0
 
-				if seqChooseIntegerMv {
-					s.SeqForceIntegerMv = 2
-				} else {
-					s.SeqForceIntegerMv = b.F(1)
-				}
-			} else {
+			if seqChooseIntegerMv {
 				s.SeqForceIntegerMv = 2
+			} else {
+				s.SeqForceIntegerMv = b.F(1)
 			}
+		} else {
+			s.SeqForceIntegerMv = 2
+		}
 
-			if s.EnableOrderHint {
-				s.OrderHintBits = b.F(3) + 1
-			}
+		if s.EnableOrderHint {
+			s.OrderHintBits = b.F(3) + 1
 		}
 	}
 
-- 
2.43.0


From d4f7c5c8c40f4dbfd57ce929486f1d762384b76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 010/207] fix: size the per-operating-point arrays

---
 internal/sequenceheader/sequence_header.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index d78e996..b31e46f 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -137,6 +137,17 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 		s.InitialDisplayDelayPresent = util.Bool(b.F(1))
 		s.OperatingPointsCountMinusOne = b.F(5)
 
+		numOperatingPoints := s.OperatingPointsCountMinusOne + 1
+		operatingPointIdcArray = make([]int, numOperatingPoints)
+		s.SeqLevelIdx = make([]int, numOperatingPoints)
+		s.SeqTier = make([]int, numOperatingPoints)
+		s.DecoderModelPresentForThisOp = make([]bool, numOperatingPoints)
+		s.InitialDisplayDelayPresentForThisOp = make([]bool, numOperatingPoints)
+		s.InitialDisplayDelayMinusOne = make([]int, numOperatingPoints)
+		s.DecoderBufferDelay = make([]int, numOperatingPoints)
+		s.EncoderBufferDelay = make([]int, numOperatingPoints)
+		s.LowDelayModeFlag = make([]bool, numOperatingPoints)
+
 		for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
 			operatingPointIdcArray[i] = b.F(12)
 			s.SeqLevelIdx[i] = b.F(5)
-- 
2.43.0


From ea4de1ed86cb26237dbb52fb47f91e3e775fb38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 011/207] fix: store OperatingPointIdc in the sequence header

---
 internal/sequenceheader/sequence_header.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index b31e46f..bcb0675 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -177,6 +177,8 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 		}
 	}
 
+	s.OperatingPointIdc = operatingPointIdcArray
+
 	operatingPoint := chooseOperatingPoint()
 	state.OperatingPointIdc = operatingPointIdcArray[operatingPoint]
 
-- 
2.43.0


From cebbd4bcc6c1cd02c1d6fdb2c65ade4e6a6b7cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 012/207] fix: superblock rows of a frame with 128x128
 superblocks

---
 internal/tileinfo/tile_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tileinfo/tile_info.go b/internal/tileinfo/tile_info.go
index 1a9cd19..3bbcf17 100644
--- a/internal/tileinfo/tile_info.go
+++ b/internal/tileinfo/tile_info.go
@@ -22,7 +22,7 @@ func NewTileInfo(sh sequenceheader.SequenceHeader, s *state.State, b *bitstream.
 
 	sbRows := (s.MiRows + 15) >> 4
 	if sh.Use128x128SuperBlock {
-		sbCols = (s.MiRows + 31) >> 5
+		sbRows = (s.MiRows + 31) >> 5
 	}
 
 	sbShift := 4
-- 
2.43.0


From ea059a9b521e5310ea9545f79b73d16c3dc6fb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:48 +0000
Subject: [PATCH 013/207] fix: read increment_tile_rows_log2 up to its maximum

---
 internal/tileinfo/tile_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tileinfo/tile_info.go b/internal/tileinfo/tile_info.go
index 3bbcf17..fcf37a4 100644
--- a/internal/tileinfo/tile_info.go
+++ b/internal/tileinfo/tile_info.go
@@ -67,7 +67,7 @@ func NewTileInfo(sh sequenceheader.SequenceHeader, s *state.State, b *bitstream.
 
 		minLog2TileRows := util.Max(minLog2Tiles-s.TileColsLog2, 0)
 		s.TileRowsLog2 = minLog2TileRows
-		for s.TileRowsLog2 > maxLog2TileRows {
+		for s.TileRowsLog2 < maxLog2TileRows {
 			incrementTileRowsLog2 := b.F(1) != 0
 			if incrementTileRowsLog2 {
 				s.TileRowsLog2++
-- 
2.43.0


From 85aa9e142cf83c0038f608d914a92f98cfc496af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 014/207] fix: grow cdef_idx to everything clear_cdef writes

---
 internal/cdef/cdef.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/cdef/cdef.go b/internal/cdef/cdef.go
index 7d7ec02..a345ceb 100644
--- a/internal/cdef/cdef.go
+++ b/internal/cdef/cdef.go
@@ -6,12 +6,14 @@ type Cdef struct {
 }
 
 func (cdef *Cdef) ClearCdef(r int, c int, Use128x128SuperBlock bool, cdefSize4 int) {
-	for cap(cdef.CdefIdx) < r+1 {
+	for len(cdef.CdefIdx) < r+cdefSize4+1 {
 		cdef.CdefIdx = append(cdef.CdefIdx, make([]int, 0))
 	}
 
-	for cap(cdef.CdefIdx[r]) < c+1 {
-		cdef.CdefIdx[r] = append(cdef.CdefIdx[r], 0)
+	for i := r; i <= r+cdefSize4; i++ {
+		for len(cdef.CdefIdx[i]) < c+cdefSize4+1 {
+			cdef.CdefIdx[i] = append(cdef.CdefIdx[i], 0)
+		}
 	}
 
 	cdef.CdefIdx[r][c] = -1
-- 
2.43.0


From efb8196473e70bd3748ad127d5665e6ac4898c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 015/207] fix: end of a padding OBU

---
 internal/obu/obu.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index d044376..ca36ff6 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -134,10 +134,8 @@ func FrameHeaderCopy() uncompressedheader.UncompressedHeader {
 
 // padding_obu( )
 func (o *Obu) paddingObu(b *bitstream.BitStream) {
-	obuPaddingByte := 1
-	for obuPaddingByte != 0 {
-		obuPaddingByte = b.F(8)
+	// the last byte holds the trailing bits
+	for i := 0; i < o.Size-1; i++ {
+		b.F(8)
 	}
-
-	b.Position -= 8
 }
-- 
2.43.0


From 96f404dcce95eac2085ff716aed8e56897845fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 016/207] fix: repeated frame headers copy the first

---
 internal/obu/obu.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index ca36ff6..ff5d91d 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -108,7 +108,7 @@ func (o *Obu) newFrame(sz int, b *bitstream.BitStream, state *state.State, h hea
 // frame_header_obu()
 func (o *Obu) ParseFrameHeader(b *bitstream.BitStream, state *state.State, h header.Header, sh sequenceheader.SequenceHeader) uncompressedheader.UncompressedHeader {
 	if state.SeenFrameHeader {
-		return FrameHeaderCopy()
+		return o.FrameHeaderCopy()
 	} else {
 		state.SeenFrameHeader = true
 
@@ -127,9 +127,8 @@ func (o *Obu) ParseFrameHeader(b *bitstream.BitStream, state *state.State, h hea
 }
 
 // frame_header_copy()
-func FrameHeaderCopy() uncompressedheader.UncompressedHeader {
-	panic("not implemented")
-	return uncompressedheader.UncompressedHeader{}
+func (o *Obu) FrameHeaderCopy() uncompressedheader.UncompressedHeader {
+	return o.UncompressedHeader
 }
 
 // padding_obu( )
-- 
2.43.0


From e2925f2bd3751369f1a38e87cf0f4db7f96357b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 017/207] fix: keep the frame header of a frame OBU for its
 tile groups

---
 internal/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 0d9035c..6a740b7 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -51,7 +51,7 @@ func (p *Parser) frameUnit(sz int) {
 		switch o.Header.Type {
 		case header.OBU_SEQUENCE_HEADER:
 			p.SequenceHeader = o.SequenceHeader
-		case header.OBU_FRAME_HEADER:
+		case header.OBU_FRAME_HEADER, header.OBU_FRAME:
 			p.UncompressedHeader = o.UncompressedHeader
 		}
 
-- 
2.43.0


From 33feee880821b008073a90b6e5f632aac8222518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:14 +0000
Subject: [PATCH 018/207] fix: keep the decoder state from one frame unit to
 the next

---
 internal/parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 6a740b7..38080b8 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -13,6 +13,7 @@ import (
 
 type Parser struct {
 	bitStream          *bitstream.BitStream
+	state              state.State
 	SequenceHeader     sequenceheader.SequenceHeader
 	UncompressedHeader uncompressedheader.UncompressedHeader
 	obus               []obu.Obu
@@ -38,14 +39,13 @@ func (p *Parser) temporalUnit(sz int) {
 
 // frame_unit( sz )
 func (p *Parser) frameUnit(sz int) {
-	state := state.State{}
 	for sz > 0 {
 		obuLength := p.bitStream.Leb128()
 		sz -= p.bitStream.Leb128Bytes
 
 		logger.Logger.Info("Starting obu parsing process...", zap.Int("sz", sz))
 
-		o := obu.NewObu(obuLength, &state, p.bitStream, p.SequenceHeader, p.UncompressedHeader)
+		o := obu.NewObu(obuLength, &p.state, p.bitStream, p.SequenceHeader, p.UncompressedHeader)
 		p.obus = append(p.obus, o)
 
 		switch o.Header.Type {
-- 
2.43.0


From 3243a6483357b525ad4308931fdbae810d5ba81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 019/207] fix: store show_existing_frame

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 80eb5cb..160af45 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -170,9 +170,9 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		u.ShowFrame = true
 		u.ShowableFrame = false
 	} else {
-		showExistingFrame := util.Bool(b.F(1))
+		u.ShowExistingFrame = util.Bool(b.F(1))
 
-		if showExistingFrame {
+		if u.ShowExistingFrame {
 			u.FrameToShowMapIdx = b.F(3)
 
 			if sh.DecoderModelInfoPresent && !sh.TimingInfo.EqualPictureInterval {
-- 
2.43.0


From 42c92a82cb5c3f9aebd780156e2e1994d903e799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:10 +0000
Subject: [PATCH 020/207] fix: refresh_frame_flags of a shown existing frame

---
 internal/uncompressedheader/uncompressed_header.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 160af45..d8b3d8e 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -25,7 +25,6 @@ type UncompressedHeader struct {
 	ShowableFrame              bool
 	ShowFrame                  bool
 	FrameType                  int
-	RefreshImageFlags          int
 	DisplayFrameId             int
 	FrameIdNumbersPresent      bool
 	AllowHighPrecisionMv       bool
@@ -179,7 +178,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 				u.TemporalPointInfo(sh, b)
 			}
 
-			u.RefreshImageFlags = 0
+			u.RefreshFrameFlags = 0
 			if sh.FrameIdNumbersPresent {
 				u.DisplayFrameId = b.F(idLen)
 			}
@@ -187,7 +186,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 			u.FrameType = s.RefFrameType[u.FrameToShowMapIdx]
 
 			if u.FrameType == shared.KEY_FRAME {
-				u.RefreshImageFlags = allFrames
+				u.RefreshFrameFlags = allFrames
 			}
 
 			if sh.FilmGrainParamsPresent {
-- 
2.43.0


From 5778031616fdf40e401c8aaf1015bce2aff2f43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:12 +0000
Subject: [PATCH 021/207] fix: a shown key frame invalidates the reference
 slots

---
 internal/uncompressedheader/uncompressed_header.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index d8b3d8e..da8f367 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -154,10 +154,6 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	var errorResilientMode bool
 
-	var refValid [shared.NUM_REF_FRAMES]int
-	var refOrderHint [shared.NUM_REF_FRAMES]int
-	var orderHints [shared.REFS_PER_FRAME]int
-
 	bufferRemovalTime := []int{}
 
 	allFrames := ((1 << shared.NUM_REF_FRAMES) - 1)
@@ -221,12 +217,12 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	if u.FrameType == 0 && u.ShowFrame {
 		for i := 0; i < shared.NUM_REF_FRAMES; i++ {
-			refValid[i] = 0
-			refOrderHint[i] = 0
+			s.RefValid[i] = 0
+			s.RefOrderHint[i] = 0
 		}
 
 		for i := 0; i < shared.REFS_PER_FRAME; i++ {
-			orderHints[shared.LAST_FRAME+1] = 0
+			u.OrderHints[shared.LAST_FRAME+i] = 0
 		}
 	}
 
-- 
2.43.0


From 4d744a79af719838178bd7b289f196f5968e1b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 022/207] fix: screen content tools and integer motion vectors
 forced by the sequence

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index da8f367..aa714f6 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -231,14 +231,14 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 	if sh.SeqForceScreenContentTools == 2 {
 		u.AllowScreenContentTools = b.F(1)
 	} else {
-		u.AllowScreenContentTools = 1
+		u.AllowScreenContentTools = sh.SeqForceScreenContentTools
 	}
 
 	if util.Bool(u.AllowScreenContentTools) {
 		if sh.SeqForceIntegerMv == 2 {
 			u.ForceIntegerMv = util.Bool(b.F(1))
 		} else {
-			u.ForceIntegerMv = true
+			u.ForceIntegerMv = util.Bool(sh.SeqForceIntegerMv)
 		}
 	} else {
 		u.ForceIntegerMv = false
-- 
2.43.0


From 31fc1326ad0fc7b5ec079760b58eb73d9ff234e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 023/207] fix: buffer_removal_time

---
 internal/uncompressedheader/uncompressed_header.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index aa714f6..6d4e44a 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -154,8 +154,6 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	var errorResilientMode bool
 
-	bufferRemovalTime := []int{}
-
 	allFrames := ((1 << shared.NUM_REF_FRAMES) - 1)
 	if sh.ReducedStillPictureHeader {
 		u.ShowExistingFrame = false
@@ -282,11 +280,11 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 				if sh.DecoderModelPresentForThisOp[opNum] {
 					opPtIdc := sh.OperatingPointIdc[opNum]
 					inTemporalLayer := ((opPtIdc >> h.ExtensionHeader.TemporalID) & 1) != 0
-					inSpatialLayer := ((opPtIdc >> h.ExtensionHeader.SpatialID) & 1) != 0
+					inSpatialLayer := ((opPtIdc >> (h.ExtensionHeader.SpatialID + 8)) & 1) != 0
 
 					if opPtIdc == 0 || (inTemporalLayer && inSpatialLayer) {
 						n := sh.DecoderModelInfo.BufferRemovalTimeLengthMinusOne + 1
-						bufferRemovalTime[opNum] = b.F(n)
+						b.F(n)
 					}
 				}
 			}
-- 
2.43.0


From 888688e5711b56a44d9ace8b210901fad625374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 024/207] fix: ref_order_hint

---
 internal/uncompressedheader/uncompressed_header.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 6d4e44a..bb7e8f3 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -291,8 +291,6 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 	}
 
-	ref_order_hint := []int{}
-
 	u.UseRefFrameMvs = false
 
 	if u.FrameType == 3 || u.FrameType == 0 || u.ShowFrame {
@@ -304,9 +302,9 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 	if !u.FrameIsIntra || u.RefreshFrameFlags != allFrames {
 		if errorResilientMode && sh.EnableOrderHint {
 			for i := 0; i < shared.NUM_REF_FRAMES; i++ {
-				ref_order_hint[i] = b.F(sh.OrderHintBits)
+				refOrderHint := b.F(sh.OrderHintBits)
 
-				if ref_order_hint[i] != s.RefOrderHint[i] {
+				if refOrderHint != s.RefOrderHint[i] {
 					s.RefValid[i] = 0
 				}
 			}
-- 
2.43.0


From 11b463d076e1b16826758cc8ad15dfaf57599bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 025/207] fix: refresh_frame_flags is only implied for switch
 and shown key frames

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index bb7e8f3..a41e1c4 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -293,7 +293,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	u.UseRefFrameMvs = false
 
-	if u.FrameType == 3 || u.FrameType == 0 || u.ShowFrame {
+	if u.FrameType == 3 || (u.FrameType == 0 && u.ShowFrame) {
 		u.RefreshFrameFlags = allFrames
 	} else {
 		u.RefreshFrameFlags = b.F(8)
-- 
2.43.0


From 700a9568d8aeeadb080486a786883e5cae85dd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:22 +0000
Subject: [PATCH 026/207] fix: ref_frame_idx and delta_frame_id_minus_1

---
 internal/uncompressedheader/uncompressed_header.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index a41e1c4..017097a 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -311,8 +311,6 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 	}
 
-	expectedFrameId := []int{}
-
 	if u.FrameIsIntra {
 		u.frameSize(b, s, sh)
 		u.renderSize(b)
@@ -337,14 +335,12 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		for i := 0; i < shared.REFS_PER_FRAME; i++ {
 			if !frameRefsShortSignaling {
 				u.RefFrameIdx[i] = b.F(3)
-				u.RefFrameIdx[i] = b.F(3)
 			}
 
 			if sh.FrameIdNumbersPresent {
 				n := sh.DeltaFrameIdLengthMinusTwo + 2
-				deltaFrameIdMinusOne := b.F(n)
-				DeltaFrameId := deltaFrameIdMinusOne + 1
-				expectedFrameId[i] = (u.CurrentFrameId + (1 << idLen) - DeltaFrameId) % (1 << idLen)
+				// delta_frame_id_minus_1
+				b.F(n)
 			}
 		}
 
-- 
2.43.0


From efb460d58793ee575e8b33bb5b439acb70651cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 027/207] fix: order hint and sign bias of every reference

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 017097a..c7c27fe 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -135,7 +135,7 @@ type UncompressedHeader struct {
 	ClipToRestrictedRange bool
 	RefreshFrameFlags     int
 	FrameToShowMapIdx     int
-	RefFrameSignBias      [3]bool
+	RefFrameSignBias      [shared.ALTREF_FRAME + 1]bool
 }
 
 func NewUncompressedHeader(h header.Header, sh sequenceheader.SequenceHeader, b *bitstream.BitStream, s *state.State) UncompressedHeader {
@@ -369,7 +369,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 
 		for i := 0; i < shared.REFS_PER_FRAME; i++ {
-			refFrame := shared.LAST_FRAME + 1
+			refFrame := shared.LAST_FRAME + i
 			hint := s.RefOrderHint[u.RefFrameIdx[i]]
 			u.OrderHints[refFrame] = hint
 			if !sh.EnableOrderHint {
-- 
2.43.0


From a4b39147303c10a6846aa500029f02206152e40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 028/207] fix: quantizer matrix levels of the chroma planes

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index c7c27fe..930fd7c 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -429,8 +429,8 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 				u.SegQMLevel[2][segmentId] = 15
 			} else {
 				u.SegQMLevel[0][segmentId] = u.Qmy
-				u.SegQMLevel[1][segmentId] = u.Qmy
-				u.SegQMLevel[2][segmentId] = u.Qmy
+				u.SegQMLevel[1][segmentId] = u.Qmu
+				u.SegQMLevel[2][segmentId] = u.Qmv
 			}
 		}
 	}
-- 
2.43.0


From e35361242b1870171d85b23cf411991f5cee02e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:36 +0000
Subject: [PATCH 029/207] fix: segment quantizer offset with delta q

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 930fd7c..76e06f5 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -797,7 +797,7 @@ func (u *UncompressedHeader) GetQIndex(ignoreDeltaQ int, segmentId int, s *state
 		qindex := u.BaseQIdx + data
 
 		if ignoreDeltaQ == 0 && u.DeltaQPresent {
-			qindex = s.CurrentQIndex
+			qindex = s.CurrentQIndex + data
 		}
 
 		return util.Clip3(0, 255, qindex)
-- 
2.43.0


From 3f531a9f1a490d0b6f7b38283766d115e48dc902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:38 +0000
Subject: [PATCH 030/207] fix: unsigned segmentation features

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 76e06f5..f1cbc97 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -718,7 +718,7 @@ func (u *UncompressedHeader) segmentationParams(b *bitstream.BitStream, s *state
 							featureValue = b.Su(1 + bitsToRead)
 							clippedValue = util.Clip3(-limit, limit, featureValue)
 						} else {
-							featureValue = b.Su(bitsToRead)
+							featureValue = b.F(bitsToRead)
 							clippedValue = util.Clip3(0, limit, featureValue)
 
 						}
-- 
2.43.0


From 179a13a40ce0c3cdb5c52377abd9df595f5fe6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:40 +0000
Subject: [PATCH 031/207] fix: implied render height

---
 internal/uncompressedheader/uncompressed_header.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index f1cbc97..454de5a 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -53,7 +53,6 @@ type UncompressedHeader struct {
 	FrameWidth                 int
 	FrameHeight                int
 	UpscaledWidth              int
-	UpscaledHeight             int
 	FrameSizeOverrideFlag      bool
 	DeltaQYDc                  int
 	DeltaQUAc                  int
@@ -539,7 +538,7 @@ func (u *UncompressedHeader) renderSize(b *bitstream.BitStream) {
 		u.RenderHeight = renderHeightMinusOne + 1
 	} else {
 		u.RenderWidth = u.UpscaledWidth
-		u.RenderHeight = u.UpscaledHeight
+		u.RenderHeight = u.FrameHeight
 	}
 }
 
-- 
2.43.0


From b9139a28a1a56346c329f9993d65e5326fbad2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:42 +0000
Subject: [PATCH 032/207] fix: get_relative_dist with order hints

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 454de5a..9c5a0fe 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -554,7 +554,7 @@ func (u *UncompressedHeader) readInterpolationFilter(b *bitstream.BitStream) {
 
 // get_relative_dist()
 func (u *UncompressedHeader) GetRelativeDist(a int, b int, sh sequenceheader.SequenceHeader) int {
-	if !u.EnableOrderHint {
+	if !sh.EnableOrderHint {
 		return 0
 	}
 
-- 
2.43.0


From 10fed5c2b127ef13ed5875b1e78d2a0e85b4b21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 033/207] fix: skip mode needs compound references and order
 hints

---
 internal/uncompressedheader/uncompressed_header.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 9c5a0fe..7394220 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -46,8 +46,6 @@ type UncompressedHeader struct {
 	DeltaLfRes                 int
 	DeltaLfMulti               int
 	BaseQIdx                   int
-	EnableOrderHint            bool
-	OrderHintBits              int
 	UseSuperRes                bool
 	SuperResDenom              int
 	FrameWidth                 int
@@ -991,7 +989,7 @@ func (u *UncompressedHeader) skipModeParams(state *state.State, b *bitstream.Bit
 	var skipModeAllowed = 0
 	var forwardHint int
 	var backwardHint int
-	if u.FrameIsIntra || u.ReferenceSelect || u.EnableOrderHint {
+	if u.FrameIsIntra || !u.ReferenceSelect || !sh.EnableOrderHint {
 		skipModeAllowed = 0
 	} else {
 		forwardIdx := -1
-- 
2.43.0


From 1e85e18f7e30d2df8b17708459e615f7a861c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 034/207] fix: skip mode takes the nearest backward reference

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 7394220..102c14d 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -1004,7 +1004,7 @@ func (u *UncompressedHeader) skipModeParams(state *state.State, b *bitstream.Bit
 					forwardHint = refHint
 				}
 			} else if u.GetRelativeDist(refHint, u.OrderHint, sh) > 0 {
-				if backwardIdx < 0 || u.GetRelativeDist(refHint, backwardHint, sh) > 0 {
+				if backwardIdx < 0 || u.GetRelativeDist(refHint, backwardHint, sh) < 0 {
 					backwardIdx = i
 					backwardHint = refHint
 				}
-- 
2.43.0


From 0624bc6c6e7731c5b5ee4e62743c1c2a5a0dd5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:48 +0000
Subject: [PATCH 035/207] fix: room for the skip mode frames

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 102c14d..371694d 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -83,7 +83,7 @@ type UncompressedHeader struct {
 	RefFrameIdx                [7]int
 	OrderHint                  int
 	OrderHints                 [8]int
-	SkipModeFrame              []int
+	SkipModeFrame              [2]int
 	SkipModePresent            int
 	SegQMLevel                 [3][shared.MAX_SEGMENTS]int
 	DisableCdfUpdate           bool
-- 
2.43.0


From bdd90afd0d3ff2cef0c67ad52a5b86d9c4fb4008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:49 +0000
Subject: [PATCH 036/207] fix: no loop filter for lossless or intra block copy
 frames

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 371694d..6cc78f9 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -817,7 +817,7 @@ func (u *UncompressedHeader) segFeatureActiveIdx(idx int, feature int, s *state.
 func (u *UncompressedHeader) loopFilterParams(b *bitstream.BitStream, sh sequenceheader.SequenceHeader) {
 	if u.CodedLossless || u.AllowIntraBc {
 		u.LoopFilterLevel[0] = 0
-		u.LoopFilterLevel[1] = 1
+		u.LoopFilterLevel[1] = 0
 		u.LoopFilterRefDeltas[shared.INTRA_FRAME] = 1
 		u.LoopFilterRefDeltas[shared.LAST_FRAME] = 0
 		u.LoopFilterRefDeltas[shared.LAST2_FRAME] = 0
-- 
2.43.0


From 001d0927c7a27aa8118a6aad7acbc8277ff1b9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 037/207] fix: loop_filter_sharpness has 3 bits

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 6cc78f9..4adf260 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -843,7 +843,7 @@ func (u *UncompressedHeader) loopFilterParams(b *bitstream.BitStream, sh sequenc
 		}
 	}
 
-	u.LoopFilterSharpness = b.F(6)
+	u.LoopFilterSharpness = b.F(3)
 	u.LoopFilterDeltaEnabled = util.Bool(b.F(1))
 
 	if u.LoopFilterDeltaEnabled {
-- 
2.43.0


From 84cd3eeb881354bbb80c6873c3516bcfd3c68d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:53 +0000
Subject: [PATCH 038/207] fix: signed range of global motion parameters

---
 internal/uncompressedheader/uncompressed_header.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 4adf260..117f9f3 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -1121,10 +1121,14 @@ func (u *UncompressedHeader) readGlobalParam(typ int, ref int, idx int, b *bitst
 
 	mx := 1 << absBits
 	r := (s.PrevGmParams[ref][idx] >> precDiff) - sub
-	u.GmParams[ref][idx] = (u.decodeSignedSubexpWithRef(mx, r, b) << precDiff) + round
+	u.GmParams[ref][idx] = (u.decodeSignedSubexpWithRef(-mx, mx+1, r, b) << precDiff) + round
 }
 
-func (u *UncompressedHeader) decodeSignedSubexpWithRef(mx int, r int, b *bitstream.BitStream) int {
+func (u *UncompressedHeader) decodeSignedSubexpWithRef(low int, high int, r int, b *bitstream.BitStream) int {
+	return u.decodeUnsignedSubexpWithRef(high-low, r-low, b) + low
+}
+
+func (u *UncompressedHeader) decodeUnsignedSubexpWithRef(mx int, r int, b *bitstream.BitStream) int {
 	v := u.decodeSubexp(mx, b)
 	if (r << 1) <= mx {
 		return util.InverseRecenter(r, v)
-- 
2.43.0


From a56a8ec21a41effcdd6e2f38c353b22d4ad5f959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 039/207] fix: read the global motion parameters

---
 .../uncompressedheader/uncompressed_header.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 117f9f3..38ef6ab 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -1085,8 +1085,25 @@ func (u *UncompressedHeader) globalMotionParams(b *bitstream.BitStream, s *state
 			typ = shared.IDENTITY
 		}
 		s.GmType[ref] = typ
-	}
 
+		if typ >= shared.ROTZOOM {
+			u.readGlobalParam(typ, ref, 2, b, s)
+			u.readGlobalParam(typ, ref, 3, b, s)
+
+			if typ == shared.AFFINE {
+				u.readGlobalParam(typ, ref, 4, b, s)
+				u.readGlobalParam(typ, ref, 5, b, s)
+			} else {
+				u.GmParams[ref][4] = -u.GmParams[ref][3]
+				u.GmParams[ref][5] = u.GmParams[ref][2]
+			}
+		}
+
+		if typ >= shared.TRANSLATION {
+			u.readGlobalParam(typ, ref, 0, b, s)
+			u.readGlobalParam(typ, ref, 1, b, s)
+		}
+	}
 }
 
 func (u *UncompressedHeader) readGlobalParam(typ int, ref int, idx int, b *bitstream.BitStream, s *state.State) {
-- 
2.43.0


From befff8a66e44f10e36df18127a57750f32b84d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 040/207] fix: implement the set frame refs process

---
 .../uncompressedheader/uncompressed_header.go | 115 +++++++++++++++++-
 1 file changed, 112 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 38ef6ab..cef05de 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -325,7 +325,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 			if frameRefsShortSignaling {
 				u.LastFrameIdx = b.F(3)
 				u.GoldFrameIdx = b.F(3)
-				u.setFrameRefs()
+				u.setFrameRefs(s, sh)
 			}
 		}
 
@@ -471,8 +471,117 @@ func (u *UncompressedHeader) markRefFrames(idLen int, state *state.State, sh seq
 	}
 }
 
-func (u *UncompressedHeader) setFrameRefs() {
-	panic("not implemented")
+// 7.8. Set frame refs process
+// set_frame_refs()
+func (u *UncompressedHeader) setFrameRefs(s *state.State, sh sequenceheader.SequenceHeader) {
+	for i := 0; i < shared.REFS_PER_FRAME; i++ {
+		u.RefFrameIdx[i] = -1
+	}
+	u.RefFrameIdx[0] = u.LastFrameIdx
+	u.RefFrameIdx[shared.GOLDEN_FRAME-shared.LAST_FRAME] = u.GoldFrameIdx
+
+	var usedFrame [shared.NUM_REF_FRAMES]bool
+	usedFrame[u.LastFrameIdx] = true
+	usedFrame[u.GoldFrameIdx] = true
+
+	curFrameHint := 1 << (sh.OrderHintBits - 1)
+	var shiftedOrderHints [shared.NUM_REF_FRAMES]int
+	for i := 0; i < shared.NUM_REF_FRAMES; i++ {
+		shiftedOrderHints[i] = curFrameHint + u.GetRelativeDist(s.RefOrderHint[i], u.OrderHint, sh)
+	}
+
+	ref := findLatestBackward(shiftedOrderHints, usedFrame, curFrameHint)
+	if ref >= 0 {
+		u.RefFrameIdx[shared.ALTREF_FRAME-shared.LAST_FRAME] = ref
+		usedFrame[ref] = true
+	}
+
+	ref = findEarliestBackward(shiftedOrderHints, usedFrame, curFrameHint)
+	if ref >= 0 {
+		u.RefFrameIdx[shared.BWDREF_FRAME-shared.LAST_FRAME] = ref
+		usedFrame[ref] = true
+	}
+
+	ref = findEarliestBackward(shiftedOrderHints, usedFrame, curFrameHint)
+	if ref >= 0 {
+		u.RefFrameIdx[shared.ALTREF2_FRAME-shared.LAST_FRAME] = ref
+		usedFrame[ref] = true
+	}
+
+	refFrameList := [shared.REFS_PER_FRAME - 2]int{
+		shared.LAST2_FRAME, shared.LAST3_FRAME, shared.BWDREF_FRAME, shared.ALTREF2_FRAME, shared.ALTREF_FRAME,
+	}
+	for i := 0; i < shared.REFS_PER_FRAME-2; i++ {
+		refFrame := refFrameList[i]
+		if u.RefFrameIdx[refFrame-shared.LAST_FRAME] < 0 {
+			ref = findLatestForward(shiftedOrderHints, usedFrame, curFrameHint)
+			if ref >= 0 {
+				u.RefFrameIdx[refFrame-shared.LAST_FRAME] = ref
+				usedFrame[ref] = true
+			}
+		}
+	}
+
+	ref = -1
+	earliestOrderHint := 0
+	for i := 0; i < shared.NUM_REF_FRAMES; i++ {
+		hint := shiftedOrderHints[i]
+		if ref < 0 || hint < earliestOrderHint {
+			ref = i
+			earliestOrderHint = hint
+		}
+	}
+
+	for i := 0; i < shared.REFS_PER_FRAME; i++ {
+		if u.RefFrameIdx[i] < 0 {
+			u.RefFrameIdx[i] = ref
+		}
+	}
+}
+
+// find_latest_backward()
+func findLatestBackward(hints [shared.NUM_REF_FRAMES]int, used [shared.NUM_REF_FRAMES]bool, curFrameHint int) int {
+	ref := -1
+	latestOrderHint := 0
+	for i := 0; i < shared.NUM_REF_FRAMES; i++ {
+		hint := hints[i]
+		if !used[i] && hint >= curFrameHint && (ref < 0 || hint >= latestOrderHint) {
+			ref = i
+			latestOrderHint = hint
+		}
+	}
+
+	return ref
+}
+
+// find_earliest_backward()
+func findEarliestBackward(hints [shared.NUM_REF_FRAMES]int, used [shared.NUM_REF_FRAMES]bool, curFrameHint int) int {
+	ref := -1
+	earliestOrderHint := 0
+	for i := 0; i < shared.NUM_REF_FRAMES; i++ {
+		hint := hints[i]
+		if !used[i] && hint >= curFrameHint && (ref < 0 || hint < earliestOrderHint) {
+			ref = i
+			earliestOrderHint = hint
+		}
+	}
+
+	return ref
+}
+
+// find_latest_forward()
+func findLatestForward(hints [shared.NUM_REF_FRAMES]int, used [shared.NUM_REF_FRAMES]bool, curFrameHint int) int {
+	ref := -1
+	latestOrderHint := 0
+	for i := 0; i < shared.NUM_REF_FRAMES; i++ {
+		hint := hints[i]
+		if !used[i] && hint < curFrameHint && (ref < 0 || hint >= latestOrderHint) {
+			ref = i
+			latestOrderHint = hint
+		}
+	}
+
+	return ref
 }
 
 func (u *UncompressedHeader) frameSizeWithRefs() {
-- 
2.43.0


From 85279d521a930a7b9d759cb135e43febb6a58eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:36 +0000
Subject: [PATCH 041/207] fix: implement frame_size_with_refs

---
 .../uncompressedheader/uncompressed_header.go | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index cef05de..e7174c2 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -342,7 +342,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 
 		if u.FrameSizeOverrideFlag && !errorResilientMode {
-			u.frameSizeWithRefs()
+			u.frameSizeWithRefs(b, s, sh)
 		} else {
 			u.frameSize(b, s, sh)
 			u.renderSize(b)
@@ -584,8 +584,26 @@ func findLatestForward(hints [shared.NUM_REF_FRAMES]int, used [shared.NUM_REF_FR
 	return ref
 }
 
-func (u *UncompressedHeader) frameSizeWithRefs() {
-	panic("not implemented")
+// frame_size_with_refs()
+func (u *UncompressedHeader) frameSizeWithRefs(b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader) {
+	for i := 0; i < shared.REFS_PER_FRAME; i++ {
+		foundRef := util.Bool(b.F(1))
+		if foundRef {
+			refIdx := u.RefFrameIdx[i]
+			u.UpscaledWidth = s.RefUpscaledWidth[refIdx]
+			u.FrameWidth = u.UpscaledWidth
+			u.FrameHeight = s.RefFrameHeight[refIdx]
+			u.RenderWidth = s.RefRenderWidth[refIdx]
+			u.RenderHeight = s.RefRenderHeight[refIdx]
+
+			u.superResParams(b, sh)
+			u.computeImageSize(s)
+			return
+		}
+	}
+
+	u.frameSize(b, s, sh)
+	u.renderSize(b)
 }
 
 // frame_size()
-- 
2.43.0


From 2bb2f7d5e7ec62f7f952c2778439e7027dc4e9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:39 +0000
Subject: [PATCH 042/207] fix: keep the frame ids of the reference slots

---
 internal/state/state.go                            |  2 ++
 internal/tilegroup/decode_frame_wrapup.go          |  4 +++-
 internal/uncompressedheader/uncompressed_header.go | 10 +++++-----
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index bc3aaf0..e90ba4b 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -21,6 +21,8 @@ type State struct {
 	PrevGmParams      [shared.ALTREF_FRAME + 1][6]int
 	PrevSegmentIds    [][]int
 	RefFrameType      [shared.NUM_REF_FRAMES]int
+	RefFrameId        [shared.NUM_REF_FRAMES]int
+	CurrentFrameId    int
 	CurrentQIndex     int
 	OperatingPointIdc int
 	MiColStart        int
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 50c9f9a..a719ef6 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -107,6 +107,7 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 	for i := 0; i < shared.NUM_REF_FRAMES; i++ {
 		if ((uh.RefreshFrameFlags >> i) & 1) == 1 {
 			state.RefValid[i] = 1
+			state.RefFrameId[i] = uh.CurrentFrameId
 			state.RefUpscaledWidth[i] = uh.UpscaledWidth
 			state.RefFrameWidth[i] = uh.FrameWidth
 			state.RefFrameHeight[i] = uh.FrameHeight
@@ -204,7 +205,8 @@ func saveSegmentationParams(ctx int) {
 func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompressedheader.UncompressedHeader, sh *sequenceheader.SequenceHeader) {
 	// where does i really come from?
 	i := u.FrameToShowMapIdx
-	u.CurrentFrameId = u.RefFrameId[i]
+	u.CurrentFrameId = state.RefFrameId[i]
+	state.CurrentFrameId = u.CurrentFrameId
 	u.UpscaledWidth = state.RefUpscaledWidth[u.FrameToShowMapIdx]
 	u.FrameWidth = state.RefFrameWidth[u.FrameToShowMapIdx]
 	u.FrameHeight = state.RefFrameHeight[u.FrameToShowMapIdx]
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index e7174c2..7e781bb 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -66,7 +66,6 @@ type UncompressedHeader struct {
 	InterpolationFilter        int
 	PrevFrameId                int
 	CurrentFrameId             int
-	RefFrameId                 []int
 	TileInfo                   tileinfo.TileInfo
 	FramePresentationTime      int
 	PrimaryRefFrame            int
@@ -244,12 +243,13 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 	}
 
 	if sh.FrameIdNumbersPresent {
-		u.PrevFrameId = u.CurrentFrameId
+		u.PrevFrameId = s.CurrentFrameId
 		u.CurrentFrameId = b.F(idLen)
 		u.markRefFrames(idLen, s, sh)
 	} else {
 		u.CurrentFrameId = 0
 	}
+	s.CurrentFrameId = u.CurrentFrameId
 
 	if u.FrameType == SWITCH_FRAME {
 		u.FrameSizeOverrideFlag = true
@@ -459,12 +459,12 @@ func (u *UncompressedHeader) markRefFrames(idLen int, state *state.State, sh seq
 
 	for i := 0; i < shared.NUM_REF_FRAMES; i++ {
 		if u.CurrentFrameId > (1 << diffLen) {
-			if u.RefFrameId[i] > u.CurrentFrameId ||
-				u.RefFrameId[i] < (u.CurrentFrameId-(1<<diffLen)) {
+			if state.RefFrameId[i] > u.CurrentFrameId ||
+				state.RefFrameId[i] < (u.CurrentFrameId-(1<<diffLen)) {
 				state.RefValid[i] = 0
 			}
 		} else {
-			if u.RefFrameId[i] > u.CurrentFrameId && u.RefFrameId[i] < ((1<<idLen)+u.CurrentFrameId-(1<<diffLen)) {
+			if state.RefFrameId[i] > u.CurrentFrameId && state.RefFrameId[i] < ((1<<idLen)+u.CurrentFrameId-(1<<diffLen)) {
 				state.RefValid[i] = 0
 			}
 		}
-- 
2.43.0


From 46c2ee6217c330e3e9d7e4c773fe1f85db0554ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 043/207] fix: adapt the compound reference type probabilities

---
 internal/tilegroup/tile_group.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 45669ac..c4945f5 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -439,7 +439,7 @@ func (t *TileGroup) frameEndUpdateCdf(state *state.State) {
 	state.InterTxTypeSet3Cdf = state.SavedInterTxTypeSet3Cdf
 	state.UseObmcCdf = state.SavedUseObmcCdf
 	state.InterIntraCdf = state.SavedInterIntraCdf
-	state.CompRefTypeCdf = state.CompRefTypeCdf
+	state.CompRefTypeCdf = state.SavedCompRefTypeCdf
 	state.CflSignCdf = state.SavedCflSignCdf
 	state.UniCompRefCdf = state.SavedUniCompRefCdf
 	state.WedgeInterIntraCdf = state.SavedWedgeInterIntraCdf
@@ -658,7 +658,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 		state.SavedInterTxTypeSet3Cdf = state.TileInterTxTypeSet3Cdf
 		state.SavedUseObmcCdf = state.TileUseObmcCdf
 		state.SavedInterIntraCdf = state.TileInterIntraCdf
-		state.SavedCompRefTypeCdf = state.CompRefTypeCdf
+		state.SavedCompRefTypeCdf = state.TileCompRefTypeCdf
 		state.SavedCflSignCdf = state.TileCflSignCdf
 		state.SavedUniCompRefCdf = state.TileUniCompRefCdf
 		state.SavedWedgeInterIntraCdf = state.TileWedgeInterIntraCdf
-- 
2.43.0


From d84844aace57600412a4517878bf824360830e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 044/207] fix: default probabilities of refmv

---
 internal/uncompressedheader/cdf.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 2e4e5d9..51b86d1 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -30,6 +30,7 @@ func initNonCoeffCdfs(state *state.State) {
 	state.MotionModeCdf = DEFAULT_MOTION_MODE_CDF
 	state.NewMvCdf = DEFAULT_NEW_MV_CDF
 	state.ZeroMvCdf = DFEAULT_ZERO_MV_CDF
+	state.RefMvCdf = DEFAULT_REF_MV_CDF
 	state.CompoundModeCdf = DEFAULT_COMPOUND_MODE_CDF
 	state.DrlModeCdf = DEFAULT_DRL_MODE_CDF
 	state.IsInterCdf = DEFAULT_IS_INTER_CDF
@@ -1355,6 +1356,15 @@ var DFEAULT_ZERO_MV_CDF = [][]int{
 	{1054, 32768, 0},
 }
 
+var DEFAULT_REF_MV_CDF = [][]int{
+	{23974, 32768, 0},
+	{24188, 32768, 0},
+	{17848, 32768, 0},
+	{28622, 32768, 0},
+	{24312, 32768, 0},
+	{19923, 32768, 0},
+}
+
 var DEFAULT_NEW_MV_CDF = [][]int{
 	{
 		24035, 32768, 0},
-- 
2.43.0


From aa638c1c98d9e2d5762dcf559906fed1721b6a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 045/207] fix: carry the intra frame luma mode probabilities
 like all others

---
 internal/state/state.go            | 3 +++
 internal/tilegroup/tile_group.go   | 4 +++-
 internal/uncompressedheader/cdf.go | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index e90ba4b..4bfc0de 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -100,6 +100,7 @@ type State struct {
 	CoeffBaseCdf    [][][][]int
 	CoeffBrCdf      [][][][]int
 
+	IntraFrameYModeCdf     [][][]int
 	YModeCdf               [][]int
 	UVModeCflNotAllowedCdf [][]int
 	UVModeCflAllowedCdf    [][]int
@@ -283,6 +284,7 @@ type State struct {
 	TileCoeffBaseCdf    [][][][]int
 	TileCoeffBrCdf      [][][][]int
 
+	SavedIntraFrameYModeCdf     [][][]int
 	SavedYModeCdf               [][]int
 	SavedUVModeCflNotAllowedCdf [][]int
 	SavedUVModeCflAllowedCdf    [][]int
@@ -400,6 +402,7 @@ type MemoryArea struct {
 	CoeffBaseCdf    [][][][]int
 	CoeffBrCdf      [][][][]int
 
+	IntraFrameYModeCdf     [][][]int
 	YModeCdf               [][]int
 	UVModeCflNotAllowedCdf [][]int
 	UVModeCflAllowedCdf    [][]int
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index c4945f5..6c84ce8 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -370,6 +370,7 @@ func (t *TileGroup) decodeFrameWrapup(state *state.State, uh uncompressedheader.
 // frame_end_update_cdf( )
 func (t *TileGroup) frameEndUpdateCdf(state *state.State) {
 	state.YModeCdf = state.SavedYModeCdf
+	state.IntraFrameYModeCdf = state.SavedIntraFrameYModeCdf
 	state.UVModeCflNotAllowedCdf = state.SavedUVModeCflNotAllowedCdf
 	state.UVModeCflAllowedCdf = state.SavedUVModeCflAllowedCdf
 	state.AngleDeltaCdf = state.SavedAngleDeltaCdf
@@ -477,7 +478,7 @@ func (t *TileGroup) initSymbol(sz int, b *bitstream.BitStream, state *state.Stat
 	state.SymbolValue = ((1 << 15) - 1) ^ paddedBuf
 	state.SymbolRange = 1 << 15
 	state.SymbolMaxBits = 8*sz - 15
-	state.TileIntraFrameYModeCdf = uncompressedheader.DEFAULT_INTRA_FRAME_Y_MODE_CDF
+	state.TileIntraFrameYModeCdf = state.IntraFrameYModeCdf
 
 	state.TileYModeCdf = state.YModeCdf
 	state.TileUVModeCflNotAllowedCdf = state.UVModeCflNotAllowedCdf
@@ -589,6 +590,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 
 	if !uh.DisableFrameEndUpdateCdf && state.TileNum == uh.TileInfo.ContextUpdateTileId {
 		state.SavedYModeCdf = state.TileYModeCdf
+		state.SavedIntraFrameYModeCdf = state.TileIntraFrameYModeCdf
 		state.SavedUVModeCflNotAllowedCdf = state.TileUVModeCflNotAllowedCdf
 		state.SavedUVModeCflAllowedCdf = state.TileUVModeCflAllowedCdf
 		state.SavedAngleDeltaCdf = state.TileAngleDeltaCdf
diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 51b86d1..4a5c57b 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -8,6 +8,7 @@ import (
 // init_non_coeff_cdfs( )
 func initNonCoeffCdfs(state *state.State) {
 	state.YModeCdf = DEFAULT_Y_MODE_CDF
+	state.IntraFrameYModeCdf = DEFAULT_INTRA_FRAME_Y_MODE_CDF
 	state.UVModeCflNotAllowedCdf = DEFAULT_UV_MODE_CFL_NOT_ALLOWED_CDF
 	state.UVModeCflAllowedCdf = DEFAULT_UV_MODE_CFL_ALLOWED_CDF
 	state.AngleDeltaCdf = DEFAULT_ANGLE_DELTA_CDF
@@ -139,6 +140,7 @@ func SaveCdfs(ctx int, s *state.State) {
 	memoryArea := state.MemoryArea{}
 
 	memoryArea.YModeCdf = s.YModeCdf
+	memoryArea.IntraFrameYModeCdf = s.IntraFrameYModeCdf
 	memoryArea.UVModeCflNotAllowedCdf = s.UVModeCflNotAllowedCdf
 	memoryArea.UVModeCflAllowedCdf = s.UVModeCflAllowedCdf
 	memoryArea.AngleDeltaCdf = s.AngleDeltaCdf
@@ -243,6 +245,7 @@ func LoadCdfs(ctx int, s *state.State) {
 	memoryArea := s.Memory[ctx]
 
 	s.YModeCdf = memoryArea.YModeCdf
+	s.IntraFrameYModeCdf = memoryArea.IntraFrameYModeCdf
 	s.UVModeCflNotAllowedCdf = memoryArea.UVModeCflNotAllowedCdf
 	s.UVModeCflAllowedCdf = memoryArea.UVModeCflAllowedCdf
 	s.AngleDeltaCdf = memoryArea.AngleDeltaCdf
-- 
2.43.0


From 868fa074da0b576713ac92318c448d46c54fe6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:52 +0000
Subject: [PATCH 046/207] fix: every tile adapts its own copy of the
 probabilities

---
 internal/tilegroup/tile_group.go   | 266 ++++++++++++++++++-----------
 internal/uncompressedheader/cdf.go |   2 -
 2 files changed, 167 insertions(+), 101 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 6c84ce8..248152b 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -478,105 +478,173 @@ func (t *TileGroup) initSymbol(sz int, b *bitstream.BitStream, state *state.Stat
 	state.SymbolValue = ((1 << 15) - 1) ^ paddedBuf
 	state.SymbolRange = 1 << 15
 	state.SymbolMaxBits = 8*sz - 15
-	state.TileIntraFrameYModeCdf = state.IntraFrameYModeCdf
-
-	state.TileYModeCdf = state.YModeCdf
-	state.TileUVModeCflNotAllowedCdf = state.UVModeCflNotAllowedCdf
-	state.TileUVModeCflAllowedCdf = state.UVModeCflAllowedCdf
-	state.TileAngleDeltaCdf = state.AngleDeltaCdf
-	state.TileIntrabcCdf = state.IntrabcCdf
-	state.TilePartitionW8Cdf = state.PartitionW8Cdf
-	state.TilePartitionW16Cdf = state.PartitionW16Cdf
-	state.TilePartitionW32Cdf = state.PartitionW32Cdf
-	state.TilePartitionW64Cdf = state.PartitionW64Cdf
-	state.TilePartitionW128Cdf = state.PartitionW128Cdf
-	state.TileSegmentIdCdf = state.SegmentIdCdf
-	state.TileSegmentIdPredictedCdf = state.SegmentIdPredictedCdf
-	state.TileTx8x8Cdf = state.Tx8x8Cdf
-	state.TileTx16x16Cdf = state.Tx16x16Cdf
-	state.TileTx32x32Cdf = state.Tx32x32Cdf
-	state.TileTx64x64Cdf = state.Tx64x64Cdf
-	state.TileTxfmSplitCdf = state.TxfmSplitCdf
-	state.TileFilterIntraModeCdf = state.FilterIntraModeCdf
-	state.TileFilterIntraCdf = state.FilterIntraCdf
-	state.TileInterpFilterCdf = state.InterpFilterCdf
-	state.TileMotionModeCdf = state.MotionModeCdf
-	state.TileNewMvCdf = state.NewMvCdf
-	state.TileZeroMvCdf = state.ZeroMvCdf
-	state.TileRefMvCdf = state.RefMvCdf
-	state.TileCompoundModeCdf = state.CompoundModeCdf
-	state.TileDrlModeCdf = state.DrlModeCdf
-	state.TileIsInterCdf = state.IsInterCdf
-	state.TileCompModeCdf = state.CompModeCdf
-	state.TileSkipModeCdf = state.SkipModeCdf
-	state.TileSkipCdf = state.SkipCdf
-	state.TileCompRefCdf = state.CompRefCdf
-	state.TileCompBwdRefCdf = state.CompBwdRefCdf
-	state.TileSingleRefCdf = state.SingleRefCdf
-	state.TileMvJointCdf = state.MvJointCdf
-	state.TileMvClassCdf = state.MvClassCdf
-	state.TileMvClass0BitCdf = state.MvClass0BitCdf
-	state.TileMvFrCdf = state.MvFrCdf
-	state.TileMvClass0FrCdf = state.MvClass0FrCdf
-	state.TileMvClass0HpCdf = state.MvClass0HpCdf
-	state.TileMvSignCdf = state.MvSignCdf
-	state.TileMvBitCdf = state.MvBitCdf
-	state.TileMvHpCdf = state.MvHpCdf
-	state.TilePaletteYModeCdf = state.PaletteYModeCdf
-	state.TilePaletteUVModeCdf = state.PaletteUVModeCdf
-	state.TilePaletteUVSizeCdf = state.PaletteUVSizeCdf
-	state.TilePaletteSize2YColorCdf = state.PaletteSize2YColorCdf
-	state.TilePaletteSize2UVColorCdf = state.PaletteSize2UVColorCdf
-	state.TilePaletteSize3YColorCdf = state.PaletteSize3YColorCdf
-	state.TilePaletteSize3UVColorCdf = state.PaletteSize3UVColorCdf
-	state.TilePaletteSize4YColorCdf = state.PaletteSize4YColorCdf
-	state.TilePaletteSize4UVColorCdf = state.PaletteSize4UVColorCdf
-	state.TilePaletteSize5YColorCdf = state.PaletteSize5YColorCdf
-	state.TilePaletteSize5UVColorCdf = state.PaletteSize5UVColorCdf
-	state.TilePaletteSize6YColorCdf = state.PaletteSize6YColorCdf
-	state.TilePaletteSize6UVColorCdf = state.PaletteSize6UVColorCdf
-	state.TilePaletteSize7YColorCdf = state.PaletteSize7YColorCdf
-	state.TilePaletteSize7UVColorCdf = state.PaletteSize7UVColorCdf
-	state.TilePaletteSize8YColorCdf = state.PaletteSize8YColorCdf
-	state.TilePaletteSize8UVColorCdf = state.PaletteSize8UVColorCdf
-
-	state.TileDeltaQCdf = state.DeltaQCdf
-	state.TileDeltaLFCdf = state.DeltaLFCdf
-	state.TileDeltaLFMultiCdf = state.DeltaLFMultiCdf
-	state.TileIntraTxTypeSet1Cdf = state.IntraTxTypeSet1Cdf
-	state.TileIntraTxTypeSet2Cdf = state.IntraTxTypeSet2Cdf
-	state.TileInterTxTypeSet1Cdf = state.InterTxTypeSet1Cdf
-	state.TileInterTxTypeSet2Cdf = state.InterTxTypeSet2Cdf
-	state.TileInterTxTypeSet3Cdf = state.InterTxTypeSet3Cdf
-	state.TileUseObmcCdf = state.UseObmcCdf
-	state.TileInterIntraCdf = state.InterIntraCdf
-	state.TileCompRefTypeCdf = state.CompRefTypeCdf
-	state.TileCflSignCdf = state.CflSignCdf
-	state.TileUniCompRefCdf = state.UniCompRefCdf
-	state.TileWedgeInterIntraCdf = state.WedgeInterIntraCdf
-	state.TileCompGroupIdxCdf = state.CompGroupIdxCdf
-	state.TileCompoundIdxCdf = state.CompoundIdxCdf
-	state.TileCompoundTypeCdf = state.CompoundTypeCdf
-	state.TileInterIntraModeCdf = state.InterIntraModeCdf
-	state.TileWedgeIndexCdf = state.WedgeIndexCdf
-	state.TileCflAlphaCdf = state.CflAlphaCdf
-	state.TileUseWienerCdf = state.UseWienerCdf
-	state.TileUseSgrprojCdf = state.UseSgrprojCdf
-	state.TileRestorationTypeCdf = state.RestorationTypeCdf
-
-	state.TileTxbSkipCdf = state.TxbSkipCdf
-	state.TileEobPt16Cdf = state.EobPt16Cdf
-	state.TileEobPt32Cdf = state.EobPt32Cdf
-	state.TileEobPt64Cdf = state.EobPt64Cdf
-	state.TileEobPt128Cdf = state.EobPt128Cdf
-	state.TileEobPt256Cdf = state.EobPt256Cdf
-	state.TileEobPt512Cdf = state.EobPt512Cdf
-	state.TileEobPt1024Cdf = state.EobPt1024Cdf
-	state.TileEobExtraCdf = state.EobExtraCdf
-	state.TileDcSignCdf = state.DcSignCdf
-	state.TileCoeffBaseEobCdf = state.CoeffBaseEobCdf
-	state.TileCoeffBaseCdf = state.CoeffBaseCdf
-	state.TileCoeffBrCdf = state.CoeffBrCdf
+	state.TileIntraFrameYModeCdf = tileCdf3(state.IntraFrameYModeCdf)
+
+	state.TileYModeCdf = tileCdf2(state.YModeCdf)
+	state.TileUVModeCflNotAllowedCdf = tileCdf2(state.UVModeCflNotAllowedCdf)
+	state.TileUVModeCflAllowedCdf = tileCdf2(state.UVModeCflAllowedCdf)
+	state.TileAngleDeltaCdf = tileCdf2(state.AngleDeltaCdf)
+	state.TileIntrabcCdf = tileCdf(state.IntrabcCdf)
+	state.TilePartitionW8Cdf = tileCdf2(state.PartitionW8Cdf)
+	state.TilePartitionW16Cdf = tileCdf2(state.PartitionW16Cdf)
+	state.TilePartitionW32Cdf = tileCdf2(state.PartitionW32Cdf)
+	state.TilePartitionW64Cdf = tileCdf2(state.PartitionW64Cdf)
+	state.TilePartitionW128Cdf = tileCdf2(state.PartitionW128Cdf)
+	state.TileSegmentIdCdf = tileCdf2(state.SegmentIdCdf)
+	state.TileSegmentIdPredictedCdf = tileCdf2(state.SegmentIdPredictedCdf)
+	state.TileTx8x8Cdf = tileCdf2(state.Tx8x8Cdf)
+	state.TileTx16x16Cdf = tileCdf2(state.Tx16x16Cdf)
+	state.TileTx32x32Cdf = tileCdf2(state.Tx32x32Cdf)
+	state.TileTx64x64Cdf = tileCdf2(state.Tx64x64Cdf)
+	state.TileTxfmSplitCdf = tileCdf2(state.TxfmSplitCdf)
+	state.TileFilterIntraModeCdf = tileCdf(state.FilterIntraModeCdf)
+	state.TileFilterIntraCdf = tileCdf2(state.FilterIntraCdf)
+	state.TileInterpFilterCdf = tileCdf2(state.InterpFilterCdf)
+	state.TileMotionModeCdf = tileCdf2(state.MotionModeCdf)
+	state.TileNewMvCdf = tileCdf2(state.NewMvCdf)
+	state.TileZeroMvCdf = tileCdf2(state.ZeroMvCdf)
+	state.TileRefMvCdf = tileCdf2(state.RefMvCdf)
+	state.TileCompoundModeCdf = tileCdf2(state.CompoundModeCdf)
+	state.TileDrlModeCdf = tileCdf2(state.DrlModeCdf)
+	state.TileIsInterCdf = tileCdf2(state.IsInterCdf)
+	state.TileCompModeCdf = tileCdf2(state.CompModeCdf)
+	state.TileSkipModeCdf = tileCdf2(state.SkipModeCdf)
+	state.TileSkipCdf = tileCdf2(state.SkipCdf)
+	state.TileCompRefCdf = tileCdf3(state.CompRefCdf)
+	state.TileCompBwdRefCdf = tileCdf3(state.CompBwdRefCdf)
+	state.TileSingleRefCdf = tileCdf3(state.SingleRefCdf)
+	for i := range state.TileMvJointCdf {
+		state.TileMvJointCdf[i] = tileCdf(state.MvJointCdf[i])
+	}
+	for i := range state.TileMvClassCdf {
+		state.TileMvClassCdf[i] = tileCdf2(state.MvClassCdf[i])
+	}
+	for i := range state.TileMvClass0BitCdf {
+		for j := range state.TileMvClass0BitCdf[i] {
+			state.TileMvClass0BitCdf[i][j] = tileCdf(state.MvClass0BitCdf[i][j])
+		}
+	}
+	for i := range state.TileMvFrCdf {
+		state.TileMvFrCdf[i] = tileCdf2(state.MvFrCdf[i])
+	}
+	for i := range state.TileMvClass0FrCdf {
+		state.TileMvClass0FrCdf[i] = tileCdf3(state.MvClass0FrCdf[i])
+	}
+	for i := range state.TileMvClass0HpCdf {
+		for j := range state.TileMvClass0HpCdf[i] {
+			state.TileMvClass0HpCdf[i][j] = tileCdf(state.MvClass0HpCdf[i][j])
+		}
+	}
+	for i := range state.TileMvSignCdf {
+		for j := range state.TileMvSignCdf[i] {
+			state.TileMvSignCdf[i][j] = tileCdf(state.MvSignCdf[i][j])
+		}
+	}
+	for i := range state.TileMvBitCdf {
+		for j := range state.TileMvBitCdf[i] {
+			state.TileMvBitCdf[i][j] = tileCdf2(state.MvBitCdf[i][j])
+		}
+	}
+	for i := range state.TileMvHpCdf {
+		for j := range state.TileMvHpCdf[i] {
+			state.TileMvHpCdf[i][j] = tileCdf(state.MvHpCdf[i][j])
+		}
+	}
+	state.TilePaletteYModeCdf = tileCdf3(state.PaletteYModeCdf)
+	state.TilePaletteUVModeCdf = tileCdf2(state.PaletteUVModeCdf)
+	state.TilePaletteUVSizeCdf = tileCdf2(state.PaletteUVSizeCdf)
+	state.TilePaletteSize2YColorCdf = tileCdf2(state.PaletteSize2YColorCdf)
+	state.TilePaletteSize2UVColorCdf = tileCdf2(state.PaletteSize2UVColorCdf)
+	state.TilePaletteSize3YColorCdf = tileCdf2(state.PaletteSize3YColorCdf)
+	state.TilePaletteSize3UVColorCdf = tileCdf2(state.PaletteSize3UVColorCdf)
+	state.TilePaletteSize4YColorCdf = tileCdf2(state.PaletteSize4YColorCdf)
+	state.TilePaletteSize4UVColorCdf = tileCdf2(state.PaletteSize4UVColorCdf)
+	state.TilePaletteSize5YColorCdf = tileCdf2(state.PaletteSize5YColorCdf)
+	state.TilePaletteSize5UVColorCdf = tileCdf2(state.PaletteSize5UVColorCdf)
+	state.TilePaletteSize6YColorCdf = tileCdf2(state.PaletteSize6YColorCdf)
+	state.TilePaletteSize6UVColorCdf = tileCdf2(state.PaletteSize6UVColorCdf)
+	state.TilePaletteSize7YColorCdf = tileCdf2(state.PaletteSize7YColorCdf)
+	state.TilePaletteSize7UVColorCdf = tileCdf2(state.PaletteSize7UVColorCdf)
+	state.TilePaletteSize8YColorCdf = tileCdf2(state.PaletteSize8YColorCdf)
+	state.TilePaletteSize8UVColorCdf = tileCdf2(state.PaletteSize8UVColorCdf)
+
+	state.TileDeltaQCdf = tileCdf(state.DeltaQCdf)
+	state.TileDeltaLFCdf = tileCdf(state.DeltaLFCdf)
+	for i := range state.TileDeltaLFMultiCdf {
+		state.TileDeltaLFMultiCdf[i] = tileCdf(state.DeltaLFMultiCdf[i])
+	}
+	state.TileIntraTxTypeSet1Cdf = tileCdf3(state.IntraTxTypeSet1Cdf)
+	state.TileIntraTxTypeSet2Cdf = tileCdf3(state.IntraTxTypeSet2Cdf)
+	state.TileInterTxTypeSet1Cdf = tileCdf2(state.InterTxTypeSet1Cdf)
+	state.TileInterTxTypeSet2Cdf = tileCdf(state.InterTxTypeSet2Cdf)
+	state.TileInterTxTypeSet3Cdf = tileCdf2(state.InterTxTypeSet3Cdf)
+	state.TileUseObmcCdf = tileCdf2(state.UseObmcCdf)
+	state.TileInterIntraCdf = tileCdf2(state.InterIntraCdf)
+	state.TileCompRefTypeCdf = tileCdf2(state.CompRefTypeCdf)
+	state.TileCflSignCdf = tileCdf(state.CflSignCdf)
+	state.TileUniCompRefCdf = tileCdf3(state.UniCompRefCdf)
+	state.TileWedgeInterIntraCdf = tileCdf2(state.WedgeInterIntraCdf)
+	state.TileCompGroupIdxCdf = tileCdf2(state.CompGroupIdxCdf)
+	state.TileCompoundIdxCdf = tileCdf2(state.CompoundIdxCdf)
+	state.TileCompoundTypeCdf = tileCdf2(state.CompoundTypeCdf)
+	state.TileInterIntraModeCdf = tileCdf2(state.InterIntraModeCdf)
+	state.TileWedgeIndexCdf = tileCdf2(state.WedgeIndexCdf)
+	state.TileCflAlphaCdf = tileCdf2(state.CflAlphaCdf)
+	state.TileUseWienerCdf = tileCdf(state.UseWienerCdf)
+	state.TileUseSgrprojCdf = tileCdf(state.UseSgrprojCdf)
+	state.TileRestorationTypeCdf = tileCdf(state.RestorationTypeCdf)
+
+	state.TileTxbSkipCdf = tileCdf3(state.TxbSkipCdf)
+	state.TileEobPt16Cdf = tileCdf3(state.EobPt16Cdf)
+	state.TileEobPt32Cdf = tileCdf3(state.EobPt32Cdf)
+	state.TileEobPt64Cdf = tileCdf3(state.EobPt64Cdf)
+	state.TileEobPt128Cdf = tileCdf3(state.EobPt128Cdf)
+	state.TileEobPt256Cdf = tileCdf3(state.EobPt256Cdf)
+	state.TileEobPt512Cdf = tileCdf2(state.EobPt512Cdf)
+	state.TileEobPt1024Cdf = tileCdf2(state.EobPt1024Cdf)
+	state.TileEobExtraCdf = tileCdf4(state.EobExtraCdf)
+	state.TileDcSignCdf = tileCdf3(state.DcSignCdf)
+	state.TileCoeffBaseEobCdf = tileCdf4(state.CoeffBaseEobCdf)
+	state.TileCoeffBaseCdf = tileCdf4(state.CoeffBaseCdf)
+	state.TileCoeffBrCdf = tileCdf4(state.CoeffBrCdf)
+}
+
+// tileCdf returns a tile's own copy of a CDF array, with a cleared symbol counter.
+func tileCdf(cdf []int) []int {
+	c := make([]int, len(cdf))
+	for i := 0; i < len(cdf); i++ {
+		c[i] = cdf[i]
+	}
+	c[len(cdf)-1] = 0
+
+	return c
+}
+
+func tileCdf2(cdfs [][]int) [][]int {
+	c := make([][]int, len(cdfs))
+	for i := 0; i < len(cdfs); i++ {
+		c[i] = tileCdf(cdfs[i])
+	}
+
+	return c
+}
+
+func tileCdf3(cdfs [][][]int) [][][]int {
+	c := make([][][]int, len(cdfs))
+	for i := 0; i < len(cdfs); i++ {
+		c[i] = tileCdf2(cdfs[i])
+	}
+
+	return c
+}
+
+func tileCdf4(cdfs [][][][]int) [][][][]int {
+	c := make([][][][]int, len(cdfs))
+	for i := 0; i < len(cdfs); i++ {
+		c[i] = tileCdf3(cdfs[i])
+	}
+
+	return c
 }
 
 // 8.2.4 Exit process for symbol decoder
diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 4a5c57b..c8664c6 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -342,8 +342,6 @@ func LoadCdfs(ctx int, s *state.State) {
 	s.CoeffBaseEobCdf = memoryArea.CoeffBaseEobCdf
 	s.CoeffBaseCdf = memoryArea.CoeffBaseCdf
 	s.CoeffBrCdf = memoryArea.CoeffBrCdf
-
-	// TODO: set last entry of every array to 0
 }
 
 var DEFAULT_INTER_TX_TYPE_SET2_CDF = []int{
-- 
2.43.0


From c972f07672fa5761cf94f690fae3c43c89d3b828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 047/207] fix: save and load the loop filter deltas of a
 reference slot

---
 internal/state/state.go                       | 80 ++++++++++---------
 internal/tilegroup/decode_frame_wrapup.go     | 10 +--
 .../uncompressedheader/uncompressed_header.go |  8 +-
 3 files changed, 50 insertions(+), 48 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index 4bfc0de..c50c2c1 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -46,45 +46,47 @@ type State struct {
 	ReadDeltas      bool
 	Cdef            cdef.Cdef
 
-	BlockDecoded           [3][13][13]bool
-	FrameRestorationType   []int
-	LoopRestorationSize    [3]int
-	AvailU                 bool
-	AvailL                 bool
-	AvailUChroma           bool
-	AvailLChroma           bool
-	RefFrame               [2]int
-	RefFrames              [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
-	RefFrameWidth          [shared.NUM_REF_FRAMES]int
-	RefFrameHeight         [shared.NUM_REF_FRAMES]int
-	RefRenderWidth         [shared.NUM_REF_FRAMES]int
-	RefRenderHeight        [shared.NUM_REF_FRAMES]int
-	RefMiCols              [shared.NUM_REF_FRAMES]int
-	RefMiRows              [shared.NUM_REF_FRAMES]int
-	RefSubsamplingX        [shared.NUM_REF_FRAMES]int
-	RefSubsamplingY        [shared.NUM_REF_FRAMES]int
-	RefBitDepth            [shared.NUM_REF_FRAMES]int
-	RefUpscaledWidth       [8]int
-	SavedOrderHints        [shared.NUM_REF_FRAMES][shared.REFS_PER_FRAME + shared.LAST_FRAME]int
-	CurrFrame              [3][16][16]int
-	SymbolMaxBits          int
-	SymbolValue            int
-	SymbolRange            int
-	RefFrameTypes          [7]int
-	Skip                   int
-	IsInter                int
-	CdefSize4              int
-	CdefFrame              [3][16][16]int
-	UpscaledCurrFrame      [3][9][9]int
-	UpscaledCdefFrame      [3][9][9]int
-	LrFrame                [3][9][9]int
-	TileIntraFrameYModeCdf [][][]int
-	MfMvs                  [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
-	SavedMvs               [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
-	SavedRefFrames         [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
-	MfRefFrames            [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
-	SavedGmParams          [shared.NUM_REF_FRAMES][shared.ALTREF_FRAME + 1][6]int
-	SavedSegmentIds        [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	BlockDecoded              [3][13][13]bool
+	FrameRestorationType      []int
+	LoopRestorationSize       [3]int
+	AvailU                    bool
+	AvailL                    bool
+	AvailUChroma              bool
+	AvailLChroma              bool
+	RefFrame                  [2]int
+	RefFrames                 [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
+	RefFrameWidth             [shared.NUM_REF_FRAMES]int
+	RefFrameHeight            [shared.NUM_REF_FRAMES]int
+	RefRenderWidth            [shared.NUM_REF_FRAMES]int
+	RefRenderHeight           [shared.NUM_REF_FRAMES]int
+	RefMiCols                 [shared.NUM_REF_FRAMES]int
+	RefMiRows                 [shared.NUM_REF_FRAMES]int
+	RefSubsamplingX           [shared.NUM_REF_FRAMES]int
+	RefSubsamplingY           [shared.NUM_REF_FRAMES]int
+	RefBitDepth               [shared.NUM_REF_FRAMES]int
+	RefUpscaledWidth          [8]int
+	SavedOrderHints           [shared.NUM_REF_FRAMES][shared.REFS_PER_FRAME + shared.LAST_FRAME]int
+	CurrFrame                 [3][16][16]int
+	SymbolMaxBits             int
+	SymbolValue               int
+	SymbolRange               int
+	RefFrameTypes             [7]int
+	Skip                      int
+	IsInter                   int
+	CdefSize4                 int
+	CdefFrame                 [3][16][16]int
+	UpscaledCurrFrame         [3][9][9]int
+	UpscaledCdefFrame         [3][9][9]int
+	LrFrame                   [3][9][9]int
+	TileIntraFrameYModeCdf    [][][]int
+	MfMvs                     [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
+	SavedMvs                  [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
+	SavedRefFrames            [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	MfRefFrames               [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	SavedGmParams             [shared.NUM_REF_FRAMES][shared.ALTREF_FRAME + 1][6]int
+	SavedLoopFilterRefDeltas  [shared.NUM_REF_FRAMES][8]int
+	SavedLoopFilterModeDeltas [shared.NUM_REF_FRAMES][2]int
+	SavedSegmentIds           [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 
 	TxbSkipCdf      [][][]int
 	EobPt16Cdf      [][][]int
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index a719ef6..3ace573 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -170,7 +170,7 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 				saveGrainParams(i)
 			}
 
-			saveLoopFilterParams(i)
+			saveLoopFilterParams(i, state, uh)
 			saveSegmentationParams(i)
 
 			for i := 0; i < shared.NUM_REF_FRAMES; i++ {
@@ -190,9 +190,9 @@ func saveGrainParams(ctx int) {
 }
 
 // save_loop_filter_params( i )
-func saveLoopFilterParams(ctx int) {
-	// TODO: implement
-	//panic("not implemented")
+func saveLoopFilterParams(ctx int, state *state.State, uh uncompressedheader.UncompressedHeader) {
+	state.SavedLoopFilterRefDeltas[ctx] = uh.LoopFilterRefDeltas
+	state.SavedLoopFilterModeDeltas[ctx] = uh.LoopFilterModeDeltas
 }
 
 // save_segmentation_params( i )
@@ -270,6 +270,6 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 		u.LoadGrainParams(u.FrameToShowMapIdx)
 	}
 
-	uncompressedheader.LoadLoopFilterParams(u.FrameToShowMapIdx)
+	u.LoadLoopFilterParams(u.FrameToShowMapIdx, state)
 	uncompressedheader.LoadSegmentationParams(u.FrameToShowMapIdx)
 }
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 7e781bb..ead3aea 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -741,7 +741,7 @@ func (u *UncompressedHeader) setupPastIndependence(s *state.State) {
 func (u *UncompressedHeader) loadPrevious(state *state.State) {
 	prevFrame := u.RefFrameIdx[u.PrimaryRefFrame]
 	state.PrevGmParams = state.SavedGmParams[prevFrame]
-	LoadLoopFilterParams(prevFrame)
+	u.LoadLoopFilterParams(prevFrame, state)
 	LoadSegmentationParams(prevFrame)
 
 	panic("not implemented")
@@ -1474,9 +1474,9 @@ func (u *UncompressedHeader) LoadGrainParams(idx int) {
 }
 
 // load_loop_filter_params( i )
-func LoadLoopFilterParams(i int) {
-	panic("not implemented")
-
+func (u *UncompressedHeader) LoadLoopFilterParams(i int, s *state.State) {
+	u.LoopFilterRefDeltas = s.SavedLoopFilterRefDeltas[i]
+	u.LoopFilterModeDeltas = s.SavedLoopFilterModeDeltas[i]
 }
 
 // load_segmentation_params( i )
-- 
2.43.0


From d68c7994c22baee08059197f4398a7f49dc24c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:32 +0000
Subject: [PATCH 048/207] fix: save and load the segmentation features of a
 reference slot

---
 internal/state/state.go                            |  2 ++
 internal/tilegroup/decode_frame_wrapup.go          | 10 +++++-----
 internal/uncompressedheader/uncompressed_header.go | 10 ++++------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index c50c2c1..83623fe 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -84,6 +84,8 @@ type State struct {
 	SavedRefFrames            [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	MfRefFrames               [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	SavedGmParams             [shared.NUM_REF_FRAMES][shared.ALTREF_FRAME + 1][6]int
+	SavedFeatureEnabled       [shared.NUM_REF_FRAMES][shared.MAX_SEGMENTS][shared.SEG_LVL_MAX]int
+	SavedFeatureData          [shared.NUM_REF_FRAMES][shared.MAX_SEGMENTS][shared.SEG_LVL_MAX]int
 	SavedLoopFilterRefDeltas  [shared.NUM_REF_FRAMES][8]int
 	SavedLoopFilterModeDeltas [shared.NUM_REF_FRAMES][2]int
 	SavedSegmentIds           [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 3ace573..1d9062d 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -171,7 +171,7 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 			}
 
 			saveLoopFilterParams(i, state, uh)
-			saveSegmentationParams(i)
+			saveSegmentationParams(i, state)
 
 			for i := 0; i < shared.NUM_REF_FRAMES; i++ {
 				if ((uh.RefreshFrameFlags >> i) & 1) == 1 {
@@ -196,9 +196,9 @@ func saveLoopFilterParams(ctx int, state *state.State, uh uncompressedheader.Unc
 }
 
 // save_segmentation_params( i )
-func saveSegmentationParams(ctx int) {
-	// TODO: implement
-	//panic("not implemented")
+func saveSegmentationParams(ctx int, state *state.State) {
+	state.SavedFeatureEnabled[ctx] = state.FeatureEnabled
+	state.SavedFeatureData[ctx] = state.FeatureData
 }
 
 // 7.21 Reference frame loading process
@@ -271,5 +271,5 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 	}
 
 	u.LoadLoopFilterParams(u.FrameToShowMapIdx, state)
-	uncompressedheader.LoadSegmentationParams(u.FrameToShowMapIdx)
+	uncompressedheader.LoadSegmentationParams(u.FrameToShowMapIdx, state)
 }
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index ead3aea..cc6d536 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -742,9 +742,7 @@ func (u *UncompressedHeader) loadPrevious(state *state.State) {
 	prevFrame := u.RefFrameIdx[u.PrimaryRefFrame]
 	state.PrevGmParams = state.SavedGmParams[prevFrame]
 	u.LoadLoopFilterParams(prevFrame, state)
-	LoadSegmentationParams(prevFrame)
-
-	panic("not implemented")
+	LoadSegmentationParams(prevFrame, state)
 }
 
 func (u *UncompressedHeader) motionFieldEstimation() {
@@ -1480,7 +1478,7 @@ func (u *UncompressedHeader) LoadLoopFilterParams(i int, s *state.State) {
 }
 
 // load_segmentation_params( i )
-func LoadSegmentationParams(i int) {
-	panic("not implemented")
-
+func LoadSegmentationParams(i int, s *state.State) {
+	s.FeatureEnabled = s.SavedFeatureEnabled[i]
+	s.FeatureData = s.SavedFeatureData[i]
 }
-- 
2.43.0


From b672c3da7954d26c9600010db284220cd4bbedd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 049/207] fix: load the previous segment ids

---
 .../uncompressedheader/uncompressed_header.go  | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index cc6d536..33ea68c 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -406,7 +406,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 		initCoeffCdfs(s, *u)
 	} else {
-		u.loadPreviousSegementIds()
+		u.loadPreviousSegementIds(s)
 	}
 
 	u.CodedLossless = true
@@ -908,8 +908,20 @@ func (u *UncompressedHeader) deltaLfParams(b *bitstream.BitStream) {
 	}
 }
 
-func (u *UncompressedHeader) loadPreviousSegementIds() {
-	panic("not implemented")
+// load_previous_segment_ids()
+func (u *UncompressedHeader) loadPreviousSegementIds(s *state.State) {
+	prevFrame := u.RefFrameIdx[u.PrimaryRefFrame]
+	usePrevious := u.SegmentationEnabled && s.RefMiCols[prevFrame] == s.MiCols && s.RefMiRows[prevFrame] == s.MiRows
+
+	s.PrevSegmentIds = make([][]int, s.MiRows)
+	for row := 0; row < s.MiRows; row++ {
+		s.PrevSegmentIds[row] = make([]int, s.MiCols)
+		for col := 0; col < s.MiCols; col++ {
+			if usePrevious {
+				s.PrevSegmentIds[row][col] = s.SavedSegmentIds[prevFrame][row][col]
+			}
+		}
+	}
 }
 
 // get_qindex( ignoreDeltaQ, segmentId )
-- 
2.43.0


From e965ecf075d3dfdc2ab7a1c09bf49fa1b57dd972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 050/207] fix: save and load the film grain parameters of a
 reference slot

---
 internal/state/state.go                       | 30 ++++++++++++++++
 internal/tilegroup/decode_frame_wrapup.go     | 34 +++++++++++++++---
 .../uncompressedheader/uncompressed_header.go | 36 +++++++++++++++----
 3 files changed, 89 insertions(+), 11 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index 83623fe..8f4d135 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -389,6 +389,36 @@ type State struct {
 	RefValid             [shared.NUM_REF_FRAMES]int
 
 	Memory [shared.NUM_REF_FRAMES]MemoryArea
+
+	SavedGrainParams [shared.NUM_REF_FRAMES]GrainParams
+}
+
+// GrainParams are the film grain parameters kept with a reference slot.
+type GrainParams struct {
+	ApplyGrain            bool
+	GrainSeed             int
+	PointYValue           []int
+	PointYScaling         []int
+	ChromaScalingFromLuna bool
+	PointCbValue          []int
+	PointCbScaling        []int
+	PointCrValue          []int
+	PointCrScaling        []int
+	GrainScalingMinus8    int
+	ArCoeffLag            int
+	ArCoeffsYPlus128      []int
+	ArCoeffsCbPlus128     []int
+	ArCoeffsCrPlus128     []int
+	ArCoeffShiftMinus6    int
+	GrainScaleShift       int
+	CbMult                int
+	CbLumaMult            int
+	CbOffset              int
+	CrMult                int
+	CrLumaMult            int
+	CrOffset              int
+	OverlapFlag           bool
+	ClipToRestrictedRange bool
 }
 
 type MemoryArea struct {
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 1d9062d..628962e 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -167,7 +167,7 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 			uncompressedheader.SaveCdfs(i, state)
 
 			if sh.FilmGrainParamsPresent {
-				saveGrainParams(i)
+				saveGrainParams(i, state, uh)
 			}
 
 			saveLoopFilterParams(i, state, uh)
@@ -184,9 +184,33 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 }
 
 // save_grain_params( i )
-func saveGrainParams(ctx int) {
-	// TODO: implement
-	//panic("not implemented")
+func saveGrainParams(ctx int, s *state.State, uh uncompressedheader.UncompressedHeader) {
+	s.SavedGrainParams[ctx] = state.GrainParams{
+		ApplyGrain:            uh.ApplyGrain,
+		GrainSeed:             uh.GrainSeed,
+		PointYValue:           uh.PointYValue,
+		PointYScaling:         uh.PointYScaling,
+		ChromaScalingFromLuna: uh.ChromaScalingFromLuna,
+		PointCbValue:          uh.PointCbValue,
+		PointCbScaling:        uh.PointCbScaling,
+		PointCrValue:          uh.PointCrValue,
+		PointCrScaling:        uh.PointCrScaling,
+		GrainScalingMinus8:    uh.GrainScalingMinus8,
+		ArCoeffLag:            uh.ArCoeffLag,
+		ArCoeffsYPlus128:      uh.ArCoeffsYPlus128,
+		ArCoeffsCbPlus128:     uh.ArCoeffsCbPlus128,
+		ArCoeffsCrPlus128:     uh.ArCoeffsCrPlus128,
+		ArCoeffShiftMinus6:    uh.ArCoeffShiftMinus6,
+		GrainScaleShift:       uh.GrainScaleShift,
+		CbMult:                uh.CbMult,
+		CbLumaMult:            uh.CbLumaMult,
+		CbOffset:              uh.CbOffset,
+		CrMult:                uh.CrMult,
+		CrLumaMult:            uh.CrLumaMult,
+		CrOffset:              uh.CrOffset,
+		OverlapFlag:           uh.OverlapFlag,
+		ClipToRestrictedRange: uh.ClipToRestrictedRange,
+	}
 }
 
 // save_loop_filter_params( i )
@@ -267,7 +291,7 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 	uncompressedheader.LoadCdfs(u.FrameToShowMapIdx, state)
 
 	if sh.FilmGrainParamsPresent {
-		u.LoadGrainParams(u.FrameToShowMapIdx)
+		u.LoadGrainParams(u.FrameToShowMapIdx, state)
 	}
 
 	u.LoadLoopFilterParams(u.FrameToShowMapIdx, state)
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 33ea68c..4884f92 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -180,7 +180,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 			}
 
 			if sh.FilmGrainParamsPresent {
-				u.LoadGrainParams(u.FrameToShowMapIdx)
+				u.LoadGrainParams(u.FrameToShowMapIdx, s)
 			}
 
 			return
@@ -450,7 +450,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 	u.ReducedTxSet = util.Bool(b.F(1))
 
 	u.globalMotionParams(b, s)
-	u.filmGrainParams(b, sh)
+	u.filmGrainParams(b, s, sh)
 }
 
 // mark_ref_frames( idLen)
@@ -1321,7 +1321,7 @@ func (u *UncompressedHeader) decodeSubexp(numSyms int, b *bitstream.BitStream) i
 }
 
 // film_grain_params()
-func (u *UncompressedHeader) filmGrainParams(b *bitstream.BitStream, sh sequenceheader.SequenceHeader) {
+func (u *UncompressedHeader) filmGrainParams(b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader) {
 	if !sh.FilmGrainParamsPresent || (!u.ShowFrame && !u.ShowableFrame) {
 		u.resetGrainParams()
 		return
@@ -1345,7 +1345,7 @@ func (u *UncompressedHeader) filmGrainParams(b *bitstream.BitStream, sh sequence
 	if !updateGrain {
 		filmGrainParamsRefIdx := b.F(3)
 		tempGrainSeed := u.GrainSeed
-		u.LoadGrainParams(filmGrainParamsRefIdx)
+		u.LoadGrainParams(filmGrainParamsRefIdx, s)
 		u.GrainSeed = tempGrainSeed
 		return
 	}
@@ -1479,8 +1479,32 @@ func (u *UncompressedHeader) TemporalPointInfo(sh sequenceheader.SequenceHeader,
 }
 
 // load_grain_params( idx )
-func (u *UncompressedHeader) LoadGrainParams(idx int) {
-	panic("not implemented")
+func (u *UncompressedHeader) LoadGrainParams(idx int, s *state.State) {
+	g := s.SavedGrainParams[idx]
+	u.ApplyGrain = g.ApplyGrain
+	u.GrainSeed = g.GrainSeed
+	u.PointYValue = g.PointYValue
+	u.PointYScaling = g.PointYScaling
+	u.ChromaScalingFromLuna = g.ChromaScalingFromLuna
+	u.PointCbValue = g.PointCbValue
+	u.PointCbScaling = g.PointCbScaling
+	u.PointCrValue = g.PointCrValue
+	u.PointCrScaling = g.PointCrScaling
+	u.GrainScalingMinus8 = g.GrainScalingMinus8
+	u.ArCoeffLag = g.ArCoeffLag
+	u.ArCoeffsYPlus128 = g.ArCoeffsYPlus128
+	u.ArCoeffsCbPlus128 = g.ArCoeffsCbPlus128
+	u.ArCoeffsCrPlus128 = g.ArCoeffsCrPlus128
+	u.ArCoeffShiftMinus6 = g.ArCoeffShiftMinus6
+	u.GrainScaleShift = g.GrainScaleShift
+	u.CbMult = g.CbMult
+	u.CbLumaMult = g.CbLumaMult
+	u.CbOffset = g.CbOffset
+	u.CrMult = g.CrMult
+	u.CrLumaMult = g.CrLumaMult
+	u.CrOffset = g.CrOffset
+	u.OverlapFlag = g.OverlapFlag
+	u.ClipToRestrictedRange = g.ClipToRestrictedRange
 }
 
 // load_loop_filter_params( i )
-- 
2.43.0


From 33a5dca0cff674e9138ec8a149cc22f3fc5be546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:51 +0000
Subject: [PATCH 051/207] fix: keep the reference samples in the decoder state

---
 internal/state/state.go                   | 1 +
 internal/tilegroup/decode_frame_wrapup.go | 8 ++++----
 internal/tilegroup/output.go              | 6 +++---
 internal/tilegroup/predict_inter.go       | 4 ++--
 internal/tilegroup/tile_group.go          | 3 +--
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index 8f4d135..301b027 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -66,6 +66,7 @@ type State struct {
 	RefBitDepth               [shared.NUM_REF_FRAMES]int
 	RefUpscaledWidth          [8]int
 	SavedOrderHints           [shared.NUM_REF_FRAMES][shared.REFS_PER_FRAME + shared.LAST_FRAME]int
+	FrameStore                [shared.NUM_REF_FRAMES][3][16][16]int
 	CurrFrame                 [3][16][16]int
 	SymbolMaxBits             int
 	SymbolValue               int
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 628962e..c75fc23 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -126,14 +126,14 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 
 			for x := 0; x < uh.UpscaledWidth; x++ {
 				for y := 0; y < uh.FrameHeight; y++ {
-					t.FrameStore[i][0][y][x] = state.LrFrame[0][y][x]
+					state.FrameStore[i][0][y][x] = state.LrFrame[0][y][x]
 				}
 			}
 
 			for plane := 1; plane <= 2; plane++ {
 				for x := 0; x < (uh.UpscaledWidth + util.Int(sh.ColorConfig.SubsamplingX)>>util.Int(sh.ColorConfig.SubsamplingX)); x++ {
 					for y := 0; y < (uh.FrameHeight + util.Int(sh.ColorConfig.SubsamplingY)>>util.Int(sh.ColorConfig.SubsamplingY)); y++ {
-						t.FrameStore[i][plane][y][x] = state.LrFrame[plane][y][x]
+						state.FrameStore[i][plane][y][x] = state.LrFrame[plane][y][x]
 					}
 				}
 			}
@@ -250,14 +250,14 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 
 	for x := 0; x < u.UpscaledWidth; x++ {
 		for y := 0; y < u.FrameHeight; y++ {
-			state.LrFrame[0][y][x] = t.FrameStore[u.FrameToShowMapIdx][0][y][x]
+			state.LrFrame[0][y][x] = state.FrameStore[u.FrameToShowMapIdx][0][y][x]
 		}
 	}
 
 	for plane := 1; plane <= 2; plane++ {
 		for x := 0; x < ((u.UpscaledWidth+subsamplingX)>>subsamplingX)-1; x++ {
 			for y := 0; y < ((u.FrameHeight+subsamplingY)>>subsamplingY)-1; x++ {
-				state.LrFrame[plane][y][x] = t.FrameStore[u.FrameToShowMapIdx][plane][y][x]
+				state.LrFrame[plane][y][x] = state.FrameStore[u.FrameToShowMapIdx][plane][y][x]
 			}
 		}
 	}
diff --git a/internal/tilegroup/output.go b/internal/tilegroup/output.go
index 1588c50..870b5bf 100644
--- a/internal/tilegroup/output.go
+++ b/internal/tilegroup/output.go
@@ -31,19 +31,19 @@ func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.Uncompre
 
 		for x := 0; x < w; x++ {
 			for y := 0; y < h; y++ {
-				t.OutY[y][x] = t.FrameStore[uh.FrameToShowMapIdx][0][y][x]
+				t.OutY[y][x] = state.FrameStore[uh.FrameToShowMapIdx][0][y][x]
 			}
 		}
 
 		for x := 0; x < (w+subX)>>subX; x++ {
 			for y := 0; y < (h+subY)>>subY; y++ {
-				t.OutU[y][x] = t.FrameStore[uh.FrameToShowMapIdx][1][x][y]
+				t.OutU[y][x] = state.FrameStore[uh.FrameToShowMapIdx][1][x][y]
 			}
 		}
 
 		for x := 0; x < (w+subX)>>subX; x++ {
 			for y := 0; y < (h+subY)>>subY; y++ {
-				t.OutV[y][x] = t.FrameStore[uh.FrameToShowMapIdx][2][x][y]
+				t.OutV[y][x] = state.FrameStore[uh.FrameToShowMapIdx][2][x][y]
 			}
 		}
 
diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index d2f9a89..51f72b0 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -255,7 +255,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 	if refIdx == -1 {
 		ref = state.CurrFrame
 	} else {
-		ref = t.FrameStore[refIdx]
+		ref = state.FrameStore[refIdx]
 	}
 
 	subX := 0
@@ -320,7 +320,7 @@ func (t *TileGroup) blockWarpProcess(useWarp int, plane int, refList int, x int,
 	var pred [PRED_SIZE][PRED_SIZE]int
 
 	refIdx := uh.RefFrameIdx[state.RefFrame[refList]-shared.LAST_FRAME]
-	ref := t.FrameStore[refIdx]
+	ref := state.FrameStore[refIdx]
 
 	subX := 0
 	subY := 0
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 248152b..85dd06e 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -233,8 +233,7 @@ type TileGroup struct {
 	LocalValid      bool
 	LocalWarpParams [6]int
 
-	FrameStore [shared.NUM_REF_FRAMES][3][16][16]int
-	Mask       [][]int
+	Mask [][]int
 
 	FwdWeight int
 	BckWeight int
-- 
2.43.0


From 0c1e490877123e054eb0a9866e7a6067c6e2d440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:53 +0000
Subject: [PATCH 052/207] fix: chroma size of a stored reference frame

---
 internal/tilegroup/decode_frame_wrapup.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index c75fc23..a199a0a 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -131,8 +131,8 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 			}
 
 			for plane := 1; plane <= 2; plane++ {
-				for x := 0; x < (uh.UpscaledWidth + util.Int(sh.ColorConfig.SubsamplingX)>>util.Int(sh.ColorConfig.SubsamplingX)); x++ {
-					for y := 0; y < (uh.FrameHeight + util.Int(sh.ColorConfig.SubsamplingY)>>util.Int(sh.ColorConfig.SubsamplingY)); y++ {
+				for x := 0; x < (uh.UpscaledWidth+util.Int(sh.ColorConfig.SubsamplingX))>>util.Int(sh.ColorConfig.SubsamplingX); x++ {
+					for y := 0; y < (uh.FrameHeight+util.Int(sh.ColorConfig.SubsamplingY))>>util.Int(sh.ColorConfig.SubsamplingY); y++ {
 						state.FrameStore[i][plane][y][x] = state.LrFrame[plane][y][x]
 					}
 				}
-- 
2.43.0


From 5b9425f9cb4e7b2bcb495bb6175107d15569ecbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:55 +0000
Subject: [PATCH 053/207] fix: load all chroma samples of a reference frame

---
 internal/tilegroup/decode_frame_wrapup.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index a199a0a..21fdd34 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -255,8 +255,8 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 	}
 
 	for plane := 1; plane <= 2; plane++ {
-		for x := 0; x < ((u.UpscaledWidth+subsamplingX)>>subsamplingX)-1; x++ {
-			for y := 0; y < ((u.FrameHeight+subsamplingY)>>subsamplingY)-1; x++ {
+		for x := 0; x < (u.UpscaledWidth+subsamplingX)>>subsamplingX; x++ {
+			for y := 0; y < (u.FrameHeight+subsamplingY)>>subsamplingY; y++ {
 				state.LrFrame[plane][y][x] = state.FrameStore[u.FrameToShowMapIdx][plane][y][x]
 			}
 		}
-- 
2.43.0


From c667290b134816e512d3351f4edaacee44f19a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 054/207] fix: load the subsampling of a reference slot

---
 internal/tilegroup/decode_frame_wrapup.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 21fdd34..c38e47f 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -241,6 +241,8 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 
 	subsamplingX := state.RefSubsamplingX[u.FrameToShowMapIdx]
 	subsamplingY := state.RefSubsamplingY[u.FrameToShowMapIdx]
+	sh.ColorConfig.SubsamplingX = util.Bool(subsamplingX)
+	sh.ColorConfig.SubsamplingY = util.Bool(subsamplingY)
 	sh.ColorConfig.BitDepth = state.RefBitDepth[u.FrameToShowMapIdx]
 	u.OrderHint = state.RefOrderHint[u.FrameToShowMapIdx]
 
-- 
2.43.0


From 99f0f6add0dccd2404001e98d7a82e424963d6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 055/207] fix: return the size of the prepared output

---
 internal/tilegroup/output.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/tilegroup/output.go b/internal/tilegroup/output.go
index 870b5bf..5217f3d 100644
--- a/internal/tilegroup/output.go
+++ b/internal/tilegroup/output.go
@@ -24,10 +24,10 @@ func (t *TileGroup) outputProcess(state *state.State, uh uncompressedheader.Unco
 func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.UncompressedHeader, state *state.State, sh *sequenceheader.SequenceHeader) (int, int, int, int) {
 	var w, h, subX, subY int
 	if uh.ShowExistingFrame {
-		w := state.RefUpscaledWidth[uh.FrameToShowMapIdx]
-		h := state.RefFrameHeight[uh.FrameToShowMapIdx]
-		subX := state.RefSubsamplingX[uh.FrameToShowMapIdx]
-		subY := state.RefSubsamplingY[uh.FrameToShowMapIdx]
+		w = state.RefUpscaledWidth[uh.FrameToShowMapIdx]
+		h = state.RefFrameHeight[uh.FrameToShowMapIdx]
+		subX = state.RefSubsamplingX[uh.FrameToShowMapIdx]
+		subY = state.RefSubsamplingY[uh.FrameToShowMapIdx]
 
 		for x := 0; x < w; x++ {
 			for y := 0; y < h; y++ {
@@ -50,10 +50,10 @@ func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.Uncompre
 		// TODO: does this assignment work? sequenceheader isn't supposed to get modified this way
 		sh.ColorConfig.BitDepth = state.RefBitDepth[uh.FrameToShowMapIdx]
 	} else {
-		w := uh.UpscaledWidth
-		h := uh.FrameHeight
-		subX := util.Int(sh.ColorConfig.SubsamplingX)
-		subY := util.Int(sh.ColorConfig.SubsamplingY)
+		w = uh.UpscaledWidth
+		h = uh.FrameHeight
+		subX = util.Int(sh.ColorConfig.SubsamplingX)
+		subY = util.Int(sh.ColorConfig.SubsamplingY)
 
 		for x := 0; x < w; x++ {
 			for y := 0; y < h; y++ {
-- 
2.43.0


From 7103c234e66e31065cd23c854a5887ba250c7708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 056/207] fix: chroma of a shown existing frame

---
 internal/tilegroup/output.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/output.go b/internal/tilegroup/output.go
index 5217f3d..f03f190 100644
--- a/internal/tilegroup/output.go
+++ b/internal/tilegroup/output.go
@@ -37,13 +37,13 @@ func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.Uncompre
 
 		for x := 0; x < (w+subX)>>subX; x++ {
 			for y := 0; y < (h+subY)>>subY; y++ {
-				t.OutU[y][x] = state.FrameStore[uh.FrameToShowMapIdx][1][x][y]
+				t.OutU[y][x] = state.FrameStore[uh.FrameToShowMapIdx][1][y][x]
 			}
 		}
 
 		for x := 0; x < (w+subX)>>subX; x++ {
 			for y := 0; y < (h+subY)>>subY; y++ {
-				t.OutV[y][x] = state.FrameStore[uh.FrameToShowMapIdx][2][x][y]
+				t.OutV[y][x] = state.FrameStore[uh.FrameToShowMapIdx][2][y][x]
 			}
 		}
 
-- 
2.43.0


From 2882dba72d9d807d715b96c8e98f131317e42766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 057/207] fix: show existing frames

---
 internal/obu/obu.go                                | 2 +-
 internal/tilegroup/tile_group.go                   | 7 +++++++
 internal/uncompressedheader/uncompressed_header.go | 5 -----
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index ff5d91d..e2cea04 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -115,7 +115,7 @@ func (o *Obu) ParseFrameHeader(b *bitstream.BitStream, state *state.State, h hea
 		uncompressedHeader := uncompressedheader.NewUncompressedHeader(h, sh, b, state)
 
 		if uncompressedHeader.ShowExistingFrame {
-			uncompressedHeader.DecodeFrameWrapup()
+			o.TileGroup = tilegroup.NewExistingFrame(state, uncompressedHeader, sh)
 			state.SeenFrameHeader = false
 		} else {
 			state.TileNum = 0
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 85dd06e..87506c9 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -273,6 +273,13 @@ func NewTileGroup(sz int, b *bitstream.BitStream, state *state.State, uh uncompr
 	return t
 }
 
+// NewExistingFrame finishes a frame that only shows an existing one.
+func NewExistingFrame(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) TileGroup {
+	t := TileGroup{}
+	t.decodeFrameWrapup(state, uh, sh)
+	return t
+}
+
 func (t *TileGroup) build(sz int, b *bitstream.BitStream, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
 	NumTiles := state.TileCols * state.TileRows
 	startbitPos := b.Position
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 4884f92..ac640d6 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -1467,11 +1467,6 @@ func (u *UncompressedHeader) resetGrainParams() {
 	u.ClipToRestrictedRange = false
 }
 
-// decode_frame_wrapup()
-func (u *UncompressedHeader) DecodeFrameWrapup() {
-	panic("not implemented")
-}
-
 // temporal_point_info()
 func (u *UncompressedHeader) TemporalPointInfo(sh sequenceheader.SequenceHeader, b *bitstream.BitStream) {
 	n := sh.DecoderModelInfo.FramePresentationTimeLengthMinusOne + 1
-- 
2.43.0


From 6971a8814a4000f23d03085be75dd9d3c22fa849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:04 +0000
Subject: [PATCH 058/207] fix: motion vectors of a reference slot

---
 internal/tilegroup/decode_frame_wrapup.go | 26 +++++++++++++++++++++--
 internal/tilegroup/tile_group.go          |  1 +
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index c38e47f..006b738 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -53,6 +53,8 @@ func (t *TileGroup) upscalingProcess(inputFrame [3][16][16]int, state *state.Sta
 	return outputFrame
 }
 
+const REFMVS_LIMIT = (1 << 12) - 1
+
 const FILTER_BITS = 7
 const SUPERRES_FILTER_BITS = 6
 const SUPERRES_FILTER_TAPS = 8
@@ -98,8 +100,28 @@ var UPSCALE_FILTER = [SUPERRES_FILTER_SHIFTS][SUPERRES_FILTER_TAPS]int{
 }
 
 // 7.19
-func (t *TileGroup) motionVectorStorageProcess() {
-	panic("not implemented")
+func (t *TileGroup) motionVectorStorageProcess(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
+	for row := 0; row < state.MiRows; row++ {
+		for col := 0; col < state.MiCols; col++ {
+			state.MfRefFrames[row][col] = shared.NONE
+			state.MfMvs[row][col] = [2]int{}
+
+			for list := 0; list < 2; list++ {
+				r := state.RefFrames[row][col][list]
+				if r > shared.INTRA_FRAME {
+					refIdx := uh.RefFrameIdx[r-shared.LAST_FRAME]
+					dist := uh.GetRelativeDist(state.RefOrderHint[refIdx], uh.OrderHint, sh)
+					if dist < 0 {
+						mv := t.Mvs[row][col][list]
+						if util.Abs(mv[0]) <= REFMVS_LIMIT && util.Abs(mv[1]) <= REFMVS_LIMIT {
+							state.MfRefFrames[row][col] = r
+							state.MfMvs[row][col] = mv
+						}
+					}
+				}
+			}
+		}
+	}
 }
 
 // 7.20 Reference frame update process
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 87506c9..d46de26 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -352,6 +352,7 @@ func (t *TileGroup) decodeFrameWrapup(state *state.State, uh uncompressedheader.
 		state.UpscaledCdefFrame = t.upscalingProcess(state.CdefFrame, state, sh, uh)
 		state.UpscaledCurrFrame = t.upscalingProcess(state.CurrFrame, state, sh, uh)
 		t.loopRestoration(state, uh, sh)
+		t.motionVectorStorageProcess(state, uh, sh)
 
 		if uh.SegmentationEnabled && uh.SegmentationUpdateMap == 0 {
 			for row := 0; row < state.MiRows; row++ {
-- 
2.43.0


From 55345e033e75f6aa535edc33c9c2653fb441472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:51 +0000
Subject: [PATCH 059/207] fix: default segment id prediction probabilities

---
 internal/uncompressedheader/cdf.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index c8664c6..a7004e6 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -1596,9 +1596,9 @@ var DEFAULT_TX_8X8_CDF = [][]int{
 }
 
 var DEFAULT_SEGMENT_ID_PREDICTED_CDF = [][]int{
-	{128 * 128, 32678, 0},
-	{128 * 128, 32678, 0},
-	{128 * 128, 32678, 0},
+	{128 * 128, 32768, 0},
+	{128 * 128, 32768, 0},
+	{128 * 128, 32768, 0},
 }
 
 var DEFAULT_SEGMENT_ID_CDF = [][]int{
-- 
2.43.0


From c57092e76ef7296e3f6a28ab4dc684a885ae4b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:54 +0000
Subject: [PATCH 060/207] fix: default skip mode probabilities

---
 internal/uncompressedheader/cdf.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index a7004e6..fbc9a5b 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -1292,11 +1292,11 @@ var DEFAULT_SKIP_CDF = [][]int{
 }
 
 var DEFAULT_SKIP_MODE_CDF = [][]int{
-	{3262132621,
+	{32621,
 		32768, 00},
-	{2070820708,
+	{20708,
 		32768, 00},
-	{81278127,
+	{8127,
 		32768, 00},
 }
 
-- 
2.43.0


From 8d2e2b8929ce464dc8ea18fa8479602407000639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 061/207] fix: default base coefficient probabilities of the
 last quantizer range

---
 internal/uncompressedheader/cdf.go | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index fbc9a5b..2e43b05 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -10708,16 +10708,6 @@ var DEFAULT_COEFF_BASE_CDF = [][][][][]int{
 				{
 					8192, 16384, 24576, 32768, 0},
 			},
-			{
-				{
-					9320, 22102, 27840, 32768, 0},
-				{
-					2795, 10410, 17361, 32768, 0},
-				{
-					8192, 16384, 24576, 32768, 0},
-				{
-					8192, 16384, 24576, 32768, 0},
-			},
 			{
 				{
 					9320, 22102, 27840, 32768, 0},
-- 
2.43.0


From b134f4a436163d2c9bccabeefa429529fbebc3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 062/207] fix: reciprocal table of the warp estimation

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 51f72b0..28f97af 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -846,7 +846,7 @@ var Div_Lut = []int{
 	11125, 11096, 11067, 11038, 11009, 10980, 10951, 10923, 10894, 10866, 10838,
 	10810, 10782, 10755, 10727, 10700, 10673, 10645, 10618, 10592, 10565, 10538,
 	10512, 10486, 10460, 10434, 10408, 10382, 10356, 10331, 10305, 10280, 10255,
-	10230, 10205, 10180, 10156, 10131, 10107, 10082, 10058, 10034, 10010, 99869,
+	10230, 10205, 10180, 10156, 10131, 10107, 10082, 10058, 10034, 10010, 9986,
 	9963, 9939, 9916, 9892, 9869, 9846, 9823, 9800, 9777, 9754, 9732,
 	9709, 9687, 9664, 9642, 9620, 9598, 9576, 9554, 9533, 9511, 9489,
 	9468, 9447, 9425, 9404, 9383, 9362, 9341, 9321, 9300, 9279, 9259,
-- 
2.43.0


From 676741c64409994ab7c16874235f8bd5b516e889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:02 +0000
Subject: [PATCH 063/207] fix: precision of the reciprocal table

---
 internal/tilegroup/tile_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index d46de26..3aa382e 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -119,7 +119,7 @@ const REF_SCALE_SHIFT = 14
 const INTRA_FILTER_SCALE_BITS = 4
 
 const LS_MV_MAX = 256
-const DIV_LUT_PREC_BITS = 13
+const DIV_LUT_PREC_BITS = 14
 const DIV_LUT_BITS = 8
 
 type TileGroup struct {
-- 
2.43.0


From e1d68a2b09a3ffa60517e2cff7a1aa9a694efe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 064/207] fix: sign of chroma-from-luma alphas

---
 internal/tilegroup/tile_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 3aa382e..8ea8058 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -87,7 +87,7 @@ const UV_CFL_PRED = 13
 const MAX_ANGLE_DELTA = 3
 
 const CFL_SIGN_ZERO = 0
-const CFL_SIGN_NEG = 2
+const CFL_SIGN_NEG = 1
 
 const INTRABC_DELAY_PIXELS = 256
 
-- 
2.43.0


From b7b7264c2170885c09798636c903016e475b156d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:08 +0000
Subject: [PATCH 065/207] fix: value of BLOCK_INVALID

---
 internal/shared/constants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/shared/constants.go b/internal/shared/constants.go
index 3af69c4..9783bf5 100644
--- a/internal/shared/constants.go
+++ b/internal/shared/constants.go
@@ -1,6 +1,6 @@
 package shared
 
-const BLOCK_INVALID = 3
+const BLOCK_INVALID = 22
 const BLOCK_SIZES = 22
 const BLOCK_4X4 = 0
 const BLOCK_4X8 = 1
-- 
2.43.0


From ad8233cdd27a78239dc1551de053a990bb520b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:40 +0000
Subject: [PATCH 066/207] fix: second prediction of compound blocks

---
 internal/tilegroup/predict_inter.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 28f97af..600863b 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -126,7 +126,6 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 			state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = state.MiCols * MI_SIZE
 		}
 
-		var preds [][PRED_SIZE][PRED_SIZE]int
 		if useWarp != 0 {
 			for i8 := 0; i8 <= ((h - 1) >> 3); i8++ {
 				for j8 := 0; j8 <= ((w - 1) >> 3); j8++ {
-- 
2.43.0


From e220fb7664268050893991ad7676e35a0897e4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:43 +0000
Subject: [PATCH 067/207] fix: column of inter predicted samples

---
 internal/tilegroup/predict_inter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 600863b..021b3fd 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -155,19 +155,19 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 	if !isCompound && !t.IsInterIntra {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				state.CurrFrame[plane][y+i][x+i] = util.Clip1(preds[0][i][j], sh.ColorConfig.BitDepth)
+				state.CurrFrame[plane][y+i][x+j] = util.Clip1(preds[0][i][j], sh.ColorConfig.BitDepth)
 			}
 		}
 	} else if t.CompoundType == COMPOUND_AVERAGE {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				state.CurrFrame[plane][y+i][x+i] = util.Clip1(util.Round2(preds[0][i][j]+preds[1][i][j], 1+t.InterPostRound), sh.ColorConfig.BitDepth)
+				state.CurrFrame[plane][y+i][x+j] = util.Clip1(util.Round2(preds[0][i][j]+preds[1][i][j], 1+t.InterPostRound), sh.ColorConfig.BitDepth)
 			}
 		}
 	} else if t.CompoundType == COMPOUND_DISTANCE {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				state.CurrFrame[plane][y+i][x+i] = util.Clip1(util.Round2(t.FwdWeight*preds[0][i][j]+t.BckWeight*preds[1][i][j], 4+t.InterPostRound), sh.ColorConfig.BitDepth)
+				state.CurrFrame[plane][y+i][x+j] = util.Clip1(util.Round2(t.FwdWeight*preds[0][i][j]+t.BckWeight*preds[1][i][j], 4+t.InterPostRound), sh.ColorConfig.BitDepth)
 			}
 		}
 	} else {
-- 
2.43.0


From 8dd82ecda5a0b4782afc6f6bf6384fc3b71e25d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:46 +0000
Subject: [PATCH 068/207] fix: difference weight mask is built from luma only

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 021b3fd..64e495d 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -144,7 +144,7 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 		t.wedgeMaskProcess(w, h, state)
 	} else if t.CompoundType == COMPOUND_INTRA {
 		t.intraModeVariantMaskProcess(w, h)
-	} else if t.CompoundType == COMPOUND_DIFFWTD {
+	} else if t.CompoundType == COMPOUND_DIFFWTD && plane == 0 {
 		t.differenceWeightMaskProcess(preds, w, h, sh)
 	}
 
-- 
2.43.0


From 5cf24a9899ffe0dc325057a3a4e4621ec69581fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:48 +0000
Subject: [PATCH 069/207] fix: warped blocks keep all their 8x8 parts

---
 internal/tilegroup/predict_inter.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 64e495d..71d6f3d 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -75,8 +75,7 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 	if useWarp != 0 {
 		for i8 := 0; i8 <= ((h - 1) >> 3); i8++ {
 			for j8 := 0; j8 <= ((w - 1) >> 3); j8++ {
-				// TODO: what exactly is supposed to happen here
-				preds[refList] = t.blockWarpProcess(useWarp, plane, refList, x, y, i8, j8, w, h, state, uh, sh)
+				preds[refList] = t.blockWarpProcess(useWarp, plane, refList, x, y, i8, j8, w, h, preds[refList], state, uh, sh)
 			}
 		}
 	}
@@ -129,8 +128,7 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 		if useWarp != 0 {
 			for i8 := 0; i8 <= ((h - 1) >> 3); i8++ {
 				for j8 := 0; j8 <= ((w - 1) >> 3); j8++ {
-					// TODO: what exactly is supposed to happen here
-					preds[refList] = t.blockWarpProcess(useWarp, plane, refList, x, y, i8, j8, w, h, state, uh, sh)
+					preds[refList] = t.blockWarpProcess(useWarp, plane, refList, x, y, i8, j8, w, h, preds[refList], state, uh, sh)
 				}
 			}
 		}
@@ -315,9 +313,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 }
 
 // 7.11.3.5 Block warp process
-func (t *TileGroup) blockWarpProcess(useWarp int, plane int, refList int, x int, y int, i8 int, j8 int, w int, h int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) [PRED_SIZE][PRED_SIZE]int {
-	var pred [PRED_SIZE][PRED_SIZE]int
-
+func (t *TileGroup) blockWarpProcess(useWarp int, plane int, refList int, x int, y int, i8 int, j8 int, w int, h int, pred [PRED_SIZE][PRED_SIZE]int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) [PRED_SIZE][PRED_SIZE]int {
 	refIdx := uh.RefFrameIdx[state.RefFrame[refList]-shared.LAST_FRAME]
 	ref := state.FrameStore[refIdx]
 
-- 
2.43.0


From 85f19cd33f3aeb60a326cc929dd4f76dbf6dc425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:51 +0000
Subject: [PATCH 070/207] fix: final rounding of compound predictions

---
 internal/tilegroup/predict_inter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 71d6f3d..951292b 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -195,6 +195,7 @@ func (t *TileGroup) roundVariablesDerivationProcess(isCompound bool, sh sequence
 		t.InterRound1 = t.InterRound1 - 2
 	}
 
+	t.InterPostRound = 14 - (t.InterRound0 + t.InterRound1)
 }
 
 // 7.11.3.3  Motion vector scaling process
-- 
2.43.0


From e0b8c99e314e6676220922e4e80148ef48722621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:54 +0000
Subject: [PATCH 071/207] fix: frame dimensions for intra block copy

---
 internal/state/state.go             |  6 ++---
 internal/tilegroup/predict_inter.go | 34 ++++++++++++++---------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index 301b027..e2441f9 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -55,8 +55,8 @@ type State struct {
 	AvailLChroma              bool
 	RefFrame                  [2]int
 	RefFrames                 [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
-	RefFrameWidth             [shared.NUM_REF_FRAMES]int
-	RefFrameHeight            [shared.NUM_REF_FRAMES]int
+	RefFrameWidth             [shared.NUM_REF_FRAMES + 1]int
+	RefFrameHeight            [shared.NUM_REF_FRAMES + 1]int
 	RefRenderWidth            [shared.NUM_REF_FRAMES]int
 	RefRenderHeight           [shared.NUM_REF_FRAMES]int
 	RefMiCols                 [shared.NUM_REF_FRAMES]int
@@ -64,7 +64,7 @@ type State struct {
 	RefSubsamplingX           [shared.NUM_REF_FRAMES]int
 	RefSubsamplingY           [shared.NUM_REF_FRAMES]int
 	RefBitDepth               [shared.NUM_REF_FRAMES]int
-	RefUpscaledWidth          [8]int
+	RefUpscaledWidth          [shared.NUM_REF_FRAMES + 1]int
 	SavedOrderHints           [shared.NUM_REF_FRAMES][shared.REFS_PER_FRAME + shared.LAST_FRAME]int
 	FrameStore                [shared.NUM_REF_FRAMES][3][16][16]int
 	CurrFrame                 [3][16][16]int
diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 951292b..ed0ca1d 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -58,17 +58,17 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 	if !util.Bool(t.useIntrabc) {
 		refIdx = uh.RefFrameIdx[refFrame-shared.LAST_FRAME]
 	} else {
-		refIdx = -1
-		state.RefFrameWidth[len(state.RefFrameWidth)-1] = uh.FrameWidth
-		state.RefFrameHeight[len(state.RefFrameHeight)-1] = uh.FrameHeight
-		state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = uh.UpscaledWidth
+		refIdx = shared.NUM_REF_FRAMES
+		state.RefFrameWidth[refIdx] = uh.FrameWidth
+		state.RefFrameHeight[refIdx] = uh.FrameHeight
+		state.RefUpscaledWidth[refIdx] = uh.UpscaledWidth
 	}
 	startX, startY, stepX, stepY := t.motionVectorScalingProcess(plane, refIdx, x, y, mv, state, uh, sh)
 
 	if util.Bool(t.useIntrabc) {
-		state.RefFrameWidth[len(state.RefFrameWidth)-1] = state.MiCols * MI_SIZE
-		state.RefFrameHeight[len(state.RefFrameHeight)-1] = state.MiRows * MI_SIZE
-		state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = state.MiCols * MI_SIZE
+		state.RefFrameWidth[refIdx] = state.MiCols * MI_SIZE
+		state.RefFrameHeight[refIdx] = state.MiRows * MI_SIZE
+		state.RefUpscaledWidth[refIdx] = state.MiCols * MI_SIZE
 	}
 
 	var preds [2][PRED_SIZE][PRED_SIZE]int
@@ -111,18 +111,18 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 		if !util.Bool(t.useIntrabc) {
 			refIdx = uh.RefFrameIdx[refFrame-shared.LAST_FRAME]
 		} else {
-			refIdx = -1
-			state.RefFrameWidth[len(state.RefFrameWidth)-1] = uh.FrameWidth
-			state.RefFrameHeight[len(state.RefFrameHeight)-1] = uh.FrameHeight
-			state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = uh.UpscaledWidth
+			refIdx = shared.NUM_REF_FRAMES
+			state.RefFrameWidth[refIdx] = uh.FrameWidth
+			state.RefFrameHeight[refIdx] = uh.FrameHeight
+			state.RefUpscaledWidth[refIdx] = uh.UpscaledWidth
 		}
 
 		startX, startY, stepX, stepY := t.motionVectorScalingProcess(plane, refIdx, x, y, mv, state, uh, sh)
 
 		if util.Bool(t.useIntrabc) {
-			state.RefFrameWidth[len(state.RefFrameWidth)-1] = state.MiCols * MI_SIZE
-			state.RefFrameHeight[len(state.RefFrameHeight)-1] = state.MiRows * MI_SIZE
-			state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = state.MiCols * MI_SIZE
+			state.RefFrameWidth[refIdx] = state.MiCols * MI_SIZE
+			state.RefFrameHeight[refIdx] = state.MiRows * MI_SIZE
+			state.RefUpscaledWidth[refIdx] = state.MiCols * MI_SIZE
 		}
 
 		if useWarp != 0 {
@@ -216,8 +216,8 @@ func (t *TileGroup) motionVectorScalingProcess(plane int, refIdx int, x int, y i
 		panic("bitstream conformance violated: uh.FrameHeight <= 16*t.RefFrameHeight[refIdx]")
 	}
 
-	// TODO: Note: When intra block copy is being used, refIdx will be equal to -1 to signal prediction from the frame currently
-	// being decoded. The arrays RefFrameWidth, RefFrameHeight, and RefUpscaledWidth include values at index -1
+	// When intra block copy is being used, refIdx is equal to NUM_REF_FRAMES to signal prediction from the frame currently
+	// being decoded. The arrays RefFrameWidth, RefFrameHeight, and RefUpscaledWidth include values at that index
 	// giving the dimensions of the current frame.
 	xScale := ((state.RefUpscaledWidth[refIdx] << REF_SCALE_SHIFT) + (uh.FrameWidth / 2)) / uh.FrameWidth
 	yScale := ((state.RefFrameHeight[refIdx] << REF_SCALE_SHIFT) + (uh.FrameHeight / 2)) / uh.FrameHeight
@@ -250,7 +250,7 @@ func (t *TileGroup) motionVectorScalingProcess(plane int, refIdx int, x int, y i
 // 7.11.3.4 Block inter prediction process
 func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y int, xStep int, yStep int, w int, h int, candRow int, candCol int, state *state.State, sh sequenceheader.SequenceHeader) [PRED_SIZE][PRED_SIZE]int {
 	var ref [3][16][16]int
-	if refIdx == -1 {
+	if refIdx == shared.NUM_REF_FRAMES {
 		ref = state.CurrFrame
 	} else {
 		ref = state.FrameStore[refIdx]
-- 
2.43.0


From fd0057eb88d1332c9d6aea6f99d75d19e388b3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:57 +0000
Subject: [PATCH 072/207] fix: sub-sample position of the interpolation filters

---
 internal/tilegroup/predict_inter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index ed0ca1d..5948224 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -283,7 +283,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 			s := 0
 			p := x + xStep*c
 			for t := 0; t < 8; t++ {
-				s += Subpel_Filters[interpFilter][(p>>6)*SUBPEL_MASK][t] * ref[plane][util.Clip3(0, lastY, (y>>10)+r-3)][util.Clip3(0, lastX, (p>>10)+t-3)]
+				s += Subpel_Filters[interpFilter][(p>>6)&SUBPEL_MASK][t] * ref[plane][util.Clip3(0, lastY, (y>>10)+r-3)][util.Clip3(0, lastX, (p>>10)+t-3)]
 			}
 			intermediate[r][c] = util.Round2(s, t.InterRound0)
 		}
@@ -304,7 +304,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 			s := 0
 			p := (y & 1023) + yStep*r
 			for t := 0; t < 8; t++ {
-				s += Subpel_Filters[interpFilter][(p>>6)*SUBPEL_MASK][t] * intermediate[(p>>10)+t][c]
+				s += Subpel_Filters[interpFilter][(p>>6)&SUBPEL_MASK][t] * intermediate[(p>>10)+t][c]
 			}
 			pred[r][c] = util.Round2(s, t.InterRound1)
 		}
-- 
2.43.0


From eec767944bb8a7b49c375199be8c3fe408bb09b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:59 +0000
Subject: [PATCH 073/207] fix: size of the intermediate array of the
 interpolation

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 5948224..c31e390 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -277,7 +277,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 		}
 	}
 
-	var intermediate [8][8]int
+	var intermediate [2*PRED_SIZE + 8][PRED_SIZE]int
 	for r := 0; r < intermediateHeight; r++ {
 		for c := 0; c < w; c++ {
 			s := 0
-- 
2.43.0


From 14d8fa25e3c78f7cc5379de158f2b6b2c57940f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 074/207] fix: intermediate array of the warp filter

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index c31e390..c950c66 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -350,7 +350,7 @@ func (t *TileGroup) blockWarpProcess(useWarp int, plane int, refList int, x int,
 	iy4 := y4 >> shared.WARPEDMODEL_PREC_BITS
 	sy4 := y4 & ((1 << shared.WARPEDMODEL_PREC_BITS) - 1)
 
-	var intermediate [][]int
+	var intermediate [15][8]int
 	for i1 := -7; i1 < 8; i1++ {
 		for i2 := -4; i2 < 4; i2++ {
 			sx := sx4 + alpha*i2 + beta*i1
-- 
2.43.0


From 53839491fa8cad8c8d5bde17755b4c16ef98cf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:05 +0000
Subject: [PATCH 075/207] fix: matrices of the warp estimation

---
 internal/tilegroup/predict_inter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index c950c66..decd3b9 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -435,9 +435,9 @@ func (t *TileGroup) resolveDivisorProcess(d int) (int, int) {
 
 // 7.11.3.8 Warp estimation process
 func (t *TileGroup) warpEstimationProcess(state *state.State) {
-	var A [][]int
-	var Bx []int
-	var By []int
+	var A [2][2]int
+	var Bx [2]int
+	var By [2]int
 	for i := 0; i < 2; i++ {
 		for j := 0; j < 2; j++ {
 			A[i][j] = 0
-- 
2.43.0


From 49100ec51ae4f6383243e43fff1a8be3a2b2f5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 076/207] fix: sums of the warp estimation

---
 internal/tilegroup/predict_inter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index decd3b9..e9cefc0 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -466,11 +466,11 @@ func (t *TileGroup) warpEstimationProcess(state *state.State) {
 		if util.Abs(sx-dx) < LS_MV_MAX && util.Abs(sy-dy) < LS_MV_MAX {
 			A[0][0] += util.LsProduct(sx, sx) + 8
 			A[0][1] += util.LsProduct(sx, sy) + 4
-			A[1][1] += util.LsProduct(sy, sx) + 8
+			A[1][1] += util.LsProduct(sy, sy) + 8
 			Bx[0] += util.LsProduct(sx, dx) + 8
 			Bx[1] += util.LsProduct(sy, dx) + 4
-			Bx[0] += util.LsProduct(sx, dy) + 4
-			Bx[1] += util.LsProduct(sy, dy) + 8
+			By[0] += util.LsProduct(sx, dy) + 4
+			By[1] += util.LsProduct(sy, dy) + 8
 		}
 	}
 
-- 
2.43.0


From 463fa74e276c967b011789336ed8d20a086b602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:09 +0000
Subject: [PATCH 077/207] fix: negative shift of the warp estimation

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index e9cefc0..8a6d961 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -488,7 +488,7 @@ func (t *TileGroup) warpEstimationProcess(state *state.State) {
 	divShift -= shared.WARPEDMODEL_PREC_BITS
 
 	if divShift < 0 {
-		divFactor = divFactor << (divShift)
+		divFactor = divFactor << (-divShift)
 		divShift = 0
 	}
 
-- 
2.43.0


From 7e79298306ca6437654b57a2f959a076a2036a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:12 +0000
Subject: [PATCH 078/207] fix: second column of the estimated warp

---
 internal/tilegroup/predict_inter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 8a6d961..790284d 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -493,9 +493,9 @@ func (t *TileGroup) warpEstimationProcess(state *state.State) {
 	}
 
 	t.LocalWarpParams[2] = t.diag(A[1][1]*Bx[0]-A[0][1]*Bx[1], divFactor, divShift)
-	t.LocalWarpParams[3] = t.nondiag(-A[1][1]*Bx[0]+A[0][0]*Bx[1], divFactor, divShift)
+	t.LocalWarpParams[3] = t.nondiag(-A[0][1]*Bx[0]+A[0][0]*Bx[1], divFactor, divShift)
 	t.LocalWarpParams[4] = t.nondiag(A[1][1]*By[0]-A[0][1]*By[1], divFactor, divShift)
-	t.LocalWarpParams[5] = t.diag(-A[1][1]*By[0]+A[0][0]*By[1], divFactor, divShift)
+	t.LocalWarpParams[5] = t.diag(-A[0][1]*By[0]+A[0][0]*By[1], divFactor, divShift)
 
 	mvx := t.Mv[0][1]
 	mvy := t.Mv[0][0]
-- 
2.43.0


From a1ab2e03be92a78a7da09f1b685c646399936f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:15 +0000
Subject: [PATCH 079/207] fix: vertical offset of the estimated warp

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 790284d..a917740 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -500,7 +500,7 @@ func (t *TileGroup) warpEstimationProcess(state *state.State) {
 	mvx := t.Mv[0][1]
 	mvy := t.Mv[0][0]
 	vx := mvx*(1<<(shared.WARPEDMODEL_PREC_BITS-3)) - (midX*(t.LocalWarpParams[2]-(1<<shared.WARPEDMODEL_PREC_BITS)) + midY*t.LocalWarpParams[3])
-	vy := mvy*(1<<(shared.WARPEDMODEL_PREC_BITS-3)) - (midX * (t.LocalWarpParams[4] + midY + (t.LocalWarpParams[5]) - (1 << shared.WARPEDMODEL_PREC_BITS)))
+	vy := mvy*(1<<(shared.WARPEDMODEL_PREC_BITS-3)) - (midX*t.LocalWarpParams[4] + midY*(t.LocalWarpParams[5]-(1<<shared.WARPEDMODEL_PREC_BITS)))
 
 	t.LocalWarpParams[0] = util.Clip3(-shared.WARPEDMODEL_TRANS_CLAMP, shared.WARPEDMODEL_TRANS_CLAMP-1, vx)
 	t.LocalWarpParams[1] = util.Clip3(-shared.WARPEDMODEL_TRANS_CLAMP, shared.WARPEDMODEL_TRANS_CLAMP-1, vy)
-- 
2.43.0


From 8c661d547d83fb8175dc99e00565c413c8826bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:17 +0000
Subject: [PATCH 080/207] fix: mask of overlapped prediction from above

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index a917740..714a849 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -533,7 +533,7 @@ func (t *TileGroup) overlappedMotionCompensationProcess(plane int, w int, h int,
 					nCount += 1
 					predW := util.Min(w, (step4*MI_SIZE)>>subX)
 					predH := util.Min(h>>1, 32>>subY)
-					mask := util.GetObmcMask(predW)
+					mask := util.GetObmcMask(predH)
 
 					// predict_overlap( )
 					mv := t.Mvs[candRow][candCol][0]
-- 
2.43.0


From 6ba604f7587bfda738cc7aa19074d90d04e4d623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:19 +0000
Subject: [PATCH 081/207] fix: direction of overlapped prediction from the left

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 714a849..4e06b3b 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -557,7 +557,7 @@ func (t *TileGroup) overlappedMotionCompensationProcess(plane int, w int, h int,
 	}
 
 	if state.AvailL {
-		pass := 0
+		pass := 1
 		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
 		x4 := state.MiCol
 		y4 := state.MiRow
-- 
2.43.0


From b1d9842398a4c12503ec3e1412835587cab314cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:22 +0000
Subject: [PATCH 082/207] fix: clipping of masked compound predictions

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 4e06b3b..3fd90b4 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -684,7 +684,7 @@ func (t *TileGroup) maskBlendProcess(preds [2][PRED_SIZE][PRED_SIZE]int, plane i
 			} else {
 				pred0 := preds[0][y][x]
 				pred1 := preds[1][y][x]
-				state.CurrFrame[plane][y+dstY][x+dstX] = util.Round2(m*pred0+(64-m)*pred1, 6+t.InterPostRound)
+				state.CurrFrame[plane][y+dstY][x+dstX] = util.Clip1(util.Round2(m*pred0+(64-m)*pred1, 6+t.InterPostRound), sh.ColorConfig.BitDepth)
 			}
 		}
 	}
-- 
2.43.0


From 5797d19482413d7f1c8d83091d3091a491fc6d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:24 +0000
Subject: [PATCH 083/207] fix: distances of the distance weights

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 3fd90b4..1dbeb11 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -692,7 +692,7 @@ func (t *TileGroup) maskBlendProcess(preds [2][PRED_SIZE][PRED_SIZE]int, plane i
 
 // 7.11.3.15 Distance weights process
 func (t *TileGroup) distanceWeightsProcess(candRow int, candCol int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
-	var dist []int
+	var dist [2]int
 	for refList := 0; refList < 2; refList++ {
 		h := uh.OrderHints[state.RefFrames[candRow][candCol][refList]]
 		dist[refList] = util.Clip3(0, MAX_FRAME_DISTANCE, util.Abs(uh.GetRelativeDist(h, uh.OrderHint, sh)))
-- 
2.43.0


From 7089ec0de7baefebac1597bf8b77a45f993e1009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:27 +0000
Subject: [PATCH 084/207] fix: storage of the blending mask

---
 internal/tilegroup/tile_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 8ea8058..89e9fb6 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -233,7 +233,7 @@ type TileGroup struct {
 	LocalValid      bool
 	LocalWarpParams [6]int
 
-	Mask [][]int
+	Mask [MAX_SB_SIZE][MAX_SB_SIZE]int
 
 	FwdWeight int
 	BckWeight int
-- 
2.43.0


From 2f6cfb12aa682b28ae331ce0fbc2d04aed73d52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:37 +0000
Subject: [PATCH 085/207] fix: master wedge masks

---
 internal/wedgemask/wedge_mask.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/wedgemask/wedge_mask.go b/internal/wedgemask/wedge_mask.go
index 05e3c54..283c08e 100644
--- a/internal/wedgemask/wedge_mask.go
+++ b/internal/wedgemask/wedge_mask.go
@@ -78,7 +78,7 @@ func InitialiseWedgeMaskTable(state *state.State) {
 	w := MASK_MASTER_SIZE
 	h := MASK_MASTER_SIZE
 
-	var MasterMask [][][]int
+	var MasterMask [6][MASK_MASTER_SIZE][MASK_MASTER_SIZE]int
 	for j := 0; j < w; j++ {
 		shift := MASK_MASTER_SIZE / 4
 		for i := 0; i < h; i += 2 {
-- 
2.43.0


From 9a05effc2d5c0d143b6f69ff5f26d5795f465d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:38 +0000
Subject: [PATCH 086/207] fix: block dimensions of the wedge masks

---
 internal/wedgemask/wedge_mask.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/wedgemask/wedge_mask.go b/internal/wedgemask/wedge_mask.go
index 283c08e..75fd298 100644
--- a/internal/wedgemask/wedge_mask.go
+++ b/internal/wedgemask/wedge_mask.go
@@ -102,8 +102,8 @@ func InitialiseWedgeMaskTable(state *state.State) {
 
 	for bsize := shared.BLOCK_8X8; bsize < shared.BLOCK_SIZES; bsize++ {
 		if Wedge_Bits[bsize] > 0 {
-			w := state.BlockWidth[bsize]
-			h := state.BlockHeight[bsize]
+			w := shared.BLOCK_WIDTH[bsize]
+			h := shared.BLOCK_HEIGHT[bsize]
 
 			for wedge := 0; wedge < WEDGE_TYPES; wedge++ {
 				dir := getWedgeDirection(bsize, wedge, state)
-- 
2.43.0


From 13303ab7920d9fd3a5a16bba259b93fcad93117e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:41 +0000
Subject: [PATCH 087/207] fix: sign of the wedge masks

---
 internal/wedgemask/wedge_mask.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/wedgemask/wedge_mask.go b/internal/wedgemask/wedge_mask.go
index 75fd298..27e34fe 100644
--- a/internal/wedgemask/wedge_mask.go
+++ b/internal/wedgemask/wedge_mask.go
@@ -113,7 +113,7 @@ func InitialiseWedgeMaskTable(state *state.State) {
 				for i := 0; i < w; i++ {
 					sum += MasterMask[dir][yoff][xoff+i]
 				}
-				for i := 0; i < h; i++ {
+				for i := 1; i < h; i++ {
 					sum += MasterMask[dir][yoff+i][xoff]
 				}
 				avg := (sum + (w+h-1)/2) / (w + h - 1)
-- 
2.43.0


From 2a48f45eaac8123cbfddd63c7b576ac2e9410dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:44 +0000
Subject: [PATCH 088/207] fix: wedge masks belong to the decoder state

---
 internal/state/state.go             | 1 +
 internal/tilegroup/predict_inter.go | 2 +-
 internal/wedgemask/wedge_mask.go    | 6 ++----
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index e2441f9..d9eaada 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -68,6 +68,7 @@ type State struct {
 	SavedOrderHints           [shared.NUM_REF_FRAMES][shared.REFS_PER_FRAME + shared.LAST_FRAME]int
 	FrameStore                [shared.NUM_REF_FRAMES][3][16][16]int
 	CurrFrame                 [3][16][16]int
+	WedgeMasks                [shared.BLOCK_SIZES][2][16][32][32]int
 	SymbolMaxBits             int
 	SymbolValue               int
 	SymbolRange               int
diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 1dbeb11..046e410 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -617,7 +617,7 @@ func (t *TileGroup) wedgeMaskProcess(w int, h int, state *state.State) {
 	wedgemask.InitialiseWedgeMaskTable(state)
 	for i := 0; i < h; i++ {
 		for j := 0; j < w; j++ {
-			t.Mask[i][j] = wedgemask.WedgeMasks[state.MiSize][t.WedgeSign][t.WedgeIndex][i][j]
+			t.Mask[i][j] = state.WedgeMasks[state.MiSize][t.WedgeSign][t.WedgeIndex][i][j]
 		}
 	}
 }
diff --git a/internal/wedgemask/wedge_mask.go b/internal/wedgemask/wedge_mask.go
index 27e34fe..9ff8855 100644
--- a/internal/wedgemask/wedge_mask.go
+++ b/internal/wedgemask/wedge_mask.go
@@ -72,8 +72,6 @@ var Wedge_Codebook = [][][]int{
 	},
 }
 
-var WedgeMasks = [][][][][]int{}
-
 func InitialiseWedgeMaskTable(state *state.State) {
 	w := MASK_MASTER_SIZE
 	h := MASK_MASTER_SIZE
@@ -120,8 +118,8 @@ func InitialiseWedgeMaskTable(state *state.State) {
 				flipSign := avg < 32
 				for i := 0; i < h; i++ {
 					for j := 0; j < w; j++ {
-						WedgeMasks[bsize][util.Int(flipSign)][wedge][i][j] = MasterMask[dir][yoff+i][xoff+j]
-						WedgeMasks[bsize][util.Int(!flipSign)][wedge][i][j] = 64 - MasterMask[dir][yoff+i][xoff+j]
+						state.WedgeMasks[bsize][util.Int(flipSign)][wedge][i][j] = MasterMask[dir][yoff+i][xoff+j]
+						state.WedgeMasks[bsize][util.Int(!flipSign)][wedge][i][j] = 64 - MasterMask[dir][yoff+i][xoff+j]
 					}
 				}
 			}
-- 
2.43.0


From 88f8efb08eeb238229ca16ab54278040978a48e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:46 +0000
Subject: [PATCH 089/207] fix: prediction covers the whole block

---
 internal/tilegroup/compute_prediction.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/compute_prediction.go b/internal/tilegroup/compute_prediction.go
index 136bcbb..65e6529 100644
--- a/internal/tilegroup/compute_prediction.go
+++ b/internal/tilegroup/compute_prediction.go
@@ -77,9 +77,9 @@ func (t *TileGroup) computePrediction(state *state.State, sh sequenceheader.Sequ
 				candCol = state.MiCol
 			}
 			r := 0
-			for y := 0; y < num4x4H; y += predH {
+			for y := 0; y < num4x4H*4; y += predH {
 				c := 0
-				for x := 0; x < num4x4W; x += predW {
+				for x := 0; x < num4x4W*4; x += predW {
 					t.predictInter(plane, baseX+x, baseY+y, predW, predH, candRow+r, candCol+c, state, uh, sh)
 				}
 			}
-- 
2.43.0


From 50aca497abaf4db3a1573f3b0ec23f53278ab6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:48 +0000
Subject: [PATCH 090/207] fix: candidate position of chroma sub-blocks

---
 internal/tilegroup/compute_prediction.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tilegroup/compute_prediction.go b/internal/tilegroup/compute_prediction.go
index 65e6529..2ab0321 100644
--- a/internal/tilegroup/compute_prediction.go
+++ b/internal/tilegroup/compute_prediction.go
@@ -81,7 +81,9 @@ func (t *TileGroup) computePrediction(state *state.State, sh sequenceheader.Sequ
 				c := 0
 				for x := 0; x < num4x4W*4; x += predW {
 					t.predictInter(plane, baseX+x, baseY+y, predW, predH, candRow+r, candCol+c, state, uh, sh)
+					c++
 				}
+				r++
 			}
 		}
 	}
-- 
2.43.0


From 99d58230a9a1cb4614751c3721bf0bb2325660f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:52 +0000
Subject: [PATCH 091/207] fix: 64x64 chunks of large blocks

---
 internal/state/state.go        | 2 --
 internal/tilegroup/residual.go | 4 ++--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index d9eaada..a70c6e6 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -29,8 +29,6 @@ type State struct {
 	MiColEnd          int
 	MiRowStart        int
 	MiRowEnd          int
-	BlockWidth        [shared.MAX_TILE_ROWS]int
-	BlockHeight       [shared.MAX_TILE_COLS]int
 
 	SeenFrameHeader bool
 	RenderWidth     int
diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 4e93f38..32ff07e 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -11,8 +11,8 @@ import (
 
 // residual( )
 func (t *TileGroup) residual(sh sequenceheader.SequenceHeader, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
-	widthChunks := util.Max(1, state.BlockWidth[state.MiSize]>>6)
-	heightChunks := util.Max(1, state.BlockHeight[state.MiSize]>>6)
+	widthChunks := util.Max(1, shared.BLOCK_WIDTH[state.MiSize]>>6)
+	heightChunks := util.Max(1, shared.BLOCK_HEIGHT[state.MiSize]>>6)
 
 	miSizeChunk := state.MiSize
 	if widthChunks > 1 || heightChunks > 1 {
-- 
2.43.0


From 4ac47f5953be72d508f0a6ef194fcd9781e08764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:54 +0000
Subject: [PATCH 092/207] fix: column of a transform block

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 32ff07e..7b2422a 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -94,7 +94,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 	}
 
 	row := (startY << subY) >> shared.MI_SIZE_LOG2
-	col := (startY << subY) >> shared.MI_SIZE_LOG2
+	col := (startX << subX) >> shared.MI_SIZE_LOG2
 
 	sbMask := 15
 	if sh.Use128x128SuperBlock {
-- 
2.43.0


From c1e6081f9bf0d27241adca5e6a80183c110653a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:57 +0000
Subject: [PATCH 093/207] fix: position inside 128x128 superblocks

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 7b2422a..830b3a4 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -98,7 +98,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 
 	sbMask := 15
 	if sh.Use128x128SuperBlock {
-		sbMask = 21
+		sbMask = 31
 	}
 
 	subBlockMiRow := row & sbMask
-- 
2.43.0


From 053a650fefb8584377947cf20509f530f870b59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:00 +0000
Subject: [PATCH 094/207] fix: availability of neighbours for intra prediction

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 830b3a4..6f6faf8 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -132,7 +132,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 
 			conditionL := state.AvailL
 			conditionU := state.AvailU
-			if plane == 0 {
+			if plane > 0 {
 				conditionL = state.AvailLChroma
 				conditionU = state.AvailUChroma
 			}
-- 
2.43.0


From cab589d8700616007011f515b46c2c7856f6917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:02 +0000
Subject: [PATCH 095/207] fix: area marked by a transform block

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 6f6faf8..b87de9e 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -183,7 +183,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 	}
 
 	for i := 0; i < stepY; i++ {
-		for j := 0; j < stepY; j++ {
+		for j := 0; j < stepX; j++ {
 			t.LoopFilterTxSizes[plane][(row>>subY)+i][(col>>subX + j)] = txSz
 			state.BlockDecoded[plane][(subBlockMiRow>>subY)+i][(subBlockMiCol>>subX)+j] = true
 		}
-- 
2.43.0


From 39bf8f8c96bda12cc28927ef7b14660208809d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 096/207] fix: flags of decoded blocks

---
 internal/state/state.go                  |  2 +-
 internal/tilegroup/compute_prediction.go |  2 +-
 internal/tilegroup/residual.go           | 20 ++++++--------------
 internal/tilegroup/tile_group.go         | 17 ++++-------------
 4 files changed, 12 insertions(+), 29 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index a70c6e6..af1d78d 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -44,7 +44,7 @@ type State struct {
 	ReadDeltas      bool
 	Cdef            cdef.Cdef
 
-	BlockDecoded              [3][13][13]bool
+	BlockDecoded              [3][35][35]bool
 	FrameRestorationType      []int
 	LoopRestorationSize       [3]int
 	AvailU                    bool
diff --git a/internal/tilegroup/compute_prediction.go b/internal/tilegroup/compute_prediction.go
index 2ab0321..e3c8bce 100644
--- a/internal/tilegroup/compute_prediction.go
+++ b/internal/tilegroup/compute_prediction.go
@@ -54,7 +54,7 @@ func (t *TileGroup) computePrediction(state *state.State, sh sequenceheader.Sequ
 				haveLeft = state.AvailL
 				haveAbove = state.AvailU
 			}
-			t.predictIntra(plane, baseX, baseY, haveLeft, haveAbove, state.BlockDecoded[plane][(subBlockMiRow>>subY)-1][(subBlockMiCol>>subX)+num4x4W], state.BlockDecoded[plane][(subBlockMiRow>>subY)+num4x4H][(subBlockMiCol>>subX)-1], mode, log2W, log2H, state, sh)
+			t.predictIntra(plane, baseX, baseY, haveLeft, haveAbove, state.BlockDecoded[plane][subBlockMiRow>>subY][(subBlockMiCol>>subX)+num4x4W+1], state.BlockDecoded[plane][(subBlockMiRow>>subY)+num4x4H+1][subBlockMiCol>>subX], mode, log2W, log2H, state, sh)
 		}
 
 		if util.Bool(t.IsInter) {
diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index b87de9e..4811472 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -137,19 +137,11 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 				conditionU = state.AvailUChroma
 			}
 
-			// this assumes negative indeces are intended
-			x1 := (subBlockMiCol >> subX) + stepX
-			x2 := (subBlockMiCol >> subX) - 1
-			y1 := (subBlockMiRow >> subY) + stepY
-			y2 := (subBlockMiRow >> subY) - 1
-
-			if x2 < 0 {
-				x2 = len(state.BlockDecoded[plane][y1]) + x2
-			}
-
-			if y2 < 0 {
-				y2 = len(state.BlockDecoded[plane]) + y2
-			}
+			// BlockDecoded stores the position -1 at index 0
+			x1 := (subBlockMiCol >> subX) + stepX + 1
+			x2 := subBlockMiCol >> subX
+			y1 := (subBlockMiRow >> subY) + stepY + 1
+			y2 := subBlockMiRow >> subY
 
 			t.predictIntra(
 				plane,
@@ -185,7 +177,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 	for i := 0; i < stepY; i++ {
 		for j := 0; j < stepX; j++ {
 			t.LoopFilterTxSizes[plane][(row>>subY)+i][(col>>subX + j)] = txSz
-			state.BlockDecoded[plane][(subBlockMiRow>>subY)+i][(subBlockMiCol>>subX)+j] = true
+			state.BlockDecoded[plane][(subBlockMiRow>>subY)+i+1][(subBlockMiCol>>subX)+j+1] = true
 		}
 	}
 }
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 89e9fb6..37f2f64 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -862,25 +862,16 @@ func (t *TileGroup) clearBlockDecodedFlags(r int, c int, sbSize4 int, state *sta
 
 		for y := -1; y <= (sbSize4 >> subY); y++ {
 			for x := -1; x <= (sbSize4 >> subX); x++ {
-				if y < 0 {
-					y = len(state.BlockDecoded[plane]) + y
-				}
-
-				if x < 0 {
-					x = len(state.BlockDecoded[plane][y]) + x
-				}
-
 				if y < 0 && x < sbWidth4 {
-					state.BlockDecoded[plane][y][x] = true
+					state.BlockDecoded[plane][y+1][x+1] = true
 				} else if x < 0 && y < sbHeight4 {
-					state.BlockDecoded[plane][y][x] = true
+					state.BlockDecoded[plane][y+1][x+1] = true
 				} else {
-					state.BlockDecoded[plane][y][x] = false
+					state.BlockDecoded[plane][y+1][x+1] = false
 				}
 			}
 		}
-		lastElement := len(state.BlockDecoded[plane][sbSize4>>subY]) - 1
-		state.BlockDecoded[plane][sbSize4>>subY][lastElement] = false
+		state.BlockDecoded[plane][(sbSize4>>subY)+1][0] = false
 	}
 
 }
-- 
2.43.0


From dde978b569dc99107637bdfa1152146aa59be6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 097/207] fix: size of the cleared decoded-block flags

---
 internal/tilegroup/tile_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 37f2f64..2d24a1c 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -836,7 +836,7 @@ func (t *TileGroup) decodeTile(b *bitstream.BitStream, state *state.State, sh se
 		for c := state.MiColStart; c < state.MiColEnd; c += sbSize4 {
 			state.ReadDeltas = uh.DeltaQPresent
 			state.Cdef.ClearCdef(r, c, sh.Use128x128SuperBlock, state.CdefSize4)
-			t.clearBlockDecodedFlags(r, c, sbSize, state, sh)
+			t.clearBlockDecodedFlags(r, c, sbSize4, state, sh)
 			t.readLr(r, c, sbSize, b, state, uh, sh)
 			t.decodePartition(r, c, sbSize, b, state, sh, uh)
 		}
-- 
2.43.0


From 2de10f5cce2ef45c552958dd292d490d30d7578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:11 +0000
Subject: [PATCH 098/207] fix: chroma-from-luma alpha of the U plane

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 4811472..a705468 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -216,7 +216,7 @@ func (t *TileGroup) predictChromaFromLuma(plane int, startX int, startY int, txS
 	subX := util.Int(sh.ColorConfig.SubsamplingX)
 	subY := util.Int(sh.ColorConfig.SubsamplingY)
 	var alpha int
-	if plane == 0 {
+	if plane == 1 {
 		alpha = t.CflAlphaU
 	} else {
 		alpha = t.CflAlphaV
-- 
2.43.0


From 1b1237e0920174c86d2b646ff4b1593d1de69b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:13 +0000
Subject: [PATCH 099/207] fix: colour map of chroma palettes

---
 internal/tilegroup/residual.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index a705468..2bda73f 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -200,6 +200,8 @@ func (t *TileGroup) palettePrediction(plane int, startX int, startY int, x int,
 	var mapp [][]int
 	if plane == 0 {
 		mapp = t.ColorMapY
+	} else {
+		mapp = t.ColorMapUV
 	}
 
 	for i := 0; i < h; i++ {
-- 
2.43.0


From 7a858c0aaa77180db806a4bb726852e671ded899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:16 +0000
Subject: [PATCH 100/207] fix: storage of the colour maps

---
 internal/tilegroup/palette_tokens.go | 4 ++--
 internal/tilegroup/residual.go       | 2 +-
 internal/tilegroup/tile_group.go     | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/tilegroup/palette_tokens.go b/internal/tilegroup/palette_tokens.go
index 2e0c084..3602bc9 100644
--- a/internal/tilegroup/palette_tokens.go
+++ b/internal/tilegroup/palette_tokens.go
@@ -76,8 +76,8 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 }
 
 // get_palette_color_context( colorMap, r, c, n )
-func (t *TileGroup) getPaletteColorContext(colorMap [][]int, r int, c int, n int) {
-	var scores []int
+func (t *TileGroup) getPaletteColorContext(colorMap [64][64]int, r int, c int, n int) {
+	var scores [PALETTE_COLORS]int
 	for i := 0; i < PALETTE_COLORS; i++ {
 		scores[i] = 0
 		t.ColorOrder[i] = i
diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 2bda73f..141f083 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -197,7 +197,7 @@ func (t *TileGroup) palettePrediction(plane int, startX int, startY int, x int,
 	}
 
 	// map is a reserved keyword
-	var mapp [][]int
+	var mapp [64][64]int
 	if plane == 0 {
 		mapp = t.ColorMapY
 	} else {
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 2d24a1c..7f10f3d 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -200,9 +200,9 @@ type TileGroup struct {
 
 	MaskType int
 
-	ColorMapY        [][]int
-	ColorMapUV       [][]int
-	ColorOrder       []int
+	ColorMapY        [64][64]int
+	ColorMapUV       [64][64]int
+	ColorOrder       [PALETTE_COLORS]int
 	ColorContextHash int
 
 	InterTxSizes [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
-- 
2.43.0


From 1f89f0c3e2fa64b97d403f8a95b202b0a315210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:19 +0000
Subject: [PATCH 101/207] fix: weight of the colour above

---
 internal/tilegroup/palette_tokens.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette_tokens.go b/internal/tilegroup/palette_tokens.go
index 3602bc9..e57b185 100644
--- a/internal/tilegroup/palette_tokens.go
+++ b/internal/tilegroup/palette_tokens.go
@@ -95,7 +95,7 @@ func (t *TileGroup) getPaletteColorContext(colorMap [64][64]int, r int, c int, n
 	}
 	if r > 0 {
 		neighbor = colorMap[r-1][c]
-		scores[neighbor] += 1
+		scores[neighbor] += 2
 	}
 
 	for i := 0; i < PALETTE_NUM_NEIGHBORS; i++ {
-- 
2.43.0


From a5dc8b7e3ee50abb080a324d632ccd33d775fe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 102/207] fix: height of the chroma colour map

---
 internal/tilegroup/palette_tokens.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette_tokens.go b/internal/tilegroup/palette_tokens.go
index e57b185..4745caf 100644
--- a/internal/tilegroup/palette_tokens.go
+++ b/internal/tilegroup/palette_tokens.go
@@ -43,7 +43,7 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 		t.ColorMapUV[0][0] = colorIndexMapUv
 		blockHeight = blockHeight >> util.Int(sh.ColorConfig.SubsamplingY)
 		blockWidth = blockWidth >> util.Int(sh.ColorConfig.SubsamplingX)
-		onscreenHeight = onscreenHeight >> util.Int(sh.ColorConfig.SubsamplingX)
+		onscreenHeight = onscreenHeight >> util.Int(sh.ColorConfig.SubsamplingY)
 		onscreenWidth = onscreenWidth >> util.Int(sh.ColorConfig.SubsamplingX)
 
 		if blockWidth < 4 {
-- 
2.43.0


From 120300bc35abc16698247497fdd35fcc37d40d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:23 +0000
Subject: [PATCH 103/207] fix: wide filter stores its result

---
 internal/tilegroup/loop_filter_process.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 96ee525..f173fe2 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -371,7 +371,7 @@ func (t *TileGroup) wideFilter(x int, y int, plane int, dx int, dy int, log2Size
 		n2 = 1
 	}
 
-	var F []int
+	var F [12]int
 	for i := -n; i < n; i++ {
 		t := 0
 		for j := -n; j <= n; j++ {
@@ -384,9 +384,9 @@ func (t *TileGroup) wideFilter(x int, y int, plane int, dx int, dy int, log2Size
 			}
 			t += state.CurrFrame[plane][y+p*dy][x+p*dx] * tap
 		}
-		F[i] = util.Round2(t, log2Size)
+		F[i+n] = util.Round2(t, log2Size)
 	}
 	for i := -n; i < n; i++ {
-		state.CurrFrame[plane][y+i*dy][x+i*dx] = F[i]
+		state.CurrFrame[plane][y+i*dy][x+i*dx] = F[i+n]
 	}
 }
-- 
2.43.0


From 6812a31b8137e9973e4410b59119a1882021b0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:26 +0000
Subject: [PATCH 104/207] fix: extra candidates of compound blocks

---
 internal/tilegroup/find_mv_stack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 5e67198..fee730d 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -590,7 +590,7 @@ func (t *TileGroup) extraSearchProcess(isCompound bool, state *state.State, uh u
 		}
 	}
 
-	var combinedMvs [][][2]int
+	var combinedMvs [2][2][2]int
 	if isCompound {
 		for list := 0; list < 2; list++ {
 			compCount := 0
-- 
2.43.0


From 61c1a50893ea46bb5df32fc7c537807934217496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:29 +0000
Subject: [PATCH 105/207] fix: storage of the warp samples

---
 internal/tilegroup/inter_block_mode_info.go | 2 +-
 internal/tilegroup/tile_group.go            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 9c49f11..2f979f0 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -375,7 +375,7 @@ func (t *TileGroup) addSample(deltaRow int, deltaCol int, state *state.State) {
 	mvDiffCol := util.Abs(t.Mvs[candRow][candCol][0][1] - t.Mv[0][1])
 	valid := (mvDiffRow + mvDiffCol) <= threshold
 
-	var cand []int
+	var cand [4]int
 	cand[0] = midY * 8
 	cand[1] = midX * 8
 	cand[2] = midY*8 + t.Mvs[candRow][candCol][0][0]
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 7f10f3d..aa13b6f 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -196,7 +196,7 @@ type TileGroup struct {
 
 	NumSamples        int
 	NumSamplesScanned int
-	CandList          [][]int
+	CandList          [LEAST_SQUARES_SAMPLES_MAX][4]int
 
 	MaskType int
 
-- 
2.43.0


From 63bcdc16b369d9af9ed6e336b1a8713b5fbbbfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:31 +0000
Subject: [PATCH 106/207] fix: invalid warp samples are dropped

---
 internal/tilegroup/inter_block_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 2f979f0..08e8697 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -382,7 +382,7 @@ func (t *TileGroup) addSample(deltaRow int, deltaCol int, state *state.State) {
 	cand[3] = midX*8 + t.Mvs[candRow][candCol][0][1]
 
 	t.NumSamplesScanned++
-	if valid && t.NumSamplesScanned > 1 {
+	if !valid && t.NumSamplesScanned > 1 {
 		return
 	}
 
-- 
2.43.0


From d7613b69d4ecea3046a5dd1b6eef046cae15c23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:34 +0000
Subject: [PATCH 107/207] fix: symmetry of the Wiener filter

---
 internal/tilegroup/loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index a4d4e0e..0e01106 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -263,7 +263,7 @@ func (t *TileGroup) wienerCoefficient(coeff [3]int) [7]int {
 	for i := 0; i < 3; i++ {
 		c := coeff[i]
 		filter[i] = c
-		filter[6-1] = c
+		filter[6-i] = c
 		filter[3] -= 2 * c
 	}
 
-- 
2.43.0


From 6799f1e65da63cfcc7b578069cee9c8e5acff7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:37 +0000
Subject: [PATCH 108/207] fix: restoration unit of a column

---
 internal/tilegroup/loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index 0e01106..8151259 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -51,7 +51,7 @@ func (t *TileGroup) loopRestoreBlock(plane int, row int, col int, state *state.S
 	unitCols := util.CountUnitsInFrame(unitSize, util.Round2(uh.UpscaledWidth, subX))
 
 	unitRow := util.Min(unitRows-1, ((row*MI_SIZE+8)>>subY)/unitSize)
-	unitCol := util.Min(unitCols-1, ((col*MI_SIZE+8)>>subX)/unitSize)
+	unitCol := util.Min(unitCols-1, ((col*MI_SIZE)>>subX)/unitSize)
 
 	t.PlaneEndX = util.Round2(uh.UpscaledWidth, subX) - 1
 	t.PlaneEndY = util.Round2(uh.FrameHeight, subY) - 1
-- 
2.43.0


From 181214f5acc345686eb50e817a546a082d2b0229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:40 +0000
Subject: [PATCH 109/207] fix: intermediate array of the Wiener filter

---
 internal/tilegroup/loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index 8151259..fc58eba 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -233,7 +233,7 @@ func (tg *TileGroup) wienerFilter(plane int, unitRow int, unitCol int, x int, y
 	offset := (1 << (sh.ColorConfig.BitDepth + FILTER_BITS - tg.InterRound0 - 1))
 	limit := (1 << (sh.ColorConfig.BitDepth + 1 + FILTER_BITS - tg.InterRound0)) - 1
 
-	var intermediate [][]int
+	var intermediate [MI_SIZE + 6][MI_SIZE]int
 	for r := 0; r < h+6; r++ {
 		for c := 0; c < w; c++ {
 			s := 0
-- 
2.43.0


From 31a3d7fed080250bda70522ce35307d8c6f1931e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:43 +0000
Subject: [PATCH 110/207] fix: arrays of the box filter

---
 internal/tilegroup/loop_restoration.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index fc58eba..25632b3 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -104,11 +104,11 @@ func (t *TileGroup) selfGuidedFilter(plane int, unitRow int, unitCol int, x int,
 }
 
 // 7.17.3. Box filter process
-func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pass bool, state *state.State, sh sequenceheader.SequenceHeader) [1][1]int {
+func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pass bool, state *state.State, sh sequenceheader.SequenceHeader) [MI_SIZE][MI_SIZE]int {
 
 	r := SGR_PARAMS[set][util.Int(pass)*2+0]
 	if r == 0 {
-		return [1][1]int{}
+		return [MI_SIZE][MI_SIZE]int{}
 	}
 
 	eps := SGR_PARAMS[set][util.Int(pass)*2+1]
@@ -117,7 +117,7 @@ func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pa
 	n2e := n * n * eps
 	s := (((1 << SGRPROJ_MTABLE_BITS) + n2e/2) / n2e)
 
-	var A, B [3][3]int
+	var A, B [MI_SIZE + 2][MI_SIZE + 2]int
 	for i := -1; i < h+1; i++ {
 		for j := -1; j < w+1; j++ {
 			a := 0
@@ -162,7 +162,7 @@ func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pa
 		}
 	}
 
-	var F [1][1]int
+	var F [MI_SIZE][MI_SIZE]int
 	for i := 0; i < h; i++ {
 		shift := 5
 		if !pass && util.Bool(i&1) {
-- 
2.43.0


From 610667a4c17efe248b9f6fa385b372fab1192f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:24 +0000
Subject: [PATCH 111/207] fix: row above the predicted block

---
 internal/tilegroup/predict_intra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index b026a4c..b589161 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -15,7 +15,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 	maxX := (state.MiCols * MI_SIZE) - 1
 	maxY := (state.MiRows * MI_SIZE) - 1
 
-	yMinusOne := y
+	yMinusOne := y - 1
 	if y-1 == -1 {
 		yMinusOne = len(state.CurrFrame[plane]) - 1
 	}
-- 
2.43.0


From ab70846ca4450f42fceb66b909e842ac43bbf482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:27 +0000
Subject: [PATCH 112/207] fix: length of the prediction edges

---
 internal/tilegroup/predict_intra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index b589161..6ee43ee 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -25,7 +25,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 		maxY = ((state.MiRows * MI_SIZE) >> util.Int(sh.ColorConfig.SubsamplingY)) - 1
 	}
 
-	for i := 0; i < w+h-1; i++ {
+	for i := 0; i < w+h; i++ {
 		if util.Int(haveAbove) == 0 && util.Int(haveLeft) == 1 {
 			if x-1 == -1 {
 				t.AboveRow[i] = state.CurrFrame[plane][y][len(state.CurrFrame[plane][y])-1]
@@ -44,7 +44,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 		}
 	}
 
-	for i := 0; i < w+h-1; i++ {
+	for i := 0; i < w+h; i++ {
 		if util.Int(haveLeft) == 0 && util.Int(haveAbove) == 1 {
 			t.LeftCol[i] = state.CurrFrame[plane][yMinusOne][x]
 		} else if util.Int(haveLeft) == 0 && util.Int(haveAbove) == 0 {
-- 
2.43.0


From f99d2a5a152f02846c080bfca7fa5e21f6ad9b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 113/207] fix: column to the left of the predicted block

---
 internal/tilegroup/predict_intra.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 6ee43ee..cf8f532 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -48,7 +48,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 		if util.Int(haveLeft) == 0 && util.Int(haveAbove) == 1 {
 			t.LeftCol[i] = state.CurrFrame[plane][yMinusOne][x]
 		} else if util.Int(haveLeft) == 0 && util.Int(haveAbove) == 0 {
-			t.AboveRow[i] = (1 << (sh.ColorConfig.BitDepth - 1)) + 1
+			t.LeftCol[i] = (1 << (sh.ColorConfig.BitDepth - 1)) + 1
 
 		} else {
 			leftLimit := util.Min(maxY, y+h-1)
@@ -57,9 +57,9 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 			}
 
 			if x-1 == -1 {
-				t.AboveRow[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][len(state.CurrFrame[plane][util.Min(leftLimit, y+i)])-1]
+				t.LeftCol[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][len(state.CurrFrame[plane][util.Min(leftLimit, y+i)])-1]
 			} else {
-				t.AboveRow[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][x-1]
+				t.LeftCol[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][x-1]
 			}
 		}
 	}
-- 
2.43.0


From 215de4582a9f3603ff03ce646ceb6ada07ca9976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:33 +0000
Subject: [PATCH 114/207] fix: size of the predicted block

---
 internal/tilegroup/predict_intra.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index cf8f532..4f48cff 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -86,7 +86,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 
 	t.LeftCol[len(t.LeftCol)-1] = t.AboveRow[len(t.AboveRow)-1]
 
-	var pred [15][15]int
+	var pred [64][64]int
 	if plane == 0 && t.UseFilterIntra {
 		pred = t.recursiveIntraPredictionProcess(w, h, sh)
 	} else if t.isDirectionalMode(mode) {
@@ -107,8 +107,8 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 }
 
 // 7.11.2.2 Basic intra prediction process
-func (t *TileGroup) basicIntraPredictionProcess(w int, h int) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) basicIntraPredictionProcess(w int, h int) [64][64]int {
+	var pred [64][64]int
 
 	for i := 0; i < h; i++ {
 		for j := 0; j < w; j++ {
@@ -131,10 +131,10 @@ func (t *TileGroup) basicIntraPredictionProcess(w int, h int) [15][15]int {
 }
 
 // 7.11.2.3. Recursive intra prediction process
-func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequenceheader.SequenceHeader) [15][15]int {
+func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequenceheader.SequenceHeader) [64][64]int {
 	w4 := w >> 2
 	h2 := h >> 1
-	var pred [15][15]int
+	var pred [64][64]int
 	for i2 := 0; i2 <= h2-1; i2++ {
 		for j4 := 0; j4 <= w4-1; j4++ {
 			var p []int
@@ -175,8 +175,8 @@ func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequencehea
 }
 
 // 7.11.2.4. Directional intra prediction process
-func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, haveLeft int, haveAbove int, mode int, w int, h int, maxX int, maxY int, state *state.State, sh sequenceheader.SequenceHeader) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, haveLeft int, haveAbove int, mode int, w int, h int, maxX int, maxY int, state *state.State, sh sequenceheader.SequenceHeader) [64][64]int {
+	var pred [64][64]int
 
 	angleDelta := t.AngleDeltaUV
 	if plane == 0 {
@@ -325,8 +325,8 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 }
 
 // 7.11.2.5 DC intra prediction process
-func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2W int, log2H int, w int, h int, sh sequenceheader.SequenceHeader) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2W int, log2H int, w int, h int, sh sequenceheader.SequenceHeader) [64][64]int {
+	var pred [64][64]int
 	if haveLeft && haveAbove {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
@@ -367,8 +367,8 @@ func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2
 }
 
 // 7.11.2.6 Smooth intra prediction process
-func (t *TileGroup) smoothIntraPredictionProcess(mode int, log2W int, log2H int, w int, h int) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) smoothIntraPredictionProcess(mode int, log2W int, log2H int, w int, h int) [64][64]int {
+	var pred [64][64]int
 	if mode == SMOOTH_PRED {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-- 
2.43.0


From d9343967ff75acee9ffc1c46e1644a40cbe4c127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:36 +0000
Subject: [PATCH 115/207] fix: neighbours of the recursive filter prediction

---
 internal/tilegroup/predict_intra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 4f48cff..33adf1f 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -137,7 +137,7 @@ func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequencehea
 	var pred [64][64]int
 	for i2 := 0; i2 <= h2-1; i2++ {
 		for j4 := 0; j4 <= w4-1; j4++ {
-			var p []int
+			var p [7]int
 			for i := 0; i <= 6; i++ {
 				if i < 5 {
 					if i2 == 0 {
-- 
2.43.0


From 18fa360aa16a64fad1381b626575d0656485d374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:39 +0000
Subject: [PATCH 116/207] fix: negative positions of the prediction edges

---
 internal/tilegroup/predict_intra.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 33adf1f..4ce81c7 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -7,6 +7,11 @@ import (
 	"github.com/m4tthewde/gov1/internal/util"
 )
 
+// edgeIndex returns where AboveRow and LeftCol store position i: negative positions are kept at the end
+func edgeIndex(i int) int {
+	return i & 32767
+}
+
 // 7.11.2 Intra prediction process
 // predict_intra( plane, x, y, haveLeft, haveAbove, haveAboveRight, haveBelowLeft, mode, log2W, log2H )
 func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbove bool, haveAboveRight bool, haveBelowLeft bool, mode int, log2W int, log2H int, state *state.State, sh sequenceheader.SequenceHeader) {
@@ -141,7 +146,7 @@ func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequencehea
 			for i := 0; i <= 6; i++ {
 				if i < 5 {
 					if i2 == 0 {
-						p[i] = t.AboveRow[(j4<<2)+i-1]
+						p[i] = t.AboveRow[edgeIndex((j4<<2)+i-1)]
 					} else if j4 == 0 && i == 0 {
 						p[i] = t.LeftCol[(i2<<1)-1]
 					} else {
@@ -281,18 +286,13 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 
 				if base >= -(1 << util.Int(upsampleAbove)) {
 					shift := ((idx << util.Int(upsampleAbove)) >> 1) & 0x1F
-					pred[i][j] = util.Round2(t.AboveRow[base]*(32-shift)+t.AboveRow[base+1]*shift, 5)
+					pred[i][j] = util.Round2(t.AboveRow[edgeIndex(base)]*(32-shift)+t.AboveRow[edgeIndex(base+1)]*shift, 5)
 				} else {
 					idx = (i << 6) - (j+1)*dy
 					base = idx >> (6 - util.Int(upsampleLeft))
 					shift := ((idx << util.Int(upsampleLeft)) >> 1) & 0x1F
 
-					// handle negative indezes
-					if base < 0 {
-						pred[i][j] = util.Round2(t.LeftCol[len(t.LeftCol)+base]*(32-shift)+t.LeftCol[base+1]*shift, 5)
-					} else {
-						pred[i][j] = util.Round2(t.LeftCol[base]*(32-shift)+t.LeftCol[base+1]*shift, 5)
-					}
+					pred[i][j] = util.Round2(t.LeftCol[edgeIndex(base)]*(32-shift)+t.LeftCol[edgeIndex(base+1)]*shift, 5)
 				}
 			}
 		}
@@ -595,7 +595,7 @@ func (t *TileGroup) intraEdgeUpsampleProcess(numPx int, dir bool, sh sequencehea
 	var dup []int
 	dup[0] = buf[len(buf)-1]
 	for i := -1; i < numPx; i++ {
-		dup[i+2] = buf[i]
+		dup[i+2] = buf[edgeIndex(i)]
 	}
 	dup[numPx+2] = buf[numPx-1]
 
@@ -603,7 +603,7 @@ func (t *TileGroup) intraEdgeUpsampleProcess(numPx int, dir bool, sh sequencehea
 	for i := 0; i < numPx; i++ {
 		s := -dup[i] + (9 * dup[i+1]) + (9 * dup[i+2]) - dup[i+3]
 		s = util.Clip1(util.Round2(s, 4), sh.ColorConfig.BitDepth)
-		buf[2*i-1] = s
+		buf[edgeIndex(2*i-1)] = s
 		buf[2*i] = dup[i+2]
 	}
 }
@@ -617,9 +617,9 @@ func (t *TileGroup) intraEdgeFilterProcess(sz int, strength int, left int) {
 	var edge []int
 	for i := 0; i < sz; i++ {
 		if util.Bool(left) {
-			edge[i] = t.LeftCol[i-1]
+			edge[i] = t.LeftCol[edgeIndex(i-1)]
 		} else {
-			edge[i] = t.AboveRow[i-1]
+			edge[i] = t.AboveRow[edgeIndex(i-1)]
 		}
 	}
 
@@ -629,10 +629,10 @@ func (t *TileGroup) intraEdgeFilterProcess(sz int, strength int, left int) {
 			k := util.Clip3(0, sz-12, i-2+j)
 			s += Intra_Edge_Kernel[strength-1][j] * edge[k]
 			if left == 1 {
-				t.LeftCol[i-1] = (s + 8) >> 4
+				t.LeftCol[edgeIndex(i-1)] = (s + 8) >> 4
 			}
 			if left == 0 {
-				t.AboveRow[i-1] = (s + 8) >> 4
+				t.AboveRow[edgeIndex(i-1)] = (s + 8) >> 4
 			}
 		}
 	}
-- 
2.43.0


From 9e470617659c2527309f4135de5fc86665d3f8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:42 +0000
Subject: [PATCH 117/207] fix: copies of the prediction edges

---
 internal/tilegroup/predict_intra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 4ce81c7..6e4115e 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -592,7 +592,7 @@ func (t *TileGroup) intraEdgeUpsampleProcess(numPx int, dir bool, sh sequencehea
 		buf = &t.LeftCol
 	}
 
-	var dup []int
+	var dup [2*64 + 3]int
 	dup[0] = buf[len(buf)-1]
 	for i := -1; i < numPx; i++ {
 		dup[i+2] = buf[edgeIndex(i)]
@@ -614,7 +614,7 @@ func (t *TileGroup) intraEdgeFilterProcess(sz int, strength int, left int) {
 		return
 	}
 
-	var edge []int
+	var edge [2*64 + 1]int
 	for i := 0; i < sz; i++ {
 		if util.Bool(left) {
 			edge[i] = t.LeftCol[edgeIndex(i-1)]
-- 
2.43.0


From 4cc6af18b4dc5b718ab161e19092762c85be41ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:45 +0000
Subject: [PATCH 118/207] fix: last tap of the edge filter

---
 internal/tilegroup/predict_intra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 6e4115e..457b639 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -626,7 +626,7 @@ func (t *TileGroup) intraEdgeFilterProcess(sz int, strength int, left int) {
 	for i := 0; i < sz; i++ {
 		s := 0
 		for j := 0; j < INTRA_EDGE_TAPS; j++ {
-			k := util.Clip3(0, sz-12, i-2+j)
+			k := util.Clip3(0, sz-1, i-2+j)
 			s += Intra_Edge_Kernel[strength-1][j] * edge[k]
 			if left == 1 {
 				t.LeftCol[edgeIndex(i-1)] = (s + 8) >> 4
-- 
2.43.0


From 681b12a3279819b6f5ab98a315d66d5da957d3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:48 +0000
Subject: [PATCH 119/207] fix: edge filter leaves the corner

---
 internal/tilegroup/predict_intra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 457b639..ec84b1e 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -623,7 +623,7 @@ func (t *TileGroup) intraEdgeFilterProcess(sz int, strength int, left int) {
 		}
 	}
 
-	for i := 0; i < sz; i++ {
+	for i := 1; i < sz; i++ {
 		s := 0
 		for j := 0; j < INTRA_EDGE_TAPS; j++ {
 			k := util.Clip3(0, sz-1, i-2+j)
-- 
2.43.0


From c43ea16d9193125565c7ce64cd7afd47d9b87965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:51 +0000
Subject: [PATCH 120/207] fix: length of the filtered edge

---
 internal/tilegroup/predict_intra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index ec84b1e..891243f 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -207,7 +207,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 				if pAngle < 90 {
 					sumPart = h
 				}
-				numPx := util.Min(w, (maxX-x+1)) + sumPart
+				numPx := util.Min(w, (maxX-x+1)) + sumPart + 1
 				t.intraEdgeFilterProcess(numPx, strength, 0)
 			}
 
@@ -217,7 +217,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 				if pAngle > 180 {
 					sumPart = w
 				}
-				numPx := util.Min(h, (maxY-y+1)) + sumPart
+				numPx := util.Min(h, (maxY-y+1)) + sumPart + 1
 				t.intraEdgeFilterProcess(numPx, strength, 1)
 			}
 		}
-- 
2.43.0


From d4e65b47a2f73b08371a78ab88587362b2cbabf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:53 +0000
Subject: [PATCH 121/207] fix: row of the directional prediction from above

---
 internal/tilegroup/predict_intra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 891243f..2723801 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -265,7 +265,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 	if pAngle < 90 {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				idx := (i + i) * dx
+				idx := (i + 1) * dx
 				base := (idx >> (6 - util.Int(upsampleAbove))) + (j << util.Int(upsampleAbove))
 				shift := ((idx << util.Int(upsampleAbove)) >> 1) & 0x1F
 				maxBaseX := (w + h - 1) << util.Int(upsampleAbove)
-- 
2.43.0


From ad8edb433840a6aa1d8b4d6edd62f4815a0993e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:56 +0000
Subject: [PATCH 122/207] fix: precision of the upsampled left edge

---
 internal/tilegroup/predict_intra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 2723801..1a92df4 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -301,7 +301,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
 				idx := (j + 1) * dy
-				base := (idx >> (6 >> util.Int(upsampleLeft))) + (i << util.Int(upsampleLeft))
+				base := (idx >> (6 - util.Int(upsampleLeft))) + (i << util.Int(upsampleLeft))
 				shift := ((idx << util.Int(upsampleLeft)) >> 1) & 0x1F
 				pred[i][j] = util.Round2(t.LeftCol[base]*(32-shift)+t.LeftCol[base+1]*shift, 5)
 			}
-- 
2.43.0


From 620e7448b3c78ab03bf88e501ab152c7d7788439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:59 +0000
Subject: [PATCH 123/207] fix: horizontal prediction

---
 internal/tilegroup/predict_intra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 1a92df4..80e9856 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -316,7 +316,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 	} else if pAngle == 180 {
 		for j := 0; j < w; j++ {
 			for i := 0; i < h; i++ {
-				pred[i][j] = t.LeftCol[j]
+				pred[i][j] = t.LeftCol[i]
 			}
 		}
 	}
-- 
2.43.0


From 65042d8466d02c23338acf2d346832f6637df99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:02 +0000
Subject: [PATCH 124/207] fix: DC prediction with only the row above

---
 internal/tilegroup/predict_intra.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 80e9856..7b32739 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -354,6 +354,18 @@ func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2
 			}
 		}
 
+	} else if !haveLeft && haveAbove {
+		for i := 0; i < h; i++ {
+			for j := 0; j < w; j++ {
+				sum := 0
+				for k := 0; k < w; k++ {
+					sum += t.AboveRow[k]
+				}
+				aboveAvg := util.Clip1((sum+(w>>1))>>log2W, sh.ColorConfig.BitDepth)
+				pred[i][j] = aboveAvg
+			}
+		}
+
 	} else if !haveLeft && !haveAbove {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-- 
2.43.0


From 4a93a79b00810d3c80a986dbf4ed008b2325a1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:04 +0000
Subject: [PATCH 125/207] fix: smoothness of the left neighbour

---
 internal/tilegroup/predict_intra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 7b32739..83ae8f1 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -511,7 +511,7 @@ func (t *TileGroup) getFilterType(plane int, state *state.State, sh sequencehead
 				r++
 			}
 		}
-		aboveSmooth = t.isSmooth(r, c, plane, state)
+		leftSmooth = t.isSmooth(r, c, plane, state)
 	}
 
 	return aboveSmooth || leftSmooth
-- 
2.43.0


From a0171bc0a574bdb3292e5dbf9edae17859aa0573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:07 +0000
Subject: [PATCH 126/207] fix: neighbours deciding the chroma edge filter

---
 internal/tilegroup/predict_intra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 83ae8f1..39df497 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -484,7 +484,7 @@ func (t *TileGroup) getFilterType(plane int, state *state.State, sh sequencehead
 		c := state.MiCol
 
 		if plane > 0 {
-			if sh.ColorConfig.SubsamplingX && util.Bool(state.MiCol&1) {
+			if sh.ColorConfig.SubsamplingX && !util.Bool(state.MiCol&1) {
 				c++
 			}
 			if sh.ColorConfig.SubsamplingY && util.Bool(state.MiRow&1) {
@@ -507,7 +507,7 @@ func (t *TileGroup) getFilterType(plane int, state *state.State, sh sequencehead
 			if sh.ColorConfig.SubsamplingX && util.Bool(state.MiCol&1) {
 				c--
 			}
-			if sh.ColorConfig.SubsamplingY && util.Bool(state.MiRow&1) {
+			if sh.ColorConfig.SubsamplingY && !util.Bool(state.MiRow&1) {
 				r++
 			}
 		}
-- 
2.43.0


From 5c75a021a52a7261e371bf484fa388e0344194d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:11 +0000
Subject: [PATCH 127/207] fix: strength of the intra edge filter

---
 internal/tilegroup/predict_intra.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 39df497..556f677 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -533,6 +533,10 @@ func (t *TileGroup) intraEdgeFilterStrengthSelectionProcess(w int, h int, filter
 				strength = 1
 			}
 		} else if blkWh <= 16 {
+			if d >= 40 {
+				strength = 1
+			}
+		} else if blkWh <= 24 {
 			if d >= 8 {
 				strength = 1
 			}
@@ -547,9 +551,11 @@ func (t *TileGroup) intraEdgeFilterStrengthSelectionProcess(w int, h int, filter
 			if d >= 4 {
 				strength = 2
 			}
-			if d >= 4 {
+			if d >= 32 {
 				strength = 3
 			}
+		} else {
+			strength = 3
 		}
 	} else {
 		if blkWh <= 8 {
-- 
2.43.0


From 66ce15aa91a1a78e6bc67dd6a73ac3b6609fc030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:11 +0000
Subject: [PATCH 128/207] fix: CDEF indices of 128x128 superblocks

---
 internal/state/state.go          | 1 -
 internal/tilegroup/tile_group.go | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index af1d78d..44743fe 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -73,7 +73,6 @@ type State struct {
 	RefFrameTypes             [7]int
 	Skip                      int
 	IsInter                   int
-	CdefSize4                 int
 	CdefFrame                 [3][16][16]int
 	UpscaledCurrFrame         [3][9][9]int
 	UpscaledCdefFrame         [3][9][9]int
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index aa13b6f..fa419eb 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -835,7 +835,7 @@ func (t *TileGroup) decodeTile(b *bitstream.BitStream, state *state.State, sh se
 
 		for c := state.MiColStart; c < state.MiColEnd; c += sbSize4 {
 			state.ReadDeltas = uh.DeltaQPresent
-			state.Cdef.ClearCdef(r, c, sh.Use128x128SuperBlock, state.CdefSize4)
+			state.Cdef.ClearCdef(r, c, sh.Use128x128SuperBlock, shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_64X64])
 			t.clearBlockDecodedFlags(r, c, sbSize4, state, sh)
 			t.readLr(r, c, sbSize, b, state, uh, sh)
 			t.decodePartition(r, c, sbSize, b, state, sh, uh)
-- 
2.43.0


From 6121634966db040c589fcf3df4fb59bc84043915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:14 +0000
Subject: [PATCH 129/207] fix: segment prediction contexts of a tile

---
 internal/tilegroup/tile_group.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index fa419eb..26f11c1 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -769,7 +769,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 func (t *TileGroup) clearAboveContext(state *state.State) {
 	t.AboveLevelContext = make([][]int, 3)
 	t.AboveDcContext = make([][]int, 3)
-	t.AboveSegPredContext = make([]int, 3)
+	t.AboveSegPredContext = make([]int, state.MiCols)
 
 	for i := 0; i < 3; i++ {
 		t.AboveLevelContext[i] = make([]int, state.MiCols)
@@ -789,7 +789,7 @@ func (t *TileGroup) clearAboveContext(state *state.State) {
 func (t *TileGroup) clearLeftContext(state *state.State) {
 	t.LeftLevelContext = make([][]int, 3)
 	t.LeftDcContext = [3][]int{}
-	t.LeftSegPredContext = make([]int, 3)
+	t.LeftSegPredContext = make([]int, state.MiRows)
 
 	for i := 0; i < 3; i++ {
 		t.LeftLevelContext[i] = make([]int, state.MiRows)
-- 
2.43.0


From c689b99bf1cbfbbe14bfec8dbe05360436a71d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:16 +0000
Subject: [PATCH 130/207] fix: contexts of blocks crossing the frame edge

---
 internal/tilegroup/tile_group.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 26f11c1..8d3ed6e 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -769,11 +769,11 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 func (t *TileGroup) clearAboveContext(state *state.State) {
 	t.AboveLevelContext = make([][]int, 3)
 	t.AboveDcContext = make([][]int, 3)
-	t.AboveSegPredContext = make([]int, state.MiCols)
+	t.AboveSegPredContext = make([]int, state.MiCols+32)
 
 	for i := 0; i < 3; i++ {
-		t.AboveLevelContext[i] = make([]int, state.MiCols)
-		t.AboveDcContext[i] = make([]int, state.MiCols)
+		t.AboveLevelContext[i] = make([]int, state.MiCols+32)
+		t.AboveDcContext[i] = make([]int, state.MiCols+32)
 	}
 
 	for i := 0; i < state.MiCols; i++ {
@@ -789,11 +789,11 @@ func (t *TileGroup) clearAboveContext(state *state.State) {
 func (t *TileGroup) clearLeftContext(state *state.State) {
 	t.LeftLevelContext = make([][]int, 3)
 	t.LeftDcContext = [3][]int{}
-	t.LeftSegPredContext = make([]int, state.MiRows)
+	t.LeftSegPredContext = make([]int, state.MiRows+32)
 
 	for i := 0; i < 3; i++ {
-		t.LeftLevelContext[i] = make([]int, state.MiRows)
-		t.LeftDcContext[i] = make([]int, state.MiRows)
+		t.LeftLevelContext[i] = make([]int, state.MiRows+32)
+		t.LeftDcContext[i] = make([]int, state.MiRows+32)
 	}
 
 	for i := 0; i < state.MiRows; i++ {
-- 
2.43.0


From 16737b13484251db310bf24823197531ab9aeddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 131/207] fix: first block of a horizontal partition

---
 internal/tilegroup/decode_partition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index ba90c0d..d4775c5 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -53,7 +53,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 	if partition == PARTITION_NONE {
 		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 	} else if partition == PARTITION_HORZ {
-		t.decodeBlock(r+halfBlock4x4, c, subSize, b, state, sh, uh)
+		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 		if hasRows {
 			t.decodeBlock(r+halfBlock4x4, c, subSize, b, state, sh, uh)
 		}
-- 
2.43.0


From ba10082d7aeed49e69a21d8a13e13741f36aa946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 132/207] fix: last block of a VERT_B partition

---
 internal/tilegroup/decode_partition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index d4775c5..d67e629 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -82,7 +82,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 	} else if partition == PARTITION_VERT_B {
 		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 		t.decodeBlock(r, c+halfBlock4x4, splitSize, b, state, sh, uh)
-		t.decodeBlock(r+halfBlock4x4, c+halfBlock4x4, subSize, b, state, sh, uh)
+		t.decodeBlock(r+halfBlock4x4, c+halfBlock4x4, splitSize, b, state, sh, uh)
 	} else if partition == PARTITION_HORZ_4 {
 		t.decodeBlock(r+quarterBlock4x4*0, c, subSize, b, state, sh, uh)
 		t.decodeBlock(r+quarterBlock4x4*1, c, subSize, b, state, sh, uh)
-- 
2.43.0


From d7fd125579ce4110c1e87912e2fa46ed1249ed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:25 +0000
Subject: [PATCH 133/207] fix: last block of a VERT_4 partition

---
 internal/tilegroup/decode_partition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index d67e629..283919f 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -94,7 +94,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 		t.decodeBlock(r, c+quarterBlock4x4*0, subSize, b, state, sh, uh)
 		t.decodeBlock(r, c+quarterBlock4x4*1, subSize, b, state, sh, uh)
 		t.decodeBlock(r, c+quarterBlock4x4*2, subSize, b, state, sh, uh)
-		if c+quarterBlock4x4*3 < state.MiRows {
+		if c+quarterBlock4x4*3 < state.MiCols {
 			t.decodeBlock(r, c+quarterBlock4x4*3, subSize, b, state, sh, uh)
 		}
 	}
-- 
2.43.0


From 9764987dfd938093099dd4331f05edf7f34ec76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:27 +0000
Subject: [PATCH 134/207] fix: partition probabilities at the frame edge

---
 internal/tilegroup/decode_partition.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index 283919f..facbe13 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -132,7 +132,7 @@ func splitOrVertElement(bSize int, r int, c int, state *state.State, uh uncompre
 	cdf := make([]int, 3)
 	cdf[0] = (1 << 15) - psum
 	cdf[1] = 1 << 15
-	cdf[3] = 0
+	cdf[2] = 0
 
 	return symbol.ReadSymbol(cdf, state, b, uh)
 }
@@ -169,7 +169,7 @@ func splitOrHorzElement(bSize int, r int, c int, state *state.State, uh uncompre
 	cdf := make([]int, 3)
 	cdf[0] = (1 << 15) - psum
 	cdf[1] = 1 << 15
-	cdf[3] = 0
+	cdf[2] = 0
 
 	return symbol.ReadSymbol(cdf, state, b, uh)
 }
-- 
2.43.0


From 745cd4c9738492a205befe9d0443bd3f6d98c914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:31 +0000
Subject: [PATCH 135/207] fix: skip and inter flags of a decoded block

---
 internal/state/state.go            | 2 --
 internal/tilegroup/decode_block.go | 4 ++--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index 44743fe..04d2cb0 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -71,8 +71,6 @@ type State struct {
 	SymbolValue               int
 	SymbolRange               int
 	RefFrameTypes             [7]int
-	Skip                      int
-	IsInter                   int
 	CdefFrame                 [3][16][16]int
 	UpscaledCurrFrame         [3][9][9]int
 	UpscaledCdefFrame         [3][9][9]int
diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 7a120d6..1c009db 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -46,7 +46,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 	t.paletteTokens(b, state, sh)
 	t.readBlockTxSize(b, state, uh)
 
-	if util.Bool(state.Skip) {
+	if util.Bool(t.Skip) {
 		t.resetBlockContext(bw4, bh4, b, state, sh)
 	}
 
@@ -64,7 +64,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 				state.RefFrames[r+y][c+x][refList] = state.RefFrame[refList]
 			}
 
-			if util.Bool(state.IsInter) {
+			if util.Bool(t.IsInter) {
 				if !util.Bool(t.useIntrabc) {
 					t.CompGroupIdxs[r+y][c+x] = t.CompGroupIdx
 					t.CompoundIdxs[r+y][c+x] = t.CompoundIdx
-- 
2.43.0


From 094f7d9ed4ee8976e09d694c221deb07f492c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:34 +0000
Subject: [PATCH 136/207] fix: storage of the compound indices

---
 internal/tilegroup/tile_group.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 8d3ed6e..ca5afa4 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -215,8 +215,8 @@ type TileGroup struct {
 	LeftDcContext      [3][]int
 	LeftSegPredContext []int
 
-	CompGroupIdxs [][]int
-	CompoundIdxs  [][]int
+	CompGroupIdxs [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	CompoundIdxs  [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	CompGroupIdx  int
 	CompoundIdx   int
 
-- 
2.43.0


From 5f6eb5dc03a76c3be73a2afbb3c9d7258c61797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:36 +0000
Subject: [PATCH 137/207] fix: coefficient shift of the CDEF filter

---
 internal/tilegroup/cdef.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/cdef.go b/internal/tilegroup/cdef.go
index 189cbd7..a504e8e 100644
--- a/internal/tilegroup/cdef.go
+++ b/internal/tilegroup/cdef.go
@@ -187,7 +187,7 @@ func (t *TileGroup) cdefFilter(plane int, r int, c int, priStr int, secStr int,
 	// "MiColStart, MiRowStart, MiColEnd, MiRowEnd are set equal to the values
 	// they had when the syntax element MiSizes[r][c] was written."
 
-	coeffShift := sh.ColorConfig.BitDepth
+	coeffShift := sh.ColorConfig.BitDepth - 8
 	var subX, subY int
 	if plane > 0 {
 		subX = util.Int(sh.ColorConfig.SubsamplingX)
-- 
2.43.0


From 10ce3f4be4959a5cbc5fdb8cf036eecbe55b234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 138/207] fix: chroma damping of CDEF

---
 internal/tilegroup/cdef.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/cdef.go b/internal/tilegroup/cdef.go
index a504e8e..d0a8c98 100644
--- a/internal/tilegroup/cdef.go
+++ b/internal/tilegroup/cdef.go
@@ -97,8 +97,8 @@ func (t *TileGroup) cdefBlock(r int, c int, idx int, state *state.State, sh sequ
 			dir = 0
 		} else {
 			dir = CDEF_UV_DIR[util.Int(sh.ColorConfig.SubsamplingX)][util.Int(sh.ColorConfig.SubsamplingY)][yDir]
-			damping = uh.CdefDampening + coeffShift - 1
 		}
+		damping = uh.CdefDampening + coeffShift - 1
 
 		t.cdefFilter(1, r, c, priStr, secStr, damping, dir, state, sh, uh)
 		t.cdefFilter(2, r, c, priStr, secStr, damping, dir, state, sh, uh)
-- 
2.43.0


From 569bba96201a580af24a31f3333a6554781988f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:13 +0000
Subject: [PATCH 139/207] fix: segment id of a decoded block

---
 internal/tilegroup/decode_block.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 1c009db..330fd4c 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -89,6 +89,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 			t.Skips[r+y][c+x] = t.Skip
 			t.TxSizes[r+y][c+x] = t.TxSize
 			state.MiSizes[r+y][c+x] = state.MiSize
+			t.SegmentIds[r+y][c+x] = t.SegmentId
 			t.PaletteSizes[0][r+y][c+x] = t.PaletteSizeY
 			t.PaletteSizes[1][r+y][c+x] = t.PaletteSizeUV
 
-- 
2.43.0


From 94ad8bb3d8dd559b07b506e0d0aa7060e51bb1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 140/207] fix: reference frames of intra frame blocks

---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index ee55ec4..90b092c 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -30,7 +30,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 
 	state.ReadDeltas = false
 	state.RefFrame[0] = shared.INTRA_FRAME
-	state.RefFrame[0] = shared.NONE
+	state.RefFrame[1] = shared.NONE
 
 	if uh.AllowIntraBc {
 		t.useIntrabc = b.S()
-- 
2.43.0


From da2556bbd405509faec2b7a7391aa495bc415d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 141/207] fix: context of the skip flag

---
 internal/tilegroup/intra_frame_mode_info.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 90b092c..60e78c0 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -174,10 +174,10 @@ func (t *TileGroup) readSkip(b *bitstream.BitStream, uh uncompressedheader.Uncom
 	} else {
 		ctx := 0
 		if state.AvailU {
-			ctx += t.SkipModes[state.MiRow-1][state.MiCol]
+			ctx += t.Skips[state.MiRow-1][state.MiCol]
 		}
 		if state.AvailL {
-			ctx += t.SkipModes[state.MiRow][state.MiCol-1]
+			ctx += t.Skips[state.MiRow][state.MiCol-1]
 		}
 
 		t.Skip = symbol.ReadSymbol(state.TileSkipCdf[ctx], state, b, uh)
-- 
2.43.0


From 2cb5ae7b04c9ffa44c35bd3f5f7ba63e8e72706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:19 +0000
Subject: [PATCH 142/207] fix: chroma from luma in 32x32 intra frame blocks

---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 60e78c0..6690830 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -60,7 +60,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 			var uvMode int
 			if t.Lossless && t.getPlaneResidualSize(state.MiSize, 1, sh) == shared.BLOCK_4X4 {
 				uvMode = symbol.ReadSymbol(state.TileUVModeCflAllowedCdf[t.YMode], state, b, uh)
-			} else if !t.Lossless && util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]) < 32 {
+			} else if !t.Lossless && util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]) <= 32 {
 				uvMode = symbol.ReadSymbol(state.TileUVModeCflAllowedCdf[t.YMode], state, b, uh)
 			} else {
 				uvMode = symbol.ReadSymbol(state.TileUVModeCflNotAllowedCdf[t.YMode], state, b, uh)
-- 
2.43.0


From 2fb7201d37b2891b4aeef0ec1ea38abf33a05718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:21 +0000
Subject: [PATCH 143/207] fix: range of the segment id

---
 internal/tilegroup/intra_frame_mode_info.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 6690830..09da404 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -164,6 +164,7 @@ func (t *TileGroup) readSegmentId(b *bitstream.BitStream, uh uncompressedheader.
 
 		t.SegmentId = symbol.ReadSymbol(state.TileSegmentIdCdf[ctx], state, b, uh)
 		t.SegmentId = util.NegDeinterleave(t.SegmentId, pred, uh.LastActiveSegId+1)
+		t.SegmentId = util.Clip3(0, uh.LastActiveSegId, t.SegmentId)
 	}
 }
 
-- 
2.43.0


From 4c541c1bc240da6cb38d9e46cdbf30c589bd4c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:23 +0000
Subject: [PATCH 144/207] fix: number of CDEF index bits

---
 internal/cdef/cdef.go                       | 3 +--
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/cdef/cdef.go b/internal/cdef/cdef.go
index a345ceb..620ddf8 100644
--- a/internal/cdef/cdef.go
+++ b/internal/cdef/cdef.go
@@ -1,8 +1,7 @@
 package cdef
 
 type Cdef struct {
-	CdefIdx  [][]int
-	CdefBits int
+	CdefIdx [][]int
 }
 
 func (cdef *Cdef) ClearCdef(r int, c int, Use128x128SuperBlock bool, cdefSize4 int) {
diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 09da404..c948533 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -218,7 +218,7 @@ func (t *TileGroup) readCdef(b *bitstream.BitStream, uh uncompressedheader.Uncom
 	c := state.MiCol & cdefMask4
 
 	if state.Cdef.CdefIdx[r][c] == -1 {
-		state.Cdef.CdefIdx[r][c] = literal.L(state.Cdef.CdefBits, state, b, uh)
+		state.Cdef.CdefIdx[r][c] = literal.L(uh.CdefBits, state, b, uh)
 		w4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]
 		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
 
-- 
2.43.0


From 90a2e1c3f1634ffcc47002fab6a7d433b6b6d483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:25 +0000
Subject: [PATCH 145/207] fix: CDEF index of 128 wide blocks

---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index c948533..6950fb0 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -223,7 +223,7 @@ func (t *TileGroup) readCdef(b *bitstream.BitStream, uh uncompressedheader.Uncom
 		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
 
 		for i := r; i < r+h4; i += cdefSize4 {
-			for j := c; i < c+w4; i += cdefSize4 {
+			for j := c; j < c+w4; j += cdefSize4 {
 				state.Cdef.CdefIdx[i][j] = state.Cdef.CdefIdx[r][c]
 			}
 
-- 
2.43.0


From 2c04467dd962d4902b91a27e1f288367480ade23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:27 +0000
Subject: [PATCH 146/207] fix: filter intra flag

---
 internal/tilegroup/intra_frame_mode_info.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 6950fb0..4c9e49d 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -384,11 +384,11 @@ func (t *TileGroup) intraAngleInfoUv(b *bitstream.BitStream, state *state.State,
 
 // filter_intra_mode_info()
 func (t *TileGroup) filterIntraModeInfo(b *bitstream.BitStream, sh sequenceheader.SequenceHeader, state *state.State) {
-	useFilterIntra := false
+	t.UseFilterIntra = false
 	if sh.EnableFilterIntra && t.YMode == DC_PRED && t.PaletteSizeY == 0 && util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]) <= 32 {
-		useFilterIntra = util.Bool(b.S())
+		t.UseFilterIntra = util.Bool(b.S())
 
-		if useFilterIntra {
+		if t.UseFilterIntra {
 			t.FilterIntraMode = b.S()
 		}
 	}
-- 
2.43.0


From 31f4697d4b5fa89c2236020d859b5b93713eb998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:29 +0000
Subject: [PATCH 147/207] fix: left segment prediction context

---
 internal/tilegroup/inter_frame_mode_info.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/inter_frame_mode_info.go b/internal/tilegroup/inter_frame_mode_info.go
index 26a30c6..d218550 100644
--- a/internal/tilegroup/inter_frame_mode_info.go
+++ b/internal/tilegroup/inter_frame_mode_info.go
@@ -120,7 +120,7 @@ func (t *TileGroup) interSegmentId(preSkip int, b *bitstream.BitStream, uh uncom
 						t.AboveSegPredContext[state.MiCol+i] = segIdPredicted
 					}
 					for i := 0; i < shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]; i++ {
-						t.AboveSegPredContext[state.MiRow+i] = segIdPredicted
+						t.LeftSegPredContext[state.MiRow+i] = segIdPredicted
 					}
 					t.readSegmentId(b, uh, state)
 					return
@@ -139,7 +139,7 @@ func (t *TileGroup) interSegmentId(preSkip int, b *bitstream.BitStream, uh uncom
 					t.AboveSegPredContext[state.MiCol+i] = segIdPredicted
 				}
 				for i := 0; i < shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]; i++ {
-					t.AboveSegPredContext[state.MiRow+i] = segIdPredicted
+					t.LeftSegPredContext[state.MiRow+i] = segIdPredicted
 				}
 
 			} else {
-- 
2.43.0


From 033406605685467d4c89dd86a2c0bb3de934aa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:31 +0000
Subject: [PATCH 148/207] fix: inter flag of global motion segments

---
 internal/tilegroup/inter_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_frame_mode_info.go b/internal/tilegroup/inter_frame_mode_info.go
index d218550..9340ffd 100644
--- a/internal/tilegroup/inter_frame_mode_info.go
+++ b/internal/tilegroup/inter_frame_mode_info.go
@@ -186,7 +186,7 @@ func (t *TileGroup) readIsInter(b *bitstream.BitStream, state *state.State, uh u
 	} else if t.segFeatureActive(shared.SEG_LVL_REF_FRAME, uh, state) {
 		t.IsInter = util.Int(state.FeatureData[t.SegmentId][shared.SEG_LVL_REF_FRAME] != shared.INTRA_FRAME)
 	} else if t.segFeatureActive(shared.SEG_LVL_GLOBALMV, uh, state) {
-		t.IsInter = 0
+		t.IsInter = 1
 	} else {
 		// S()
 		var ctx int
-- 
2.43.0


From 7b5f37ba6bbde74a59c6ea25d5af3b80fd543e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 149/207] fix: presence of the inter intra syntax

---
 internal/tilegroup/inter_block_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 08e8697..aa747f1 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -467,7 +467,7 @@ func (t *TileGroup) readCompoundType(isCompound bool, b *bitstream.BitStream, st
 
 // read_interintra_mode( isCompound )
 func (t *TileGroup) readInterIntraMode(isCompound bool, b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader) {
-	if util.Bool(t.SkipMode) && sh.EnableInterIntraCompound && !isCompound && state.MiSize > +shared.BLOCK_8X8 && state.MiSize <= shared.BLOCK_32X32 {
+	if !util.Bool(t.SkipMode) && sh.EnableInterIntraCompound && !isCompound && state.MiSize >= shared.BLOCK_8X8 && state.MiSize <= shared.BLOCK_32X32 {
 		t.InterIntra = b.S()
 
 		if util.Bool(t.InterIntra) {
-- 
2.43.0


From 0be630fa71b8a8290535453d418bf249c62c2a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:35 +0000
Subject: [PATCH 150/207] fix: sign of the compound wedge

---
 internal/tilegroup/inter_block_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index aa747f1..cad4b1d 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -447,7 +447,7 @@ func (t *TileGroup) readCompoundType(isCompound bool, b *bitstream.BitStream, st
 
 		if t.CompoundType == COMPOUND_WEDGE {
 			t.WedgeIndex = b.S()
-			t.WedgeIndex = literal.L(1, state, b, uh)
+			t.WedgeSign = literal.L(1, state, b, uh)
 		} else if t.CompoundType == COMPOUND_DIFFWTD {
 			t.MaskType = literal.L(1, state, b, uh)
 		}
-- 
2.43.0


From 8774b8104b8d3355e5e835714b2715a62abfa237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:37 +0000
Subject: [PATCH 151/207] fix: interpolation filter of compound global motion

---
 internal/tilegroup/inter_block_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index cad4b1d..7518e69 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -404,7 +404,7 @@ func (t *TileGroup) needsInterpFilter(state *state.State) bool {
 	} else if large && t.YMode == shared.GLOBALMV {
 		return state.GmType[state.RefFrame[0]] == shared.TRANSLATION
 	} else if large && t.YMode == shared.GLOBAL_GLOBALMV {
-		return state.GmType[state.RefFrame[0]] == shared.TRANSLATION || state.GmType[1] == shared.TRANSLATION
+		return state.GmType[state.RefFrame[0]] == shared.TRANSLATION || state.GmType[state.RefFrame[1]] == shared.TRANSLATION
 	} else {
 		return true
 	}
-- 
2.43.0


From e2d1705f5189604667272afea325f1626043dddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 152/207] fix: left context of the transform depth

---
 internal/tilegroup/tx_size.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tx_size.go b/internal/tilegroup/tx_size.go
index a05e8ec..99d89e5 100644
--- a/internal/tilegroup/tx_size.go
+++ b/internal/tilegroup/tx_size.go
@@ -74,7 +74,7 @@ func (t *TileGroup) txDepthSymbol(maxRectTxSize int, maxTxDepth int, state *stat
 	var leftH int
 	if state.AvailL && util.Bool(t.IsInters[state.MiRow][state.MiCol-1]) {
 		leftH = shared.BLOCK_HEIGHT[state.MiSizes[state.MiRow][state.MiCol-1]]
-	} else if state.AvailU {
+	} else if state.AvailL {
 		leftH = t.getLeftTxHeight(state.MiRow, state.MiCol, state)
 	} else {
 		leftH = 0
-- 
2.43.0


From 23e54c1b464ff8af883c61788889fee9f1726c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:41 +0000
Subject: [PATCH 153/207] fix: left transform height

---
 internal/tilegroup/tx_size.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tx_size.go b/internal/tilegroup/tx_size.go
index 99d89e5..d93b001 100644
--- a/internal/tilegroup/tx_size.go
+++ b/internal/tilegroup/tx_size.go
@@ -106,7 +106,7 @@ func (t *TileGroup) getAboveTxWidth(row int, col int, state *state.State) int {
 }
 
 func (t *TileGroup) getLeftTxHeight(row int, col int, state *state.State) int {
-	if row == state.MiCol {
+	if col == state.MiCol {
 		if !state.AvailL {
 			return 64
 		} else if util.Bool(t.Skips[row][col-1]) && util.Bool(t.IsInters[row][col-1]) {
-- 
2.43.0


From 76e7e85b81c0ec21cb6ed11ebf117740d6b39ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 154/207] fix: stored inter transform sizes

---
 internal/tilegroup/tx_size.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tx_size.go b/internal/tilegroup/tx_size.go
index d93b001..17a2534 100644
--- a/internal/tilegroup/tx_size.go
+++ b/internal/tilegroup/tx_size.go
@@ -145,7 +145,7 @@ func (t *TileGroup) readVarTxSize(row int, col int, txSz int, depth int, b *bits
 	} else {
 		for i := 0; i < h4; i++ {
 			for j := 0; j < w4; j++ {
-				t.InterTxSizes[row+i][col+i] = txSz
+				t.InterTxSizes[row+i][col+j] = txSz
 			}
 		}
 		t.TxSize = txSz
-- 
2.43.0


From 72895b28e6ed113d5757858d9e7d815aa1daf1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:31 +0000
Subject: [PATCH 155/207] fix: width of sub exponential codes

---
 internal/tilegroup/read_loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index bf28edb..0d3a566 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -145,7 +145,7 @@ func (t *TileGroup) decodeSubexpBool(numSyms int, k int, state *state.State, b *
 	mk := 0
 	for {
 		b2 := k
-		if i == 1 {
+		if i != 0 {
 			b2 = k + i - 1
 		}
 
-- 
2.43.0


From 7e5c95127e88aaadf5c068e0131e537143951efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:33 +0000
Subject: [PATCH 156/207] fix: end of sub exponential codes

---
 internal/tilegroup/read_loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index 0d3a566..679797a 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -151,7 +151,7 @@ func (t *TileGroup) decodeSubexpBool(numSyms int, k int, state *state.State, b *
 
 		a := 1 << b2
 
-		if numSyms <= -mk+3*a {
+		if numSyms <= mk+3*a {
 			subexpUnifBools := literal.L(1, state, b, uh)
 			return subexpUnifBools + mk
 		} else {
-- 
2.43.0


From ea5286fb3c8885b7f2124bc062b9ee5fb866f7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:34 +0000
Subject: [PATCH 157/207] fix: uniform part of sub exponential codes

---
 internal/tilegroup/read_loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index 679797a..bbbacf4 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -152,7 +152,7 @@ func (t *TileGroup) decodeSubexpBool(numSyms int, k int, state *state.State, b *
 		a := 1 << b2
 
 		if numSyms <= mk+3*a {
-			subexpUnifBools := literal.L(1, state, b, uh)
+			subexpUnifBools := literal.NS(numSyms-mk, state, b, uh)
 			return subexpUnifBools + mk
 		} else {
 			subexpMoreBools := literal.L(1, state, b, uh) != 0
-- 
2.43.0


From 0c26e3833ee235ed1b9432e65fcbe1118170448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:36 +0000
Subject: [PATCH 158/207] fix: number of Wiener taps of the V plane

---
 internal/tilegroup/read_loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index bbbacf4..12b68ca 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -84,7 +84,7 @@ func (t *TileGroup) readLrUnit(plane int, unitRow int, unitCol int, state *state
 	if restorationType == shared.RESTORE_WIENER {
 		for pass := 0; pass < 2; pass++ {
 			var firstCoeff int
-			if plane == 1 {
+			if plane > 0 {
 				firstCoeff = 1
 				t.LrWiener[plane][unitRow][unitCol][pass][0] = 0
 			} else {
-- 
2.43.0


From fc38f78e48298cb5acadb796fe1b0ebd3e10f0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:38 +0000
Subject: [PATCH 159/207] fix: restoration units of the luma plane

---
 internal/tilegroup/read_loop_restoration.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index 12b68ca..d4ac76e 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -25,11 +25,11 @@ func (t *TileGroup) readLr(r int, c int, bSize int, b *bitstream.BitStream, stat
 			subX := 0
 			subY := 0
 
-			if sh.ColorConfig.SubsamplingX {
+			if sh.ColorConfig.SubsamplingX && plane > 0 {
 				subX = 1
 			}
 
-			if sh.ColorConfig.SubsamplingY {
+			if sh.ColorConfig.SubsamplingY && plane > 0 {
 				subY = 1
 			}
 
-- 
2.43.0


From 14cf16c1544a0e997fd16b6b1aefc2cbe2be0308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:40 +0000
Subject: [PATCH 160/207] fix: storage of the Wiener taps

---
 internal/tilegroup/tile_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index ca5afa4..7a4ecdb 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -125,7 +125,7 @@ const DIV_LUT_BITS = 8
 type TileGroup struct {
 	LrType              [3][1][1]int
 	RefLrWiener         [3][2][3]int
-	LrWiener            [][][][][3]int
+	LrWiener            [3][1][1][2][3]int
 	LrSgrSet            [3][1][1]int
 	RefSgrXqd           [3][2]int
 	LrSgrXqd            [3][1][1][2]int
-- 
2.43.0


From a1f7817cc183b391ec176574874c882ae198bb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:41 +0000
Subject: [PATCH 161/207] fix: transform depth of skipped blocks

---
 internal/tilegroup/tx_size.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tx_size.go b/internal/tilegroup/tx_size.go
index 17a2534..d0d19b7 100644
--- a/internal/tilegroup/tx_size.go
+++ b/internal/tilegroup/tx_size.go
@@ -29,7 +29,7 @@ func (t *TileGroup) readBlockTxSize(b *bitstream.BitStream, state *state.State,
 			}
 		}
 	} else {
-		t.readTxSize(!util.Bool(t.Skip) || util.Bool(t.IsInter), b, state, uh)
+		t.readTxSize(!util.Bool(t.Skip) || !util.Bool(t.IsInter), b, state, uh)
 		for row := state.MiRow; row < state.MiRow+bh4; row++ {
 			for col := state.MiCol; col < state.MiCol+bw4; col++ {
 				t.InterTxSizes[row][col] = t.TxSize
-- 
2.43.0


From b11c9b393e91c1a16e380048f7b6bbd6cfab9aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 162/207] fix: default vector of intra block copy

---
 internal/tilegroup/assign_mv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/assign_mv.go b/internal/tilegroup/assign_mv.go
index 886240e..d9d12b1 100644
--- a/internal/tilegroup/assign_mv.go
+++ b/internal/tilegroup/assign_mv.go
@@ -39,7 +39,7 @@ func (t *TileGroup) assignMv(isCompound int, b *bitstream.BitStream, state *stat
 					t.PredMv[0][1] = -(sbSize4*MI_SIZE + INTRABC_DELAY_PIXELS) * 8
 				} else {
 					t.PredMv[0][0] = -(sbSize4 * MI_SIZE * 8)
-					t.PredMv[0][0] = 1
+					t.PredMv[0][1] = 0
 				}
 			}
 
-- 
2.43.0


From 53d3db73119f106b826633a79cbee4a08652eec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:45 +0000
Subject: [PATCH 163/207] fix: bits of a motion vector difference

---
 internal/tilegroup/assign_mv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/assign_mv.go b/internal/tilegroup/assign_mv.go
index d9d12b1..fdc4fb0 100644
--- a/internal/tilegroup/assign_mv.go
+++ b/internal/tilegroup/assign_mv.go
@@ -122,7 +122,7 @@ func (t *TileGroup) readMvComponent(comp int, b *bitstream.BitStream, uh uncompr
 		d := 0
 		for i := 0; i < mvClass; i++ {
 			mvBit := symbol.ReadSymbol(state.TileMvBitCdf[t.MvCtx][comp][i], state, b, uh)
-			d |= mvBit << 1
+			d |= mvBit << i
 		}
 
 		mag = CLASS0_SIZE << (mvClass + 2)
-- 
2.43.0


From 778caeb6af1216b5850f5030ec2f82c829dd5821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:47 +0000
Subject: [PATCH 164/207] fix: second mode of nearest compound modes

---
 internal/tilegroup/assign_mv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/assign_mv.go b/internal/tilegroup/assign_mv.go
index fdc4fb0..aff5429 100644
--- a/internal/tilegroup/assign_mv.go
+++ b/internal/tilegroup/assign_mv.go
@@ -170,7 +170,7 @@ func (t *TileGroup) getMode(refList int) int {
 		if t.YMode == shared.NEW_NEWMV || t.YMode == shared.NEAREST_NEWMV || t.YMode == shared.NEAR_NEWMV {
 			compMode = shared.NEWMV
 		} else if t.YMode == shared.NEAREST_NEARESTMV || t.YMode == shared.NEW_NEARESTMV {
-			compMode = shared.NEARMV
+			compMode = shared.NEARESTMV
 		} else if t.YMode == shared.NEAR_NEARMV || t.YMode == shared.NEW_NEARMV {
 			compMode = shared.NEARMV
 		} else {
-- 
2.43.0


From 1cdc265b63c82a291be44729111fbc59e09a8f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:48 +0000
Subject: [PATCH 165/207] fix: reference frames of skip and global motion
 segments

---
 internal/tilegroup/inter_block_mode_info.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 7518e69..3fce772 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -116,6 +116,9 @@ func (t *TileGroup) readRefFrames(b *bitstream.BitStream, state *state.State, uh
 	} else if t.segFeatureActive(shared.SEG_LVL_REF_FRAME, uh, state) {
 		state.RefFrame[0] = state.FeatureData[t.SegmentId][shared.SEG_LVL_REF_FRAME]
 		state.RefFrame[1] = shared.NONE
+	} else if t.segFeatureActive(shared.SEG_LVL_SKIP, uh, state) || t.segFeatureActive(shared.SEG_LVL_GLOBALMV, uh, state) {
+		state.RefFrame[0] = shared.LAST_FRAME
+		state.RefFrame[1] = shared.NONE
 	} else {
 		bw4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]
 		bh4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
-- 
2.43.0


From 71ae2be62bb525e073dea2b6151e02db499e1590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:50 +0000
Subject: [PATCH 166/207] fix: presence of the motion mode syntax

---
 internal/tilegroup/inter_block_mode_info.go | 30 +++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 3fce772..69837a8 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -254,6 +254,11 @@ func (t *TileGroup) readMotionMode(isCompound bool, b *bitstream.BitStream, uh u
 		}
 	}
 
+	if isCompound || state.RefFrame[1] == shared.INTRA_FRAME || !t.hasOverlappableCandidates(state) {
+		t.MotionMode = SIMPLE
+		return
+	}
+
 	t.findWarpSamples(state)
 	if uh.ForceIntegerMv || t.NumSamples == 0 || !uh.AllowWarpedMotion || t.isScaled(state.RefFrame[0], state, uh) {
 		useObmc := b.S()
@@ -268,6 +273,31 @@ func (t *TileGroup) readMotionMode(isCompound bool, b *bitstream.BitStream, uh u
 	}
 }
 
+// has_overlappable_candidates()
+func (t *TileGroup) hasOverlappableCandidates(state *state.State) bool {
+	if state.AvailU {
+		w4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]
+		for x4 := state.MiCol; x4 < util.Min(state.MiCols, state.MiCol+w4); x4 += 2 {
+			x5 := util.Min(x4|1, state.MiCols-1)
+			if state.RefFrames[state.MiRow-1][x5][0] > shared.INTRA_FRAME {
+				return true
+			}
+		}
+	}
+
+	if state.AvailL {
+		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
+		for y4 := state.MiRow; y4 < util.Min(state.MiRows, state.MiRow+h4); y4 += 2 {
+			y5 := util.Min(y4|1, state.MiRows-1)
+			if state.RefFrames[y5][state.MiCol-1][0] > shared.INTRA_FRAME {
+				return true
+			}
+		}
+	}
+
+	return false
+}
+
 // TODO: consider separate file for this procedure
 // find_warp_samples() 7.10.4.
 func (t *TileGroup) findWarpSamples(state *state.State) {
-- 
2.43.0


From f56ae6bab217d7c75d788804c59068e7633eaf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 167/207] fix: palette cache at the top of a tile

---
 internal/tilegroup/palette.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index e5245ec..f409ae8 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -143,7 +143,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 func (t *TileGroup) getPaletteCache(plane int, state *state.State) int {
 	aboveN := 0
 
-	if util.Bool((state.MiRow * MI_SIZE) % 64) {
+	if util.Bool((state.MiRow*MI_SIZE)%64) && state.AvailU {
 		aboveN = t.PaletteSizes[plane][state.MiRow-1][state.MiCol]
 	}
 
-- 
2.43.0


From 87e913c2160797a019e20164ca8e9624113b34fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:54 +0000
Subject: [PATCH 168/207] fix: left part of the palette cache

---
 internal/tilegroup/palette.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index f409ae8..fc9dab0 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -186,5 +186,14 @@ func (t *TileGroup) getPaletteCache(plane int, state *state.State) int {
 			n++
 		}
 	}
+
+	for leftIdx < leftN {
+		val := t.PaletteColors[plane][state.MiRow][state.MiCol-1][leftIdx]
+		leftIdx++
+		if n == 0 || val != t.PaletteCache[n-1] {
+			t.PaletteCache[n] = val
+			n++
+		}
+	}
 	return n
 }
-- 
2.43.0


From 2f4b8dce4bb73c87506920f242e546606eeaf377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:56 +0000
Subject: [PATCH 169/207] fix: cached U colours

---
 internal/tilegroup/palette.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index fc9dab0..dd8d99a 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -77,7 +77,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 				usePaletteColorCacheU := literal.L(1, state, b, uh)
 
 				if util.Bool(usePaletteColorCacheU) {
-					t.PaletteColorsY[idx] = t.PaletteCache[i]
+					t.PaletteColorsU[idx] = t.PaletteCache[i]
 					idx++
 				}
 			}
-- 
2.43.0


From ed2e5a9c1a3336301fbe0f83067d7b6a096a68a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:57 +0000
Subject: [PATCH 170/207] fix: width of Y palette deltas

---
 internal/tilegroup/palette.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index dd8d99a..42aff03 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -48,7 +48,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 
 			var paletteBits int
 			if idx < t.PaletteSizeY {
-				minBits := sh.ColorConfig.BitDepth - 1
+				minBits := sh.ColorConfig.BitDepth - 3
 				paletteNumExtraBitsY := literal.L(2, state, b, uh)
 				paletteBits = minBits + paletteNumExtraBitsY
 			}
-- 
2.43.0


From 535ae277e590546d55bc0368d9e85cba5157cd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:59 +0000
Subject: [PATCH 171/207] fix: range of U palette deltas

---
 internal/tilegroup/palette.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index 42aff03..7b665cd 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -97,7 +97,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 			for idx < t.PaletteSizeUV {
 				paletteDeltaU := literal.L(paletteBits, state, b, uh)
 				t.PaletteColorsU[idx] = util.Clip1(t.PaletteColorsU[idx-1]+paletteDeltaU, sh.ColorConfig.BitDepth)
-				rangE := (1 << sh.ColorConfig.BitDepth) - t.PaletteColorsU[idx] - 1
+				rangE := (1 << sh.ColorConfig.BitDepth) - t.PaletteColorsU[idx]
 				paletteBits = util.Min(paletteBits, util.CeilLog2(rangE))
 				idx++
 			}
-- 
2.43.0


From c24becdfa4bf01da81d3069ee4ee163642a62f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 172/207] fix: storage of the palettes

---
 internal/tilegroup/tile_group.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 7a4ecdb..17de61f 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -169,8 +169,8 @@ type TileGroup struct {
 	RefMvIdx            int
 	MvCtx               int
 	PaletteSizes        [2][2][2]int
-	PaletteColors       [][][][]int
-	PaletteCache        []int
+	PaletteColors       [2][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][PALETTE_COLORS]int
+	PaletteCache        [2 * PALETTE_COLORS]int
 	PaletteColorsY      []int
 	PaletteColorsU      []int
 	PaletteColorsV      []int
@@ -281,6 +281,10 @@ func NewExistingFrame(state *state.State, uh uncompressedheader.UncompressedHead
 }
 
 func (t *TileGroup) build(sz int, b *bitstream.BitStream, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
+	t.PaletteColorsY = make([]int, PALETTE_COLORS)
+	t.PaletteColorsU = make([]int, PALETTE_COLORS)
+	t.PaletteColorsV = make([]int, PALETTE_COLORS)
+
 	NumTiles := state.TileCols * state.TileRows
 	startbitPos := b.Position
 	tileStartAndEndPresentFlag := false
-- 
2.43.0


From 3555f96827884d78cd9a238b8320dfd0ec68be19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:03 +0000
Subject: [PATCH 173/207] fix: first colour index of a palette block

---
 internal/tilegroup/decode_block.go   | 2 +-
 internal/tilegroup/palette_tokens.go | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 330fd4c..a9aaa20 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -43,7 +43,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 	}
 
 	t.modeInfo(b, uh, sh, state)
-	t.paletteTokens(b, state, sh)
+	t.paletteTokens(b, state, sh, uh)
 	t.readBlockTxSize(b, state, uh)
 
 	if util.Bool(t.Skip) {
diff --git a/internal/tilegroup/palette_tokens.go b/internal/tilegroup/palette_tokens.go
index 4745caf..25b4077 100644
--- a/internal/tilegroup/palette_tokens.go
+++ b/internal/tilegroup/palette_tokens.go
@@ -2,21 +2,23 @@ package tilegroup
 
 import (
 	"github.com/m4tthewde/gov1/internal/bitstream"
+	"github.com/m4tthewde/gov1/internal/literal"
 	"github.com/m4tthewde/gov1/internal/sequenceheader"
 	"github.com/m4tthewde/gov1/internal/shared"
 	"github.com/m4tthewde/gov1/internal/state"
+	"github.com/m4tthewde/gov1/internal/uncompressedheader"
 	"github.com/m4tthewde/gov1/internal/util"
 )
 
 // palette_tokens()
-func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader) {
+func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
 	blockHeight := shared.BLOCK_HEIGHT[state.MiSize]
 	blockWidth := shared.BLOCK_WIDTH[state.MiSize]
 	onscreenHeight := util.Min(blockHeight, (state.MiRows-state.MiRow)*MI_SIZE)
 	onscreenWidth := util.Min(blockWidth, (state.MiCols-state.MiCol)*MI_SIZE)
 
 	if util.Bool(t.PaletteSizeY) {
-		colorIndexMapY := b.Ns(t.PaletteSizeY)
+		colorIndexMapY := literal.NS(t.PaletteSizeY, state, b, uh)
 		t.ColorMapY[0][0] = colorIndexMapY
 
 		for i := 1; i < onscreenHeight+onscreenWidth-1; i++ {
@@ -39,7 +41,7 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 	}
 
 	if util.Bool(t.PaletteSizeUV) {
-		colorIndexMapUv := b.Ns(t.PaletteSizeUV)
+		colorIndexMapUv := literal.NS(t.PaletteSizeUV, state, b, uh)
 		t.ColorMapUV[0][0] = colorIndexMapUv
 		blockHeight = blockHeight >> util.Int(sh.ColorConfig.SubsamplingY)
 		blockWidth = blockWidth >> util.Int(sh.ColorConfig.SubsamplingX)
-- 
2.43.0


From d003a320c585e42093f685321a1fa756d65783d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:20 +0000
Subject: [PATCH 174/207] fix: weight of the last nearest candidate

---
 internal/tilegroup/find_mv_stack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index fee730d..95e6080 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -68,7 +68,7 @@ func (t *TileGroup) findMvStack(isCompound bool, state *state.State, uh uncompre
 
 	// 15.
 	if numNearest > 0 {
-		for idx := 0; idx < numNearest-1; idx++ {
+		for idx := 0; idx < numNearest; idx++ {
 			t.WeightStack[idx] += REF_CAT_LEVEL
 		}
 	}
-- 
2.43.0


From 45288b202a040a38cef6ea1b64dc44f92a46bc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:21 +0000
Subject: [PATCH 175/207] fix: match of the outermost left column

---
 internal/tilegroup/find_mv_stack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 95e6080..8d89e50 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -134,7 +134,7 @@ func (t *TileGroup) findMvStack(isCompound bool, state *state.State, uh uncompre
 
 	// 31.
 	if t.FoundMatch == 1 {
-		foundAboveMatch = 1
+		foundLeftMatch = 1
 	}
 
 	// 32.
-- 
2.43.0


From c326b3541e5f6afe9a03d2573999ec4659a3b93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 176/207] fix: precision of temporal candidates

---
 internal/tilegroup/find_mv_stack.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 8d89e50..62a449c 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -322,7 +322,7 @@ func (t *TileGroup) temporalSampleProcess(deltaRow int, deltaCol int, isCompound
 			return
 		}
 
-		t.lowerPrecisionProcess(candMv, uh)
+		candMv = t.lowerPrecisionProcess(candMv, uh)
 
 		if deltaRow == 0 && deltaCol == 0 {
 			if util.Abs(candMv[0]-t.GlobalMvs[0][0]) >= 16 ||
@@ -356,8 +356,8 @@ func (t *TileGroup) temporalSampleProcess(deltaRow int, deltaCol int, isCompound
 		if candMv1[0] == -1<<15 {
 			return
 		}
-		t.lowerPrecisionProcess(candMv0, uh)
-		t.lowerPrecisionProcess(candMv1, uh)
+		candMv0 = t.lowerPrecisionProcess(candMv0, uh)
+		candMv1 = t.lowerPrecisionProcess(candMv1, uh)
 
 		if deltaRow == 0 && deltaCol == 0 {
 			if util.Abs(candMv0[0]-t.GlobalMvs[0][0]) >= 16 ||
-- 
2.43.0


From 14774e306399dea2c5167b8da77eab694106a952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:24 +0000
Subject: [PATCH 177/207] fix: precision of compound candidates

---
 internal/tilegroup/find_mv_stack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 62a449c..aabd542 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -460,7 +460,7 @@ func (t *TileGroup) compoundSearchStackProcess(mvRow int, mvCol int, weight int,
 	}
 
 	for i := 0; i <= 1; i++ {
-		t.lowerPrecisionProcess(candMvs[i], uh)
+		candMvs[i] = t.lowerPrecisionProcess(candMvs[i], uh)
 	}
 
 	t.FoundMatch = 1
-- 
2.43.0


From a21d2eaf74d13e0c332cd601fda5b53d0941704f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:26 +0000
Subject: [PATCH 178/207] fix: temporal candidates already on the stack

---
 internal/tilegroup/find_mv_stack.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index aabd542..b88e7df 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -334,7 +334,7 @@ func (t *TileGroup) temporalSampleProcess(deltaRow int, deltaCol int, isCompound
 		}
 
 		var idx int
-		for idx := 0; idx < t.NumMvFound; idx++ {
+		for idx = 0; idx < t.NumMvFound; idx++ {
 			if candMv[0] == t.RefStackMv[idx][0][0] &&
 				candMv[1] == t.RefStackMv[idx][0][1] {
 				break
@@ -371,7 +371,7 @@ func (t *TileGroup) temporalSampleProcess(deltaRow int, deltaCol int, isCompound
 
 		}
 		var idx int
-		for idx := 0; idx < t.NumMvFound; idx++ {
+		for idx = 0; idx < t.NumMvFound; idx++ {
 			if candMv0[0] == t.RefStackMv[idx][0][0] &&
 				candMv0[1] == t.RefStackMv[idx][0][1] &&
 				candMv1[0] == t.RefStackMv[idx][1][0] &&
-- 
2.43.0


From 7b1f09cc90c1bcc7b4f5580119538f678418a2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:27 +0000
Subject: [PATCH 179/207] fix: extra candidates

---
 internal/tilegroup/find_mv_stack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index b88e7df..fc03b73 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -678,7 +678,7 @@ func (t *TileGroup) addExtraMvCandidateProcess(mvRow int, mvCol int, isCompound
 					candMv[1] *= -1
 				}
 				var idx int
-				for idx := 0; idx < t.NumMvFound; idx++ {
+				for idx = 0; idx < t.NumMvFound; idx++ {
 					if util.Equals(candMv, t.RefStackMv[idx][0]) {
 						break
 					}
-- 
2.43.0


From 321b2970246cea4290fa72185b32d79ec0f9bdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:29 +0000
Subject: [PATCH 180/207] fix: repeated compound candidates

---
 internal/tilegroup/find_mv_stack.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index fc03b73..3910881 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -465,13 +465,16 @@ func (t *TileGroup) compoundSearchStackProcess(mvRow int, mvCol int, weight int,
 
 	t.FoundMatch = 1
 
-	for idx := 0; idx < t.NumMvFound; idx++ {
+	var idx int
+	for idx = 0; idx < t.NumMvFound; idx++ {
 		if candMvs[0] == t.RefStackMv[idx][0] && candMvs[1] == t.RefStackMv[idx][1] {
-			t.WeightStack[idx] += weight
+			break
 		}
 	}
 
-	if t.NumMvFound < MAX_REF_MV_STACK_SIZE {
+	if idx < t.NumMvFound {
+		t.WeightStack[idx] += weight
+	} else if t.NumMvFound < MAX_REF_MV_STACK_SIZE {
 		t.RefStackMv[t.NumMvFound][0] = candMvs[0]
 		t.RefStackMv[t.NumMvFound][1] = candMvs[1]
 		t.WeightStack[t.NumMvFound] = weight
-- 
2.43.0


From 00dce19586223f4468b5880fbbce1e29a908cc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:30 +0000
Subject: [PATCH 181/207] fix: swapping of candidates

---
 internal/tilegroup/find_mv_stack.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 3910881..2ec9029 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -538,6 +538,7 @@ func (t *TileGroup) swapStack(i int, j int, isCompound bool) {
 
 	for list := 0; list < 1+util.Int(isCompound); list++ {
 		for comp := 0; comp < 2; comp++ {
+			temp = t.RefStackMv[i][list][comp]
 			t.RefStackMv[i][list][comp] = t.RefStackMv[j][list][comp]
 			t.RefStackMv[j][list][comp] = temp
 		}
-- 
2.43.0


From aac1d4713eea6974b3f507e242647851d4b381dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:32 +0000
Subject: [PATCH 182/207] fix: extra search

---
 internal/tilegroup/find_mv_stack.go | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 2ec9029..ad43b80 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -572,20 +572,12 @@ func (t *TileGroup) extraSearchProcess(isCompound bool, state *state.State, uh u
 				mvCol = state.MiCol - 1
 			}
 
-			if t.isInside(mvRow, mvCol, state) {
+			if !t.isInside(mvRow, mvCol, state) {
 				break
 			}
 
 			t.addExtraMvCandidateProcess(mvRow, mvCol, isCompound, state, uh)
 
-			// Unsure if negative indexing here is intended
-			if mvRow < 0 {
-				mvRow = len(state.MiSizes) + mvRow
-			}
-			if mvCol < 0 {
-				mvCol = len(state.MiSizes) + mvCol
-			}
-
 			if pass == 0 {
 				idx += shared.NUM_4X4_BLOCKS_WIDE[state.MiSizes[mvRow][mvCol]]
 			} else {
@@ -641,15 +633,6 @@ func (t *TileGroup) extraSearchProcess(isCompound bool, state *state.State, uh u
 
 // 7.10.2.13 Add extra mv candidate process
 func (t *TileGroup) addExtraMvCandidateProcess(mvRow int, mvCol int, isCompound bool, state *state.State, uh uncompressedheader.UncompressedHeader) {
-	// Unsure if negative indexing here is intended
-	if mvRow < 0 {
-		mvRow = len(state.RefFrames) + mvRow
-	}
-
-	if mvCol < 0 {
-		mvCol = len(state.RefFrames) + mvCol
-	}
-
 	var candRef int
 	var candMv [2]int
 	if isCompound {
-- 
2.43.0


From 84f3b5465b68de00f7b3fbceaa54222397ab2130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:34 +0000
Subject: [PATCH 183/207] fix: storage of the extra compound candidates

---
 internal/tilegroup/tile_group.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 17de61f..906d0f4 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -156,9 +156,9 @@ type TileGroup struct {
 	CloseMatches        int
 	RefStackMv          [2][2][2]int
 	RefIdCount          [2]int
-	RefIdMvs            [][][2]int
+	RefIdMvs            [2][2][2]int
 	RefDiffCount        [2]int
-	RefDiffMvs          [][][2]int
+	RefDiffMvs          [2][2][2]int
 	WeightStack         [8]int
 	AngleDeltaY         int
 	AngleDeltaUV        int
-- 
2.43.0


From dca8f6c588ebbc2eb0cd64b3000d32db24c371ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:35 +0000
Subject: [PATCH 184/207] fix: size of the motion vector stack

---
 internal/tilegroup/tile_group.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 906d0f4..2a2bfcd 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -154,7 +154,7 @@ type TileGroup struct {
 	FoundMatch          int
 	TotalMatches        int
 	CloseMatches        int
-	RefStackMv          [2][2][2]int
+	RefStackMv          [MAX_REF_MV_STACK_SIZE][2][2]int
 	RefIdCount          [2]int
 	RefIdMvs            [2][2][2]int
 	RefDiffCount        [2]int
@@ -239,7 +239,7 @@ type TileGroup struct {
 	BckWeight int
 
 	ZeroMvContext int
-	DrlCtxStack   [1]int
+	DrlCtxStack   [MAX_REF_MV_STACK_SIZE]int
 
 	MaxLumaH int
 	MaxLumaW int
-- 
2.43.0


From cbd323c5e0a8f007469b9d88aa3d7920ee51950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:37 +0000
Subject: [PATCH 185/207] fix: temporal samples around the block

---
 internal/tilegroup/find_mv_stack.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index ad43b80..40cf66c 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -298,6 +298,25 @@ func (t *TileGroup) temporalScanProcess(isCompound bool, state *state.State, uh
 		}
 	}
 
+	min4 := shared.NUM_4X4_BLOCKS_HIGH[shared.BLOCK_8X8]
+	max4 := shared.NUM_4X4_BLOCKS_HIGH[shared.BLOCK_64X64]
+	if bh4 >= min4 && bh4 < max4 && bw4 >= min4 && bw4 < max4 {
+		tplSamplePos := [3][2]int{{bh4, -2}, {bh4, bw4}, {bh4 - 2, bw4}}
+		for i := 0; i < 3; i++ {
+			deltaRow := tplSamplePos[i][0]
+			deltaCol := tplSamplePos[i][1]
+			if t.checkSbBorder(deltaRow, deltaCol, state) {
+				t.temporalSampleProcess(deltaRow, deltaCol, isCompound, state, uh)
+			}
+		}
+	}
+}
+
+// check_sb_border( deltaRow, deltaCol )
+func (t *TileGroup) checkSbBorder(deltaRow int, deltaCol int, state *state.State) bool {
+	row := (state.MiRow & 15) + deltaRow
+	col := (state.MiCol & 15) + deltaCol
+	return row >= 0 && row < 16 && col >= 0 && col < 16
 }
 
 // 7.10.2.6 Temporal sample process
-- 
2.43.0


From 30a033875c34c29f36c981a43f66ff98d2cde722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:38 +0000
Subject: [PATCH 186/207] fix: candidates that have not been decoded yet

---
 internal/tilegroup/tile_group.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 2a2bfcd..bed2bd2 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -813,6 +813,13 @@ func (t *TileGroup) clearLeftContext(state *state.State) {
 func (t *TileGroup) decodeTile(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
 	t.clearAboveContext(state)
 
+	// positions of this tile that have not been decoded yet offer no candidate
+	for row := state.MiRowStart; row < state.MiRowEnd; row++ {
+		for col := state.MiColStart; col < state.MiColEnd; col++ {
+			state.RefFrames[row][col][0] = shared.INTRA_FRAME
+		}
+	}
+
 	for i := 0; i < shared.FRAME_LF_COUNT; i++ {
 		state.DeltaLF[i] = 0
 	}
-- 
2.43.0


From 9ddc515e4847f1e620c6b9008bd3cb409eda939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:38 +0000
Subject: [PATCH 187/207] fix: storage of the inverse transform

---
 internal/tilegroup/tile_group.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index bed2bd2..383415c 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -249,8 +249,8 @@ type TileGroup struct {
 	TxType            int
 	PlaneTxType       int
 	TxTypes           [2][2]int
-	T                 []int
-	Residual          [][]int
+	T                 [64]int
+	Residual          [64][64]int
 	LoopFilterTxSizes [3][2][2]int
 
 	NewMvContext  int
-- 
2.43.0


From 9f006b7cd5048c21652821a49b28fbf8eaf6e220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 188/207] fix: butterfly rotation

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 3b7452f..afcacf4 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -113,7 +113,7 @@ func (t *TileGroup) b(a int, b int, angle int, flag int, r int) {
 		return
 	}
 	x := t.T[a]*util.Cos128(angle) - t.T[b]*util.Sin128(angle)
-	y := t.T[a]*util.Sin128(angle) - t.T[b]*util.Cos128(angle)
+	y := t.T[a]*util.Sin128(angle) + t.T[b]*util.Cos128(angle)
 	t.T[a] = util.Round2(x, 12)
 	t.T[b] = util.Round2(y, 12)
 }
-- 
2.43.0


From ab5518228b15a14caaeec854425a78b1e4a82e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:41 +0000
Subject: [PATCH 189/207] fix: input of the column transforms

---
 internal/tilegroup/transform.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index afcacf4..08cfc5b 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -78,6 +78,10 @@ func (t *TileGroup) InverseTranform(txSz int, sh sequenceheader.SequenceHeader)
 	}
 
 	for j := 0; j < w; j++ {
+		for i := 0; i < h; i++ {
+			t.T[i] = t.Residual[i][j]
+		}
+
 		if t.Lossless {
 			t.inverseWalshHadamardTransform(0)
 		} else if t.PlaneTxType == DCT_DCT ||
-- 
2.43.0


From b58646d796feb88cc7441aff287bf8b314574d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:42 +0000
Subject: [PATCH 190/207] fix: output of the column transforms

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 08cfc5b..e5a5880 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -103,7 +103,7 @@ func (t *TileGroup) InverseTranform(txSz int, sh sequenceheader.SequenceHeader)
 		}
 
 		for i := 0; i < h; i++ {
-			t.Residual[i][j] = util.Round2(t.T[j], colShift)
+			t.Residual[i][j] = util.Round2(t.T[i], colShift)
 		}
 	}
 }
-- 
2.43.0


From 69d7b4b4e1fd8e39395e827870af20db0eb74b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:44 +0000
Subject: [PATCH 191/207] fix: scratch space of the 4 point ADST

---
 internal/tilegroup/transform.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index e5a5880..3d979d4 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -386,8 +386,8 @@ const SINPI_4_9 = 3803
 // 7.13.2.6 Inverse ADST4 process
 func (t *TileGroup) inverseADST4(r int) {
 	// TODO: bistream conformance precision ???
-	s := []int{}
-	x := []int{}
+	var s [7]int
+	var x [4]int
 
 	s[0] = SINPI_1_9 * t.T[0]
 	s[1] = SINPI_2_9 * t.T[0]
-- 
2.43.0


From 94d8fb9bd2179fc6f7e1ca581096114ec518e1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:45 +0000
Subject: [PATCH 192/207] fix: output permutation of the 8 point ADST

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 3d979d4..95fee0f 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -440,7 +440,7 @@ func (t *TileGroup) inverseADST8(r int) {
 		t.b(2+4*i, 3+4*i, 32, 1, r)
 	}
 
-	t.inverseADSTOutputArrayPermutation(4)
+	t.inverseADSTOutputArrayPermutation(3)
 }
 
 // 7.13.2.8 Inverse ADST16 process
-- 
2.43.0


From 5b8df30ff9f6bdf5f0acc42761d3e494c047981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:48 +0000
Subject: [PATCH 193/207] fix: AC quantizer

---
 internal/tilegroup/reconstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/reconstruct.go b/internal/tilegroup/reconstruct.go
index b50e99e..237cf44 100644
--- a/internal/tilegroup/reconstruct.go
+++ b/internal/tilegroup/reconstruct.go
@@ -127,7 +127,7 @@ func (t *TileGroup) getAcQuant(plane int, sh sequenceheader.SequenceHeader, uh u
 }
 
 func acQ(b int, sh sequenceheader.SequenceHeader) int {
-	return Dc_Qlookup[(sh.ColorConfig.BitDepth-8)>>1][util.Clip3(0, 255, b)]
+	return Ac_Qlookup[(sh.ColorConfig.BitDepth-8)>>1][util.Clip3(0, 255, b)]
 }
 
 var Dc_Qlookup = [][]int{
-- 
2.43.0


From ca7d24fcebb3ed52fc9878545f66326f017bb037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 194/207] fix: number of coefficients

---
 internal/tilegroup/coeffs.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index 8c9d7ad..6603d43 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -87,7 +87,6 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 			eobPt = eob_pt_1024 + 1
 		}
 
-		var eob int
 		if eobPt < 2 {
 			eob = eobPt
 		} else {
-- 
2.43.0


From d0f1fae1d5439332b0224591a78d3a8de1cfa288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:52 +0000
Subject: [PATCH 195/207] fix: sign of AC coefficients

---
 internal/tilegroup/coeffs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index 6603d43..a4da794 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -143,7 +143,7 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 					dcSign := t.readDcSignSymbol(plane, w4, h4, x4, y4, ptype, state, b, uh, sh)
 					sign = dcSign
 				} else {
-					signBit := literal.L(0, state, b, uh)
+					signBit := literal.L(1, state, b, uh)
 					sign = signBit
 				}
 			} else {
-- 
2.43.0


From ab22832ddca76fcc62d3e35d6aa29c7b3ee4078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:53 +0000
Subject: [PATCH 196/207] fix: range of coefficients

---
 internal/tilegroup/coeffs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index a4da794..490cd95 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -175,7 +175,7 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 				}
 			}
 
-			t.Quant[pos] = t.Quant[pos] & 0xFFFF
+			t.Quant[pos] = t.Quant[pos] & 0xFFFFF
 			culLevel += t.Quant[pos]
 			if util.Bool(sign) {
 				t.Quant[pos] = -t.Quant[pos]
-- 
2.43.0


From 058730f7229fa10f13cb68c27b4d0fbc23d31af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:12 +0000
Subject: [PATCH 197/207] fix: steps of the loop filter

---
 internal/tilegroup/loop_filter_process.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index f173fe2..8365071 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -15,9 +15,9 @@ func (t *TileGroup) loopFilter(state *state.State, uh uncompressedheader.Uncompr
 			for pass := 0; pass < 2; pass++ {
 				rowStep := 1
 				colStep := 1
-				if plane == 0 {
-					rowStep = 1 << util.Int(sh.ColorConfig.SubsamplingX)
-					colStep = 1 << util.Int(sh.ColorConfig.SubsamplingY)
+				if plane > 0 {
+					rowStep = 1 << util.Int(sh.ColorConfig.SubsamplingY)
+					colStep = 1 << util.Int(sh.ColorConfig.SubsamplingX)
 				}
 
 				for row := 0; row < state.MiRows; row += rowStep {
-- 
2.43.0


From 90c52a4af74533496b90172a61407f416de23b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:14 +0000
Subject: [PATCH 198/207] fix: level of edges next to an unfiltered block

---
 internal/tilegroup/loop_filter_process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 8365071..fdd1c01 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -116,7 +116,7 @@ func (t *TileGroup) loopFilterEdge(plane int, pass bool, row int, col int, sh se
 	lvl, limit, blimit, thresh := t.adaptiveFilterStrength(row, col, plane, pass, state, uh)
 
 	if lvl == 0 {
-		lvl, limit, blimit, thresh = t.adaptiveFilterStrength(row, col, plane, pass, state, uh)
+		lvl, limit, blimit, thresh = t.adaptiveFilterStrength(prevRow, prevCol, plane, pass, state, uh)
 	}
 
 	for i := 0; i < MI_SIZE; i++ {
-- 
2.43.0


From b20e456566954bb286efca97609e3cb7a5abf985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:15 +0000
Subject: [PATCH 199/207] fix: filter size of horizontal edges

---
 internal/tilegroup/loop_filter_process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index fdd1c01..2cde378 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -132,7 +132,7 @@ func (t *TileGroup) filterSize(txSz int, prevTxSz int, pass bool, plane int) int
 	if !pass {
 		baseSize = util.Min(Tx_Width[prevTxSz], Tx_Width[txSz])
 	} else {
-		baseSize = util.Min(Tx_Height[prevTxSz], Tx_Height[prevTxSz])
+		baseSize = util.Min(Tx_Height[prevTxSz], Tx_Height[txSz])
 
 	}
 
-- 
2.43.0


From 63710b8099879153b493a10735cdd93ce38e5cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:17 +0000
Subject: [PATCH 200/207] fix: mode type of global compound blocks

---
 internal/tilegroup/loop_filter_process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 2cde378..2936bf0 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -150,7 +150,7 @@ func (t *TileGroup) adaptiveFilterStrength(row int, col int, plane int, pass boo
 	mode := t.YModes[row][col]
 
 	var modeType int
-	if mode >= shared.NEARESTMV && mode != shared.GLOBALMV {
+	if mode >= shared.NEARESTMV && mode != shared.GLOBALMV && mode != shared.GLOBAL_GLOBALMV {
 		modeType = 1
 	} else {
 		modeType = 0
-- 
2.43.0


From 33ba1ba4d2819c536e351ea4a03f4de1a98fafca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:18 +0000
Subject: [PATCH 201/207] fix: limit shift of low sharpness

---
 internal/tilegroup/loop_filter_process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 2936bf0..f382879 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -173,7 +173,7 @@ func (t *TileGroup) adaptiveFilterStrength(row int, col int, plane int, pass boo
 	if uh.LoopFilterSharpness > 4 {
 		shift = 2
 	} else if uh.LoopFilterSharpness > 0 {
-		shift = 2
+		shift = 1
 	} else {
 		shift = 0
 	}
-- 
2.43.0


From dbf91719561fe65246017134a34fa9081754d5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:20 +0000
Subject: [PATCH 202/207] fix: samples used by the filter masks

---
 internal/tilegroup/loop_filter_process.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index f382879..9728e4f 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -243,16 +243,10 @@ func (t *TileGroup) filterMask(x int, y int, plane int, limit int, blimit int, t
 	q1 := state.CurrFrame[plane][y+dy][x+dx]
 	q2 := state.CurrFrame[plane][y+dy*2][x+dx*2]
 	q3 := state.CurrFrame[plane][y+dy*3][x+dx*3]
-	q4 := state.CurrFrame[plane][y+dy*4][x+dx*4]
-	q5 := state.CurrFrame[plane][y+dy*5][x+dx*5]
-	q6 := state.CurrFrame[plane][y+dy*6][x+dx*6]
 	p0 := state.CurrFrame[plane][y-dy][x-dx]
 	p1 := state.CurrFrame[plane][y-dy*2][x-dx*2]
 	p2 := state.CurrFrame[plane][y-dy*3][x-dx*3]
 	p3 := state.CurrFrame[plane][y-dy*4][x-dx*4]
-	p4 := state.CurrFrame[plane][y-dy*5][x-dx*5]
-	p5 := state.CurrFrame[plane][y-dy*6][x-dx*6]
-	p6 := state.CurrFrame[plane][y-dy*7][x-dx*7]
 
 	hevMask := 0
 	threshBd := thresh << (sh.ColorConfig.BitDepth - 8)
@@ -304,6 +298,12 @@ func (t *TileGroup) filterMask(x int, y int, plane int, limit int, blimit int, t
 	var flatMask2 int
 	thresholdBd = 1 << (sh.ColorConfig.BitDepth - 8)
 	if filterSize >= 16 {
+		q4 := state.CurrFrame[plane][y+dy*4][x+dx*4]
+		q5 := state.CurrFrame[plane][y+dy*5][x+dx*5]
+		q6 := state.CurrFrame[plane][y+dy*6][x+dx*6]
+		p4 := state.CurrFrame[plane][y-dy*5][x-dx*5]
+		p5 := state.CurrFrame[plane][y-dy*6][x-dx*6]
+		p6 := state.CurrFrame[plane][y-dy*7][x-dx*7]
 		mask = 0
 		mask |= util.Int((util.Abs(p6-p0) > thresholdBd))
 		mask |= util.Int((util.Abs(q6-q0) > thresholdBd))
-- 
2.43.0


From cf7a0e9d0425b6877b18cc32c6d0d9ff5b893197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 203/207] fix: scan of 64x16 blocks

---
 internal/tilegroup/coeffs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index 490cd95..123bf75 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -500,7 +500,7 @@ func (t *TileGroup) getScan(txSz int) []int {
 	}
 
 	if txSz == TX_64X16 {
-		return Default_Scan_16x32
+		return Default_Scan_32x16
 	}
 
 	if TX_SIZE_SQR_UP[txSz] == TX_64X64 {
-- 
2.43.0


From a6e0353644673f3f7455f43216c32f961a85d8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:33 +0000
Subject: [PATCH 204/207] fix: last block of a HORZ_A partition

The third block of a HORZ_A partition is the lower half of the block (AV1
specification 5.11.4); it was decoded with the size of a quarter, so the lower
right quarter was never decoded.
---
 internal/tilegroup/decode_partition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index facbe13..d17bae2 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -70,7 +70,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 	} else if partition == PARTITION_HORZ_A {
 		t.decodeBlock(r, c, splitSize, b, state, sh, uh)
 		t.decodeBlock(r, c+halfBlock4x4, splitSize, b, state, sh, uh)
-		t.decodeBlock(r+halfBlock4x4, c, splitSize, b, state, sh, uh)
+		t.decodeBlock(r+halfBlock4x4, c, subSize, b, state, sh, uh)
 	} else if partition == PARTITION_HORZ_B {
 		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 		t.decodeBlock(r+halfBlock4x4, c, splitSize, b, state, sh, uh)
-- 
2.43.0


From bcdd63a0e86d9d4211eb0f4a92c7516ffd97d279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 205/207] fix: context of single_ref_p2

The symbol separates BWDREF and ALTREF2 from ALTREF, so its context compares
the uses of these; it was compared as for single_ref_p6.
---
 internal/tilegroup/syntax_element.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/syntax_element.go b/internal/tilegroup/syntax_element.go
index e515381..44a1d6c 100644
--- a/internal/tilegroup/syntax_element.go
+++ b/internal/tilegroup/syntax_element.go
@@ -54,9 +54,9 @@ func (t *TileGroup) singleRefP1Symbol(state *state.State, b *bitstream.BitStream
 }
 
 func (t *TileGroup) singleRefP2Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
-	brfCount := t.countRefs(shared.BWDREF_FRAME, state)
-	arf2Count := t.countRefs(shared.ALTREF2_FRAME, state)
-	ctx := refCountCtx(brfCount, arf2Count)
+	brfarf2Count := t.countRefs(shared.BWDREF_FRAME, state) + t.countRefs(shared.ALTREF2_FRAME, state)
+	arfCount := t.countRefs(shared.ALTREF_FRAME, state)
+	ctx := refCountCtx(brfarf2Count, arfCount)
 
 	return symbol.ReadSymbol(state.TileSingleRefCdf[ctx][1], state, b, uh)
 }
-- 
2.43.0


From a9a9a7535b583dec05f3eb3e90df5b938454946f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 206/207] fix: context of single_ref_p4

The symbol separates LAST from LAST2, so its context compares the uses of
these; it compared all forward with all backward references as for
single_ref_p1.
---
 internal/tilegroup/syntax_element.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/internal/tilegroup/syntax_element.go b/internal/tilegroup/syntax_element.go
index 44a1d6c..82e4848 100644
--- a/internal/tilegroup/syntax_element.go
+++ b/internal/tilegroup/syntax_element.go
@@ -69,14 +69,9 @@ func (t *TileGroup) singleRefP3Symbol(state *state.State, b *bitstream.BitStream
 }
 
 func (t *TileGroup) singleRefP4Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
-	fwdCount := t.countRefs(shared.LAST_FRAME, state)
-	fwdCount += t.countRefs(shared.LAST2_FRAME, state)
-	fwdCount += t.countRefs(shared.LAST3_FRAME, state)
-	fwdCount += t.countRefs(shared.GOLDEN_FRAME, state)
-	bwdCount := t.countRefs(shared.BWDREF_FRAME, state)
-	bwdCount += t.countRefs(shared.ALTREF2_FRAME, state)
-	bwdCount += t.countRefs(shared.ALTREF_FRAME, state)
-	ctx := refCountCtx(fwdCount, bwdCount)
+	lastCount := t.countRefs(shared.LAST_FRAME, state)
+	last2Count := t.countRefs(shared.LAST2_FRAME, state)
+	ctx := refCountCtx(lastCount, last2Count)
 	return symbol.ReadSymbol(state.TileSingleRefCdf[ctx][3], state, b, uh)
 }
 
-- 
2.43.0


From a92fe61dcecdf9423124b0e547cb51f937b4c0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:14 +0000
Subject: [PATCH 207/207] fix: frames without superres are not resampled

---
 internal/tilegroup/decode_frame_wrapup.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 006b738..f82322d 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -24,6 +24,16 @@ func (t *TileGroup) upscalingProcess(inputFrame [3][16][16]int, state *state.Sta
 		downscaledPlaneW := util.Round2(uh.FrameWidth, subX)
 		upscaledPlaneW := util.Round2(uh.UpscaledWidth, subX)
 		planeH := util.Round2(uh.FrameHeight, subY)
+
+		if !uh.UseSuperRes {
+			for y := 0; y < planeH; y++ {
+				for x := 0; x < upscaledPlaneW; x++ {
+					outputFrame[plane][y][x] = inputFrame[plane][y][x]
+				}
+			}
+			continue
+		}
+
 		stepX := ((downscaledPlaneW << SUPERRES_SCALE_BITS) + (upscaledPlaneW / 2)) / upscaledPlaneW
 		err := (upscaledPlaneW * stepX) - (downscaledPlaneW << SUPERRES_SCALE_BITS)
 		initialSubpelX :=
-- 
2.43.0

