From 20b735bdc970298e2f1d311e2b4c730c3ff0723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:09 +0000
Subject: [PATCH 01/52] fix: ring block pool must not fill up completely when
 wrapped

When a wrapped pool was filled exactly, tail == head was taken for the
not-wrapped state and the next block overwrote the oldest live one.
---
 collections/buffer_rb.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index b605fe4..6bc98bc 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -60,11 +60,11 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 	}
 
 	over := tail < head
-	if over && head-tail >= size {
-		// 已经回环, 并且头部有大小合适的内存空间
+	if over && head-tail > size {
+		// 已经回环, 并且头部有大小合适的内存空间. 不能写满, tail==head会被误认为没有回环
 	} else if !over && r.capacity-tail >= size {
 		// 尾部有大小合适的内存空间
-	} else if !over && head >= oldBlock.size+size {
+	} else if !over && head > oldBlock.size+size {
 		// 形成回环, 尾部空间不够, 但是头部空间足够
 
 		// 修改有效内存容量大小, 前一个完整block的结束位置
-- 
2.43.0


From 7057ee80017ab889fbc65d2bb282193261d0fcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:09 +0000
Subject: [PATCH 02/52] fix: ring block pool forgets discarded blocks when it
 grows again

A second growth overwrote the number of blocks left in replaced arrays, so
later Pops removed blocks that were still in use.
---
 collections/buffer_rb.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index 6bc98bc..d350baf 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -82,10 +82,12 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 		oldBlock.index = 0
 		tail = oldBlock.size
 
-		r.discardBlockCount = bufio.MaxInt(r.blocks.Size()-1, 0)
-		for i := 0; i < r.discardBlockCount; i++ {
+		// 可能连续多次扩容, 累加丢弃的内存块数量
+		discardBlockCount := bufio.MaxInt(r.blocks.Size()-1, 0)
+		for i := 0; i < discardBlockCount; i++ {
 			r.blocks.Pop()
 		}
+		r.discardBlockCount += discardBlockCount
 	}
 
 	bytes := r.data[tail : tail+size]
-- 
2.43.0


From 664eb41fc26cb19d64420287778a993352a81ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:09 +0000
Subject: [PATCH 03/52] fix: buffer split off a linear block pool starts at its
 own beginning

It kept the parent's write offset although it only holds the free tail, so it
wasted or ran out of space and Data() exposed or exceeded it.
---
 collections/buffer_direct.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/collections/buffer_direct.go b/collections/buffer_direct.go
index daea3e6..9d01835 100644
--- a/collections/buffer_direct.go
+++ b/collections/buffer_direct.go
@@ -129,7 +129,6 @@ func (b *DirectBlockBuffer) SplitOff() BlockBuffer {
 			size      int
 			completed bool
 		}](64),
-		nextOffset: b.nextOffset,
 	}
 }
 
-- 
2.43.0


From 2152d424d1bdac208b328224d0777d34f29e05aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:09 +0000
Subject: [PATCH 04/52] fix: StreamsBuffer panics when streams are not first
 used in index order

---
 streams_buffer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/streams_buffer.go b/streams_buffer.go
index 7e88f5b..e37ff55 100644
--- a/streams_buffer.go
+++ b/streams_buffer.go
@@ -10,8 +10,7 @@ type StreamsBuffer struct {
 }
 
 func (s *StreamsBuffer) findOrCreateStreamBuffer(index int, mediaType utils.AVMediaType) *collections.RBBlockBuffer {
-	exist := index < len(s.buffers)
-	if !exist {
+	for index >= len(s.buffers) {
 		if utils.AVMediaTypeVideo == mediaType {
 			s.buffers = append(s.buffers, collections.NewRBBlockBuffer(1024*1024*2))
 		} else {
-- 
2.43.0


From 28bb324f4e6df72fd6784c21cf3ef73019179aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:29 +0000
Subject: [PATCH 05/52] fix: reading a negative number of bytes panics instead
 of failing

---
 bufio/bytes_reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bufio/bytes_reader.go b/bufio/bytes_reader.go
index 2c5a365..07ec7a1 100644
--- a/bufio/bytes_reader.go
+++ b/bufio/bytes_reader.go
@@ -2,6 +2,7 @@ package bufio
 
 import (
 	"encoding/binary"
+	"fmt"
 )
 
 type BytesReader interface {
@@ -66,6 +67,10 @@ func (b *bytesReader) ReadUint64() (uint64, error) {
 }
 
 func (b *bytesReader) ReadBytes(size int) ([]byte, error) {
+	if size < 0 {
+		return nil, fmt.Errorf("invalid size %d", size)
+	}
+
 	tmp := b.offset
 	if err := b.peekN(size); err != nil {
 		return nil, err
-- 
2.43.0


From 684d9bcb04e755d838c2699342b5cdcb177a281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:29 +0000
Subject: [PATCH 06/52] fix: negative signed Exp-Golomb codes decode to the
 wrong value

-res / 2 negates first and divides the unsigned result.
---
 bufio/golomb_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bufio/golomb_reader.go b/bufio/golomb_reader.go
index 6d8d003..8c08d94 100644
--- a/bufio/golomb_reader.go
+++ b/bufio/golomb_reader.go
@@ -83,7 +83,7 @@ func (self *GolombBitReader) ReadSE() (res uint, err error) {
 	if res&0x01 != 0 {
 		res = (res + 1) / 2
 	} else {
-		res = -res / 2
+		res = -(res / 2)
 	}
 	return
 }
-- 
2.43.0


From 0bdfe77f8499b392ceb4a6d12a5dd44996c6cf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:28 +0000
Subject: [PATCH 07/52] fix: H.264 SPS is parsed without removing emulation
 prevention bytes

A 00 00 03 sequence (usual in the timing information) shifted every later
field, giving a wrong frame rate or size.
---
 avc/sps.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/avc/sps.go b/avc/sps.go
index 3249ab1..03f3d4b 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -28,6 +28,8 @@ type SPS struct {
 
 func ParseSPS(data []byte) (s SPS, err error) {
 	data = RemoveStartCode(data)
+	// 去掉防竞争字节
+	data = bytes.ReplaceAll(data, []byte{0x0, 0x0, 0x3}, []byte{0x0, 0x0})
 	r := &bufio.GolombBitReader{R: bytes.NewReader(data)}
 
 	if _, err = r.ReadBits(8); err != nil {
-- 
2.43.0


From 3680279348e3e6382248f157d9cf7b9ce0842f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:28 +0000
Subject: [PATCH 08/52] fix: H.264 SPS cropping ignores interlacing and chroma
 format

Crop units are 2 samples only for progressive 4:2:0; a 1080i stream was
reported as 1084 lines high.
---
 avc/sps.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/avc/sps.go b/avc/sps.go
index 03f3d4b..ec647d7 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -56,19 +56,20 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		return
 	}
 
+	// chroma_format_idc缺省值为1(4:2:0)
+	chroma_format_idc, separate_colour_plane_flag := uint(1), uint(0)
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
 		s.ProfileIdc == 86 || s.ProfileIdc == 118 {
 
-		var chroma_format_idc uint
 		if chroma_format_idc, err = r.ReadExponentialGolombCode(); err != nil {
 			return
 		}
 
 		if chroma_format_idc == 3 {
-			// residual_colour_transform_flag
-			if _, err = r.ReadBit(); err != nil {
+			// separate_colour_plane_flag
+			if separate_colour_plane_flag, err = r.ReadBit(); err != nil {
 				return
 			}
 		}
@@ -216,8 +217,19 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		}
 	}
 
-	s.Width = int((s.MbWidth * 16) - s.CropLeft*2 - s.CropRight*2)
-	s.Height = int(((2 - frame_mbs_only_flag) * s.MbHeight * 16) - s.CropTop*2 - s.CropBottom*2)
+	// 裁剪单位(7-19~7-22)
+	cropUnitX, cropUnitY := uint(1), 2-frame_mbs_only_flag
+	if separate_colour_plane_flag == 0 {
+		if chroma_format_idc == 1 || chroma_format_idc == 2 {
+			cropUnitX = 2
+		}
+		if chroma_format_idc == 1 {
+			cropUnitY *= 2
+		}
+	}
+
+	s.Width = int((s.MbWidth * 16) - (s.CropLeft+s.CropRight)*cropUnitX)
+	s.Height = int(((2 - frame_mbs_only_flag) * s.MbHeight * 16) - (s.CropTop+s.CropBottom)*cropUnitY)
 
 	vui_parameter_present_flag, err := r.ReadBit()
 	if err != nil {
-- 
2.43.0


From 2942d5d9eab643f53dca934fabec74f8d1deb006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:28 +0000
Subject: [PATCH 09/52] fix: H.264 SPS of a 4:4:4 stream has 12 scaling lists,
 not 8

---
 avc/sps.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/avc/sps.go b/avc/sps.go
index ec647d7..f2b0683 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -93,7 +93,12 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		}
 
 		if seq_scaling_matrix_present_flag != 0 {
-			for i := 0; i < 8; i++ {
+			scalingListCount := 8
+			if chroma_format_idc == 3 {
+				scalingListCount = 12
+			}
+
+			for i := 0; i < scalingListCount; i++ {
 				var seq_scaling_list_present_flag uint
 				if seq_scaling_list_present_flag, err = r.ReadBit(); err != nil {
 					return
-- 
2.43.0


From d4920b0fb0db4e2a6f40cc0cbc6a67da2cfa1781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:28 +0000
Subject: [PATCH 10/52] fix: H.264 SPS of the remaining high profiles lacks the
 chroma format fields

---
 avc/sps.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/avc/sps.go b/avc/sps.go
index f2b0683..4cd97c0 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -61,7 +61,10 @@ func ParseSPS(data []byte) (s SPS, err error) {
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
-		s.ProfileIdc == 86 || s.ProfileIdc == 118 {
+		s.ProfileIdc == 86 || s.ProfileIdc == 118 ||
+		s.ProfileIdc == 128 || s.ProfileIdc == 138 ||
+		s.ProfileIdc == 139 || s.ProfileIdc == 134 ||
+		s.ProfileIdc == 135 {
 
 		if chroma_format_idc, err = r.ReadExponentialGolombCode(); err != nil {
 			return
-- 
2.43.0


From b9373c28c10d4aa94f08f2f5c277036ca95a6187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:28 +0000
Subject: [PATCH 11/52] fix: H.265 width and height ignore the conformance
 window

A 1080p stream coded with 1088 lines was reported as 1088 lines high.
---
 hevc/sps.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/hevc/sps.go b/hevc/sps.go
index c25c1b1..7191a24 100644
--- a/hevc/sps.go
+++ b/hevc/sps.go
@@ -82,18 +82,30 @@ func ParseSPS(sps []byte) (ctx HEVCSPSInfo, err error) {
 		return
 	}
 	if conformanceWindowFlag != 0 {
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
+		var left, right, top, bottom uint
+		if left, err = br.ReadExponentialGolombCode(); err != nil {
 			return
 		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
+		if right, err = br.ReadExponentialGolombCode(); err != nil {
 			return
 		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
+		if top, err = br.ReadExponentialGolombCode(); err != nil {
 			return
 		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
+		if bottom, err = br.ReadExponentialGolombCode(); err != nil {
 			return
 		}
+
+		// 裁剪单位(SubWidthC, SubHeightC)
+		subWidthC, subHeightC := uint(1), uint(1)
+		if ctx.chromaFormat == 1 || ctx.chromaFormat == 2 {
+			subWidthC = 2
+		}
+		if ctx.chromaFormat == 1 {
+			subHeightC = 2
+		}
+		ctx.Width -= int(subWidthC * (left + right))
+		ctx.Height -= int(subHeightC * (top + bottom))
 	}
 
 	var bdlm8 uint
-- 
2.43.0


From 1325561e08e637fe98f4f281cf4e1b1645176240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:50 +0000
Subject: [PATCH 12/52] fix: removing the start code of a unit shorter than 4
 bytes panics

---
 avc/util.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index c7898f1..72173dd 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -1,6 +1,7 @@
 package avc
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"github.com/lkmio/avformat/bufio"
@@ -312,11 +313,9 @@ func SplitNalU(data []byte, cb func(nalu []byte)) {
 }
 
 func RemoveStartCode(data []byte) []byte {
-	if data[0] != 0 || data[1] != 0 {
-		return data
-	} else if data[2] == 0x1 {
+	if bytes.HasPrefix(data, StartCode3) {
 		return data[3:]
-	} else if data[2] == 0x0 && data[3] == 0x1 {
+	} else if bytes.HasPrefix(data, StartCode4) {
 		return data[4:]
 	}
 
-- 
2.43.0


From 46753af5a86f3c1c51a622cc15fc4ccd9404ced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:50 +0000
Subject: [PATCH 13/52] fix: splitting fewer than 3 bytes into NAL units panics

---
 avc/util.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index 72173dd..44a6d06 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -302,14 +302,21 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 func SplitNalU(data []byte, cb func(nalu []byte)) {
 	var offset int
 	// +3查找第二个nalu
-	for n := FindStartCode2(data[offset+3:]); n > -1; n = FindStartCode2(data[offset+3:]) {
+	for len(data)-offset > 3 {
+		n := FindStartCode2(data[offset+3:])
+		if n < 0 {
+			break
+		}
+
 		n += 3
 		cb(data[offset : offset+n])
 		offset += n
 	}
 
 	// 回调最后一个nalu
-	cb(data[offset:])
+	if offset < len(data) {
+		cb(data[offset:])
+	}
 }
 
 func RemoveStartCode(data []byte) []byte {
-- 
2.43.0


From c5097848e7d6089dc63508b34484d4df5858e123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:50 +0000
Subject: [PATCH 14/52] fix: an empty unit in a key frame panics the parameter
 set extraction

---
 avc/util.go  | 4 ++++
 hevc/util.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/avc/util.go b/avc/util.go
index 44a6d06..500aaa2 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -336,6 +336,10 @@ func ParseExtraDataFromKeyNALU(data []byte) ([]byte, []byte, error) {
 
 	SplitNalU(data, func(nalu []byte) {
 		noStartCodeNALU := RemoveStartCode(nalu)
+		// 跳过空包
+		if len(noStartCodeNALU) == 0 {
+			return
+		}
 		header := noStartCodeNALU[0] & 0x1F
 
 		if byte(H264NalSPS) == header {
diff --git a/hevc/util.go b/hevc/util.go
index 8df5415..5f1dca6 100644
--- a/hevc/util.go
+++ b/hevc/util.go
@@ -94,6 +94,10 @@ func ParseExtraDataFromKeyNALU(data []byte) ([]byte, []byte, []byte, error) {
 
 	avc.SplitNalU(data, func(nalu []byte) {
 		noStartCodeNALU := avc.RemoveStartCode(nalu)
+		// 跳过空包
+		if len(noStartCodeNALU) == 0 {
+			return
+		}
 		header := HEVCNALUnitType(noStartCodeNALU[0] >> 1 & 0x3F)
 
 		if header == HevcNalVPS {
-- 
2.43.0


From 35b5f5191fbc3915b4eda74905ab3e58fbbdc9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:28 +0000
Subject: [PATCH 15/52] fix: H.265 units of type 0 lose their header when
 length-prefixed

Skipping zero bytes at the start of a unit also removed the first bytes of a
unit whose header begins with 00 (TRAIL_N slices are 00 01), and an empty unit
left the byte of the next start code behind. Skip units that are empty or all
zero instead.
---
 avc/util.go | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index 500aaa2..f15c8ce 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -191,14 +191,6 @@ func AnnexB2AVCC(dst []byte, annexB []byte) int {
 	}
 
 	for nalStart < length {
-		// 跳过开头空包(连续0000000100000001)
-		for nalStart < length && annexB[nalStart] == 0 {
-			nalStart++
-		}
-		if nalStart >= length {
-			break
-		}
-
 		nalEnd, n := FindStartCode(annexB[nalStart:])
 		// 最后一个nalu
 		if nalEnd < 0 {
@@ -206,18 +198,18 @@ func AnnexB2AVCC(dst []byte, annexB []byte) int {
 			n = 0
 		}
 
-		nalSize := nalEnd - n
-		// 空包, 保存前一个nalu(1个字节header)
-		if nalSize == 0 {
-			nalSize++
+		nalu := annexB[nalStart : nalStart+nalEnd-n]
+		nalStart += nalEnd
+		// 跳过空包(连续0000000100000001)和填充的0
+		if len(bytes.TrimLeft(nalu, "\x00")) == 0 {
+			continue
 		}
 
-		binary.BigEndian.PutUint32(dst[size:], uint32(nalSize))
+		binary.BigEndian.PutUint32(dst[size:], uint32(len(nalu)))
 		size += 4
 
-		copy(dst[size:], annexB[nalStart:nalStart+nalSize])
-		size += nalSize
-		nalStart += nalEnd
+		copy(dst[size:], nalu)
+		size += len(nalu)
 	}
 
 	return size
-- 
2.43.0


From df3ed1c4eb52e0138f7caf28af6d7aa4aa1a6a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:28 +0000
Subject: [PATCH 16/52] fix: H.264 parameter sets are inserted before every
 slice of an IDR picture

A key frame coded as several slices has several IDR units; the parameter sets
belong before the first one only.
---
 avc/util.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/avc/util.go b/avc/util.go
index f15c8ce..fa24ce9 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -166,6 +166,7 @@ func AVCC2AnnexB(dst []byte, avcc []byte, extra []byte) int {
 		case H264NalIDRSlice:
 			if !spsSeen && !ppsSeen && len(extra) > 0 {
 				outSize += copyNalUWithBytes(dst[outSize:], extra, outSize, false)
+				spsSeen, ppsSeen = true, true
 			}
 			break
 		case H264NalSEI:
@@ -235,6 +236,7 @@ func Mp4ToAnnexB(writer bufio.BytesWriter, data, extra []byte) {
 		case H264NalIDRSlice:
 			if !spsSeen && !ppsSeen {
 				outSize += copyNalU(writer, extra, outSize, false)
+				spsSeen, ppsSeen = true, true
 			}
 			break
 		}
-- 
2.43.0


From c71df8187854b1c8b7e4c7d80fa36af00cb95068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:13 +0000
Subject: [PATCH 17/52] fix: H.264 configuration records over 1024 bytes cannot
 be written or extracted

The output buffer was fixed at 1024 bytes; size it by the sets it must hold.
---
 avc/mp4.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/avc/mp4.go b/avc/mp4.go
index e99b2bc..e9febc2 100644
--- a/avc/mp4.go
+++ b/avc/mp4.go
@@ -47,7 +47,14 @@ func (a *AVCDecoderConfigurationRecord) Marshal(spsList, ppsList [][]byte) ([]by
 		return nil, fmt.Errorf("pps cannot be null")
 	}
 
-	bytes := make([]byte, 1024)
+	size := 7
+	for _, list := range [][][]byte{spsList, ppsList} {
+		for _, nalu := range list {
+			size += 2 + len(nalu)
+		}
+	}
+
+	bytes := make([]byte, size)
 	writer := bufio.NewBytesWriter(bytes)
 	if err := writer.Seek(5); err != nil {
 		return nil, err
@@ -176,20 +183,14 @@ func ExtraDataToAnnexB(data []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	bytes := make([]byte, 1024)
-	writer := bufio.NewBytesWriter(bytes)
-
+	var bytes []byte
 	for _, sps := range record.SPSList {
-		if err := writer.Write(sps); err != nil {
-			return nil, err
-		}
+		bytes = append(bytes, sps...)
 	}
 
 	for _, pps := range record.PPSList {
-		if err := writer.Write(pps); err != nil {
-			return nil, err
-		}
+		bytes = append(bytes, pps...)
 	}
 
-	return bytes[:writer.Offset()], nil
+	return bytes, nil
 }
-- 
2.43.0


From bec07cf16ce7688df5e17532f80426e6d107b180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:13 +0000
Subject: [PATCH 18/52] fix: H.264 parameter sets a record cannot hold panic or
 corrupt it

A sequence set too short to state its profile panicked; more sets or longer ones
than the count and length fields can state were written with wrapped fields.
---
 avc/mp4.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/avc/mp4.go b/avc/mp4.go
index e9febc2..2d85e86 100644
--- a/avc/mp4.go
+++ b/avc/mp4.go
@@ -46,6 +46,9 @@ func (a *AVCDecoderConfigurationRecord) Marshal(spsList, ppsList [][]byte) ([]by
 	if len(ppsList) == 0 {
 		return nil, fmt.Errorf("pps cannot be null")
 	}
+	if len(spsList) > 0x1F || len(ppsList) > 0xFF {
+		return nil, fmt.Errorf("too many parameter sets, sps: %d pps: %d", len(spsList), len(ppsList))
+	}
 
 	size := 7
 	for _, list := range [][][]byte{spsList, ppsList} {
@@ -67,6 +70,11 @@ func (a *AVCDecoderConfigurationRecord) Marshal(spsList, ppsList [][]byte) ([]by
 	var noStartCodeSps []byte
 	for _, sps := range spsList {
 		noStartCodeSps = RemoveStartCode(sps)
+		// 至少包含header/profile/compatibility/level
+		if len(noStartCodeSps) < 4 || len(noStartCodeSps) > 0xFFFF {
+			return nil, fmt.Errorf("invalid sps length %d", len(noStartCodeSps))
+		}
+
 		if err := writer.WriteUint16(uint16(len(noStartCodeSps))); err != nil {
 			return nil, err
 		}
@@ -82,6 +90,10 @@ func (a *AVCDecoderConfigurationRecord) Marshal(spsList, ppsList [][]byte) ([]by
 
 	for _, pps := range ppsList {
 		noStartCodePps := RemoveStartCode(pps)
+		if len(noStartCodePps) > 0xFFFF {
+			return nil, fmt.Errorf("invalid pps length %d", len(noStartCodePps))
+		}
+
 		if err := writer.WriteUint16(uint16(len(noStartCodePps))); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From b59739c832737f8f09bf4b64decedbfe8cbd3d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:13 +0000
Subject: [PATCH 19/52] fix: M4VCExtraDataToAnnexB loses picture sets and
 panics on short records

With several sequence sets the picture sets were dropped, with none the count of
picture sets was taken for a set, and a truncated record panicked. Use the
parser of the same record that handles all of these.
---
 avc/util.go | 44 +-------------------------------------------
 1 file changed, 1 insertion(+), 43 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index fa24ce9..5451e30 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -248,49 +248,7 @@ func Mp4ToAnnexB(writer bufio.BytesWriter, data, extra []byte) {
 }
 
 func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
-	reader := bufio.NewBytesReader(src)
-
-	//unsigned int(8) configurationVersion = 1;
-	//unsigned int(8) AVCProfileIndication;
-	//unsigned int(8) profile_compatibility;
-	//unsigned int(8) AVCLevelIndication;
-	if err := reader.Seek(4); err != nil {
-		return nil, err
-	}
-
-	readUint8, err := reader.ReadUint8()
-	if err != nil {
-		return nil, err
-	}
-
-	readUint8 &= 0x3 + 1
-	unitNb, err := reader.ReadUint8()
-	unitNb &= 0x1f
-
-	spsDone := 0
-	writer := bufio.NewBytesWriter(make([]byte, len(src)+256))
-	for unitNb != 0 {
-		unitNb--
-
-		var size uint16
-		size, err = reader.ReadUint16()
-		if err != nil {
-			return nil, err
-		} else if err = writer.Write(StartCode4); err != nil {
-			return nil, err
-		} else if err = writer.Write(src[reader.Offset() : reader.Offset()+int(size)]); err != nil {
-			return nil, err
-		} else if err = reader.Seek(int(size)); err != nil {
-			return nil, err
-		}
-
-		spsDone++
-		if reader.ReadableBytes() > 2 && unitNb == 0 && spsDone == 1 {
-			unitNb, _ = reader.ReadUint8()
-		}
-	}
-
-	return writer.WrittenBytes(), nil
+	return ExtraDataToAnnexB(src)
 }
 
 func SplitNalU(data []byte, cb func(nalu []byte)) {
-- 
2.43.0


From f88728197568eead415706b12335882760728ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:56 +0000
Subject: [PATCH 20/52] fix: sequence sets of an H.265 record are mixed up with
 its picture sets

Each sequence set was appended to the list of picture sets, so only the last one
was kept, preceded by any picture sets read before it.
---
 hevc/mp4.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hevc/mp4.go b/hevc/mp4.go
index aabdb5a..fca11c2 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -189,7 +189,7 @@ func (r *HEVCDecoderConfigurationRecord) Unmarshal(data []byte) error {
 			if HevcNalVPS == HEVCNALUnitType(headerType) {
 				r.VPSList = append(r.VPSList, nalu)
 			} else if HevcNalSPS == HEVCNALUnitType(headerType) {
-				r.SPSList = append(r.PPSList, nalu)
+				r.SPSList = append(r.SPSList, nalu)
 			} else if HevcNalPPS == HEVCNALUnitType(headerType) {
 				r.PPSList = append(r.PPSList, nalu)
 			}
-- 
2.43.0


From 5f64b9bbdaaaf87b8219c96431d6d9eb062523bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:57 +0000
Subject: [PATCH 21/52] fix: H.265 configuration records over 1024 bytes cannot
 be written or extracted

The output buffer was fixed at 1024 bytes; size it by the sets it must hold.
---
 hevc/mp4.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/hevc/mp4.go b/hevc/mp4.go
index fca11c2..c062840 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -83,7 +83,15 @@ func (r *HEVCDecoderConfigurationRecord) Marshal(vpsList, spsList, ppsList [][]b
 		return nil, fmt.Errorf("vps cannot be null")
 	}
 
-	bytes := make([]byte, 1024)
+	size := 23
+	for _, list := range [][][]byte{vpsList, spsList, ppsList} {
+		size += 3
+		for _, nalu := range list {
+			size += 2 + len(nalu)
+		}
+	}
+
+	bytes := make([]byte, size)
 	bytes[0] = 1
 	bytes[21] = 3
 	bytes[22] = 3
@@ -214,26 +222,18 @@ func ExtraDataToAnnexB(data []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	bytes := make([]byte, 1024)
-	writer := bufio.NewBytesWriter(bytes)
-
-	for _, sps := range record.VPSList {
-		if err := writer.Write(sps); err != nil {
-			return nil, err
-		}
+	var bytes []byte
+	for _, vps := range record.VPSList {
+		bytes = append(bytes, vps...)
 	}
 
 	for _, sps := range record.SPSList {
-		if err := writer.Write(sps); err != nil {
-			return nil, err
-		}
+		bytes = append(bytes, sps...)
 	}
 
 	for _, pps := range record.PPSList {
-		if err := writer.Write(pps); err != nil {
-			return nil, err
-		}
+		bytes = append(bytes, pps...)
 	}
 
-	return bytes[:writer.Offset()], nil
+	return bytes, nil
 }
-- 
2.43.0


From 16f65c7049824a799081c2348b76670c377ab6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:57 +0000
Subject: [PATCH 22/52] fix: H.265 parameter sets a record cannot hold panic or
 corrupt it

An empty set panicked; more sets or longer ones than the count and length fields
can state were written with wrapped fields.
---
 hevc/mp4.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hevc/mp4.go b/hevc/mp4.go
index c062840..5181078 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -101,7 +101,15 @@ func (r *HEVCDecoderConfigurationRecord) Marshal(vpsList, spsList, ppsList [][]b
 	}
 
 	write := func(data [][]byte) error {
+		if len(data) > 0xFFFF {
+			return fmt.Errorf("too many parameter sets: %d", len(data))
+		}
+
 		noStartCodeData := avc.RemoveStartCode(data[0])
+		if len(noStartCodeData) == 0 {
+			return fmt.Errorf("parameter set cannot be empty")
+		}
+
 		if err := writer.WriteUint8((noStartCodeData[0] >> 1) & 0x3F); err != nil {
 			return err
 		}
@@ -112,6 +120,10 @@ func (r *HEVCDecoderConfigurationRecord) Marshal(vpsList, spsList, ppsList [][]b
 
 		for _, i2 := range data {
 			noStartCodeData = avc.RemoveStartCode(i2)
+			if len(noStartCodeData) > 0xFFFF {
+				return fmt.Errorf("invalid parameter set length %d", len(noStartCodeData))
+			}
+
 			if err := writer.WriteUint16(uint16(len(noStartCodeData))); err != nil {
 				return err
 			}
-- 
2.43.0


From f4250b8c573322c561a88eb932cc714f000d0bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:27 +0000
Subject: [PATCH 23/52] fix: length-prefixing a packet of more than 256 small
 units panics

A 3-byte start code becomes a 4-byte length; the buffer has to grow by one byte
for each of them.
---
 packet_utils.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/packet_utils.go b/packet_utils.go
index 310a976..ed3394d 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -1,6 +1,7 @@
 package avformat
 
 import (
+	"bytes"
 	"github.com/lkmio/avformat/avc"
 	"github.com/lkmio/avformat/hevc"
 	"github.com/lkmio/avformat/utils"
@@ -80,16 +81,17 @@ func AnnexBPacket2AVCC(pkt *AVPacket) []byte {
 	if PacketTypeAnnexB != pkt.PacketType || (pkt.CodecID != utils.AVCodecIdH264 && pkt.CodecID != utils.AVCodecIdH265) {
 		return pkt.Data
 	} else if pkt.dataAVCC == nil {
-		var bytes []byte
-		dstSize := len(pkt.Data) + 256
+		var dst []byte
+		// 3字节的start code转换后, 每个nalu增加1个字节
+		dstSize := len(pkt.Data) + bytes.Count(pkt.Data, avc.StartCode3)
 		if pkt.OnBufferAlloc != nil {
-			bytes = pkt.OnBufferAlloc(dstSize)
+			dst = pkt.OnBufferAlloc(dstSize)
 		} else {
-			bytes = make([]byte, dstSize)
+			dst = make([]byte, dstSize)
 		}
 
-		n := avc.AnnexB2AVCC(bytes, pkt.Data)
-		pkt.dataAVCC = bytes[:n]
+		n := avc.AnnexB2AVCC(dst, pkt.Data)
+		pkt.dataAVCC = dst[:n]
 	}
 
 	return pkt.dataAVCC
-- 
2.43.0


From b8def764bbeb3285cdccd91d686e06cc53a3e2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:35 +0000
Subject: [PATCH 24/52] fix: packet conversion to start codes needs a complete
 codec description

Without a description it panicked, and an H.265 description made from parameter
sets states no length size. Assume the usual 4 bytes, and insert no parameter
sets when there are none.
---
 packet_utils.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/packet_utils.go b/packet_utils.go
index ed3394d..db9ecf5 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -60,15 +60,23 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		} else if utils.AVCodecIdH265 == pkt.CodecID {
 			var err error
 
-			lengthSize := stream.CodecParameters.(*HEVCCodecData).Record.LengthSizeMinusOne
+			// 没有解析过DecoderConfigurationRecord, 默认4个字节
+			lengthSize := byte(4)
+			if codecData, ok := stream.CodecParameters.(*HEVCCodecData); ok && codecData.Record.LengthSizeMinusOne > 0 {
+				lengthSize = codecData.Record.LengthSizeMinusOne
+			}
+
 			n, err = hevc.Mp4ToAnnexB(bytes[extraDataSize:], pkt.Data, nil, int(lengthSize))
 			if err != nil {
 				panic(err)
 			}
 		}
 
-		copy(bytes[:extraDataSize], stream.CodecParameters.AnnexBExtraData())
-		n += extraDataSize
+		if extraDataSize > 0 {
+			copy(bytes[:extraDataSize], stream.CodecParameters.AnnexBExtraData())
+			n += extraDataSize
+		}
+
 		pkt.dataAnnexB = bytes[:n]
 	}
 
-- 
2.43.0


From 7fc162c900010a749446957991b0f1841e0f868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:49 +0000
Subject: [PATCH 25/52] fix: start-code conversion of H.265 with short length
 prefixes overruns its buffer

Prefixes of 1-3 bytes become 4-byte start codes; size the buffer for it instead
of adding a fixed 256 bytes.
---
 packet_utils.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/packet_utils.go b/packet_utils.go
index db9ecf5..fb2a185 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -48,7 +48,15 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 			extraDataSize = len(stream.CodecParameters.AnnexBExtraData())
 		}
 
-		dstSize := extraDataSize + len(pkt.Data) + 256
+		// HEVC的nalu长度可能少于4个字节
+		lengthSize := byte(4)
+		if codecData, ok := stream.CodecParameters.(*HEVCCodecData); ok && codecData.Record.LengthSizeMinusOne > 0 {
+			// 没有解析过DecoderConfigurationRecord, 默认4个字节
+			lengthSize = codecData.Record.LengthSizeMinusOne
+		}
+
+		// 每个nalu(至少2个字节)转换后, 增加的字节数
+		dstSize := extraDataSize + len(pkt.Data) + len(pkt.Data)/int(lengthSize+2)*int(4-lengthSize)
 		if pkt.OnBufferAlloc != nil {
 			bytes = pkt.OnBufferAlloc(dstSize)
 		} else {
@@ -60,12 +68,6 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		} else if utils.AVCodecIdH265 == pkt.CodecID {
 			var err error
 
-			// 没有解析过DecoderConfigurationRecord, 默认4个字节
-			lengthSize := byte(4)
-			if codecData, ok := stream.CodecParameters.(*HEVCCodecData); ok && codecData.Record.LengthSizeMinusOne > 0 {
-				lengthSize = codecData.Record.LengthSizeMinusOne
-			}
-
 			n, err = hevc.Mp4ToAnnexB(bytes[extraDataSize:], pkt.Data, nil, int(lengthSize))
 			if err != nil {
 				panic(err)
-- 
2.43.0


From c41912c82f965b4cc22a4abf9887164962633321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:50 +0000
Subject: [PATCH 26/52] fix: an empty key frame panics the conversion to start
 codes

The first byte of the frame and of the parameter sets was read without checking
that there is one.
---
 packet_utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packet_utils.go b/packet_utils.go
index fb2a185..8366bb4 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -19,7 +19,8 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		// 确保annexb的关键帧开头是vps/sps/pps
 		if pkt.Key && (stream.CodecID == utils.AVCodecIdH264 || stream.CodecID == utils.AVCodecIdH265) && stream.CodecParameters != nil && pkt.dataAnnexB == nil {
 			extraData := stream.CodecParameters.AnnexBExtraData()
-			if avc.RemoveStartCode(extraData)[0] != avc.RemoveStartCode(pkt.Data)[0] {
+			extraNalu, nalu := avc.RemoveStartCode(extraData), avc.RemoveStartCode(pkt.Data)
+			if len(extraNalu) > 0 && len(nalu) > 0 && extraNalu[0] != nalu[0] {
 				size := len(extraData) + len(pkt.Data)
 				var data []byte
 				if pkt.OnBufferAlloc != nil {
-- 
2.43.0


From 63c096ff91ba334aef098295939db28e13c1dfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:50 +0000
Subject: [PATCH 27/52] fix: a malformed length-prefixed H.265 packet ends the
 process

The packet comes from the network; report it and convert it to nothing, as the
callers of the other parsers do.
---
 packet_utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packet_utils.go b/packet_utils.go
index 8366bb4..4bd850f 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -71,7 +71,8 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 
 			n, err = hevc.Mp4ToAnnexB(bytes[extraDataSize:], pkt.Data, nil, int(lengthSize))
 			if err != nil {
-				panic(err)
+				println(err.Error())
+				return nil
 			}
 		}
 
-- 
2.43.0


From 41525fd22af72b905c15320e7aa97c6d7874e9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:25 +0000
Subject: [PATCH 28/52] fix: AAC headers and configurations cut short panic

---
 utils/aac_util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/utils/aac_util.go b/utils/aac_util.go
index 3b5b258..288265d 100644
--- a/utils/aac_util.go
+++ b/utils/aac_util.go
@@ -217,6 +217,10 @@ func SetADtsHeader(header []byte, mpegId, aot, index, channelConfig, size int) {
 }
 
 func ReadADtsFixedHeader(data []byte) (ADtsHeader, error) {
+	if len(data) < 7 {
+		return 0, fmt.Errorf("need more data")
+	}
+
 	if 0xFFF != binary.BigEndian.Uint16(data)>>4 {
 		return 0, fmt.Errorf("not find syncword")
 	}
@@ -245,6 +249,10 @@ func ADtsHeader2MpegAudioConfigData(header ADtsHeader) ([]byte, error) {
 }
 
 func ParseMpeg4AudioConfig(data []byte) (*MPEG4AudioConfig, error) {
+	if len(data) < 2 {
+		return nil, fmt.Errorf("need more data")
+	}
+
 	//audio specific config
 	config := &MPEG4AudioConfig{}
 	config.ObjectType = int(data[0] >> 3)
-- 
2.43.0


From 36f8ed2112bff1f84f92b1a659763093b1a086d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:26 +0000
Subject: [PATCH 29/52] fix: GetSampleRateIndex looks the rate up as if it were
 an index

---
 utils/aac_util.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/utils/aac_util.go b/utils/aac_util.go
index 288265d..3d173d5 100644
--- a/utils/aac_util.go
+++ b/utils/aac_util.go
@@ -180,8 +180,15 @@ func GetSampleRateFromFrequency(index int) (int, bool) {
 	return i, ok
 }
 
+// GetSampleRateIndex 返回采样率对应的索引, 未知采样率返回-1
 func GetSampleRateIndex(rate int) int {
-	return audioSamplingRates[rate]
+	for index, samplingRate := range audioSamplingRates {
+		if rate > 0 && samplingRate == rate {
+			return index
+		}
+	}
+
+	return -1
 }
 
 func SetADtsHeader(header []byte, mpegId, aot, index, channelConfig, size int) {
-- 
2.43.0


From 27062203f1688180d790687b6ac6ffab78d60cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:26 +0000
Subject: [PATCH 30/52] fix: 7.1 AAC with ADTS headers is announced with 7
 channels

Channel configuration 7 stands for 8 channels; take the channel count from the
parsed configuration like for AAC without ADTS headers.
---
 video_stream.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/video_stream.go b/video_stream.go
index 5023ee2..74b960a 100644
--- a/video_stream.go
+++ b/video_stream.go
@@ -86,12 +86,15 @@ func ExtractAudioExtraData(codec utils.AVCodecID, data []byte) ([]byte, int, Aud
 			return nil, -1, AudioConfig{}, err
 		}
 
-		rate, _ := utils.GetSampleRateFromFrequency(header.Frequency())
+		config, err := utils.ParseMpeg4AudioConfig(extraData)
+		if err != nil {
+			return nil, -1, AudioConfig{}, err
+		}
 
 		return extraData, skip, AudioConfig{
-			SampleRate:    rate,
+			SampleRate:    config.SampleRate,
 			SampleSize:    16,
-			Channels:      header.Channel(),
+			Channels:      config.Channels,
 			HasADTSHeader: true,
 		}, nil
 	} else if utils.AVCodecIdPCMALAW == codec || utils.AVCodecIdPCMMULAW == codec {
-- 
2.43.0


From b4782bd25633c33dff6affa730f42c9c333daeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:11 +0000
Subject: [PATCH 31/52] fix: timestamp conversion is inexact

Multiplying by a floating point ratio can end just below an exact result, which
truncation then turns into one less, and loses precision beyond 2^53. Use integer
arithmetic.
---
 packet_utils.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packet_utils.go b/packet_utils.go
index 4bd850f..4242d03 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -8,8 +8,13 @@ import (
 )
 
 func ConvertTs(ts int64, srcTimeBase, dstTimeBase int) int64 {
-	interval := float64(dstTimeBase) / float64(srcTimeBase)
-	return int64(float64(ts) * interval)
+	src, dst := int64(srcTimeBase), int64(dstTimeBase)
+	if src == 0 {
+		return 0
+	}
+
+	// 整数运算, 避免浮点误差和溢出
+	return ts/src*dst + ts%src*dst/src
 }
 
 func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
-- 
2.43.0


From f507e79ec8e1e3f20d5022fc946a185e4aceb9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:32 +0000
Subject: [PATCH 32/52] fix: packets of different tracks share a queue when
 tracks do not start in index order

A track that is announced by its sequence header, but whose first packet
comes after the first packet of a later track, had its packets mixed with
those of another track: wrong durations, packets held back or dropped.
---
 demuxer.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index e08f94f..7d68fac 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -252,15 +252,12 @@ func (s *BaseDemuxer) OnVideoPacket(bufferIndex int, id utils.AVCodecID, data []
 // 回调AVPacket, 如果没有完成探测, 则保存到Packets中, 否则回调处理
 // 保证回调的顺序是OnNewTrack...->OnTrackComplete->OnPacket...
 func (s *BaseDemuxer) processBufferedPacket(packet *AVPacket) {
-	var packets *collections.LinkedList[*AVPacket]
-	exist := packet.Index < len(s.Packets)
-	if exist {
-		packets = s.Packets[packet.Index]
-	} else {
+	// 首个packet的到达顺序可能和track的顺序不一致
+	for packet.Index >= len(s.Packets) {
 		s.Packets = append(s.Packets, &collections.LinkedList[*AVPacket]{})
-		packets = s.Packets[len(s.Packets)-1]
 	}
 
+	packets := s.Packets[packet.Index]
 	packets.Add(packet)
 
 	prevPacketIndex := packets.Size() - 2
-- 
2.43.0


From 15a418dfea86dd70f31e5c68be93a42b47e757fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:07 +0000
Subject: [PATCH 33/52] fix: frames with equal decode time may change places at
 the end of probing

---
 demuxer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index 7d68fac..d236de5 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -462,8 +462,8 @@ func (s *BaseDemuxer) OnProbeComplete() {
 		}
 	}
 
-	// dts升序排序
-	sort.Slice(result, func(i, j int) bool {
+	// dts升序排序, dts相同的保持到达顺序
+	sort.SliceStable(result, func(i, j int) bool {
 		return result[i].Dts < result[j].Dts
 	})
 
-- 
2.43.0


From 483ee601deb052948f6ef94a78de19550123f291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:08 +0000
Subject: [PATCH 34/52] fix: PCM of more than 96 bytes per millisecond is
 announced with its sample size as rate

---
 demuxer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demuxer.go b/demuxer.go
index d236de5..ece5ea3 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -358,7 +358,7 @@ func (s *BaseDemuxer) calculatePCMFrequency() bool {
 			continue
 		}
 
-		var sampleRate = track.GetStream().SampleSize
+		var sampleRate = track.GetStream().SampleRate
 		msSize := pktDataSize / pktDuration
 		if msSize <= 16 { // 8K
 			sampleRate = 8000
-- 
2.43.0


From 91b0717ba3a080b989171480e5f7a98a8292c781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:32 +0000
Subject: [PATCH 35/52] fix: soft probe completion ignores PCM and G.726 tracks
 without any packet

---
 demuxer.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index ece5ea3..feef4ed 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -493,14 +493,10 @@ func (s *BaseDemuxer) TryCompleteProbe() {
 			continue
 		}
 
-		for i, packets := range s.Packets {
-			if i == track.GetStream().Index && packets.Size() < 2 {
-				needMoreData = true
-				break
-			}
-		}
-
-		if needMoreData {
+		// 还没有收到packet的track, 可能不在Packets中
+		index := track.GetStream().Index
+		if index >= len(s.Packets) || s.Packets[index].Size() < 2 {
+			needMoreData = true
 			break
 		}
 	}
-- 
2.43.0


From 8d2ab3e4a9a4b6103d2498a17ce28486d75a9cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:05 +0000
Subject: [PATCH 36/52] fix: the dump handler leaves the end of a longer, older
 file in place

---
 handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index e374151..80f528b 100644
--- a/handler.go
+++ b/handler.go
@@ -55,7 +55,7 @@ type OnUnpackStream2FileHandler struct {
 func (o *OnUnpackStream2FileHandler) OnNewTrack(track Track) {
 	o.OnUnpackStreamLogger.OnNewTrack(track)
 	stream := track.GetStream()
-	file, err := os.OpenFile(o.Path+"."+stream.MediaType.String()+"."+strconv.Itoa(stream.Index)+"."+stream.CodecID.String(), os.O_WRONLY|os.O_CREATE, 132)
+	file, err := os.OpenFile(o.Path+"."+stream.MediaType.String()+"."+strconv.Itoa(stream.Index)+"."+stream.CodecID.String(), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 132)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 56f87d7fcd4cf6523b13fbf419689d8ffe4d9a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:25 +0000
Subject: [PATCH 37/52] fix: bit reader loses the byte a reader returns
 together with its end of data

---
 bufio/golomb_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bufio/golomb_reader.go b/bufio/golomb_reader.go
index 8c08d94..c1f7a41 100644
--- a/bufio/golomb_reader.go
+++ b/bufio/golomb_reader.go
@@ -12,7 +12,7 @@ type GolombBitReader struct {
 
 func (self *GolombBitReader) ReadBit() (res uint, err error) {
 	if self.left == 0 {
-		if _, err = self.R.Read(self.buf[:]); err != nil {
+		if _, err = io.ReadFull(self.R, self.buf[:]); err != nil {
 			return
 		}
 		self.left = 8
-- 
2.43.0


From cd80d8f91190e3554c0a3aa5bcfa2b68df44f491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:07 +0000
Subject: [PATCH 38/52] fix: the linked list accepted negative positions once
 its last element had been removed

---
 collections/linked_list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/linked_list.go b/collections/linked_list.go
index 0a90ad6..4eba0b6 100644
--- a/collections/linked_list.go
+++ b/collections/linked_list.go
@@ -27,7 +27,7 @@ func (l *LinkedList[T]) Add(data T) {
 }
 
 func (l *LinkedList[T]) Remove(index int) T {
-	utils.Assert(index < l.size)
+	utils.Assert(index >= 0 && index < l.size)
 
 	prevNode := l.fist
 	offsetNode := l.fist
@@ -58,7 +58,7 @@ func (l *LinkedList[T]) Remove(index int) T {
 }
 
 func (l *LinkedList[T]) Get(index int) T {
-	utils.Assert(index < l.size)
+	utils.Assert(index >= 0 && index < l.size)
 
 	offsetNode := l.fist
 	for i := 0; i < l.size; i++ {
-- 
2.43.0


From 12a5d8d80988ecc08a2d1b14bc3821ba732cf956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:13 +0000
Subject: [PATCH 39/52] fix: avc: parsing a record replaces the parameter sets
 the object held

---
 avc/mp4.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/avc/mp4.go b/avc/mp4.go
index 2d85e86..5f2a404 100644
--- a/avc/mp4.go
+++ b/avc/mp4.go
@@ -134,6 +134,10 @@ func (a *AVCDecoderConfigurationRecord) Unmarshal(data []byte) error {
 		return fmt.Errorf("no sps found")
 	}
 
+	// 复用对象时, 不保留之前的参数集
+	a.SPSList = nil
+	a.PPSList = nil
+
 	for i := 0; i < int(spsCount); i++ {
 		length, err := reader.ReadUint16()
 		if err != nil {
-- 
2.43.0


From 234b7338b8218ed8d380dce0d3c0d1eea19bb015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:13 +0000
Subject: [PATCH 40/52] fix: hevc: parsing a record replaces the parameter sets
 the object held

---
 hevc/mp4.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hevc/mp4.go b/hevc/mp4.go
index 5181078..28cac8b 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -178,6 +178,11 @@ func (r *HEVCDecoderConfigurationRecord) Unmarshal(data []byte) error {
 
 	r.NumOfArrays = data[22]
 
+	// 复用对象时, 不保留之前的参数集
+	r.VPSList = nil
+	r.SPSList = nil
+	r.PPSList = nil
+
 	for i := 0; i < int(r.NumOfArrays); i++ {
 		readUint, err := reader.ReadUint8()
 		if err != nil {
-- 
2.43.0


From fe5a454fbe30d6981306f3908a1fdc306cad7ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:26 +0000
Subject: [PATCH 41/52] fix: random strings repeated when requested
 concurrently

---
 utils/random_util.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utils/random_util.go b/utils/random_util.go
index 1d47be8..c313120 100644
--- a/utils/random_util.go
+++ b/utils/random_util.go
@@ -7,8 +7,12 @@ import (
 
 const letterBytes = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
 
-func RandStringBytes(n int) string {
+func init() {
+	// 只设置一次种子. 每次调用都设置, 并发调用时可能使用相同的种子, 返回重复的字符串
 	rand.Seed(time.Now().UnixNano())
+}
+
+func RandStringBytes(n int) string {
 	b := make([]byte, n)
 	for i := range b {
 		b[i] = letterBytes[rand.Intn(len(letterBytes))]
@@ -23,6 +27,5 @@ func RandomIntInRange(min, max int) int {
 		panic("min should not be greater than max")
 	}
 
-	rand.Seed(time.Now().UnixNano())
 	return rand.Intn(max-min+1) + min
 }
-- 
2.43.0


From 621094ed86e15e9eb1016de0fb47613d63c3593d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:26 +0000
Subject: [PATCH 42/52] fix: random integers of a range wider than an int
 panicked

---
 utils/random_util.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/utils/random_util.go b/utils/random_util.go
index c313120..50f3d06 100644
--- a/utils/random_util.go
+++ b/utils/random_util.go
@@ -1,6 +1,7 @@
 package utils
 
 import (
+	"math"
 	"math/rand"
 	"time"
 )
@@ -27,5 +28,15 @@ func RandomIntInRange(min, max int) int {
 		panic("min should not be greater than max")
 	}
 
-	return rand.Intn(max-min+1) + min
+	span := uint64(max) - uint64(min)
+	if span < math.MaxInt64 {
+		return int(rand.Int63n(int64(span)+1)) + min
+	}
+
+	// 区间长度超出int64的范围
+	for {
+		if v := int(rand.Uint64()); v >= min && v <= max {
+			return v
+		}
+	}
 }
-- 
2.43.0


From ed17bf13755f718cf381d8596ba3cf9f1e2fbd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:23 +0000
Subject: [PATCH 43/52] fix: dump files were created unreadable for their owner

---
 handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index 80f528b..7ffdb92 100644
--- a/handler.go
+++ b/handler.go
@@ -55,7 +55,7 @@ type OnUnpackStream2FileHandler struct {
 func (o *OnUnpackStream2FileHandler) OnNewTrack(track Track) {
 	o.OnUnpackStreamLogger.OnNewTrack(track)
 	stream := track.GetStream()
-	file, err := os.OpenFile(o.Path+"."+stream.MediaType.String()+"."+strconv.Itoa(stream.Index)+"."+stream.CodecID.String(), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 132)
+	file, err := os.OpenFile(o.Path+"."+stream.MediaType.String()+"."+strconv.Itoa(stream.Index)+"."+stream.CodecID.String(), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From c4eda68c354dd2b0bad59f3a5defb0cf462f4e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:38 +0000
Subject: [PATCH 44/52] fix: a linear block pool cleared after a split
 overwrote what was split off

---
 collections/buffer_direct.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collections/buffer_direct.go b/collections/buffer_direct.go
index 9d01835..1af6050 100644
--- a/collections/buffer_direct.go
+++ b/collections/buffer_direct.go
@@ -122,8 +122,11 @@ func (b *DirectBlockBuffer) Size() int {
 
 func (b *DirectBlockBuffer) SplitOff() BlockBuffer {
 	b.sealed = true
+	// 空闲内存块归新的BlockBuffer所有. Clear后再次写入, 不能覆盖它的数据
+	free := b.data[b.nextOffset:]
+	b.data = b.data[:b.nextOffset:b.nextOffset]
 	return &DirectBlockBuffer{
-		data: b.data[b.nextOffset:],
+		data: free,
 		blocks: NewQueue[*struct {
 			index     int
 			size      int
-- 
2.43.0


From 4aa3f0e7403704910922b9e9dcf05d68b426fb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:57 +0000
Subject: [PATCH 45/52] fix: splitting a ring block pool handed out memory
 still in use

---
 collections/buffer_rb.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index d350baf..9649d81 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -22,6 +22,8 @@ func (r *RBBlockBuffer) Write(data []byte) {
 }
 
 func (r *RBBlockBuffer) Alloc(size int) []byte {
+	utils.Assert(!r.sealed)
+
 	head, tail := 0, 0
 	var oldBlock *struct {
 		index     int
@@ -117,6 +119,27 @@ func (r *RBBlockBuffer) Clear() {
 	r.discardBlockCount = 0
 }
 
+// SplitOff 新的BlockBuffer持有最后一个block之后的空闲内存块
+func (r *RBBlockBuffer) SplitOff() BlockBuffer {
+	r.sealed = true
+
+	start, end := 0, cap(r.data)
+	if r.blocks.Size() > 0 {
+		start = r.blocks.Tail().index + r.blocks.Tail().size
+		// 已经回环, 空闲内存块到首个block为止
+		if head := r.blocks.Head().index; start < head {
+			end = head
+		}
+	}
+
+	buffer := NewRBBlockBuffer(0)
+	buffer.data = r.data[start:end:end]
+	buffer.capacity = end - start
+	// Clear后再次写入, 不能覆盖新的BlockBuffer的数据
+	r.data = r.data[:start:start]
+	return buffer
+}
+
 func (r *RBBlockBuffer) Data() ([]byte, []byte) {
 	return nil, nil
 }
-- 
2.43.0


From a4bcf3b736b2b0f3e4a977a7142526b639465700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:02 +0000
Subject: [PATCH 46/52] fix: a queue reports a capacity of 0

---
 collections/ring_buffer.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/collections/ring_buffer.go b/collections/ring_buffer.go
index ded39d1..8c9cf9a 100644
--- a/collections/ring_buffer.go
+++ b/collections/ring_buffer.go
@@ -27,12 +27,11 @@ type RingBuffer[T any] interface {
 }
 
 type ringBuffer[T any] struct {
-	data     []T
-	head     int
-	tail     int
-	size     int
-	capacity int
-	zero     T
+	data []T
+	head int
+	tail int
+	size int
+	zero T
 }
 
 func (r *ringBuffer[T]) IsEmpty() bool {
@@ -89,7 +88,7 @@ func (r *ringBuffer[T]) Size() int {
 }
 
 func (r *ringBuffer[T]) Capacity() int {
-	return r.capacity
+	return cap(r.data)
 }
 
 func (r *ringBuffer[T]) Data() ([]T, []T) {
@@ -113,11 +112,10 @@ func (r *ringBuffer[T]) Clear() {
 func NewRingBuffer[T any](capacity int) RingBuffer[T] {
 	utils.Assert(capacity > 0)
 	r := &ringBuffer[T]{
-		data:     make([]T, capacity),
-		head:     0,
-		tail:     0,
-		size:     0,
-		capacity: capacity,
+		data: make([]T, capacity),
+		head: 0,
+		tail: 0,
+		size: 0,
 	}
 
 	return r
-- 
2.43.0


From f4a57769518a3efb96c197a3a3b239fc6a0b1265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:42 +0000
Subject: [PATCH 47/52] fix: a ring block pool that grew cannot remove its
 older blocks from the back

---
 collections/buffer_rb.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index 9649d81..bde44aa 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -113,6 +113,18 @@ func (r *RBBlockBuffer) Pop() {
 	}
 }
 
+func (r *RBBlockBuffer) PopBack() {
+	utils.Assert(!r.sealed)
+
+	// 扩容后只剩下之前丢弃的内存块
+	if r.blocks.IsEmpty() && r.discardBlockCount > 0 {
+		r.discardBlockCount--
+		return
+	}
+
+	r.DirectBlockBuffer.PopBack()
+}
+
 func (r *RBBlockBuffer) Clear() {
 	r.DirectBlockBuffer.Clear()
 	r.capacity = cap(r.data)
-- 
2.43.0


From 119cd71d8b6a75afc401d0dc9357ebb9631cce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:43 +0000
Subject: [PATCH 48/52] fix: a ring block pool that grew does not count its
 older blocks

---
 collections/buffer_rb.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index bde44aa..484637c 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -152,6 +152,11 @@ func (r *RBBlockBuffer) SplitOff() BlockBuffer {
 	return buffer
 }
 
+// Size 未弹出的内存块数量, 包括扩容前的
+func (r *RBBlockBuffer) Size() int {
+	return r.blocks.Size() + r.discardBlockCount
+}
+
 func (r *RBBlockBuffer) Data() ([]byte, []byte) {
 	return nil, nil
 }
-- 
2.43.0


From 4720373947eea230dca7a0b956efc5350f1297bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:42 +0000
Subject: [PATCH 49/52] fix: several raw PCM or G.726 tracks are announced with
 the rate of the first

---
 demuxer.go | 88 ++++++++++++++++++++++--------------------------------
 1 file changed, 36 insertions(+), 52 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index feef4ed..da5e82f 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -330,34 +330,30 @@ func (s *BaseDemuxer) findTrackByBufferIndex(index int) Track {
 	return nil
 }
 
-// calculatePCMFrequency 计算pcm采样率
-func (s *BaseDemuxer) calculatePCMFrequency() bool {
-	var pktDuration int
-	var pktDataSize int
-	for _, pkts := range s.Packets {
-		if pkts.Size() < 1 {
-			continue
-		}
-
-		pkt := pkts.Get(0)
-		if pkt.CodecID != utils.AVCodecIdPCMS16LE {
-			continue
-		}
-
-		pktDuration = int(pkt.GetDuration(1000))
-		pktDataSize = len(pkt.Data)
-		break
+// firstPacketOfTrack 返回track首个packet的大小和时长(ms)
+func (s *BaseDemuxer) firstPacketOfTrack(track Track) (int, int) {
+	index := track.GetStream().Index
+	if index >= len(s.Packets) || s.Packets[index].Size() < 1 {
+		return 0, 0
 	}
 
-	if pktDuration < 1 {
-		return false
-	}
+	pkt := s.Packets[index].Get(0)
+	return len(pkt.Data), int(pkt.GetDuration(1000))
+}
 
+// calculatePCMFrequency 计算pcm采样率
+func (s *BaseDemuxer) calculatePCMFrequency() bool {
+	var ok bool
 	for _, track := range s.Tracks.Tracks {
 		if track.GetStream().CodecID != utils.AVCodecIdPCMS16LE {
 			continue
 		}
 
+		pktDataSize, pktDuration := s.firstPacketOfTrack(track)
+		if pktDuration < 1 {
+			continue
+		}
+
 		var sampleRate = track.GetStream().SampleRate
 		msSize := pktDataSize / pktDuration
 		if msSize <= 16 { // 8K
@@ -371,55 +367,43 @@ func (s *BaseDemuxer) calculatePCMFrequency() bool {
 		}
 
 		track.GetStream().SampleRate = sampleRate
+		ok = true
 	}
 
-	return true
+	return ok
 }
 
 // calculateG726BitRate 计算g726比特率
 func (s *BaseDemuxer) calculateG726BitRate() bool {
-	var pktDuration int
-	var pktDataSize int
-	for _, pkts := range s.Packets {
-		if pkts.Size() < 1 {
+	var ok bool
+	for _, track := range s.Tracks.Tracks {
+		if track.GetStream().CodecID != utils.AVCodecIdADPCMG726 {
 			continue
 		}
 
-		pkt := pkts.Get(0)
-		if pkt.CodecID != utils.AVCodecIdADPCMG726 {
+		pktDataSize, pktDuration := s.firstPacketOfTrack(track)
+		if pktDuration < 1 {
 			continue
 		}
 
-		pktDuration = int(pkt.GetDuration(1000))
-		pktDataSize = len(pkt.Data)
-		break
-	}
-
-	if pktDuration < 1 {
-		return false
-	}
-
-	bitRate := pktDataSize / pktDuration * 1000 * 8
-	if bitRate <= 16000 {
-		bitRate = 16000
-	} else if bitRate <= 24000 {
-		bitRate = 24000
-	} else if bitRate <= 32000 {
-		bitRate = 32000
-	} else if bitRate <= 40000 {
-		bitRate = 40000
-	} else {
-		return false
-	}
-
-	for _, track := range s.Tracks.Tracks {
-		if track.GetStream().CodecID != utils.AVCodecIdADPCMG726 {
+		bitRate := pktDataSize / pktDuration * 1000 * 8
+		if bitRate <= 16000 {
+			bitRate = 16000
+		} else if bitRate <= 24000 {
+			bitRate = 24000
+		} else if bitRate <= 32000 {
+			bitRate = 32000
+		} else if bitRate <= 40000 {
+			bitRate = 40000
+		} else {
 			continue
 		}
+
 		track.GetStream().BitRate = bitRate
+		ok = true
 	}
 
-	return true
+	return ok
 }
 
 // 回调前的准备工作
-- 
2.43.0


From 9d9ba31846d02dc07b639f425a3c035dfa0610f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:12 +0000
Subject: [PATCH 50/52] fix: a ts stream declared twice gets two tracks that
 share its frames at random

---
 demuxer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index da5e82f..0f3236b 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -78,7 +78,8 @@ func (s *BaseDemuxer) AddTrack(track Track) bool {
 
 func (s *BaseDemuxer) OnNewAudioTrack(bufferIndex int, id utils.AVCodecID, timebase int, extraData []byte, config AudioConfig) Track {
 	var track Track
-	if s.Tracks.FindTrackWithType(utils.AVMediaTypeAudio) == nil || "ts" == s.Name {
+	// 同一个流重复声明, 不创建新的track
+	if s.findTrackByBufferIndex(bufferIndex) == nil && (s.Tracks.FindTrackWithType(utils.AVMediaTypeAudio) == nil || "ts" == s.Name) {
 		track = s.createAudioTrack(bufferIndex, id, timebase, extraData, config)
 	}
 
@@ -133,7 +134,8 @@ func (s *BaseDemuxer) createAudioTrack(bufferIndex int, id utils.AVCodecID, time
 
 func (s *BaseDemuxer) OnNewVideoTrack(bufferIndex int, id utils.AVCodecID, timebase int, extraData []byte) Track {
 	var track Track
-	if s.Tracks.FindTrackWithType(utils.AVMediaTypeVideo) == nil || "ts" == s.Name {
+	// 同一个流重复声明, 不创建新的track
+	if s.findTrackByBufferIndex(bufferIndex) == nil && (s.Tracks.FindTrackWithType(utils.AVMediaTypeVideo) == nil || "ts" == s.Name) {
 		track = s.createVideoTrack(bufferIndex, id, timebase, extraData)
 	}
 
-- 
2.43.0


From 85a2f3224badeb3d4562431c5c55f019645e14e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:03 +0000
Subject: [PATCH 51/52] fix: AAC configurations with an escaped object type or
 an explicit rate are misread

---
 utils/aac_util.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/utils/aac_util.go b/utils/aac_util.go
index 3d173d5..fcaa71e 100644
--- a/utils/aac_util.go
+++ b/utils/aac_util.go
@@ -264,10 +264,29 @@ func ParseMpeg4AudioConfig(data []byte) (*MPEG4AudioConfig, error) {
 	config := &MPEG4AudioConfig{}
 	config.ObjectType = int(data[0] >> 3)
 	if AudioObjectType(config.ObjectType) == AotEscape {
-		//config.ObjectType = 32+bits6
+		if len(data) < 3 {
+			return nil, fmt.Errorf("need more data")
+		}
+
+		config.ObjectType = 32 + int(data[0]&7<<3|data[1]>>5)
+		// 去掉扩展的6bits, 后续字段和未扩展时的位置一致
+		shifted := make([]byte, len(data)-1)
+		for i := range shifted {
+			shifted[i] = data[i]<<6 | data[i+1]>>2
+		}
+		data = shifted
 	}
 	config.SamplingIndex = int((data[0] & 7 << 1) | data[1]>>7)
 	config.SampleRate = audioSamplingRates[(config.SamplingIndex)]
+	if config.SamplingIndex == 0xF {
+		// 采样率不在表中, 使用24bits表示
+		if len(data) < 5 {
+			return nil, fmt.Errorf("need more data")
+		}
+
+		config.SampleRate = int(data[1]&0x7F)<<17 | int(data[2])<<9 | int(data[3])<<1 | int(data[4]>>7)
+		data = data[3:]
+	}
 	config.ChanConfig = int(data[1] >> 3 & 0xF)
 	if config.ChanConfig >= len(mpeg4AudioChannels) {
 		return nil, fmt.Errorf("invalid data")
-- 
2.43.0


From ef911838e7f23f99d9ea98e367e62523c61bf78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:02 +0000
Subject: [PATCH 52/52] fix: state profile, level, format and layers of the SPS
 in H.265 decoder configuration records

---
 hevc/mp4.go | 16 ++++++++++++++++
 hevc/sps.go |  6 +++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/hevc/mp4.go b/hevc/mp4.go
index 28cac8b..d877fee 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -95,6 +95,22 @@ func (r *HEVCDecoderConfigurationRecord) Marshal(vpsList, spsList, ppsList [][]b
 	bytes[0] = 1
 	bytes[21] = 3
 	bytes[22] = 3
+
+	// profile/tier/level等信息和sps保持一致
+	if info, err := ParseSPS(spsList[0]); err == nil {
+		bytes[1] = byte(info.generalProfileSpace<<6 | info.generalTierFlag<<5 | info.generalProfileIDC)
+		binary.BigEndian.PutUint32(bytes[2:], info.generalProfileCompatibilityFlags)
+		binary.BigEndian.PutUint32(bytes[6:], uint32(info.generalConstraintIndicatorFlags>>16))
+		binary.BigEndian.PutUint16(bytes[10:], uint16(info.generalConstraintIndicatorFlags))
+		bytes[12] = byte(info.generalLevelIDC)
+		binary.BigEndian.PutUint16(bytes[13:], 0xF000)
+		bytes[15] = 0xFC
+		bytes[16] = 0xFC | byte(info.chromaFormat&0x3)
+		bytes[17] = 0xF8 | byte(info.bitDepthLumaMinus8&0x7)
+		bytes[18] = 0xF8 | byte(info.bitDepthChromaMinus8&0x7)
+		bytes[21] |= byte(info.numTemporalLayers&0x7<<3 | info.temporalIdNested<<2)
+	}
+
 	writer := bufio.NewBytesWriter(bytes)
 	if err := writer.Seek(23); err != nil {
 		return nil, err
diff --git a/hevc/sps.go b/hevc/sps.go
index 7191a24..fdc3645 100644
--- a/hevc/sps.go
+++ b/hevc/sps.go
@@ -39,6 +39,10 @@ func ParseSPS(sps []byte) (ctx HEVCSPSInfo, err error) {
 
 	rbsp := nal2rbsp(sps[2:])
 	br := &bufio.GolombBitReader{R: bytes.NewReader(rbsp)}
+
+	// 多个PTL取交集(updatePTL)
+	ctx.generalProfileCompatibilityFlags = 0xFFFFFFFF
+	ctx.generalConstraintIndicatorFlags = 0xFFFFFFFFFFFF
 	if _, err = br.ReadBits(4); err != nil {
 		return
 	}
@@ -112,7 +116,7 @@ func ParseSPS(sps []byte) (ctx HEVCSPSInfo, err error) {
 	if bdlm8, err = br.ReadExponentialGolombCode(); err != nil {
 		return
 	}
-	ctx.bitDepthChromaMinus8 = uint(bdlm8)
+	ctx.bitDepthLumaMinus8 = uint(bdlm8)
 	var bdcm8 uint
 	if bdcm8, err = br.ReadExponentialGolombCode(); err != nil {
 		return
-- 
2.43.0

