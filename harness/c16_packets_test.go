package harness

import (
	"bytes"
	"testing"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"
	"pgregory.net/rapid"
)

// drawParameters draws a stream description with small parameter sets, the annex B
// form of those sets, and the length size an H.265 description states.
func (c vcodec) drawParameters(t *rapid.T) (cd avformat.CodecData, extra []byte, lengthSize int) {
	lengthSize = 4
	lists := map[int][][]byte{}
	for _, typ := range c.setTypes() {
		n := rapid.SampledFrom([]int{1, 1, 2, 1, 5}).Draw(t, "sets")
		for i := 0; i < n; i++ {
			lists[typ] = append(lists[typ], withSC4(c.nal(t, typ, 40)))
		}
		extra = append(extra, join(lists[typ]...)...)
	}
	if c == h264 {
		return &avformat.AVCCodecData{Record: &avc.AVCDecoderConfigurationRecord{SPSList: lists[7], PPSList: lists[8]}}, extra, 4
	}
	lengthSize = rapid.SampledFrom([]int{4, 4, 3, 2, 1}).Draw(t, "lengthSize")
	stated := lengthSize
	if lengthSize == 4 && rapid.Bool().Draw(t, "unstated") { // as in a description made from the sets alone
		stated = 0
	}
	return &avformat.HEVCCodecData{Record: &hevc.HEVCDecoderConfigurationRecord{LengthSizeMinusOne: byte(stated),
		VPSList: lists[32], SPSList: lists[33], PPSList: lists[34]}}, extra, lengthSize
}

// frame draws the units of one access unit, now and then thousands of tiny ones.
func (c vcodec) frame(t *rapid.T) (nals [][]byte) {
	if rapid.IntRange(0, 15).Draw(t, "tiny") == 15 {
		one := c.nal(t, c.anyType(t), 2)
		for n := rapid.IntRange(50, 3000).Draw(t, "tinyUnits"); n > 0; n-- {
			nals = append(nals, one)
		}
		return append(nals, c.nal(t, c.anyType(t), 60))
	}
	if rapid.Bool().Draw(t, "setsFirst") {
		for _, typ := range c.setTypes() {
			nals = append(nals, c.nal(t, typ, 30))
		}
	}
	return append(nals, c.drawNals(t, 1, 6)...)
}

// allocator hands out non-zero buffers of exactly the size asked for.
func allocator(t *rapid.T, sizes *[]int) func(int) []byte {
	return func(n int) []byte {
		*sizes = append(*sizes, n)
		return dirty(n)[:n:n]
	}
}

func TestC16_ToStartCodes(t *testing.T) {
	check(t, "H.264/H.265 packets of 1-9 (now and then 3000) units in either framing, key or not, description present or not, H.265 length sizes 1-4, with or without a caller-supplied dirty buffer; non-trivial: key frame or re-framed",
		680000, 20000000, func(t *rapid.T, k *kase) {
			c := vcodec(rapid.IntRange(0, 1).Draw(t, "codec"))
			cd, extra, ls := c.drawParameters(t)
			if rapid.IntRange(0, 5).Draw(t, "noDescription") == 5 {
				cd, extra, ls = nil, nil, 4
			}
			nals := c.frame(t)
			if ls == 1 || ls == 2 {
				for i, n := range nals {
					if len(n) >= 1<<(8*ls) {
						nals[i] = append(clone(n[:200]), 0x80)
					}
				}
			}
			key := rapid.Bool().Draw(t, "key")
			typ := avformat.PacketTypeAnnexB
			var data []byte
			if rapid.Bool().Draw(t, "lengthPrefixed") {
				typ = avformat.PacketTypeAVCC
				data = avcc(nals, ls)
			} else {
				data = annexB(t, nals)
			}
			if cd != nil && typ == avformat.PacketTypeAnnexB && rapid.IntRange(0, 4).Draw(t, "exactSets") == 4 {
				data = append(clone(extra), data...)
				nals = splitAnnexB(data)
			}
			orig := clone(data)
			s := &avformat.AVStream{MediaType: utils.AVMediaTypeVideo, CodecID: c.id()}
			if cd != nil {
				s.CodecParameters = cd
			}
			pkt := avformat.NewVideoPacket(data, 1, 2, key, typ, c.id(), 0, 1000)
			var sizes []int
			if rapid.Bool().Draw(t, "allocator") {
				pkt.OnBufferAlloc = allocator(t, &sizes)
			}
			k.Desc("%v key=%v type=%d ls=%d described=%v alloc=%v %s", c, key, typ, ls, cd != nil, pkt.OnBufferAlloc != nil, briefs(nals))
			got := avformat.AVCCPacket2AnnexB(s, pkt)
			if !bytes.Equal(data, orig) || !bytes.Equal(pkt.Data, orig) {
				t.Fatalf("payload changed")
			}
			expect := func(prepended bool) error {
				var want []piece
				if prepended {
					want = append(want, piece{true, extra})
				}
				if typ == avformat.PacketTypeAnnexB {
					want = append(want, piece{true, data})
				} else {
					for _, n := range nals {
						if c == h265 || h264.typeOf(n) != 6 {
							want = append(want, piece{data: n})
						}
					}
				}
				return matchPieces(got, want)
			}
			err := expect(key && cd != nil)
			if key && cd != nil && isSet(c, nals[0]) {
				exact := bytes.HasPrefix(data, extra) && typ == avformat.PacketTypeAnnexB
				if err2 := expect(false); exact || err2 == nil { // begins with sets already
					err = err2
				}
			}
			if err != nil {
				t.Fatalf("%v key=%v type=%d ls=%d extra %x units %s: %v", c, key, typ, ls, extra, briefs(nals), err)
			}
			if typ == avformat.PacketTypeAnnexB && !(key && cd != nil) && &got[0] != &data[0] {
				t.Fatalf("a packet already in the target framing is copied")
			}
			keep := clone(got)
			allocs := len(sizes)
			for i := 0; i < 2; i++ {
				if again := avformat.AVCCPacket2AnnexB(s, pkt); !bytes.Equal(again, keep) {
					t.Fatalf("second call returns %x, first %x", clip(again), clip(keep))
				}
			}
			if len(sizes) != allocs {
				t.Fatalf("converted again on the second call")
			}
			if typ == avformat.PacketTypeAVCC {
				if raw := avformat.AnnexBPacket2AVCC(pkt); &raw[0] != &data[0] || len(raw) != len(data) {
					t.Fatalf("length-prefixed packet is not returned as it is after conversion to start codes")
				}
			}
			k.Nontrivial(key || typ == avformat.PacketTypeAVCC)
			k.LabelIf(len(nals) > 50, "many units")
			k.LabelIf(key && cd != nil, "sets to insert")
			k.Label("%v %d", c, typ)
		})
}

func isSet(c vcodec, n []byte) bool {
	for _, typ := range c.setTypes() {
		if c.typeOf(n) == typ {
			return true
		}
	}
	return false
}

func TestC16_ToLengthPrefixed(t *testing.T) {
	check(t, "H.264/H.265 packets of 1-9 (now and then 3000) units with 3/4-byte start codes, with or without a caller-supplied dirty buffer, converted to both framings in either order; non-trivial: 2+ units",
		800000, 24000000, func(t *rapid.T, k *kase) {
			c := vcodec(rapid.IntRange(0, 1).Draw(t, "codec"))
			nals := c.frame(t)
			data := annexB(t, nals)
			orig := clone(data)
			key := rapid.Bool().Draw(t, "key")
			pkt := avformat.NewVideoPacket(data, 1, 2, key, avformat.PacketTypeAnnexB, c.id(), 0, 1000)
			var sizes []int
			if rapid.Bool().Draw(t, "allocator") {
				pkt.OnBufferAlloc = allocator(t, &sizes)
			}
			k.Desc("%v key=%v alloc=%v %s", c, key, pkt.OnBufferAlloc != nil, briefs(nals))
			both := rapid.IntRange(0, 2).Draw(t, "bothWays")
			s := &avformat.AVStream{MediaType: utils.AVMediaTypeVideo, CodecID: c.id()}
			if both == 2 {
				cd, _, _ := c.drawParameters(t)
				s.CodecParameters = cd
				avformat.AVCCPacket2AnnexB(s, pkt)
			}
			got := avformat.AnnexBPacket2AVCC(pkt)
			list, ok := splitAVCC(got, 4)
			if !ok || !sameUnits(list, nals) {
				t.Fatalf("%v %s became %s (well-formed: %v)", c, briefs(nals), briefs(list), ok)
			}
			if !bytes.Equal(data, orig) || !bytes.Equal(pkt.Data, orig) {
				t.Fatalf("payload changed")
			}
			keep := clone(got)
			allocs := len(sizes)
			if both == 1 {
				if raw := avformat.AVCCPacket2AnnexB(s, pkt); !bytes.Equal(raw, orig) {
					t.Fatalf("start-code form is %x, want %x", clip(raw), clip(orig))
				}
			}
			if again := avformat.AnnexBPacket2AVCC(pkt); !bytes.Equal(again, keep) {
				t.Fatalf("second call returns %x, first %x", clip(again), clip(keep))
			}
			if len(sizes) != allocs {
				t.Fatalf("converted again on the second call")
			}
			k.Nontrivial(len(nals) > 1)
			k.LabelIf(len(nals) > 50, "many units")
			k.LabelIf(both > 0, "both framings")
		})
}

func TestC16_PassThrough(t *testing.T) {
	check(t, "packets of other video codecs, and length-prefixed packets asked for length prefixes; every case is non-trivial",
		400000, 12000000, func(t *rapid.T, k *kase) {
			id := rapid.SampledFrom([]utils.AVCodecID{utils.AVCodecIdH263, utils.AVCodecIdVP8, utils.AVCodecIdVP9, utils.AVCodecIdAV1, utils.AVCodecIdMPEG4, utils.AVCodecIdMJPEG, utils.AVCodecIdNONE}).Draw(t, "id")
			typ := rapid.SampledFrom([]avformat.PacketType{avformat.PacketTypeAnnexB, avformat.PacketTypeAVCC, avformat.PacketTypeNONE, 0}).Draw(t, "type")
			data := blobUpTo(t, "data", 1, 200)
			if rapid.Bool().Draw(t, "nalLike") {
				data = annexB(t, h264.drawNals(t, 1, 3))
			}
			orig := clone(data)
			key := rapid.Bool().Draw(t, "key")
			pkt := avformat.NewVideoPacket(data, 1, 2, key, typ, id, 0, 1000)
			pkt.OnBufferAlloc = func(n int) []byte { t.Fatalf("a conversion of codec %v", id); return nil }
			s := &avformat.AVStream{MediaType: utils.AVMediaTypeVideo, CodecID: id}
			if rapid.Bool().Draw(t, "described") {
				s.CodecParameters, _, _ = h264.drawParameters(t)
			}
			k.Desc("%v type=%d key=%v %s", id, typ, key, brief(data))
			k.Nontrivial(true)
			if got := avformat.AVCCPacket2AnnexB(s, pkt); len(got) != len(data) || &got[0] != &data[0] {
				t.Fatalf("%v type=%d: start-code form is %s", id, typ, brief(got))
			}
			if got := avformat.AnnexBPacket2AVCC(pkt); len(got) != len(data) || &got[0] != &data[0] {
				t.Fatalf("%v type=%d: length-prefixed form is %s", id, typ, brief(got))
			}
			if !bytes.Equal(data, orig) {
				t.Fatalf("payload changed")
			}
		})
}

// makeStream builds a stream description in one of the ways an application does. Calling
// the result again builds another one from the same sets.
func (c vcodec) makeStream(t *rapid.T) (func() *avformat.AVStream, [][]byte) {
	p := c.sps(t)
	var sets [][]byte
	for _, typ := range c.setTypes() {
		if (c == h264 && typ == 7) || (c == h265 && typ == 33) {
			sets = append(sets, p.nal)
		} else {
			sets = append(sets, c.nal(t, typ, 40))
		}
	}
	slice := c.nal(t, map[vcodec]int{h264: 5, h265: 19}[c], 20)
	frame := annexB(t, append(append([][]byte{}, sets...), slice))
	rec := avccRecordOf(t, c, p, sets)
	how := rapid.IntRange(0, 2).Draw(t, "description")
	return func() *avformat.AVStream {
		var st *avformat.AVStream
		var cd avformat.CodecData
		var err error
		switch {
		case how == 0 && c == h264:
			st, err = avformat.CreateAVCStreamFromKeyFrame(clone(frame), 0)
		case how == 0:
			st, err = avformat.CreateHevcStreamFromKeyFrame(clone(frame), 0)
		case how == 1 && c == h264:
			cd, err = avformat.ParseAVCDecoderConfigurationRecord(clone(rec))
		case how == 1:
			cd, err = avformat.ParseHEVCDecoderConfigurationRecord(clone(rec))
		case c == h264:
			cd, err = avformat.NewAVCCodecData(withSC4(sets[0]), withSC4(sets[1]))
		default:
			cd, err = avformat.NewHEVCCodecData(withSC4(sets[0]), withSC4(sets[1]), withSC4(sets[2]))
		}
		if err != nil {
			t.Fatalf("%v description %d from %x: %v", c, how, sets, err)
		}
		if st == nil {
			st = avformat.NewAVStream(utils.AVMediaTypeVideo, 0, c.id(), nil, cd)
		}
		return st
	}, sets
}

func avccRecordOf(t *rapid.T, c vcodec, p *paramSet, sets [][]byte) []byte {
	if c == h264 {
		b, _ := refAvcRecord(byte(p.profile), byte(p.compat), byte(p.level), 4, sets[:1], sets[1:], nil)
		return b
	}
	h := drawHevcHead(t)
	h.lengthSize = 4
	return h.write([]hevcArray{{32, 1, sets[:1]}, {33, 1, sets[1:2]}, {34, 1, sets[2:]}})
}

func TestC16_Stream(t *testing.T) {
	check(t, "histories of 2-24 conversions, repetitions and releases over 2-6 packets of one H.264/H.265 stream described from a key frame, a record or bare sets: each conversion equals that of a lone packet of a stream of its own, and those made earlier stay as they are; non-trivial: 2+ packets converted to start codes",
		240000, 7200000, func(t *rapid.T, k *kase) {
			c := vcodec(rapid.IntRange(0, 1).Draw(t, "codec"))
			fresh, sets := c.makeStream(t)
			st := fresh()
			said := streamText(st)
			type slot struct {
				pkt       *avformat.AVPacket
				data      []byte
				key       bool
				typ       avformat.PacketType
				live, was [2][]byte
			}
			slots := make([]slot, rapid.IntRange(2, 6).Draw(t, "packets"))
			fill := func(i int) {
				nals := [][]byte{}
				if rapid.IntRange(0, 3).Draw(t, "ownSets") == 0 {
					nals = append(nals, sets...)
				}
				for n := rapid.IntRange(1, 3).Draw(t, "units"); n > 0; n-- {
					nals = append(nals, c.nal(t, c.anyType(t), 40))
				}
				s := slot{key: rapid.IntRange(0, 3).Draw(t, "key") != 0, typ: avformat.PacketTypeAnnexB}
				if rapid.Bool().Draw(t, "lengthPrefixed") {
					s.typ, s.data = avformat.PacketTypeAVCC, avcc(nals, 4)
				} else {
					s.data = annexB(t, nals)
				}
				s.pkt = avformat.NewVideoPacket(clone(s.data), 1, 2, s.key, s.typ, c.id(), 0, 1000)
				k.Desc(" %d=(key=%v type=%d %s)", i, s.key, s.typ, briefs(nals))
				slots[i] = s
			}
			k.Desc("%v", c)
			for i := range slots {
				fill(i)
			}
			toStart := map[int]bool{}
			for n := rapid.IntRange(2, 24).Draw(t, "steps"); n > 0; n-- {
				i := rapid.IntRange(0, len(slots)-1).Draw(t, "packet")
				s := &slots[i]
				op := rapid.IntRange(0, 7).Draw(t, "op")
				if op == 7 {
					avformat.FreePacket(s.pkt)
					fill(i)
					continue
				}
				lone := avformat.NewVideoPacket(clone(s.data), 1, 2, s.key, s.typ, c.id(), 0, 1000)
				if op >= 5 {
					k.Desc(" p%d", i)
					s.live[1] = avformat.AnnexBPacket2AVCC(s.pkt)
					s.was[1] = clone(avformat.AnnexBPacket2AVCC(lone))
				} else {
					k.Desc(" s%d", i)
					s.live[0] = avformat.AVCCPacket2AnnexB(st, s.pkt)
					s.was[0] = clone(avformat.AVCCPacket2AnnexB(fresh(), lone))
					toStart[i] = true
				}
				for j := range slots {
					o := &slots[j]
					for w := range o.live {
						if !bytes.Equal(o.live[w], o.was[w]) {
							t.Fatalf("after packet %d was converted (op %d), the conversion %d of packet %d is %x, alone it is %x", i, op, w, j, clip(o.live[w]), clip(o.was[w]))
						}
					}
					if !bytes.Equal(o.pkt.Data, o.data) {
						t.Fatalf("the payload of packet %d changed", j)
					}
				}
			}
			if now := streamText(st); now != said {
				t.Fatalf("the description of the stream changed from %s to %s", said, now)
			}
			k.Nontrivial(len(toStart) >= 2)
		})
}
