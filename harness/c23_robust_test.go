package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime/metrics"
	"testing"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"
	"pgregory.net/rapid"
)

// parser is one entry point that takes stream bytes; it returns what it made of them.
type parser struct {
	name string
	f    func(b []byte) any
}

func fixedStream(c vcodec) *avformat.AVStream {
	sc := func(h ...byte) []byte { return withSC4(append(h, 0x11, 0x22, 0x80)) }
	st := &avformat.AVStream{MediaType: utils.AVMediaTypeVideo, CodecID: c.id()}
	if c == h264 {
		st.CodecParameters = &avformat.AVCCodecData{Record: &avc.AVCDecoderConfigurationRecord{SPSList: [][]byte{sc(0x67, 66, 0, 30)}, PPSList: [][]byte{sc(0x68)}}}
	} else {
		st.CodecParameters = &avformat.HEVCCodecData{Record: &hevc.HEVCDecoderConfigurationRecord{LengthSizeMinusOne: 4,
			VPSList: [][]byte{sc(0x40, 1)}, SPSList: [][]byte{sc(0x42, 1)}, PPSList: [][]byte{sc(0x44, 1)}}}
	}
	return st
}

func codecDataText(cd avformat.CodecData, err error) any {
	if err != nil {
		return err
	}
	return fmt.Sprint(cd.Width(), cd.Height(), cd.SPS(), cd.PPS(), cd.AnnexBExtraData(), len(cd.MP4ExtraData()))
}

func videoPacket(c vcodec, b []byte, key bool, typ avformat.PacketType) *avformat.AVPacket {
	return avformat.NewVideoPacket(b, 1, 2, key, typ, c.id(), 0, 1000)
}

// extraUnits is what a caller inserts.
var extraUnits = []byte{0, 0, 0, 1, 0x67, 1, 2, 3, 0, 0, 0, 1, 0x68, 4, 5}

var parsers = buildParsers()

func buildParsers() []parser {
	ps := []parser{
		{"avc.ParseSPS", func(b []byte) any { s, err := avc.ParseSPS(b); return fmt.Sprintf("%+v %v", s, err) }},
		{"hevc.ParseSPS", func(b []byte) any { s, err := hevc.ParseSPS(b); return fmt.Sprintf("%+v %v", s, err) }},
		{"avc.Unmarshal", func(b []byte) any {
			r := avc.AVCDecoderConfigurationRecord{}
			err := r.Unmarshal(b)
			return fmt.Sprintf("%+v %v", r, err)
		}},
		{"hevc.Unmarshal", func(b []byte) any {
			r := hevc.HEVCDecoderConfigurationRecord{}
			err := r.Unmarshal(b)
			return fmt.Sprintf("%+v %v", r, err)
		}},
		{"avc.NewCodecData", func(b []byte) any {
			r, s, err := avc.NewCodecDataFromAVCDecoderConfigurationRecord(b)
			if err != nil {
				return err
			}
			return fmt.Sprintf("%+v %+v", *r, *s)
		}},
		{"hevc.NewCodecData", func(b []byte) any {
			r, s, err := hevc.NewCodecDataFromHEVCDecoderConfigurationRecord(b)
			if err != nil {
				return err
			}
			return fmt.Sprintf("%+v %+v", *r, *s)
		}},
		{"avc.ExtraDataToAnnexB", func(b []byte) any { o, err := avc.ExtraDataToAnnexB(b); return fmt.Sprint(o, err) }},
		{"hevc.ExtraDataToAnnexB", func(b []byte) any { o, err := hevc.ExtraDataToAnnexB(b); return fmt.Sprint(o, err) }},
		{"avc.M4VCExtraDataToAnnexB", func(b []byte) any { o, err := avc.M4VCExtraDataToAnnexB(b); return fmt.Sprint(o, err) }},
		{"avc.FindStartCode", func(b []byte) any { i, n := avc.FindStartCode(b); return fmt.Sprint(i, n) }},
		{"avc.FindStartCode2", func(b []byte) any { return avc.FindStartCode2(b) }},
		{"avc.FindStartCodeWithReader", func(b []byte) any {
			r := bufio.NewBytesReader(b)
			var at []int
			for i := 0; i <= len(b); i++ {
				n := avc.FindStartCodeWithReader(r)
				at = append(at, n, r.Offset())
				if n < 0 {
					break
				}
			}
			return at
		}},
		{"avc.IsKeyFrame", func(b []byte) any { return avc.IsKeyFrame(b) }},
		{"hevc.IsKeyFrame", func(b []byte) any { return hevc.IsKeyFrame(b) }},
		{"avc.SplitNalU", func(b []byte) any {
			n, sum := 0, 0
			avc.SplitNalU(b, func(u []byte) { n++; sum += len(u) })
			return fmt.Sprint(n, sum)
		}},
		{"avc.RemoveStartCode", func(b []byte) any { return len(avc.RemoveStartCode(b)) }},
		{"avc.ParseExtraData", func(b []byte) any { x, y, err := avc.ParseExtraDataFromKeyNALU(b); return fmt.Sprint(x, y, err) }},
		{"hevc.ParseExtraData", func(b []byte) any {
			x, y, z, err := hevc.ParseExtraDataFromKeyNALU(b)
			return fmt.Sprint(x, y, z, err)
		}},
		{"avc.AVCC2AnnexB", func(b []byte) any {
			dst := make([]byte, len(b)+64)
			return clone(dst[:avc.AVCC2AnnexB(dst, b, nil)])
		}},
		{"avc.AVCC2AnnexB+extra", func(b []byte) any {
			dst := make([]byte, len(b)+64)
			return clone(dst[:avc.AVCC2AnnexB(dst, b, extraUnits)])
		}},
		{"avc.Mp4ToAnnexB", func(b []byte) any {
			w := bufio.NewBytesWriter(make([]byte, len(b)+64))
			avc.Mp4ToAnnexB(w, b, extraUnits)
			return clone(w.WrittenBytes())
		}},
		{"avc.Mp4ToAnnexB short", func(b []byte) any {
			w := bufio.NewBytesWriter(make([]byte, len(b)/2))
			avc.Mp4ToAnnexB(w, b, nil)
			return len(w.WrittenBytes())
		}},
		{"avc.AnnexB2AVCC", func(b []byte) any {
			dst := make([]byte, len(b)*2+64)
			return clone(dst[:avc.AnnexB2AVCC(dst, b)])
		}},
		{"utils.ReadADtsFixedHeader", func(b []byte) any {
			h, err := utils.ReadADtsFixedHeader(b)
			if err != nil {
				return err
			}
			asc, err := utils.ADtsHeader2MpegAudioConfigData(h)
			return fmt.Sprint(readADTS(h), asc, err)
		}},
		{"utils.ParseMpeg4AudioConfig", func(b []byte) any {
			c, err := utils.ParseMpeg4AudioConfig(b)
			if err != nil {
				return err
			}
			return fmt.Sprintf("%+v", *c)
		}},
		{"ParseAVCDecoderConfigurationRecord", func(b []byte) any { return codecDataText(avformat.ParseAVCDecoderConfigurationRecord(b)) }},
		{"ParseHEVCDecoderConfigurationRecord", func(b []byte) any { return codecDataText(avformat.ParseHEVCDecoderConfigurationRecord(b)) }},
		{"NewAVCCodecData", func(b []byte) any { return codecDataText(avformat.NewAVCCodecData(b, b)) }},
		{"NewHEVCCodecData", func(b []byte) any { return codecDataText(avformat.NewHEVCCodecData(b, b, b)) }},
		{"CreateAVCStreamFromKeyFrame", func(b []byte) any {
			st, err := avformat.CreateAVCStreamFromKeyFrame(b, 0)
			if err != nil {
				return err
			}
			return streamText(st)
		}},
		{"CreateHevcStreamFromKeyFrame", func(b []byte) any {
			st, err := avformat.CreateHevcStreamFromKeyFrame(b, 0)
			if err != nil {
				return err
			}
			return streamText(st)
		}},
	}
	for ls := 1; ls <= 4; ls++ {
		ls := ls
		for _, extra := range [][]byte{nil, extraUnits} {
			extra := extra
			ps = append(ps, parser{fmt.Sprintf("hevc.Mp4ToAnnexB/%d/%d", ls, len(extra)), func(b []byte) any {
				dst := make([]byte, len(b)*4+64)
				n, err := hevc.Mp4ToAnnexB(dst, b, extra, ls)
				if err != nil {
					return err
				}
				return clone(dst[:n])
			}})
		}
	}
	for _, c := range []vcodec{h264, h265} {
		c := c
		ps = append(ps, parser{"IsKeyFrame/" + c.String(), func(b []byte) any { return avformat.IsKeyFrame(c.id(), b) }},
			parser{"ExtractVideoExtraDataFromKeyFrame/" + c.String(), func(b []byte) any {
				o, err := avformat.ExtractVideoExtraDataFromKeyFrame(c.id(), b)
				return fmt.Sprint(o, err)
			}},
			parser{"AnnexBPacket2AVCC/" + c.String(), func(b []byte) any {
				return clone(avformat.AnnexBPacket2AVCC(videoPacket(c, b, false, avformat.PacketTypeAnnexB)))
			}})
		for _, key := range []bool{false, true} {
			for _, typ := range []avformat.PacketType{avformat.PacketTypeAVCC, avformat.PacketTypeAnnexB} {
				for _, described := range []bool{false, true} {
					key, typ, described := key, typ, described
					ps = append(ps, parser{fmt.Sprintf("AVCCPacket2AnnexB/%v/%v/%d/%v", c, key, typ, described), func(b []byte) any {
						st := fixedStream(c)
						if !described {
							st.CodecParameters = nil
						}
						return clone(avformat.AVCCPacket2AnnexB(st, videoPacket(c, b, key, typ)))
					}})
				}
			}
		}
	}
	for _, id := range []utils.AVCodecID{utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW} {
		id := id
		ps = append(ps, parser{fmt.Sprintf("ExtractAudioExtraData/%v", id), func(b []byte) any {
			o, n, c, err := avformat.ExtractAudioExtraData(id, b)
			return fmt.Sprint(o, n, c, err)
		}}, parser{fmt.Sprintf("ExtractAudioPacket/%v", id), func(b []byte) any {
			p, err := avformat.ExtractAudioPacket(id, b, 3, 0, 1000, true)
			if err != nil {
				return err
			}
			return clone(p.Data)
		}})
	}
	return ps
}

// ---- what a call may cost --------------------------------------------------------

var allocated = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocs() uint64 {
	metrics.Read(allocated)
	return allocated[0].Value.Uint64()
}

// spent runs f and returns its CPU time in ns and the bytes it allocated. The runtime
// accounts for small allocations late, up to some megabytes at once.
func spent(f func()) (int64, uint64) {
	cpu, mem := cpuTime(), allocs()
	f()
	return cpuTime() - cpu, allocs() - mem
}

// costly runs f and says what is wrong with its cost, if anything: the CPU time and the
// bytes allocated are compared with generous multiples of the input size. An f that may be
// called again is, to tell what it allocates from what was accounted for late.
func costly(n int, again bool, f func()) string {
	cpu, mem := spent(f)
	if cpu > 3e9+int64(n)*100000 {
		return fmt.Sprintf("%d ms of CPU time for %d bytes", cpu/1000000, n)
	}
	limit := 16<<20 + uint64(n)*400
	if again {
		limit = 1<<20 + uint64(n)*400
		for i := 0; i < 5 && mem > limit; i++ {
			_, m := spent(f)
			mem = min(mem, m)
		}
	}
	if mem > limit {
		return fmt.Sprintf("%d bytes allocated for %d bytes", mem, n)
	}
	return ""
}

// ---- inputs ------------------------------------------------------------------------

// wellFormed draws some valid structure.
func wellFormed(t *rapid.T) ([]byte, string) {
	c := vcodec(rapid.IntRange(0, 1).Draw(t, "codec"))
	switch kind := rapid.IntRange(0, 6).Draw(t, "structure"); kind {
	case 0:
		return withStartCode(t, c.sps(t).nal), "sps"
	case 1, 2:
		p := c.sps(t)
		if c == h264 {
			b, _ := refAvcRecord(byte(p.profile), byte(p.compat), byte(p.level), 4, [][]byte{p.nal}, c.setList(t, 8, rapid.IntRange(1, 3).Draw(t, "pps"), 0), nil)
			return b, "avc record"
		}
		return drawHevcHead(t).write([]hevcArray{{32, 1, c.setList(t, 32, 1, 0)}, {33, 1, [][]byte{p.nal}}, {34, 1, c.setList(t, 34, 2, 0)}}), "hevc record"
	case 3:
		return append(drawADTS(t).write(), blobUpTo(t, "aac", 0, 40)...), "adts"
	case 4:
		return avcc(c.frame(t), rapid.SampledFrom([]int{4, 4, 1, 2, 3}).Draw(t, "prefix")), "length-prefixed"
	default:
		var nals [][]byte
		p := c.sps(t)
		if c == h264 {
			nals = [][]byte{p.nal, c.nal(t, 8, 20)}
		} else {
			nals = [][]byte{c.nal(t, 32, 20), p.nal, c.nal(t, 34, 20)}
		}
		return annexB(t, append(nals, c.frame(t)...)), "key frame"
	}
}

// mutate damages bytes in place-independent ways.
func mutate(t *rapid.T, b []byte) []byte {
	b = clone(b)
	for n := rapid.IntRange(1, 6).Draw(t, "mutations"); n > 0; n-- {
		if len(b) == 0 {
			return append(b, blobUpTo(t, "fresh", 0, 10)...)
		}
		head := len(b)
		if rapid.Bool().Draw(t, "atHead") { // headers and counts are at the beginning
			head = min(head, 48)
		}
		i := rapid.IntRange(0, head-1).Draw(t, "at")
		switch rapid.IntRange(0, 8).Draw(t, "how") {
		case 0:
			b[i] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case 1:
			b[i] = rapid.SampledFrom([]byte{0, 0xFF, 0x7F, 0x80, 1, 3}).Draw(t, "value")
		case 2:
			b = b[:i]
		case 3:
			b = b[i:]
		case 4:
			for _, v := range rapid.SampledFrom([][]byte{{0xFF, 0xFF, 0xFF, 0xFF}, {0, 0, 0, 0}, {0x7F, 0xFF, 0xFF, 0xFF}, {0x80, 0, 0, 0}, {0, 0, 0, 1}, {0, 0, 1}, {0xFF, 0xFF}, {0, 0, 3}}).Draw(t, "pattern") {
				if i < len(b) {
					b[i] = v
					i++
				}
			}
		case 5:
			b = append(b[:i:i], append(blobUpTo(t, "insert", 1, 12), b[i:]...)...)
		case 6:
			j := rapid.IntRange(i, len(b)).Draw(t, "to")
			b = append(b[:i:i], b[j:]...)
		case 7:
			j := rapid.IntRange(i, min(len(b), i+40)).Draw(t, "to")
			b = append(b[:j:j], b[i:]...)
		default:
			for j := i; j < min(len(b), i+12); j++ {
				b[j] = byte(rapid.SampledFrom([]int{0, 0, 0xFF, 0xAA, 1}).Draw(t, "fill"))
			}
		}
	}
	return b
}

// hostile draws arbitrary, start-code dense, damaged or repetitive bytes.
func hostile(t *rapid.T) ([]byte, string) {
	switch rapid.IntRange(0, 9).Draw(t, "hostile") {
	case 0:
		return blobUpTo(t, "any", 0, 64), "arbitrary"
	case 1:
		return blobUpTo(t, "any", 0, 3000), "arbitrary"
	case 2:
		return dense(t, "dense", 60), "dense"
	case 3: // one pattern over and over
		p := blobUpTo(t, "pattern", 1, 8)
		if rapid.Bool().Draw(t, "codes") {
			p = rapid.SampledFrom([][]byte{{0, 0, 1}, {0, 0, 0, 1}, {0, 0, 1, 0x65}, {0}, {0xFF}, {0, 0, 0, 0, 1}, {0, 0, 3}, {0, 0, 0, 1, 0x67}, {0, 1}}).Draw(t, "code")
		}
		return bytes.Repeat(p, size(t, "times", 1, 20000)), "repetitive"
	case 4: // a plausible header and nothing sensible behind it
		h := rapid.SampledFrom([][]byte{{0x67, 100, 0, 31}, {0x67, 66, 0, 30}, {0x42, 1, 1}, {0x42, 1, 0x0F}, {1, 100, 0, 31, 0xFF, 0xE1}, {1, 100, 0, 31, 0xFF, 0xFF, 0xFF, 0xFF}, {0xFF, 0xF1}, {0xFF, 0xF0},
			{0, 0, 1, 0x67}, {0, 0, 0, 1, 0x67, 0x64}, {0, 0, 0, 1, 0x40, 1}, {0, 0, 0, 2}, {0xFF, 0xFF, 0xFF, 0xFF}, {0x7F, 0xFF, 0xFF, 0xFF, 1}, {0, 0, 0, 1, 0x65}}).Draw(t, "header")
		return append(clone(h), blobUpTo(t, "body", 0, 80)...), "plausible header"
	case 5:
		n := rapid.IntRange(0, 30).Draw(t, "len")
		b := make([]byte, 23+n)
		b[0] = 1
		b[22] = byte(rapid.IntRange(0, 255).Draw(t, "arrays"))
		for i := 23; i < len(b); i++ {
			b[i] = rapid.SampledFrom([]byte{0, 1, 0x20, 0x21, 0x22, 0xA0, 0xA1, 0xA2, 0xFF, 4}).Draw(t, "b")
		}
		return b, "hevc record of small numbers"
	}
	b, what := wellFormed(t)
	if rapid.IntRange(0, 9).Draw(t, "asIs") == 9 {
		return b, what
	}
	return mutate(t, b), "damaged " + what
}

func TestC23_Parsers(t *testing.T) {
	check(t, "arbitrary, start-code dense, repetitive and damaged well-formed inputs up to 1 MB through every parser entry point (each input through all of them), results repeatable, cost bounded, input unchanged; non-trivial: 8+ bytes",
		62000, 1800000, func(t *rapid.T, k *kase) {
			b, what := hostile(t)
			k.Desc("%s %x", what, clip(b))
			k.Label("%s", what)
			k.Nontrivial(len(b) >= 8)
			orig := clone(b)
			guarded := append(append(make([]byte, 0, len(b)+16), b...), bytes.Repeat([]byte{0xC3}, 16)...)
			in := guarded[:len(b):len(b)]
			repeat := rapid.IntRange(0, len(parsers)-1).Draw(t, "repeat")
			for i, p := range parsers {
				var first any
				if c := costly(len(b), true, func() { first = p.f(in) }); c != "" {
					t.Fatalf("%s: %s; input %x", p.name, c, clip(b))
				}
				if !bytes.Equal(in, orig) || !bytes.Equal(guarded[len(b):], bytes.Repeat([]byte{0xC3}, 16)) {
					t.Fatalf("%s changed its input %x", p.name, clip(orig))
				}
				if i == repeat {
					if again := p.f(in); fmt.Sprint(again) != fmt.Sprint(first) {
						t.Fatalf("%s of %x: first %v, then %v", p.name, clip(b), first, again)
					}
				}
			}
		})
}

// ---- demuxer entry points ------------------------------------------------------------

// sink records the payloads delivered per buffer.
type sink struct {
	got    map[int][][]byte
	tracks int
}

func (h *sink) OnNewTrack(avformat.Track) { h.tracks++ }
func (h *sink) OnTrackComplete()          {}
func (h *sink) OnTrackNotFind()           {}
func (h *sink) OnPacket(p *avformat.AVPacket) {
	h.got[p.BufferIndex] = append(h.got[p.BufferIndex], clone(p.Data))
}

// noPipe stands in for the buffers; it only counts.
type noPipe struct{ backs, heads int }

func (p *noPipe) Write(d []byte, _ int, _ utils.AVMediaType) (int, error) { return len(d), nil }
func (p *noPipe) Fetch(int) ([]byte, error)                               { return nil, nil }
func (p *noPipe) DiscardBackPacket(int)                                   { p.backs++ }
func (p *noPipe) DiscardHeadPacket(int)                                   { p.heads++ }
func (p *noPipe) PendingBlockSize(int) int                                { return 0 }

// goodVideo is a minimal well-formed key frame (baseline H.264, 352x288).
var goodVideo = append([]byte{0, 0, 0, 1, 0x67, 0x42, 0x00, 0x1E, 0xF4, 0x0B, 0x04, 0xB2, 0, 0, 0, 1, 0x68, 0xCE, 0x38, 0x80, 0, 0, 0, 1, 0x65}, 0x88, 0x84)

func TestC23_Demuxer(t *testing.T) {
	check(t, "demuxers of every container fed 1-40 hostile frames and descriptions of every codec on new and established streams, in between well-formed frames of two established streams and one that starts late, which must all come out; cost bounded, input unchanged; every case is non-trivial",
		86000, 2500000, func(t *rapid.T, k *kase) {
			k.Nontrivial(true)
			box := rapid.SampledFrom(containers).Draw(t, "container")
			h := &sink{got: map[int][][]byte{}}
			d := &avformat.BaseDemuxer{Name: box.name, AutoFree: rapid.Bool().Draw(t, "autoFree"), DataPipeline: &noPipe{}}
			d.SetHandler(h)
			d.SetProbeDuration(rapid.SampledFrom([]int{200, 500, 5000}).Draw(t, "window"))
			want := map[int][][]byte{}
			count := 0
			feed := func(buffer int, video bool, data []byte) {
				data = append(clone(data), byte(count), byte(count>>8), 0x80)
				want[buffer] = append(want[buffer], data)
				ts := int64(count) * int64(box.timebase) / 50
				if video {
					d.OnVideoPacket(buffer, utils.AVCodecIdH264, clone(data), true, ts, ts, box.pack)
				} else {
					d.OnAudioPacket(buffer, utils.AVCodecIdPCMALAW, clone(data), ts)
				}
				count++
			}
			p := genAvcSPS(t)
			key := join(withSC4(p.nal), withSC4([]byte{0x68, 0xCE, 0x80}), withSC4([]byte{0x65, 0x88}))
			if box.pack == avformat.PacketTypeAVCC {
				rec, _ := refAvcRecord(byte(p.profile), 0, 30, 4, [][]byte{p.nal}, [][]byte{{0x68, 0xCE, 0x80}}, nil)
				if tr := d.OnNewVideoTrack(0, utils.AVCodecIdH264, box.timebase, rec); tr == nil {
					t.Fatalf("a valid record is refused: %x", rec)
				}
			}
			feed(0, true, key)
			feed(1, false, []byte{1, 2, 3})
			k.Desc("%s", box.name)
			ids := []utils.AVCodecID{utils.AVCodecIdH264, utils.AVCodecIdH265, utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW, utils.AVCodecIdPCMS16LE, utils.AVCodecIdADPCMG726, utils.AVCodecIdVP8, utils.AVCodecIdNONE}
			lateAt := rapid.IntRange(0, 40).Draw(t, "late")
			n := rapid.IntRange(1, 40).Draw(t, "n")
			lateFed := false
			for i := 0; i < n; i++ {
				b, what := hostile(t)
				orig := clone(b)
				buffer := rapid.IntRange(2, 6).Draw(t, "buffer")
				id := rapid.SampledFrom(ids).Draw(t, "id")
				ts := rapid.OneOf(rapid.Int64Range(0, 1<<20), rapid.Int64()).Draw(t, "ts")
				if rapid.IntRange(0, 3).Draw(t, "near") != 3 {
					ts = int64(count) * int64(box.timebase) / 50
				}
				op := rapid.IntRange(0, 5).Draw(t, "op")
				k.Desc(" %d/%d/%v:%s(%d)", op, buffer, id, what, len(b))
				k.Label("%s", what)
				c := costly(len(b)+4096, false, func() {
					switch op {
					case 0, 1:
						d.OnVideoPacket(buffer, id, b, rapid.Bool().Draw(t, "key"), ts, ts, box.pack)
					case 2, 3:
						d.OnAudioPacket(buffer, id, b, ts)
					case 4:
						d.OnNewVideoTrack(buffer, id, box.timebase, b)
					default:
						if b == nil {
							b = []byte{}
						}
						d.OnNewAudioTrack(buffer, id, box.timebase, b, avformat.AudioConfig{HasADTSHeader: rapid.IntRange(0, 3).Draw(t, "adts") == 3})
					}
				})
				if c != "" {
					t.Fatalf("%s; input %x", c, clip(orig))
				}
				if !bytes.Equal(b, orig) {
					t.Fatalf("the demuxer changed its input %x", clip(orig))
				}
				switch rapid.IntRange(0, 2).Draw(t, "between") {
				case 0:
					feed(0, true, key)
				case 1:
					feed(1, false, []byte{4, 5, 6})
				}
				if i == lateAt && !d.Completed {
					feed(7, false, []byte{7})
					lateFed = true
				} else if lateFed && i > lateAt {
					feed(7, false, []byte{8})
				}
			}
			d.ProbeComplete()
			feed(0, true, key)
			feed(1, false, []byte{9})
			if lateFed {
				feed(7, false, []byte{10})
			}
			for b, w := range want {
				if !sameUnits(h.got[b], w[:len(w)-1]) {
					t.Fatalf("%s: of the %d well-formed frames on buffer %d, all but the last of which are due, %d are delivered: %s", box.name, len(w), b, len(h.got[b]), briefs(h.got[b]))
				}
			}
			k.LabelIf(lateFed, "late stream")
		})
}

// ---- coverage-guided (thorough tier) ---------------------------------------------------

func fuzzSeeds(f *testing.F) {
	rec, _ := refAvcRecord(100, 0, 31, 4, [][]byte{{0x67, 0x64, 0, 0x1F, 0xAC, 0xD9, 0x40, 0x50, 0x05, 0xBB, 0x01, 0x10}}, [][]byte{{0x68, 0xEB, 0xE3}}, nil)
	hrec := hevcHead{lengthSize: 4}.write([]hevcArray{{32, 1, [][]byte{{0x40, 1, 0x0C}}}, {33, 1, [][]byte{{0x42, 1, 1, 1, 0x60, 0, 0, 3, 0, 0x90, 0, 0, 3, 0, 0, 3, 0, 0x5D, 0xA0, 2, 0x80, 0x80, 0x2D, 0x16, 0x59, 0x59, 0xA4, 0x93, 0x2B}}}, {34, 1, [][]byte{{0x44, 1, 0xC1}}}})
	for _, b := range [][]byte{goodVideo, rec, hrec, {0xFF, 0xF1, 0x50, 0x80, 0x01, 0x7F, 0xFC, 1, 2}, {0x12, 0x10}, {0, 0, 0, 2, 0x65, 1, 0, 0, 0, 1, 6},
		{0, 0, 0, 1, 0x40, 1, 2, 0, 0, 1, 0x42, 1, 1, 1, 0x60, 0, 0, 3, 0, 0x90, 0, 0, 3, 0, 0, 3, 0, 0x5D, 0xA0, 2, 0x80, 0x80, 0x2D, 0x16, 0, 0, 1, 0x44, 1, 2, 0, 0, 1, 0x26, 1, 9}} {
		for i := 0; i < len(parsers); i += 7 {
			f.Add(append([]byte{byte(i)}, b...))
		}
	}
}

func FuzzC23Parsers(f *testing.F) {
	fuzzSeeds(f)
	f.Fuzz(func(t *testing.T, b []byte) {
		if len(b) == 0 {
			return
		}
		p := parsers[int(b[0])%len(parsers)]
		in := clone(b[1:])
		p.f(in)
		if !bytes.Equal(in, b[1:]) {
			t.Fatalf("VP-VIOLATION %s changed its input %x", p.name, b[1:])
		}
	})
}

// FuzzC23Demuxer reads a list of calls: opcode, codec, length, bytes.
func FuzzC23Demuxer(f *testing.F) {
	f.Add([]byte("\x01\x00\x20\x00" + string(goodVideo)))
	f.Add(append([]byte{0, 0, 30, 0}, append(clone(goodVideo), 0, 3, 4, 0, 1, 2, 3, 4)...))
	f.Fuzz(func(t *testing.T, b []byte) {
		if len(b) == 0 || len(b) > 1<<14 {
			return
		}
		box := containers[int(b[0])%len(containers)]
		h := &sink{got: map[int][][]byte{}}
		d := &avformat.BaseDemuxer{Name: box.name, AutoFree: b[0]&64 != 0, DataPipeline: &noPipe{}}
		d.SetHandler(h)
		ids := []utils.AVCodecID{utils.AVCodecIdH264, utils.AVCodecIdH265, utils.AVCodecIdAAC, utils.AVCodecIdPCMS16LE, utils.AVCodecIdADPCMG726}
		b = b[1:]
		for i := 0; len(b) >= 4 && i < 200; i++ {
			op, id, n := b[0], ids[int(b[1])%len(ids)], int(binary.LittleEndian.Uint16(b[2:]))
			b = b[4:]
			if n > len(b) {
				n = len(b)
			}
			in := clone(b[:n])
			if in == nil {
				in = []byte{}
			}
			buffer := int(op>>3) & 7
			ts := int64(i) * int64(box.timebase) / 25
			switch op & 7 {
			case 0, 1:
				d.OnVideoPacket(buffer, id, in, op&64 == 0, ts, ts, box.pack)
			case 2, 3:
				d.OnAudioPacket(buffer, id, in, ts)
			case 4:
				d.OnNewVideoTrack(buffer, id, box.timebase, in)
			case 5:
				d.OnNewAudioTrack(buffer, id, box.timebase, in, avformat.AudioConfig{HasADTSHeader: op&128 != 0})
			case 6:
				d.TryCompleteProbe()
			default:
				d.ProbeComplete()
			}
			if !bytes.Equal(in, b[:n]) {
				t.Fatalf("VP-VIOLATION the demuxer changed its input %x", b[:n])
			}
			b = b[n:]
		}
		feed := func(i int) {
			d.OnAudioPacket(9, utils.AVCodecIdPCMALAW, []byte{1, 2, byte(i)}, int64(1000+i)*int64(box.timebase)/25)
		}
		open := !d.Completed
		feed(0)
		d.ProbeComplete()
		feed(1)
		feed(2)
		if open && len(h.got[9]) != 2 {
			t.Fatalf("VP-VIOLATION of 3 well-formed frames at the end %d are delivered", len(h.got[9]))
		}
	})
}
