package harness

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
	"pgregory.net/rapid"
)

// packetModel is what a packet in use must look like.
type packetModel struct {
	p          *avformat.AVPacket
	c          vcodec
	nals       [][]byte // nil for audio
	data       []byte
	dts, pts   int64
	key        bool
	typ        avformat.PacketType
	media      utils.AVMediaType
	id         utils.AVCodecID
	index, tb  int
	duration   int64
	created    int64
	buffer     int
	hasAlloc   bool
	s          *avformat.AVStream
	wantAnnexB []piece
}

func (m *packetModel) fields() error {
	p := m.p
	typOK := p.PacketType == m.typ
	if m.media == utils.AVMediaTypeAudio { // not set by the constructor: a default
		typOK = p.PacketType == 0 || p.PacketType == avformat.PacketTypeNONE
	}
	if !bytes.Equal(p.Data, m.data) || p.Dts != m.dts || p.Pts != m.pts || p.Key != m.key || !typOK || p.MediaType != m.media || p.CodecID != m.id ||
		p.Index != m.index || p.Timebase != m.tb || p.Duration != m.duration || p.CreatedTime != m.created || p.BufferIndex != m.buffer || (p.OnBufferAlloc != nil) != m.hasAlloc {
		return fmt.Errorf("packet is %+v, want %+v", *p, *m)
	}
	return nil
}

// converted checks both framings of the packet, which also caches them in it.
func (m *packetModel) converted() error {
	if m.media != utils.AVMediaTypeVideo {
		return nil
	}
	if err := matchPieces(avformat.AVCCPacket2AnnexB(m.s, m.p), m.wantAnnexB); err != nil {
		return fmt.Errorf("start-code form of %s: %v", briefs(m.nals), err)
	}
	got, ok := splitAVCC(avformat.AnnexBPacket2AVCC(m.p), 4)
	if !ok || !sameUnits(got, m.nals) {
		return fmt.Errorf("length-prefixed form of %s: %s", briefs(m.nals), briefs(got))
	}
	return nil
}

func drawPacket(t *rapid.T) *packetModel {
	m := &packetModel{dts: int64(rapid.IntRange(-5, 1<<30).Draw(t, "dts")), index: rapid.IntRange(0, 5).Draw(t, "index"), tb: rapid.SampledFrom([]int{1000, 90000, 8000}).Draw(t, "tb")}
	if rapid.IntRange(0, 2).Draw(t, "audio") == 0 {
		m.media, m.pts = utils.AVMediaTypeAudio, m.dts
		m.id = rapid.SampledFrom([]utils.AVCodecID{utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW, utils.AVCodecIdOPUS}).Draw(t, "id")
		m.data = blobUpTo(t, "data", 0, 30)
		m.p = avformat.NewAudioPacket(m.data, m.dts, m.id, m.index, m.tb)
		return m
	}
	m.c = vcodec(rapid.IntRange(0, 1).Draw(t, "codec"))
	m.id, m.media = m.c.id(), utils.AVMediaTypeVideo
	m.pts = m.dts + int64(rapid.IntRange(0, 500).Draw(t, "cts"))
	m.key = rapid.Bool().Draw(t, "key")
	for i := rapid.IntRange(1, 3).Draw(t, "units"); i > 0; i-- {
		m.nals = append(m.nals, m.c.orBig(t, rapid.SampledFrom([]int{1, 5, 19, 9}).Draw(t, "type"), 16)) // no parameter sets, no SEI
	}
	for _, n := range m.nals {
		if m.c == h265 {
			n[0] = byte(rapid.SampledFrom([]int{1, 19, 35}).Draw(t, "type") << 1)
			n[1] = 1
		}
	}
	cd, extra, _ := m.c.drawParameters(t)
	m.s = &avformat.AVStream{MediaType: m.media, CodecID: m.id, CodecParameters: cd}
	if h, ok := cd.(*avformat.HEVCCodecData); ok {
		h.Record.LengthSizeMinusOne = 4
	}
	if m.key {
		m.wantAnnexB = append(m.wantAnnexB, piece{true, extra})
	}
	m.wantAnnexB = append(m.wantAnnexB, units(m.nals)...)
	m.typ = rapid.SampledFrom([]avformat.PacketType{avformat.PacketTypeAnnexB, avformat.PacketTypeAVCC}).Draw(t, "packing")
	if m.typ == avformat.PacketTypeAVCC {
		m.data = avcc(m.nals, 4)
	} else {
		m.data = annexB(t, m.nals)
	}
	m.p = avformat.NewVideoPacket(m.data, m.dts, m.pts, m.key, m.typ, m.id, m.index, m.tb)
	return m
}

func TestC25_Recycling(t *testing.T) {
	check(t, "histories of 2-40 creations, uses (fields set, both conversions cached, allocator attached) and releases of audio and video packets; non-trivial: a released packet object came back",
		152000, 4500000, func(t *rapid.T, k *kase) {
			var live []*packetModel
			released := map[*avformat.AVPacket]bool{}
			reused := false
			for i := rapid.IntRange(2, 40).Draw(t, "steps"); i > 0; i-- {
				op := rapid.IntRange(0, 5).Draw(t, "op")
				switch {
				case op <= 2 || len(live) == 0:
					m := drawPacket(t)
					reused = reused || released[m.p]
					delete(released, m.p)
					for _, o := range live {
						if o.p == m.p {
							t.Fatalf("a packet in use was handed out again")
						}
					}
					k.Desc("new %v %d %s;", m.id, m.dts, brief(m.data))
					if err := m.fields(); err != nil {
						t.Fatal(err)
					}
					live = append(live, m)
					if rapid.Bool().Draw(t, "convertNow") {
						if err := m.converted(); err != nil {
							t.Fatal(err)
						}
						k.Desc("convert;")
					}
				case op == 3: // use
					m := live[rapid.IntRange(0, len(live)-1).Draw(t, "which")]
					m.duration = int64(rapid.IntRange(1, 99).Draw(t, "duration"))
					m.created = int64(rapid.IntRange(1, 99).Draw(t, "created"))
					m.buffer = rapid.IntRange(1, 9).Draw(t, "buffer")
					m.p.Duration, m.p.CreatedTime, m.p.BufferIndex = m.duration, m.created, m.buffer
					if rapid.Bool().Draw(t, "allocator") {
						m.hasAlloc = true
						m.p.OnBufferAlloc = func(n int) []byte { return dirty(n) }
					}
					if err := m.converted(); err != nil {
						t.Fatal(err)
					}
					k.Desc("use;")
				default: // release
					j := rapid.IntRange(0, len(live)-1).Draw(t, "which")
					m := live[j]
					if err := m.fields(); err != nil {
						t.Fatal(err)
					}
					avformat.FreePacket(m.p)
					released[m.p] = true
					live = append(live[:j:j], live[j+1:]...)
					k.Desc("free;")
				}
			}
			for _, m := range live {
				if err := m.fields(); err != nil {
					t.Fatal(err)
				}
				if err := m.converted(); err != nil {
					t.Fatal(err)
				}
				avformat.FreePacket(m.p)
			}
			k.Nontrivial(reused)
			k.LabelIf(reused, "object reused")
		})
}
