package harness

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"
	"github.com/lkmio/avformat/hevc"
	"pgregory.net/rapid"
)

// piece is one expected part of a start-code-delimited output: a unit behind a start
// code of either length, or bytes that appear as they are.
type piece struct {
	raw  bool
	data []byte
}

// matchPieces checks that out is exactly the pieces, in order, and nothing else.
func matchPieces(out []byte, want []piece) error {
	rest := out
	for i, p := range want {
		if !p.raw {
			switch {
			case bytes.HasPrefix(rest, []byte{0, 0, 1}):
				rest = rest[3:]
			case bytes.HasPrefix(rest, []byte{0, 0, 0, 1}):
				rest = rest[4:]
			default:
				return fmt.Errorf("part %d of %d does not begin with a start code: %s", i, len(want), brief(rest))
			}
		}
		if !bytes.HasPrefix(rest, p.data) {
			return fmt.Errorf("part %d of %d is %s, want %s", i, len(want), brief(rest), brief(p.data))
		}
		rest = rest[len(p.data):]
	}
	if len(rest) > 0 {
		return fmt.Errorf("%d more bytes after the last of %d parts: %s", len(rest), len(want), brief(rest))
	}
	return nil
}

func units(nals [][]byte) (ps []piece) {
	for _, n := range nals {
		ps = append(ps, piece{data: n})
	}
	return
}

// drawNals draws an access unit's worth of NAL units of any types.
func (c vcodec) drawNals(t *rapid.T, lo, hi int) (nals [][]byte) {
	for i := rapid.IntRange(lo, hi).Draw(t, "units"); i > 0; i-- {
		max := 60
		switch rapid.IntRange(0, 24).Draw(t, "big") {
		case 23:
			max = 3000
		case 24:
			max = 80000
		}
		nals = append(nals, c.nal(t, c.anyType(t), max))
	}
	return
}

// dirty is a buffer whose every byte is non-zero and known.
func dirty(n int) []byte {
	return bytes.Repeat([]byte{0xA5}, n)
}

func total(nals [][]byte, each int) (n int) {
	for _, u := range nals {
		n += len(u) + each
	}
	return
}

func has(nals [][]byte, c vcodec, types ...int) bool {
	for _, n := range nals {
		for _, typ := range types {
			if c.typeOf(n) == typ {
				return true
			}
		}
	}
	return false
}

// extraSets draws the parameter sets a caller supplies for insertion.
func (c vcodec) extraSets(t *rapid.T) []byte {
	if rapid.IntRange(0, 3).Draw(t, "noExtra") == 0 {
		return nil
	}
	var b []byte
	for _, typ := range c.setTypes() {
		b = append(b, withSC4(c.nal(t, typ, 40))...)
	}
	return b
}

func TestC15_ToLengthPrefixed(t *testing.T) {
	check(t, "1-8 H.264 or H.265 units with 3/4-byte start codes, in a third of the cases extra zero bytes or empty units between them; non-trivial: 2+ units",
		1220000, 36000000, func(t *rapid.T, k *kase) {
			c := vcodec(rapid.IntRange(0, 1).Draw(t, "codec"))
			nals := c.drawNals(t, 1, 8)
			stuffed := rapid.IntRange(0, 2).Draw(t, "stuffed") == 2
			var p []byte
			if stuffed {
				for _, n := range nals {
					p = append(p, make([]byte, rapid.IntRange(0, 3).Draw(t, "zeros"))...)
					for rapid.IntRange(0, 3).Draw(t, "emptyUnit") == 3 {
						p = append(p, startCode(t)...)
					}
					p = append(append(p, startCode(t)...), n...)
				}
				p = append(p, make([]byte, rapid.IntRange(0, 3).Draw(t, "trailing"))...)
			} else {
				p = annexB(t, nals)
			}
			orig := clone(p)
			k.Desc("%v stuffed=%v %s", c, stuffed, briefs(nals))
			dst := dirty(len(p) + len(nals)*4 + 64)
			n := avc.AnnexB2AVCC(dst, p)
			if n < 0 || n > len(dst) {
				t.Fatalf("length %d of %d", n, len(dst))
			}
			got, ok := splitAVCC(dst[:n], 4)
			if !ok {
				t.Fatalf("%s became malformed %s", brief(p), brief(dst[:n]))
			}
			for i, u := range got {
				if len(u) == 0 {
					t.Fatalf("%v %x: unit %d of %d is empty", c, clip(p), i, len(got))
				}
			}
			if stuffed { // padding may go either way, units may not change
				var kept [][]byte
				for _, u := range got {
					if u = bytes.TrimRight(u, "\x00"); len(u) > 0 {
						kept = append(kept, u)
					}
				}
				got = kept
			}
			if !sameUnits(got, nals) {
				t.Fatalf("%v %x: units %s, want %s", c, clip(p), briefs(got), briefs(nals))
			}
			if !bytes.Equal(p, orig) {
				t.Fatalf("input changed")
			}
			if !stuffed && !bytes.Equal(dst[n:], dirty(len(dst)-n)) {
				t.Fatalf("bytes after the result changed")
			}
			k.Nontrivial(len(nals) > 1)
			k.LabelIf(stuffed, "stuffed")
			k.Label("%v", c)
		})
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

func TestC15_H264ToStartCodes(t *testing.T) {
	check(t, "0-8 length-prefixed H.264 units of any type, optional parameter sets to insert, a third truncated anywhere; non-trivial: 2+ units or truncated",
		1420000, 42000000, func(t *rapid.T, k *kase) {
			nals := h264.drawNals(t, 0, 8)
			p := avcc(nals, 4)
			complete := nals
			cut := -1
			if len(p) > 0 && rapid.IntRange(0, 2).Draw(t, "truncate") == 2 {
				cut = rapid.IntRange(0, len(p)-1).Draw(t, "cut")
				complete, _ = splitAVCC(p[:cut], 4)
				p = p[:cut:cut]
			}
			orig := clone(p)
			extra := h264.extraSets(t)
			origExtra := clone(extra)
			toBuffer := rapid.Bool().Draw(t, "toBuffer")
			k.Desc("buffer=%v cut=%d extra=%d %s", toBuffer, cut, len(extra), briefs(nals))

			var want []piece
			setSeen, inserted, idrs := false, false, 0
			for _, n := range complete {
				switch h264.typeOf(n) {
				case 7, 8:
					setSeen = true
				case 5:
					idrs++
					if !setSeen && !inserted && len(extra) > 0 {
						inserted = true
						want = append(want, piece{true, extra})
					}
				case 6:
					if toBuffer {
						continue
					}
				}
				want = append(want, piece{data: n})
			}
			room := total(complete, 4) + len(extra)
			dst := dirty(room)
			var out []byte
			if toBuffer {
				n := avc.AVCC2AnnexB(dst, p, extra)
				if n < 0 || n > room {
					t.Fatalf("length %d of %d", n, room)
				}
				out = dst[:n]
			} else {
				w := bufio.NewBytesWriter(dst)
				avc.Mp4ToAnnexB(w, p, extra)
				out = w.WrittenBytes()
			}
			if err := matchPieces(out, want); err != nil {
				t.Fatalf("extra %x, units %s: %v", extra, briefs(complete), err)
			}
			if !bytes.Equal(p, orig) || !bytes.Equal(extra, origExtra) {
				t.Fatalf("input changed")
			}
			k.Nontrivial(len(nals) > 1 || cut >= 0)
			k.LabelIf(inserted, "inserted")
			k.LabelIf(inserted && idrs > 1, "inserted, several IDR slices")
			k.LabelIf(cut >= 0, "truncated")
		})
}

func TestC15_H265ToStartCodes(t *testing.T) {
	check(t, "0-8 H.265 units with 1-4 byte length prefixes, optional parameter sets to insert, a third truncated or with an undersized unit; non-trivial: 2+ units or malformed",
		1160000, 34000000, func(t *rapid.T, k *kase) {
			ls := rapid.IntRange(1, 4).Draw(t, "lengthSize")
			var nals [][]byte
			for _, n := range h265.drawNals(t, 0, 8) {
				if ls < 3 && len(n) >= 1<<(8*ls) {
					n = n[:1<<(8*ls)-1]
					n[len(n)-1] = 0x80
				}
				nals = append(nals, n)
			}
			p := avcc(nals, ls)
			bad := ""
			switch rapid.IntRange(0, 5).Draw(t, "malformed") {
			case 4:
				if len(p) > 0 {
					cut := rapid.IntRange(1, len(p)-1).Draw(t, "cut")
					if _, ok := splitAVCC(p[:cut], ls); !ok {
						bad = fmt.Sprintf("cut at %d", cut)
						p = p[:cut:cut]
					}
				}
			case 5:
				at := rapid.IntRange(0, len(nals)).Draw(t, "shortAt")
				short := rapid.SampledFrom([][]byte{{}, {0x26}}).Draw(t, "short")
				p = avcc(append(append(append([][]byte{}, nals[:at]...), short), nals[at:]...), ls)
				bad = fmt.Sprintf("unit of %d bytes at %d", len(short), at)
			}
			orig := clone(p)
			extra := h265.extraSets(t)
			k.Desc("ls=%d %s extra=%d %s", ls, bad, len(extra), briefs(nals))
			var want []piece
			irap := 0
			for _, n := range nals {
				if typ := h265.typeOf(n); typ >= 16 && typ <= 23 {
					if irap++; irap == 1 && len(extra) > 0 {
						want = append(want, piece{true, extra})
					}
				}
				want = append(want, piece{data: n})
			}
			dst := dirty(total(nals, 4) + len(extra) + 16)
			n, err := hevc.Mp4ToAnnexB(dst, p, extra, ls)
			if !bytes.Equal(p, orig) {
				t.Fatalf("input changed")
			}
			if bad != "" {
				if err == nil {
					t.Fatalf("%s: no error", bad)
				}
			} else {
				if err != nil || n < 0 || n > len(dst) {
					t.Fatalf("%s: %d, %v", briefs(nals), n, err)
				}
				if err := matchPieces(dst[:n], want); err != nil {
					t.Fatalf("extra %x, units %s: %v", extra, briefs(nals), err)
				}
			}
			k.Nontrivial(len(nals) > 1 || bad != "")
			k.LabelIf(bad != "", "malformed")
			k.LabelIf(irap > 1 && len(extra) > 0, "inserted, several IRAP units")
			k.Label("length size %d", ls)
		})
}

func TestC15_RoundTrip(t *testing.T) {
	check(t, "1-12 units to length prefixes and back (H.264 via both converters, H.265); non-trivial: 2+ units", 1040000, 31000000, func(t *rapid.T, k *kase) {
		c := vcodec(rapid.IntRange(0, 1).Draw(t, "codec"))
		nals := c.drawNals(t, 1, 12)
		b := annexB(t, nals)
		k.Desc("%v %s", c, briefs(nals))
		mid := dirty(total(nals, 8))
		mid = mid[:avc.AnnexB2AVCC(mid, b)]
		back := dirty(total(nals, 8))
		want := nals
		switch {
		case c == h265:
			n, err := hevc.Mp4ToAnnexB(back, mid, nil, 4)
			if err != nil {
				t.Fatalf("%s: %v", briefs(nals), err)
			}
			back = back[:n]
		case rapid.Bool().Draw(t, "viaWriter"):
			w := bufio.NewBytesWriter(back)
			avc.Mp4ToAnnexB(w, mid, nil)
			back = w.WrittenBytes()
		default:
			back = back[:avc.AVCC2AnnexB(back, mid, nil)]
			want = nil
			for _, n := range nals {
				if c.typeOf(n) != 6 {
					want = append(want, n)
				}
			}
		}
		if err := matchPieces(back, units(want)); err != nil {
			t.Fatalf("%v %s: %v", c, briefs(nals), err)
		}
		k.Nontrivial(len(nals) > 1)
		k.Label("%v", c)
	})
}
