package harness

import (
	"bytes"
	"testing"

	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"
	"github.com/lkmio/avformat/hevc"
	"pgregory.net/rapid"
)

// dense draws bytes in which start codes, near misses and zero runs abound.
func dense(t *rapid.T, label string, hi int) []byte {
	switch rapid.IntRange(0, 3).Draw(t, label+"Kind") {
	case 0:
		return rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0, 1}), 0, min(hi, 16)).Draw(t, label)
	case 1:
		return rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0, 0, 1, 1, 2, 3, 0x67, 0xff}), 0, min(hi, 40)).Draw(t, label)
	case 2:
		return expand(rapid.Uint64Range(0, 1<<20).Draw(t, label+"Seed"), rapid.IntRange(0, hi).Draw(t, label+"Len"), 1)
	default:
		// A start code at a chosen place in bytes that contain none.
		b := expand(rapid.Uint64Range(0, 1<<20).Draw(t, label+"Seed"), rapid.IntRange(0, hi).Draw(t, label+"Len"), 0)
		for i := range b {
			b[i] |= 2
		}
		sc := startCode(t)
		if len(b) >= len(sc) {
			copy(b[rapid.IntRange(0, len(b)-len(sc)).Draw(t, label+"At"):], sc)
		}
		return b
	}
}

// firstStartCode is the naive search: the first 00 00 01 followed by at least one byte.
func firstStartCode(p []byte) (header, size int) {
	for i := 0; i+3 < len(p); i++ {
		if p[i] == 0 && p[i+1] == 0 && p[i+2] == 1 {
			if i > 0 && p[i-1] == 0 {
				return i + 3, 4
			}
			return i + 3, 3
		}
	}
	return -1, -1
}

func TestC14_Find(t *testing.T) {
	check(t, "bytes dense in 0-3, runs of zeros and start codes at every alignment; non-trivial: a start code is present and not at the beginning",
		4800000, 140000000, func(t *rapid.T, k *kase) {
			p := dense(t, "p", 120)
			orig := clone(p)
			k.Desc("%x", p)
			wantH, wantN := firstStartCode(p)
			gotH, gotN := avc.FindStartCode(p)
			if gotH != wantH || gotN != wantN {
				t.Fatalf("FindStartCode(%x) = %d, %d; want %d, %d", p, gotH, gotN, wantH, wantN)
			}
			want2 := -1
			if wantH >= 0 {
				want2 = wantH - wantN
			}
			if got := avc.FindStartCode2(p); got != want2 {
				t.Fatalf("FindStartCode2(%x) = %d, want %d", p, got, want2)
			}
			// The reader form walks all start codes.
			r := bufio.NewBytesReader(p)
			off := rapid.IntRange(0, len(p)).Draw(t, "from")
			if err := r.Seek(off); err != nil {
				t.Fatalf("Seek: %v", err)
			}
			for found := 0; ; found++ {
				h, _ := firstStartCode(p[off:])
				got := avc.FindStartCodeWithReader(r)
				if h < 0 {
					if got != -1 || r.Offset() != off {
						t.Fatalf("FindStartCodeWithReader(%x from %d) = %d, offset %d; nothing is left", p, off, got, r.Offset())
					}
					break
				}
				if got != int(p[off+h]) || r.Offset() != off+h+1 {
					t.Fatalf("FindStartCodeWithReader(%x from %d) = %#x, offset %d; want %#x, %d", p, off, got, r.Offset(), p[off+h], off+h+1)
				}
				off += h + 1
			}
			if !bytes.Equal(orig, p) {
				t.Fatalf("input changed")
			}
			k.Nontrivial(wantH > 4)
			k.LabelIf(wantN == 3, "3-byte")
			k.LabelIf(wantN == 4, "4-byte")
		})
}

func TestC14_Split(t *testing.T) {
	check(t, "start-code dense bytes and proper NAL streams split into units; non-trivial: 2+ units",
		2400000, 72000000, func(t *rapid.T, k *kase) {
			var p []byte
			var nals [][]byte
			if rapid.Bool().Draw(t, "proper") {
				c := vcodec(rapid.IntRange(0, 1).Draw(t, "codec"))
				for i := rapid.IntRange(1, 8).Draw(t, "units"); i > 0; i-- {
					nals = append(nals, c.orBig(t, c.anyType(t), 400))
				}
				p = annexB(t, nals)
			} else {
				p = dense(t, "p", 120)
				if rapid.Bool().Draw(t, "lead") {
					p = append(startCode(t), p...)
				}
			}
			orig := clone(p)
			k.Desc("%s units=%s", brief(p), briefs(nals))
			var got [][]byte
			avc.SplitNalU(p, func(n []byte) { got = append(got, n) })
			if !bytes.Equal(join(got...), p) {
				t.Fatalf("SplitNalU(%x) lost or duplicated bytes: %x", p, got)
			}
			if !bytes.Equal(orig, p) {
				t.Fatalf("input changed")
			}
			if nals != nil {
				if len(got) != len(nals) {
					t.Fatalf("SplitNalU found %d units in %x, want %d", len(got), p, len(nals))
				}
				for i := range nals {
					if !bytes.Equal(avc.RemoveStartCode(got[i]), nals[i]) {
						t.Fatalf("unit %d is %x, want start code + %x", i, got[i], nals[i])
					}
				}
			} else if len(p) >= 3 {
				// The same boundaries as a naive scan that looks for the next start code
				// at least three bytes into the current unit.
				off := 0
				for i, u := range got {
					h, n := firstStartCode(p[min(len(p), off+3):])
					want := len(p) - off
					if h >= 0 {
						want = 3 + h - n
					}
					if len(u) != want {
						t.Fatalf("SplitNalU(%x): unit %d has %d bytes, want %d", p, i, len(u), want)
					}
					off += len(u)
				}
			}
			k.Nontrivial(len(got) >= 2)
			// RemoveStartCode on its own.
			q := dense(t, "q", 8)
			want := q
			if bytes.HasPrefix(q, []byte{0, 0, 1}) {
				want = q[3:]
			} else if bytes.HasPrefix(q, []byte{0, 0, 0, 1}) {
				want = q[4:]
			}
			if r := avc.RemoveStartCode(q); !bytes.Equal(r, want) {
				t.Fatalf("RemoveStartCode(%x) = %x, want %x", q, r, want)
			}
		})
}

// anyType draws a NAL unit type of the codec, favouring the meaningful ones.
func (c vcodec) anyType(t *rapid.T) int {
	if c == h264 {
		return rapid.OneOf(rapid.SampledFrom([]int{1, 5, 6, 7, 8, 9, 1, 5, 12, 2, 14, 20}), rapid.IntRange(0, 31)).Draw(t, "type")
	}
	return rapid.OneOf(rapid.SampledFrom([]int{0, 1, 1, 19, 20, 21, 16, 32, 33, 34, 35, 39, 40, 0}), rapid.IntRange(0, 63)).Draw(t, "type")
}

func (c vcodec) setTypes() []int {
	if c == h264 {
		return []int{7, 8}
	}
	return []int{32, 33, 34}
}

func (c vcodec) idr() int {
	if c == h264 {
		return 5
	}
	return 19
}

func TestC14_ParamSets(t *testing.T) {
	check(t, "access units with 0-3 parameter sets of each kind among other units, mixed start codes; non-trivial: all kinds present and one kind repeated",
		1660000, 49000000, func(t *rapid.T, k *kase) {
			c := vcodec(rapid.IntRange(0, 1).Draw(t, "codec"))
			kinds := c.setTypes()
			want := map[int][]byte{}
			count := map[int]int{}
			var nals [][]byte
			for i := rapid.IntRange(1, 9).Draw(t, "units"); i > 0; i-- {
				typ := c.anyType(t)
				if rapid.Bool().Draw(t, "isSet") {
					typ = rapid.SampledFrom(kinds).Draw(t, "set")
				}
				n := c.orBig(t, typ, 120)
				nals = append(nals, n)
				want[typ] = n
				count[typ]++
			}
			p := annexB(t, nals)
			noLead := rapid.IntRange(0, 5).Draw(t, "noLead") == 0
			if noLead { // the first unit without its start code
				if len(nals[0]) >= 3 { // the splitter starts looking for the next one after three bytes
					p = p[bytes.IndexByte(p, 1)+1:]
				}
			}
			orig := clone(p)
			k.Desc("%v %s", c, briefs(nals))
			var got [][]byte
			var err error
			if c == h264 {
				var sps, pps []byte
				sps, pps, err = avc.ParseExtraDataFromKeyNALU(p)
				got = [][]byte{sps, pps}
			} else {
				var vps, sps, pps []byte
				vps, sps, pps, err = hevc.ParseExtraDataFromKeyNALU(p)
				got = [][]byte{vps, sps, pps}
			}
			all, repeated := true, false
			for _, kd := range kinds {
				all = all && count[kd] > 0
				repeated = repeated || count[kd] > 1
			}
			if all != (err == nil) {
				t.Fatalf("%v %s: error %v", c, briefs(nals), err)
			}
			if all {
				for i, kd := range kinds {
					if !bytes.Equal(got[i], withSC4(want[kd])) {
						t.Fatalf("%v %s: type %d is %x, want %x", c, briefs(nals), kd, got[i], withSC4(want[kd]))
					}
				}
			}
			if !bytes.Equal(orig, p) {
				t.Fatalf("input changed")
			}
			k.Nontrivial(all && repeated)
			k.LabelIf(all, "complete")
			k.Label("%v", c)
		})
}
