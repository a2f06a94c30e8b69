package harness

import (
	"bytes"
	"io"
	"math/bits"
	"testing"
	"testing/iotest"

	"github.com/lkmio/avformat/bufio"
	"pgregory.net/rapid"
)

type gfield struct {
	kind string
	n    int
	v    uint64 // value as the decoder must return it
	end  int    // bit position after the field
}

func drawFields(t *rapid.T) ([]gfield, []byte) {
	w := &bitw{}
	var fs []gfield
	for i := rapid.IntRange(1, 12).Draw(t, "fields"); i > 0; i-- {
		f := gfield{kind: rapid.SampledFrom([]string{"ue", "ue", "se", "se", "u", "u32", "u64", "bit"}).Draw(t, "kind")}
		magnitude := func(maxBits int) uint64 {
			b := rapid.IntRange(0, maxBits).Draw(t, "bits")
			if b == 0 {
				return 0
			}
			return rapid.Uint64Range(1<<(b-1), 1<<b-1).Draw(t, "v")
		}
		switch f.kind {
		case "ue":
			f.v = min(magnitude(33), 1<<33-2)
			w.ue(f.v)
		case "se":
			s := int64(magnitude(32))
			if rapid.Bool().Draw(t, "neg") {
				s = -s
			}
			f.v = uint64(s)
			w.se(s)
		case "u":
			f.n = rapid.IntRange(0, 64).Draw(t, "n")
		case "u32":
			f.n = rapid.IntRange(0, 32).Draw(t, "n")
		case "u64":
			f.n = rapid.IntRange(0, 64).Draw(t, "n")
		case "bit":
			f.n = 1
		}
		if f.kind[0] == 'u' && f.kind != "ue" || f.kind == "bit" {
			f.v = rapid.Uint64().Draw(t, "v")
			if f.n < 64 {
				f.v &= 1<<f.n - 1
			}
			w.u(f.n, f.v)
		}
		f.end = w.nbit
		fs = append(fs, f)
	}
	for w.nbit%8 != 0 {
		w.bit(1)
	}
	return fs, w.b
}

// pausing now and then returns nothing and no error, as readers may.
type pausing struct {
	r io.Reader
	n int
}

func (p *pausing) Read(b []byte) (int, error) {
	if p.n++; p.n%3 == 2 {
		return 0, nil
	}
	return p.r.Read(b)
}

func TestC13_Golomb(t *testing.T) {
	check(t, "sequences of 1-12 ue/se/u(n) fields, decoded whole and cut at every byte; non-trivial: 3+ fields with a negative or a 16+ bit code",
		1200000, 36000000, func(t *rapid.T, k *kase) {
			fs, data := drawFields(t)
			hard := false
			for _, f := range fs {
				k.Desc(" %s%d=%x", f.kind, f.n, f.v)
				hard = hard || f.kind == "se" && int64(f.v) < 0 || f.kind == "ue" && bits.Len64(f.v) >= 16
				k.Label("%s", f.kind)
			}
			k.Nontrivial(len(fs) >= 3 && hard)
			orig := clone(data)
			how := rapid.SampledFrom([]string{"whole", "one byte at a time", "with pauses", "error with the last byte"}).Draw(t, "reader")
			cuts := []int{len(data)}
			for c := 0; c < len(data); c++ {
				cuts = append(cuts, c)
			}
			for _, cut := range cuts {
				var src io.Reader = bytes.NewReader(data[:cut])
				switch how {
				case "one byte at a time":
					src = iotest.OneByteReader(src)
				case "with pauses":
					src = &pausing{r: src}
				case "error with the last byte":
					src = iotest.DataErrReader(src)
				}
				r := &bufio.GolombBitReader{R: src}
				for i, f := range fs {
					var got uint64
					var err error
					switch f.kind {
					case "ue":
						var x uint
						x, err = r.ReadExponentialGolombCode()
						got = uint64(x)
					case "se":
						var x uint
						x, err = r.ReadSE()
						got = uint64(x)
					case "u":
						var x uint
						x, err = r.ReadBits(f.n)
						got = uint64(x)
					case "u32":
						var x uint32
						x, err = r.ReadBits32(uint(f.n))
						got = uint64(x)
					case "u64":
						got, err = r.ReadBits64(uint(f.n))
					case "bit":
						var x uint
						x, err = r.ReadBit()
						got = uint64(x)
					}
					inside := f.end <= 8*cut
					if inside && (err != nil || got != f.v) {
						t.Fatalf("field %d %s%d of %x[:%d]: got %d (%#x), %v; encoded %d (%#x)", i, f.kind, f.n, data, cut, int64(got), got, err, int64(f.v), f.v)
					}
					if !inside {
						if err == nil {
							t.Fatalf("field %d %s%d of %x[:%d] lies beyond the end but was decoded as %#x", i, f.kind, f.n, data, cut, got)
						}
						break
					}
				}
			}
			if !bytes.Equal(orig, data) {
				t.Fatalf("input changed")
			}
		})
}
