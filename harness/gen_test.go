package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"pgregory.net/rapid"
)

// ---- sizes and bytes ----------------------------------------------------------

var edgeSizes = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 183, 184, 188, 254, 255, 256, 257, 258,
	511, 512, 513, 1000, 1023, 1024, 1025, 1280, 1400, 1500, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537,
	100000, 131071, 131072, 200000, 262144, 300000, 524288, 576000, 600000, 1048575, 1048576}

// size draws a length in [lo, hi]: mostly small, often at an edge, sometimes anywhere.
func size(t *rapid.T, label string, lo, hi int) int {
	if hi <= lo {
		return lo
	}
	switch rapid.IntRange(0, 9).Draw(t, label+"Class") {
	case 0, 1, 2, 3, 4:
		return rapid.IntRange(lo, min(hi, lo+24)).Draw(t, label)
	case 5, 6:
		return rapid.IntRange(lo, min(hi, lo+300)).Draw(t, label)
	case 7, 8:
		var in []int
		for _, e := range edgeSizes {
			if e >= lo && e <= hi {
				in = append(in, e)
			}
		}
		if len(in) > 0 {
			return rapid.SampledFrom(in).Draw(t, label)
		}
		fallthrough
	default:
		return rapid.IntRange(lo, hi).Draw(t, label)
	}
}

// expand turns a drawn seed into n bytes (a pure function of the drawn value).
// mode 0: uniform; 1: rich in 0,1,2,3; 2: constant; 3: counting.
func expand(seed uint64, n, mode int) []byte {
	b := make([]byte, n)
	x := seed*0x9E3779B97F4A7C15 + 0x1234567
	for i := range b {
		x ^= x >> 12
		x ^= x << 25
		x ^= x >> 27
		v := byte((x * 2685821657736338717) >> 56)
		switch mode {
		case 1:
			if v < 160 {
				v &= 3
				if v == 2 {
					v = 0
				}
			}
		case 2:
			v = byte(seed)
		case 3:
			v = byte(seed) + byte(i)
		}
		b[i] = v
	}
	return b
}

// blob draws n bytes; short ones byte by byte, so that they shrink.
func blob(t *rapid.T, label string, n int) []byte {
	if n <= 24 {
		g := rapid.Byte()
		if rapid.Bool().Draw(t, label+"Zeroish") {
			g = rapid.SampledFrom([]byte{0, 0, 0, 1, 1, 2, 3, 0x80, 0xff})
		}
		return rapid.SliceOfN(g, n, n).Draw(t, label)
	}
	mode := rapid.IntRange(0, 3).Draw(t, label+"Mode")
	return expand(rapid.Uint64Range(0, 1<<20).Draw(t, label+"Seed"), n, mode)
}

func blobUpTo(t *rapid.T, label string, lo, hi int) []byte {
	return blob(t, label, size(t, label+"Len", lo, hi))
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

// brief writes bytes out for a sample or message.
func brief(b []byte) string {
	if len(b) <= 24 {
		return fmt.Sprintf("%x", b)
	}
	return fmt.Sprintf("%x..%x(%d)", b[:12], b[len(b)-4:], len(b))
}

func briefs(bs [][]byte) string {
	var s bytes.Buffer
	for i, b := range bs {
		if i == 12 {
			fmt.Fprintf(&s, " +%d more", len(bs)-i)
			break
		}
		if i > 0 {
			s.WriteByte(' ')
		}
		s.WriteString(brief(b))
	}
	return s.String()
}

// mustPanic reports whether f panics.
func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return
}

// ---- a bit writer of our own --------------------------------------------------

type bitw struct {
	b    []byte
	nbit int
}

func (w *bitw) bit(v int) {
	if w.nbit%8 == 0 {
		w.b = append(w.b, 0)
	}
	if v != 0 {
		w.b[w.nbit/8] |= 0x80 >> (w.nbit % 8)
	}
	w.nbit++
}

func (w *bitw) u(n int, v uint64) {
	for i := n - 1; i >= 0; i-- {
		w.bit(int(v >> uint(i) & 1))
	}
}

func (w *bitw) ue(v uint64) {
	v++
	n := 0
	for x := v; x > 1; x >>= 1 {
		n++
	}
	w.u(n, 0)
	w.u(n+1, v)
}

func (w *bitw) se(v int64) {
	if v > 0 {
		w.ue(uint64(2*v - 1))
	} else {
		w.ue(uint64(-2 * v))
	}
}

// trail writes the RBSP stop bit and pads to a byte.
func (w *bitw) trail() []byte {
	w.bit(1)
	for w.nbit%8 != 0 {
		w.bit(0)
	}
	return w.b
}

// ---- NAL units ----------------------------------------------------------------

// escape inserts emulation prevention bytes into a NAL unit (header included).
func escape(nal []byte) []byte {
	out := make([]byte, 0, len(nal)+len(nal)/64+1)
	z := 0
	for _, b := range nal {
		if z >= 2 && b <= 3 {
			out = append(out, 3)
			z = 0
		}
		out = append(out, b)
		if b == 0 {
			z++
		} else {
			z = 0
		}
	}
	return out
}

// mkNal builds a syntactically valid NAL unit: header, escaped payload, last byte non-zero.
func mkNal(header, payload []byte) []byte {
	n := escape(append(clone(header), payload...))
	if n[len(n)-1] == 0 {
		n = append(n, 0x80)
	}
	return n
}

// headers: H.264 type in [1,23], nal_ref_idc free; H.265 type in [0,63].
func avcHeader(t *rapid.T, typ int) []byte {
	return []byte{byte(rapid.IntRange(0, 3).Draw(t, "refIdc")<<5 | typ)}
}

func hevcHeader(t *rapid.T, typ int) []byte {
	layer := 0
	if rapid.IntRange(0, 7).Draw(t, "layerRare") == 0 {
		layer = rapid.IntRange(0, 63).Draw(t, "layer")
	}
	tid := rapid.IntRange(1, 7).Draw(t, "tid")
	return []byte{byte(typ<<1 | layer>>5), byte(layer&31<<3 | tid)}
}

// codec of a generated elementary stream
type vcodec int

const (
	h264 vcodec = iota
	h265
)

func (c vcodec) String() string { return [...]string{"H264", "H265"}[c] }

func (c vcodec) header(t *rapid.T, typ int) []byte {
	if c == h264 {
		return avcHeader(t, typ)
	}
	return hevcHeader(t, typ)
}

func (c vcodec) typeOf(nal []byte) int {
	if c == h264 {
		return int(nal[0] & 31)
	}
	return int(nal[0] >> 1 & 63)
}

// nal draws one NAL unit of the given type with up to max payload bytes.
func (c vcodec) nal(t *rapid.T, typ, max int) []byte {
	return mkNal(c.header(t, typ), blobUpTo(t, "nalPayload", 0, max))
}

// orBig is nal with a rare large unit among them.
func (c vcodec) orBig(t *rapid.T, typ, max int) []byte {
	if rapid.IntRange(0, 1499).Draw(t, "bigUnit") == 871 {
		max = rapid.SampledFrom([]int{2000, 9000, 20000, 80000}).Draw(t, "bigUnitMax")
		return mkNal(c.header(t, typ), blob(t, "bigPayload", max-rapid.IntRange(0, 900).Draw(t, "bigUnitLess")))
	}
	return c.nal(t, typ, max)
}

// startCode draws a 3- or 4-byte start code.
func startCode(t *rapid.T) []byte {
	if rapid.Bool().Draw(t, "sc3") {
		return []byte{0, 0, 1}
	}
	return []byte{0, 0, 0, 1}
}

// annexB joins NAL units with drawn start codes.
func annexB(t *rapid.T, nals [][]byte) []byte {
	var b []byte
	mode := rapid.IntRange(0, 2).Draw(t, "scMode")
	for _, n := range nals {
		switch mode {
		case 0:
			b = append(b, 0, 0, 1)
		case 1:
			b = append(b, 0, 0, 0, 1)
		default:
			b = append(b, startCode(t)...)
		}
		b = append(b, n...)
	}
	return b
}

func avcc(nals [][]byte, lengthSize int) []byte {
	var b []byte
	for _, n := range nals {
		var l [4]byte
		binary.BigEndian.PutUint32(l[:], uint32(len(n)))
		b = append(b, l[4-lengthSize:]...)
		b = append(b, n...)
	}
	return b
}

// splitAnnexB is the reference splitter: the units between 00 00 01 patterns, with
// the zero bytes before a start code (or the end) not part of a unit. Empty units are dropped.
func splitAnnexB(b []byte) [][]byte {
	var starts []int
	for i := 0; i+2 < len(b); i++ {
		if b[i] == 0 && b[i+1] == 0 && b[i+2] == 1 {
			starts = append(starts, i)
			i += 2
		}
	}
	var out [][]byte
	for j, s := range starts {
		e := len(b)
		if j+1 < len(starts) {
			e = starts[j+1]
		}
		n := bytes.TrimRight(b[s+3:e], "\x00")
		if len(n) > 0 {
			out = append(out, n)
		}
	}
	return out
}

// splitAVCC is the reference walker of length-prefixed units; ok is false when the
// bytes are not exactly a sequence of units.
func splitAVCC(b []byte, lengthSize int) (out [][]byte, ok bool) {
	for len(b) > 0 {
		if len(b) < lengthSize {
			return out, false
		}
		n := 0
		for _, x := range b[:lengthSize] {
			n = n<<8 | int(x)
		}
		b = b[lengthSize:]
		if n > len(b) {
			return out, false
		}
		out = append(out, b[:n])
		b = b[n:]
	}
	return out, true
}

func sameUnits(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func join(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

// withSC4 prefixes a unit with the 4-byte start code.
func withSC4(n []byte) []byte { return append([]byte{0, 0, 0, 1}, n...) }
