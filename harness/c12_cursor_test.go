package harness

import (
	"bytes"
	"math"
	"testing"

	"github.com/lkmio/avformat/bufio"
	"pgregory.net/rapid"
)

// weird draws a size that may not fit: negative, huge, or around what is left.
func weird(t *rapid.T, left, back int) int {
	switch rapid.IntRange(0, 5).Draw(t, "sizeClass") {
	case 0:
		return rapid.SampledFrom([]int{math.MaxInt, math.MaxInt - 1, math.MinInt, math.MinInt + 1, 1 << 31, 1<<31 - 1, -1 << 31, 1 << 32}).Draw(t, "n")
	case 1:
		return rapid.IntRange(-back-3, -1).Draw(t, "n")
	case 2:
		return left + rapid.IntRange(-2, 3).Draw(t, "n")
	default:
		return rapid.IntRange(0, left+1).Draw(t, "n")
	}
}

// fits reports whether moving from p by n stays within [0, length].
func fits(p, n, length int) bool {
	if n >= 0 {
		return n <= length-p
	}
	return n >= -p
}

func TestC12_Cursors(t *testing.T) {
	check(t, "operation histories on a byte reader or writer over 0-60 (rarely up to 131080) bytes with sizes of any sign and magnitude; non-trivial: 5+ accepted and 1+ refused request",
		2200000, 66000000, func(t *rapid.T, k *kase) {
			big := rapid.IntRange(0, 2999).Draw(t, "big") == 1171
			draw := func(label string, hi int) []byte {
				if big && rapid.Bool().Draw(t, label+"Long") {
					n := rapid.SampledFrom([]int{65530, 300, 5000, 131067, 65536}).Draw(t, label+"Base")
					return blob(t, label, n+rapid.IntRange(0, 13).Draw(t, label+"Above"))
				}
				return blobUpTo(t, label, 0, min(hi, 62))
			}
			k.LabelIf(big, "big buffer")
			mem := draw("buf", 60)
			want := clone(mem)
			watched := drawWatch(t)
			isW := rapid.Bool().Draw(t, "writer")
			var r bufio.BytesReader
			var w bufio.BytesWriter
			var b bufio.BytesBuffer
			if isW {
				w = bufio.NewBytesWriter(mem)
				b = w
			} else {
				r = bufio.NewBytesReader(mem)
				b = r
			}
			k.Desc("writer=%v len=%d:", isW, len(mem))
			p, okN, badN := 0, 0, 0
			verify := func(op string, n int) {
				if b.Offset() != p || b.ReadableBytes() != len(want)-p || !bytes.Equal(b.RemainingBytes(), want[p:]) {
					t.Fatalf("after %s(%d): offset %d left %d, want %d of %d", op, n, b.Offset(), b.ReadableBytes(), p, len(want))
				}
				if !bytes.Equal(mem, want) {
					t.Fatalf("after %s(%d): data %s, want %s", op, n, brief(mem), brief(want))
				}
				if isW && !bytes.Equal(w.WrittenBytes(), want[:p]) {
					t.Fatalf("after %s(%d): written %s, want %s", op, n, brief(w.WrittenBytes()), brief(want[:p]))
				}
			}
			verify("new", 0)
			steps := rapid.IntRange(1, 25).Draw(t, "steps")
			for i := 0; i < steps; i++ {
				op := rapid.SampledFrom([]string{"8", "16", "24", "32", "64", "bytes", "bytes", "seek", "back", "clear", "reset", "8", "16"}).Draw(t, "op")
				n := 0
				var err error
				accepted := func(n int) bool { // what must happen with a request for n bytes from p
					ok := fits(p, n, len(want))
					if ok != (err == nil) {
						t.Fatalf("%s(%d) at %d of %d: error %v", op, n, p, len(want), err)
					}
					if ok {
						p += n
						okN++
					} else {
						badN++
					}
					return ok
				}
				number := func(b []byte) (v uint64) {
					for _, x := range b {
						v = v<<8 | uint64(x)
					}
					return
				}
				switch op {
				case "8", "16", "24", "32", "64":
					n = map[string]int{"8": 1, "16": 2, "24": 3, "32": 4, "64": 8}[op]
					at := p
					if isW {
						v := rapid.Uint64().Draw(t, "v")
						switch n {
						case 1:
							err = w.WriteUint8(byte(v))
						case 2:
							err = w.WriteUint16(uint16(v))
						case 4:
							err = w.WriteUint32(uint32(v))
						case 8:
							err = w.WriteUint64(v)
						default:
							continue
						}
						if accepted(n) {
							for j := 0; j < n; j++ {
								want[at+j] = byte(v >> (8 * (n - 1 - j)))
							}
						}
					} else {
						var v uint64
						switch n {
						case 1:
							var x uint8
							x, err = r.ReadUint8()
							v = uint64(x)
						case 2:
							var x uint16
							x, err = r.ReadUint16()
							v = uint64(x)
						case 3:
							var x uint32
							x, err = r.ReadUint24()
							v = uint64(x)
						case 4:
							var x uint32
							x, err = r.ReadUint32()
							v = uint64(x)
						case 8:
							v, err = r.ReadUint64()
						}
						if accepted(n) && v != number(want[at:at+n]) {
							t.Fatalf("read %d bytes at %d = %x, want %x", n, at, v, want[at:at+n])
						}
					}
				case "bytes":
					at := p
					if isW {
						data := draw("data", len(want)+2)
						n = len(data)
						in := clone(data)
						err = w.Write(in)
						if accepted(n) {
							copy(want[at:], data)
						}
						if !bytes.Equal(in, data) {
							t.Fatalf("Write changed its argument")
						}
						break
					}
					n = weird(t, len(want)-p, p)
					var got []byte
					got, err = r.ReadBytes(n)
					if n < 0 {
						if err == nil {
							t.Fatalf("ReadBytes(%d) was accepted", n)
						}
						badN++
						break
					}
					if accepted(n) && !bytes.Equal(got, want[at:at+n]) {
						t.Fatalf("ReadBytes(%d) at %d = %s, want %s", n, at, brief(got), brief(want[at:at+n]))
					}
				case "seek":
					n = weird(t, len(want)-p, p)
					err = b.Seek(n)
					accepted(n)
				case "back":
					n = weird(t, p, len(want)-p)
					err = b.SeekBack(n)
					if n == math.MinInt { // its negation is not an int; 2^63 bytes never fit
						if err == nil {
							t.Fatalf("SeekBack(%d) was accepted", n)
						}
						break
					}
					accepted(-n)
				case "clear":
					b.Clear()
					p = 0
				case "reset":
					if rapid.IntRange(0, 3).Draw(t, "resetRare") != 0 {
						continue
					}
					mem = draw("buf", 60)
					if rapid.Bool().Draw(t, "prefix") { // the beginning of a larger array
						mem = append(make([]byte, 0, len(mem)+rapid.IntRange(1, 70).Draw(t, "spare")), mem...)
					}
					want = clone(mem)
					b.Reset(mem)
					p = 0
				}
				k.Desc(" %s%d", op, n)
				if watched.skips(t, i == steps-1) {
					continue
				}
				verify(op, n)
			}
			k.Nontrivial(okN >= 5 && badN >= 1)
		})
}

func TestC12_Util(t *testing.T) {
	check(t, "24-bit big-endian helpers and min/max on random operands; non-trivial: value uses all three bytes",
		320000, 9600000, func(t *rapid.T, k *kase) {
			v := rapid.Uint32().Draw(t, "v")
			buf := blobUpTo(t, "buf", 3, 8)
			want := clone(buf)
			want[0], want[1], want[2] = byte(v>>16), byte(v>>8), byte(v)
			bufio.PutUint24(buf, v)
			if !bytes.Equal(buf, want) || bufio.Uint24(buf) != v&0xffffff {
				t.Fatalf("PutUint24(%x) = %x, read back %x", v, buf, bufio.Uint24(buf))
			}
			a, b := rapid.Int().Draw(t, "a"), rapid.Int().Draw(t, "b")
			if bufio.MinInt(a, b) != min(a, b) || bufio.MaxInt(a, b) != max(a, b) {
				t.Fatalf("min/max of %d %d", a, b)
			}
			k.Desc("%x %d %d", v, a, b)
			k.Nontrivial(v&0xff0000 != 0)
		})
}
