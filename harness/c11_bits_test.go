package harness

import (
	"bytes"
	"testing"

	"github.com/lkmio/avformat/bufio"
	"pgregory.net/rapid"
)

func getBit(b []byte, i int) uint64 { return uint64(b[i/8] >> (7 - i%8) & 1) }

func setBit(b []byte, i int, v uint64) {
	b[i/8] = b[i/8]&^(0x80>>(i%8)) | byte(v<<(7-i%8))
}

func TestC11_ReadWrite(t *testing.T) {
	check(t, "one write of 0-64 bits at any offset (also past the end) into random bytes, then reads; non-trivial: crosses a byte border at an unaligned offset",
		3200000, 96000000, func(t *rapid.T, k *kase) {
			buf := blobUpTo(t, "buf", 0, 40)
			if rapid.IntRange(0, 1999).Draw(t, "big") == 1171 {
				buf = blob(t, "big", rapid.SampledFrom([]int{300, 5000, 70000}).Draw(t, "bigLen"))
				k.Label("big buffer")
			}
			total := len(buf) * 8
			start := rapid.IntRange(0, total+20).Draw(t, "start")
			if rapid.IntRange(0, 7).Draw(t, "nearEnd") == 7 {
				start = max(0, total-rapid.IntRange(0, 70).Draw(t, "beforeEnd"))
			}
			n := rapid.IntRange(0, 64).Draw(t, "n")
			v := rapid.Uint64().Draw(t, "v")
			k.Desc("buf=%s start=%d n=%d v=%x", brief(buf), start, n, v)
			want := clone(buf)
			for i := 0; i < n && start+i < total; i++ {
				setBit(want, start+i, v>>(n-1-i)&1)
			}
			got := clone(buf)
			bufio.WriteBits(got, start, n, v)
			if !bytes.Equal(got, want) {
				t.Fatalf("WriteBits(%x, %d, %d, %x) = %x, want %x", buf, start, n, v, got, want)
			}
			ref := func(b []byte, s, n int) (r uint64) {
				for i := 0; i < n && s+i < total; i++ {
					r = r<<1 | getBit(b, s+i)
				}
				return
			}
			if r, w := bufio.ReadBits(got, start, n), ref(want, start, n); r != w {
				t.Fatalf("ReadBits after write = %x, want %x", r, w)
			}
			if start+n <= total && n < 64 {
				if r := bufio.ReadBits(got, start, n); r != v&(1<<n-1) {
					t.Fatalf("read back %x, wrote %x", r, v&(1<<n-1))
				}
			}
			s2, n2 := rapid.IntRange(0, total+9).Draw(t, "start2"), rapid.IntRange(0, 64).Draw(t, "n2")
			if r, w := bufio.ReadBits(got, s2, n2), ref(want, s2, n2); r != w {
				t.Fatalf("ReadBits(%x, %d, %d) = %x, want %x", got, s2, n2, r, w)
			}
			if !bytes.Equal(got, want) {
				t.Fatalf("ReadBits changed the buffer")
			}
			k.Nontrivial(n > 1 && start%8 != 0 && start/8 != (start+n-1)/8 && start+n <= total)
			k.LabelIf(start+n > total, "past the end")
		})
}

func TestC11_Cursors(t *testing.T) {
	check(t, "sequences of cursor writes, skips and aligned byte runs, replayed by cursor reads; non-trivial: 4+ fields including a byte run or a skip",
		1200000, 36000000, func(t *rapid.T, k *kase) {
			type field struct {
				kind string
				n    int
				v    uint64
				b    []byte
			}
			buf := blobUpTo(t, "buf", 0, 60)
			total := len(buf) * 8
			want := clone(buf)
			w := &bufio.BitsWriter{Data: buf}
			var fields []field
			pos, special := 0, 0
			steps := rapid.IntRange(1, 14).Draw(t, "steps")
			for i := 0; i < steps; i++ {
				f := field{kind: rapid.SampledFrom([]string{"bits", "bits", "bits", "seek", "align", "bytes"}).Draw(t, "kind")}
				if f.kind == "bytes" && pos%8 != 0 {
					f.kind = "align"
				}
				switch f.kind {
				case "bits":
					f.n = rapid.IntRange(0, 64).Draw(t, "n")
					f.v = rapid.Uint64().Draw(t, "v")
					w.Write(f.n, f.v)
					for j := 0; j < f.n && pos+j < total; j++ {
						setBit(want, pos+j, f.v>>(f.n-1-j)&1)
					}
				case "seek":
					f.n = rapid.IntRange(0, 30).Draw(t, "n")
					w.Seek(f.n)
					special++
				case "align":
					f.n = (8 - pos%8) % 8
					w.Seek(f.n)
				case "bytes":
					if pos > total {
						continue
					}
					room := (total - pos) / 8
					f.b = blob(t, "bytes", rapid.IntRange(0, min(room, 10)).Draw(t, "run"))
					w.WriteBytes(f.b)
					copy(want[pos/8:], f.b)
					f.n = 8 * len(f.b)
					special++
				}
				pos += f.n
				fields = append(fields, f)
				k.Desc(" %s%d", f.kind, f.n)
				if w.Offset != pos {
					t.Fatalf("%s(%d): offset %d, want %d", f.kind, f.n, w.Offset, pos)
				}
				if !bytes.Equal(buf, want) {
					t.Fatalf("after %s(%d): %x, want %x", f.kind, f.n, buf, want)
				}
			}
			r := &bufio.BitsReader{Data: buf}
			pos = 0
			for _, f := range fields {
				switch f.kind {
				case "bits":
					var ref uint64
					for j := 0; j < f.n && pos+j < total; j++ {
						ref = ref<<1 | getBit(want, pos+j)
					}
					if got := r.Read(f.n); got != ref {
						t.Fatalf("Read(%d) at %d = %x, want %x", f.n, pos, got, ref)
					}
				case "seek", "align":
					r.Seek(f.n)
				case "bytes":
					if got := r.ReadBytes(len(f.b)); !bytes.Equal(got, f.b) {
						t.Fatalf("ReadBytes(%d) at %d = %x, want %x", len(f.b), pos, got, f.b)
					}
				}
				pos += f.n
				if r.Offset != pos {
					t.Fatalf("reader offset %d, want %d", r.Offset, pos)
				}
			}
			k.Nontrivial(len(fields) >= 4 && special > 0)
		})
}
