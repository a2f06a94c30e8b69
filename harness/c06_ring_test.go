package harness

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/lkmio/avformat/collections"
	"pgregory.net/rapid"
)

// heldBlock is one block of a pool as the model sees it.
type heldBlock struct {
	want []byte // bytes written
	got  []byte // what Fetch returned; nil while the block is pending
	done bool
}

// fillByte gives the n-th byte ever written to a pool a recognisable value.
func stamp(dst []byte, counter *uint32) {
	for i := range dst {
		*counter++
		x := *counter * 2654435761
		dst[i] = byte(x>>24) | 1 // never 0: untouched memory is recognised
	}
}

func TestC06_Ring(t *testing.T) {
	check(t, "histories of write/alloc/complete/pop/pop-back/clear on one ring pool; non-trivial: at least 8 blocks completed and 2 of them outstanding at once",
		960000, 28000000, func(t *rapid.T, k *kase) {
			capacity := rapid.OneOf(rapid.IntRange(1, 40), rapid.SampledFrom([]int{0, 64, 100, 128, 257, 1000, 4096})).Draw(t, "cap")
			b := collections.NewRBBlockBuffer(capacity)
			k.Desc("cap=%d:", capacity)
			var (
				held             []*heldBlock // outstanding, oldest first; the last may be pending
				counter          uint32
				maxHeld, maxSize int
				completed, grown int
				maxOut           int
				total            int // bytes written since the pool was last cleared
				maxCap           int
				last             string
			)
			outstanding := func() (n int) {
				for _, h := range held {
					n += len(h.want)
				}
				return
			}
			pending := func() *heldBlock {
				if len(held) > 0 && !held[len(held)-1].done {
					return held[len(held)-1]
				}
				return nil
			}
			verify := func() {
				for i, h := range held {
					if h.done && !bytes.Equal(h.got, h.want) {
						t.Fatalf("after %s: block %d of %d outstanding (size %d) changed: have %s want %s",
							last, i, len(held), len(h.want), brief(h.got), brief(h.want))
					}
				}
				want := 0
				if p := pending(); p != nil {
					want = len(p.want)
				}
				if got := b.PendingBlockSize(); got != want {
					t.Fatalf("after %s: pending size %d, written since the last completed block: %d", last, got, want)
				}
				if n := b.Size(); n != len(held) {
					t.Fatalf("after %s: pool reports %d blocks, %d are outstanding", last, n, len(held))
				}
			}
			drawSize := func() int {
				switch rapid.IntRange(0, 9).Draw(t, "szClass") {
				case 0:
					return capacity
				case 1:
					return max(0, capacity-outstanding())
				case 2: // leave exactly the room of the oldest block, or fill it exactly
					if len(held) > 0 {
						return len(held[0].want)
					}
					return rapid.IntRange(0, capacity+3).Draw(t, "sz")
				case 3:
					return rapid.IntRange(0, 3).Draw(t, "sz")
				case 4:
					return rapid.IntRange(0, 2*capacity+4).Draw(t, "sz")
				default:
					return rapid.IntRange(0, capacity/2+2).Draw(t, "sz")
				}
			}
			w := drawWatch(t)
			calm := rapid.Bool().Draw(t, "calm") // keep within the initial capacity, so that the pool wraps rather than grows
			steps := rapid.IntRange(6, 60).Draw(t, "steps")
			for i := 0; i < steps; i++ {
				op := rapid.SampledFrom([]string{"write", "write", "alloc", "fetch", "fetch", "fetch", "frame", "frame", "frame", "pop", "pop", "pop", "popback", "clear"}).Draw(t, "op")
				if rapid.IntRange(0, 399).Draw(t, "bulk") == 233 {
					// many small blocks at once, or many releases
					n := rapid.SampledFrom([]int{70, 20, 150, 300}).Draw(t, "bulkN")
					if rapid.IntRange(0, 2).Draw(t, "bulkPop") == 2 {
						k.Desc(" p*%d", n)
						for ; n > 0 && len(held) > 0 && held[0].done; n-- {
							b.Pop()
							held = held[1:]
						}
					} else if pending() == nil {
						sz := rapid.IntRange(0, 3).Draw(t, "bulkSize")
						k.Desc(" w%df*%d", sz, n)
						k.Label("bulk")
						for ; n > 0; n-- {
							h := &heldBlock{want: make([]byte, sz), done: true}
							stamp(h.want, &counter)
							b.Write(h.want)
							h.got = b.Fetch()
							maxCap = max(maxCap, cap(h.got))
							held = append(held, h)
							total += sz
							completed++
						}
						maxSize = max(maxSize, sz)
						maxOut = max(maxOut, outstanding())
					}
					last = "bulk"
					maxHeld = max(maxHeld, len(held))
					verify()
				}
				if op == "clear" && rapid.IntRange(0, 5).Draw(t, "clearRare") != 0 {
					op = "frame"
				}
				switch op {
				case "write", "alloc", "frame":
					n := drawSize()
					if calm {
						n = min(n, max(0, (capacity-outstanding())/2))
					}
					last = op
					p := pending()
					if p == nil {
						p = &heldBlock{}
						held = append(held, p)
					}
					data := make([]byte, n)
					stamp(data, &counter)
					p.want = append(p.want, data...)
					total += n
					maxSize = max(maxSize, n)
					k.Desc(" %s%d", op[:1], n)
					if op == "alloc" {
						dst := b.Alloc(n)
						if len(dst) != n {
							t.Fatalf("Alloc(%d) returned %d bytes", n, len(dst))
						}
						maxCap = max(maxCap, cap(dst))
						copy(dst, data)
					} else {
						in := clone(data)
						b.Write(in)
						if !bytes.Equal(in, data) {
							t.Fatalf("Write changed its argument")
						}
						for j := range in { // the caller reuses its slice
							in[j] = 0
						}
					}
					maxOut = max(maxOut, outstanding())
					if op != "frame" {
						break
					}
					fallthrough
				case "fetch":
					if len(held) == 0 {
						continue
					}
					last = "fetch"
					p := pending()
					var got []byte
					refused := panics(func() { got = b.Fetch() })
					k.Desc(" f")
					if refused && (p != nil || total <= capacity) {
						t.Fatalf("Fetch with %d blocks outstanding panicked", len(held))
					}
					if p == nil {
						if got != nil {
							t.Fatalf("Fetch without a pending block returned %s", brief(got))
						}
						break
					}
					p.got, p.done = got, true
					completed++
					maxCap = max(maxCap, cap(got))
					if !bytes.Equal(got, p.want) {
						t.Fatalf("Fetch returned %s, written %s", brief(got), brief(p.want))
					}
				case "pop":
					if len(held) == 0 || !held[0].done {
						continue
					}
					last = "pop"
					k.Desc(" p")
					b.Pop()
					held = held[1:]
				case "popback":
					if len(held) == 0 {
						continue
					}
					last = "popback"
					k.Desc(" b")
					b.PopBack()
					held = held[:len(held)-1]
				case "clear":
					last = "clear"
					k.Desc(" C")
					b.Clear()
					held, total = nil, 0
				}
				maxHeld = max(maxHeld, len(held))
				if !w.skips(t, i == steps-1) {
					verify()
				}
			}
			verify()
			// Memory stays within a small multiple of what was ever in use at once.
			if bound := max(capacity, 10*(maxOut+maxSize)+256); maxCap > bound {
				t.Fatalf("pool grew to at least %d bytes with at most %d outstanding (initial %d)", maxCap, maxOut, capacity)
			}
			if maxCap > capacity {
				grown = 1
			}
			k.Nontrivial(completed >= 8 && maxHeld >= 2)
			k.LabelIf(grown > 0, "grew")
			k.LabelIf(total > capacity && grown == 0, "wrapped")
			k.LabelIf(maxHeld >= 4, "4+ outstanding")
		})
}

// A long steady-state session: a consumer that keeps a bounded backlog.
func TestC06_Steady(t *testing.T) {
	check(t, "steady producer/consumer on one ring pool with a bounded backlog; non-trivial: the pool's initial capacity was written more than 3 times over",
		640000, 19000000, func(t *rapid.T, k *kase) {
			capacity := rapid.IntRange(16, 2000).Draw(t, "cap")
			backlog := rapid.IntRange(1, 12).Draw(t, "backlog")
			maxFrame := rapid.IntRange(1, capacity).Draw(t, "maxFrame")
			frames := rapid.IntRange(20, 150).Draw(t, "frames")
			seed := rapid.Uint64().Draw(t, "sizes")
			b := collections.NewRBBlockBuffer(capacity)
			var held []*heldBlock
			var counter uint32
			total, maxOut, out, maxCap := 0, 0, 0, 0
			rnd := expand(seed, frames*3, 0)
			for i := 0; i < frames; i++ {
				n := (int(rnd[3*i])<<8 | int(rnd[3*i+1])) % (maxFrame + 1)
				h := &heldBlock{want: make([]byte, n), done: true}
				stamp(h.want, &counter)
				split := 0
				if n > 0 {
					split = int(rnd[3*i+2]) % (n + 1)
				}
				b.Write(h.want[:split])
				b.Write(h.want[split:])
				h.got = b.Fetch()
				maxCap = max(maxCap, cap(h.got))
				held = append(held, h)
				total += n
				out += n
				maxOut = max(maxOut, out)
				if rnd[3*i+2]%11 == 0 { // the frame is dropped
					b.PopBack()
					held = held[:len(held)-1]
					out -= n
				}
				for len(held) > backlog || (len(held) > 0 && rnd[3*i]%7 == 0) {
					if !bytes.Equal(held[0].got, held[0].want) {
						t.Fatalf("frame %d: oldest of %d blocks changed: %s, want %s", i, len(held), brief(held[0].got), brief(held[0].want))
					}
					out -= len(held[0].want)
					held = held[1:]
					b.Pop()
				}
				for j, h := range held {
					if !bytes.Equal(h.got, h.want) {
						t.Fatalf("frame %d: block %d of %d outstanding changed: %s, want %s", i, j, len(held), brief(h.got), brief(h.want))
					}
				}
			}
			if bound := max(capacity, 10*(maxOut+maxFrame)+256); maxCap > bound {
				t.Fatalf("pool grew to at least %d bytes with at most %d outstanding (initial %d)", maxCap, maxOut, capacity)
			}
			k.Desc("cap=%d backlog=%d maxFrame=%d frames=%d seed=%d written=%d maxOut=%d", capacity, backlog, maxFrame, frames, seed, total, maxOut)
			k.Nontrivial(total > 3*capacity)
			k.LabelIf(maxCap > capacity, "grew")
			k.LabelIf(maxCap <= capacity && total > capacity, "wrapped")
		})
}

// ringPool pairs a ring pool of a family with its model.
type ringPool struct {
	b      collections.BlockBuffer
	held   []*heldBlock
	sealed bool
}

func (p *ringPool) pending() *heldBlock {
	if n := len(p.held); n > 0 && !p.held[n-1].done {
		return p.held[n-1]
	}
	return nil
}

func TestC06_Split(t *testing.T) {
	check(t, "histories of write/complete/pop/pop-back/clear/split over a family of ring pools that share memory; non-trivial: a split, and 2+ blocks completed after it",
		160000, 4800000, func(t *rapid.T, k *kase) {
			capacity := rapid.OneOf(rapid.IntRange(0, 40), rapid.SampledFrom([]int{64, 100, 257, 1000})).Draw(t, "cap")
			pools := []*ringPool{{b: collections.NewRBBlockBuffer(capacity)}}
			k.Desc("cap=%d:", capacity)
			var counter uint32
			splits, after, reused := 0, 0, 0
			last := ""
			verify := func() {
				for pi, p := range pools {
					for i, h := range p.held {
						if h.done && !bytes.Equal(h.got, h.want) {
							t.Fatalf("after %s: pool %d block %d of %d changed: %s, want %s", last, pi, i, len(p.held), brief(h.got), brief(h.want))
						}
					}
				}
			}
			for i := rapid.IntRange(6, 60).Draw(t, "steps"); i > 0; i-- {
				pi := rapid.IntRange(0, len(pools)-1).Draw(t, "pool")
				p := pools[pi]
				op := rapid.SampledFrom([]string{"frame", "frame", "frame", "write", "fetch", "pop", "pop", "popback", "clear", "split"}).Draw(t, "op")
				last = fmt.Sprintf("%s of pool %d", op, pi)
				n := rapid.IntRange(0, capacity/3+2).Draw(t, "n")
				if p.sealed && op != "clear" {
					f := map[string]func(){
						"frame": func() { p.b.Alloc(n) }, "write": func() { p.b.Write([]byte{0xEE}) }, "fetch": func() { p.b.Fetch() },
						"pop": func() { p.b.Pop() }, "popback": func() { p.b.PopBack() },
					}[op]
					if f != nil && !panics(f) {
						t.Fatalf("%s, which was split, was accepted", last)
					}
					// Another split is refused, or yields a pool that shares nothing with the others.
					var b collections.BlockBuffer
					if op == "split" && len(pools) <= 5 && !panics(func() { b = p.b.SplitOff() }) {
						k.Desc(" %d:sealed-split", pi)
						pools = append(pools, &ringPool{b: b})
					}
					verify()
					continue
				}
				switch op {
				case "frame", "write", "fetch":
					q := p.pending()
					if op != "fetch" {
						if q == nil {
							q = &heldBlock{}
							p.held = append(p.held, q)
						}
						data := make([]byte, n)
						stamp(data, &counter)
						q.want = append(q.want, data...)
						k.Desc(" %d:w%d", pi, n)
						p.b.Write(data)
					}
					if op == "write" || q == nil {
						break
					}
					k.Desc(" %d:f", pi)
					q.got, q.done = p.b.Fetch(), true
					if splits > 0 {
						after++
					}
				case "pop":
					if len(p.held) == 0 || !p.held[0].done {
						continue
					}
					k.Desc(" %d:p", pi)
					p.b.Pop()
					p.held = p.held[1:]
				case "popback":
					if len(p.held) == 0 {
						continue
					}
					k.Desc(" %d:b", pi)
					p.b.PopBack()
					p.held = p.held[:len(p.held)-1]
				case "clear":
					k.Desc(" %d:C", pi)
					p.b.Clear()
					if p.sealed {
						reused++
					}
					p.held, p.sealed = nil, false
				case "split":
					if len(pools) > 5 {
						continue
					}
					k.Desc(" %d:split", pi)
					pools = append(pools, &ringPool{b: p.b.SplitOff()})
					p.sealed = true
					splits++
				}
				verify()
			}
			k.Nontrivial(splits > 0 && after >= 2)
			k.LabelIf(splits > 1, "split twice")
			k.LabelIf(reused > 0, "cleared after a split")
		})
}
