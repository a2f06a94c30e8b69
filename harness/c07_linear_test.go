package harness

import (
	"bytes"
	"testing"

	"github.com/lkmio/avformat/collections"
	"pgregory.net/rapid"
)

// linearPool pairs a pool with its model.
type linearPool struct {
	b       collections.BlockBuffer
	held    []*heldBlock
	written []byte // everything since the pool was last empty
	total   int    // capacity, as last reported
	sealed  bool
}

func (p *linearPool) pending() *heldBlock {
	if n := len(p.held); n > 0 && !p.held[n-1].done {
		return p.held[n-1]
	}
	return nil
}

type dataer interface{ Data() []byte }

func TestC07_Linear(t *testing.T) {
	check(t, "histories of write/alloc/complete/pop/pop-back/clear/split over a family of linear pools; non-trivial: 2+ blocks completed, and a split or a growth",
		1040000, 31000000, func(t *rapid.T, k *kase) {
			capacity := rapid.OneOf(rapid.IntRange(0, 40), rapid.SampledFrom([]int{64, 100, 257, 1000})).Draw(t, "cap")
			root := &linearPool{b: collections.NewDirectBlockBuffer(capacity), total: capacity}
			pools := []*linearPool{root}
			k.Desc("cap=%d:", capacity)
			var counter uint32
			completed, splits, growths, reused := 0, 0, 0, 0
			last := "start"
			verify := func() {
				for pi, p := range pools {
					for i, h := range p.held {
						if h.done && !bytes.Equal(h.got, h.want) {
							t.Fatalf("after %s: pool %d block %d changed: %s, want %s", last, pi, i, brief(h.got), brief(h.want))
						}
					}
					want := 0
					if q := p.pending(); q != nil {
						want = len(q.want)
					}
					if got := p.b.PendingBlockSize(); got != want {
						t.Fatalf("after %s: pool %d pending %d, want %d", last, pi, got, want)
					}
					if got := p.b.Size(); got != len(p.held) {
						t.Fatalf("after %s: pool %d reports %d blocks, want %d", last, pi, got, len(p.held))
					}
					if d, ok := p.b.(dataer); ok {
						if got := d.Data(); !bytes.Equal(got, p.written) {
							t.Fatalf("after %s: pool %d holds %s, written %s", last, pi, brief(got), brief(p.written))
						}
					}
					if got := p.b.AvailableBytes(); !p.sealed && got != p.total-len(p.written) {
						t.Fatalf("after %s: pool %d reports %d free, want %d - %d", last, pi, got, p.total, len(p.written))
					}
				}
			}
			verify()
			steps := rapid.IntRange(4, 40).Draw(t, "steps")
			for i := 0; i < steps; i++ {
				pi := 0
				if len(pools) > 1 {
					pi = rapid.IntRange(0, len(pools)-1).Draw(t, "pool")
				}
				p := pools[pi]
				op := rapid.SampledFrom([]string{"write", "write", "alloc", "fetch", "fetch", "pop", "popback", "clear", "split", "fit"}).Draw(t, "op")
				if p.sealed {
					// Every change is refused.
					last = "sealed " + op
					var f func()
					switch op {
					case "write", "fit":
						f = func() { p.b.Write([]byte{0xEE, 0xEE}) }
					case "alloc":
						f = func() { p.b.Alloc(1) }
					case "fetch":
						f = func() { p.b.Fetch() }
					case "pop":
						f = func() { p.b.Pop() }
					case "popback":
						f = func() { p.b.PopBack() }
					case "clear":
						// Clearing takes it back into use. What it may use again must not
						// include what the pool split off holds.
						k.Desc(" %d:sealed-C", pi)
						p.b.Clear()
						p.held, p.written, p.sealed = nil, nil, false
						p.total = p.b.AvailableBytes()
						reused++
						verify()
						continue
					case "split":
						// Refused, or another pool that shares nothing with the others.
						var b collections.BlockBuffer
						if len(pools) > 5 || panics(func() { b = p.b.SplitOff() }) {
							continue
						}
						k.Desc(" %d:sealed-split", pi)
						pools = append(pools, &linearPool{b: b, total: b.AvailableBytes()})
						verify()
						continue
					default:
						continue
					}
					k.Desc(" %d:sealed-%s", pi, op)
					if !panics(f) {
						t.Fatalf("%s on a split pool was accepted", op)
					}
					verify()
					continue
				}
				if p.pending() == nil && rapid.IntRange(0, 299).Draw(t, "bulk") == 177 {
					// many small blocks at once
					n, sz := rapid.SampledFrom([]int{70, 20, 150}).Draw(t, "bulkN"), rapid.IntRange(0, 3).Draw(t, "bulkSize")
					k.Desc(" %d:w%df*%d", pi, sz, n)
					k.Label("bulk")
					last = "bulk"
					for ; n > 0; n-- {
						free := p.b.AvailableBytes()
						h := &heldBlock{want: make([]byte, sz), done: true}
						stamp(h.want, &counter)
						p.written = append(p.written, h.want...)
						p.b.Write(h.want)
						if sz > free {
							growths++
							p.total = p.b.AvailableBytes() + len(p.written)
						}
						h.got = p.b.Fetch()
						p.held = append(p.held, h)
						completed++
					}
					verify()
				}
				last = op
				switch op {
				case "write", "alloc", "fit":
					free := p.b.AvailableBytes()
					n := free
					if op != "fit" {
						n = rapid.OneOf(rapid.IntRange(0, 8), rapid.IntRange(0, capacity+5)).Draw(t, "n")
					}
					q := p.pending()
					if q == nil {
						q = &heldBlock{}
						p.held = append(p.held, q)
					}
					data := make([]byte, n)
					stamp(data, &counter)
					q.want = append(q.want, data...)
					p.written = append(p.written, data...)
					k.Desc(" %d:%s%d", pi, op[:1], n)
					if op == "alloc" {
						dst := p.b.Alloc(n)
						if len(dst) != n {
							t.Fatalf("Alloc(%d) returned %d bytes", n, len(dst))
						}
						copy(dst, data)
					} else {
						p.b.Write(data)
					}
					if n > free {
						growths++
						p.total = p.b.AvailableBytes() + len(p.written)
						if p.total < len(p.written) {
							t.Fatalf("free space %d after growth", p.b.AvailableBytes())
						}
					}
				case "fetch":
					if len(p.held) == 0 {
						continue
					}
					q := p.pending()
					got := p.b.Fetch()
					k.Desc(" %d:f", pi)
					if q == nil {
						if got != nil {
							t.Fatalf("Fetch without a pending block returned %s", brief(got))
						}
						break
					}
					q.got, q.done = got, true
					completed++
					if !bytes.Equal(got, q.want) {
						t.Fatalf("Fetch returned %s, written %s", brief(got), brief(q.want))
					}
				case "pop", "popback":
					if len(p.held) == 0 {
						continue
					}
					k.Desc(" %d:%s", pi, op)
					if op == "pop" {
						p.b.Pop()
						p.held = p.held[1:]
					} else {
						p.b.PopBack()
						p.held = p.held[:len(p.held)-1]
					}
					if len(p.held) == 0 {
						p.written = nil
					}
				case "clear":
					if rapid.IntRange(0, 3).Draw(t, "clearRare") != 0 {
						continue
					}
					k.Desc(" %d:C", pi)
					p.b.Clear()
					p.held, p.written = nil, nil
				case "split":
					if len(pools) > 5 {
						continue
					}
					free := p.b.AvailableBytes()
					child := &linearPool{b: p.b.SplitOff(), total: free}
					k.Desc(" %d:split", pi)
					p.sealed = true
					pools = append(pools, child)
					splits++
				}
				verify()
			}
			k.Nontrivial(completed >= 2 && (splits > 0 || growths > 0))
			k.LabelIf(splits > 0, "split")
			k.LabelIf(splits > 1, "split twice")
			k.LabelIf(reused > 0, "cleared after a split")
			k.LabelIf(growths > 0, "grew")
		})
}
