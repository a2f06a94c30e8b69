package harness

import (
	"bytes"
	"testing"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
	"pgregory.net/rapid"
)

func TestC08_Streams(t *testing.T) {
	check(t, "histories of write/fetch/discard/pending on up to 5 (now and then 40) stream indexes of one StreamsBuffer, first used in any order; non-trivial: 2+ streams used and 3+ frames fetched",
		18000, 540000, func(t *rapid.T, k *kase) {
			var s avformat.StreamsBuffer
			var p avformat.DataPipeline = &s
			streams := 5
			if rapid.IntRange(0, 39).Draw(t, "many") == 23 {
				streams = rapid.IntRange(6, 40).Draw(t, "streams")
				k.Label("many streams")
			}
			media := make([]utils.AVMediaType, streams)
			for i := range media {
				media[i] = rapid.SampledFrom([]utils.AVMediaType{utils.AVMediaTypeAudio, utils.AVMediaTypeVideo, utils.AVMediaTypeAudio}).Draw(t, "media")
			}
			held := make([][]*heldBlock, streams)
			var counter uint32
			fetched, first, used := 0, -1, map[int]bool{}
			justFetched := -1 // stream whose newest frame was fetched by the last fetch
			last := ""
			verify := func() {
				for si, hs := range held {
					for i, h := range hs {
						if h.done && !bytes.Equal(h.got, h.want) {
							t.Fatalf("after %s: stream %d frame %d changed: %s, want %s", last, si, i, brief(h.got), brief(h.want))
						}
					}
				}
			}
			steps := rapid.IntRange(4, 50).Draw(t, "steps")
			for i := 0; i < steps; i++ {
				si := rapid.IntRange(0, streams-1).Draw(t, "stream")
				hs := held[si]
				var pend *heldBlock
				if n := len(hs); n > 0 && !hs[n-1].done {
					pend = hs[n-1]
				}
				op := rapid.SampledFrom([]string{"write", "write", "write", "fetch", "fetch", "pending", "head", "back"}).Draw(t, "op")
				last = op
				if pend == nil && rapid.IntRange(0, 299).Draw(t, "bulk") == 177 {
					n, sz := rapid.SampledFrom([]int{70, 20, 150}).Draw(t, "bulkN"), rapid.IntRange(1, 3).Draw(t, "bulkSize")
					k.Desc(" %d*w%d:%df", n, si, sz)
					k.Label("bulk")
					for ; n > 0; n-- {
						h := &heldBlock{want: make([]byte, sz), done: true}
						stamp(h.want, &counter)
						_, _ = p.Write(h.want, si, media[si])
						h.got, _ = p.Fetch(si)
						held[si] = append(held[si], h)
					}
					used[si], justFetched = true, si
					verify()
					continue
				}
				switch op {
				case "write":
					n := size(t, "n", 0, 3000)
					if rapid.IntRange(0, 39).Draw(t, "huge") == 0 {
						n = rapid.SampledFrom([]int{100000, 300000, 576000, 600000}).Draw(t, "hugeN")
					}
					data := make([]byte, n)
					stamp(data, &counter)
					if pend == nil {
						pend = &heldBlock{}
						held[si] = append(held[si], pend)
					}
					pend.want = append(pend.want, data...)
					k.Desc(" w%d:%d", si, n)
					if m, err := p.Write(data, si, media[si]); m != n || err != nil {
						t.Fatalf("Write of %d bytes: %d, %v", n, m, err)
					}
					if first < 0 {
						first = si
					}
					used[si] = true
				case "fetch":
					if pend == nil {
						continue
					}
					got, err := p.Fetch(si)
					k.Desc(" f%d", si)
					if err != nil || !bytes.Equal(got, pend.want) {
						t.Fatalf("stream %d: Fetch returned %s, %v; written %s", si, brief(got), err, brief(pend.want))
					}
					pend.got, pend.done = got, true
					fetched++
					justFetched = si
				case "pending":
					want := 0
					if pend != nil {
						want = len(pend.want)
					}
					k.Desc(" q%d", si)
					if got := p.PendingBlockSize(si); got != want {
						t.Fatalf("stream %d: pending %d, want %d", si, got, want)
					}
				case "head":
					if len(hs) == 0 || !hs[0].done {
						continue
					}
					k.Desc(" h%d", si)
					if rapid.Bool().Draw(t, "alias") {
						s.Discard(si)
					} else {
						p.DiscardHeadPacket(si)
					}
					held[si] = hs[1:]
				case "back":
					if len(hs) == 0 {
						continue
					}
					k.LabelIf(pend == nil && justFetched != si, "older frame taken back")
					k.LabelIf(pend != nil, "unfinished frame taken back")
					k.Desc(" b%d", si)
					p.DiscardBackPacket(si)
					held[si] = hs[:len(hs)-1]
					justFetched = -1
				}
				verify()
			}
			k.Nontrivial(len(used) >= 2 && fetched >= 3)
			k.LabelIf(first > 0, "first use not stream 0")
			k.LabelIf(len(used) >= 3, "3+ streams")
		})
}

func TestC08_Direct(t *testing.T) {
	check(t, "histories of write/fetch/take-back/pending on the single-buffer pipeline; non-trivial: 3+ writes and 2+ fetches",
		720000, 21000000, func(t *rapid.T, k *kase) {
			var d avformat.DirectDataPipeline
			var counter uint32
			var want []byte
			writes, fetches := 0, 0
			w := drawWatch(t)
			steps := rapid.IntRange(3, 40).Draw(t, "steps")
			for i := 0; i < steps; i++ {
				switch rapid.SampledFrom([]string{"write", "write", "write", "fetch", "seek", "pending", "discard"}).Draw(t, "op") {
				case "write":
					data := make([]byte, size(t, "n", 0, 700))
					stamp(data, &counter)
					in := clone(data)
					if _, err := d.Write(in, rapid.IntRange(0, 3).Draw(t, "idx"), utils.AVMediaTypeVideo); err != nil {
						t.Fatalf("Write: %v", err)
					}
					for j := range in {
						in[j] = 0
					}
					want = append(want, data...)
					k.Desc(" w%d", len(data))
					writes++
				case "fetch":
					got, err := d.Fetch(0)
					k.Desc(" f")
					if err != nil || !bytes.Equal(got, want) {
						t.Fatalf("Fetch returned %s, %v; written since the last fetch: %s", brief(got), err, brief(want))
					}
					want = nil
					fetches++
				case "seek":
					n := rapid.IntRange(0, len(want)+3).Draw(t, "back")
					k.Desc(" s-%d", n)
					if err := d.Seek(int64(-n), 0); err != nil {
						t.Fatalf("Seek(-%d): %v", n, err)
					}
					want = want[:max(0, len(want)-n)]
				case "discard":
					d.DiscardBackPacket(0)
					d.DiscardHeadPacket(0)
				}
				if w.skips(t, i == steps-1) {
					continue
				}
				if got := d.PendingBlockSize(0); got != len(want) {
					t.Fatalf("pending %d, want %d", got, len(want))
				}
			}
			k.Nontrivial(writes >= 3 && fetches >= 2)
		})
}
