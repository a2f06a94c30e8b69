package harness

import (
	"sync"
	"sync/atomic"
	"testing"

	"github.com/lkmio/avformat/collections"
	"pgregory.net/rapid"
)

func TestC10_Sequential(t *testing.T) {
	check(t, "histories of refer/release/use-count/replace on one counter; non-trivial: 3+ refers and 3+ releases",
		960000, 28000000, func(t *rapid.T, k *kase) {
			data := rapid.Int().Draw(t, "data")
			rc := collections.NewReferenceCounter(data)
			n, refers, releases := int32(1), 0, 0
			steps := rapid.IntRange(1, 40).Draw(t, "steps")
			if rapid.IntRange(0, 299).Draw(t, "many") == 171 {
				for n = rapid.SampledFrom([]int32{100, 200, 300, 33000, 70000}).Draw(t, "refs"); rc.UseCount() != n && refers < int(n); refers++ {
					rc.Refer()
				}
				k.Desc("+%d", n)
				k.Label("100+ references")
				if rc.UseCount() != n {
					t.Fatalf("count %d after taking %d references", rc.UseCount(), n-1)
				}
			}
			for i := 0; i < steps && n > 0; i++ {
				switch rapid.SampledFrom([]string{"refer", "refer", "release", "release", "reset"}).Draw(t, "op") {
				case "refer":
					rc.Refer()
					n++
					refers++
					k.Desc("+")
				case "release":
					n--
					releases++
					k.Desc("-")
					if got := rc.Release(); got != (n == 0) {
						t.Fatalf("Release reported last=%v with %d references left", got, n)
					}
				case "reset":
					data = rapid.Int().Draw(t, "data")
					rc.ResetData(data)
					k.Desc("=")
				}
				if rc.UseCount() != n || rc.Get() != data {
					t.Fatalf("count %d data %d, want %d %d", rc.UseCount(), rc.Get(), n, data)
				}
			}
			k.Nontrivial(refers >= 3 && releases >= 3)
		})
}

// sharedData is what the references protect: every holder reads it, only the one
// told it was last writes it. The race detector sees any holder still reading.
type sharedData struct {
	value int
	freed bool
}

func TestC10_Concurrent(t *testing.T) {
	check(t, "2-8 goroutines each taking and dropping 1-60 references in generated patterns, under the race detector; non-trivial: 3+ goroutines and 30+ operations",
		40000, 1200000, func(t *rapid.T, k *kase) {
			workers := rapid.IntRange(2, 8).Draw(t, "workers")
			k.Desc("workers=%d", workers)
			rounds := rapid.IntRange(1, 3).Draw(t, "rounds")
			ops := 0
			for r := 0; r < rounds; r++ {
				rc := collections.NewReferenceCounter(&sharedData{value: 42})
				plans := make([][]byte, workers)
				for w := range plans {
					// Each byte: how many extra references are taken, then dropped.
					plans[w] = rapid.SliceOfN(rapid.ByteRange(0, 12), 1, 60).Draw(t, "plan")
					k.Desc(" %d", plans[w])
					for _, b := range plans[w] {
						ops += 2 * int(b)
					}
				}
				var lasts atomic.Int32
				var bad atomic.Value
				var start, done sync.WaitGroup
				start.Add(1)
				drop := func() {
					if d := rc.Get(); d.freed || d.value != 42 {
						bad.Store("data was gone while a reference was held")
					}
					if rc.Release() {
						lasts.Add(1)
						d := rc.Get()
						if d.freed {
							bad.Store("data released twice")
						}
						d.freed = true
						d.value = 0
					}
				}
				for w := 0; w < workers; w++ {
					rc.Refer() // the goroutine's own reference
					done.Add(1)
					go func(plan []byte) {
						defer done.Done()
						start.Wait()
						for _, n := range plan {
							for i := 0; i < int(n); i++ {
								rc.Refer()
							}
							if rc.UseCount() < int32(n)+1 {
								bad.Store("use count below the references held")
							}
							for i := 0; i < int(n); i++ {
								drop()
							}
						}
						drop()
					}(plans[w])
				}
				if got := rc.UseCount(); got != int32(workers)+1 {
					t.Fatalf("count %d at rest, want %d", got, workers+1)
				}
				if rapid.Bool().Draw(t, "mainFirst") {
					drop()
					start.Done()
					done.Wait()
				} else {
					start.Done()
					done.Wait()
					if got := rc.UseCount(); got != 1 {
						t.Fatalf("count %d at rest, want 1", got)
					}
					drop()
				}
				if b := bad.Load(); b != nil {
					t.Fatalf("%v", b)
				}
				if lasts.Load() != 1 || rc.UseCount() != 0 {
					t.Fatalf("%d releases reported to be the last, count %d", lasts.Load(), rc.UseCount())
				}
			}
			k.Nontrivial(workers >= 3 && ops >= 30)
		})
}
