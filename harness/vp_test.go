// Shared machinery of the checks: one wrapper around rapid.Check that fixes the
// seed and the case count from the environment, counts and samples the generated
// cases, and turns a case that never ends into a report.
package harness

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/metrics"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// envInt reads an integer setting made by the runner.
func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

var (
	verifSeed  = envInt("VERIF_SEED", 1)
	shard      = envInt("VP_SHARD", 0)
	shards     = envInt("VP_SHARDS", 1)
	thorough   = os.Getenv("VERIF_TIER") == "thorough"
	statsDir   = os.Getenv("VP_STATS")
	replaying  = os.Getenv("VP_REPLAY") != ""
	scaleMilli = envInt("VP_SCALE_MILLI", 1000) // case counts are multiplied by this / 1000
)

// devNull stands in for os.Stdout while tests run: the code under test prints hex
// dumps of rejected frames. The testing package has captured the real one by then.
var devNull *os.File

func TestMain(m *testing.M) {
	flag.Parse()
	var err error
	if devNull, err = os.OpenFile(os.DevNull, os.O_WRONLY, 0); err != nil {
		panic(err)
	}
	go watchdog()
	os.Exit(m.Run())
}

// ---- a case that does not end -------------------------------------------------

const (
	hangCPU   = 30 * time.Second // CPU burnt inside one case before it counts as endless
	hangTicks = 240              // half seconds without any CPU use before a case counts as stuck
	heapLimit = 3 << 30
	exitHang  = 97
)

var (
	curTest   atomic.Value // string
	curStart  atomic.Int64 // process CPU time when the case began, -1 when none runs
	curNumber atomic.Int64
)

func cpuTime() int64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// watchdog ends the process when a single case has used an absurd amount of CPU
// time, holds an absurd amount of memory, or sits still without using any CPU at all.
// It measures CPU and its own wake-ups, not the clock, so a busy or suspended machine
// cannot trigger it: the cases take micro- to milliseconds.
func watchdog() {
	curStart.Store(-1)
	var last, idleSince int64
	ticks := 0
	heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(500 * time.Millisecond)
		n, s, now := curNumber.Load(), curStart.Load(), cpuTime()
		if s < 0 || n != last {
			last, ticks, idleSince = n, 0, now
			continue
		}
		ticks++
		what := ""
		if now-s > int64(hangCPU) {
			what = fmt.Sprintf("VP-HANG test=%%s case=%d: one case used over %v of CPU time", n, hangCPU)
		} else if ticks > hangTicks && now-idleSince < int64(2*time.Second) {
			what = fmt.Sprintf("VP-HANG test=%%s case=%d: one case is stuck without using CPU", n)
		} else if metrics.Read(heap); heap[0].Value.Uint64() > heapLimit {
			what = fmt.Sprintf("VP-MEMORY test=%%s case=%d: %d bytes in use", n, heap[0].Value.Uint64())
		}
		if what != "" && curNumber.Load() == n {
			name, _ := curTest.Load().(string)
			fmt.Fprintf(os.Stderr, "\n"+what+"\n", name)
			panicDump()
			os.Exit(exitHang)
		}
	}
}

// ---- counting and sampling ----------------------------------------------------

type recorder struct {
	mu      sync.Mutex
	name    string
	rule    string
	evals   int
	hashes  map[uint64]struct{}
	labels  map[string]int
	samples []string
}

// kase is what one generated case reports about itself.
type kase struct {
	r          *recorder
	desc       strings.Builder
	nontrivial bool
	labels     map[string]struct{}
}

const descLimit = 4000

// hashLimit bounds what telling cases apart costs; beyond it their number is a lower bound.
const hashLimit = 600_000

// Desc adds to the case's written-out form; distinctness is decided on it.
func (k *kase) Desc(format string, args ...any) {
	if k.desc.Len() < descLimit {
		fmt.Fprintf(&k.desc, format, args...)
	}
}

// Nontrivial marks the case as non-trivial by the test's stated rule.
func (k *kase) Nontrivial(cond bool) {
	if cond {
		k.nontrivial = true
	}
}

// Label classifies the case.
func (k *kase) Label(format string, args ...any) {
	k.labels[fmt.Sprintf(format, args...)] = struct{}{}
}

func (k *kase) LabelIf(cond bool, label string) {
	if cond {
		k.labels[label] = struct{}{}
	}
}

func (k *kase) finish() {
	r := k.r
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	for l := range k.labels {
		r.labels[l]++
	}
	if k.nontrivial {
		h := fnv.New64a()
		h.Write([]byte(r.name))
		h.Write([]byte(k.desc.String()))
		if _, seen := r.hashes[h.Sum64()]; !seen && len(r.hashes) < hashLimit {
			r.hashes[h.Sum64()] = struct{}{}
			if n := len(r.hashes); len(r.samples) < 6 && n&(n-1) == 0 && n > 2 {
				s := k.desc.String()
				if len(s) > 500 {
					s = s[:500] + "..."
				}
				r.samples = append(r.samples, s)
			}
		}
	}
}

func (r *recorder) flush() {
	if statsDir == "" {
		return
	}
	hs := make([]string, 0, len(r.hashes))
	for h := range r.hashes {
		hs = append(hs, strconv.FormatUint(h, 16))
	}
	out, _ := json.Marshal(map[string]any{
		"test": r.name, "rule": r.rule, "evals": r.evals, "hashes": hs, "labels": r.labels, "samples": r.samples,
	})
	_ = os.WriteFile(filepath.Join(statsDir, fmt.Sprintf("%s.%d.json", r.name, shard)), out, 0o644)
}

func newRecorder(t *testing.T, rule string) *recorder {
	r := &recorder{name: t.Name(), rule: rule, hashes: map[uint64]struct{}{}, labels: map[string]int{}}
	t.Cleanup(r.flush)
	return r
}

// seedFor derives rapid's seed (never 0, which would mean random) from the test and
// VERIF_SEED, so that a run is a function of the code and that value alone.
func seedFor(name string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", name, verifSeed, shard)
	if s := h.Sum64() >> 1; s != 0 {
		return s
	}
	return 1
}

// check runs prop on quickN generated cases (thoroughN in the thorough tier), spread
// over the runner's shards.
func check(t *testing.T, rule string, quickN, thoroughN int, prop func(*rapid.T, *kase)) {
	t.Helper()
	os.Stdout = devNull
	n := quickN
	if thorough {
		n = thoroughN
	}
	n = n * scaleMilli / 1000
	if n = (n + shards - 1) / shards; n < 1 || replaying {
		n = 1
	}
	must(flag.Set("rapid.checks", strconv.Itoa(n)))
	must(flag.Set("rapid.seed", strconv.FormatUint(seedFor(t.Name()), 10)))
	r := newRecorder(t, rule)
	name := t.Name()
	curTest.Store(name)
	defer curStart.Store(-1)
	rapid.Check(t, func(t *rapid.T) {
		k := &kase{r: r, labels: map[string]struct{}{}}
		curNumber.Add(1)
		curStart.Store(cpuTime())
		prop(t, k)
		k.finish()
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
