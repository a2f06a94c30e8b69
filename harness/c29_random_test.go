package harness

import (
	"math"
	"runtime"
	"strings"
	"sync"
	"testing"

	"github.com/lkmio/avformat/utils"
	"pgregory.net/rapid"
)

const alphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

// drawBound draws an integer of any magnitude and sign.
func drawBound(t *rapid.T, label string) int {
	return rapid.OneOf(rapid.IntRange(-3, 3), rapid.SampledFrom([]int{math.MinInt, math.MaxInt, math.MinInt + 1, math.MaxInt - 1, -1 << 32, 1 << 32, math.MaxInt32, math.MinInt32, 10000, 65535}),
		rapid.IntRange(-100000, 100000), rapid.Int()).Draw(t, label)
}

func TestC29_Integers(t *testing.T) {
	check(t, "ranges of every width, sign and magnitude, one in ten the wrong way round, 1-300 numbers each; non-trivial: more than one value in the range",
		200000, 8000000, func(t *rapid.T, k *kase) {
			lo := drawBound(t, "min")
			hi := lo
			switch rapid.IntRange(0, 3).Draw(t, "kind") {
			case 1, 2: // narrow
				if w := rapid.IntRange(0, 9).Draw(t, "width"); lo <= math.MaxInt-w {
					hi = lo + w
				}
			case 3:
				hi = drawBound(t, "max")
				if hi < lo {
					lo, hi = hi, lo
				}
			}
			if lo < hi && rapid.IntRange(0, 9).Draw(t, "reversed") == 9 {
				k.Desc("reversed [%d,%d]", hi, lo)
				k.Label("wrong way round")
				if v, panicked := tryInt(hi, lo); !panicked {
					t.Fatalf("[%d,%d] yields %d", hi, lo, v)
				}
				return
			}
			n := rapid.SampledFrom([]int{300, 300, 20, 1}).Draw(t, "n")
			k.Desc("[%d,%d] x%d", lo, hi, n)
			seen := map[int]bool{}
			for i := 0; i < n; i++ {
				v, panicked := tryInt(lo, hi)
				if panicked {
					t.Fatalf("[%d,%d] panics", lo, hi)
				}
				if v < lo || v > hi {
					t.Fatalf("[%d,%d] yields %d", lo, hi, v)
				}
				seen[v] = true
			}
			span := uint64(hi) - uint64(lo)
			if n == 300 { // a value or a quarter of the range is missed with a probability below 1e-13
				if span < 9 && uint64(len(seen)) != span+1 {
					t.Fatalf("300 numbers of [%d,%d] are only %d different ones", lo, hi, len(seen))
				}
				low, high := false, false
				for v := range seen {
					low = low || uint64(v)-uint64(lo) <= span/4
					high = high || uint64(hi)-uint64(v) <= span/4
				}
				// Each bit of the offset that a quarter of the range reaches varies.
				for b := 0; b < 62 && uint64(2)<<b <= span/4; b++ {
					ones := 0
					for v := range seen {
						ones += int((uint64(v) - uint64(lo)) >> b & 1)
					}
					if ones == 0 || ones == len(seen) {
						t.Fatalf("300 numbers of [%d,%d] agree in bit %d of their offset", lo, hi, b)
					}
				}
				if !low || !high {
					t.Fatalf("300 numbers of [%d,%d] keep to one part of it", lo, hi)
				}
			}
			k.Nontrivial(span > 0)
			k.LabelIf(span > math.MaxInt, "wider than an int")
			k.LabelIf(lo < 0, "negative")
		})
}

func tryInt(lo, hi int) (v int, panicked bool) {
	defer func() { panicked = recover() != nil }()
	return utils.RandomIntInRange(lo, hi), false
}

var issued = map[string]bool{}

// freshString checks length and alphabet; long identifiers must be new.
func freshString(t *rapid.T, s string, n int) {
	if len(s) != n {
		t.Fatalf("%q has length %d, want %d", s, len(s), n)
	}
	if i := strings.IndexFunc(s, func(r rune) bool { return !strings.ContainsRune(alphabet, r) }); i >= 0 {
		t.Fatalf("%q has byte %x", s, s[i])
	}
	if n >= 14 { // two of 10^7 are equal with a probability below 1e-11
		if issued[s] {
			t.Fatalf("%q came twice", s)
		}
		issued[s] = true
	}
}

func TestC29_Strings(t *testing.T) {
	check(t, "1-60 identifiers of 0-300 characters in a row, one in twenty of 6000; no repetition within the run; non-trivial: 2+ of 14+ characters",
		20000, 200000, func(t *rapid.T, k *kase) {
			if rapid.IntRange(0, 19).Draw(t, "long") == 19 {
				s := utils.RandStringBytes(6000)
				k.Desc("6000 characters")
				freshString(t, s, 6000)
				for i := range alphabet {
					if strings.IndexByte(s, alphabet[i]) < 0 { // by chance: below 1e-40
						t.Fatalf("%q never appears", alphabet[i])
					}
				}
				k.Nontrivial(true)
				return
			}
			n := rapid.SampledFrom([]int{16, 32, 14, 10, 1, 0, 64, 300}).Draw(t, "length")
			m := rapid.IntRange(1, 60).Draw(t, "count")
			k.Desc("%d of %d characters", m, n)
			for i := 0; i < m; i++ {
				freshString(t, utils.RandStringBytes(n), n)
			}
			k.Nontrivial(m > 1 && n >= 14)
			k.Label("%d characters", n)
		})
}

func TestC29_Concurrent(t *testing.T) {
	check(t, "2-16 goroutines that take 50-3000 identifiers of 14-20 characters each, with integers and yields between; no repetition within the run; non-trivial: 4+ goroutines",
		120, 1200, func(t *rapid.T, k *kase) {
			g := rapid.IntRange(2, 16).Draw(t, "goroutines")
			m := rapid.SampledFrom([]int{1500, 3000, 500, 50}).Draw(t, "each")
			n := rapid.IntRange(14, 20).Draw(t, "length")
			mix := rapid.IntRange(0, 5).Draw(t, "mix")
			k.Desc("%d goroutines x %d of %d", g, m, n)
			out := make([][]string, g)
			bad := make([]bool, g)
			var start, done sync.WaitGroup
			start.Add(1)
			for i := range out {
				done.Add(1)
				go func() {
					defer done.Done()
					start.Wait()
					for j := 0; j < m; j++ {
						if mix == 1 && j%7 == i%7 {
							runtime.Gosched()
						}
						if mix == 2 {
							v, panicked := tryInt(-j, j)
							bad[i] = bad[i] || panicked || v < -j || v > j
						}
						out[i] = append(out[i], utils.RandStringBytes(n))
					}
				}()
			}
			start.Done()
			done.Wait()
			for i := range out {
				if bad[i] {
					t.Fatalf("an integer left its range")
				}
				for _, s := range out[i] {
					freshString(t, s, n)
				}
			}
			k.Nontrivial(g > 3)
			k.LabelIf(mix == 2, "with integers")
		})
}
