package harness

import (
	"testing"

	"github.com/lkmio/avformat/collections"
	"pgregory.net/rapid"
)

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func drawCapacity(t *rapid.T) int {
	if rapid.IntRange(0, 9).Draw(t, "capClass") == 7 {
		return rapid.SampledFrom([]int{10, 16, 64, 65}).Draw(t, "cap")
	}
	return rapid.IntRange(1, 9).Draw(t, "cap")
}

// bulk is how often an operation is repeated: once, or now and then often.
func bulk(t *rapid.T) int {
	if rapid.IntRange(0, 49).Draw(t, "bulk") == 31 {
		return rapid.SampledFrom([]int{20, 5, 70, 130}).Draw(t, "bulkN")
	}
	return 1
}

// watch says after which steps a container is looked at: in a watched history
// after each, in the others now and then and at the end, because looking may
// itself repair or refresh what an operation left behind.
type watch struct{ always bool }

func drawWatch(t *rapid.T) watch {
	return watch{rapid.IntRange(0, 2).Draw(t, "watched") != 1}
}

func (w watch) skips(t *rapid.T, last bool) bool {
	return !w.always && !last && rapid.IntRange(0, 3).Draw(t, "look") != 2
}

func TestC09_Queue(t *testing.T) {
	check(t, "operation histories on a queue of small initial capacity; non-trivial: 6+ pushes, a removal at each end or a growth",
		1140000, 34000000, func(t *rapid.T, k *kase) {
			capacity := drawCapacity(t)
			q := collections.NewQueue[int](capacity)
			k.Desc("cap=%d:", capacity)
			var m []int
			next, fronts, backs, grew := 100, 0, 0, false
			snapshot := func() []int {
				a, b := q.Data()
				return append(append([]int{}, a...), b...)
			}
			w := drawWatch(t)
			steps := rapid.IntRange(1, 60).Draw(t, "steps")
			for i := 0; i < steps; i++ {
				switch op := rapid.SampledFrom([]string{"push", "push", "push", "pop", "pop", "back", "peek", "clear", "bad"}).Draw(t, "op"); op {
				case "push":
					n := bulk(t)
					k.Desc(" +%d", n)
					for ; n > 0; n-- {
						next++
						q.Push(next)
						m = append(m, next)
					}
					grew = grew || len(m) > capacity
				case "pop":
					n := bulk(t)
					k.Desc(" <%d", n)
					for ; n > 0; n-- {
						got := q.Pop()
						want := 0
						if len(m) > 0 {
							want, m = m[0], m[1:]
							fronts++
						}
						if got != want {
							t.Fatalf("Pop = %d, want %d", got, want)
						}
					}
				case "back":
					k.Desc(" >")
					if len(m) == 0 {
						if !panics(func() { q.PopBack() }) {
							t.Fatalf("PopBack on an empty queue was accepted")
						}
						break
					}
					want := m[len(m)-1]
					m = m[:len(m)-1]
					backs++
					if got := q.PopBack(); got != want {
						t.Fatalf("PopBack = %d, want %d", got, want)
					}
				case "peek":
					for j, want := range m {
						if got := q.Peek(j); got != want {
							t.Fatalf("Peek(%d) = %d, want %d", j, got, want)
						}
					}
				case "clear":
					if rapid.IntRange(0, 4).Draw(t, "clearRare") == 0 {
						q.Clear()
						m = nil
						k.Desc(" C")
					}
				case "bad":
					j := len(m) + rapid.IntRange(0, 3).Draw(t, "over")
					if rapid.IntRange(0, 3).Draw(t, "negative") == 3 {
						j = -1 - j
					}
					if !panics(func() { q.Peek(j) }) {
						t.Fatalf("Peek(%d) of %d elements was accepted", j, len(m))
					}
				}
				if w.skips(t, i == steps-1) {
					continue
				}
				if q.Size() != len(m) || q.IsEmpty() != (len(m) == 0) {
					t.Fatalf("size %d empty %v, want %d", q.Size(), q.IsEmpty(), len(m))
				}
				// the room it has now, of which it says itself when none is left
				if q.Capacity() < len(m) || q.IsFull() != (q.Capacity() == len(m)) {
					t.Fatalf("%d elements, capacity %d, full %v", len(m), q.Capacity(), q.IsFull())
				}
				if got := snapshot(); !eqInts(got, m) {
					t.Fatalf("contents %v, want %v", got, m)
				}
				if len(m) > 0 {
					if q.Head() != m[0] || q.Tail() != m[len(m)-1] {
						t.Fatalf("head %d tail %d, want %v", q.Head(), q.Tail(), m)
					}
				} else if !panics(func() { q.Head() }) || !panics(func() { q.Tail() }) {
					t.Fatalf("head or tail of an empty queue was returned")
				}
			}
			k.Nontrivial(next >= 106 && (grew || (fronts > 0 && backs > 0)))
			k.LabelIf(grew, "grew")
			k.LabelIf(grew && fronts > 0, "grew after pops")
		})
}

func TestC09_Ring(t *testing.T) {
	check(t, "operation histories on a bounded ring; non-trivial: more pushes than its capacity",
		1200000, 36000000, func(t *rapid.T, k *kase) {
			capacity := drawCapacity(t)
			r := collections.NewRingBuffer[int](capacity)
			k.Desc("cap=%d:", capacity)
			var m []int
			next := 100
			w := drawWatch(t)
			steps := rapid.IntRange(1, 60).Draw(t, "steps")
			for i := 0; i < steps; i++ {
				switch rapid.SampledFrom([]string{"push", "push", "push", "pop", "clear"}).Draw(t, "op") {
				case "push":
					n := bulk(t)
					k.Desc(" +%d", n)
					for ; n > 0; n-- {
						next++
						r.Push(next)
						m = append(m, next)
						if len(m) > capacity {
							m = m[1:]
						}
					}
				case "pop":
					k.Desc(" <")
					got, want := r.Pop(), 0
					if len(m) > 0 {
						want, m = m[0], m[1:]
					}
					if got != want {
						t.Fatalf("Pop = %d, want %d", got, want)
					}
				case "clear":
					if rapid.IntRange(0, 4).Draw(t, "clearRare") == 0 {
						r.Clear()
						m = nil
						k.Desc(" C")
					}
				}
				if w.skips(t, i == steps-1) {
					continue
				}
				if r.Size() != len(m) || r.IsEmpty() != (len(m) == 0) || r.IsFull() != (len(m) == capacity) || r.Capacity() != capacity {
					t.Fatalf("size %d empty %v full %v capacity %d, want %d of %d", r.Size(), r.IsEmpty(), r.IsFull(), r.Capacity(), len(m), capacity)
				}
				a, b := r.Data()
				if got := append(append([]int{}, a...), b...); !eqInts(got, m) {
					t.Fatalf("contents %v, want %v", got, m)
				}
				if len(m) > 0 {
					if r.Head() != m[0] || r.Tail() != m[len(m)-1] {
						t.Fatalf("head %d tail %d, want %v", r.Head(), r.Tail(), m)
					}
				} else if !panics(func() { r.Head() }) || !panics(func() { r.Tail() }) {
					t.Fatalf("head or tail of an empty ring was returned")
				}
			}
			k.Nontrivial(next-100 > capacity)
		})
}

func TestC09_List(t *testing.T) {
	check(t, "operation histories on the linked list; non-trivial: 4+ additions and 2+ removals",
		1200000, 36000000, func(t *rapid.T, k *kase) {
			var l collections.LinkedList[int]
			var m []int
			next, removed := 100, 0
			w := drawWatch(t)
			steps := rapid.IntRange(1, 50).Draw(t, "steps")
			if rapid.IntRange(0, 999).Draw(t, "long") == 333 {
				k.Label("long")
				for n := rapid.SampledFrom([]int{257, 300, 513, 1025}).Draw(t, "longN"); n > 0; n-- {
					next++
					l.Add(next)
					m = append(m, next)
				}
				k.Desc(" +%d", len(m))
				steps = min(steps, 12)
			}
			for i := 0; i < steps; i++ {
				switch rapid.SampledFrom([]string{"add", "add", "add", "remove", "remove", "first", "last", "bad"}).Draw(t, "op") {
				case "add":
					n := bulk(t)
					k.Desc(" +%d", n)
					for ; n > 0; n-- {
						next++
						l.Add(next)
						m = append(m, next)
					}
				case "bad":
					j := len(m) + rapid.IntRange(0, 2).Draw(t, "over")
					if rapid.IntRange(0, 3).Draw(t, "negative") == 3 {
						j = -1 - j
					}
					if !panics(func() { l.Get(j) }) || !panics(func() { l.Remove(j) }) {
						t.Fatalf("element %d of %d was accepted", j, len(m))
					}
				default:
					if len(m) == 0 {
						break
					}
					j := rapid.IntRange(0, len(m)-1).Draw(t, "at")
					switch rapid.IntRange(0, 4).Draw(t, "end") {
					case 2:
						j = max(0, len(m)-2)
					case 0:
						j = 0
					case 1:
						j = len(m) - 1
					}
					k.Desc(" -%d", j)
					if got := l.Remove(j); got != m[j] {
						t.Fatalf("Remove(%d) = %d, want %d", j, got, m[j])
					}
					m = append(append([]int{}, m[:j]...), m[j+1:]...)
					removed++
				}
				if l.Size() != len(m) {
					t.Fatalf("size %d, want %d", l.Size(), len(m))
				}
				if !w.always && len(m) > 0 && rapid.Bool().Draw(t, "one") {
					j := rapid.IntRange(0, len(m)-1).Draw(t, "which")
					k.Desc(" %d?", j)
					if got := l.Get(j); got != m[j] {
						t.Fatalf("Get(%d) = %d, want %d of %v", j, got, m[j], m)
					}
				}
				if w.skips(t, i == steps-1) {
					continue
				}
				for j, want := range m {
					if got := l.Get(j); got != want {
						t.Fatalf("Get(%d) = %d, want %d of %v", j, got, want, m)
					}
				}
			}
			k.Nontrivial(next >= 104 && removed >= 2)
		})
}
