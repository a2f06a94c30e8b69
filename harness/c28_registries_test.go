package harness

import (
	"fmt"
	"testing"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
	"pgregory.net/rapid"
)

var registryCodecs = []utils.AVCodecID{utils.AVCodecIdH264, utils.AVCodecIdH265, utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW, utils.AVCodecIdNONE, utils.AVCodecIdMP3}

func drawStreamTrack(t *rapid.T) avformat.Track {
	media := utils.AVMediaType(rapid.IntRange(-1, 5).Draw(t, "media"))
	st := avformat.NewAVStream(media, rapid.SampledFrom([]int{0, 1, 2, 3, 16, 1000, -1}).Draw(t, "streamIndex"), rapid.SampledFrom(registryCodecs).Draw(t, "codec"), nil, nil)
	if rapid.Bool().Draw(t, "pointer") {
		return &avformat.SimpleTrack{Stream: st}
	}
	return avformat.SimpleTrack{Stream: st}
}

// lookups compares every lookup of a track list with the list itself.
func lookups(t *rapid.T, m *avformat.TrackManager, want []avformat.Track) {
	if m.Size() != len(want) || len(m.Tracks) != len(want) {
		t.Fatalf("%d tracks (%d listed), want %d", m.Size(), len(m.Tracks), len(want))
	}
	for i, tr := range want {
		if m.Get(i) != tr || m.Get(i).GetStream() != tr.GetStream() {
			t.Fatalf("track %d is not the one added as number %d", i, i)
		}
	}
	for media := utils.AVMediaType(-1); media <= 5; media++ {
		var first avformat.Track
		for _, tr := range want {
			if tr.GetStream().MediaType == media {
				first = tr
				break
			}
		}
		if got := m.FindTrackWithType(media); got != first {
			t.Fatalf("looking up media type %d finds %v, want %v", media, got, first)
		}
	}
	for _, id := range registryCodecs {
		var first avformat.Track
		for _, tr := range want {
			if tr.GetStream().CodecID == id {
				first = tr
				break
			}
		}
		if got := m.Find(id); got != first {
			t.Fatalf("looking up codec %v finds %v, want %v", id, got, first)
		}
	}
	for _, i := range []int{len(want), len(want) + 1, -1} {
		var got avformat.Track
		if !panics(func() { got = m.Get(i) }) && got != nil {
			t.Fatalf("track %d of %d is %v", i, len(want), got)
		}
	}
}

func TestC28_Muxer(t *testing.T) {
	check(t, "histories of 1-20 additions of tracks of any media type and codec to a muxer, header written at any time, every lookup compared after each; non-trivial: 2+ tracks and a refusal",
		640000, 19000000, func(t *rapid.T, k *kase) {
			m := &avformat.BaseMuxer{}
			var want []avformat.Track
			refused := 0
			w := drawWatch(t)
			for n := rapid.IntRange(1, 20).Draw(t, "n"); n > 0; n-- {
				if rare(t, "header", 9) {
					dst := make([]byte, 8)
					if c, err := m.WriteHeader(dst); c != 0 || err != nil || !m.Completed {
						t.Fatalf("writing the header: %d %v, completed %v", c, err, m.Completed)
					}
					k.Desc(" header")
					continue
				}
				tr := drawStreamTrack(t)
				exists := false
				for _, w := range want {
					exists = exists || w.GetStream().MediaType == tr.GetStream().MediaType
				}
				i, err := m.AddTrack(tr)
				k.Desc(" %v/%v", tr.GetStream().MediaType, tr.GetStream().CodecID)
				if exists {
					refused++
					if err == nil {
						t.Fatalf("a second track of media type %v is accepted", tr.GetStream().MediaType)
					}
				} else {
					if err != nil || i != len(want) {
						t.Fatalf("track %v as number %d: index %d, %v", tr.GetStream().MediaType, len(want), i, err)
					}
					want = append(want, tr)
				}
				if !w.skips(t, n == 1) {
					lookups(t, &m.Tracks, want)
				}
			}
			k.Nontrivial(len(want) > 1 && refused > 0)
			k.LabelIf(refused > 0, "refusal")
			k.Label("%d tracks", len(want))
		})
}

func TestC28_Tracks(t *testing.T) {
	check(t, "histories of 1-30 (rarely 70 or 300) additions of tracks, several of the same media type and codec, to a track list, every lookup compared after each; non-trivial: a media type or codec twice",
		480000, 14000000, func(t *rapid.T, k *kase) {
			m := &avformat.TrackManager{}
			var want []avformat.Track
			seen := map[string]bool{}
			w := drawWatch(t)
			n := rapid.IntRange(0, 30).Draw(t, "n")
			if rare(t, "many", 400) {
				n = rapid.SampledFrom([]int{300, 70}).Draw(t, "nMany")
				k.Label("70+ tracks")
			}
			for ; n > 0; n-- {
				tr := drawStreamTrack(t)
				if !m.Add(tr) {
					t.Fatalf("a track is refused by the track list")
				}
				want = append(want, tr)
				st := tr.GetStream()
				for _, s := range []string{fmt.Sprint("m", st.MediaType), fmt.Sprint("c", st.CodecID)} {
					k.Nontrivial(seen[s])
					seen[s] = true
				}
				k.Desc(" %v/%v", st.MediaType, st.CodecID)
				if !w.skips(t, n == 1) {
					lookups(t, m, want)
				}
			}
		})
}

func TestC28_BufferIndexes(t *testing.T) {
	check(t, "histories of 1-60 requests for the buffer index of arbitrary markers and media types, each also repeated later; non-trivial: 3+ distinct markers and a repeated one",
		640000, 19000000, func(t *rapid.T, k *kase) {
			d := &avformat.BaseDemuxer{Name: rapid.SampledFrom([]string{"flv", "ps", "ts", "jt1078", ""}).Draw(t, "name")}
			known := map[int]int{}
			repeats := 0
			n := rapid.IntRange(1, 60).Draw(t, "n")
			if rapid.IntRange(0, 499).Draw(t, "many") == 111 {
				// a lot of markers seen before
				base, step := rapid.IntRange(-300, 300).Draw(t, "base"), rapid.SampledFrom([]int{1, -1, 3, 256, 65536}).Draw(t, "step")
				for i := rapid.SampledFrom([]int{64, 100, 130, 260, 1030}).Draw(t, "manyN"); i > 0; i-- {
					base += step
					if _, ok := known[base]; !ok {
						if got := d.FindBufferIndex(base); got != len(known) {
							t.Fatalf("new marker %d has buffer %d, want %d", base, got, len(known))
						}
						known[base] = len(known)
					}
				}
				k.Desc(" %d markers", len(known))
				k.Label("many markers")
			}
			for ; n > 0; n-- {
				var marker, got int
				if rapid.IntRange(0, 3).Draw(t, "byType") == 0 {
					mt := utils.AVMediaType(rapid.IntRange(-1, 5).Draw(t, "media"))
					marker, got = int(mt), d.FindBufferIndexByMediaType(mt)
				} else {
					marker = rapid.OneOf(rapid.IntRange(-2, 12), rapid.SampledFrom([]int{0xE0, 0xC0, 0x101, 8191, -1 << 62, 1<<62 + 1}), rapid.Int()).Draw(t, "marker")
					got = d.FindBufferIndex(marker)
				}
				want, seen := known[marker]
				if !seen {
					want = len(known)
					known[marker] = want
				} else {
					repeats++
				}
				k.Desc(" %d=%d", marker, got)
				if got != want {
					t.Fatalf("marker %d (seen before: %v) has buffer %d, want %d", marker, seen, got, want)
				}
			}
			for marker, want := range known {
				if got := d.FindBufferIndex(marker); got != want {
					t.Fatalf("marker %d has buffer %d in the end, want %d", marker, got, want)
				}
			}
			k.Nontrivial(len(known) >= 3 && repeats > 0)
		})
}
