package harness

import (
	"bytes"
	"runtime"
	"testing"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
	"pgregory.net/rapid"
)

const sessionRule = "sessions of 1-70 operations (frames, declarations, soft and hard completion requests, releases) on a flv, ps, ts or jt1078 demuxer with 0-5 streams; non-trivial: 3+ frames, at least one track, probing ended"

func demuxerCheck(t *testing.T, focus string, quick, thorough int) {
	check(t, sessionRule, quick, thorough, func(t *rapid.T, k *kase) {
		newSession(t, k, focus, false).run(70)
	})
}

func TestC01_Session(t *testing.T) { demuxerCheck(t, "C01", 110000, 3300000) }
func TestC02_Session(t *testing.T) { demuxerCheck(t, "C02", 104000, 3100000) }
func TestC03_Session(t *testing.T) { demuxerCheck(t, "C03", 152000, 4500000) }
func TestC05_Session(t *testing.T) { demuxerCheck(t, "C05", 150000, 4500000) }

func TestC04_Release(t *testing.T) { demuxerCheck(t, "C04", 154000, 4600000) }

func TestC04_Buffers(t *testing.T) {
	check(t, sessionRule+"; payloads up to 640 KB assembled in interleaved fragments in the real stream buffers",
		12400, 370000, func(t *rapid.T, k *kase) {
			newSession(t, k, "C04", true).run(120)
		})
}

// keepUp counts what a consumer that releases everything at once sees.
type keepUp struct {
	d       *avformat.BaseDemuxer
	want    []byte
	release bool
	seen    int
	bad     int
}

func (h *keepUp) OnNewTrack(avformat.Track) {}
func (h *keepUp) OnTrackComplete()          {}
func (h *keepUp) OnTrackNotFind()           {}
func (h *keepUp) OnPacket(p *avformat.AVPacket) {
	h.seen++
	if !bytes.HasPrefix(h.want, p.Data) {
		h.bad++
	}
	if h.release {
		h.d.DiscardHeadPacket(p.BufferIndex)
		avformat.FreePacket(p)
	}
}

func TestC04_Bounded(t *testing.T) {
	check(t, "long audio streams (20-60 MB through the real buffers, 1-3 streams, frames up to 100 KB, automatic release or a consumer that releases at once), bytes allocated compared with a fixed bound; every case is non-trivial",
		1840, 27000, func(t *rapid.T, k *kase) {
			k.Nontrivial(true)
			d := &avformat.BaseDemuxer{Name: rapid.SampledFrom([]string{"ps", "ts", "jt1078"}).Draw(t, "name")}
			d.DataPipeline = &avformat.StreamsBuffer{}
			d.AutoFree = rapid.Bool().Draw(t, "autoFree")
			streams := rapid.IntRange(1, 3).Draw(t, "streams")
			top := size(t, "top", 1000, 100000)
			total := rapid.IntRange(20, 60).Draw(t, "total") << 20
			refused := rapid.IntRange(0, 2).Draw(t, "refused") // streams that come too late
			payload := expand(uint64(top), top+8, 0)
			h := &keepUp{d: d, want: payload, release: !d.AutoFree}
			d.SetHandler(h)
			sizes := expand(rapid.Uint64Range(0, 1<<20).Draw(t, "sizes"), 251, 0)
			k.Desc("%s auto=%v streams=%d+%d top=%d total=%d sizes=%x", d.Name, d.AutoFree, streams, refused, top, total, sizes[:8])
			var before, after runtime.MemStats
			runtime.ReadMemStats(&before)
			fed, n := 0, 0
			for i := 0; fed < total; i++ {
				b := i % streams
				if refused > 0 && d.Completed && i%3 == 0 {
					b = streams + i%refused
				}
				l := 1 + top*int(sizes[i%len(sizes)])/255
				_, _ = d.DataPipeline.Write(payload[:l/2], b, utils.AVMediaTypeAudio)
				_, _ = d.DataPipeline.Write(payload[l/2:l], b, utils.AVMediaTypeAudio)
				data, err := d.DataPipeline.Fetch(b)
				if err != nil {
					t.Fatalf("fetch: %v", err)
				}
				fed += l
				if b < streams {
					n++
				}
				d.OnAudioPacket(b, utils.AVCodecIdPCMALAW, data, int64(i)*int64(d.GetTimebase())/50)
			}
			runtime.ReadMemStats(&after)
			if h.bad > 0 || h.seen != n-streams {
				t.Fatalf("%d of %d frames are delivered, %d damaged", h.seen, n, h.bad)
			}
			// the retained frames of the probe window and the rings that hold them
			retained := uint64(15*top+600000) * uint64(streams+refused)
			bound := 8*retained + uint64(n)*400
			if got := after.TotalAlloc - before.TotalAlloc; got > bound {
				t.Fatalf("%d bytes through %d+%d streams with frames up to %d: %d bytes were allocated, the bound is %d", fed, streams, refused, top, got, bound)
			}
		})
}
