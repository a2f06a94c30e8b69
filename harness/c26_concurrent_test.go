package harness

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"runtime"
	"sync"
	"testing"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/collections"
	"github.com/lkmio/avformat/utils"
	"pgregory.net/rapid"
)

// smallStreams is one small ring block pool per stream.
type smallStreams struct {
	b map[int]*collections.RBBlockBuffer
}

func (s *smallStreams) at(i int) *collections.RBBlockBuffer {
	if s.b == nil {
		s.b = map[int]*collections.RBBlockBuffer{}
	}
	if s.b[i] == nil {
		s.b[i] = collections.NewRBBlockBuffer(512 << (i % 6))
	}
	return s.b[i]
}
func (s *smallStreams) Write(d []byte, i int, _ utils.AVMediaType) (int, error) {
	s.at(i).Write(d)
	return len(d), nil
}
func (s *smallStreams) Fetch(i int) ([]byte, error) { return s.at(i).Fetch(), nil }
func (s *smallStreams) DiscardBackPacket(i int)     { s.at(i).PopBack() }
func (s *smallStreams) DiscardHeadPacket(i int)     { s.at(i).Pop() }
func (s *smallStreams) PendingBlockSize(i int) int  { return s.at(i).PendingBlockSize() }

// script is a recorded history of one demuxer, to be performed again on fresh objects.
type script struct {
	name     string
	window   int
	autoFree bool
	ops      []func(p *player)
}

func (s *script) add(f func(p *player)) {
	if s != nil {
		s.ops = append(s.ops, f)
	}
}

func (s *script) write(buffer int, data []byte, media utils.AVMediaType, whole bool) {
	data = clone(data)
	s.add(func(p *player) {
		_, _ = p.d.DataPipeline.Write(data, buffer, media)
		p.note("pending %d", p.d.DataPipeline.PendingBlockSize(buffer))
		if whole {
			p.block[buffer], _ = p.d.DataPipeline.Fetch(buffer)
			p.note("block %x", p.block[buffer])
		}
	})
}

func (s *script) frame(src *source, f *frameModel, pack avformat.PacketType) {
	video, buffer, codec, key, dts, pts := src.video, src.buffer, src.codec, f.key, f.dts, f.pts
	s.add(func(p *player) {
		if video {
			p.d.OnVideoPacket(buffer, codec, p.block[buffer], key, dts, pts, pack)
		} else {
			p.d.OnAudioPacket(buffer, codec, p.block[buffer], dts)
		}
	})
}

func (s *script) release(buffer int) { s.add(func(p *player) { p.release(buffer) }) }

func (s *script) complete(soft bool) {
	s.add(func(p *player) {
		if soft {
			p.d.TryCompleteProbe()
		} else {
			p.d.ProbeComplete()
		}
	})
}

func (s *script) declare(src *source, timebase, extra int, conf avformat.AudioConfig) {
	video, buffer, codec := src.video, src.buffer, src.codec
	s.add(func(p *player) {
		var arg []byte
		if extra > 0 {
			arg = p.block[buffer]
		}
		var tr avformat.Track
		if video {
			tr = p.d.OnNewVideoTrack(buffer, codec, timebase, arg)
		} else {
			tr = p.d.OnNewAudioTrack(buffer, codec, timebase, arg, conf)
		}
		p.note("declared %v", tr != nil)
	})
}

// player performs a script. Everything it sees goes into its transcript.
type player struct {
	d       *avformat.BaseDemuxer
	block   map[int][]byte
	log     []string
	tracks  []*avformat.AVStream
	held    map[int][]*heldShot
	counter int
	readers bool
	wait    sync.WaitGroup
	mu      sync.Mutex
	torn    string
}

type heldShot struct {
	p    *avformat.AVPacket
	done sync.WaitGroup
}

func (p *player) note(format string, args ...any) {
	p.log = append(p.log, fmt.Sprintf(format, args...))
}

// look describes a packet; the packing of audio, which nobody sets, is left out.
func look(p *avformat.AVPacket) string {
	s := shoot(p)
	if p.MediaType == utils.AVMediaTypeAudio {
		s.pack = 0
	}
	return s.String()
}

func digest(b []byte) string {
	h := fnv.New64a()
	_, _ = h.Write(b)
	return fmt.Sprintf("%d bytes %x", len(b), h.Sum64())
}

// read has other goroutines look at something while the player goes on.
func (p *player) read(done *sync.WaitGroup, look func() string) {
	if !p.readers {
		return
	}
	// nobody has looked before the first of them does
	var want *string
	for i := 0; i < 2; i++ {
		done.Add(1)
		go func() {
			defer done.Done()
			for j := 0; j < 3; j++ {
				got := look()
				p.mu.Lock()
				if want == nil {
					want = &got
				} else if got != *want {
					p.torn = fmt.Sprintf("a concurrent reader sees %s, first it was %s", got, *want)
				}
				p.mu.Unlock()
				runtime.Gosched()
			}
		}()
	}
}

func (p *player) OnNewTrack(track avformat.Track) {
	st := track.GetStream()
	p.read(&p.wait, func() string { return streamText(st) })
	p.note("track %s", streamText(st))
	p.tracks = append(p.tracks, st)
}
func (p *player) OnTrackComplete() { p.note("complete") }
func (p *player) OnTrackNotFind()  { p.note("none") }
func (p *player) OnPacket(pkt *avformat.AVPacket) {
	p.note("packet %v", look(pkt))
	if pkt.MediaType == utils.AVMediaTypeVideo && pkt.Index < len(p.tracks) {
		for i := 0; i < 2; i++ {
			p.note("start codes %s", digest(avformat.AVCCPacket2AnnexB(p.tracks[pkt.Index], pkt)))
			p.note("length prefixes %s", digest(avformat.AnnexBPacket2AVCC(pkt)))
			p.note("key %v", avformat.IsKeyFrame(pkt.CodecID, pkt.Data))
		}
	}
	seen := func() string {
		return fmt.Sprint(look(pkt), pkt.ConvertDts(8000), pkt.ConvertPts(90000), pkt.GetDuration(1000), pkt.GetPtsDtsDelta(1000))
	}
	p.note("%s", seen())
	if p.d.AutoFree {
		var done sync.WaitGroup
		p.read(&done, seen)
		done.Wait()
		return
	}
	h := &heldShot{p: pkt}
	p.held[pkt.BufferIndex] = append(p.held[pkt.BufferIndex], h)
	p.read(&h.done, seen)
}

func (p *player) release(buffer int) {
	if len(p.held[buffer]) == 0 {
		p.note("nothing to release")
		return
	}
	h := p.held[buffer][0]
	p.held[buffer] = p.held[buffer][1:]
	h.done.Wait()
	p.note("releasing %v", look(h.p))
	p.d.DiscardHeadPacket(buffer)
	avformat.FreePacket(h.p)
}

// play performs the script and returns the transcript.
func (s *script) play(readers bool, yields []bool) (log []string) {
	p := &player{d: &avformat.BaseDemuxer{Name: s.name}, block: map[int][]byte{}, held: map[int][]*heldShot{}, readers: readers}
	defer func() {
		if r := recover(); r != nil {
			log = append(p.log, fmt.Sprint("panic: ", r))
		}
	}()
	p.d.AutoFree = s.autoFree
	p.d.DataPipeline = &smallStreams{}
	p.d.SetHandler(p)
	p.d.SetProbeDuration(s.window)
	p.d.SetOnPreprocessPacketHandler(func(pkt *avformat.AVPacket) {
		p.counter++
		pkt.CreatedTime = int64(p.counter)
	})
	for i, op := range s.ops {
		if len(yields) > 0 && yields[i%len(yields)] {
			runtime.Gosched()
		}
		op(p)
	}
	for b := 0; b < 24; b++ {
		for len(p.held[b]) > 0 {
			p.release(b)
		}
	}
	p.wait.Wait()
	if p.torn != "" {
		p.note("%s", p.torn)
	}
	return p.log
}

func diff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("step %d: %.300s, alone it was %.300s", i, x, y)
		}
	}
	return ""
}

// together runs every task in its own goroutine, all starting at once, several times.
func together(rounds int, tasks []func() []string, alone [][]string) string {
	for r := 0; r < rounds; r++ {
		var start, done sync.WaitGroup
		start.Add(1)
		got := make([][]string, len(tasks))
		for i, f := range tasks {
			done.Add(1)
			go func() {
				defer done.Done()
				defer func() {
					if r := recover(); r != nil {
						got[i] = append(got[i], fmt.Sprint("panic: ", r))
					}
				}()
				start.Wait()
				got[i] = f()
			}()
		}
		start.Done()
		done.Wait()
		for i := range tasks {
			if d := diff(got[i], alone[i]); d != "" {
				return fmt.Sprintf("goroutine %d of %d, round %d, %s", i, len(tasks), r, d)
			}
		}
	}
	return ""
}

// twice makes sure a task is a function of its input before it is run beside others.
func twice(t *rapid.T, f func() []string) []string {
	a := f()
	if d := diff(f(), a); d != "" {
		t.Fatalf("done again, alone: %s", d)
	}
	return a
}

func TestC26_Demuxers(t *testing.T) {
	check(t, "2-6 goroutines each performing its own recorded demuxing session (own demuxer and buffers; conversions of every delivered packet; announced tracks and delivered packets read by further goroutines) under the race detector, transcripts compared with performing it alone; non-trivial: 2+ sessions with packets delivered",
		2600, 78000, func(t *rapid.T, k *kase) {
			var tasks []func() []string
			var alone [][]string
			busy := 0
			for i := rapid.IntRange(2, 6).Draw(t, "goroutines"); i > 0; i-- {
				s := newSession(t, k, "C26", true)
				s.run(24)
				yields := rapid.SliceOfN(rapid.Bool(), 1, 8).Draw(t, "yields")
				readers := rapid.Bool().Draw(t, "readers")
				alone = append(alone, twice(t, func() []string { return s.rec.play(false, nil) }))
				for _, l := range alone[len(alone)-1] {
					if len(l) > 6 && l[:6] == "packet" {
						busy++
						break
					}
				}
				tasks = append(tasks, func() []string { return s.rec.play(readers, yields) })
			}
			k.Nontrivial(busy >= 2)
			if d := together(3, tasks, alone); d != "" {
				t.Fatalf("%s", d)
			}
		})
}

// drawDemuxing is a short session that is drawn without performing it.
func drawDemuxing(t *rapid.T) (string, func() string) {
	name := rapid.SampledFrom([]string{"ps", "ts", "jt1078"}).Draw(t, "container")
	type frame struct {
		buffer int
		codec  utils.AVCodecID
		video  bool
		key    bool
		data   []byte
	}
	var frames []frame
	streams := rapid.IntRange(1, 3).Draw(t, "streams")
	for b := 0; b < streams; b++ {
		c := vcodec(rapid.IntRange(0, 1).Draw(t, "codec"))
		kind := rapid.IntRange(0, 3).Draw(t, "kind")
		h := drawADTS(t)
		for i := rapid.IntRange(2, 4).Draw(t, "frames"); i > 0; i-- {
			f := frame{buffer: b, video: kind < 2, key: true}
			switch kind {
			case 0, 1:
				f.codec = c.id()
				p := c.sps(t)
				nals := [][]byte{p.nal, c.nal(t, 8, 10), c.nal(t, 5, 20)}
				if c == h265 {
					nals = [][]byte{c.nal(t, 32, 10), p.nal, c.nal(t, 34, 10), c.nal(t, 19, 20)}
				}
				f.data = annexB(t, nals)
			case 2:
				f.codec = utils.AVCodecIdAAC
				f.data = append(h.write(), blobUpTo(t, "aac", 1, 40)...)
			default:
				f.codec = rapid.SampledFrom([]utils.AVCodecID{utils.AVCodecIdPCMALAW, utils.AVCodecIdPCMS16LE, utils.AVCodecIdADPCMG726}).Draw(t, "plain")
				f.data = blobUpTo(t, "audio", 1, 40)
			}
			frames = append(frames, f)
		}
	}
	for i := len(frames) - 1; i > 0; i-- { // interleaved
		j := rapid.IntRange(0, i).Draw(t, "swap")
		frames[i], frames[j] = frames[j], frames[i]
	}
	sc := &script{name: name, autoFree: rapid.Bool().Draw(t, "autoFree")}
	for i, f := range frames {
		media := utils.AVMediaTypeAudio
		if f.video {
			media = utils.AVMediaTypeVideo
		}
		sc.write(f.buffer, f.data, media, true)
		sc.add(func(p *player) {
			ts := int64(i * 20 * p.d.GetTimebase() / 1000)
			if f.video {
				p.d.OnVideoPacket(f.buffer, f.codec, p.block[f.buffer], f.key, ts, ts, p.d.GetPackType())
			} else {
				p.d.OnAudioPacket(f.buffer, f.codec, p.block[f.buffer], ts)
			}
		})
	}
	sc.complete(false)
	return "demuxing " + name, func() string { return fmt.Sprint(sc.play(false, nil)) }
}

// task is a small independent piece of work.
func drawTask(t *rapid.T) (string, func() string) {
	switch kind := rapid.IntRange(0, 9).Draw(t, "task"); kind {
	case 3, 4: // a short demuxing session
		return drawDemuxing(t)
	case 0: // packets: create, convert, release
		c := vcodec(rapid.IntRange(0, 1).Draw(t, "codec"))
		var nals [][]byte
		for i := rapid.IntRange(1, 4).Draw(t, "units"); i > 0; i-- {
			nals = append(nals, c.nal(t, rapid.SampledFrom([]int{1, 5, 19, 9}).Draw(t, "type"), 16))
		}
		raw, prefixed := annexB(t, nals), avcc(nals, 4)
		key, custom := rapid.Bool().Draw(t, "key"), rapid.Bool().Draw(t, "custom")
		dts := int64(rapid.IntRange(0, 1<<40).Draw(t, "dts"))
		st := fixedStream(c)
		return "packets", func() string {
			a := avformat.NewVideoPacket(raw, dts, dts+40, key, avformat.PacketTypeAnnexB, c.id(), 1, 90000)
			b := avformat.NewVideoPacket(prefixed, dts, dts+40, key, avformat.PacketTypeAVCC, c.id(), 1, 90000)
			n := avformat.NewAudioPacket(raw, dts, utils.AVCodecIdOPUS, 3, 1000)
			if custom {
				b.OnBufferAlloc = func(size int) []byte { return make([]byte, size) }
			}
			out := ""
			for i := 0; i < 2; i++ {
				out += fmt.Sprint(avformat.AVCCPacket2AnnexB(st, a), avformat.AVCCPacket2AnnexB(st, b), avformat.AnnexBPacket2AVCC(a), avformat.AnnexBPacket2AVCC(b))
				out += fmt.Sprint(look(a), look(b), look(n), b.ConvertDts(1000), n.ConvertPts(90000))
			}
			avformat.FreePacket(a)
			avformat.FreePacket(b)
			avformat.FreePacket(n)
			return out
		}
	case 1: // audio headers
		h := drawADTS(t)
		size := rapid.IntRange(0, 8184).Draw(t, "size")
		rate := rapid.SampledFrom([]int{96000, 44100, 8000, 7350, 12345}).Draw(t, "rate")
		return "audio headers", func() string {
			b := make([]byte, 7)
			utils.SetADtsHeader(b, 0, h.profile, h.freq, h.chans, size)
			back, err := utils.ReadADtsFixedHeader(b)
			if err != nil {
				return err.Error()
			}
			asc, err := utils.ADtsHeader2MpegAudioConfigData(back)
			i := utils.GetSampleRateIndex(rate)
			return fmt.Sprint(b, readADTS(back), asc, err, i)
		}
	case 2: // block pools
		var sizes []int
		for i := rapid.IntRange(1, 12).Draw(t, "blocks"); i > 0; i-- {
			sizes = append(sizes, rapid.IntRange(1, 200).Draw(t, "size"))
		}
		fill := rapid.Byte().Draw(t, "fill")
		capacity := rapid.IntRange(1, 300).Draw(t, "capacity")
		return "block pools", func() string {
			ring, linear := collections.NewRBBlockBuffer(capacity), collections.NewDirectBlockBuffer(capacity)
			out := ""
			for i, n := range sizes {
				b := bytes.Repeat([]byte{fill + byte(i)}, n)
				ring.Write(b)
				linear.Write(b)
				out += fmt.Sprint(ring.Fetch(), linear.Fetch(), ring.PendingBlockSize(), linear.Size())
				if i%3 == 2 {
					ring.Pop()
				}
			}
			return out
		}
	default: // a parser
		b, what := wellFormed(t)
		if len(b) > 3000 {
			b = b[:3000]
		}
		if rapid.IntRange(0, 2).Draw(t, "damage") == 0 {
			b = mutate(t, b)
			if len(b) > 3000 {
				b = b[:3000]
			}
		}
		p := rapid.SampledFrom(parsers).Draw(t, "parser")
		return p.name + " of " + what, func() string { return fmt.Sprint(p.f(b)) }
	}
}

func TestC26_Functions(t *testing.T) {
	check(t, "2-8 goroutines each performing its own list of 1-12 generated parser calls, packet conversions, header conversions and block pool histories under the race detector, results compared with doing the same alone; non-trivial: 8+ pieces of work",
		1700, 51000, func(t *rapid.T, k *kase) {
			var tasks []func() []string
			var alone [][]string
			total := 0
			for i := rapid.IntRange(2, 8).Draw(t, "goroutines"); i > 0; i-- {
				var work []func() string
				k.Desc("|")
				for j := rapid.IntRange(1, 12).Draw(t, "pieces"); j > 0; j-- {
					what, f := drawTask(t)
					k.Desc(" %s;", what)
					work = append(work, f)
					total++
				}
				all := func() (out []string) {
					for _, f := range work {
						out = append(out, f())
					}
					return out
				}
				alone = append(alone, twice(t, all))
				tasks = append(tasks, all)
			}
			k.Nontrivial(total >= 8)
			if d := together(3, tasks, alone); d != "" {
				t.Fatalf("%s", d)
			}
		})
}

// work is what the goroutines of a process in which nothing ran before do.
func drawWork(t *rapid.T) [][]func() string {
	var all [][]func() string
	for i := rapid.IntRange(2, 8).Draw(t, "goroutines"); i > 0; i-- {
		var own []func() string
		for j := rapid.IntRange(1, 10).Draw(t, "pieces"); j > 0; j-- {
			_, f := drawTask(t)
			own = append(own, f)
		}
		all = append(all, own)
	}
	return all
}

// TestColdChild runs in a process of its own, started by TestC26_Cold.
func TestColdChild(t *testing.T) {
	seed := envInt("VP_COLD", -1)
	if seed < 0 {
		t.Skip("only as a child of TestC26_Cold")
	}
	os.Stdout = devNull
	var tasks []func() []string
	for _, own := range rapid.Custom(drawWork).Example(seed) {
		tasks = append(tasks, func() (out []string) {
			for _, f := range own {
				out = append(out, f())
			}
			return out
		})
	}
	first := make([][]string, len(tasks))
	var start, done sync.WaitGroup
	start.Add(1)
	for i, f := range tasks {
		done.Add(1)
		go func() {
			defer done.Done()
			start.Wait()
			first[i] = f()
		}()
	}
	start.Done()
	done.Wait()
	for i, f := range tasks {
		if d := diff(first[i], f()); d != "" {
			t.Fatalf("VP-VIOLATION goroutine %d of %d in a fresh process, %s", i, len(tasks), d)
		}
	}
}

func TestC26_Cold(t *testing.T) {
	check(t, "fresh processes in which 2-8 goroutines perform their own 1-10 generated pieces of work (as in TestC26_Functions) at once before anything else ran in the process, under the race detector, results compared with doing the same alone afterwards; every case is non-trivial",
		320, 8000, func(t *rapid.T, k *kase) {
			seed := rapid.IntRange(0, 1<<30).Draw(t, "seed")
			k.Desc("%d", seed)
			k.Nontrivial(true)
			cmd := exec.Command(os.Args[0], "-test.run", "^TestColdChild$", "-test.v")
			cmd.Env = append(os.Environ(), fmt.Sprintf("VP_COLD=%d", seed), "VP_STATS=", "GORACE=halt_on_error=0 exitcode=66 atexit_sleep_ms=20")
			out, err := cmd.CombinedOutput()
			if err != nil {
				if len(out) > 6000 {
					out = out[:6000]
				}
				t.Fatalf("work in a fresh process, seed %d: %v\n%s", seed, err, out)
			}
			if !bytes.Contains(out, []byte("--- PASS: TestColdChild")) {
				t.Fatalf("VP-HARNESS: %s", out)
			}
		})
}
