package harness

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
	"pgregory.net/rapid"
)

// A session drives one BaseDemuxer the way a container demuxer does, records what its
// consumer sees, and compares that with a model of the tracks and frames. Each of the
// properties C01-C05 asserts its own part of the comparison.

type container struct {
	name     string
	timebase int
	pack     avformat.PacketType
}

var containers = []container{
	{"flv", 1000, avformat.PacketTypeAVCC},
	{"ps", 90000, avformat.PacketTypeAnnexB},
	{"ts", 90000, avformat.PacketTypeAnnexB},
	{"jt1078", 1000, avformat.PacketTypeAnnexB},
}

var otherVideo = []utils.AVCodecID{utils.AVCodecIdVP8, utils.AVCodecIdMPEG4, utils.AVCodecIdFLV1}
var plainAudio = []utils.AVCodecID{utils.AVCodecIdPCMALAW, utils.AVCodecIdPCMMULAW, utils.AVCodecIdMP3, utils.AVCodecIdOPUS, utils.AVCodecIdADPCMG722}

// description is what an announced track should say.
type description struct {
	codec utils.AVCodecID
	data  []byte // extra data: exact bytes, or (units set) the start-code-delimited units
	units [][]byte
	w, h  int
	sets  [3][][]byte // VPS, SPS, PPS
	audio avformat.AudioConfig
}

// source is one elementary stream of the session.
type source struct {
	buffer  int
	video   bool
	codec   utils.AVCodecID
	vc      vcodec // for H.264, H.265
	coded   bool   // H.264 or H.265
	sps     []*paramSet
	vps     [][]byte
	pps     [][]byte
	adts    adts
	inBand  bool // AAC with headers in the stream
	clock   int64
	step    int64
	jitter  int64
	size    int
	monoton bool
	last    int64
	any     bool

	// C04: the frame being assembled in the buffer
	pending *frameModel
	pendOff int

	late bool // nothing of it arrives before probing has ended
}

type trackModel struct {
	index  int
	src    *source
	desc   description
	tb     int // its timebase
	frames []*frameModel
	sent   int // frames delivered so far (after completion: a prefix)
}

type frameModel struct {
	data     []byte // our own copy
	live     []byte // the bytes handed to the demuxer
	dts, pts int64
	key      bool
	codec    utils.AVCodecID // what it was fed as
	created  int64
	track    *trackModel
	duration int64

	sets   [3][]byte // parameter sets in the frame (last of each kind), key frames
	width  int
	height int
	parses bool
}

type packetShot struct {
	data                    []byte
	dts, pts, duration      int64
	key                     bool
	created                 int64
	buffer, index, timebase int
	media                   utils.AVMediaType
	codec                   utils.AVCodecID
	pack                    avformat.PacketType
}

func shoot(p *avformat.AVPacket) packetShot {
	return packetShot{clone(p.Data), p.Dts, p.Pts, p.Duration, p.Key, p.CreatedTime, p.BufferIndex, p.Index, p.Timebase, p.MediaType, p.CodecID, p.PacketType}
}

func (a packetShot) same(b packetShot) bool {
	x, y := a.data, b.data
	a.data, b.data = nil, nil
	return fmt.Sprint(a) == fmt.Sprint(b) && bytes.Equal(x, y)
}

func (a packetShot) String() string {
	return fmt.Sprintf("{%s dts=%d pts=%d dur=%d key=%v created=%d buffer=%d index=%d tb=%d media=%v codec=%v pack=%d}",
		brief(a.data), a.dts, a.pts, a.duration, a.key, a.created, a.buffer, a.index, a.timebase, a.media, a.codec, a.pack)
}

type event struct {
	kind   string // track complete none packet pre back head
	buffer int
	track  avformat.Track
	pkt    packetShot
	obj    *avformat.AVPacket
}

func (e event) String() string {
	switch e.kind {
	case "track":
		return fmt.Sprintf("track %d", e.track.GetStream().Index)
	case "packet", "pre":
		return e.kind + " " + e.pkt.String()
	case "head", "back":
		return fmt.Sprintf("%s %d", e.kind, e.buffer)
	}
	return e.kind
}

type abandoned struct{}

type session struct {
	t     *rapid.T
	k     *kase
	focus string
	box   container
	d     *avformat.BaseDemuxer
	real  avformat.DataPipeline // C04, C26: the library's own buffers
	asked int                   // the probing window asked for
	srcs  []*source

	log         []event // since the last operation began
	tracks      []*trackModel
	byBuffer    map[int]*trackModel
	done        bool
	announced   bool
	descs       []string // snapshots of the announced streams
	shown       []avformat.Track
	outstanding map[int][][]byte // blocks handed over per buffer, oldest first (recording pipeline)
	deferred    [][]byte
	held        map[int][]heldPacket // per buffer, consumer-released sessions
	pokes       bool                 // ask for completion again from within callbacks
	counter     int
	ops         int
	plain       bool  // nobody preprocesses the frames
	retime      int64 // preprocessing moves the times of frames down to multiples of it
	lateSeen    bool  // a stream came after the end of probing

	rec   *script                              // C26: the operations are also noted here
	dump  *avformat.OnUnpackStream2FileHandler // C27: the deliveries also go here
	files []*dumped
}

type heldPacket struct {
	obj  *avformat.AVPacket
	shot packetShot
}

// fail reports a violation of the given properties; if the session checks another
// property, it is abandoned quietly: the state is no longer the model's.
func (s *session) fail(props string, format string, args ...any) {
	if strings.Contains(props, s.focus) {
		s.t.Helper()
		s.t.Fatalf(format, args...)
	}
	panic(abandoned{})
}

// note is fail for a mismatch after which the model still holds: a session that checks
// another property goes on.
func (s *session) note(props string, format string, args ...any) {
	if strings.Contains(props, s.focus) {
		s.t.Helper()
		s.t.Fatalf(format, args...)
	}
	s.k.Label("mismatch of another property")
}

// late adds C01 to the properties broken once a stream came too late: it must not
// disturb the others.
func (s *session) late() string {
	if s.lateSeen {
		return " C01"
	}
	return ""
}

// ---- what the consumer sees ----------------------------------------------------

func (s *session) poke() {
	if s.pokes {
		s.d.ProbeComplete()
		s.d.OnProbeComplete()
		s.d.TryCompleteProbe()
	}
}

func (s *session) OnNewTrack(track avformat.Track) {
	s.log = append(s.log, event{kind: "track", track: track})
	if s.dump != nil {
		st := track.GetStream()
		f := &dumped{ls: 4, video: st.MediaType == utils.AVMediaTypeVideo}
		media := "audio"
		if f.video {
			media = "video"
			f.coded = st.CodecParameters != nil
			if st.CodecID == utils.AVCodecIdH265 {
				f.vc = h265
			}
		}
		if f.coded {
			f.extra = clone(st.CodecParameters.AnnexBExtraData())
		}
		f.name = dumpName(media, len(s.files), st.CodecID)
		s.files = append(s.files, f)
		s.dump.OnNewTrack(track)
	}
	s.poke()
}
func (s *session) OnTrackComplete() { s.log = append(s.log, event{kind: "complete"}); s.poke() }
func (s *session) OnTrackNotFind()  { s.log = append(s.log, event{kind: "none"}); s.poke() }
func (s *session) OnPacket(p *avformat.AVPacket) {
	s.log = append(s.log, event{kind: "packet", pkt: shoot(p), obj: p})
	if s.dump != nil && p.Index < len(s.files) {
		f := s.files[p.Index]
		f.pkts = append(f.pkts, dumpedPacket{clone(p.Data), p.Key, p.PacketType})
		s.dump.OnPacket(p)
	}
	s.poke()
}

// pipe is the pipeline the demuxer releases memory through.
type pipe struct{ s *session }

func (p pipe) Write(data []byte, index int, m utils.AVMediaType) (int, error) {
	return p.s.real.Write(data, index, m)
}
func (p pipe) Fetch(index int) ([]byte, error) { return p.s.real.Fetch(index) }
func (p pipe) PendingBlockSize(index int) int {
	if p.s.real == nil {
		return 0
	}
	return p.s.real.PendingBlockSize(index)
}

// scribble overwrites memory that was given back: nobody may look at it any more.
func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0xA5
	}
}

func (p pipe) DiscardBackPacket(index int) {
	s := p.s
	s.log = append(s.log, event{kind: "back", buffer: index})
	if s.real != nil {
		s.real.DiscardBackPacket(index)
		return
	}
	o := s.outstanding[index]
	if len(o) == 0 {
		s.fail("C04", "buffer %d: the newest block is released, but none is outstanding", index)
	}
	scribble(o[len(o)-1])
	s.outstanding[index] = o[:len(o)-1]
}

func (p pipe) DiscardHeadPacket(index int) {
	s := p.s
	s.log = append(s.log, event{kind: "head", buffer: index})
	if s.real != nil {
		s.real.DiscardHeadPacket(index)
		return
	}
	o := s.outstanding[index]
	if len(o) == 0 {
		s.fail("C04", "buffer %d: the oldest block is released, but none is outstanding", index)
	}
	monotonic := false
	for _, src := range s.srcs {
		if src.buffer == index {
			monotonic = src.monoton
		}
	}
	if monotonic {
		scribble(o[0])
	} else if s.d.AutoFree { // decode times went back: delivery order is not arrival order

		s.deferred = append(s.deferred, o[0])
	}
	s.outstanding[index] = o[1:]
}

// ---- generation ----------------------------------------------------------------

// newSession draws a demuxer and its streams; real puts the library's own buffers
// behind it instead of a recording pipeline.
func newSession(t *rapid.T, k *kase, focus string, real bool) *session {
	s := &session{t: t, k: k, focus: focus, byBuffer: map[int]*trackModel{}, outstanding: map[int][][]byte{}, held: map[int][]heldPacket{}}
	s.box = rapid.SampledFrom(containers).Draw(t, "container")
	s.d = &avformat.BaseDemuxer{Name: s.box.name}
	s.d.AutoFree = rapid.IntRange(0, 2).Draw(t, "autoFree") != 2
	if real && focus == "C26" {
		s.real = &smallStreams{}
	} else if real {
		s.real = &avformat.StreamsBuffer{}
	}
	s.d.DataPipeline = pipe{s}
	s.d.SetHandler(s)
	window := rapid.SampledFrom([]int{0, 200, 300, 500, 100, 201, 1000, 2000, 199, 5000, -1, math.MaxInt32}).Draw(t, "window")
	if window != 0 || rapid.Bool().Draw(t, "setWindow") {
		s.d.SetProbeDuration(window)
	}
	s.asked = window
	if focus == "C26" {
		s.rec = &script{name: s.box.name, window: window, autoFree: s.d.AutoFree}
	}
	if s.rec == nil && rapid.IntRange(0, 11).Draw(t, "retime") == 7 {
		s.retime = rapid.SampledFrom([]int64{3600, 7, 40, 900, 90000}).Draw(t, "grid")
	}
	if s.plain = s.rec == nil && rapid.IntRange(0, 9).Draw(t, "plain") == 7; !s.plain {
		s.d.SetOnPreprocessPacketHandler(func(p *avformat.AVPacket) {
			s.counter++
			p.CreatedTime = int64(s.counter)
			if s.retime > 0 {
				p.Dts, p.Pts = s.retimed(p.Dts, p.Pts)
			}
			s.log = append(s.log, event{kind: "pre", pkt: shoot(p), obj: p})
		})
	}
	s.pokes = rapid.IntRange(0, 2).Draw(t, "poke") == 0

	buffers := rapid.Permutation([]int{0, 1, 2, 3, 4, 5}).Draw(t, "buffers")
	n := rapid.SampledFrom([]int{2, 1, 3, 0, 2, 4, 5}).Draw(t, "sources")
	if rapid.IntRange(0, 199).Draw(t, "crowd") == 117 { // many streams
		n = rapid.SampledFrom([]int{9, 12, 17, 20}).Draw(t, "crowdSize")
		for b := 6; b < n; b++ {
			buffers = append(buffers, b)
		}
		k.Label("9+ streams")
	}
	scale := 1
	if real && focus != "C26" {
		scale = rapid.SampledFrom([]int{1, 300, 20, 1000, 60}).Draw(t, "scale")
	}
	for i := 0; i < n; i++ {
		src := &source{buffer: buffers[i], monoton: true}
		src.video = rapid.Bool().Draw(t, "video")
		if src.video {
			switch rapid.IntRange(0, 6).Draw(t, "vcodec") {
			case 6:
				src.codec = rapid.SampledFrom(otherVideo).Draw(t, "other")
			case 3, 4, 5:
				src.vc = h265
				src.codec, src.coded = src.vc.id(), true
			default:
				src.codec, src.coded = src.vc.id(), true
			}
			if src.coded {
				for j := rapid.IntRange(1, 2).Draw(t, "variants"); j > 0; j-- {
					src.sps = append(src.sps, src.vc.sps(t))
					if src.vc == h265 {
						src.vps = append(src.vps, src.vc.nal(t, 32, 20))
						src.pps = append(src.pps, src.vc.nal(t, 34, 12))
					} else {
						src.pps = append(src.pps, src.vc.nal(t, 8, 12))
					}
				}
			}
		} else {
			c := rapid.IntRange(0, 7).Draw(t, "acodec")
			if focus == "C03" || focus == "C05" {
				c = rapid.IntRange(3, 9).Draw(t, "acodecBias")
			}
			switch {
			case c == 6 || c == 8:
				src.codec = utils.AVCodecIdPCMS16LE
			case c == 7 || c == 9:
				src.codec = utils.AVCodecIdADPCMG726
			case c <= 3:
				src.codec = utils.AVCodecIdAAC
				src.adts = drawADTS(t)
				src.inBand = s.box.name != "flv" && rapid.IntRange(0, 3).Draw(t, "inBand") != 3
			default:
				src.codec = rapid.SampledFrom(plainAudio).Draw(t, "plain")
			}
		}
		if i > 0 && rapid.IntRange(0, 4).Draw(t, "late") == 4 {
			// one that comes too late, often with the codec of another
			src.late = true
			if twin := s.srcs[rapid.IntRange(0, i-1).Draw(t, "twin")]; rapid.Bool().Draw(t, "sameCodec") {
				*src = *twin
				src.buffer, src.late = buffers[i], true
			}
		}
		src.clock = rapid.SampledFrom([]int64{0, 0, 40, 90000, 1 << 33, -5000, 1 << 40}).Draw(t, "base")
		ms := rapid.SampledFrom([]int64{40, 20, 33, 10, 100, 23, 0, 1, 200, 250}).Draw(t, "stepMs")
		src.step = ms * int64(s.box.timebase) / 1000
		if s.box.timebase == 90000 && rapid.Bool().Draw(t, "fractional") {
			src.step += int64(rapid.IntRange(-45, 45).Draw(t, "fraction"))
		}
		src.jitter = rapid.SampledFrom([]int64{0, 0, 0, 3, 1000, 9000}).Draw(t, "jitter")
		src.size = rapid.SampledFrom([]int{20, 0, 160, 320, 640, 40, 60, 80, 100, 1280, 4}).Draw(t, "frameSize") * scale
		if (src.codec == utils.AVCodecIdPCMS16LE || src.codec == utils.AVCodecIdADPCMG726) && rapid.Bool().Draw(t, "nominal") {
			perMs := rapid.SampledFrom([]int{16, 32, 64, 96}).Draw(t, "pcmRate")
			if src.codec == utils.AVCodecIdADPCMG726 {
				perMs = rapid.SampledFrom([]int{2, 3, 4, 5}).Draw(t, "g726Rate")
			}
			src.size = max(4, int(ms)*perMs+rapid.SampledFrom([]int{0, 0, -1, 1, int(ms)}).Draw(t, "off"))
		}
		s.srcs = append(s.srcs, src)
	}
	k.Desc("%s window=%d autofree=%v:", s.box.name, window, s.d.AutoFree)
	k.Label("%s", s.box.name)
	return s
}

func (s *session) window() int64 { return int64(max(s.asked, 200)) }

// nextTs draws the next frame's timestamps.
func (s *session) nextTs(src *source) (dts, pts int64) {
	t := s.t
	dts = src.clock
	if src.any {
		d := src.step
		if src.jitter > 0 {
			d += rapid.Int64Range(-src.jitter/3, src.jitter).Draw(t, "d")
		}
		switch rapid.IntRange(0, 39).Draw(t, "tsOdd") {
		case 37:
			d = 0
		case 38:
			d = -rapid.Int64Range(1, 20000).Draw(t, "back")
		case 39:
			d = rapid.Int64Range(1, 1<<31).Draw(t, "jump")
			switch rapid.IntRange(0, 3).Draw(t, "wrap") {
			case 2: // the clock of the container wraps around
				d += -1 << rapid.SampledFrom([]int{33, 32, 33, 34}).Draw(t, "wrapBits")
			case 3:
				d += 1 << rapid.SampledFrom([]int{33, 32, 36}).Draw(t, "farBits")
			}
		}
		dts = src.clock + d
		if d < 0 && s.real != nil && !s.d.AutoFree {
			d, dts = 0, src.clock // packets are released in delivery order, memory in arrival order
		}
		if d < 0 {
			src.monoton = false
		}
	}
	src.any = true
	src.clock = dts
	pts = dts
	if src.video {
		pts += rapid.SampledFrom([]int64{0, src.step, 2 * src.step, -1, 3600}).Draw(t, "ptsOff")
	}
	return
}

func (s *session) stamp() []byte {
	s.counter++
	return []byte{byte(s.counter), byte(s.counter >> 8), 0x77}
}

// videoFrame draws a frame of a video source.
func (s *session) videoFrame(src *source) *frameModel {
	t := s.t
	f := &frameModel{}
	kind := rapid.SampledFrom([]int{0, 2, 2, 1, 2, 0, 2, 3, 2, 4, 5, 2}).Draw(t, "kind")
	if kind == 5 && s.dump != nil && s.box.pack == avformat.PacketTypeAVCC {
		kind = 2 // what a dump makes of a malformed payload is not specified
	}
	if kind == 5 || !src.coded {
		f.key = rapid.Bool().Draw(t, "key")
		f.data = blobUpTo(t, "opaque", 0, src.size)
		if !src.coded || s.real != nil {
			f.data = append(f.data, s.stamp()...)
		}
		if src.coded && f.key {
			// no start code in it, so no parameter sets either
			f.data = bytes.ReplaceAll(f.data, []byte{0, 0, 1}, []byte{0, 0, 2})
		}
		return f
	}
	c := src.vc
	var nals [][]byte
	slice := 1
	if kind != 2 {
		slice = c.idr()
		f.key = true
	}
	if kind == 0 || kind == 3 || kind == 4 {
		i := rapid.IntRange(0, len(src.sps)-1).Draw(t, "variant")
		spsUnit := src.sps[i].nal
		f.parses = true
		if kind == 4 {
			spsUnit = []byte{0x67, 0x64}
			if c == h265 {
				spsUnit = []byte{0x42, 0x01, 0x01}
			}
			f.parses = false
		}
		sets := [][]byte{nil, spsUnit, src.pps[i]}
		if c == h265 {
			sets[0] = src.vps[i]
		}
		if kind == 3 {
			drop := rapid.IntRange(1, 2).Draw(t, "missing")
			if c == h265 {
				drop = rapid.IntRange(0, 2).Draw(t, "missingKind")
			}
			sets[drop] = nil
		}
		f.width, f.height = src.sps[i].width, src.sps[i].height
		for _, j := range rapid.Permutation([]int{0, 1, 2}).Draw(t, "order") {
			if sets[j] == nil {
				continue
			}
			if rapid.IntRange(0, 7).Draw(t, "twice") == 7 { // an older set of the same kind; the last one counts
				nals = append(nals, append(clone(sets[j][:2]), 0x51, 0x80))
			}
			nals = append(nals, sets[j])
		}
		for j := range sets {
			f.sets[j] = sets[j]
		}
	}
	nals = append(nals, mkNal(c.header(t, slice), append(blobUpTo(t, "slice", 0, src.size), s.stamp()...)))
	if rapid.IntRange(0, 11).Draw(t, "keyFlagOff") == 11 {
		f.key = !f.key
	}
	if s.box.pack == avformat.PacketTypeAVCC {
		f.data = avcc(nals, 4)
	} else {
		f.data = annexB(t, nals)
	}
	return f
}

// complete reports whether the frame holds every parameter set kind.
func (f *frameModel) complete(c vcodec) bool {
	return (c == h264 || f.sets[0] != nil) && f.sets[1] != nil && f.sets[2] != nil
}

func (s *session) audioFrame(src *source) *frameModel {
	t := s.t
	n := src.size
	if rapid.IntRange(0, 4).Draw(t, "oddSize") == 4 {
		n = size(t, "audioSize", 0, 400)
	}
	f := &frameModel{data: blob(t, "audio", n), parses: true}
	if s.real != nil || rapid.Bool().Draw(t, "stamped") {
		copy(f.data, s.stamp())
	}
	if src.codec == utils.AVCodecIdAAC && src.inBand {
		f.data = append(src.adts.write(), f.data...)
		switch rapid.IntRange(0, 9).Draw(t, "adtsBroken") {
		case 8:
			f.data[0] ^= 0x10
			f.parses = false
		case 9:
			f.data = f.data[:rapid.IntRange(0, 6).Draw(t, "cut")]
			f.parses = false
		}
	} else if src.codec == utils.AVCodecIdAAC {
		f.parses = len(f.data) >= 7 && f.data[0] == 0xFF && f.data[1]&0xF0 == 0xF0 // never by chance in what follows
		if f.parses {
			f.data[0] = 0
			f.parses = false
		}
	}
	return f
}

// ---- the model ------------------------------------------------------------------

func (s *session) findCodec(id utils.AVCodecID) *trackModel {
	for _, tr := range s.tracks {
		if tr.desc.codec == id {
			return tr
		}
	}
	return nil
}

func (s *session) hasMedia(video bool) bool {
	for _, tr := range s.tracks {
		if tr.src.video == video {
			return true
		}
	}
	return false
}

func (s *session) add(src *source, d description) *trackModel {
	tr := &trackModel{index: len(s.tracks), src: src, desc: d, tb: s.box.timebase}
	s.tracks = append(s.tracks, tr)
	s.byBuffer[src.buffer] = tr
	return tr
}

// admit decides whether a frame is accepted, creating its track if it does.
func (s *session) admit(src *source, f *frameModel) *trackModel {
	tr := s.byBuffer[src.buffer]
	if tr != nil || s.done {
		return tr
	}
	if !src.video {
		if src.codec == utils.AVCodecIdAAC {
			if !f.parses {
				return nil
			}
			a := src.adts
			return s.add(src, description{codec: src.codec, data: refASC(a.profile+1, a.freq, a.chans),
				audio: avformat.AudioConfig{SampleRate: aacRates[a.freq], Channels: aacChannels[a.chans], SampleSize: 16, HasADTSHeader: true}})
		}
		return s.add(src, description{codec: src.codec, audio: avformat.AudioConfig{SampleRate: 8000, SampleSize: 16, Channels: 1}})
	}
	if s.box.pack != avformat.PacketTypeAnnexB {
		return nil
	}
	if f.key && src.coded && f.complete(src.vc) {
		if !f.parses {
			return nil
		}
		d := description{codec: src.codec, w: f.width, h: f.height}
		for i, u := range f.sets {
			if u != nil {
				d.sets[i] = [][]byte{u}
				d.units = append(d.units, u)
			}
		}
		return s.add(src, d)
	}
	if old := s.findCodec(src.codec); old != nil {
		return s.add(src, old.desc)
	}
	return nil
}

// ---- operations -----------------------------------------------------------------

// hand gives bytes to the demuxer's buffer and returns the slice to pass on.
func (s *session) hand(src *source, data []byte) []byte {
	if s.real != nil {
		media := utils.AVMediaTypeAudio
		if src.video {
			media = utils.AVMediaTypeVideo
		}
		s.rec.write(src.buffer, data, media, true)
		_, _ = s.d.DataPipeline.Write(data, src.buffer, media)
		b, err := s.d.DataPipeline.Fetch(src.buffer)
		if err != nil || !bytes.Equal(b, data) {
			s.fail("C04", "buffer %d: fetched %s (%v), want %s", src.buffer, brief(b), err, brief(data))
		}
		return b
	}
	b := clone(data)
	if data != nil && b == nil {
		b = []byte{}
	}
	s.outstanding[src.buffer] = append(s.outstanding[src.buffer], b)
	return b
}

// begin opens an operation, end compares everything seen during it.
func (s *session) begin() { s.log = nil; s.deferred = nil; s.ops++ }

func (s *session) feed(src *source) {
	var f *frameModel
	if src.video {
		f = s.videoFrame(src)
	} else {
		f = s.audioFrame(src)
	}
	f.dts, f.pts = s.nextTs(src)
	if s.real != nil && len(f.data) == 0 && rapid.IntRange(0, 3).Draw(s.t, "empty") != 3 {
		f.data = s.stamp()
		f.parses = false
	}
	if s.real != nil && len(f.data) > 0 && rapid.IntRange(0, 1).Draw(s.t, "assemble") == 1 {
		src.pending, src.pendOff = f, 0
		return
	}
	s.submit(src, f, s.hand(src, f.data))
}

// burst feeds many small frames of a stream in a row.
func (s *session) burst(src *source) {
	t := s.t
	n := rapid.SampledFrom([]int{70, 20, 140, 300}).Draw(t, "burst")
	step := rapid.SampledFrom([]int64{src.step, 1, 0, int64(s.box.timebase) / 1000}).Draw(t, "burstStep")
	if step < 0 && s.real != nil && !s.d.AutoFree {
		step = 0 // as in nextTs
	}
	if step < 0 {
		src.monoton = false
	}
	s.k.Label("burst")
	for ; n > 0; n-- {
		f := &frameModel{parses: true}
		switch {
		case src.coded:
			head := []byte{0x41}
			if src.vc == h265 {
				head = []byte{0x02, 0x01}
			}
			u := append(append(head, 0x9A), s.stamp()...)
			if s.box.pack == avformat.PacketTypeAVCC {
				f.data = avcc([][]byte{u}, 4)
			} else {
				f.data = append([]byte{0, 0, 1}, u...)
			}
		case src.codec == utils.AVCodecIdAAC && src.inBand:
			f.data = append(src.adts.write(), s.stamp()...)
		default:
			f.data = append(s.stamp(), 0x55, 0x55, 0x55, 0x55)
			f.parses = src.codec != utils.AVCodecIdAAC
		}
		if src.any {
			src.clock += step
		}
		src.any = true
		f.dts, f.pts = src.clock, src.clock
		s.submit(src, f, s.hand(src, f.data))
	}
}

// fragment writes the next part of the frame under assembly, and submits it when whole.
func (s *session) fragment(src *source) {
	f := src.pending
	n := rapid.IntRange(1, len(f.data)-src.pendOff).Draw(s.t, "fragment")
	if rapid.Bool().Draw(s.t, "rest") {
		n = len(f.data) - src.pendOff
	}
	media := utils.AVMediaTypeAudio
	if src.video {
		media = utils.AVMediaTypeVideo
	}
	part := clone(f.data[src.pendOff : src.pendOff+n])
	s.rec.write(src.buffer, part, media, src.pendOff+n == len(f.data))
	_, _ = s.d.DataPipeline.Write(part, src.buffer, media)
	scribble(part)
	src.pendOff += n
	if got := s.d.DataPipeline.PendingBlockSize(src.buffer); got != src.pendOff {
		s.fail("C04", "buffer %d: %d bytes pending, want %d", src.buffer, got, src.pendOff)
	}
	if src.pendOff < len(f.data) {
		return
	}
	b, err := s.d.DataPipeline.Fetch(src.buffer)
	if err != nil || !bytes.Equal(b, f.data) {
		s.fail("C04", "buffer %d: fetched %s (%v), want %s", src.buffer, brief(b), err, brief(f.data))
	}
	src.pending = nil
	s.submit(src, f, b)
}

func (s *session) submit(src *source, f *frameModel, live []byte) {
	s.begin()
	f.live = live
	known := s.byBuffer[src.buffer] != nil
	doneBefore := s.done
	f.codec = src.codec
	if known && s.rec == nil && s.dump == nil && rapid.IntRange(0, 59).Draw(s.t, "otherCodec") == 41 {
		f.codec = rapid.SampledFrom([]utils.AVCodecID{utils.AVCodecIdH264, utils.AVCodecIdH265, utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW, utils.AVCodecIdPCMS16LE}).Draw(s.t, "fedAs")
		s.k.LabelIf(f.codec != src.codec, "frame of another codec")
	}
	tr := s.admit(src, f)
	s.k.Desc(" %s%d(%v %d@%d)", map[bool]string{true: "v", false: "a"}[src.video], src.buffer, src.codec, len(f.data), f.dts)
	s.rec.frame(src, f, s.box.pack)
	if src.video {
		s.d.OnVideoPacket(src.buffer, f.codec, f.live, f.key, f.dts, f.pts, s.box.pack)
	} else {
		f.key, f.pts = false, f.dts
		s.d.OnAudioPacket(src.buffer, f.codec, f.live, f.dts)
	}
	if tr == nil {
		s.k.LabelIf(doneBefore, "late stream refused")
		s.k.LabelIf(!doneBefore, "frame refused while probing")
		s.quiet("a refused frame")
		s.expectBack(src.buffer, "a refused frame")
		s.lateSeen = s.lateSeen || doneBefore
		s.end()
		return
	}
	s.k.LabelIf(!known, "track from a frame")
	f.track = tr
	if src.video && !s.plain && s.retime > 0 {
		s.k.LabelIf(f.dts%s.retime != 0, "times changed by preprocessing")
		f.dts, f.pts = s.retimed(f.dts, f.pts)
	}
	if n := len(tr.frames); n > 0 {
		p := tr.frames[n-1]
		p.duration = f.dts - p.dts
	}
	tr.frames = append(tr.frames, f)
	s.preprocessed(f)
	for _, e := range s.log {
		if e.kind == "back" {
			s.note("C04 C02", "accepted frame %s@%d: its memory is taken back", brief(f.data), f.dts)
		}
	}
	if doneBefore {
		var due []*frameModel
		if n := len(tr.frames); n > 1 {
			due = tr.frames[n-2 : n-1]
		}
		s.delivered(s.log, due, false)
		s.end()
		return
	}
	// probing: does this frame end it?
	var span int64
	for i := 0; i+1 < len(tr.frames); i++ {
		span += (tr.frames[i+1].dts - tr.frames[i].dts) * 1000 / int64(tr.tb)
	}
	w := s.window()
	covered := len(tr.frames) > 1 && span >= w
	ended := s.sawEnd()
	if covered != ended {
		s.note("C03", "%d frames of track %d span %d ms, the window is %d ms, probing has ended: %v", len(tr.frames), tr.index, span, w, ended)
	}
	s.k.LabelIf(ended, "window reached")
	s.afterProbing(ended)
	s.end()
}

// retimed is what preprocessing makes of the times of a frame.
func (s *session) retimed(dts, pts int64) (int64, int64) {
	d := dts % s.retime
	return dts - d, pts - d
}

// preprocessed checks the preprocessing callback for an accepted frame.
func (s *session) preprocessed(f *frameModel) {
	n := 0
	for i, e := range s.log {
		if e.kind != "pre" {
			continue
		}
		n++
		f.created = e.pkt.created
		if want := s.shotOf(f); !want.same(withDuration(e.pkt, want.duration)) {
			s.note("C02", "preprocessing sees %v, want %v", e.pkt, want)
		}
		for _, b := range s.log[:i] {
			if b.kind == "packet" && b.obj == e.obj && s.d.AutoFree == false {
				s.note("C02", "%v is preprocessed after its delivery", e.pkt)
			}
		}
	}
	want := 0
	if f.track.src.video && !s.plain {
		want = 1
	}
	if n != want {
		s.note("C02", "a frame of track %d is preprocessed %d times, want %d", f.track.index, n, want)
	}
}

func withDuration(p packetShot, d int64) packetShot { p.duration = d; return p }

// shotOf is the packet the consumer should see for a frame.
func (s *session) shotOf(f *frameModel) packetShot {
	src := f.track.src
	p := packetShot{data: f.data, dts: f.dts, pts: f.pts, duration: f.duration, key: f.key, created: f.created,
		buffer: src.buffer, index: f.track.index, timebase: f.track.tb, codec: f.codec, media: utils.AVMediaTypeAudio, pack: avformat.PacketTypeNONE}
	if src.video {
		p.media, p.pack = utils.AVMediaTypeVideo, s.box.pack
	}
	return p
}

func (s *session) sawEnd() bool {
	for _, e := range s.log {
		if e.kind == "complete" || e.kind == "none" {
			return true
		}
	}
	return false
}

// quiet asserts that the operation announced and delivered nothing.
func (s *session) quiet(what string) {
	for _, e := range s.log {
		switch e.kind {
		case "track", "complete", "none":
			s.note("C01", "%s leads to %v", what, e)
		case "packet":
			s.note("C01 C02", "%s leads to %v", what, e)
		case "pre":
			s.note("C02", "%s leads to %v", what, e)
		case "head":
			s.note("C04", "%s leads to %v", what, e)
		}
	}
}

func (s *session) expectBack(buffer int, what string) {
	n := 0
	for _, e := range s.log {
		if e.kind == "back" {
			n++
			if e.buffer != buffer {
				s.note("C04", "%s on buffer %d releases memory of buffer %d", what, buffer, e.buffer)
			}
		}
	}
	if n != 1 {
		s.note("C04", "%s on buffer %d: its memory is taken back %d times", what, buffer, n)
	}
}

// afterProbing checks what an operation during probing led to.
func (s *session) afterProbing(ended bool) {
	if !ended {
		for _, e := range s.log {
			switch e.kind {
			case "track", "packet":
				s.fail("C01", "probing is in progress, but the consumer sees %v", e)
			case "head":
				s.note("C04", "nothing was delivered, but the memory of buffer %d is released", e.buffer)
			}
		}
		return
	}
	s.done = true
	s.k.Label("probing ended with %d tracks", len(s.tracks))
	if len(s.tracks) == 0 {
		for _, e := range s.log {
			if e.kind == "track" || e.kind == "complete" || e.kind == "packet" {
				s.fail("C01", "no track was found, but the consumer sees %v", e)
			}
		}
		if s.count("none") != 1 {
			s.fail("C01", "no track was found, and the consumer is told so %d times", s.count("none"))
		}
		return
	}
	if s.count("none") != 0 || s.count("complete") != 1 {
		s.fail("C01", "%d tracks were found; the consumer is told %d times that there is none and %d times that they are complete", len(s.tracks), s.count("none"), s.count("complete"))
	}
	next, complete := 0, false
	var rest []event
	for _, e := range s.log {
		switch e.kind {
		case "track":
			st := e.track.GetStream()
			if complete || st == nil || st.Index != next || next >= len(s.tracks) {
				s.fail("C01 C05", "track %d of %d is announced as number %d (end of tracks already announced: %v)", st.Index, len(s.tracks), next, complete)
			}
			s.describe(s.tracks[next], st)
			s.shown = append(s.shown, e.track)
			s.descs = append(s.descs, streamText(st))
			next++
		case "complete":
			if next != len(s.tracks) {
				s.fail("C01", "end of tracks after %d of %d", next, len(s.tracks))
			}
			complete = true
		case "packet":
			if !complete {
				s.fail("C01", "%v before the end of tracks", e)
			}
		}
		if e.kind == "packet" || e.kind == "head" {
			rest = append(rest, e)
		}
	}
	s.announced = true
	var due []*frameModel
	for _, tr := range s.tracks {
		if n := len(tr.frames); n > 1 {
			due = append(due, tr.frames[:n-1]...)
		}
	}
	s.k.LabelIf(len(due) > 1, "several frames flushed")
	s.delivered(rest, due, true)
}

func (s *session) count(kind string) (n int) {
	for _, e := range s.log {
		if e.kind == kind {
			n++
		}
	}
	return
}

// delivered compares the deliveries in a log with the frames due, in arrival order per track.
func (s *session) delivered(log []event, due []*frameModel, flush bool) {
	per := map[int][]*frameModel{}
	for _, f := range due {
		per[f.track.index] = append(per[f.track.index], f)
	}
	if flush {
		for _, l := range per {
			sort.SliceStable(l, func(i, j int) bool { return l[i].dts < l[j].dts })
		}
	}
	var last *packetShot
	heads := 0
	seen := 0
	for i := range log {
		e := log[i]
		switch e.kind {
		case "track", "complete", "none":
			if !flush {
				s.fail("C01", "probing has ended before, but the consumer sees %v", e)
			}
		case "packet":
			seen++
			p := e.pkt
			if s.d.AutoFree && last != nil && heads != 1 {
				s.note("C04", "%v is delivered, %d blocks were released after the delivery before it", e, heads)
			}
			heads = 0
			l := per[p.index]
			if len(l) == 0 {
				s.note("C02"+s.late(), "unexpected delivery %v", e)
				last = &p
				continue
			}
			want := s.shotOf(l[0])
			if !bytes.Equal(p.data, want.data) {
				if len(p.data) != len(want.data) || p.dts != want.dts {
					s.note("C02 C04"+s.late(), "delivered %v, want %v", p, want)
				}
				s.note("C02 C04"+s.late(), "delivered %v with payload %s, want %s", p, brief(p.data), brief(want.data))
			}
			if p.duration != want.duration {
				s.note("C03", "%v has duration %d, the decode time of the next frame is %d later", p, p.duration, want.duration)
			}
			p.duration = want.duration
			if p.pack == 0 && p.media == utils.AVMediaTypeAudio {
				p.pack = avformat.PacketTypeNONE
			}
			if !want.same(p) {
				s.note("C02"+s.late(), "delivered %v, want %v", p, want)
			}
			if flush && last != nil && last.dts > p.dts {
				s.note("C02", "at the end of probing %v is delivered after %v", p, *last)
			}
			per[p.index] = l[1:]
			last = &p
			if !s.d.AutoFree {
				s.held[p.buffer] = append(s.held[p.buffer], heldPacket{e.obj, shoot(e.obj)})
			}
		case "head":
			heads++
			if !s.d.AutoFree {
				s.note("C04", "memory of buffer %d is released by a demuxer without automatic release", e.buffer)
			}
			if last == nil || e.buffer != last.buffer {
				s.note("C04", "memory of buffer %d is released, last delivery was %v", e.buffer, last)
			}
		}
	}
	if s.d.AutoFree && last != nil && heads != 1 {
		s.note("C04", "%d blocks were released after the delivery of %v", heads, *last)
	}
	if seen != len(due) {
		s.note("C02"+s.late(), "%d frames are delivered, want %d: %v", seen, len(due), log)
	}
}

// end closes an operation: memory released late is now overwritten.
func (s *session) end() {
	for _, b := range s.deferred {
		scribble(b)
	}
	s.deferred = nil
}

// release hands delivered packets back, oldest of a buffer first.
func (s *session) release(buffer int) {
	h := s.held[buffer]
	if len(h) == 0 {
		return
	}
	if now := shoot(h[0].obj); !now.same(h[0].shot) {
		s.note("C04 C02", "a delivered packet changed from %v to %v before it was released", h[0].shot, now)
	}
	s.begin()
	s.rec.release(buffer)
	s.d.DiscardHeadPacket(buffer)
	avformat.FreePacket(h[0].obj)
	s.held[buffer] = h[1:]
	s.quietExceptHead(buffer)
	s.end()
}

// takeBack writes a frame and changes its mind: the block is taken back unsubmitted.
func (s *session) takeBack(src *source) {
	s.begin()
	s.hand(src, s.stamp())
	s.d.DiscardBackPacket(src.buffer)
	s.k.Label("written frame taken back")
	s.quiet("a frame taken back")
	s.expectBack(src.buffer, "a frame taken back")
	s.end()
}

func (s *session) quietExceptHead(buffer int) {
	if len(s.log) != 1 || s.log[0].kind != "head" || s.log[0].buffer != buffer {
		s.note("C04", "releasing a packet of buffer %d leads to %v", buffer, s.log)
	}
}

// soft and hard ask for completion.
func (s *session) soft() {
	s.begin()
	s.k.Desc(" soft")
	need := false
	for _, tr := range s.tracks {
		if (tr.desc.codec == utils.AVCodecIdPCMS16LE || tr.desc.codec == utils.AVCodecIdADPCMG726) && len(tr.frames) < 2 {
			need = true
		}
	}
	s.rec.complete(true)
	s.d.TryCompleteProbe()
	if s.done {
		s.quietAll("a repeated soft completion request")
		s.end()
		return
	}
	ended := s.sawEnd()
	if need && ended {
		s.note("C03", "a soft completion request is honoured although a raw PCM or G.726 track has fewer than two frames")
	}
	if !need && !ended {
		s.note("C03", "a soft completion request is ignored although no raw PCM or G.726 track lacks frames")
	}
	s.k.LabelIf(need, "soft request ignored")
	s.k.LabelIf(!need, "soft request honoured")
	s.afterProbing(ended)
	s.end()
}

func (s *session) hard() {
	s.begin()
	s.k.Desc(" hard")
	s.rec.complete(false)
	switch rapid.IntRange(0, 1).Draw(s.t, "hardKind") {
	case 0:
		s.d.ProbeComplete()
	default:
		s.d.OnProbeComplete()
	}
	if s.done {
		s.quietAll("a repeated completion request")
		s.end()
		return
	}
	if !s.sawEnd() {
		s.fail("C01 C03", "a completion request is ignored")
	}
	s.afterProbing(true)
	s.end()
}

func (s *session) quietAll(what string) {
	s.quiet(what)
	if s.count("back") > 0 {
		s.note("C01 C04", "%s releases memory", what)
	}
}

// declare announces a stream out of band, as a sequence header or program map does.
func (s *session) declare(src *source) {
	t := s.t
	known := s.byBuffer[src.buffer]
	tb := s.box.timebase
	if rapid.IntRange(0, 5).Draw(t, "ownClock") == 5 {
		tb = rapid.SampledFrom([]int{1000, 90000, 48000, 44100, 8000, 1, 1000000}).Draw(t, "timebase")
		s.k.Label("declared with another timebase")
	}
	d := description{codec: src.codec}
	var extra []byte
	parses := true
	bad := rapid.IntRange(0, 5).Draw(t, "badDescription") == 5
	switch {
	case src.coded && s.box.pack == avformat.PacketTypeAVCC:
		var lists [3][][]byte
		for i := range src.sps {
			lists[1] = append(lists[1], src.sps[i].nal)
			lists[2] = append(lists[2], src.pps[i])
			if src.vc == h265 {
				lists[0] = append(lists[0], src.vps[i])
			}
		}
		end := 0
		if src.vc == h264 {
			p := src.sps[0]
			extra, end = refAvcRecord(byte(p.profile), byte(p.compat), byte(p.level), 4, lists[1], lists[2], nil)
		} else {
			var arrays []hevcArray
			for _, i := range rapid.Permutation([]int{0, 1, 2}).Draw(t, "arrays") {
				arrays = append(arrays, hevcArray{typ: 32 + i, complete: 1, nals: lists[i]})
			}
			h := drawHevcHead(t)
			h.lengthSize = 4
			extra = h.write(arrays)
			end = len(extra)
		}
		d.data, d.sets, d.w, d.h = extra, lists, src.sps[0].width, src.sps[0].height
		if bad {
			extra, parses = extra[:rapid.IntRange(1, end-1).Draw(t, "cut")], false
		}
	case src.coded:
		i := rapid.IntRange(0, len(src.sps)-1).Draw(t, "variant")
		d.sets[1], d.sets[2] = [][]byte{src.sps[i].nal}, [][]byte{src.pps[i]}
		if src.vc == h265 {
			d.sets[0] = [][]byte{src.vps[i]}
		}
		d.w, d.h = src.sps[i].width, src.sps[i].height
		all := append(append(append([][]byte{}, d.sets[0]...), d.sets[1]...), d.sets[2]...)
		if bad {
			all, parses = all[:len(all)-1], false
		}
		extra = annexB(t, all)
		d.data = extra
	case src.video:
		extra = blobUpTo(t, "extra", 0, 20)
		d.data = extra
	case src.codec == utils.AVCodecIdAAC:
		a := src.adts
		extra = refASC(a.profile+1, a.freq, a.chans)
		d.data = extra
		d.audio = avformat.AudioConfig{SampleRate: aacRates[a.freq], Channels: aacChannels[a.chans]}
		if rapid.IntRange(0, 5).Draw(t, "rateWritten") == 5 {
			d.audio.SampleRate = rapid.IntRange(1, 1<<24-1).Draw(t, "aacRate")
			extra = writeASC(a.profile+1, 15, d.audio.SampleRate, a.chans, 0)
			d.data = extra
		}
		if bad {
			extra, parses = extra[:rapid.IntRange(0, len(extra)-1).Draw(t, "cut")], false
		}
	default:
		d.audio = avformat.AudioConfig{SampleRate: rapid.SampledFrom([]int{8000, 16000, 44100, 48000}).Draw(t, "rate"),
			SampleSize: rapid.SampledFrom([]int{16, 8}).Draw(t, "sampleSize"), Channels: rapid.IntRange(1, 2).Draw(t, "channels")}
		if rapid.IntRange(0, 3).Draw(t, "extraAnyway") == 3 {
			extra = blobUpTo(t, "extra", 1, 20)
			d.data = extra
		}
	}
	if src.pending != nil {
		return // a frame is under assembly in the same buffer
	}
	s.begin()
	arg := extra
	if len(extra) > 0 {
		arg = s.hand(src, extra)
	}
	s.k.Desc(" declare%d(%v ok=%v)", src.buffer, src.codec, parses)
	s.k.LabelIf(known != nil && !s.done, "declared again")
	want := parses && !s.done && known == nil && (s.box.name == "ts" || !s.hasMedia(src.video))
	var got avformat.Track
	if src.video {
		s.rec.declare(src, tb, len(extra), avformat.AudioConfig{})
		got = s.d.OnNewVideoTrack(src.buffer, src.codec, tb, arg)
	} else {
		conf := d.audio
		if src.codec == utils.AVCodecIdAAC {
			// a container may say anything about AAC: its configuration has the last word
			conf = avformat.AudioConfig{SampleSize: 16, SampleRate: rapid.SampledFrom([]int{0, 44100, 8000}).Draw(s.t, "saidRate"),
				Channels: rapid.SampledFrom([]int{0, 2, 1}).Draw(s.t, "saidChannels")}
			d.audio.SampleSize = 16
		}
		s.rec.declare(src, tb, len(extra), conf)
		got = s.d.OnNewAudioTrack(src.buffer, src.codec, tb, arg, conf)
	}
	exists := got != nil
	if exists {
		if st, ok := got.(*avformat.SimpleTrack); ok && st == nil {
			exists = false
		}
	}
	if exists && !want {
		props := "C01"
		if !parses {
			props = "C05"
		}
		s.fail(props, "declared %v on buffer %d (parses: %v, probing ended: %v, known: %v, one there: %v): it is accepted", src.codec, src.buffer, parses, s.done, known != nil, s.hasMedia(src.video))
	}
	if !exists && want {
		s.fail("C01 C05", "declared %v on buffer %d: it is refused", src.codec, src.buffer)
	}
	s.k.LabelIf(want, "track declared")
	s.k.LabelIf(!parses, "unparsable description")
	s.k.LabelIf(s.done, "declared late")
	if len(extra) > 0 {
		s.expectBack(src.buffer, "a declared description")
	} else if s.count("back") > 0 {
		s.note("C04", "a declaration without description releases memory of a buffer")
	}
	s.quiet("a declaration")
	s.lateSeen = s.lateSeen || s.done
	if want {
		s.add(src, d).tb = tb
	}
	s.end()
}

// streamText writes out everything a description says.
func streamText(st *avformat.AVStream) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v %d %v %d %x %+v", st.MediaType, st.Index, st.CodecID, st.Timebase, st.Data, st.AudioConfig)
	if cd := st.CodecParameters; cd != nil {
		fmt.Fprintf(&b, " %dx%d %x %x %x", cd.Width(), cd.Height(), cd.SPS(), cd.PPS(), cd.AnnexBExtraData())
		if h, ok := cd.(*avformat.HEVCCodecData); ok {
			fmt.Fprintf(&b, " %x", h.VPS())
		}
	}
	return b.String()
}

func bare(us [][]byte) (out [][]byte) {
	for _, u := range us {
		out = append(out, splitAnnexB(u)...)
	}
	return
}

// inferred is the set of values acceptable for a quantity classed by size per duration:
// with whole milliseconds and whole quotients, or exactly.
func inferred(f *frameModel, timebase int, configured int, class func(num, den int64) (int, bool)) map[int]bool {
	ok := map[int]bool{}
	take := func(num, den int64) {
		if v, in := class(num, den); in {
			ok[v] = true
		} else {
			ok[configured] = true
		}
	}
	d := f.duration
	ms := d * 1000 / int64(timebase)
	if ms < 1 {
		ok[configured] = true
	} else {
		take(int64(len(f.data))/ms, 1)
		take(int64(len(f.data)), ms)
	}
	if d > 0 && ms >= 1 {
		take(int64(len(f.data))*int64(timebase), d*1000)
	}
	return ok
}

// describe compares an announced track with the stream it was made from.
func (s *session) describe(tr *trackModel, st *avformat.AVStream) {
	d := tr.desc
	media := utils.AVMediaTypeAudio
	if tr.src.video {
		media = utils.AVMediaTypeVideo
	}
	if st.MediaType != media || st.CodecID != d.codec || st.Timebase != tr.tb || st.Index != tr.index {
		s.note("C05", "track %d is announced as %v %v timebase %d index %d, want %v %v timebase %d", tr.index, st.MediaType, st.CodecID, st.Timebase, st.Index, media, d.codec, tr.tb)
	}
	if d.units != nil {
		if !sameUnits(splitAnnexB(st.Data), d.units) {
			s.note("C05", "track %d has extra data %x, want the units %x", tr.index, st.Data, d.units)
		}
	} else if !bytes.Equal(st.Data, d.data) {
		s.note("C05", "track %d has extra data %x, want %x", tr.index, st.Data, d.data)
	}
	if tr.src.coded {
		cd := st.CodecParameters
		if cd == nil || cd.Width() != d.w || cd.Height() != d.h {
			s.note("C05", "track %d has size %v, want %dx%d", tr.index, cd, d.w, d.h)
		}
		if !sameUnits(bare(cd.SPS()), d.sets[1]) || !sameUnits(bare(cd.PPS()), d.sets[2]) {
			s.note("C05", "track %d has sets %x %x, want %x %x", tr.index, cd.SPS(), cd.PPS(), d.sets[1], d.sets[2])
		}
		if h, ok := cd.(*avformat.HEVCCodecData); ok != (tr.src.vc == h265) || ok && !sameUnits(bare(h.VPS()), d.sets[0]) {
			s.note("C05", "track %d has the description %T of %v", tr.index, cd, d.codec)
		}
		all := append(append(append([][]byte{}, d.sets[0]...), d.sets[1]...), d.sets[2]...)
		if !sameUnits(splitAnnexB(cd.AnnexBExtraData()), all) {
			s.note("C05", "track %d has start-code extra data %x, want the units %x", tr.index, cd.AnnexBExtraData(), all)
		}
	}
	if tr.src.video {
		return
	}
	a := st.AudioConfig
	rates, bits := map[int]bool{d.audio.SampleRate: true}, map[int]bool{d.audio.BitRate: true}
	if len(tr.frames) > 1 {
		f := tr.frames[0]
		switch d.codec {
		case utils.AVCodecIdPCMS16LE:
			rates = inferred(f, tr.tb, d.audio.SampleRate, func(n, m int64) (int, bool) {
				for _, c := range [][2]int64{{16, 8000}, {32, 16000}, {64, 32000}, {96, 48000}} {
					if n <= c[0]*m {
						return int(c[1]), true
					}
				}
				return 0, false
			})
			s.k.Label("PCM rate inferred")
		case utils.AVCodecIdADPCMG726:
			bits = inferred(f, tr.tb, d.audio.BitRate, func(n, m int64) (int, bool) {
				for _, c := range []int64{16000, 24000, 32000, 40000} {
					if n*8000 <= c*m {
						return int(c), true
					}
				}
				return 0, false
			})
			s.k.Label("G.726 bit rate inferred")
		}
	}
	if !rates[a.SampleRate] || !bits[a.BitRate] || a.Channels != d.audio.Channels || a.SampleSize != d.audio.SampleSize || a.HasADTSHeader != d.audio.HasADTSHeader {
		s.note("C05", "track %d (%v) is announced as %+v, want %+v with rate in %v, bit rate in %v", tr.index, d.codec, a, d.audio, rates, bits)
	}
}

// finish checks what must hold when the session is over.
func (s *session) finish() {
	if rapid.Bool().Draw(s.t, "finalHard") {
		s.hard()
	}
	for b := range s.held {
		for len(s.held[b]) > 0 {
			s.release(b)
		}
	}
	for i, tr := range s.shown {
		if now := streamText(tr.GetStream()); now != s.descs[i] {
			s.note("C05", "the announced description of track %d changed from %s to %s", i, s.descs[i], now)
		}
	}
	s.k.LabelIf(s.done, "ended")
	s.k.LabelIf(!s.done, "still probing")
}

// run performs a history of operations.
func (s *session) run(maxOps int) {
	t := s.t
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abandoned); !ok {
				panic(r)
			}
			s.k.Label("abandoned")
		}
	}()
	n := rapid.IntRange(1, maxOps).Draw(t, "ops")
	frames := 0
	if len(s.srcs) > 6 { // let every stream of a crowd appear
		for i := 0; i < 2*len(s.srcs); i++ {
			src := s.srcs[i%len(s.srcs)]
			if src.late {
				continue
			}
			if i < len(s.srcs) && src.video && s.box.name == "flv" {
				s.declare(src)
				continue
			}
			for s.feed(src); src.pending != nil; {
				s.fragment(src)
			}
			frames++
		}
	}
	for i := 0; i < n; i++ {
		op := rapid.IntRange(0, 39).Draw(t, "op")
		switch {
		case op == 39 && i > n/4:
			s.hard()
		case op >= 36 && op <= 38 && (i > n/4 || s.focus == "C03"):
			s.soft()
		case op == 35 && s.rec == nil && rapid.IntRange(0, 3).Draw(t, "newWindow") == 3:
			s.asked = rapid.SampledFrom([]int{200, 300, 500, 1000, 0, 150, 3000}).Draw(t, "window")
			s.d.SetProbeDuration(s.asked)
			s.k.Desc(" window=%d", s.asked)
			s.k.LabelIf(!s.done, "window changed while probing")
		case len(s.srcs) == 0:
		case op >= 32 && op <= 35:
			if src := rapid.SampledFrom(s.srcs).Draw(t, "src"); !src.late || s.done {
				s.declare(src)
			}
		case op >= 28 && op <= 31 && !s.d.AutoFree:
			if src := rapid.SampledFrom(s.srcs).Draw(t, "src"); len(s.held[src.buffer]) > 0 {
				s.release(src.buffer)
			}
		default:
			src := rapid.SampledFrom(s.srcs).Draw(t, "src")
			if src.late && !s.done {
				continue
			}
			if i < len(s.srcs) && s.box.name == "flv" && src.video {
				s.declare(src)
				continue
			}
			if src.pending != nil {
				s.fragment(src)
			} else if s.rec == nil && rapid.IntRange(0, 49).Draw(t, "takeBack") == 37 {
				s.takeBack(src)
			} else if i > 0 && rapid.IntRange(0, 299).Draw(t, "bursts") == 171 {
				s.burst(src)
			} else {
				s.feed(src)
			}
			frames++
		}
	}
	s.finish()
	s.k.Nontrivial(frames >= 3 && len(s.tracks) > 0 && s.done)
}
