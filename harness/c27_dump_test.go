package harness

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"testing"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
	"pgregory.net/rapid"
)

// dumped is what one file of a dump should hold.
type dumped struct {
	name  string // after the path
	video bool
	coded bool // H.264 or H.265
	vc    vcodec
	extra []byte // start-code form of the parameter sets, nil without description
	ls    int
	pkts  []dumpedPacket
}

type dumpedPacket struct {
	data []byte
	key  bool
	pack avformat.PacketType
}

// match reports whether content is the elementary stream.
func (d *dumped) match(content []byte) error { return d.matchFrom(content, 0) }

// matchFrom matches packet i and those after it. The parameter sets are written once
// ahead of a key frame (once or twice if it is length-prefixed: the conversion and the
// handler both do it), or not at all if it begins with sets of its own.
func (d *dumped) matchFrom(rest []byte, i int) error {
	if i == len(d.pkts) {
		if len(rest) > 0 {
			return fmt.Errorf("%d more bytes after the last of %d packets: %s", len(rest), len(d.pkts), brief(rest))
		}
		return nil
	}
	p := d.pkts[i]
	length := d.coded && p.pack == avformat.PacketTypeAVCC
	us := splitAnnexB(p.data)
	if length {
		us, _ = splitAVCC(p.data, d.ls)
	}
	lo, hi := 0, 0
	if d.coded && p.key && len(d.extra) > 0 {
		hi = 1
		if length {
			hi = 2
		}
		if len(us) > 0 && !isSet(d.vc, us[0]) {
			lo = 1
		}
	}
	var first error
	for n := 0; n <= hi; n++ {
		if n >= lo {
			after, err := d.payload(rest, p, us, length)
			if err == nil {
				err = d.matchFrom(after, i+1)
			} else {
				err = fmt.Errorf("packet %d of %d after %d times the parameter sets: %w", i, len(d.pkts), n, err)
			}
			if err == nil {
				return nil
			}
			if first == nil {
				first = err
			}
		}
		if n == hi || !bytes.HasPrefix(rest, d.extra) {
			if first == nil {
				first = fmt.Errorf("packet %d, a key frame: no parameter sets before it: %s", i, brief(rest))
			}
			return first
		}
		rest = rest[len(d.extra):]
	}
	return first
}

// payload matches one packet's payload and returns what follows it.
func (d *dumped) payload(rest []byte, p dumpedPacket, us [][]byte, length bool) ([]byte, error) {
	if !length {
		if !bytes.HasPrefix(rest, p.data) {
			return nil, fmt.Errorf("%s, want %s", brief(rest), brief(p.data))
		}
		return rest[len(p.data):], nil
	}
	for j, u := range us {
		if d.vc == h264 && h264.typeOf(u) == 6 {
			continue
		}
		switch {
		case bytes.HasPrefix(rest, []byte{0, 0, 1}):
			rest = rest[3:]
		case bytes.HasPrefix(rest, []byte{0, 0, 0, 1}):
			rest = rest[4:]
		default:
			return nil, fmt.Errorf("unit %d does not begin with a start code: %s", j, brief(rest))
		}
		if !bytes.HasPrefix(rest, u) {
			return nil, fmt.Errorf("unit %d is %s, want %s", j, brief(rest), brief(u))
		}
		rest = rest[len(u):]
	}
	return rest, nil
}

// dumpDir is a scratch directory with a path prefix for a dump in it.
type dumpDir struct {
	dir, path string
	stale     map[string][]byte
}

func newDumpDir(t *rapid.T) *dumpDir {
	dir, err := os.MkdirTemp("", "dump")
	if err != nil {
		t.Fatalf("VP-HARNESS: %v", err)
	}
	return &dumpDir{dir: dir, path: filepath.Join(dir, rapid.SampledFrom([]string{"dump", "a.b", "x y", "live.flv", "a.b.ts", "x.tmp", ".dump", "video", "d.", "\u6587\u4ef6"}).Draw(t, "path")), stale: map[string][]byte{}}
}

var dumpsDone int

func (d *dumpDir) remove() {
	_ = os.RemoveAll(d.dir)
	if dumpsDone++; dumpsDone%100 == 0 {
		runtime.GC() // the handler has no way to close its files
	}
}

func (d *dumpDir) old(t *rapid.T, name string) {
	b := blobUpTo(t, "stale", 1, 5000)
	d.stale[name] = b
	if err := os.WriteFile(d.path+name, b, 0o644); err != nil {
		t.Fatalf("VP-HARNESS: %v", err)
	}
}

// compare checks the directory against the files a dump should have left.
func (d *dumpDir) compare(t *rapid.T, files []*dumped) {
	want := map[string]*dumped{}
	for _, f := range files {
		want[filepath.Base(d.path)+f.name] = f
	}
	entries, err := os.ReadDir(d.dir)
	if err != nil {
		t.Fatalf("VP-HARNESS: %v", err)
	}
	var names []string
	for _, e := range entries {
		names = append(names, e.Name())
	}
	sort.Strings(names)
	for name := range want {
		if i := sort.SearchStrings(names, name); i == len(names) || names[i] != name {
			t.Fatalf("there is no file %q in %q", name, names)
		}
	}
	for _, name := range names {
		if st, err := os.Stat(filepath.Join(d.dir, name)); err != nil || st.Mode().Perm()&0o600 != 0o600 {
			t.Fatalf("%q can not be read back by its owner: %v %v", name, st.Mode(), err)
		}
		b, err := os.ReadFile(filepath.Join(d.dir, name))
		if err != nil {
			t.Fatalf("VP-HARNESS: %v", err)
		}
		f := want[name]
		if f == nil {
			if old, ok := d.stale[strings.TrimPrefix(name, filepath.Base(d.path))]; !ok || !bytes.Equal(old, b) {
				t.Fatalf("unexpected file %q with %s", name, brief(b))
			}
			continue
		}
		if err := f.match(b); err != nil {
			t.Fatalf("file %q (%d bytes): %v", name, len(b), err)
		}
	}
}

var codecNames = map[utils.AVCodecID]string{
	utils.AVCodecIdH263: "H263", utils.AVCodecIdH264: "H264", utils.AVCodecIdH265: "H265",
	utils.AVCodecIdVP8: "VP8", utils.AVCodecIdVP9: "VP9", utils.AVCodecIdAV1: "AV1",
	utils.AVCodecIdAAC: "AAC", utils.AVCodecIdPCMALAW: "PCMA", utils.AVCodecIdPCMMULAW: "PCMU",
	utils.AVCodecIdOPUS: "OPUS", utils.AVCodecIdMP3: "MP3", utils.AVCodecIdADPCMG722: "G722",
	utils.AVCodecIdADPCMG726: "G726", utils.AVCodecIdPCMS16LE: "PCMS16LE",
}

func dumpName(media string, index int, codec utils.AVCodecID) string {
	name, ok := codecNames[codec]
	if !ok {
		name = codec.String() // how codecs without a name are spelt is left open
	}
	return fmt.Sprintf(".%s.%d.%s", media, index, name)
}

func TestC27_Files(t *testing.T) {
	check(t, "dumps of 1-4 tracks (H.264/H.265 in either framing with or without description, other video, audio) and 0-25 packets in any interleaving, older files of the same and other names in place; non-trivial: 3+ packets or an older file of the same name",
		62000, 1800000, func(t *rapid.T, k *kase) {
			dir := newDumpDir(t)
			defer dir.remove()
			h := &avformat.OnUnpackStream2FileHandler{Path: dir.path}
			var files []*dumped
			var tracks []avformat.Track
			for i := rapid.IntRange(1, 4).Draw(t, "tracks"); i > 0; i-- {
				f := &dumped{ls: 4}
				st := &avformat.AVStream{Index: len(files), MediaType: utils.AVMediaTypeAudio, Timebase: 1000}
				switch rapid.IntRange(0, 4).Draw(t, "kind") {
				case 0, 1, 2:
					f.video, f.coded = true, true
					f.vc = vcodec(rapid.IntRange(0, 1).Draw(t, "codec"))
					st.CodecID = f.vc.id()
					if rapid.IntRange(0, 4).Draw(t, "undescribed") != 4 {
						var cd avformat.CodecData
						cd, f.extra, f.ls = f.vc.drawParameters(t)
						st.CodecParameters = cd
					}
				case 3:
					f.video = true
					st.CodecID = rapid.SampledFrom(otherVideo).Draw(t, "other")
				default:
					st.CodecID = rapid.SampledFrom([]utils.AVCodecID{utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW, utils.AVCodecIdPCMS16LE}).Draw(t, "audio")
				}
				media := "audio"
				if f.video {
					st.MediaType, media = utils.AVMediaTypeVideo, "video"
				}
				f.name = dumpName(media, len(files), st.CodecID)
				if rapid.IntRange(0, 3).Draw(t, "old") == 0 {
					dir.old(t, f.name)
					k.Label("older file")
					k.Nontrivial(true)
				}
				files = append(files, f)
				tracks = append(tracks, &avformat.SimpleTrack{Stream: st})
				k.Desc("%s ls=%d described=%v, ", f.name, f.ls, f.extra != nil)
			}
			if rapid.IntRange(0, 3).Draw(t, "unrelated") == 0 {
				dir.old(t, ".txt")
				dir.old(t, dumpName("video", 9, utils.AVCodecIdH264))
			}
			for _, tr := range tracks {
				h.OnNewTrack(tr)
			}
			h.OnTrackComplete()
			n := rapid.IntRange(0, 25).Draw(t, "packets")
			for i := 0; i < n; i++ {
				j := rapid.IntRange(0, len(files)-1).Draw(t, "track")
				f, st := files[j], tracks[j].GetStream()
				p := dumpedPacket{pack: avformat.PacketTypeNONE}
				if f.video {
					p.key = rapid.Bool().Draw(t, "key")
					p.pack = avformat.PacketTypeAnnexB
					if rapid.Bool().Draw(t, "lengthPrefixed") {
						p.pack = avformat.PacketTypeAVCC
					}
				}
				if f.coded {
					nals := f.vc.frame(t)
					for i, u := range nals {
						if f.ls < 3 && len(u) >= 1<<(8*f.ls) {
							nals[i] = append(clone(u[:200]), 0x80)
						}
					}
					if p.pack == avformat.PacketTypeAVCC {
						p.data = avcc(nals, f.ls)
					} else {
						p.data = annexB(t, nals)
					}
				} else {
					p.data = blobUpTo(t, "payload", 0, 3000)
				}
				f.pkts = append(f.pkts, p)
				k.Desc(" %d:%v:%d:%d", j, p.key, p.pack, len(p.data))
				var pkt *avformat.AVPacket
				if f.video {
					pkt = avformat.NewVideoPacket(clone(p.data), int64(i), int64(i), p.key, p.pack, st.CodecID, j, 1000)
				} else {
					pkt = avformat.NewAudioPacket(clone(p.data), int64(i), st.CodecID, j, 1000)
				}
				h.OnPacket(pkt)
				avformat.FreePacket(pkt)
			}
			k.Nontrivial(n >= 3)
			dir.compare(t, files)
		})
}

func TestC27_Session(t *testing.T) {
	check(t, sessionRule+", dumped while it runs",
		64000, 1900000, func(t *rapid.T, k *kase) {
			dir := newDumpDir(t)
			defer dir.remove()
			if rapid.Bool().Draw(t, "old") {
				dir.old(t, dumpName("video", 0, utils.AVCodecIdH264))
				dir.old(t, dumpName("audio", 1, utils.AVCodecIdAAC))
			}
			s := newSession(t, k, "C27", false)
			s.dump = &avformat.OnUnpackStream2FileHandler{Path: dir.path}
			s.run(60)
			for _, f := range s.files {
				k.Desc(" | %s %d packets", f.name, len(f.pkts))
			}
			dir.compare(t, s.files)
		})
}
