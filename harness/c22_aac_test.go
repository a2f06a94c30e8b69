package harness

import (
	"bytes"
	"testing"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
	"pgregory.net/rapid"
)

// The standard tables (ISO/IEC 14496-3), written out independently.
var aacRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
var aacChannels = []int{0, 1, 2, 3, 4, 5, 6, 8, 0, 0, 0, 7, 8, 24}

type adts struct {
	id, layer, absent, profile, freq, private, chans int
	original, home, cbit, cstart                     int
	length, fullness, blocks                         int
}

func (a adts) write() []byte {
	w := &bitw{}
	w.u(12, 0xFFF)
	w.u(1, uint64(a.id))
	w.u(2, uint64(a.layer))
	w.u(1, uint64(a.absent))
	w.u(2, uint64(a.profile))
	w.u(4, uint64(a.freq))
	w.u(1, uint64(a.private))
	w.u(3, uint64(a.chans))
	w.u(1, uint64(a.original))
	w.u(1, uint64(a.home))
	w.u(1, uint64(a.cbit))
	w.u(1, uint64(a.cstart))
	w.u(13, uint64(a.length))
	w.u(11, uint64(a.fullness))
	w.u(2, uint64(a.blocks))
	return w.b
}

func drawADTS(t *rapid.T) adts {
	n := func(hi int, label string) int { return rapid.IntRange(0, hi).Draw(t, label) }
	return adts{id: n(1, "id"), absent: n(1, "absent"), profile: n(3, "profile"), freq: n(12, "freq"), private: n(1, "private"), chans: n(7, "chans"),
		original: n(1, "original"), home: n(1, "home"), cbit: n(1, "cbit"), cstart: n(1, "cstart"),
		length: size(t, "length", 7, 8191), fullness: n(0x7FF, "fullness"), blocks: n(3, "blocks")}
}

func readADTS(h utils.ADtsHeader) adts {
	return adts{id: h.ID(), layer: h.Layer(), absent: h.ProtectionAbsent(), profile: h.Profile(), freq: h.Frequency(), private: h.PrivateBit(), chans: h.Channel(),
		original: h.Original(), home: h.Home(), cbit: h.CopyrightBit(), cstart: h.CopyrightStart(), length: h.FrameLength(), fullness: h.Fullness(), blocks: h.Blocks()}
}

func TestC22_Header(t *testing.T) {
	check(t, "ADTS headers with every field drawn freely, from an independent writer and from the library's own, cut or with a broken sync word in a quarter of the cases; the configuration derived from them; every case is non-trivial",
		3000000, 90000000, func(t *rapid.T, k *kase) {
			k.Nontrivial(true)
			want := drawADTS(t)
			var b []byte
			own := rapid.Bool().Draw(t, "own")
			if own {
				want = adts{id: want.id, absent: 1, profile: want.profile, freq: want.freq, chans: want.chans, length: want.length, fullness: 0x7FF}
				b = dirty(9)[:7]
				if rapid.Bool().Draw(t, "zeroed") {
					b = make([]byte, 7)
				}
				utils.SetADtsHeader(b, want.id, want.profile, want.freq, want.chans, want.length)
				if !bytes.Equal(b, want.write()) {
					t.Fatalf("%+v written as %x, want %x", want, b, want.write())
				}
			} else {
				b = want.write()
			}
			payload := blobUpTo(t, "payload", 0, 40)
			if want.absent == 0 {
				payload = append([]byte{0x12, 0x34}, payload...)
			}
			frame := append(b, payload...)
			k.Desc("own=%v %+v %s", own, want, brief(payload))
			switch rapid.IntRange(0, 7).Draw(t, "broken") {
			case 6:
				n := rapid.IntRange(0, 6).Draw(t, "cut")
				k.Desc(" cut %d", n)
				k.Label("cut")
				if h, err := utils.ReadADtsFixedHeader(frame[:n:n]); err == nil {
					t.Fatalf("header of %x accepted as %+v", frame[:n], readADTS(h))
				}
				if _, _, c, err := avformat.ExtractAudioExtraData(utils.AVCodecIdAAC, frame[:n:n]); err == nil {
					t.Fatalf("frame of %x accepted as %+v", frame[:n], c)
				}
				return
			case 7:
				bit := rapid.IntRange(0, 11).Draw(t, "bit")
				frame = clone(frame)
				frame[bit/8] ^= 0x80 >> (bit % 8)
				k.Desc(" sync bit %d", bit)
				k.Label("no sync")
				if h, err := utils.ReadADtsFixedHeader(frame); err == nil {
					t.Fatalf("header of %x accepted as %+v", frame[:7], readADTS(h))
				}
				if _, _, c, err := avformat.ExtractAudioExtraData(utils.AVCodecIdAAC, frame); err == nil {
					t.Fatalf("frame of %x accepted as %+v", frame[:7], c)
				}
				return
			}
			orig := clone(frame)
			h, err := utils.ReadADtsFixedHeader(frame)
			if err != nil {
				t.Fatalf("%x: %v", frame[:7], err)
			}
			if got := readADTS(h); got != want || h.SyncWord() != 0xFFF {
				t.Fatalf("%x read as %+v, want %+v", frame[:7], got, want)
			}
			asc, err := utils.ADtsHeader2MpegAudioConfigData(h)
			if wantASC := refASC(want.profile+1, want.freq, want.chans); err != nil || !bytes.Equal(asc, wantASC) {
				t.Fatalf("%+v gives configuration %x (%v), want %x", want, asc, err, wantASC)
			}
			c, err := utils.ParseMpeg4AudioConfig(asc)
			if err != nil || c.ObjectType != want.profile+1 || c.SamplingIndex != want.freq || c.ChanConfig != want.chans ||
				c.SampleRate != aacRates[want.freq] || c.Channels != aacChannels[want.chans] {
				t.Fatalf("%+v parsed as %+v, %v", want, c, err)
			}
			extra, skip, cfg, err := avformat.ExtractAudioExtraData(utils.AVCodecIdAAC, frame)
			wantSkip := 7
			if want.absent == 0 {
				wantSkip = 9
			}
			if err != nil || !bytes.Equal(extra, asc) || skip != wantSkip || cfg.SampleRate != aacRates[want.freq] || cfg.Channels != aacChannels[want.chans] || !cfg.HasADTSHeader || cfg.SampleSize != 16 {
				t.Fatalf("%+v extracted as %x %d %+v, %v", want, extra, skip, cfg, err)
			}
			if !bytes.Equal(frame, orig) {
				t.Fatalf("input changed")
			}
		})
}

// refASC writes an audio configuration; a rate that has no index is written out.
func refASC(aot, freq, chans int) []byte { return writeASC(aot, freq, 0, chans, 0) }

func writeASC(aot, freq, rate, chans, flags int) []byte {
	w := &bitw{}
	if aot > 31 {
		w.u(5, 31)
		w.u(6, uint64(aot-32))
	} else {
		w.u(5, uint64(aot))
	}
	w.u(4, uint64(freq))
	if freq == 15 {
		w.u(24, uint64(rate))
	}
	w.u(4, uint64(chans))
	w.u(3, uint64(flags))
	for w.nbit%8 != 0 {
		w.u(1, uint64(flags)&1)
	}
	return w.b
}

func TestC22_Config(t *testing.T) {
	check(t, "audio configurations over object types 1-30 and 32-95, the standard rates and others written out, all channel configurations, with trailing bytes or cut short; rate and index lookups over the whole neighbourhood of the tables; every case is non-trivial",
		1600000, 48000000, func(t *rapid.T, k *kase) {
			k.Nontrivial(true)
			aot := rapid.IntRange(1, 30).Draw(t, "aot")
			if rapid.IntRange(0, 3).Draw(t, "escaped") == 3 {
				aot = rapid.IntRange(32, 95).Draw(t, "escapedAot")
			}
			freq := rapid.IntRange(0, 12).Draw(t, "freq")
			rate := aacRates[freq]
			if rapid.IntRange(0, 3).Draw(t, "written") == 3 {
				freq, rate = 15, rapid.OneOf(rapid.IntRange(0, 1<<24-1), rapid.SampledFrom([]int{44100, 48000, 37800, 1, 1 << 23, 192000})).Draw(t, "writtenRate")
			}
			chans := rapid.IntRange(0, 15).Draw(t, "chans")
			flags := rapid.IntRange(0, 7).Draw(t, "flags")
			asc := writeASC(aot, freq, rate, chans, flags)
			least := len(asc)
			k.LabelIf(aot > 31, "escaped object type")
			k.LabelIf(freq == 15, "rate written out")
			asc = append(asc, blobUpTo(t, "tail", 0, 6)...)
			k.Desc("%d/%d(%d)/%d %x", aot, freq, rate, chans, asc)
			orig := clone(asc)
			c, err := utils.ParseMpeg4AudioConfig(asc)
			if chans >= 14 {
				if err == nil {
					t.Fatalf("reserved channel configuration %d accepted: %+v", chans, c)
				}
			} else if err != nil || c.ObjectType != aot || c.SamplingIndex != freq || c.SampleRate != rate || c.ChanConfig != chans || c.Channels != aacChannels[chans] {
				t.Fatalf("%x parsed as %+v, %v; want %d/%d(%d)/%d", asc, c, err, aot, freq, rate, chans)
			}
			if !bytes.Equal(asc, orig) {
				t.Fatalf("input changed")
			}
			n := rapid.IntRange(0, least-1).Draw(t, "cut")
			if c, err := utils.ParseMpeg4AudioConfig(asc[:n:n]); err == nil {
				t.Fatalf("%x accepted as %+v", asc[:n], c)
			}

			index := rapid.OneOf(rapid.IntRange(-3, 20), rapid.Int()).Draw(t, "index")
			got, ok := utils.GetSampleRateFromFrequency(index)
			if index >= 0 && index < len(aacRates) {
				if !ok || got != aacRates[index] {
					t.Fatalf("rate of index %d is %d, %v", index, got, ok)
				}
			} else if ok && got > 0 {
				t.Fatalf("rate of index %d is %d", index, got)
			}
			rate = rapid.OneOf(rapid.SampledFrom(aacRates), rapid.IntRange(-2, 100000), rapid.IntRange(-2, 16), rapid.Int(),
				rapid.SampledFrom([]int{44056, 47952, 47250, 50000, 50400, 176400, 192000, 37800, 6000, 5512, 4000, 384000})).Draw(t, "rate")
			want := -1
			for i, r := range aacRates {
				if r == rate {
					want = i
				}
			}
			k.Desc(" index %d rate %d", index, rate)
			k.LabelIf(want >= 0, "standard rate")
			if got := utils.GetSampleRateIndex(rate); got != want && (want >= 0 || got >= 0) {
				t.Fatalf("index of rate %d is %d, want %d", rate, got, want)
			}
		})
}

func TestC22_OtherCodecs(t *testing.T) {
	check(t, "frames of audio codecs without headers of their own: 8 kHz mono 16 bit, nothing skipped, and packets carry the frame; every case is non-trivial",
		400000, 12000000, func(t *rapid.T, k *kase) {
			k.Nontrivial(true)
			id := rapid.SampledFrom([]utils.AVCodecID{utils.AVCodecIdPCMALAW, utils.AVCodecIdPCMMULAW, utils.AVCodecIdPCMS16LE, utils.AVCodecIdADPCMG726, utils.AVCodecIdADPCMG722, utils.AVCodecIdMP3, utils.AVCodecIdOPUS}).Draw(t, "id")
			data := blobUpTo(t, "data", 0, 200)
			k.Desc("%v %s", id, brief(data))
			extra, skip, cfg, err := avformat.ExtractAudioExtraData(id, data)
			if err != nil || len(extra) != 0 || skip != 0 || cfg != (avformat.AudioConfig{SampleRate: 8000, SampleSize: 16, Channels: 1}) {
				t.Fatalf("%v: %x %d %+v %v", id, extra, skip, cfg, err)
			}
			ts := rapid.Int64Range(-1<<40, 1<<40).Draw(t, "ts")
			p, err := avformat.ExtractAudioPacket(id, data, ts, 3, 8000, rapid.Bool().Draw(t, "adts"))
			if err != nil || !bytes.Equal(p.Data, data) || p.Dts != ts || p.Pts != ts || p.CodecID != id || p.Index != 3 || p.Timebase != 8000 || p.MediaType != utils.AVMediaTypeAudio {
				t.Fatalf("packet %+v, %v", p, err)
			}
		})
}
