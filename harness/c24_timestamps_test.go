package harness

import (
	"math/big"
	"testing"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"
	"pgregory.net/rapid"
)

func drawTimebase(t *rapid.T, label string) int {
	return rapid.OneOf(rapid.SampledFrom([]int{1000, 90000, 8000, 16000, 44100, 48000, 1, 25, 1000000, 90, 12800, 1 << 31 / 2, 1<<31 - 1}),
		rapid.IntRange(1, 200000), rapid.IntRange(1, 1<<31-1)).Draw(t, label)
}

// drawTs draws a timestamp of any magnitude and either sign.
func drawTs(t *rapid.T, label string) int64 {
	v := int64(magnitude(t, label, 1<<63-1))
	if rapid.IntRange(0, 2).Draw(t, label+"Neg") == 2 {
		return -v
	}
	return v
}

// exactTs is ts*dst/src truncated toward zero; ok tells whether it is representable.
func exactTs(ts int64, src, dst int) (int64, bool) {
	p := new(big.Int).Mul(big.NewInt(ts), big.NewInt(int64(dst)))
	p.Quo(p, big.NewInt(int64(src)))
	return p.Int64(), p.IsInt64()
}

// representable scales a timestamp down until its conversion fits.
func representable(ts int64, src, dst int) int64 {
	for {
		if _, ok := exactTs(ts, src, dst); ok {
			return ts
		}
		ts /= 2
	}
}

func TestC24_Convert(t *testing.T) {
	check(t, "timestamps of every magnitude and sign over pairs of timebases up to 2^31-1, against exact rational arithmetic; non-trivial: different timebases and a non-zero result that is not an exact multiple",
		6200000, 180000000, func(t *rapid.T, k *kase) {
			src, dst := drawTimebase(t, "src"), drawTimebase(t, "dst")
			if rapid.IntRange(0, 9).Draw(t, "same") == 9 {
				dst = src
			}
			ts := representable(drawTs(t, "ts"), src, dst)
			want, _ := exactTs(ts, src, dst)
			k.Desc("%d %d->%d", ts, src, dst)
			if got := avformat.ConvertTs(ts, src, dst); got != want {
				t.Fatalf("%d from %d to %d is %d, want %d", ts, src, dst, got, want)
			}
			if src == dst && want != ts {
				t.Fatalf("oracle")
			}
			// order
			other := representable(ts+int64(rapid.IntRange(-3, 3).Draw(t, "step")), src, dst)
			a, b := avformat.ConvertTs(ts, src, dst), avformat.ConvertTs(other, src, dst)
			if ts < other && a > b || ts > other && a < b {
				t.Fatalf("order of %d and %d from %d to %d becomes %d, %d", ts, other, src, dst, a, b)
			}
			back, _ := exactTs(want, dst, src)
			k.Nontrivial(src != dst && want != 0 && back != ts)
			k.LabelIf(want > 1<<53 || want < -1<<53, "beyond 2^53")
			k.LabelIf(ts < 0, "negative")
		})
}

func TestC24_Packet(t *testing.T) {
	check(t, "packets with drawn decode and presentation time, duration and timebase, read in another timebase; non-trivial: different timebases",
		3800000, 110000000, func(t *rapid.T, k *kase) {
			src, dst := drawTimebase(t, "src"), drawTimebase(t, "dst")
			if rapid.IntRange(0, 9).Draw(t, "same") == 9 {
				dst = src
			}
			dts := representable(drawTs(t, "dts"), src, dst)
			pts := representable(dts/4+int64(magnitude(t, "delta", 1<<40)), src, dst)
			if rapid.Bool().Draw(t, "near") {
				pts = representable(dts+int64(rapid.IntRange(-100000, 100000).Draw(t, "near")), src, dst)
			}
			dur := representable(drawTs(t, "dur"), src, dst)
			var p *avformat.AVPacket
			if rapid.Bool().Draw(t, "video") {
				p = avformat.NewVideoPacket([]byte{1}, dts, pts, true, avformat.PacketTypeAnnexB, utils.AVCodecIdH264, 0, src)
			} else {
				p = avformat.NewAudioPacket([]byte{1}, dts, utils.AVCodecIdAAC, 0, src)
				pts = dts
			}
			p.Duration = dur
			k.Desc("dts %d pts %d dur %d %d->%d", dts, pts, dur, src, dst)
			k.Nontrivial(src != dst)
			same := func(what string, got, v int64) {
				if want, ok := exactTs(v, src, dst); ok && got != want {
					t.Fatalf("%s %d from %d to %d is %d, want %d", what, v, src, dst, got, want)
				}
			}
			same("decode time", p.ConvertDts(dst), dts)
			same("presentation time", p.ConvertPts(dst), pts)
			same("duration", p.GetDuration(dst), dur)
			same("difference", p.GetPtsDtsDelta(dst), pts-dts)
			if p.Dts != dts || p.Pts != pts || p.Duration != dur || p.Timebase != src {
				t.Fatalf("the packet changed")
			}
		})
}
