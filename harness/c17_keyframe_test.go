package harness

import (
	"testing"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"
	"pgregory.net/rapid"
)

// isKey is the rule of the property on a list of unit types.
func (c vcodec) isKey(types []int) bool {
	for _, typ := range types {
		if c == h264 {
			switch typ {
			case 6, 7, 8, 9:
				continue
			}
			return typ == 5
		}
		switch typ {
		case 32, 33, 34, 35, 39, 40:
			continue
		}
		return typ >= 16 && typ <= 23
	}
	return false
}

func (c vcodec) id() utils.AVCodecID {
	if c == h264 {
		return utils.AVCodecIdH264
	}
	return utils.AVCodecIdH265
}

func TestC17_KeyFrame(t *testing.T) {
	check(t, "access units of 0-7 prefix units and a slice of any type, and start-code dense bytes; non-trivial: 2+ units",
		1880000, 56000000, func(t *rapid.T, k *kase) {
			c := vcodec(rapid.IntRange(0, 1).Draw(t, "codec"))
			var p []byte
			var types []int
			if rapid.IntRange(0, 3).Draw(t, "dense") == 0 {
				p = dense(t, "p", 60)
				for off := 0; ; {
					h, _ := firstStartCode(p[off:])
					if h < 0 {
						break
					}
					off += h
					types = append(types, c.typeOf(p[off:]))
				}
				k.Desc("%v %x", c, p)
			} else {
				var nals [][]byte
				for i := rapid.IntRange(0, 7).Draw(t, "prefix"); i > 0; i-- {
					typ := rapid.SampledFrom([]int{6, 7, 8, 9}).Draw(t, "prefixType")
					if c == h265 {
						typ = rapid.SampledFrom([]int{32, 33, 34, 35, 39, 40}).Draw(t, "prefixType")
					}
					nals = append(nals, c.orBig(t, typ, 60))
					types = append(types, typ)
				}
				for i := rapid.IntRange(0, 2).Draw(t, "slices"); i > 0; i-- {
					typ := c.anyType(t)
					nals = append(nals, c.orBig(t, typ, 60))
					types = append(types, typ)
				}
				if len(nals) > 0 {
					p = annexB(t, nals)
				}
				k.Desc("%v %v %s", c, types, briefs(nals))
			}
			want := c.isKey(types)
			got := avc.IsKeyFrame
			if c == h265 {
				got = hevc.IsKeyFrame
			}
			orig := clone(p)
			if g := got(p); g != want {
				t.Fatalf("%v types %v %x: key=%v, want %v", c, types, p, g, want)
			}
			if g := avformat.IsKeyFrame(c.id(), p); g != want {
				t.Fatalf("%v types %v %x through the packet helper: key=%v, want %v", c, types, p, g, want)
			}
			other := rapid.SampledFrom([]utils.AVCodecID{utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW, utils.AVCodecIdNONE, utils.AVCodecIdMPEG4, utils.AVCodecIdPCMS16LE}).Draw(t, "other")
			if avformat.IsKeyFrame(other, p) {
				t.Fatalf("a frame of codec %v is a key frame", other)
			}
			if string(orig) != string(p) {
				t.Fatalf("input changed")
			}
			k.Nontrivial(len(types) >= 2)
			k.LabelIf(want, "key")
			k.Label("%v", c)
		})
}
