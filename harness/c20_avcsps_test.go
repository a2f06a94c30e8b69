package harness

import (
	"bytes"
	"testing"

	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/hevc"
	"pgregory.net/rapid"
)

// withStartCode puts no, a 3-byte or a 4-byte start code in front of a unit.
func withStartCode(t *rapid.T, nal []byte) []byte {
	switch rapid.IntRange(0, 2).Draw(t, "scKind") {
	case 0:
		return clone(nal)
	case 1:
		return append([]byte{0, 0, 1}, nal...)
	}
	return append([]byte{0, 0, 0, 1}, nal...)
}

func TestC20_AvcSPS(t *testing.T) {
	check(t, "valid H.264 SPS over all syntax elements up to timing, 0/3/4-byte start code; non-trivial: cropped, interlaced, high profile, escaped, with scaling lists or with VUI",
		1320000, 39000000, func(t *rapid.T, k *kase) {
			s := genAvcSPS(t)
			in := withStartCode(t, s.nal)
			orig := clone(in)
			k.Desc("%s", s.desc)
			got, err := avc.ParseSPS(in)
			if err != nil {
				t.Fatalf("%s %x: %v", s.desc, in, err)
			}
			if !bytes.Equal(in, orig) {
				t.Fatalf("input changed")
			}
			bad := func(what string, got, want int) {
				if got != want {
					t.Fatalf("%s = %d, want %d in %s %x", what, got, want, s.desc, in)
				}
			}
			bad("profile", int(got.ProfileIdc), s.profile)
			bad("constraint flags", int(got.ConstraintSetFlag), s.compat>>2)
			bad("level", int(got.LevelIdc), s.level)
			bad("id", int(got.Id), s.id)
			bad("width in macroblocks", int(got.MbWidth), s.mbW)
			bad("height in macroblocks", int(got.MbHeight), s.mbH)
			bad("crop left", int(got.CropLeft), s.crop[0])
			bad("crop right", int(got.CropRight), s.crop[1])
			bad("crop top", int(got.CropTop), s.crop[2])
			bad("crop bottom", int(got.CropBottom), s.crop[3])
			bad("width", got.Width, s.width)
			bad("height", got.Height, s.height)
			bad("fps", got.FPS, s.fps)
			k.Nontrivial(s.crop != [4]int{} || s.interlace || s.high || s.escaped || s.lists || s.vui)
			k.LabelIf(s.interlace, "interlaced")
			k.LabelIf(s.escaped, "escaped")
			k.LabelIf(s.lists, "scaling lists")
			k.LabelIf(s.fps > 0, "fps")
			k.LabelIf(s.crop != [4]int{}, "cropped")
		})
}

func TestC20_AvcSPSCut(t *testing.T) {
	check(t, "the same SPS cut after any byte; non-trivial: cut inside the geometry",
		800000, 24000000, func(t *rapid.T, k *kase) {
			s := genAvcSPS(t)
			cut := rapid.IntRange(0, len(s.rbsp)).Draw(t, "cut")
			if rapid.Bool().Draw(t, "cutEarly") {
				cut = min(cut, s.geomEnd/8)
			}
			in := withStartCode(t, escape(s.rbsp[:cut]))
			k.Desc("%s cut=%d geomEnd=%d", s.desc, cut, s.geomEnd)
			got, err := avc.ParseSPS(in)
			if 8*cut < s.geomEnd && err == nil {
				t.Fatalf("%s cut after %d bytes (geometry ends at bit %d) was accepted as %dx%d", s.desc, cut, s.geomEnd, got.Width, got.Height)
			}
			if err == nil && (got.Width != s.width || got.Height != s.height) {
				t.Fatalf("%s cut after %d bytes: %dx%d", s.desc, cut, got.Width, got.Height)
			}
			k.Nontrivial(8*cut < s.geomEnd && cut > 4)
		})
}

func TestC21_HevcSPS(t *testing.T) {
	check(t, "valid H.265 SPS with 1-7 sub-layers, 0/3/4-byte start code; non-trivial: several sub-layers, a conformance window or escaped",
		1380000, 41000000, func(t *rapid.T, k *kase) {
			s := genHevcSPS(t)
			in := withStartCode(t, s.nal)
			orig := clone(in)
			k.Desc("%s", s.desc)
			got, err := hevc.ParseSPS(in)
			if err != nil {
				t.Fatalf("%s %x: %v", s.desc, in, err)
			}
			if !bytes.Equal(in, orig) {
				t.Fatalf("input changed")
			}
			if int(got.PicWidthInLumaSamples) != s.codedW || int(got.PicHeightInLumaSamples) != s.codedH {
				t.Fatalf("coded size %dx%d, want %dx%d in %s %x", got.PicWidthInLumaSamples, got.PicHeightInLumaSamples, s.codedW, s.codedH, s.desc, in)
			}
			if got.Width != s.width || got.Height != s.height {
				t.Fatalf("size %dx%d, want %dx%d in %s %x", got.Width, got.Height, s.width, s.height, s.desc, in)
			}
			k.Nontrivial(s.subLayers > 1 || s.crop != [4]int{} || s.escaped)
			k.LabelIf(s.subLayers > 1, "sub-layers")
			k.LabelIf(s.escaped, "escaped")
			k.LabelIf(s.crop != [4]int{}, "window")
		})
}

func TestC21_HevcSPSCut(t *testing.T) {
	check(t, "the same SPS cut after any byte; non-trivial: cut inside the geometry",
		800000, 24000000, func(t *rapid.T, k *kase) {
			s := genHevcSPS(t)
			cut := rapid.IntRange(0, len(s.rbsp)).Draw(t, "cut")
			in := withStartCode(t, escape(s.rbsp[:cut]))
			k.Desc("%s cut=%d geomEnd=%d", s.desc, cut, s.geomEnd)
			got, err := hevc.ParseSPS(in)
			if 8*cut < s.geomEnd && err == nil {
				t.Fatalf("%s cut after %d bytes (geometry ends at bit %d) was accepted as %dx%d", s.desc, cut, s.geomEnd, got.Width, got.Height)
			}
			if err == nil && (got.Width != s.width || got.Height != s.height) {
				t.Fatalf("%s cut after %d bytes: %dx%d", s.desc, cut, got.Width, got.Height)
			}
			k.Nontrivial(8*cut < s.geomEnd && cut > 2)
		})
}
