package harness

import (
	"fmt"

	"pgregory.net/rapid"
)

// paramSet is a generated sequence parameter set with the values it encodes.
type paramSet struct {
	nal       []byte // NAL unit without start code, escaped
	rbsp      []byte // the same before escaping, NAL header included
	geomEnd   int    // bit of rbsp (header included) after the last geometry field
	desc      string
	width     int // displayed
	height    int
	codedW    int
	codedH    int
	profile   int
	compat    int // the constraint byte
	level     int
	id        int
	mbW, mbH  int
	crop      [4]int // left right top bottom, as coded
	fps       int
	high      bool // has the chroma format part
	interlace bool
	escaped   bool
	lists     bool
	vui       bool
	subLayers int
	head      hevcHead // what an H.265 record says of the set
}

// magnitude draws a value with a random number of bits, up to max.
func magnitude(t *rapid.T, label string, max uint64) uint64 {
	n := 0
	for x := max; x > 0; x >>= 1 {
		n++
	}
	b := rapid.IntRange(0, n).Draw(t, label+"Bits")
	if b == 0 {
		return 0
	}
	hi := uint64(1)<<b - 1
	if hi > max {
		hi = max
	}
	return rapid.Uint64Range(1<<(b-1), hi).Draw(t, label)
}

func flip(t *rapid.T, label string) int { return rapid.IntRange(0, 1).Draw(t, label) }

func rare(t *rapid.T, label string, n int) bool { return rapid.IntRange(0, n-1).Draw(t, label) == n-1 }

// highProfiles have the chroma format syntax in their SPS (7.3.2.1.1).
var highProfiles = []int{100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135}

func genAvcSPS(t *rapid.T) *paramSet {
	s := &paramSet{}
	w := &bitw{}
	w.u(8, uint64(rapid.IntRange(1, 3).Draw(t, "refIdc")<<5|7))
	if rapid.Bool().Draw(t, "high") {
		s.profile = rapid.SampledFrom(highProfiles).Draw(t, "profile")
		s.high = true
	} else {
		s.profile = rapid.SampledFrom([]int{66, 77, 88}).Draw(t, "profile")
	}
	s.compat = rapid.SampledFrom([]int{0, 0xC0, 0x40, 0xE0, 0x10, 0x04, 0xFC, 0x80}).Draw(t, "compat")
	s.level = rapid.SampledFrom([]int{10, 9, 11, 13, 20, 30, 31, 40, 41, 51, 52, 62}).Draw(t, "level")
	s.id = rapid.IntRange(0, 31).Draw(t, "spsID")
	w.u(8, uint64(s.profile))
	w.u(8, uint64(s.compat))
	w.u(8, uint64(s.level))
	w.ue(uint64(s.id))
	chroma, sep := 1, 0
	if s.high {
		chroma = rapid.SampledFrom([]int{1, 0, 2, 3, 1}).Draw(t, "chroma")
		w.ue(uint64(chroma))
		if chroma == 3 {
			sep = flip(t, "sepPlane")
			w.bit(sep)
		}
		w.ue(uint64(rapid.IntRange(0, 6).Draw(t, "bdl")))
		w.ue(uint64(rapid.IntRange(0, 6).Draw(t, "bdc")))
		w.bit(flip(t, "bypass"))
		if rapid.IntRange(0, 2).Draw(t, "matrix") == 2 {
			s.lists = true
			w.bit(1)
			n := 8
			if chroma == 3 {
				n = 12
			}
			for i := 0; i < n; i++ {
				if flip(t, "list") == 0 {
					w.bit(0)
					continue
				}
				w.bit(1)
				ln := 64
				if i < 6 {
					ln = 16
				}
				last, next := 8, 8
				deltas := expand(rapid.Uint64Range(0, 1<<16).Draw(t, "deltas"), ln, 0)
				small := rapid.Bool().Draw(t, "smallDeltas")
				for j := 0; j < ln && next != 0; j++ {
					d := int(int8(deltas[j]))
					if small {
						d /= 16
					}
					w.se(int64(d))
					next = (last + d + 256) % 256
					if next != 0 {
						last = next
					}
				}
			}
		} else {
			w.bit(0)
		}
	}
	w.ue(uint64(rapid.IntRange(0, 12).Draw(t, "log2FrameNum")))
	poc := rapid.IntRange(0, 2).Draw(t, "poc")
	w.ue(uint64(poc))
	se := func(label string) int64 {
		v := int64(magnitude(t, label, 1<<31-1))
		if rapid.Bool().Draw(t, label+"Neg") {
			v = -v
		}
		return v
	}
	switch poc {
	case 0:
		w.ue(uint64(rapid.IntRange(0, 12).Draw(t, "log2Poc")))
	case 1:
		w.bit(flip(t, "deltaZero"))
		w.se(se("offNonRef"))
		w.se(se("offTopBottom"))
		n := int(magnitude(t, "pocCycle", 255))
		w.ue(uint64(n))
		offs := expand(rapid.Uint64Range(0, 1<<16).Draw(t, "pocOffsets"), n, 0)
		for i := 0; i < n; i++ {
			w.se(int64(int8(offs[i])) * int64(1+i%200))
		}
	}
	w.ue(uint64(rapid.IntRange(0, 16).Draw(t, "refFrames")))
	w.bit(flip(t, "gaps"))
	s.mbW = 1 + int(magnitude(t, "mbW", 1054))
	s.mbH = 1 + int(magnitude(t, "mbH", 1054))
	w.ue(uint64(s.mbW - 1))
	w.ue(uint64(s.mbH - 1))
	fmo := 1
	if rapid.IntRange(0, 2).Draw(t, "interlaced") == 2 {
		fmo = 0
		s.interlace = true
	}
	w.bit(fmo)
	if fmo == 0 {
		w.bit(flip(t, "mbaff"))
	}
	w.bit(flip(t, "d8x8"))
	ux, uy := 1, 2-fmo
	if sep == 0 {
		switch chroma {
		case 1:
			ux, uy = 2, 2*(2-fmo)
		case 2:
			ux = 2
		}
	}
	s.codedW, s.codedH = s.mbW*16, s.mbH*16*(2-fmo)
	s.width, s.height = s.codedW, s.codedH
	if flip(t, "crop") == 1 {
		w.bit(1)
		// Something of the picture must remain.
		maxX, maxY := (s.codedW-1)/ux, (s.codedH-1)/uy
		cap16 := func(n int) int { return min(n, 40) }
		if rare(t, "bigCrop", 6) {
			cap16 = func(n int) int { return n }
		}
		s.crop[0] = rapid.IntRange(0, cap16(maxX)).Draw(t, "cropL")
		s.crop[1] = rapid.IntRange(0, cap16(maxX-s.crop[0])).Draw(t, "cropR")
		s.crop[2] = rapid.IntRange(0, cap16(maxY)).Draw(t, "cropT")
		s.crop[3] = rapid.IntRange(0, cap16(maxY-s.crop[2])).Draw(t, "cropB")
		for _, c := range s.crop {
			w.ue(uint64(c))
		}
		s.width -= ux * (s.crop[0] + s.crop[1])
		s.height -= uy * (s.crop[2] + s.crop[3])
	} else {
		w.bit(0)
	}
	s.geomEnd = w.nbit
	s.vui = flip(t, "vui") == 1
	if s.vui {
		w.bit(1)
		if flip(t, "aspect") == 1 {
			w.bit(1)
			idc := rapid.SampledFrom([]int{0, 1, 2, 13, 255, 255, 16, 17, 128, 254}).Draw(t, "aspectIdc")
			w.u(8, uint64(idc))
			if idc == 255 {
				w.u(16, magnitude(t, "sarW", 65535))
				w.u(16, magnitude(t, "sarH", 65535))
			}
		} else {
			w.bit(0)
		}
		if flip(t, "overscan") == 1 {
			w.bit(1)
			w.bit(flip(t, "overscanOK"))
		} else {
			w.bit(0)
		}
		if flip(t, "signal") == 1 {
			w.bit(1)
			w.u(3, uint64(rapid.IntRange(0, 7).Draw(t, "format")))
			w.bit(flip(t, "fullRange"))
			if flip(t, "colour") == 1 {
				w.bit(1)
				for i := 0; i < 3; i++ {
					w.u(8, uint64(rapid.Byte().Draw(t, "colourByte")))
				}
			} else {
				w.bit(0)
			}
		} else {
			w.bit(0)
		}
		if flip(t, "chromaLoc") == 1 {
			w.bit(1)
			w.ue(uint64(rapid.IntRange(0, 5).Draw(t, "locTop")))
			w.ue(uint64(rapid.IntRange(0, 5).Draw(t, "locBottom")))
		} else {
			w.bit(0)
		}
		if rapid.IntRange(0, 3).Draw(t, "timing") > 0 {
			w.bit(1)
			units := 1 + magnitude(t, "units", 1<<32-2)
			scale := magnitude(t, "scale", 1<<32-1)
			if rapid.Bool().Draw(t, "commonRate") {
				units = rapid.SampledFrom([]uint64{1, 1001, 1000, 3003}).Draw(t, "commonUnits")
				scale = rapid.SampledFrom([]uint64{50, 48000, 60000, 120000, 90000, 24, 30, 2}).Draw(t, "commonScale")
			}
			w.u(32, units)
			w.u(32, scale)
			w.bit(flip(t, "fixedRate"))
			s.fps = int(scale / (2 * units))
		} else {
			w.bit(0)
		}
		w.bit(0) // nal_hrd
		w.bit(0) // vcl_hrd
		w.bit(flip(t, "picStruct"))
		if flip(t, "restriction") == 1 {
			w.bit(1)
			w.bit(1)
			for i := 0; i < 6; i++ {
				w.ue(uint64(rapid.IntRange(0, 16).Draw(t, "restrict")))
			}
		} else {
			w.bit(0)
		}
	} else {
		w.bit(0)
	}
	s.rbsp = w.trail()
	s.nal = escape(s.rbsp)
	s.escaped = len(s.nal) != len(s.rbsp)
	s.desc = fmt.Sprintf("avc-sps(profile=%d chroma=%d sep=%d lists=%v poc=%d %dx%d mb frame_only=%d crop=%v -> %dx%d fps=%d escaped=%v)",
		s.profile, chroma, sep, s.lists, poc, s.mbW, s.mbH, fmo, s.crop, s.width, s.height, s.fps, s.escaped)
	return s
}

func genHevcSPS(t *rapid.T) *paramSet {
	s := &paramSet{}
	w := &bitw{}
	w.u(16, uint64(33<<9|1))
	w.u(4, uint64(rapid.IntRange(0, 15).Draw(t, "vpsID")))
	sub := rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4, 5, 6}).Draw(t, "subLayers")
	s.subLayers = sub + 1
	w.u(3, uint64(sub))
	nesting := flip(t, "nesting")
	w.bit(nesting)
	// profile_tier_level
	ptl := func(zeroish bool) (h hevcHead) {
		h.space = rapid.IntRange(0, 3).Draw(t, "space")
		h.tier = flip(t, "tier")
		h.profile = rapid.IntRange(0, 11).Draw(t, "profileIdc")
		if zeroish {
			h.compat = rapid.SampledFrom([]uint32{0, 0x60000000, 1 << 29, 3, 1}).Draw(t, "compatFlags")
			h.constraint = rapid.SampledFrom([]uint64{0, 0x900000000000, 1, 3, 2 << 16}).Draw(t, "constraints")
		} else {
			h.compat = uint32(rapid.Uint64().Draw(t, "compatFlags"))
			h.constraint = rapid.Uint64().Draw(t, "constraints") & (1<<48 - 1)
		}
		w.u(2, uint64(h.space))
		w.bit(h.tier)
		w.u(5, uint64(h.profile))
		w.u(32, uint64(h.compat))
		w.u(48, h.constraint)
		return
	}
	zeroish := rapid.Bool().Draw(t, "zeroPTL")
	s.head = ptl(zeroish)
	s.head.level = rapid.SampledFrom([]int{30, 60, 93, 120, 123, 150, 153, 0}).Draw(t, "levelIdc")
	w.u(8, uint64(s.head.level))
	s.head.layers, s.head.nested, s.head.lengthSize = s.subLayers, nesting, 4
	if sub > 0 {
		var pp, lp [6]int
		for i := 0; i < sub; i++ {
			pp[i], lp[i] = flip(t, "subProfile"), flip(t, "subLevel")
			w.bit(pp[i])
			w.bit(lp[i])
		}
		for i := sub; i < 8; i++ {
			w.u(2, 0)
		}
		for i := 0; i < sub; i++ {
			if pp[i] == 1 {
				ptl(zeroish)
			}
			if lp[i] == 1 {
				w.u(8, uint64(rapid.Byte().Draw(t, "subLevelIdc")))
			}
		}
	}
	s.id = rapid.IntRange(0, 15).Draw(t, "spsID")
	w.ue(uint64(s.id))
	chroma := rapid.SampledFrom([]int{1, 0, 2, 3, 1}).Draw(t, "chroma")
	w.ue(uint64(chroma))
	if chroma == 3 {
		w.bit(flip(t, "sepPlane"))
	}
	s.codedW = 1 + int(magnitude(t, "width", 65535))
	s.codedH = 1 + int(magnitude(t, "height", 65535))
	w.ue(uint64(s.codedW))
	w.ue(uint64(s.codedH))
	ux, uy := 1, 1
	switch chroma {
	case 1:
		ux, uy = 2, 2
	case 2:
		ux = 2
	}
	s.width, s.height = s.codedW, s.codedH
	if flip(t, "window") == 1 {
		w.bit(1)
		maxX, maxY := (s.codedW-1)/ux, (s.codedH-1)/uy
		s.crop[0] = rapid.IntRange(0, min(maxX, 40)).Draw(t, "winL")
		s.crop[1] = rapid.IntRange(0, min(maxX-s.crop[0], 40)).Draw(t, "winR")
		s.crop[2] = rapid.IntRange(0, min(maxY, 40)).Draw(t, "winT")
		s.crop[3] = rapid.IntRange(0, min(maxY-s.crop[2], 40)).Draw(t, "winB")
		for _, c := range s.crop {
			w.ue(uint64(c))
		}
		s.width -= ux * (s.crop[0] + s.crop[1])
		s.height -= uy * (s.crop[2] + s.crop[3])
	} else {
		w.bit(0)
	}
	s.geomEnd = w.nbit
	s.head.chroma, s.head.bdl, s.head.bdc = chroma, rapid.IntRange(0, 8).Draw(t, "bdl"), rapid.IntRange(0, 8).Draw(t, "bdc")
	w.ue(uint64(s.head.bdl))
	w.ue(uint64(s.head.bdc))
	w.ue(uint64(rapid.IntRange(0, 12).Draw(t, "log2Poc")))
	ordering := flip(t, "ordering")
	w.bit(ordering)
	from := sub
	if ordering == 1 {
		from = 0
	}
	for i := from; i <= sub; i++ {
		w.ue(uint64(rapid.IntRange(0, 15).Draw(t, "dpb")))
		w.ue(uint64(rapid.IntRange(0, 15).Draw(t, "reorder")))
		w.ue(magnitude(t, "latency", 1<<32-2))
	}
	for i := 0; i < 6; i++ {
		w.ue(uint64(rapid.IntRange(0, 4).Draw(t, "blockSize")))
	}
	w.bit(0) // scaling lists
	w.bit(flip(t, "amp"))
	w.bit(flip(t, "sao"))
	w.bit(0) // pcm
	w.ue(0)  // short-term ref pic sets
	w.bit(0)
	w.bit(flip(t, "tmvp"))
	w.bit(flip(t, "strong"))
	w.bit(0) // vui
	w.bit(0) // extension
	s.rbsp = w.trail()
	s.nal = escape(s.rbsp)
	s.escaped = len(s.nal) != len(s.rbsp)
	s.desc = fmt.Sprintf("hevc-sps(sublayers=%d chroma=%d coded=%dx%d window=%v -> %dx%d escaped=%v)",
		s.subLayers, chroma, s.codedW, s.codedH, s.crop, s.width, s.height, s.escaped)
	return s
}

// sps draws a sequence parameter set of the codec.
func (c vcodec) sps(t *rapid.T) *paramSet {
	if c == h264 {
		return genAvcSPS(t)
	}
	return genHevcSPS(t)
}
