package harness

import (
	"bytes"
	"testing"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"pgregory.net/rapid"
)

// refAvcRecord writes an AVCDecoderConfigurationRecord from raw units (no start codes);
// setsEnd is the length up to and including the last picture parameter set.
func refAvcRecord(profile, compat, level byte, lengthSize int, sps, pps [][]byte, tail []byte) (b []byte, setsEnd int) {
	b = []byte{1, profile, compat, level, 0xFC | byte(lengthSize-1), 0xE0 | byte(len(sps))}
	for _, s := range sps {
		b = append(append(b, byte(len(s)>>8), byte(len(s))), s...)
	}
	b = append(b, byte(len(pps)))
	for _, s := range pps {
		b = append(append(b, byte(len(s)>>8), byte(len(s))), s...)
	}
	return append(b, tail...), len(b)
}

// setList draws n parameter sets of a type; sizes are usually small, now and then huge.
func (c vcodec) setList(t *rapid.T, typ, n, minPayload int) (out [][]byte) {
	for i := 0; i < n; i++ {
		max := 40
		switch rapid.IntRange(0, 40).Draw(t, "setSize") {
		case 40:
			max = 40000 // escaping adds up to half
		case 39, 38:
			max = 1500
		}
		if n > 12 {
			max = 12
		}
		u := mkNal(c.header(t, typ), blobUpTo(t, "set", minPayload, max))
		if rapid.IntRange(0, 400).Draw(t, "setFull") == 400 { // the largest a 16-bit length can state
			u = append(bytes.Repeat([]byte{0x5A}, 65535-len(u)), u...)
			copy(u, c.header(t, typ))
		}
		out = append(out, u)
	}
	return
}

func setCount(t *rapid.T, label string, max int) int {
	switch rapid.IntRange(0, 9).Draw(t, label+"Class") {
	case 8:
		return rapid.IntRange(1, max).Draw(t, label)
	case 9:
		return rapid.SampledFrom([]int{max, max - 1, max/2 + 1}).Draw(t, label)
	}
	return rapid.IntRange(1, 3).Draw(t, label)
}

func prefixed(t *rapid.T, us [][]byte) (out [][]byte) {
	for _, u := range us {
		out = append(out, withStartCode(t, u))
	}
	return
}

func withSC4s(us [][]byte) (out [][]byte) {
	for _, u := range us {
		out = append(out, withSC4(u))
	}
	return
}

// sameProfile copies profile, compatibility and level of the first set to all.
func sameProfile(sps [][]byte) {
	for _, s := range sps {
		copy(s[1:4], sps[0][1:4])
	}
}

func someHeader(h []byte, sps [][]byte) bool {
	for _, s := range sps {
		if bytes.Equal(h, s[1:4]) {
			return true
		}
	}
	return false
}

func TestC18_Marshal(t *testing.T) {
	check(t, "1-31 SPS and 1-255 PPS of 1..65535 bytes with 0/3/4-byte start codes, a sixth with a list no record can hold; non-trivial: 2+ sets of a kind, a set over 1000 bytes, or an impossible list",
		80000, 2400000, func(t *rapid.T, k *kase) {
			sps := h264.setList(t, 7, setCount(t, "nsps", 31), 3)
			pps := h264.setList(t, 8, setCount(t, "npps", 255), 0)
			mixed := rapid.IntRange(0, 4).Draw(t, "mixed") == 4
			for _, s := range sps {
				for i := 1; i < 4; i++ {
					if s[i] == 0 { // avoid bytes whose escaping would change with the copy below
						s[i] = 0x42
					}
				}
			}
			if !mixed {
				sameProfile(sps)
			}
			bad := ""
			if rapid.IntRange(0, 5).Draw(t, "impossible") == 5 {
				at := func(n int) int { return rapid.IntRange(0, n-1).Draw(t, "at") }
				bad = rapid.SampledFrom([]string{"no sps", "no pps", "32 sps", "256 pps", "huge sps", "huge pps", "short sps"}).Draw(t, "bad")
				switch bad {
				case "no sps":
					sps = nil
				case "no pps":
					pps = nil
				case "32 sps":
					for n := rapid.SampledFrom([]int{32, 33, 64, 256, 257}).Draw(t, "n"); len(sps) < n; {
						sps = append(sps, sps[0])
					}
				case "256 pps":
					for n := rapid.SampledFrom([]int{256, 257, 300, 512}).Draw(t, "n"); len(pps) < n; {
						pps = append(pps, pps[0])
					}
				case "huge sps":
					i := at(len(sps))
					sps[i] = append(clone(sps[i]), bytes.Repeat([]byte{0x5A}, rapid.SampledFrom([]int{65536 - len(sps[i]), 65537, 100000}).Draw(t, "n"))...)
				case "huge pps":
					i := at(len(pps))
					pps[i] = append(clone(pps[i]), bytes.Repeat([]byte{0x5A}, rapid.SampledFrom([]int{65536 - len(pps[i]), 65537, 100000}).Draw(t, "n"))...)
				case "short sps": // no room for profile and level
					i := at(len(sps))
					sps[i] = sps[i][:rapid.IntRange(0, 3).Draw(t, "n")]
					if i != len(sps)-1 || rapid.Bool().Draw(t, "alone") {
						sps = [][]byte{sps[i]}
					}
				}
			}
			k.Desc("%s sps %s pps %s", bad, briefs(sps), briefs(pps))
			inSps, inPps := prefixed(t, sps), prefixed(t, pps)
			keepSps, keepPps := clones(inSps), clones(inPps)
			got, err := (&avc.AVCDecoderConfigurationRecord{}).Marshal(inSps, inPps)
			if !sameUnits(keepSps, inSps) || !sameUnits(keepPps, inPps) {
				t.Fatalf("input changed")
			}
			k.Nontrivial(len(sps) > 1 || len(pps) > 1 || total(sps, 0)+total(pps, 0) > 1000 || bad != "")
			if bad != "" {
				k.Label("%s", bad)
				if err == nil {
					t.Fatalf("%s: accepted, sps %s pps %s -> %s", bad, briefs(sps), briefs(pps), brief(got))
				}
				return
			}
			if err != nil {
				t.Fatalf("sps %s pps %s: %v", briefs(sps), briefs(pps), err)
			}
			k.LabelIf(len(got) > 1024, "over 1 KiB")
			want, _ := refAvcRecord(0, 0, 0, 4, sps, pps, nil)
			if len(got) > 3 && someHeader(got[1:4], sps) {
				copy(want[1:4], got[1:4])
			}
			if !bytes.Equal(got, want) {
				t.Fatalf("sps %s pps %s: record %x, want %x", briefs(sps), briefs(pps), clip(got), clip(want))
			}
			var r avc.AVCDecoderConfigurationRecord
			if err := r.Unmarshal(got); err != nil {
				t.Fatalf("own record refused: %v", err)
			}
			if !sameUnits(r.SPSList, withSC4s(sps)) || !sameUnits(r.PPSList, withSC4s(pps)) {
				t.Fatalf("sps %s pps %s: read back as %s, %s", briefs(sps), briefs(pps), briefs(r.SPSList), briefs(r.PPSList))
			}
		})
}

func clones(bs [][]byte) (out [][]byte) {
	for _, b := range bs {
		out = append(out, clone(b))
	}
	return
}

// startCoded puts a start code of either length in front of a set.
func startCoded(t *rapid.T, nal []byte) []byte {
	return append(startCode(t), nal...)
}

// avcReaders are the ways to get extra data out of a record.
var avcReaders = []struct {
	name string
	f    func([]byte) ([]byte, error)
}{
	{"ExtraDataToAnnexB", avc.ExtraDataToAnnexB},
	{"M4VCExtraDataToAnnexB", avc.M4VCExtraDataToAnnexB},
	{"Unmarshal", func(b []byte) ([]byte, error) {
		var r avc.AVCDecoderConfigurationRecord
		err := r.Unmarshal(b)
		return join(append(append([][]byte{}, r.SPSList...), r.PPSList...)...), err
	}},
	{"Unmarshal into a used record", func(b []byte) ([]byte, error) {
		var r avc.AVCDecoderConfigurationRecord
		old, _ := refAvcRecord(66, 0, 30, 4, [][]byte{{0x67, 66, 0, 30}, {0x67, 1}}, [][]byte{{0x68, 2}}, nil)
		must(r.Unmarshal(old))
		err := r.Unmarshal(b)
		return join(append(append([][]byte{}, r.SPSList...), r.PPSList...)...), err
	}},
}

func TestC18_Unmarshal(t *testing.T) {
	check(t, "records from an independent writer (1-31 SPS, 1-255 PPS, any length size, optional trailing extension), half of them truncated anywhere or empty of a kind; non-trivial: 2+ sets of a kind, over 1000 bytes, or malformed",
		68000, 2000000, func(t *rapid.T, k *kase) {
			sps := h264.setList(t, 7, setCount(t, "nsps", 31), 3)
			pps := h264.setList(t, 8, setCount(t, "npps", 255), 0)
			bad := rapid.SampledFrom([]string{"", "", "", "cut", "cut", "no sps", "no pps"}).Draw(t, "bad")
			switch bad {
			case "no sps":
				sps = nil
			case "no pps":
				pps = nil
			}
			tail := rapid.SampledFrom([][]byte{nil, {0xFD, 0xF8, 0xF8, 0}, {0}, {0xFD, 0xF8, 0xF8, 1, 0, 2, 0x6D, 0x11}}).Draw(t, "tail")
			ls := rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "lengthSize")
			h := rapid.SliceOfN(rapid.Byte(), 3, 3).Draw(t, "head")
			rec, end := refAvcRecord(h[0], h[1], h[2], ls, sps, pps, tail)
			if bad == "cut" {
				n := rapid.IntRange(0, end-1).Draw(t, "cutAt")
				if rapid.Bool().Draw(t, "cutEarly") {
					n = rapid.IntRange(0, min(end-1, 40)).Draw(t, "cutAt")
				}
				rec = rec[:n:n]
			}
			orig := clone(rec)
			k.Desc("%s tail %d len %d sps %s pps %s", bad, len(tail), len(rec), briefs(sps), briefs(pps))
			k.Nontrivial(len(sps) > 1 || len(pps) > 1 || len(rec) > 1000 || bad != "")
			k.LabelIf(bad != "", bad)
			want := join(append(withSC4s(sps), withSC4s(pps)...)...)
			for _, rd := range avcReaders {
				got, err := rd.f(rec)
				if bad != "" {
					if err == nil {
						t.Fatalf("%s: %s of %x accepted as %x", bad, rd.name, clip(rec), clip(got))
					}
				} else if err != nil || !bytes.Equal(got, want) {
					t.Fatalf("%s of sps %s pps %s: %x, %v, want %x", rd.name, briefs(sps), briefs(pps), clip(got), err, clip(want))
				}
			}
			if !bytes.Equal(rec, orig) {
				t.Fatalf("input changed")
			}
			if bad != "" {
				return
			}
			var r avc.AVCDecoderConfigurationRecord
			var old [2][][]byte // the sets the record object held before
			if rapid.Bool().Draw(t, "used") {
				k.Label("used record")
				old = [2][][]byte{h264.setList(t, 7, rapid.IntRange(1, 3).Draw(t, "oldSps"), 3), h264.setList(t, 8, rapid.IntRange(1, 3).Draw(t, "oldPps"), 0)}
				oh := rapid.SliceOfN(rapid.Byte(), 3, 3).Draw(t, "oldHead")
				rec, _ := refAvcRecord(oh[0], oh[1], oh[2], rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "oldLength"), old[0], old[1], nil)
				must(r.Unmarshal(rec))
			}
			oldSPS, oldPPS := r.SPSList, r.PPSList
			must(r.Unmarshal(rec))
			if !sameUnits(oldSPS, withSC4s(old[0])) || !sameUnits(oldPPS, withSC4s(old[1])) {
				t.Fatalf("the sets parsed before, %s and %s, are now %s and %s", briefs(old[0]), briefs(old[1]), briefs(oldSPS), briefs(oldPPS))
			}
			if r.ConfigurationVersion != 1 || r.AVCProfileIndication != h[0] || r.ProfileCompatibility != h[1] || r.AVCLevelIndication != h[2] || int(r.LengthSizeMinusOne) != ls-1 {
				t.Fatalf("fields %+v from %x", r, rec[:5])
			}
			if !sameUnits(r.SPSList, withSC4s(sps)) || !sameUnits(r.PPSList, withSC4s(pps)) {
				t.Fatalf("sets %s %s, want %s %s", briefs(r.SPSList), briefs(r.PPSList), briefs(sps), briefs(pps))
			}
			// the parsed sets are copies
			for i := range rec {
				rec[i] ^= 0xFF
			}
			if !sameUnits(r.SPSList, withSC4s(sps)) || !sameUnits(r.PPSList, withSC4s(pps)) {
				t.Fatalf("the parsed sets change with the input")
			}
		})
}

func TestC18_CodecData(t *testing.T) {
	check(t, "codec descriptions from a record or from sets, with a valid SPS first; non-trivial: 2+ sets of a kind or from sets",
		340000, 10000000, func(t *rapid.T, k *kase) {
			s := h264.sps(t)
			var cd avformat.CodecData
			var err error
			sps := [][]byte{s.nal}
			pps := h264.setList(t, 8, setCount(t, "npps", 20), 0)
			var rec []byte
			var lists [][][]byte // with start codes
			fromSets := rapid.Bool().Draw(t, "fromSets")
			if fromSets {
				pps = pps[:1]
				lists = [][][]byte{{startCoded(t, s.nal)}, {startCoded(t, pps[0])}}
				cd, err = avformat.NewAVCCodecData(clone(lists[0][0]), clone(lists[1][0]))
			} else {
				sps = append(sps, h264.setList(t, 7, setCount(t, "nsps", 20)-1, 3)...)
				rec, _ = refAvcRecord(s.nal[1], s.nal[2], s.nal[3], 4, sps, pps, nil)
				cd, err = avformat.ParseAVCDecoderConfigurationRecord(rec)
				lists = [][][]byte{withSC4s(sps), withSC4s(pps)}
			}
			k.Desc("fromSets=%v %s sps %s pps %s", fromSets, s.desc, briefs(sps), briefs(pps))
			if err != nil {
				t.Fatalf("%s: %v", briefs(sps), err)
			}
			if cd.Width() != s.width || cd.Height() != s.height {
				t.Fatalf("size %dx%d, want %dx%d", cd.Width(), cd.Height(), s.width, s.height)
			}
			if !sameUnits(cd.SPS(), lists[0]) || !sameUnits(cd.PPS(), lists[1]) {
				t.Fatalf("sets %s, %s", briefs(cd.SPS()), briefs(cd.PPS()))
			}
			if want := join(append(clones(lists[0]), lists[1]...)...); !bytes.Equal(cd.AnnexBExtraData(), want) {
				t.Fatalf("extra data %x, want %x", clip(cd.AnnexBExtraData()), clip(want))
			}
			if rec == nil {
				rec, _ = refAvcRecord(s.nal[1], s.nal[2], s.nal[3], 4, sps, pps, nil)
			}
			if !bytes.Equal(cd.MP4ExtraData(), rec) {
				t.Fatalf("record %x, want %x", clip(cd.MP4ExtraData()), clip(rec))
			}
			k.Nontrivial(fromSets || len(sps) > 1 || len(pps) > 1)
		})
}
