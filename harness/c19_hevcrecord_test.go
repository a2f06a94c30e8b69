package harness

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/hevc"
	"pgregory.net/rapid"
)

// hevcArray is one array of units of a type in a configuration record.
type hevcArray struct {
	typ, complete int
	nals          [][]byte
}

// hevcHead is the fixed part of a HEVCDecoderConfigurationRecord.
type hevcHead struct {
	space, tier, profile int
	compat               uint32
	constraint           uint64
	level                int
	segmentation         int
	parallel, chroma     int
	bdl, bdc             int
	rate                 int
	constRate, layers    int
	nested, lengthSize   int
}

func (h hevcHead) write(arrays []hevcArray) []byte {
	w := &bitw{}
	w.u(8, 1)
	w.u(2, uint64(h.space))
	w.u(1, uint64(h.tier))
	w.u(5, uint64(h.profile))
	w.u(32, uint64(h.compat))
	w.u(48, h.constraint)
	w.u(8, uint64(h.level))
	w.u(4, 15)
	w.u(12, uint64(h.segmentation))
	w.u(6, 63)
	w.u(2, uint64(h.parallel))
	w.u(6, 63)
	w.u(2, uint64(h.chroma))
	w.u(5, 31)
	w.u(3, uint64(h.bdl))
	w.u(5, 31)
	w.u(3, uint64(h.bdc))
	w.u(16, uint64(h.rate))
	w.u(2, uint64(h.constRate))
	w.u(3, uint64(h.layers))
	w.u(1, uint64(h.nested))
	w.u(2, uint64(h.lengthSize-1))
	w.u(8, uint64(len(arrays)))
	b := w.b
	for _, a := range arrays {
		b = append(b, byte(a.complete<<7|a.typ), byte(len(a.nals)>>8), byte(len(a.nals)))
		for _, n := range a.nals {
			b = append(append(b, byte(len(n)>>8), byte(len(n))), n...)
		}
	}
	return b
}

func drawHevcHead(t *rapid.T) hevcHead {
	bits := func(n int, label string) int { return rapid.IntRange(0, 1<<n-1).Draw(t, label) }
	return hevcHead{
		space: bits(2, "space"), tier: bits(1, "tier"), profile: bits(5, "profile"),
		compat: rapid.Uint32().Draw(t, "compat"), constraint: rapid.Uint64Range(0, 1<<48-1).Draw(t, "constraint"),
		level: bits(8, "level"), segmentation: bits(12, "segmentation"), parallel: bits(2, "parallel"), chroma: bits(2, "chroma"),
		bdl: bits(3, "bdl"), bdc: bits(3, "bdc"), rate: bits(16, "rate"), constRate: bits(2, "constRate"),
		layers: bits(3, "layers"), nested: bits(1, "nested"), lengthSize: rapid.SampledFrom([]int{4, 1, 2, 3, 4}).Draw(t, "lengthSize"),
	}
}

var hevcReaders = []struct {
	name string
	f    func([]byte) ([]byte, error)
}{
	{"ExtraDataToAnnexB", hevc.ExtraDataToAnnexB},
	{"Unmarshal", func(b []byte) ([]byte, error) {
		var r hevc.HEVCDecoderConfigurationRecord
		err := r.Unmarshal(b)
		return join(append(append(append([][]byte{}, r.VPSList...), r.SPSList...), r.PPSList...)...), err
	}},
	{"Unmarshal into a used record", func(b []byte) ([]byte, error) {
		var r hevc.HEVCDecoderConfigurationRecord
		must(r.Unmarshal(hevcHead{}.write([]hevcArray{{typ: 32, nals: [][]byte{{0x40, 1, 2}}}, {typ: 33, nals: [][]byte{{0x42, 1, 2}}}, {typ: 34, nals: [][]byte{{0x44, 1, 2}}}})))
		err := r.Unmarshal(b)
		return join(append(append(append([][]byte{}, r.VPSList...), r.SPSList...), r.PPSList...)...), err
	}},
}

func TestC19_Unmarshal(t *testing.T) {
	check(t, "records from an independent writer: 3-8 arrays in any order, kinds split over several arrays, other unit types and empty arrays among them, every header field free; a third truncated or lacking a kind; non-trivial: not the plain three single-set arrays, or malformed",
		76000, 2200000, func(t *rapid.T, k *kase) {
			head := drawHevcHead(t)
			bad := rapid.SampledFrom([]string{"", "", "", "", "cut", "lacking"}).Draw(t, "bad")
			lacking := -1
			if bad == "lacking" {
				lacking = rapid.SampledFrom([]int{32, 33, 34}).Draw(t, "lacking")
			}
			var arrays []hevcArray
			for _, typ := range []int{32, 33, 34} {
				if typ == lacking {
					if rapid.Bool().Draw(t, "emptyArray") {
						arrays = append(arrays, hevcArray{typ: typ})
					}
					continue
				}
				for i := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "arrays"); i > 0; i-- {
					arrays = append(arrays, hevcArray{typ, flip(t, "complete"), h265.setList(t, typ, setCount(t, "n", 40), 0)})
				}
			}
			for rapid.IntRange(0, 2).Draw(t, "other") == 2 {
				typ := rapid.SampledFrom([]int{39, 40, 35, 63, 0, 1, 62}).Draw(t, "otherType")
				arrays = append(arrays, hevcArray{typ, flip(t, "complete"), h265.setList(t, typ, rapid.IntRange(0, 3).Draw(t, "n"), 0)})
			}
			if rapid.IntRange(0, 199).Draw(t, "crowd") == 117 { // as many arrays as a record can hold
				k.Label("100+ arrays")
				for n := rapid.SampledFrom([]int{255, 130, 100}).Draw(t, "arrays") - len(arrays); n > 0; n-- {
					typ := rapid.SampledFrom([]int{39, 32, 33, 34, 40}).Draw(t, "crowdType")
					if typ == lacking {
						typ = 40
					}
					arrays = append(arrays, hevcArray{typ, flip(t, "complete"), h265.setList(t, typ, 1, 0)})
				}
			}
			if rapid.Bool().Draw(t, "shuffled") {
				arrays = rapid.Permutation(arrays).Draw(t, "order")
			}
			var lists [3][][]byte
			plain := len(arrays) == 3
			for i, a := range arrays {
				if a.typ >= 32 && a.typ <= 34 {
					lists[a.typ-32] = append(lists[a.typ-32], a.nals...)
				}
				plain = plain && a.typ == 32+i && len(a.nals) == 1
			}
			rec := head.write(arrays)
			if bad == "cut" {
				n := rapid.IntRange(0, len(rec)-1).Draw(t, "cutAt")
				rec = rec[:n:n]
			}
			orig := clone(rec)
			k.Desc("%s %+v vps %s sps %s pps %s arrays", bad, head, briefs(lists[0]), briefs(lists[1]), briefs(lists[2]))
			for _, a := range arrays {
				k.Desc(" %d*%d", a.typ, len(a.nals))
			}
			k.Nontrivial(!plain || bad != "")
			k.LabelIf(bad != "", bad)
			k.LabelIf(len(rec) > 1024, "over 1 KiB")
			k.LabelIf(len(lists[1]) > 1, "several SPS")
			var all [][]byte
			for _, l := range lists {
				all = append(all, withSC4s(l)...)
			}
			want := join(all...)
			for _, rd := range hevcReaders {
				got, err := rd.f(rec)
				if bad != "" {
					if err == nil {
						t.Fatalf("%s: %s of %x accepted as %x", bad, rd.name, clip(rec), clip(got))
					}
				} else if err != nil || !bytes.Equal(got, want) {
					t.Fatalf("%s of vps %s sps %s pps %s: %x, %v, want %x", rd.name, briefs(lists[0]), briefs(lists[1]), briefs(lists[2]), clip(got), err, clip(want))
				}
			}
			if !bytes.Equal(rec, orig) {
				t.Fatalf("input changed")
			}
			if bad != "" {
				return
			}
			var r hevc.HEVCDecoderConfigurationRecord
			var old [3][][]byte // the sets the record object held before
			if rapid.Bool().Draw(t, "used") {
				k.Label("used record")
				var arrays []hevcArray
				for i := range old {
					old[i] = h265.setList(t, 32+i, rapid.IntRange(1, 3).Draw(t, "oldN"), 0)
					arrays = append(arrays, hevcArray{typ: 32 + i, nals: old[i]})
				}
				must(r.Unmarshal(drawHevcHead(t).write(arrays)))
			}
			oldVPS, oldSPS, oldPPS := r.VPSList, r.SPSList, r.PPSList
			must(r.Unmarshal(rec))
			if !sameUnits(oldVPS, withSC4s(old[0])) || !sameUnits(oldSPS, withSC4s(old[1])) || !sameUnits(oldPPS, withSC4s(old[2])) {
				t.Fatalf("the sets parsed before, %s %s %s, are now %s %s %s", briefs(old[0]), briefs(old[1]), briefs(old[2]), briefs(oldVPS), briefs(oldSPS), briefs(oldPPS))
			}
			for i := range rec { // the parsed sets are copies
				rec[i] ^= 0xFF
			}
			if !sameUnits(r.VPSList, withSC4s(lists[0])) || !sameUnits(r.SPSList, withSC4s(lists[1])) || !sameUnits(r.PPSList, withSC4s(lists[2])) {
				t.Fatalf("sets %s | %s | %s, want %s | %s | %s", briefs(r.VPSList), briefs(r.SPSList), briefs(r.PPSList), briefs(lists[0]), briefs(lists[1]), briefs(lists[2]))
			}
			got := hevcHeadOf(&r)
			if got != head || r.ConfigurationVersion != 1 || int(r.NumOfArrays) != len(arrays) {
				t.Fatalf("header %+v, want %+v", got, head)
			}
		})
}

// hevcHeadOf is the header a record was read to have.
func hevcHeadOf(r *hevc.HEVCDecoderConfigurationRecord) hevcHead {
	return hevcHead{
		space: int(r.GeneralProfileSpace), tier: int(r.GeneralTierFlag), profile: int(r.GeneralProfileIdc),
		compat: r.GeneralProfileCompatibilityFlags, constraint: r.GeneralConstraintIndicatorFlags, level: int(r.GeneralLevelIdc),
		segmentation: int(r.MinSpatialSegmentationIdc), parallel: int(r.ParallelismType), chroma: int(r.ChromaFormat),
		bdl: int(r.BitDepthLumaMinus8), bdc: int(r.BitDepthChromaMinus8), rate: int(r.AvgFrameRate),
		constRate: int(r.ConstantFrameRate), layers: int(r.NumTemporalLayers), nested: int(r.TemporalIdNested),
		lengthSize: int(r.LengthSizeMinusOne), // the field holds the size itself; the packet converter relies on it
	}
}

// states compares a record made from sets with what the sets say; the average frame
// rate and the like are not to be found in them.
func (s *paramSet) states(rec []byte) error {
	want := s.head
	want.bdl, want.bdc = want.bdl&7, want.bdc&7 // 16 bit samples have no place in a record
	w := want.write(nil)
	for i := 0; i < 22; i++ {
		if i < len(rec) && rec[i] == w[i] {
			continue
		}
		return fmt.Errorf("record %x states otherwise than its set in byte %d, want %x", clip(rec), i, w[:22])
	}
	return nil
}

func TestC19_Marshal(t *testing.T) {
	check(t, "1-40 (now and then 300 or 65535) sets of each kind with 0/3/4-byte start codes, sizes up to 65535, a sixth with a list no record can hold; non-trivial: 2+ sets of a kind, over 1000 bytes, or an impossible list",
		40000, 1200000, func(t *rapid.T, k *kase) {
			var lists [3][][]byte
			for i := range lists {
				n := setCount(t, "n", 40)
				if rapid.IntRange(0, 60).Draw(t, "many") == 60 {
					n = 300
				}
				lists[i] = h265.setList(t, 32+i, n, 0)
			}
			full := rapid.IntRange(0, 400).Draw(t, "full") == 237
			if full { // as many as a record can hold
				l := &lists[rapid.IntRange(0, 2).Draw(t, "fullKind")]
				for len(*l) < 65535 {
					*l = append(*l, []byte{(*l)[0][0], 1, 0x80})
				}
			}
			bad := ""
			if rapid.IntRange(0, 5).Draw(t, "impossible") == 5 {
				bad = rapid.SampledFrom([]string{"none", "huge", "empty unit"}).Draw(t, "bad")
				if rapid.IntRange(0, 60).Draw(t, "badCount") == 60 {
					bad = "count"
				}
				l := &lists[rapid.IntRange(0, 2).Draw(t, "which")]
				i := rapid.IntRange(0, len(*l)-1).Draw(t, "at")
				switch bad {
				case "none":
					*l = nil
				case "huge":
					(*l)[i] = append(clone((*l)[i]), bytes.Repeat([]byte{0x5A}, rapid.SampledFrom([]int{65536 - len((*l)[i]), 65537, 100000}).Draw(t, "n"))...)
				case "empty unit":
					(*l)[0] = nil
				case "count":
					for n := rapid.SampledFrom([]int{65536, 65537}).Draw(t, "n"); len(*l) < n; {
						*l = append(*l, []byte{(*l)[0][0], 1, 0x80})
					}
				}
			}
			var in, keep [3][][]byte
			sum := 0
			for i := range lists {
				if bad == "count" || full {
					in[i] = withSC4s(lists[i])
				} else {
					in[i] = prefixed(t, lists[i])
				}
				keep[i] = clones(in[i])
				sum += total(lists[i], 2)
				k.Desc("%s | ", briefs(lists[i]))
				k.Nontrivial(len(lists[i]) > 1)
			}
			k.Nontrivial(sum > 1000 || bad != "")
			k.LabelIf(bad != "", bad)
			k.LabelIf(sum > 1000, "over 1000 bytes")
			k.LabelIf(full, "65535 sets")
			got, err := (&hevc.HEVCDecoderConfigurationRecord{}).Marshal(in[0], in[1], in[2])
			for i := range lists {
				if !sameUnits(in[i], keep[i]) {
					t.Fatalf("input changed")
				}
			}
			if bad != "" {
				if err == nil {
					t.Fatalf("%s accepted: %s | %s | %s -> %s", bad, briefs(lists[0]), briefs(lists[1]), briefs(lists[2]), brief(got))
				}
				return
			}
			if err != nil {
				t.Fatalf("%s | %s | %s: %v", briefs(lists[0]), briefs(lists[1]), briefs(lists[2]), err)
			}
			var r hevc.HEVCDecoderConfigurationRecord
			if err := r.Unmarshal(got); err != nil {
				t.Fatalf("own record refused: %v", err)
			}
			if !sameUnits(r.VPSList, withSC4s(lists[0])) || !sameUnits(r.SPSList, withSC4s(lists[1])) || !sameUnits(r.PPSList, withSC4s(lists[2])) {
				t.Fatalf("%s | %s | %s read back as %s | %s | %s", briefs(lists[0]), briefs(lists[1]), briefs(lists[2]), briefs(r.VPSList), briefs(r.SPSList), briefs(r.PPSList))
			}
			// the record itself, apart from the header fields it does not set
			want := hevcHead{lengthSize: 4}.write([]hevcArray{{32, 0, lists[0]}, {33, 0, lists[1]}, {34, 0, lists[2]}})
			if len(got) != len(want) || got[0] != 1 || got[21]&3 != 3 || !bytes.Equal(got[22:], want[22:]) {
				t.Fatalf("record %x, want %x", clip(got), clip(want))
			}
		})
}

func TestC19_CodecData(t *testing.T) {
	check(t, "codec descriptions from a record or from sets, with a valid SPS first; non-trivial: 2+ sets of a kind or from sets",
		240000, 7200000, func(t *rapid.T, k *kase) {
			s := h265.sps(t)
			var cd avformat.CodecData
			var err error
			vps := h265.setList(t, 32, setCount(t, "nvps", 8), 0)
			sps := [][]byte{s.nal}
			pps := h265.setList(t, 34, setCount(t, "npps", 20), 0)
			fromSets := rapid.Bool().Draw(t, "fromSets")
			var rec []byte
			var lists [][][]byte // with start codes
			if fromSets {
				vps, pps = vps[:1], pps[:1]
				lists = [][][]byte{{startCoded(t, vps[0])}, {startCoded(t, s.nal)}, {startCoded(t, pps[0])}}
				cd, err = avformat.NewHEVCCodecData(clone(lists[0][0]), clone(lists[1][0]), clone(lists[2][0]))
			} else {
				sps = append(sps, h265.setList(t, 33, setCount(t, "nsps", 12)-1, 0)...)
				rec = drawHevcHead(t).write([]hevcArray{{32, 1, vps}, {33, 1, sps}, {34, 1, pps}})
				cd, err = avformat.ParseHEVCDecoderConfigurationRecord(rec)
				lists = [][][]byte{withSC4s(vps), withSC4s(sps), withSC4s(pps)}
			}
			k.Desc("fromSets=%v %s vps %s sps %s pps %s", fromSets, s.desc, briefs(vps), briefs(sps), briefs(pps))
			if err != nil {
				t.Fatalf("%s: %v", briefs(sps), err)
			}
			if cd.Width() != s.width || cd.Height() != s.height {
				t.Fatalf("size %dx%d, want %dx%d", cd.Width(), cd.Height(), s.width, s.height)
			}
			if !sameUnits(cd.(*avformat.HEVCCodecData).VPS(), lists[0]) || !sameUnits(cd.SPS(), lists[1]) || !sameUnits(cd.PPS(), lists[2]) {
				t.Fatalf("sets %s, %s", briefs(cd.SPS()), briefs(cd.PPS()))
			}
			if want := join(append(append(clones(lists[0]), lists[1]...), lists[2]...)...); !bytes.Equal(cd.AnnexBExtraData(), want) {
				t.Fatalf("extra data %x, want %x", clip(cd.AnnexBExtraData()), clip(want))
			}
			got := cd.MP4ExtraData()
			if rec != nil {
				if !bytes.Equal(got, rec) {
					t.Fatalf("record %x, want %x", clip(got), clip(rec))
				}
			} else {
				var r hevc.HEVCDecoderConfigurationRecord
				if err := r.Unmarshal(got); err != nil || !sameUnits(r.VPSList, withSC4s(vps)) || !sameUnits(r.SPSList, withSC4s(sps)) || !sameUnits(r.PPSList, withSC4s(pps)) {
					t.Fatalf("record %x: %v", clip(got), err)
				}
				if err := s.states(got); err != nil {
					t.Fatalf("%s: %v", s.desc, err)
				}
			}
			k.Nontrivial(fromSets || len(vps) > 1 || len(sps) > 1 || len(pps) > 1)
		})
}
