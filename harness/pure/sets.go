package main

import (
	"fmt"
	"reflect"

	"github.com/aboukirev/ouro/net/h264"
	"verif.local/harness/mc"
)

// ---- reference writer of parameter sets (clauses 7.3.2.1.1, 7.3.2.1.1.1, 7.3.2.2)

// slist is one scaling list: absent, or the deltas coded for it.
type slist struct {
	present bool
	kind    int // 0 flat, 1 default flag, 2 varying, 3 ends early, 4 extreme deltas
	at      int
}

// encode writes the list and returns the expected elements; def is the use-default flag.
func (l slist) encode(w *bitw, size int) (list []int32, def bool) {
	last := 8
	list = make([]int32, size)
	for j := 0; j < size; j++ {
		next := last
		switch l.kind {
		case 1:
			next = 0
		case 2:
			next = 8 + (j*7+l.at)%100
		case 3:
			if j < l.at {
				next = 16 + j
			} else {
				next = 0
			}
		case 4:
			next = []int{255, 1, 128, 127, 250, 3}[(j+l.at)%6]
		}
		d := next - last
		for d > 127 {
			d -= 256
		}
		for d < -128 {
			d += 256
		}
		w.se(int32(d))
		if next == 0 {
			if j == 0 {
				return nil, true
			}
			for ; j < size; j++ {
				list[j] = int32(last)
			}
			return list, false
		}
		last = next
		list[j] = int32(next)
	}
	return list, false
}

type expLists struct {
	present uint32
	def     [12]bool
	list    [12][]int32
}

func encLists(w *bitw, lists []slist, n int) (e expLists) {
	for i := 0; i < n; i++ {
		l := slist{}
		if i < len(lists) {
			l = lists[i]
		}
		w.flag(l.present)
		if !l.present {
			continue
		}
		e.present |= 1 << uint(i)
		size := 16
		if i >= 6 {
			size = 64
		}
		e.list[i], e.def[i] = l.encode(w, size)
	}
	return
}

// fill puts the lists whose content is defined over what the parser stored.
func (e *expLists) fill(flat *[6*16 + 6*64]int32) {
	off := 0
	for i := 0; i < 12; i++ {
		size := 16
		if i >= 6 {
			size = 64
		}
		if e.list[i] != nil {
			copy(flat[off:off+size], e.list[i])
		}
		off += size
	}
}

var chromaProfiles = map[int]bool{100: true, 110: true, 122: true, 244: true, 44: true, 83: true, 86: true,
	118: true, 128: true, 138: true, 139: true, 134: true, 135: true}

// spsv holds the syntax elements of an SPS.
type spsv struct {
	profile, constraint, level int
	id                         uint32
	chroma                     uint32
	separate                   bool
	luma, chromaDepth          uint32
	bypass                     bool
	matrix                     bool
	lists                      []slist
	log2frame                  uint32
	poc                        uint32
	log2poc                    uint32
	always0                    bool
	nonref, topbottom          int32
	offsets                    []int32
	refframes                  uint32
	gaps                       bool
	w, h                       uint32
	frameOnly                  bool
	mbaff                      bool
	direct                     bool
	crop                       bool
	cl, cr, ct, cb             uint32
	vui                        bool
	vuiBits                    int
}

func defaultSPS() spsv {
	return spsv{profile: 66, level: 31, chroma: 1, refframes: 1, w: 79, h: 44, frameOnly: true, direct: true}
}

// encode returns the RBSP, the number of bits of the mandatory syntax, and a function that puts the expected
// values over what was parsed.
func (s *spsv) encode() ([]byte, int, func(g *h264.SPSInfo)) {
	w := &bitw{}
	w.u(8, uint64(s.profile))
	w.u(8, uint64(s.constraint))
	w.u(8, uint64(s.level))
	w.ue(s.id)
	chroma := uint32(1)
	if s.profile == 183 {
		chroma = 0
	}
	var el expLists
	sep := false
	high := chromaProfiles[s.profile]
	if high {
		chroma = s.chroma
		w.ue(s.chroma)
		if s.chroma == 3 {
			w.flag(s.separate)
			sep = s.separate
		}
		w.ue(s.luma)
		w.ue(s.chromaDepth)
		w.flag(s.bypass)
		w.flag(s.matrix)
		if s.matrix {
			n := 8
			if s.chroma == 3 {
				n = 12
			}
			el = encLists(w, s.lists, n)
		}
	}
	w.ue(s.log2frame)
	w.ue(s.poc)
	switch s.poc {
	case 0:
		w.ue(s.log2poc)
	case 1:
		w.flag(s.always0)
		w.se(s.nonref)
		w.se(s.topbottom)
		w.ue(uint32(len(s.offsets)))
		for _, o := range s.offsets {
			w.se(o)
		}
	}
	w.ue(s.refframes)
	w.flag(s.gaps)
	w.ue(s.w)
	w.ue(s.h)
	w.flag(s.frameOnly)
	if !s.frameOnly {
		w.flag(s.mbaff)
	}
	w.flag(s.direct)
	w.flag(s.crop)
	if s.crop {
		w.ue(s.cl)
		w.ue(s.cr)
		w.ue(s.ct)
		w.ue(s.cb)
	}
	w.flag(s.vui)
	mand := len(w.bits)
	if s.vui {
		for i := 0; i < s.vuiBits; i++ {
			w.u(1, uint64(0xb5>>uint(i%8))&1)
		}
	}
	w.trail()
	// Table 6-1 and equations 7-19 .. 7-22
	ux, uy := uint32(1), uint32(1)
	if !sep {
		switch chroma {
		case 1:
			ux, uy = 2, 2
		case 2:
			ux, uy = 2, 1
		}
	}
	width := 16 * (s.w + 1)
	height := 16 * (s.h + 1)
	if !s.frameOnly {
		height *= 2
		uy *= 2
	}
	if s.crop {
		width -= ux * (s.cl + s.cr)
		height -= uy * (s.ct + s.cb)
	}
	v := *s
	return w.bytes(), mand, func(g *h264.SPSInfo) {
		g.ProfileIdc, g.ConstraintSet, g.LevelIdc = byte(v.profile), byte(v.constraint), byte(v.level)
		g.SpsID = v.id
		g.ChromaFormatIdc = chroma
		g.SeparateColorPlane = sep
		g.BitDepthLuma, g.BitDepthChroma, g.ZeroTransformBypass = 0, 0, false
		g.ScalingMatrixPresent = high && v.matrix
		g.ScalingListPresent = el.present
		if high {
			g.BitDepthLuma, g.BitDepthChroma, g.ZeroTransformBypass = v.luma, v.chromaDepth, v.bypass
		}
		g.UseDefaultScalingMatrix = el.def
		el.fill(&g.ScalingList)
		g.Log2MaxFrameNum = v.log2frame
		g.PicOrderCntType = v.poc
		g.Log2MaxPicOrderCnt = 0
		g.DeltaPicOrderAlways0 = false
		g.OffsetForNonRefPic, g.OffsetForTopToBottomField, g.NumRefFramesInPicOrderCntCycle = 0, 0, 0
		if v.poc == 0 {
			g.Log2MaxPicOrderCnt = v.log2poc
		} else if v.poc == 1 {
			g.DeltaPicOrderAlways0 = v.always0
			g.OffsetForNonRefPic, g.OffsetForTopToBottomField = v.nonref, v.topbottom
			g.NumRefFramesInPicOrderCntCycle = uint32(len(v.offsets))
		}
		g.MaxNumRefFrames = v.refframes
		g.GapsInFrameNumValueAllowed = v.gaps
		g.PicWidthInMbsMinus1, g.PicHeightInMapUnitsMinus1 = v.w, v.h
		g.FrameMbsOnly = 0
		if v.frameOnly {
			g.FrameMbsOnly = 1
		}
		g.MbAdaptiveFrameField = !v.frameOnly && v.mbaff
		g.Direct8x8Inference = v.direct
		g.FrameCropping = v.crop
		g.FrameCropLeftOffset, g.FrameCropRightOffset, g.FrameCropTopOffset, g.FrameCropBottomOffset = 0, 0, 0, 0
		if v.crop {
			g.FrameCropLeftOffset, g.FrameCropRightOffset, g.FrameCropTopOffset, g.FrameCropBottomOffset = v.cl, v.cr, v.ct, v.cb
		}
		g.VuiParametersPresent = v.vui
		g.Width, g.Height = width, height
	}
}

// diff names the fields in which two structures of the same type differ.
func diff(a, b interface{}) string {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	s := ""
	for i := 0; i < x.NumField(); i++ {
		if x.Type().Field(i).PkgPath != "" {
			continue
		}
		if f, g := x.Field(i).Interface(), y.Field(i).Interface(); !reflect.DeepEqual(f, g) {
			s += fmt.Sprintf(" %s is %v, should be %v;", x.Type().Field(i).Name, f, g)
		}
	}
	return s
}

var spsComparable = reflect.TypeOf(h264.SPSInfo{}).Comparable()

// sameSPS compares two structures, quickly if the language can.
func sameSPS(a, b *h264.SPSInfo) bool {
	if spsComparable {
		return interface{}(*a) == interface{}(*b)
	}
	return diff(*b, *a) == ""
}

func checkSPS(c *mc.C, s *spsv) {
	buf, _, fill := s.encode()
	ps := h264.NewParameterSets()
	keep := string(buf)
	if err := ps.ParseSPS(buf); err != nil {
		c.Failf("ParseSPS(% x) of %+v: %v", buf, *s, err)
	}
	if string(buf) != keep {
		c.Failf("ParseSPS modified its input")
	}
	got, ok := ps.GetSPS(s.id)
	if !ok || got == nil {
		c.Failf("ParseSPS(% x): no SPS with id %d stored", buf, s.id)
	}
	want := *got
	fill(&want)
	if !sameSPS(&want, got) {
		c.Failf("ParseSPS(% x):%s", buf, diff(*got, want))
	}
	c.Step(1)
	c.State(buf)
}

// ---- PPS

type ppsv struct {
	id, sps                  uint32
	cabac, bottom            bool
	groups                   uint32 // num_slice_groups_minus1
	mapType                  uint32
	run                      [8]uint32
	tl, br                   [8]uint32
	changeDir                bool
	changeRate               uint32
	ids                      []byte
	l0, l1                   uint32
	weighted                 bool
	bipred                   uint32
	qp, qs, cqp              int32
	deblock, intra, redunant bool
	ext                      bool
	t8x8                     bool
	matrix                   bool
	lists                    []slist
	cqp2                     int32
	zeros                    int // trailing zero bytes (cabac_zero_words and the like)
}

func (p *ppsv) encode(chroma uint32) ([]byte, int, func(g *h264.PPSInfo)) {
	w := &bitw{}
	w.ue(p.id)
	w.ue(p.sps)
	w.flag(p.cabac)
	w.flag(p.bottom)
	w.ue(p.groups)
	var run, tl, br [8]uint32
	var dir bool
	var rate, size uint32
	mt := uint32(0)
	var ids []byte
	if p.groups > 0 {
		mt = p.mapType
		w.ue(mt)
		switch mt {
		case 0:
			for i := uint32(0); i <= p.groups; i++ {
				w.ue(p.run[i])
				run[i] = p.run[i]
			}
		case 2:
			for i := uint32(0); i < p.groups; i++ {
				w.ue(p.tl[i])
				w.ue(p.br[i])
				tl[i], br[i] = p.tl[i], p.br[i]
			}
		case 3, 4, 5:
			w.flag(p.changeDir)
			w.ue(p.changeRate)
			dir, rate = p.changeDir, p.changeRate
		case 6:
			size = uint32(len(p.ids)) - 1
			w.ue(size)
			n := 1
			if p.groups+1 > 4 {
				n = 3
			} else if p.groups+1 > 2 {
				n = 2
			}
			for _, x := range p.ids {
				w.u(n, uint64(x))
			}
			ids = append([]byte{}, p.ids...)
		}
	}
	w.ue(p.l0)
	w.ue(p.l1)
	w.flag(p.weighted)
	w.u(2, uint64(p.bipred))
	w.se(p.qp)
	w.se(p.qs)
	w.se(p.cqp)
	w.flag(p.deblock)
	w.flag(p.intra)
	w.flag(p.redunant)
	mand := len(w.bits)
	var el expLists
	if p.ext {
		w.flag(p.t8x8)
		w.flag(p.matrix)
		if p.matrix {
			n := 6
			if p.t8x8 {
				n = 8
				if chroma == 3 {
					n = 12
				}
			}
			el = encLists(w, p.lists, n)
		}
		w.se(p.cqp2)
	}
	w.trail()
	buf := append(w.bytes(), make([]byte, p.zeros)...)
	v := *p
	return buf, mand, func(g *h264.PPSInfo) {
		g.PpsID, g.SpsID = v.id, v.sps
		g.EntropyCodingMode, g.BottomFieldPicOorderInFramePresent = v.cabac, v.bottom
		g.NumSliceGroupsMinus1, g.SliceGroupMapType = v.groups, mt
		g.RunLengthMinus1, g.TopLeft, g.BottomRight = run, tl, br
		g.SliceGroupChangeDirection, g.SliceGroupChangeRateMinus1 = dir, rate
		g.PicSizeInMapUnitsMinus1 = size
		if len(ids) > 0 || len(g.SliceGroupID) > 0 {
			g.SliceGroupID = ids
		}
		g.NumRefIdxL0DefaultActiveMinus1, g.NumRefIdxL1DefaultActiveMinus1 = v.l0, v.l1
		g.WeightedPred, g.WeightedBipredIdc = v.weighted, byte(v.bipred)
		g.PicInitQpMinus26, g.PicInitQsMinus26, g.ChromaQpIndexOffset = v.qp, v.qs, v.cqp
		g.DeblockingFilterControlPresent, g.ConstrainedIntraPred, g.RedundantPicCntPresent = v.deblock, v.intra, v.redunant
		g.Transform8x8Mode = v.ext && v.t8x8
		g.ScalingMatrixPresent = v.ext && v.matrix
		g.ScalingListPresent = el.present
		g.UseDefaultScalingMatrix = el.def
		el.fill(&g.ScalingList)
		if v.ext {
			g.SecondChromaQpIndexOffset = v.cqp2
		}
	}
}

// spsFor has the chroma format given.
func spsFor(id, chroma uint32) []byte {
	s := defaultSPS()
	s.id = id
	if chroma != 1 {
		s.profile = 244
		s.chroma = chroma
	}
	b, _, _ := s.encode()
	return b
}

func comparePPS(c *mc.C, ps *h264.ParameterSets, id uint32, buf []byte, fill func(g *h264.PPSInfo)) {
	got, ok := ps.GetPPS(id)
	if !ok || got == nil {
		c.Failf("ParsePPS(% x): no PPS with id %d stored", buf, id)
	}
	want := *got
	fill(&want)
	if d := diff(*got, want); d != "" {
		c.Failf("ParsePPS(% x):%s", buf, d)
	}
}

func checkPPS(c *mc.C, ps *h264.ParameterSets, p *ppsv, chroma uint32) {
	buf, _, fill := p.encode(chroma)
	keep := string(buf)
	if err := ps.ParsePPS(buf); err != nil {
		c.Failf("ParsePPS(% x) of %+v: %v", buf, *p, err)
	}
	if string(buf) != keep {
		c.Failf("ParsePPS modified its input")
	}
	comparePPS(c, ps, p.id, buf, fill)
	c.Step(1)
	c.State(buf)
}

// mut is a set of alternatives for one syntax element.
type smut struct {
	name string
	n    int
	set  func(s *spsv, i int)
}

func u32s(name string, f func(s *spsv) *uint32, vals ...uint32) smut {
	return smut{name, len(vals), func(s *spsv, i int) { *f(s) = vals[i] }}
}

func bools(name string, f func(s *spsv) *bool) smut {
	return smut{name, 1, func(s *spsv, i int) { p := f(s); *p = !*p }}
}

func i32s(name string, f func(s *spsv) *int32, vals ...int32) smut {
	return smut{name, len(vals), func(s *spsv, i int) { *f(s) = vals[i] }}
}

type pmut struct {
	name string
	n    int
	set  func(s *ppsv, i int)
}

func pu(name string, f func(s *ppsv) *uint32, vals ...uint32) pmut {
	return pmut{name, len(vals), func(s *ppsv, i int) { *f(s) = vals[i] }}
}

func pb(name string, f func(s *ppsv) *bool) pmut {
	return pmut{name, 1, func(s *ppsv, i int) { p := f(s); *p = !*p }}
}

func pi(name string, f func(s *ppsv) *int32, vals ...int32) pmut {
	return pmut{name, len(vals), func(s *ppsv, i int) { *f(s) = vals[i] }}
}

var spsMuts = []smut{
	{"constraint", 5, func(s *spsv, i int) { s.constraint = []int{0x80, 0x40, 0x04, 0xfc, 0x58}[i] }},
	{"level", 4, func(s *spsv, i int) { s.level = []int{0, 1, 0x80, 255}[i] }},
	u32s("id", func(s *spsv) *uint32 { return &s.id }, 1, 2, 7, 15, 30, 31),
	u32s("luma", func(s *spsv) *uint32 { return &s.luma }, 1, 2, 6),
	u32s("chromadepth", func(s *spsv) *uint32 { return &s.chromaDepth }, 1, 3, 6),
	bools("bypass", func(s *spsv) *bool { return &s.bypass }),
	bools("separate", func(s *spsv) *bool { return &s.separate }),
	u32s("log2frame", func(s *spsv) *uint32 { return &s.log2frame }, 1, 4, 12),
	u32s("log2poc", func(s *spsv) *uint32 { return &s.log2poc }, 1, 6, 12),
	bools("always0", func(s *spsv) *bool { return &s.always0 }),
	i32s("nonref", func(s *spsv) *int32 { return &s.nonref }, 1, -1, 100, -100, 32767, 65535, -65536, 1<<31-1, -(1<<31 - 1)),
	i32s("topbottom", func(s *spsv) *int32 { return &s.topbottom }, 1, -1, -32768, 1<<24, 1<<31-1, -(1<<31 - 1)),
	{"offsets", 5, func(s *spsv, i int) {
		n := []int{1, 2, 3, 17, 255}[i]
		s.offsets = nil
		for j := 0; j < n; j++ {
			s.offsets = append(s.offsets, int32(j*37-50)*int32(1-2*(j%2)))
		}
	}},
	u32s("refframes", func(s *spsv) *uint32 { return &s.refframes }, 0, 2, 4, 16),
	bools("gaps", func(s *spsv) *bool { return &s.gaps }),
	u32s("w", func(s *spsv) *uint32 { return &s.w }, 1, 2, 10, 119, 239, 255, 511),
	u32s("h", func(s *spsv) *uint32 { return &s.h }, 1, 2, 8, 67, 134, 255, 511),
	bools("frameOnly", func(s *spsv) *bool { return &s.frameOnly }),
	bools("mbaff", func(s *spsv) *bool { return &s.mbaff }),
	bools("direct", func(s *spsv) *bool { return &s.direct }),
	{"vui", 4, func(s *spsv, i int) { s.vui = true; s.vuiBits = []int{1, 6, 7, 100}[i] }},
	{"cropl", 3, func(s *spsv, i int) { s.crop = true; s.cl = []uint32{1, 3, 7}[i] }},
	{"cropr", 3, func(s *spsv, i int) { s.crop = true; s.cr = []uint32{1, 2, 5}[i] }},
	{"cropt", 3, func(s *spsv, i int) { s.crop = true; s.ct = []uint32{1, 2, 3}[i] }},
	{"cropb", 3, func(s *spsv, i int) { s.crop = true; s.cb = []uint32{1, 2, 3}[i] }},
	{"crop0", 1, func(s *spsv, i int) { s.crop = true }},
	{"matrix", 6, func(s *spsv, i int) {
		s.matrix = true
		s.lists = nil
		for j := 0; j < 12; j++ {
			s.lists = append(s.lists, slist{present: i > 0 && (j+i)%3 != 0, kind: (j + i) % 5, at: 1 + j})
		}
	}},
}

var ppsMuts = []pmut{
	pu("id", func(s *ppsv) *uint32 { return &s.id }, 1, 2, 6, 14, 30, 62, 126, 255),
	pb("cabac", func(s *ppsv) *bool { return &s.cabac }),
	pb("bottom", func(s *ppsv) *bool { return &s.bottom }),
	pu("l0", func(s *ppsv) *uint32 { return &s.l0 }, 1, 3, 31),
	pu("l1", func(s *ppsv) *uint32 { return &s.l1 }, 1, 7, 31),
	pb("weighted", func(s *ppsv) *bool { return &s.weighted }),
	pu("bipred", func(s *ppsv) *uint32 { return &s.bipred }, 1, 2),
	pi("qp", func(s *ppsv) *int32 { return &s.qp }, 1, -1, -26, 25, -62),
	pi("qs", func(s *ppsv) *int32 { return &s.qs }, 2, -2, -26, 25),
	pi("cqp", func(s *ppsv) *int32 { return &s.cqp }, 1, -1, 12, -12),
	pb("deblock", func(s *ppsv) *bool { return &s.deblock }),
	pb("intra", func(s *ppsv) *bool { return &s.intra }),
	pb("redundant", func(s *ppsv) *bool { return &s.redunant }),
	pb("t8x8", func(s *ppsv) *bool { return &s.t8x8 }),
	pi("cqp2", func(s *ppsv) *int32 { return &s.cqp2 }, 1, -1, 12, -12),
	{"zeros", 3, func(s *ppsv, i int) { s.zeros = []int{1, 2, 5}[i] }},
	{"changedir", 1, func(s *ppsv, i int) { s.changeDir = !s.changeDir }},
	pu("changerate", func(s *ppsv) *uint32 { return &s.changeRate }, 1, 98, 8159, 65534),
	{"ids", 5, func(s *ppsv, i int) {
		n := []int{1, 2, 7, 99, 400}[i]
		s.ids = nil
		for j := 0; j < n; j++ {
			s.ids = append(s.ids, byte(uint32(j*5+3)%(s.groups+1)))
		}
	}},
	{"runs", 4, func(s *ppsv, i int) {
		for j := range s.run {
			s.run[j] = []uint32{1, 100, 8159, 65534}[i] + uint32(j)
		}
	}},
	{"rects", 3, func(s *ppsv, i int) {
		for j := range s.tl {
			s.tl[j] = uint32(j) * []uint32{1, 50, 1000}[i]
			s.br[j] = s.tl[j] + uint32(i*17+1)
		}
	}},
	{"matrix", 6, func(s *ppsv, i int) {
		s.matrix = true
		s.lists = nil
		for j := 0; j < 12; j++ {
			s.lists = append(s.lists, slist{present: i > 0 && (j+i)%3 != 0, kind: (j + i) % 5, at: 1 + j})
		}
	}},
}

func init() {
	add(mc.Check{
		ID:   "C09",
		Rule: "an execution is one SPS written by an independent encoder, parsed, and compared field by field",
		Drivers: []mc.Driver{
			{Name: "elements", Budget: [2]int{2, 3}, Split: 4,
				Bounds: "3 profiles with and 3 without chroma information x chroma format 0..3 x picture order count type 0..2 x frame/field, with up to 2 (thorough 3) syntax elements out of 27 moved to each of their boundary values",
				Body: func(c *mc.C) {
					s := defaultSPS()
					s.profile = []int{66, 77, 183, 100, 244, 44}[c.Choose(6)]
					if chromaProfiles[s.profile] {
						s.chroma = uint32(c.Choose(4))
					}
					s.poc = uint32(c.Choose(3))
					s.frameOnly = c.Choose(2) == 0
					name := ""
					for _, m := range spsMuts {
						if i := c.Dev(m.n + 1); i > 0 {
							m.set(&s, i-1)
							if c.Verbose {
								name += fmt.Sprintf(" %s/%d", m.name, i)
							}
						}
						if c.Left() == 0 {
							break
						}
					}
					c.Logf("profile %d chroma %d poc %d:%s", s.profile, s.chroma, s.poc, name)
					checkSPS(c, &s)
				}},
			{Name: "profiles", Split: 2,
				Bounds: "all 256 profiles x chroma format 0..3 x all constraint flag bytes with the reserved bits zero (64) x 3 levels",
				Body: func(c *mc.C) {
					s := defaultSPS()
					s.profile = c.Choose(256)
					s.chroma = uint32(c.Choose(4))
					for i := 0; i < 64; i++ {
						s.constraint = i << 2
						for _, s.level = range []int{0, 10, 62} {
							checkSPS(c, &s)
						}
					}
					c.Logf("profile %d chroma %d", s.profile, s.chroma)
				}},
			{Name: "values", Split: 1,
				Bounds: "every SPS id 0..31; widths and heights in macroblocks 1..600 (every one) in frame and field coding for 4 chroma formats; every number 0..255 of offsets; log2 values 0..12; max_num_ref_frames 0..16",
				Body: func(c *mc.C) {
					s := defaultSPS()
					s.profile = 100
					switch k := c.Choose(8); {
					case k < 5:
						s.chroma = uint32(k)
						if k == 4 {
							s.chroma, s.separate = 3, true
						}
						for x := uint32(0); x < 600; x++ {
							for _, s.frameOnly = range []bool{true, false} {
								t := s
								t.w = x
								checkSPS(c, &t)
								t.h = x
								checkSPS(c, &t)
								t.w = 10
								checkSPS(c, &t)
							}
						}
					case k == 5:
						for id := uint32(0); id < 32; id++ {
							s.id = id
							checkSPS(c, &s)
						}
						s.id = 0
						for s.luma = 0; s.luma <= 6; s.luma++ {
							for s.chromaDepth = 0; s.chromaDepth <= 6; s.chromaDepth++ {
								checkSPS(c, &s)
							}
						}
					case k == 6:
						s.poc = 1
						for n := 0; n < 256; n++ {
							checkSPS(c, &s)
							s.offsets = append(s.offsets, int32(n-128)*int32(n))
						}
					case k == 7:
						for s.log2frame = 0; s.log2frame <= 12; s.log2frame++ {
							for s.log2poc = 0; s.log2poc <= 12; s.log2poc++ {
								for s.refframes = 0; s.refframes <= 16; s.refframes++ {
									checkSPS(c, &s)
								}
							}
						}
					}
				}},
			{Name: "crop", Split: 3,
				Bounds: "pictures of 1..3 by 1..3 macroblocks, 5 chroma sampling modes, frame and field, all combinations of the four crop offsets 0..4 that leave a picture",
				Body: func(c *mc.C) {
					s := defaultSPS()
					s.profile = 122
					k := c.Choose(5)
					s.chroma = uint32(k)
					if k == 4 {
						s.chroma, s.separate = 3, true
					}
					s.w, s.h = uint32(c.Choose(3)), uint32(c.Choose(3))
					s.frameOnly = c.Choose(2) == 0
					s.crop = true
					for i := uint32(0); i < 625; i++ {
						s.cl, s.cr, s.ct, s.cb = i%5, i/5%5, i/25%5, i/125
						if 4*(s.ct+s.cb) >= 16*(s.h+1) || 2*(s.cl+s.cr) >= 16*(s.w+1) {
							continue
						}
						checkSPS(c, &s)
					}
					c.Logf("%dx%d macroblocks, chroma %d, frame only %v", s.w+1, s.h+1, k, s.frameOnly)
				}},
			{Name: "scaling", Split: 3,
				Bounds: "every subset of the 8 or 12 scaling lists present x 5 list kinds rotating over the lists x 4 end positions, for the four chroma formats",
				Body: func(c *mc.C) {
					s := defaultSPS()
					s.profile = 244
					s.chroma = uint32(c.Choose(4))
					s.matrix = true
					n := 8
					if s.chroma == 3 {
						n = 12
					}
					kind := c.Choose(5)
					at := []int{1, 2, 15, 40}[c.Choose(4)]
					for set := 0; set < 1<<uint(n); set++ {
						s.lists = s.lists[:0]
						for j := 0; j < n; j++ {
							a := at
							if j < 6 && a > 15 {
								a = 7
							}
							s.lists = append(s.lists, slist{present: set>>uint(j)&1 == 1, kind: (kind + j) % 5, at: a})
						}
						checkSPS(c, &s)
					}
					c.Logf("chroma %d, kinds from %d, end at %d", s.chroma, kind, at)
				}},
		},
	})
	add(mc.Check{
		ID:   "C10",
		Rule: "an execution is one PPS written by an independent encoder, parsed together with the SPS it refers to, and compared field by field",
		Drivers: []mc.Driver{
			{Name: "elements", Budget: [2]int{2, 3}, Split: 4,
				Bounds: "1,2,3,5,8 slice groups x map types 0..6 x chroma format 0..3 of the SPS (ids 0,1,31) x extension absent or present, with up to 2 (thorough 3) of 22 syntax elements moved to each of their boundary values",
				Body: func(c *mc.C) {
					p := ppsv{ids: []byte{0}}
					p.groups = []uint32{0, 1, 2, 4, 7}[c.Choose(5)]
					if p.groups > 0 {
						p.mapType = uint32(c.Choose(7))
					}
					chroma := uint32(c.Choose(4))
					p.ext = c.Choose(2) == 1
					p.sps = []uint32{0, 1, 31}[c.Dev(3)]
					name := ""
					for _, m := range ppsMuts {
						if i := c.Dev(m.n + 1); i > 0 {
							m.set(&p, i-1)
							if c.Verbose {
								name += fmt.Sprintf(" %s/%d", m.name, i)
							}
						}
						if c.Left() == 0 {
							break
						}
					}
					ps := h264.NewParameterSets()
					if err := ps.ParseSPS(spsFor(p.sps, chroma)); err != nil {
						c.Failf("SPS: %v", err)
					}
					if err := ps.ParseSPS(spsFor(p.sps+1, (chroma+1)%4)); err != nil {
						c.Failf("SPS: %v", err)
					}
					c.Logf("%d groups of type %d, chroma %d, extension %v:%s", p.groups+1, p.mapType, chroma, p.ext, name)
					checkPPS(c, ps, &p, chroma)
				}},
			{Name: "alignment", Split: 2,
				Bounds: "every PPS id 0..255 x SPS id 0..31 x all flag combinations (64) x 0..3 trailing zero bytes, with and without extension (which covers every bit position of the stop bit many times)",
				Body: func(c *mc.C) {
					id := uint32(c.Choose(256))
					ext := c.Choose(2) == 1
					ps := h264.NewParameterSets()
					for sps := uint32(0); sps < 32; sps++ {
						for f := 0; f < 64; f++ {
							p := ppsv{id: id, sps: sps, cabac: f&1 != 0, bottom: f&2 != 0, weighted: f&4 != 0, deblock: f&8 != 0, intra: f&16 != 0, redunant: f&32 != 0, ext: ext, t8x8: f&8 != 0}
							p.zeros = (f + int(sps)) % 4
							checkPPS(c, ps, &p, 1)
						}
					}
					c.Logf("PPS id %d, extension %v", id, ext)
				}},
			{Name: "groups", Split: 2,
				Bounds: "1..8 slice groups of each map type with every run length, rectangle and change rate 0..70 and all map sizes 1..40 with all ids rotating",
				Body: func(c *mc.C) {
					g := uint32(c.Choose(8))
					mt := uint32(c.Choose(7))
					ps := h264.NewParameterSets()
					for v := uint32(0); v < 70; v++ {
						for ext := 0; ext < 4; ext++ {
							p := ppsv{groups: g, mapType: mt, ext: ext&1 == 1, zeros: ext >> 1, cqp2: int32(v%25) - 12, changeRate: v, changeDir: v%3 == 0}
							for i := range p.run {
								p.run[i] = v + uint32(i)
								p.tl[i] = v * uint32(i)
								p.br[i] = v*uint32(i) + v
							}
							for i := uint32(0); i <= v; i++ {
								p.ids = append(p.ids, byte((i+v)%(g+1)))
							}
							checkPPS(c, ps, &p, 1)
						}
					}
					c.Logf("%d groups of type %d", g+1, mt)
				}},
			{Name: "qp", Split: 1,
				Bounds: "all pic_init_qp -62..25 x chroma offsets -12..12 x second offsets -12..12",
				Body: func(c *mc.C) {
					qp := int32(c.Choose(88)) - 62
					ps := h264.NewParameterSets()
					for a := int32(-12); a <= 12; a++ {
						for b := int32(-12); b <= 12; b++ {
							checkPPS(c, ps, &ppsv{qp: qp, qs: qp, cqp: a, ext: true, cqp2: b}, 1)
						}
						checkPPS(c, ps, &ppsv{qp: qp, qs: -qp, cqp: a}, 1)
					}
				}},
			{Name: "scaling", Split: 3,
				Bounds: "every subset of the 6, 8 or 12 scaling lists present x 5 list kinds rotating x 3 end positions, for the four chroma formats and with or without 8x8 transform",
				Body: func(c *mc.C) {
					chroma := uint32(c.Choose(4))
					kind := c.Choose(5)
					at := []int{1, 9, 40}[c.Choose(3)]
					t8 := c.Choose(2) == 1
					n := 6
					if t8 {
						n = 8
						if chroma == 3 {
							n = 12
						}
					}
					ps := h264.NewParameterSets()
					if err := ps.ParseSPS(spsFor(3, chroma)); err != nil {
						c.Failf("SPS: %v", err)
					}
					for set := 0; set < 1<<uint(n); set++ {
						p := ppsv{id: uint32(set % 3), sps: 3, ext: true, t8x8: t8, matrix: true, cqp2: int32(set%25) - 12}
						for j := 0; j < n; j++ {
							a := at
							if j < 6 && a > 15 {
								a = 7
							}
							p.lists = append(p.lists, slist{present: set>>uint(j)&1 == 1, kind: (kind + j) % 5, at: a})
						}
						checkPPS(c, ps, &p, chroma)
					}
					c.Logf("chroma %d, 8x8 %v, kinds from %d, end at %d", chroma, t8, kind, at)
				}},
		},
	})
}
