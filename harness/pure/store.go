package main

import (
	"bytes"
	"fmt"
	"runtime"
	"syscall"

	"github.com/aboukirev/ouro/net/h264"
	"verif.local/harness/mc"
)

// ---- C11: histories of parameter set arrivals

// arrival is one buffer handed to a store and what it defines.
type arrival struct {
	name  string
	via   int // 0 ParseSPS, 1 ParsePPS, 2 ParseSprop
	buf   []byte
	fails bool
	sps   func(g *h264.SPSInfo) // what it stores
	pps   func(g *h264.PPSInfo)
	id    uint32
}

func arrivals() []arrival {
	var out []arrival
	for id := uint32(0); id < 2; id++ {
		for v := 0; v < 2; v++ {
			s := defaultSPS()
			s.id = id
			s.w = uint32(10 + 20*v)
			if v == 1 {
				s.profile, s.chroma, s.luma = 100, 2, 2
				s.poc, s.frameOnly = 2, false
			}
			b, mand, f := s.encode()
			out = append(out, arrival{fmt.Sprintf("SPS %d%c", id, 'a'+v), 0, b, false, f, nil, id})
			if v == 1 {
				out = append(out, arrival{fmt.Sprintf("short SPS %d", id), 0, b[:(mand-1)/8], true, nil, nil, id})
			}
			p := ppsv{id: id, sps: uint32(v), qp: int32(3 + v), cabac: v == 1}
			if v == 1 {
				p.groups, p.mapType, p.ids = 1, 6, []byte{0, 1, 1}
				p.ext, p.cqp2 = true, 4
			}
			pb, pm, pf := p.encode(1)
			out = append(out, arrival{fmt.Sprintf("PPS %d%c", id, 'a'+v), 1, pb, false, nil, pf, id})
			if v == 1 {
				out = append(out, arrival{fmt.Sprintf("short PPS %d", id), 1, pb[:(pm-1)/8], true, nil, nil, id})
			}
		}
	}
	// out-of-band units with emulation prevention in them
	s := defaultSPS()
	s.constraint, s.level, s.id = 0, 0, 1
	s.poc, s.nonref = 1, 1<<30
	b, _, f := s.encode()
	out = append(out, arrival{"sprop SPS 1", 2, append([]byte{0x67}, refEnc(b)...), false, f, nil, 1})
	p := ppsv{id: 0, sps: 1, groups: 3, mapType: 6, ids: make([]byte, 90), qs: -7}
	p.ids[89] = 3
	pb, pm, pf := p.encode(1)
	if len(refEnc(pb)) == len(pb) || len(refEnc(b)) == len(b) {
		panic("HARNESS: no emulation prevention in the sprop units")
	}
	out = append(out, arrival{"sprop PPS 0", 2, append([]byte{0x28}, refEnc(pb)...), false, nil, pf, 0})
	out = append(out, arrival{"short sprop PPS 0", 2, append([]byte{0x68}, refEnc(pb[:(pm-1)/8])...), true, nil, nil, 0})
	out = append(out, arrival{"empty sprop", 2, []byte{}, false, nil, nil, 0})
	out = append(out, arrival{"nil sprop", 2, nil, false, nil, nil, 0})
	out = append(out, arrival{"sprop of other type", 2, append([]byte{0x6f}, b...), false, nil, nil, 0})
	out = append(out, arrival{"sprop SEI", 2, append([]byte{0x06}, pb...), false, nil, nil, 0})
	return out
}

type stored struct {
	arr *arrival
	sps *h264.SPSInfo
	pps *h264.PPSInfo
}

// modelStore is what a store should hold.
type modelStore struct {
	sps, pps map[uint32]*arrival
}

func checkStore(c *mc.C, n int, hist string, ps *h264.ParameterSets, m *modelStore) {
	for id := uint32(0); id < 4; id++ {
		g, ok := ps.GetSPS(id)
		a := m.sps[id]
		if ok != (a != nil) || ok && g == nil {
			c.Failf("%s: store %d: SPS %d found=%v, should be %v", hist, n, id, ok, a != nil)
		}
		if a != nil {
			w := *g
			a.sps(&w)
			if !sameSPS(&w, g) {
				c.Failf("%s: store %d: SPS %d is not %s:%s", hist, n, id, a.name, diff(*g, w))
			}
		}
		p, ok := ps.GetPPS(id)
		a = m.pps[id]
		if ok != (a != nil) || ok && p == nil {
			c.Failf("%s: store %d: PPS %d found=%v, should be %v", hist, n, id, ok, a != nil)
		}
		if a != nil {
			w := *p
			a.pps(&w)
			if d := diffPPS(p, &w); d {
				c.Failf("%s: store %d: PPS %d is not %s:%s", hist, n, id, a.name, diff(*p, w))
			}
		}
	}
}

func diffPPS(a, b *h264.PPSInfo) bool {
	if !bytes.Equal(a.SliceGroupID, b.SliceGroupID) {
		return true
	}
	return a.PpsID != b.PpsID || a.SpsID != b.SpsID || a.PicInitQpMinus26 != b.PicInitQpMinus26 || a.PicInitQsMinus26 != b.PicInitQsMinus26 ||
		a.EntropyCodingMode != b.EntropyCodingMode || a.NumSliceGroupsMinus1 != b.NumSliceGroupsMinus1 ||
		a.SliceGroupMapType != b.SliceGroupMapType || a.PicSizeInMapUnitsMinus1 != b.PicSizeInMapUnitsMinus1 ||
		a.SecondChromaQpIndexOffset != b.SecondChromaQpIndexOffset
}

// ---- C12

func parseAny(c *mc.C, kind int, buf []byte) error {
	ps := h264.NewParameterSets()
	var err error
	switch kind {
	case 0:
		err = ps.ParseSPS(buf)
	case 1:
		err = ps.ParsePPS(buf)
	case 2:
		err = ps.ParseSprop(buf)
	case 3: // PPS with its SPS known, 4:4:4
		if e := ps.ParseSPS(sps444); e != nil {
			c.Failf("SPS: %v", e)
		}
		err = ps.ParsePPS(buf)
	}
	c.Step(1)
	return err
}

var sps444 = spsFor(0, 3)

// heap checks that f, which parses n inputs of size bytes in total, allocates a bounded amount.
func heap(c *mc.C, n, size int, what func() string, f func()) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	used := int64(b.TotalAlloc - a.TotalAlloc)
	limit := int64(n)*(1<<15) + 64*int64(size) + 1<<20
	if used > limit {
		c.Failf("%s: %d bytes allocated for %d inputs of %d bytes in total", what(), used, n, size)
	}
}

// representative parameter sets whose prefixes are cut and whose bytes are replaced.
func repSets() (out []arrival, mand []int) {
	add := func(name string, via int, b []byte, m int) {
		out = append(out, arrival{name: name, via: via, buf: b})
		mand = append(mand, m)
	}
	for i := 0; i < 6; i++ {
		s := defaultSPS()
		switch i {
		case 1:
			s.profile, s.chroma, s.matrix = 100, 1, true
			for j := 0; j < 8; j++ {
				s.lists = append(s.lists, slist{present: j != 3, kind: j % 5, at: 5})
			}
		case 2:
			s.profile, s.chroma, s.separate, s.matrix = 244, 3, true, true
			for j := 0; j < 12; j++ {
				s.lists = append(s.lists, slist{present: true, kind: []int{1, 3, 0}[j%3], at: 3})
			}
		case 3:
			s.poc, s.nonref, s.topbottom, s.offsets = 1, -5, 70, []int32{1, -2, 300, 4}
			s.frameOnly, s.mbaff = false, true
		case 4:
			s.crop, s.cl, s.cr, s.ct, s.cb = true, 1, 2, 3, 4
			s.vui, s.vuiBits = true, 50
		case 5:
			s.id, s.w, s.h, s.poc = 31, 511, 511, 2
		}
		b, m, _ := s.encode()
		add(fmt.Sprintf("SPS variant %d", i), 0, b, m)
	}
	for i := 0; i < 8; i++ {
		p := ppsv{ids: []byte{0, 1, 0, 1, 1, 0, 0, 1, 1, 1, 1, 0, 0, 0, 1}}
		switch {
		case i == 7:
			p.ext, p.t8x8, p.matrix = true, true, true
			for j := 0; j < 12; j++ {
				p.lists = append(p.lists, slist{present: true, kind: j % 5, at: 5})
			}
		case i > 0:
			p.groups, p.mapType = uint32(i), uint32(i)
		}
		for j := range p.run {
			p.run[j], p.tl[j], p.br[j] = uint32(j), uint32(3*j), uint32(4*j)
		}
		p.changeRate = 77
		b, m, _ := p.encode(3)
		add(fmt.Sprintf("PPS variant %d", i), 1, b, m)
	}
	p := ppsv{groups: 3, mapType: 0, run: [8]uint32{4, 5, 6, 7}}
	b, m, _ := p.encode(1)
	add("PPS of map type 0", 1, b, m)
	return
}

func limitMemory() {
	// an allocation out of proportion ends this process instead of the machine
	var l syscall.Rlimit
	l.Cur, l.Max = 6<<30, 6<<30
	syscall.Setrlimit(syscall.RLIMIT_AS, &l)
}

func init() {
	arr := arrivals()
	add(mc.Check{
		ID:   "C11",
		Rule: "an execution is one history of parameter set arrivals at two stores; after every arrival all lookups are compared with a model map, and the sets looked up before are checked again",
		Drivers: []mc.Driver{
			{Name: "histories", Split: 2,
				Bounds: fmt.Sprintf("all sequences of 4 (thorough 5) arrivals out of %d (valid and cut SPS and PPS of ids 0 and 1 in two variants, out-of-band units with emulation prevention, empty and of other types) at either of two stores", len(arr)),
				Body: func(c *mc.C) {
					depth := 4
					if c.Thorough {
						depth = 5
					}
					var ps [2]*h264.ParameterSets
					var m [2]modelStore
					for i := range ps {
						ps[i] = h264.NewParameterSets()
						m[i] = modelStore{map[uint32]*arrival{}, map[uint32]*arrival{}}
					}
					hist := ""
					type held struct {
						s  *h264.SPSInfo
						p  *h264.PPSInfo
						cs h264.SPSInfo
						cp h264.PPSInfo
						st int
						id uint32
					}
					var keep []held
					for i := 0; i < depth; i++ {
						k := c.Choose(2 * len(arr))
						a := &arr[k%len(arr)]
						st := k / len(arr)
						hist += fmt.Sprintf("%s to store %d; ", a.name, st)
						buf := append([]byte{}, a.buf...)
						if a.buf == nil {
							buf = nil
						}
						var err error
						switch a.via {
						case 0:
							err = ps[st].ParseSPS(buf)
						case 1:
							err = ps[st].ParsePPS(buf)
						case 2:
							err = ps[st].ParseSprop(buf)
						}
						if (err != nil) != a.fails {
							c.Failf("%s: error %v, expected an error: %v", hist, err, a.fails)
						}
						if !bytes.Equal(buf, a.buf) {
							c.Failf("%s: the input was modified", hist)
						}
						for j := range buf {
							buf[j] = 0xee // the store may not depend on the caller's buffer
						}
						if a.sps != nil {
							m[st].sps[a.id] = a
						}
						if a.pps != nil {
							m[st].pps[a.id] = a
						}
						for j := range ps {
							checkStore(c, j, hist, ps[j], &m[j])
						}
						n := 0
						for _, h := range keep {
							if err == nil && h.st == st && h.id == a.id && (h.s != nil && a.sps != nil || h.p != nil && a.pps != nil) {
								continue // replaced
							}
							keep[n] = h
							n++
							if h.s != nil && !sameSPS(h.s, &h.cs) {
								c.Failf("%s: an SPS looked up before changed:%s", hist, diff(*h.s, h.cs))
							}
							if h.p != nil && diffPPS(h.p, &h.cp) {
								c.Failf("%s: a PPS looked up before changed:%s", hist, diff(*h.p, h.cp))
							}
						}
						keep = keep[:n]
						if g, ok := ps[st].GetSPS(a.id); ok {
							keep = append(keep, held{st: st, id: a.id, s: g, cs: *g})
						}
						if g, ok := ps[st].GetPPS(a.id); ok {
							cp := *g
							cp.SliceGroupID = append([]byte{}, g.SliceGroupID...)
							keep = append(keep, held{st: st, id: a.id, p: g, cp: cp})
						}
						c.Step(1)
						c.State(fmt.Sprint(m[0].names(), m[1].names()))
					}
					c.Logf("%s", hist)
				}},
			{Name: "damaged", Split: 2,
				Bounds: "a store holding sets of five ids of each kind receives each of 15 representative sets (scaling lists, all map types, optional extension) of one of these ids cut at every byte, or with every byte replaced by each of 12 values: after an error everything is as it was, otherwise exactly the set that a fresh store takes from the same bytes has changed",
				Body:   func(c *mc.C) { damaged(c) }},
			{Name: "ids", Split: 2,
				Bounds: "all pairs of ids (SPS 0..31, PPS 0..255) stored one after the other, as SPS and PPS, directly and out-of-band",
				Body:   func(c *mc.C) { idPairs(c) }},
		},
	})

	reps, mand := repSets()
	add(mc.Check{
		ID:          "C12",
		Rule:        "an execution parses one family of byte strings; each must return without a panic, with an error where the mandatory syntax is cut, and with bounded allocation",
		Assumptions: []string{"allocation is bounded per group of inputs: 32 KiB per parse plus 64 times the input plus 1 MiB; the process has an address space limit of 6 GiB, exceeding it is reported as a crash"},
		Drivers: []mc.Driver{
			{Name: "short", Split: 2,
				Bounds: "all byte strings of length 0..2 (thorough 0..3) as SPS, PPS, out-of-band set, and PPS with a 4:4:4 SPS known",
				Body: func(c *mc.C) {
					limitMemory()
					kind := c.Choose(4)
					first := c.Choose(257)
					depth := 2
					if c.Thorough {
						depth = 3
					}
					n := 0
					heap(c, 1<<uint(8*(depth-1)), 0, func() string { return fmt.Sprintf("kind %d, strings starting with %02x", kind, first) }, func() {
						if first == 256 {
							parseAny(c, kind, nil)
							parseAny(c, kind, []byte{})
							n += 2
							return
						}
						var rec func(b []byte)
						rec = func(b []byte) {
							parseAny(c, kind, b[:len(b):len(b)])
							n++
							if len(b) < depth {
								for x := 0; x < 256; x++ {
									rec(append(b[:len(b):len(b)], byte(x)))
								}
							}
						}
						rec([]byte{byte(first)})
					})
					c.Count(int64(n), 0)
					c.Logf("%d strings starting with %02x, kind %d", n, first, kind)
				}},
			{Name: "cut", Split: 2,
				Bounds: fmt.Sprintf("%d representative sets (all map types, scaling lists, offsets) cut at every byte, and cut then continued with 0..40 bytes 00, FF or 55; a cut inside the mandatory syntax must be an error", len(reps)),
				Body: func(c *mc.C) {
					limitMemory()
					k := c.Choose(len(reps))
					a := reps[k]
					for cut := 0; cut <= len(a.buf); cut++ {
						b := append([]byte{}, a.buf[:cut]...)
						err := parseAny(c, a.via, b)
						if 8*cut < mand[k] && err == nil {
							c.Failf("%s (% x) cut to %d bytes, its mandatory syntax takes %d bits: no error", a.name, a.buf, cut, mand[k])
						}
						if cut == len(a.buf) && err != nil && k != 13 {
							c.Failf("%s (% x): %v", a.name, a.buf, err)
						}
						if a.via == 0 || a.via == 1 {
							hdr := byte(0x67 + a.via)
							err = parseAny(c, 2, append([]byte{hdr}, refEnc(b)...))
							if 8*cut < mand[k] && err == nil {
								c.Failf("out-of-band %s (% x) cut to %d bytes, its mandatory syntax takes %d bits: no error", a.name, a.buf, cut, mand[k])
							}
						}
						for _, fillb := range []byte{0, 0xff, 0x55} {
							for n := 1; n <= 40; n++ {
								x := append([]byte{}, b...)
								for i := 0; i < n; i++ {
									x = append(x, fillb)
								}
								heap1(c, a.via, x)
							}
						}
						c.State(k, cut)
					}
					c.Logf("%s", a.name)
				}},
			{Name: "bytes", Split: 2,
				Bounds: "the representative sets with every single byte replaced by every value, and every pair of bytes at most 3 apart replaced by all pairs of 9 values, as SPS and PPS and out-of-band set",
				Body: func(c *mc.C) {
					limitMemory()
					k := c.Choose(len(reps))
					a := reps[k]
					i := c.Choose(len(a.buf))
					heap(c, 4*(256+3*81), 4*(256+3*81)*len(a.buf), func() string { return fmt.Sprintf("%s % x with byte %d replaced", a.name, a.buf, i) }, func() {
						x := append([]byte{}, a.buf...)
						try := func() {
							for kind := 0; kind < 4; kind++ {
								parseAny(c, kind, x)
							}
						}
						for v := 0; v < 256; v++ {
							x[i] = byte(v)
							try()
						}
						vals := []byte{0, 1, 3, 0x7f, 0x80, 0xff, 0x55, 0x10, 0xfe}
						for j := i + 1; j <= i+3 && j < len(x); j++ {
							for _, v := range vals {
								for _, u := range vals {
									x[i], x[j] = v, u
									try()
								}
							}
							x[j] = a.buf[j]
						}
					})
					c.State(k, i)
				}},
			{Name: "bits", Split: 2,
				Bounds: "the representative sets with every Exp-Golomb sized hole: from every bit position on, 0..40 zero bits inserted (turning the next element into an arbitrarily large one)",
				Body: func(c *mc.C) {
					limitMemory()
					k := c.Choose(len(reps))
					a := reps[k]
					z := c.Choose(41)
					bits := toBits(a.buf).bits
					for at := 0; at <= len(bits); at++ {
						w := &bitw{}
						w.bits = append(w.bits, bits[:at]...)
						for i := 0; i < z; i++ {
							w.bits = append(w.bits, 0)
						}
						w.bits = append(w.bits, bits[at:]...)
						heap1(c, a.via, w.bytes())
						if a.via == 1 {
							heap1(c, 3, w.bytes())
						}
					}
					c.State(k, z)
				}},
			{Name: "groups", Split: 1,
				Bounds: "PPS declaring 9..300 and 2^k, 2^k-1, 2^k-2 slice groups up to 2^32-1, each map type, followed by 0..64 bytes of data; PPS of map type 6 declaring up to 2^32-1 map units",
				Body: func(c *mc.C) {
					limitMemory()
					mt := uint32(c.Choose(8))
					var ns []uint32
					for n := uint32(8); n < 300; n++ {
						ns = append(ns, n)
					}
					for k := uint(9); k < 32; k++ {
						ns = append(ns, 1<<k-2, 1<<k-1, 1<<k)
					}
					ns = append(ns, 1<<32-2, 1<<32-3)
					for _, n := range ns {
						for _, tail := range []int{0, 1, 8, 64} {
							for _, fillb := range []uint64{0xff, 0x55} {
								w := &bitw{}
								w.ue(0)
								w.ue(0)
								w.u(2, 0)
								w.ue(n)
								w.ue(mt)
								for i := 0; i < tail; i++ {
									w.u(8, fillb)
								}
								w.trail()
								if err := heap1(c, 1, w.bytes()); err == nil {
									c.Failf("PPS % x declares %d slice groups: no error", w.bytes(), uint64(n)+1)
								}
								c.State(mt, int(n), tail)
								// map units
								for g := uint32(1); g < 8; g += 3 {
									w = &bitw{}
									w.ue(0)
									w.ue(0)
									w.u(2, 0)
									w.ue(g)
									w.ue(6)
									w.ue(n)
									for i := 0; i < tail; i++ {
										w.u(8, fillb)
									}
									w.trail()
									err := heap1(c, 1, w.bytes())
									if uint64(n)+1 > uint64(8*len(w.bytes())) && err == nil {
										c.Failf("PPS % x declares %d map units: no error", w.bytes(), uint64(n)+1)
									}
								}
							}
						}
					}
				}},
			{Name: "counts", Split: 1,
				Bounds: "SPS declaring 0..300 and powers of two up to 2^32-2 reference frame offsets, with 0..64 bytes of data after",
				Body: func(c *mc.C) {
					limitMemory()
					tail := c.Choose(65)
					var ns []uint32
					for n := uint32(0); n < 300; n++ {
						ns = append(ns, n)
					}
					for k := uint(9); k < 32; k++ {
						ns = append(ns, 1<<k-1, 1<<k)
					}
					ns = append(ns, 1<<32-2)
					for _, n := range ns {
						w := &bitw{}
						w.u(24, 66<<16|31)
						w.ue(0)
						w.ue(0)
						w.ue(1)
						w.u(1, 0)
						w.se(1)
						w.se(1)
						w.ue(n)
						for i := 0; i < tail; i++ {
							w.u(8, 0xff)
						}
						err := heap1(c, 0, w.bytes())
						if uint64(n) > uint64(8*tail) && err == nil {
							c.Failf("SPS % x declares %d offsets: no error", w.bytes(), n)
						}
						c.State(tail, int(n))
					}
				}},
		},
	})
}

func (m *modelStore) names() string {
	s := ""
	for id := uint32(0); id < 4; id++ {
		if a := m.sps[id]; a != nil {
			s += a.name + ","
		}
		if a := m.pps[id]; a != nil {
			s += a.name + ","
		}
	}
	return s
}

// heap1 parses one input; memory is read only when the process has grown suspiciously, which keeps it cheap.
func heap1(c *mc.C, kind int, b []byte) (err error) {
	before := allocated()
	err = parseAny(c, kind, b)
	if after := allocated(); after > before && after-before > uint64(1<<18+64*len(b)) {
		c.Failf("parsing % x (%d bytes) allocated %d bytes", b, len(b), after-before)
	}
	return err
}

var spread = []uint32{0, 1, 2, 3, 31}

// filled is a store with sets of each id in spread.
func filled() *h264.ParameterSets {
	ps := h264.NewParameterSets()
	for i, id := range spread {
		s := defaultSPS()
		s.id, s.w = id, uint32(40+i)
		s.profile, s.chroma = 244, uint32(i%4)
		b, _, _ := s.encode()
		if err := ps.ParseSPS(b); err != nil {
			panic(fmt.Sprintf("HARNESS: %v", err))
		}
	}
	for i, id := range spread {
		p := ppsv{id: id, sps: id, qp: int32(i), groups: 1, mapType: 6, ids: []byte{1, 0, 1}}
		b, _, _ := p.encode(uint32(i % 4))
		if err := ps.ParsePPS(b); err != nil {
			panic(fmt.Sprintf("HARNESS: %v", err))
		}
	}
	return ps
}

// snapshot is everything a store returns for small ids.
type snapshot struct {
	sps [64]*h264.SPSInfo
	pps [64]*h264.PPSInfo
}

func look(ps *h264.ParameterSets) (n snapshot) {
	for id := range n.sps {
		if g, ok := ps.GetSPS(uint32(id)); ok {
			x := *g
			n.sps[id] = &x
		}
		if g, ok := ps.GetPPS(uint32(id)); ok {
			x := *g
			x.SliceGroupID = append([]byte{}, g.SliceGroupID...)
			n.pps[id] = &x
		}
	}
	return
}

func damaged(c *mc.C) {
	reps, _ := repSets()
	k := c.Choose(len(reps))
	a := reps[k]
	where := c.Choose(len(a.buf) + 1)
	try := func(b []byte) {
		c.Step(1)
		ps, fresh := filled(), h264.NewParameterSets()
		before := look(ps)
		var err, err2 error
		if a.via == 0 {
			err, err2 = ps.ParseSPS(b), fresh.ParseSPS(b)
		} else {
			for i, id := range spread {
				s := defaultSPS()
				s.id, s.profile, s.chroma = id, 244, uint32(i%4)
				x, _, _ := s.encode()
				fresh.ParseSPS(x)
			}
			err, err2 = ps.ParsePPS(b), fresh.ParsePPS(b)
		}
		if (err == nil) != (err2 == nil) {
			c.Failf("%s damaged to % x: %v in a store with other sets, %v in a fresh one", a.name, b, err, err2)
		}
		after, want := look(ps), before
		if err == nil {
			f := look(fresh)
			for id := range f.sps {
				if a.via == 0 && f.sps[id] != nil {
					want.sps[id] = f.sps[id]
				}
				if a.via == 1 && f.pps[id] != nil {
					want.pps[id] = f.pps[id]
				}
			}
		}
		for id := range want.sps {
			if (want.sps[id] == nil) != (after.sps[id] == nil) || want.sps[id] != nil && !sameSPS(want.sps[id], after.sps[id]) {
				c.Failf("%s damaged to % x, error %v: SPS %d is not what it should be", a.name, b, err, id)
			}
			if (want.pps[id] == nil) != (after.pps[id] == nil) || want.pps[id] != nil && (diffPPS(want.pps[id], after.pps[id]) || !samePPS(want.pps[id], after.pps[id])) {
				c.Failf("%s damaged to % x, error %v: PPS %d is not what it should be", a.name, b, err, id)
			}
		}
		c.State(k, b)
	}
	if where == len(a.buf) {
		for cut := 0; cut <= len(a.buf); cut++ {
			try(a.buf[:cut:cut])
		}
		return
	}
	for _, v := range []byte{0, 1, 3, 0x10, 0x20, 0x55, 0x7f, 0x80, 0xaa, 0xc0, 0xfe, 0xff} {
		b := append([]byte{}, a.buf...)
		b[where] = v
		try(b)
	}
	c.Logf("%s, byte %d", a.name, where)
}

// samePPS compares what diffPPS leaves out, the slices apart.
func samePPS(a, b *h264.PPSInfo) bool {
	x, y := *a, *b
	x.SliceGroupID, y.SliceGroupID = nil, nil
	return diff(x, y) == ""
}

func idPairs(c *mc.C) {
	kind := c.Choose(2)
	via := c.Choose(2)
	n := uint32(32)
	if kind == 1 {
		n = 256
	}
	k := uint32(c.Choose(int(n)))
	ids := []uint32{}
	for i := uint32(0); i < n; i++ {
		if i != k {
			ids = append(ids, k, i)
		}
	}
	for i := 0; i < len(ids); i += 2 {
		ps := h264.NewParameterSets()
		var fs [2]func(*h264.SPSInfo)
		var fp [2]func(*h264.PPSInfo)
		for j := 0; j < 2; j++ {
			var b []byte
			hdr := byte(0x67)
			if kind == 0 {
				s := defaultSPS()
				s.id, s.w = ids[i+j], uint32(50+j)
				b, _, fs[j] = s.encode()
			} else {
				p := ppsv{id: ids[i+j], sps: uint32(j), qp: int32(3 + j)}
				b, _, fp[j] = p.encode(1)
				hdr = 0x68
			}
			var err error
			switch {
			case via == 1:
				err = ps.ParseSprop(append([]byte{hdr}, refEnc(b)...))
			case kind == 0:
				err = ps.ParseSPS(b)
			default:
				err = ps.ParsePPS(b)
			}
			if err != nil {
				c.Failf("kind %d, id %d: %v", kind, ids[i+j], err)
			}
			c.Step(1)
		}
		for j := 0; j < 2; j++ {
			if kind == 0 {
				g, ok := ps.GetSPS(ids[i+j])
				if !ok {
					c.Failf("no SPS %d after storing SPS %d and %d", ids[i+j], ids[i], ids[i+1])
				}
				w := *g
				if fs[j](&w); !sameSPS(&w, g) {
					c.Failf("after storing SPS %d and %d, SPS %d:%s", ids[i], ids[i+1], ids[i+j], diff(*g, w))
				}
			} else {
				g, ok := ps.GetPPS(ids[i+j])
				if !ok {
					c.Failf("no PPS %d after storing PPS %d and %d", ids[i+j], ids[i], ids[i+1])
				}
				w := *g
				if fp[j](&w); diffPPS(&w, g) {
					c.Failf("after storing PPS %d and %d, PPS %d:%s", ids[i], ids[i+1], ids[i+j], diff(*g, w))
				}
			}
		}
		c.State(kind, via, ids[i], ids[i+1])
	}
	c.Logf("kind %d via %d, id %d", kind, via, k)
}
