package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/aboukirev/ouro/net/h264"
	"github.com/aboukirev/ouro/net/hls"
	"github.com/aboukirev/ouro/net/rtsp"
	"github.com/aboukirev/ouro/net/sdp"
	"verif.local/harness/mc"
)

// Drivers in this file look at sizes, counts and values far beyond those the exhaustive products of the other files
// reach: the neighbourhood of every power of two that a counter, a table or a buffer might have been sized to.

// around lists 2^k-d .. 2^k+d for k from lo to hi, ascending.
func around(lo, hi, d int) (out []int) {
	last := -1
	for k := lo; k <= hi; k++ {
		for x := 1<<uint(k) - d; x <= 1<<uint(k)+d; x++ {
			if x > last {
				out = append(out, x)
				last = x
			}
		}
	}
	return
}

var longCounts = append(append([]int{60, 100, 120, 200, 300, 400, 600, 1000, 1400, 1500, 2000, 3000, 5000}, around(6, 12, 1)...), 9000)

// bigUnit is a unit with n bytes before emulation prevention; content 1 and 2 need some.
func bigUnit(hdr byte, n, content int) nalu {
	b := fill(n, func(i int) byte {
		switch content {
		case 1:
			return byte(i % 7 / 6)
		case 2:
			if i%97 < 3 {
				return 0
			}
		}
		return byte(i*31+i>>8) | 4
	})
	if n > 0 {
		b[n-1] = 0x80 | byte(n)
	}
	return nalu{hdr, refEnc(b)}
}

// fit cuts a unit to the largest size an aggregate can hold.
func (n nalu) fit() nalu {
	if len(n.body) > 65534 {
		n.body = append(append([]byte{}, n.body[:65530]...), 0x81, 0x82)
	}
	return n
}

func init() {
	extend("C01", mc.Driver{Name: "long", Split: 2,
		Bounds: "buffers of 300 bytes and of 2^k-1, 2^k, 2^k+1 bytes up to 2^17 (k = 8, 13, 16, 17), every position within 1 and 8 bits of a multiple of 2^8 .. 2^19 bits and within 33 bits of the end, reached in steps of 32 skipped or 25 read bits, then each of 31 calls",
		Body: func(c *mc.C) {
			lens := []int{300, 255, 256, 257, 8191, 8192, 8193, 65535, 65536, 65537, 1<<17 - 1, 1 << 17, 1<<17 + 1}
			n := lens[c.Choose(len(lens))]
			how := c.Choose(2)
			k := c.Choose(13)
			buf := bitPatterns(n)[3+how]
			m := toBits(buf)
			var at []int
			if k < 12 {
				for _, d := range []int{-8, -7, -1, 0, 1, 7, 8} {
					at = append(at, 1<<uint(8+k)+d, 3<<uint(7+k)+d)
				}
			} else {
				for d := 0; d <= 33; d++ {
					at = append(at, 8*n-d)
				}
			}
			for _, p := range at {
				if p > 8*n || p < 0 {
					continue
				}
				for _, op := range allBitOps {
					r := h264.NewBitReader(buf)
					m.pos = 0
					for m.pos < p {
						step := 32
						if how == 1 {
							step = 25
						}
						if step > p-m.pos {
							step = p - m.pos
						}
						var err error
						if how == 0 {
							err = r.SkipBits(uint(step))
							m.pos += step
						} else {
							var v uint32
							v, err = r.ReadBits(uint(step))
							if w, _ := m.read(step); err == nil && v != w {
								c.Failf("buffer of %d bytes: the %d bits before bit %d read as %#x, should be %#x", n, step, m.pos, v, w)
							}
						}
						if err != nil {
							c.Failf("buffer of %d bytes: %d bits before bit %d: %v", n, step, m.pos, err)
						}
					}
					if int(r.Available()) != m.left() {
						c.Failf("buffer of %d bytes: %d bits available at bit %d, should be %d", n, int(r.Available()), p, m.left())
					}
					if op.do(c, r, m) && int(r.Available()) != m.left() {
						c.Failf("buffer of %d bytes: %d bits available after %s at bit %d, should be %d", n, int(r.Available()), op.name, p, m.left())
					}
					c.Step(1)
				}
				c.State(n, p, how)
				c.Tick()
			}
			c.Logf("buffer of %d bytes, power %d", n, 8+k)
		}}, mc.Driver{Name: "longparam", Split: 1,
		Bounds: "SEI parameters coded with 2^k-1, 2^k, 2^k+1 bytes 0xFF, k = 5..18, at start bits 0, 1, 7, complete or cut by a byte",
		Body: func(c *mc.C) {
			ns := around(5, 18, 1)
			n := ns[c.Choose(len(ns))]
			for _, start := range []int{0, 1, 7} {
				w := &bitw{}
				w.u(start, 0)
				for i := 0; i < n; i++ {
					w.u(8, 255)
				}
				w.u(8, 0x21)
				w.u(8-start, 0x35)
				full := w.bytes()
				runBits(c, full, []bitop{skipOp(start), opParam, fixedOp(1)})
				runBits(c, full[:len(full)-2], []bitop{skipOp(start), opParam})
				c.Step(4)
				c.State(n, start)
			}
			c.Logf("%d bytes ff", n)
		}})

	extend("C02", mc.Driver{Name: "large", Split: 2,
		Bounds: "strings of 2^k-2 .. 2^k+2 bytes, k = 8..18, of 6 contents: all zero, zeroes with every third, fourth, or seventh byte 1..4, no zeroes, sparse zero runs",
		Body: func(c *mc.C) {
			ns := around(8, 18, 2)
			n := ns[c.Choose(len(ns))]
			k := c.Choose(6)
			checkEP(c, fill(n, func(i int) byte {
				switch k {
				case 0:
					return 0
				case 1:
					if i%3 == 2 {
						return byte(i / 3 % 5)
					}
				case 2:
					if i%4 == 3 {
						return byte(i / 4 % 5)
					}
				case 3:
					if i%7 > 4 {
						return 3
					}
				case 4:
					return byte(i) | 1
				case 5:
					if i%1021 > 3 {
						return 0xa5
					}
				}
				return 0
			}))
			c.Count(1, 3)
			c.Logf("%d bytes, content %d", n, k)
		}}, mc.Driver{Name: "positions", Split: 2,
		Bounds: "1 to 4 zeroes and a byte 0..4 or none at every position within 5 of 2^k, k = 4..17, in a buffer of other bytes that ends there or goes on for 1, 2 or 5000 bytes",
		Body: func(c *mc.C) {
			k := uint(4 + c.Choose(14))
			z := 1 + c.Choose(4)
			for d := -5; d <= 5; d++ {
				for v := -1; v <= 4; v++ {
					for _, tail := range []int{0, 1, 2, 5000} {
						b := bytes.Repeat([]byte{0xab}, 1<<k+d)
						b = append(b, make([]byte, z)...)
						if v >= 0 {
							b = append(b, byte(v))
						}
						b = append(b, bytes.Repeat([]byte{0xcd}, tail)...)
						checkEP(c, b)
						c.Count(1, 3)
					}
				}
			}
			c.Logf("2^%d, %d zeroes", k, z)
		}})

	extend("C03", mc.Driver{Name: "large", Split: 2,
		Bounds: "2..3 units of 2^k-2 .. 2^k+2 bytes, k = 8..17, of 3 contents with emulation prevention, all start code forms; and 31..5000 units of 1..3 bytes",
		Body: func(c *mc.C) {
			ns := around(8, 17, 2)
			lead := c.Choose(3)
			k := c.Choose(len(ns) + len(longCounts))
			for sc := 0; sc < 4; sc++ {
				codes := []int{3 + sc&1, 3 + sc>>1}
				if k < len(ns) {
					for content := 0; content < 3; content++ {
						u := bigUnit(0x65, ns[k], content).wire()
						checkSplit(c, [][]byte{u, {9}, u}, lead, codes)
						checkSplit(c, [][]byte{{0x67, 1}, bigUnit(0x41, ns[k]-1, content).wire(), u}[:2+content%2], lead, codes)
						c.Count(2, 2)
						c.Tick()
					}
				} else {
					n := longCounts[k-len(ns)]
					var us [][]byte
					for i := 0; i < n; i++ {
						us = append(us, []byte{0x65, byte(i) | 1, byte(i>>8) | 0x80}[:1+i%3])
					}
					checkSplit(c, us, lead, codes)
					c.Count(1, 1)
				}
			}
			c.Logf("lead %d, case %d", lead, k)
		}})

	extend("C04", mc.Driver{Name: "many", Split: 2,
		Bounds: "aggregates of each kind and Annex B of 60..9000 units (around every power of two from 2^6 to 2^12), units cut into as many fragments (contents of 1 byte or 1400 bytes each), with decoding order numbers that wrap",
		Body: func(c *mc.C) {
			n := longCounts[c.Choose(len(longCounts))]
			kind := c.Choose(9)
			d := newDepack(c)
			d.single(nalPool[3], 7)
			var ns []nalu
			var dd, off []int
			for i := 0; i < n; i++ {
				ns = append(ns, []nalu{{0x65, []byte{byte(i) | 0x80}}, {9, nil}, {0x41, []byte{byte(i >> 4), 0, 0, 3, 1}}}[i%3])
				dd = append(dd, i&0xff)
				off = append(off, i*77&0xffff)
			}
			switch kind {
			case 0:
				d.stap(false, 0, ns, 2)
			case 1:
				d.stap(true, 65000, ns, 2)
			case 2, 3:
				d.mtap(kind == 3, 65000, ns, dd, off, 0xfffffff0)
			case 4:
				d.annexb(ns, 0x5a5a, 3)
			case 5, 6, 7:
				size := n
				if n < 200 {
					size = 1400 * n
				}
				u := bigUnit(0x65, size, 1+n%2)
				var cuts []int
				for i := 1; i < n; i++ {
					cuts = append(cuts, i*len(u.body)/n)
				}
				d.fu(kind-5, 65500, u, cuts, 5)
			case 8:
				for i, u := range ns {
					d.single(u, uint32(i))
					if len(d.snaps) > 100 {
						d.snaps = d.snaps[50:]
					}
				}
			}
			d.snaps = d.snaps[len(d.snaps)-1:]
			d.single(nalPool[0], 6)
			c.State(n, kind)
			c.Logf("%d units or fragments, kind %d", n, kind)
		}}, mc.Driver{Name: "count", Split: 1,
		Bounds: "140000 single units and small STAP-A payloads at one sink, in three mixes: decoding order numbers go twice around",
		Body: func(c *mc.C) {
			mix := c.Choose(3)
			d := newDepack(c)
			for i := 0; i < 140000; i++ {
				if mix > 0 && i%(mix*50) == 0 {
					d.stap(false, 0, []nalu{nalPool[1], nalPool[3]}, uint32(i))
				} else {
					d.single(nalPool[3], uint32(i)<<16)
				}
				if len(d.snaps) > 20 {
					d.snaps = d.snaps[10:]
				}
				c.State(mix, int(d.next))
				c.Tick()
			}
			c.Logf("mix %d", mix)
		}})

	extend("C05", mc.Driver{Name: "many", Split: 3,
		Bounds: "60..9000 middles (around every power of two from 2^6 to 2^12) inside a complete series, before it, in a series that lost its start or end, as FU-A or FU-B, and a complete series after it; fragments of 1 or 2 bytes or of 1400 (up to 500 of them)",
		Body: func(c *mc.C) {
			n := longCounts[c.Choose(len(longCounts))]
			where := c.Choose(4)
			big := c.Bool()
			if big && n > 520 {
				c.Trivial()
				return
			}
			f := newFrag(c)
			piece := func(i int) []byte {
				if big {
					return fill(1400, func(j int) byte { return byte(i + j*3) })
				}
				return body(i)
			}
			if where != 1 {
				f.push(0, false, piece(1), 0x65, 0)
			}
			for i := 0; i < n; i++ {
				f.push(1, where == 2 && i%2 == 0, piece(i), 0x65, 0)
				c.Tick()
			}
			if where != 3 {
				f.push(2, false, piece(2), 0x65, 0)
			}
			f.push(0, false, []byte{3}, 0x65, 0)
			for i := 0; i < n/2; i++ {
				f.push(1, false, body(i+3), 0x65, 0)
			}
			f.push(2, false, []byte{4}, 0x65, 0)
			f.push(2, false, []byte{5}, 0x65, 0)
			c.Logf("%d middles, case %d, big %v", n, where, big)
		}}, mc.Driver{Name: "sizes", Split: 3,
		Bounds: "series of start, middle, end with contents of 0, 1 or 2^k-1, 2^k, 2^k+1 bytes (k = 7..16) each, complete or with one of the three missing or doubled, then a small complete series",
		Body: func(c *mc.C) {
			ns := append([]int{0, 1}, around(7, 16, 1)...)
			a, b := ns[c.Choose(len(ns))], ns[c.Choose(len(ns))]
			part := func(n, k int) []byte { return fill(n, func(j int) byte { return byte(j*7 + k) }) }
			for skip := -1; skip < 3; skip++ {
				for twice := -1; twice < 3; twice++ {
					if (skip >= 0 || twice >= 0) && a%3 != b%3 {
						continue
					}
					f := newFrag(c)
					for i, x := range [][]byte{part(a, 1), part(b, 2), part(a/2+b/2, 3)} {
						if i != skip {
							f.push(i, false, x, 0x65, 0)
						}
						if i == twice {
							f.push(i, false, x, 0x65, 0)
						}
					}
					f.push(0, true, []byte{1, 2}, 0x41, 0)
					f.push(2, false, []byte{3}, 0x41, 0)
				}
			}
			c.Tick()
			c.Logf("sizes %d %d", a, b)
		}})

	extend("C06", mc.Driver{Name: "large", Split: 3,
		Bounds: "every pair of payloads of 9 kinds with units of 100, 1400, 9000, 60000 and 2^k-1, 2^k, 2^k+1 bytes (k = 7..16) with few, many or no emulation prevention bytes, pushed from one overwritten buffer and from within a larger buffer",
		Body: func(c *mc.C) {
			ns := append([]int{100, 1400, 1500, 9000, 60000}, around(7, 15, 1)...)
			n := ns[c.Choose(len(ns))]
			first := c.Choose(9)
			content := c.Choose(3)
			for second := 0; second < 9; second++ {
				d := newDepack(c)
				ring := make([]byte, 4*n+8192)
				for i, kind := range []int{first, second, first} {
					u := bigUnit(0x65, n, content).fit()
					if i == 1 {
						u = bigUnit(0x21, n-1, (content+1)%3).fit()
					}
					d.ringUnit(ring, i*300, kind, u, byte(i))
				}
				d = newDepack(c)
				for i, kind := range []int{first, second, first} {
					u := bigUnit(0x65, n, content).fit()
					if i == 1 {
						u = bigUnit(0x21, n-1, (content+1)%3).fit()
					}
					switch kind {
					case 0:
						d.single(u, 1)
					case 1, 2:
						d.stap(kind == 2, 9, []nalu{u, nalPool[0]}, 2)
					case 3, 4:
						d.mtap(kind == 4, 9, []nalu{u, nalPool[0]}, []int{1, 2}, []int{3, 4}, 2)
					case 5, 6, 7:
						d.fu(kind-5, 9, u, []int{n / 3, n / 2}, 3)
					case 8:
						d.annexb([]nalu{u, nalPool[0]}, 1, 4)
					}
				}
				c.State(n, first, second, content)
				c.Tick()
			}
			c.Logf("%d bytes, kind %d, content %d", n, first, content)
		}})

	extend("C09", mc.Driver{Name: "large", Split: 1,
		Bounds: "widths and heights of 600..4300 macroblocks and 2^k-1 .. 2^k+1 up to 2^20, frame and field, 5 chroma modes; crop offsets 2^k-1 .. 2^k+1 on each side that leave a picture; all 256 levels for 6 profiles; offsets and counts of every power of two",
		Body: func(c *mc.C) {
			s := defaultSPS()
			s.profile = 100
			k := c.Choose(5)
			s.chroma = uint32(k)
			if k == 4 {
				s.chroma, s.separate = 3, true
			}
			part := c.Choose(16)
			var ds []uint32
			if part < 15 {
				for x := 600 + 250*part; x < 600+250*part+250; x++ {
					ds = append(ds, uint32(x))
				}
			} else {
				for _, x := range around(0, 20, 1) {
					ds = append(ds, uint32(x))
				}
			}
			for _, x := range ds {
				for _, s.frameOnly = range []bool{true, false} {
					for dim := 0; dim < 3; dim++ {
						t := s
						if dim != 1 {
							t.w = x
						}
						if dim != 0 {
							t.h = x
						}
						checkSPS(c, &t)
						for _, o := range around(0, 22, 1) {
							if part < 15 && o != int(x) {
								continue
							}
							for side := 0; side < 4; side++ {
								q := t
								q.crop = true
								// the samples of each dimension, minus the largest cropping unit
								if side < 2 && 2*uint64(o+1) >= 16*uint64(q.w+1) || side >= 2 && 4*uint64(o+1) >= 16*uint64(q.h+1) {
									continue
								}
								switch side {
								case 0:
									q.cl = uint32(o)
								case 1:
									q.cr, q.cl = uint32(o), 1
								case 2:
									q.ct = uint32(o)
								case 3:
									q.cb, q.ct = uint32(o), 1
								}
								checkSPS(c, &q)
							}
						}
					}
				}
			}
			if part == 0 {
				for _, s.profile = range []int{66, 77, 88, 100, 122, 244} {
					for s.level = 0; s.level < 256; s.level++ {
						checkSPS(c, &s)
					}
				}
			}
			if part == 1 {
				s.poc = 1
				for i := uint(0); i < 31; i++ {
					for _, v := range []int32{1<<i - 1, 1 << i, -(1 << i), -(1<<i - 1)} {
						t := s
						t.nonref = v
						checkSPS(c, &t)
						t.topbottom = -v
						t.offsets = []int32{v, 1, -v}
						checkSPS(c, &t)
					}
				}
			}
			c.Logf("chroma %d part %d", k, part)
		}})

	mapSizes := append(append([]int{1, 99, 396, 1620, 3600, 8160, 36864, 139264}, around(6, 17, 1)...), 300, 1000)
	extend("C10", mc.Driver{Name: "maps", Split: 2,
		Bounds: "explicit maps (type 6) of the picture sizes of all levels up to 139264 units and 2^k-1 .. 2^k+1 up to 2^17, 2..8 groups, ids that rotate or are all the same, with and without extension; run lengths, rectangles and change rates of every power of two and its neighbours up to 2^17",
		Body: func(c *mc.C) {
			k := c.Choose(len(mapSizes))
			g := uint32(1 + c.Choose(7))
			ps := h264.NewParameterSets()
			for ext := 0; ext < 4; ext++ {
				p := ppsv{groups: g, mapType: 6, ext: ext&1 == 1, cqp2: 3, qp: 5}
				for i := 0; i < mapSizes[k]; i++ {
					x := byte(uint32(i*3+i>>7) % (g + 1))
					if ext&2 == 2 {
						x = byte(g)
					}
					p.ids = append(p.ids, x)
				}
				checkPPS(c, ps, &p, 1)
				v := uint32(mapSizes[k])
				for p.mapType = 0; p.mapType < 6; p.mapType++ {
					for i := range p.run {
						p.run[i] = v - uint32(i)&1
						p.tl[i] = v - uint32(i)&1
						p.br[i] = v + uint32(i)
					}
					p.changeRate = v - 1
					checkPPS(c, ps, &p, 1)
				}
				c.Tick()
			}
			c.Logf("%d groups, %d map units", g+1, mapSizes[k])
		}})

	extend("C11", mc.Driver{Name: "headers", Split: 1,
		Bounds: "out-of-band units of each type 0..31 and importance 0..3 holding an SPS or a PPS, at an empty store or one that holds both ids in another variant: they are stored exactly when the type says so",
		Body: func(c *mc.C) {
			typ := c.Choose(32)
			nri := c.Choose(4)
			full := c.Bool()
			one := defaultSPS()
			one.w = 40
			sb, _, sf := one.encode()
			pa := ppsv{qp: 5}
			pb, _, pf := pa.encode(1)
			old := defaultSPS()
			old.w = 9
			ob, _, of := old.encode()
			pq := ppsv{qp: -5}
			qb, _, qf := pq.encode(1)
			for _, body := range [][]byte{sb, pb} {
				if typ == 7 && &body[0] == &pb[0] || typ == 8 && &body[0] == &sb[0] {
					continue // Neither is a set of its type.
				}
				ps := h264.NewParameterSets()
				var ws func(*h264.SPSInfo)
				var wp func(*h264.PPSInfo)
				if full {
					if err := ps.ParseSPS(ob); err != nil {
						c.Failf("SPS: %v", err)
					}
					if err := ps.ParsePPS(qb); err != nil {
						c.Failf("PPS: %v", err)
					}
					ws, wp = of, qf
				}
				unit := append([]byte{byte(nri<<5 | typ)}, refEnc(body)...)
				if err := ps.ParseSprop(unit); err != nil {
					c.Failf("ParseSprop(% x): %v", unit, err)
				}
				if typ == 7 {
					ws = sf
				}
				if typ == 8 {
					wp = pf
				}
				g, ok := ps.GetSPS(0)
				if ok != (ws != nil) {
					c.Failf("after ParseSprop(% x), store full=%v: SPS found=%v", unit, full, ok)
				}
				if ok {
					w := *g
					ws(&w)
					if !sameSPS(&w, g) {
						c.Failf("after ParseSprop(% x), store full=%v: SPS differs:%s", unit, full, diff(*g, w))
					}
				}
				p, ok := ps.GetPPS(0)
				if ok != (wp != nil) {
					c.Failf("after ParseSprop(% x), store full=%v: PPS found=%v", unit, full, ok)
				}
				if ok {
					w := *p
					wp(&w)
					if diffPPS(p, &w) {
						c.Failf("after ParseSprop(% x), store full=%v: PPS differs:%s", unit, full, diff(*p, w))
					}
				}
				c.Step(1)
				c.State(typ, nri, full, len(body))
			}
			c.Logf("type %d importance %d", typ, nri)
		}})

	extend("C11", mc.Driver{Name: "lookups", Split: 1,
		Bounds: "one SPS of each id 0..31 or one PPS of each id 0..255, or all of these, stored: lookups of every id 0..70000 and of 2^k-1 .. 2^k+1 up to 2^32-1 find exactly the ones stored, with their contents",
		Body: func(c *mc.C) {
			k := c.Choose(32 + 256 + 1)
			ps := h264.NewParameterSets()
			sps, pps := map[uint32]func(*h264.SPSInfo){}, map[uint32]func(*h264.PPSInfo){}
			for id := uint32(0); id < 32; id++ {
				if k == 288 || int(id) == k {
					s := defaultSPS()
					s.id, s.w = id, 7+3*id
					b, _, f := s.encode()
					if err := ps.ParseSPS(b); err != nil {
						c.Failf("SPS %d: %v", id, err)
					}
					sps[id] = f
				}
			}
			for id := uint32(0); id < 256; id++ {
				if k == 288 || int(id) == k-32 {
					p := ppsv{id: id, sps: id % 32, qp: int32(id%50) - 26}
					b, _, f := p.encode(1)
					if err := ps.ParsePPS(b); err != nil {
						c.Failf("PPS %d: %v", id, err)
					}
					pps[id] = f
				}
			}
			look := func(id uint32) {
				g, ok := ps.GetSPS(id)
				if f := sps[id]; ok != (f != nil) || ok && g == nil {
					c.Failf("case %d: SPS %d found=%v, stored=%v", k, id, ok, f != nil)
				} else if ok {
					w := *g
					if f(&w); !sameSPS(&w, g) {
						c.Failf("case %d: SPS %d:%s", k, id, diff(*g, w))
					}
				}
				p, ok := ps.GetPPS(id)
				if f := pps[id]; ok != (f != nil) || ok && p == nil {
					c.Failf("case %d: PPS %d found=%v, stored=%v", k, id, ok, f != nil)
				} else if ok {
					w := *p
					if f(&w); diffPPS(&w, p) {
						c.Failf("case %d: PPS %d:%s", k, id, diff(*p, w))
					}
				}
			}
			for id := uint32(0); id <= 70000; id++ {
				look(id)
			}
			for b := uint(16); b <= 32; b++ {
				for d := uint64(0); d < 600; d++ {
					look(uint32(uint64(1)<<b - 300 + d))
				}
			}
			c.Count(80000, 80000)
			c.Logf("case %d", k)
		}})

	extend("C13", mc.Driver{Name: "uris", Split: 1,
		Bounds: "10 malformed and 8 well-formed URIs, the former at the start, middle or end of a history of playlists",
		Body: func(c *mc.C) {
			bad := []string{":", "http://h:port/p", "http://[::1/p", "http://h/%zz", "http://h/%", "ht tp://h/p", "http://h/p\x7f", "http://h/p\x00", "1http://h/p", "http://us er@h/p"}
			good := []string{"http://h/p", "https://h:8080/p/", "/p", "p", "", "http://h", "http://[::1]:80/p", "rtsp://u:p@h/p"}
			b, at := bad[c.Choose(len(bad))], c.Choose(len(good)+1)
			for i := 0; i <= len(good); i++ {
				if i == at {
					if pl, err := hls.NewPlaylist(b, "f.ts", 3, 10); err == nil {
						c.Failf("NewPlaylist with the URI %q returns %v and %v", b, pl, err)
					}
				}
				if i == len(good) {
					break
				}
				pl, err := hls.NewPlaylist(good[i], "f.ts", 3, 10)
				if err != nil || pl == nil {
					c.Failf("NewPlaylist with the URI %q returns %v and %v", good[i], pl, err)
				}
				pl.AddSegment(1, 2)
				if !strings.Contains(pl.String(), "#EXT-X-BYTERANGE:2@0\n") {
					c.Failf("segment is missing from %q", pl.String())
				}
			}
			c.Step(len(good) + 1)
			c.State(b, at)
		}})

	extend("C13", mc.Driver{Name: "large", Split: 1,
		Bounds: "capacities 13..40 and 63..65, 100, 127..129, 255..257, 300, 511..513, 1000, 1023..1025, 2000, 4095..4097; three times around the ring; rendered around every multiple of the capacity, of half of it and around every power of two",
		Body: func(c *mc.C) {
			caps := append([]int{100, 300, 1000, 2000}, around(6, 12, 1)...)
			for i := 13; i <= 40; i++ {
				caps = append(caps, i)
			}
			capacity := caps[c.Choose(len(caps))]
			pl, err := hls.NewPlaylist("http://h/p", "f.ts", capacity, 10)
			if err != nil {
				c.Failf("NewPlaylist: %v", err)
			}
			near := map[int]bool{}
			for _, x := range around(0, 14, 1) {
				near[x] = true
			}
			for i := 0; i <= 6; i++ {
				for d := -1; d <= 1; d++ {
					near[i*capacity/2+d] = true
				}
			}
			var all []refSeg
			pos := int64(0)
			for i := 0; i <= 3*capacity+2; i++ {
				if near[i] || capacity < 50 {
					checkPlaylist(c, fmt.Sprintf("capacity %d, %d additions", capacity, i), pl, "http://h/p/f.ts", all, capacity)
					c.Tick()
				}
				d, l := 0.5+float64(i%9), int64(188*(i%1000))
				pl.AddSegment(d, l)
				all = append(all, refSeg{d, l, pos})
				pos += l
				c.Step(1)
				c.State(capacity, i)
			}
			c.Logf("capacity %d", capacity)
		}})

	extend("C14", mc.Driver{Name: "special", Split: 2,
		Bounds: "all 65536 extension identifiers with extensions of 0, 1 and 2 words, with or without sources and padding; all combinations of 7 special values of sequence number, timestamp, source, first contributing source and extension identifier, x 4 second bytes; payloads of every length 0..1500 and 2^k-1 .. 2^k+1 up to 2^16",
		Body: func(c *mc.C) {
			switch k := c.Choose(3); k {
			case 0:
				hi := c.Choose(256)
				for lo := 0; lo < 256; lo++ {
					for xl := 0; xl < 3; xl++ {
						for _, first := range []byte{0x90, 0x91, 0xb0} {
							for pl := 0; pl < 3; pl++ {
								o := 12 + 4*int(first&15)
								b := rtpPattern(o+4+4*xl+pl, 0)
								b[0] = first
								b[o], b[o+1], b[o+2], b[o+3] = byte(hi), byte(lo), 0, byte(xl)
								if pl > 0 {
									b[len(b)-1] = byte(pl)
								}
								checkRTP(c, b)
							}
						}
					}
				}
				c.State(k, hi)
			case 1:
				vals := []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xbede, 0x10001000}
				sn, ts := vals[c.Choose(7)], vals[c.Choose(7)]
				for _, ssrc := range vals {
					for _, csrc := range vals {
						for _, xh := range vals {
							for _, second := range []byte{0, 0x60, 0x80, 0xff} {
								for _, pt := range []int{0, 1, 8} {
									b := []byte{0x91, second, byte(sn >> 8), byte(sn)}
									for _, v := range []uint32{ts, ssrc, csrc} {
										b = append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
									}
									b = append(b, byte(xh>>8), byte(xh), 0, 1, byte(xh), byte(ts), byte(sn), byte(ssrc))
									b = append(b, make([]byte, pt)...)
									checkRTP(c, b)
								}
							}
						}
					}
				}
				c.State(k, int(sn), int(ts))
			case 2:
				part := c.Choose(8)
				ns := around(11, 16, 1)
				for n := 0; n <= 1500; n++ {
					ns = append(ns, n)
				}
				for i, n := range ns {
					if i%8 != part {
						continue
					}
					for _, first := range []byte{0x80, 0xa0, 0x8f, 0x90} {
						for kind := 0; kind < 2; kind++ {
							o := 12 + 4*int(first&15)
							if first&0x10 != 0 {
								o += 4
							}
							b := rtpPattern(o+n, kind)
							b[0] = first
							if first&0x10 != 0 {
								b[o-4], b[o-3], b[o-2], b[o-1] = 0, 0, 0, 0
							}
							if first&0x20 != 0 && n > 0 {
								b[len(b)-1] = byte(1 + n%255)
							}
							checkRTP(c, b)
							c.State(n, int(first), kind)
						}
					}
				}
			}
		}})

	extend("C15", mc.Driver{Name: "special", Split: 2,
		Bounds: "all combinations of 7 special values of source, both halves of the NTP timestamp, RTP timestamp, packet and octet count, for 0 and 2 report blocks; all 65536 length fields; sender reports followed by 2^k-1 .. 2^k+1 more bytes up to 2^16",
		Body: func(c *mc.C) {
			vals := []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xffff, 0x10000}
			if c.Bool() {
				hi := c.Choose(256)
				for lo := 0; lo < 256; lo++ {
					for _, pt := range []byte{200, 201, 203} {
						b := rtpPattern(28, 0)
						b[0], b[1], b[2], b[3] = 0x80, pt, byte(hi), byte(lo)
						checkRTCP(c, b)
					}
				}
				ns := around(5, 16, 1)
				b := rtpPattern(28+ns[hi%len(ns)], 1)
				b[0], b[1] = 0x80, 200
				checkRTCP(c, b)
				c.State(hi)
				return
			}
			a, e := vals[c.Choose(7)], vals[c.Choose(7)]
			for i := 0; i < 7*7*7*7; i++ {
				for _, n := range []int{0, 2} {
					b := rtpPattern(28+24*n, 0)
					b[0], b[1] = 0x80|byte(n), 200
					for j, v := range []uint32{a, vals[i%7], vals[i/7%7], e, vals[i/49%7], vals[i/343]} {
						b[4+4*j], b[5+4*j], b[6+4*j], b[7+4*j] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
					}
					checkRTCP(c, b)
				}
			}
			c.Count(7*7*7*7, 0)
		}})

	extend("C16", mc.Driver{Name: "many", Split: 1,
		Bounds: "1..70 and 100, 127..129, 255..257, 300, 1000 video sections with other sections between; as many parameter sets in one attribute; parameter sets, config, control URLs and unknown attributes of 1..80 and 2^k-1 .. 2^k+1 bytes up to 2^16; as many unknown attributes before and after the known ones",
		Body: func(c *mc.C) {
			counts := append(append([]int{100, 300, 1000}, around(7, 8, 1)...), 0)
			counts = counts[:len(counts)-1]
			for i := 1; i <= 70; i++ {
				counts = append(counts, i)
			}
			sizes := around(7, 16, 1)
			for i := 1; i <= 80; i++ {
				sizes = append(sizes, i)
			}
			k := c.Choose(len(counts) + len(sizes))
			lines := append([]sdpLine{}, sessionHead...)
			text := func(n int) string { return strings.Repeat("a1B2=/+x", n/8+1)[:n] }
			if k < len(counts) {
				n := counts[k]
				for i := 0; i < n; i++ {
					pt := 96 + i%32
					b := []byte{0x67, byte(i), byte(i >> 8), 0xff}
					lines = append(lines, mVideo(pt, ""), aRtpmap(pt, "H264", 90000+i, ""), aControl(fmt.Sprintf("track%d", i)), aFmtp(pt, ";", "", pSprop("sprop-parameter-sets", b, []byte{0x68, byte(i)})))
					if i%3 == 1 {
						lines = append(lines, section(1)...)
					}
				}
				checkSDP(c, render(lines, "\r\n", true), expectFeeds(lines), "")
				lines = append([]sdpLine{}, sessionHead...)
				var sets [][]byte
				for i := 0; i < n; i++ {
					sets = append(sets, fill(1+i%5, func(j int) byte { return byte(i*7 + j*99) }))
				}
				lines = append(lines, mVideo(96, ""))
				for i := 0; i < n; i++ {
					lines = append(lines, plain(fmt.Sprintf("a=x-unknown-%d:%d", i, i)))
				}
				lines = append(lines, aFmtp(96, ";", "", pNone("packetization-mode=1"), pSprop("sprop-parameter-sets", sets...), pSize("sizelength", 13)), aRtpmap(96, "H264", 90000, ""))
				for i := 0; i < n; i++ {
					lines = append(lines, plain(fmt.Sprintf("b=X-%d:1", i)))
				}
				lines = append(lines, aControl("t"))
				var ps []param
				for i := 0; i < n; i++ {
					ps = append(ps, pNone(fmt.Sprintf("x%d=%d", i, i)))
				}
				lines = append(lines, mVideo(97, ""), aFmtp(97, "; ", "", append(append([]param{pIndex("indexlength", 3)}, ps...), pConfig("config", []byte{1, 2}))...))
				checkSDP(c, render(lines, "\n", true), expectFeeds(lines), "")
			} else {
				n := sizes[k-len(counts)]
				b := fill(n, func(i int) byte { return byte(i*41 + i>>8) })
				lines = append(lines, mVideo(96, ""), plain("a=x:"+text(n)), aFmtp(96, ";", "", pSprop("sprop-parameter-sets", b, ppsBytes, b), pConfig("config", b), pNone("y="+text(n)), pSize("sizelength", n)),
					plain("i="+text(n)), aControl("rtsp://h/"+text(n)), aRtpmap(96, "H264", 90000, ""), mVideo(97, ""), aControl("t2"))
				for f := 0; f < 4; f++ {
					checkSDP(c, render(lines, []string{"\r\n", "\n"}[f&1], f&2 == 0), expectFeeds(lines), "")
				}
			}
			c.State(k)
			c.Logf("case %d", k)
		}})

	extend("C17", mc.Driver{Name: "large", Split: 2,
		Bounds: "one damaged, unknown or empty line of 2^k-1 .. 2^k+1 bytes, k = 7..18, or 2^k-1 .. 2^k+1 of them (k = 7..14), in 8 forms, at every line boundary of a full description",
		Body: func(c *mc.C) {
			var lines []sdpLine
			lines = append(lines, sessionHead...)
			for _, k := range []int{0, 1, 2, 3} {
				lines = append(lines, section(k)...)
			}
			form := []string{"x", "a=", "a=x:", "a=fmtp:96 x", "a=rtpmap", "i=", "", "\xff\x00"}[c.Choose(8)]
			ns := around(7, 18, 1)
			n := ns[c.Choose(len(ns))]
			for at := 0; at <= len(lines); at++ {
				if n > 5000 && at%3 > 0 {
					continue
				}
				one := append(append([]sdpLine{}, lines[:at]...), plain(form+strings.Repeat("y", n)))
				one = append(one, lines[at:]...)
				checkSDPLong(c, render(one, "\r\n", true), expectFeeds(lines), fmt.Sprintf("line %d of %d bytes starting with %q", at, n, form))
				if n < 20000 && at%4 == 1 {
					many := append([]sdpLine{}, lines[:at]...)
					for i := 0; i < n; i++ {
						many = append(many, plain(form))
					}
					many = append(many, lines[at:]...)
					checkSDPLong(c, render(many, "\n", true), expectFeeds(lines), fmt.Sprintf("%d lines %q at %d", n, form, at))
				}
				c.State(form, n, at)
				c.Tick()
			}
			c.Logf("%q, %d", form, n)
		}})

	extend("C20", mc.Driver{Name: "numbers", Split: 1,
		Bounds: "every port pair n to n+1, n to n, and 65535-n to n, without port 0, as port, client port and server port, every channel pair, every TTL and number of layers 0..255: formatted, parsed and parsed from a hand-written value",
		Body: func(c *mc.C) {
			hi := c.Choose(256)
			for lo := 0; lo < 256; lo++ {
				n := hi<<8 | lo
				for _, pair := range []rtsp.Pair{{One: n, Two: n + 1}, {One: n, Two: n}, {One: 65535 - n, Two: n}} {
					for kind := 0; kind < 3; kind++ {
						p := pair
						if kind > 0 && (p.One == 0 || p.Two == 0) {
							continue // no port
						}
						t := *rtsp.NewTransport(kind, 6)
						ps := []tparam{}
						v := ""
						switch kind {
						case 0:
							p = rtsp.Pair{One: p.One & 0xff, Two: p.Two & 0xff}
							t.Interleave = p
							ps = append(ps, pairs("interleaved", fInter, p.One, p.Two))
							v = "RTP/AVP/TCP;unicast"
						case 1:
							t.ClientPort, t.ServerPort = p, rtsp.Pair{One: p.Two, Two: p.One}
							ps = append(ps, pairs("client_port", fClient, t.ClientPort.One, t.ClientPort.Two), pairs("server_port", fServer, t.ServerPort.One, t.ServerPort.Two))
							v = "RTP/AVP;unicast"
						case 2:
							t.Port, t.TTL, t.Layers = p, lo, hi
							ps = append(ps, pairs("port", fPort, p.One, p.Two), tparam{text: fmt.Sprintf("ttl=%d", lo), apply: func(t *rtsp.Transport) { t.TTL = lo }},
								tparam{text: fmt.Sprintf("layers=%d", hi), apply: func(t *rtsp.Transport) { t.Layers = hi }})
							v = "RTP/AVP;multicast"
						}
						s := t.String()
						g := *rtsp.NewTransport(kind, 40)
						if err := g.Parse(s); err != nil {
							c.Failf("%q (formatted from %+v): %v", s, t, err)
						}
						if !sameTransport(&g, &t) {
							c.Failf("%q parsed:%s", s, transportDiff(g, t))
						}
						for _, q := range ps {
							v += ";" + q.text
						}
						start := *rtsp.NewTransport(kind, 2)
						checkParse(c, start, v, ps)
						c.Step(2)
					}
				}
				c.State(n)
			}
			c.Logf("numbers %d..%d", hi<<8, hi<<8+255)
		}})

	extend("C21", mc.Driver{Name: "numbers", Split: 1,
		Bounds: "every sequence number 0..65535 and 2^k-1 .. 2^k+1 up to 2^31-1, for 4 methods with and without a session and authorization",
		Body: func(c *mc.C) {
			hi := c.Choose(256)
			ns := []int{}
			for lo := 0; lo < 256; lo++ {
				ns = append(ns, hi<<8|lo)
			}
			if hi == 0 {
				ns = append(ns, around(16, 30, 1)...)
			}
			for _, n := range ns {
				for i := 0; i < 4; i++ {
					checkRequest(c, &rtsp.Request{Verb: verbs[(n+i*2)%len(verbs)], Cseq: n, URI: "rtsp://h/" + fmt.Sprint(n), Session: sessionsOf(i, n), Auth: []string{"", "Basic x"}[i/2], Header: rtsp.MessageHeader{}})
				}
				c.State(n)
			}
		}})

	extend("C34", mc.Driver{Name: "many", Split: 1,
		Bounds: "1..70 video sections with parameter sets, other sections between, for 4 protocols: offers, then confirmations of all of them in order, backwards, or every third, each checked after the next",
		Body: func(c *mc.C) {
			n := 1 + c.Choose(70)
			proto := c.Choose(4)
			order := c.Choose(3)
			lines := append([]sdpLine{}, sessionHead...)
			sp, pp := make([]*arrival, n), make([]*arrival, n)
			for i := 0; i < n; i++ {
				var l []sdpLine
				l, sp[i], pp[i] = feedSection(i)
				lines = append(lines, l...)
				if i%4 == 2 {
					lines = append(lines, section(1)...)
				}
			}
			feeds, err := rtsp.ParseFeeds(proto, []byte(render(lines, "\r\n", true)))
			if err != nil || len(feeds) != n {
				c.Failf("%d video sections: %d feeds, error %v", n, len(feeds), err)
			}
			want := expectFeeds(lines)
			set := make([]bool, n)
			check := func(hist string) {
				for i, f := range feeds {
					if !sameFeed(toFeed(f.Media), want[i]) {
						c.Failf("%s: feed %d is %v, should be %v", hist, i, toFeed(f.Media), want[i])
					}
					if f.IsSet != set[i] {
						c.Failf("%s: feed %d set=%v, should be %v", hist, i, f.IsSet, set[i])
					}
					ms := modelStore{map[uint32]*arrival{}, map[uint32]*arrival{}}
					if set[i] {
						ms.sps[sp[i].id] = sp[i]
						ms.pps[pp[i].id] = pp[i]
					}
					checkStore(c, i, hist, f.Sets, &ms)
					checkOffer(c, proto, i, f.TransportHeader())
				}
			}
			check(fmt.Sprintf("%d feeds", n))
			for k := 0; k < n; k++ {
				i := k
				switch order {
				case 1:
					i = n - 1 - k
				case 2:
					if i = k * 3; i >= n {
						break
					}
				}
				if i >= n {
					break
				}
				v := fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d", 2*i, 2*i+1)
				switch proto {
				case rtsp.ProtoUnicast:
					v = fmt.Sprintf("RTP/AVP;unicast;client_port=%d-%d", udpBase+2*i, udpBase+2*i+1)
				case rtsp.ProtoMulticast:
					v = fmt.Sprintf("RTP/AVP;multicast;port=%d-%d", udpBase+2*i, udpBase+2*i+1)
				}
				if err := feeds[i].TransportSetup(v); err != nil {
					c.Failf("%d feeds: confirming feed %d with %s: %v", n, i, v, err)
				}
				set[i] = true
				check(fmt.Sprintf("%d feeds, feed %d confirmed", n, i))
				c.Step(1)
				c.State(n, proto, order, k)
			}
			c.Tick()
			c.Logf("%d feeds, protocol %d, order %d", n, proto, order)
		}})

	// ---- C19: single characters
	extend("C19", mc.Driver{Name: "characters", Split: 2,
		Bounds: "realm, nonce or opaque value made of one or two characters out of all 223 a quoted string may contain (all pairs), and with each of them at the beginning, in the middle and at the end of a word; each used once, with and without qop; realm also for Basic",
		Body: func(c *mc.C) {
			which := c.Choose(3)
			x := textBytes[c.Choose(len(textBytes))]
			vals := []string{string([]byte{x}), "ab" + string([]byte{x}), string([]byte{x}) + "ab", "ab" + string([]byte{x}) + "cd"}
			for _, y := range textBytes {
				vals = append(vals, string([]byte{x, y}), "a"+string([]byte{x, y, 'b'}))
			}
			for i, v := range vals {
				checkChallengeValue(c, which, v, i&1 == 0)
			}
			c.Logf("value %d, character %q", which, x)
		}}, mc.Driver{Name: "lengths", Split: 1,
		Bounds: "realm, nonce, opaque of 1..300 and 2^k-1 .. 2^k+1 characters up to 2^16, plain and with commas and equal signs; 0..300 unknown parameters before, between and after them",
		Body: func(c *mc.C) {
			ns := around(9, 16, 1)
			for i := 1; i <= 300; i++ {
				ns = append(ns, i)
			}
			n := ns[c.Choose(len(ns))]
			for which := 0; which < 3; which++ {
				checkChallengeValue(c, which, strings.Repeat("a1B2/+x.", n/8+1)[:n], true)
				checkChallengeValue(c, which, strings.Repeat("a=b, c=d,", n/9+1)[:n], n%2 == 0)
			}
			if n <= 300 {
				checkChallengeUnknown(c, n)
			}
			c.Logf("length %d", n)
		}})
}

func sessionsOf(i, n int) string {
	if i%2 == 0 {
		return ""
	}
	return fmt.Sprintf("%08d", n)
}

func checkSDPLong(c *mc.C, text string, want []feedx, what string) {
	got := sdp.Parse([]byte(text))
	c.Step(1)
	if len(got) != len(want) {
		c.Failf("%s: %d feeds, should be %d", what, len(got), len(want))
	}
	for i := range want {
		if !sameFeed(toFeed(got[i]), want[i]) {
			c.Failf("%s: feed %d is %v, should be %v", what, i, toFeed(got[i]), want[i])
		}
	}
}
