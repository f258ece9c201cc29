package main

import (
	"bytes"
	"fmt"

	"github.com/aboukirev/ouro/net/h264"
	"verif.local/harness/mc"
)

// nalu is a NAL unit as the sender has it: header byte and payload with emulation prevention.
type nalu struct {
	hdr  byte
	body []byte
}

func (n nalu) wire() []byte { return append([]byte{n.hdr}, n.body...) }

// want is a unit the receiver must deliver.
type want struct {
	hdr  byte
	don  uint16
	ts   uint32
	data []byte
	// dontCare flags
	anyDon bool
	anyTS  bool
}

func put16(b []byte, v int) []byte { return append(b, byte(v>>8), byte(v)) }
func put24(b []byte, v int) []byte { return append(b, byte(v>>16), byte(v>>8), byte(v)) }

// snap is a copy of a delivered unit, and the unit itself as a caller would have copied it.
type snap struct {
	u    h264.NALUnit
	data []byte
}

func unitStr(h byte, don uint16, ts uint32, d []byte) string {
	return fmt.Sprintf("{%02x don=%d ts=%d data=%s}", h, don, ts, hexs(d))
}

func unitsStr(us []h264.NALUnit) string {
	s := ""
	for _, u := range us {
		s += unitStr(u.Header, u.Don, u.TS, u.Data)
	}
	return "[" + s + "]"
}

func wantsStr(us []want) string {
	s := ""
	for _, u := range us {
		s += unitStr(u.hdr, u.don, u.ts, u.data)
	}
	return "[" + s + "]"
}

// expect compares the units of the sink with the wanted ones.
func expect(c *mc.C, s *h264.NALSink, ws []want, what string) {
	bad := len(s.Units) != len(ws)
	for i := 0; !bad && i < len(ws); i++ {
		u, w := s.Units[i], ws[i]
		bad = u.Header != w.hdr || !w.anyDon && u.Don != w.don || !w.anyTS && u.TS != w.ts || !bytes.Equal(u.Data, w.data)
		if u.Type() != w.hdr&0x1f || u.RefIdc() != w.hdr>>5&3 {
			c.Failf("header %02x has type %d and reference %d", w.hdr, u.Type(), u.RefIdc())
		}
	}
	if bad {
		c.Failf("after %s the sink has %s, should have %s", what, unitsStr(s.Units), wantsStr(ws))
	}
}

// depack runs the real sink and tracks what it must hold; the buffer given to Push is scribbled on afterwards.
type depack struct {
	c     *mc.C
	s     *h264.NALSink
	buf   []byte
	snaps []snap
	next  uint16 // decoding order number of the next unit without a signalled one
	log   []string
}

func newDepack(c *mc.C) *depack {
	return &depack{c: c, s: h264.NewNALSink(), buf: make([]byte, 0, 256)}
}

func (d *depack) push(payload []byte, ts uint32, ws []want, what string) {
	d.buf = append(d.buf[:0], payload...)
	err := d.s.Push(d.buf, ts)
	if !bytes.Equal(d.buf, payload) {
		d.c.Failf("Push of %s modified the caller's buffer", what)
	}
	if err != nil {
		d.c.Failf("Push of %s (%s) failed: %v", what, hexs(payload), err)
	}
	for i := range d.buf {
		d.buf[i] ^= 0x5a
	}
	expect(d.c, d.s, ws, what+" "+hexs(payload))
	for _, sn := range d.snaps {
		if !bytes.Equal(sn.u.Data, sn.data) {
			d.c.Failf("Push of %s changed a unit delivered before: %s is now %s", what, hexs(sn.data), hexs(sn.u.Data))
		}
	}
	for _, u := range d.s.Units {
		d.snaps = append(d.snaps, snap{u, append([]byte{}, u.Data...)})
	}
	d.c.Step(1)
}

func (d *depack) single(n nalu, ts uint32) {
	w := []want{{hdr: n.hdr, don: d.next, ts: ts, data: refRaw(n.body)}}
	d.next++
	d.push(n.wire(), ts, w, "single unit")
}

func (d *depack) stap(b bool, don int, ns []nalu, ts uint32) {
	p := []byte{0x78}
	if b {
		p = []byte{0x79}
		p = put16(p, don)
		d.next = uint16(don)
	}
	var ws []want
	for _, n := range ns {
		p = put16(p, len(n.body)+1)
		p = append(p, n.wire()...)
		ws = append(ws, want{hdr: n.hdr, don: d.next, ts: ts, data: refRaw(n.body)})
		d.next++
	}
	d.push(p, ts, ws, fmt.Sprintf("STAP b=%v don=%d", b, don))
}

func (d *depack) mtap(wide bool, donb int, ns []nalu, dond []int, off []int, ts uint32) {
	p := []byte{0x7a}
	if wide {
		p = []byte{0x7b}
	}
	p = put16(p, donb)
	var ws []want
	for i, n := range ns {
		p = put16(p, len(n.body)+1)
		p = append(p, byte(dond[i]))
		if wide {
			p = put24(p, off[i])
		} else {
			p = put16(p, off[i])
		}
		p = append(p, n.wire()...)
		don := uint16(donb + dond[i])
		ws = append(ws, want{hdr: n.hdr, don: don, ts: ts + uint32(off[i]), data: refRaw(n.body)})
		d.next = don + 1
	}
	d.push(p, ts, ws, fmt.Sprintf("MTAP wide=%v donb=%d dond=%v off=%v", wide, donb, dond, off))
}

// fu sends the unit cut at the given offsets of its body. kind 0: all FU-A, 1: FU-B then FU-A, 2: all FU-B.
func (d *depack) fu(kind int, don int, n nalu, cuts []int, ts uint32) {
	bounds := append(append([]int{0}, cuts...), len(n.body))
	for i := 0; i+1 < len(bounds); i++ {
		piece := n.body[bounds[i]:bounds[i+1]]
		fh := n.hdr & 0x1f
		if i == 0 {
			fh |= 0x80
		}
		last := i+2 == len(bounds)
		if last {
			fh |= 0x40
		}
		b := kind == 2 || kind == 1 && i == 0
		var p []byte
		if b {
			p = put16([]byte{n.hdr&0xe0 | 29, fh}, (don+i)&0xffff)
		} else {
			p = []byte{n.hdr&0xe0 | 28, fh}
		}
		p = append(p, piece...)
		var ws []want
		if last {
			dd := d.next
			if kind > 0 {
				dd = uint16(don)
			}
			ws = []want{{hdr: n.hdr, don: dd, ts: ts, data: refRaw(n.body)}}
			d.next = dd + 1
		}
		d.push(p, ts, ws, fmt.Sprintf("FU kind=%d piece %d of %d don=%d", kind, i+1, len(bounds)-1, don))
	}
}

func (d *depack) annexb(ns []nalu, code int, ts uint32) {
	var p []byte
	var ws []want
	for i, n := range ns {
		if code>>uint(i)&1 == 1 {
			p = append(p, 0)
		}
		p = append(p, 0, 0, 1)
		p = append(p, n.wire()...)
		ws = append(ws, want{hdr: n.hdr, don: d.next, ts: ts, data: refRaw(n.body)})
		d.next++
	}
	d.push(p, ts, ws, "Annex B")
}

func fill(n int, f func(i int) byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = f(i)
	}
	return b
}

var nalPool = []nalu{
	{0x65, []byte{0xaa, 0x00, 0x00, 0x03, 0x01, 0x80}},
	{0x09, nil},
	{0xe1, []byte{0x00, 0x00, 0x03, 0x00, 0x00, 0x03, 0x02, 0xff}},
	{0x41, []byte{0x01, 0x00, 0x01}},
	{0x67, []byte{0x42, 0x00, 0x1e, 0x00, 0x00, 0x03}},
	{0x06, []byte{0x00, 0x00, 0x03}},
	{0x20, fill(300, func(i int) byte { return byte(i*7 + 1) })},
}

var tsPool = []uint32{0, 1, 0xffffffff, 0x80000000, 90000}
var donPool = []int{0, 1, 0xffff, 0xfffe, 0x7fff, 0x8000}

// step makes one packetization choice for up to 3 units; wide opens all secondary choices, otherwise they are deviations.
func (d *depack) step(dev func(n int) int) {
	c := d.c
	unit := func() nalu { return nalPool[dev(len(nalPool))] }
	ts := tsPool[dev(len(tsPool))]
	kind := c.Choose(9)
	switch kind {
	case 0:
		d.single(unit(), ts)
	case 1, 2: // STAP-A, STAP-B
		n := 1 + dev(3)
		var ns []nalu
		for i := 0; i < n; i++ {
			ns = append(ns, unit())
		}
		don := 0
		if kind == 2 {
			don = donPool[dev(len(donPool))]
		}
		d.stap(kind == 2, don, ns, ts)
	case 3, 4: // MTAP
		n := 1 + dev(3)
		var ns []nalu
		var dond, off []int
		for i := 0; i < n; i++ {
			ns = append(ns, unit())
			dond = append(dond, []int{0, 1, 255, 128}[dev(4)])
			if kind == 3 {
				off = append(off, []int{0, 1, 0xffff, 0x0100}[dev(4)])
			} else {
				off = append(off, []int{0, 1, 0xffffff, 0x010000, 0x0100}[dev(5)])
			}
		}
		d.mtap(kind == 4, donPool[dev(len(donPool))], ns, dond, off, ts)
	case 5, 6, 7: // FU
		u := unit()
		n := 1 + dev(3) // cuts, at least one
		var cuts []int
		at := 0
		for i := 0; i < n; i++ {
			rest := len(u.body) - at
			if rest > 12 {
				rest = 12
			}
			at += dev(rest + 1)
			cuts = append(cuts, at)
		}
		don := 0
		if kind > 5 {
			don = donPool[dev(len(donPool))]
		}
		d.fu(kind-5, don, u, cuts, ts)
	case 8:
		n := 1 + dev(3)
		var ns []nalu
		for i := 0; i < n; i++ {
			u := unit()
			if len(u.body) > 0 && u.body[len(u.body)-1] == 0 {
				u = nalPool[0]
			}
			ns = append(ns, u)
		}
		d.annexb(ns, dev(1<<uint(n)), ts)
	}
	c.State(kind, int(d.next), len(d.s.Fragments) > 0, len(d.s.Units))
}

func init() {
	c04 := mc.Check{
		ID:   "C04",
		Rule: "an execution is one sequence of NAL units with one packetization and one choice of numbers and timestamps, compared with the sender's units after each payload",
		Drivers: []mc.Driver{
			{Name: "onepacket", Split: 4, Budget: [2]int{4, 6},
				Bounds: "one payload of each of 9 kinds with up to 4 (thorough 6) departures from the default among number of units (1..3), units (pool of 7), timestamp, decoding order number and difference, timestamp offset, fragment cuts (0..3 at any byte up to 12), start code forms; preceded by 0 or 1 single unit and followed by one",
				Body: func(c *mc.C) {
					d := newDepack(c)
					if c.Bool() {
						d.single(nalPool[3], 7)
					}
					d.step(c.Dev)
					d.single(nalPool[0], 8)
					c.Logf("%s", unitsStr(d.s.Units))
				}},
			{Name: "sequences", Split: 4, Budget: [2]int{2, 3},
				Bounds: "every sequence of 3 (thorough 4) payloads of 9 kinds with up to 2 (thorough 3) departures as above over the whole sequence",
				Body: func(c *mc.C) {
					d := newDepack(c)
					n := 3
					if c.Thorough {
						n = 4
					}
					for i := 0; i < n; i++ {
						d.step(c.Dev)
					}
				}},
			{Name: "kinds", Split: 4,
				Bounds: "every sequence of 5 (thorough 6) payloads of 9 kinds with default contents",
				Body: func(c *mc.C) {
					d := newDepack(c)
					n := 5
					if c.Thorough {
						n = 6
					}
					d.next = 0
					k := 0
					for i := 0; i < n; i++ {
						d.step(func(n int) int { k++; return (k * 5) % n })
					}
				}},
			{Name: "headers", Split: 1,
				Bounds: "every NAL header byte with a type that is not an aggregate or fragment (types 0..23, 30, 31; 4 reference values, forbidden bit), in all 9 packetizations, with bodies of 6 kinds and every single cut",
				Body: func(c *mc.C) {
					h := byte(c.Choose(256))
					if t := h & 0x1f; t >= 24 && t <= 29 {
						c.Trivial()
						return
					}
					bodies := [][]byte{nil, {0}, {0, 0, 3}, {0xff, 0, 0, 3, 0, 0xff}, {3, 0, 0, 3, 1, 9}, {1, 2, 3, 4}}
					d := newDepack(c)
					for _, b := range bodies {
						n := nalu{h, b}
						if !(h == 0 && len(b) >= 1) { // a payload starting with 00 00 01 is Annex B
							d.single(n, 5)
						}
						d.stap(false, 0, []nalu{n, nalPool[0]}, 6)
						d.stap(true, 65535, []nalu{n, nalPool[0], n}, 7)
						d.mtap(false, 65534, []nalu{n, n}, []int{1, 3}, []int{9, 65535}, 8)
						d.mtap(true, 3, []nalu{n, n}, []int{1, 3}, []int{9, 65536}, 0xfffffff0)
						for k := 0; k < 3; k++ {
							for cut := 0; cut <= len(b); cut++ {
								d.fu(k, 17*cut, n, []int{cut}, 9)
							}
						}
						if len(b) > 0 && b[len(b)-1] != 0 || len(b) == 0 && h != 0 {
							d.annexb([]nalu{n, nalPool[0], n}, 5, 10)
							d.annexb([]nalu{n, n}, 1, 11)
						}
						if len(d.snaps) > 40 {
							d.snaps = d.snaps[20:]
						}
						c.State(int(h), b)
					}
					c.Logf("header %02x", h)
				}},
			{Name: "dons", Split: 1,
				Bounds: "every decoding order number 0..65535 for STAP-B, both MTAP kinds with every 16th difference plus 0,1,255, and FU-B; every 16-bit timestamp offset and every 24-bit offset in steps of 257",
				Body: func(c *mc.C) {
					hi := c.Choose(256)
					d := newDepack(c)
					u := nalPool[3]
					for lo := 0; lo < 256; lo++ {
						v := hi<<8 | lo
						d.stap(true, v, []nalu{u, u}, 1)
						d.single(u, 2)
						dd := (lo*16 + hi) & 0xff
						d.mtap(false, v, []nalu{u, u}, []int{dd, 255 - dd}, []int{v, 65535 - v}, uint32(v)<<16)
						d.mtap(true, v, []nalu{u, u}, []int{255 - dd, 1}, []int{v * 257 & 0xffffff, v*256 | lo}, 0xffff0000)
						d.single(u, 2)
						d.fu(1+lo%2, v, u, []int{1}, 3)
						d.single(u, 2)
						d.snaps = d.snaps[:0]
						c.State(v)
					}
					c.Logf("numbers %d..%d", hi<<8, hi<<8+255)
				}},
			{Name: "big", Split: 2,
				Bounds: "units of 1..6 lengths around 2^8, 2^15 and the largest possible (65529..65535 bytes) in every packetization, aggregates of 1..130 units, fragments numbering 2..130, cut into equal pieces; body content zero runs, 03 runs, mixed",
				Body: func(c *mc.C) {
					switch c.Choose(3) {
					case 0:
						l := []int{254, 255, 256, 257, 1499, 32765, 32766, 32767, 32768, 32769, 65526, 65527, 65528, 65529, 65530, 65531, 65532, 65533, 65534}[c.Choose(19)]
						k := c.Choose(3)
						u := nalu{0x65, refEnc(fill(l, func(i int) byte {
							switch k {
							case 0:
								return byte(i*3 + 1)
							case 1:
								return byte(i % 5 / 4)
							}
							return byte(i % 4)
						}))}
						if len(u.body) > 65534 {
							u.body = u.body[:65534]
							u.body[65533] = 0x80
						}
						d := newDepack(c)
						d.single(u, 1)
						d.stap(false, 0, []nalu{u}, 2)
						d.stap(false, 0, []nalu{nalPool[0], u, nalPool[1]}, 2)
						d.stap(true, 65535, []nalu{u, u}, 2)
						d.mtap(false, 65535, []nalu{u, nalPool[0]}, []int{0, 1}, []int{0, 1}, 2)
						d.mtap(true, 65535, []nalu{u, nalPool[0]}, []int{0, 1}, []int{0, 1}, 2)
						d.fu(0, 0, u, []int{l / 2}, 3)
						d.fu(1, 77, u, []int{1, l - 1}, 3)
						d.annexb([]nalu{u, u}, 2, 4)
						c.State("len", l, k)
						c.Logf("unit of %d bytes", l+1)
					case 1:
						n := 1 + c.Choose(130)
						var ns []nalu
						var dd, off []int
						for i := 0; i < n; i++ {
							u := nalPool[i%6]
							if len(u.body) > 0 && u.body[len(u.body)-1] == 0 {
								u = nalPool[0]
							}
							ns = append(ns, u)
							dd = append(dd, i)
							off = append(off, i*300)
						}
						d := newDepack(c)
						d.stap(false, 0, ns, 1)
						d.single(nalPool[0], 1)
						d.stap(true, 65500, ns, 1)
						d.single(nalPool[0], 1)
						d.mtap(false, 65500, ns, dd, off, 1)
						d.single(nalPool[0], 1)
						d.mtap(true, 65500, ns, dd, off, 1)
						d.single(nalPool[0], 1)
						d.annexb(ns, 0x5555, 1)
						d.single(nalPool[0], 1)
						c.State("units", n)
						c.Logf("%d units", n)
					case 2:
						n := 1 + c.Choose(130)
						u := nalu{0x45, refEnc(fill(260, func(i int) byte { return byte(i % 7 / 6) }))}
						var cuts []int
						for i := 0; i < n; i++ {
							cuts = append(cuts, (i+1)*len(u.body)/(n+1))
						}
						d := newDepack(c)
						for k := 0; k < 3; k++ {
							d.fu(k, 65530, u, cuts, 5)
							d.single(nalPool[0], 6)
							d.fu(k, 5, u, cuts, 5)
							d.fu(k, 6, u, []int{0}, 5)
						}
						c.State("frags", n)
						c.Logf("%d cuts", n)
					}
				}},
		},
	}
	add(c04)

	add(mc.Check{
		ID:   "C05",
		Rule: "an execution is one sequence of received fragments, compared with a model that holds the series in progress after each",
		Drivers: []mc.Driver{
			{Name: "series", Split: 4,
				Bounds: "every sequence of 6 (thorough 7) fragments out of 8: start, middle, end, start+end, each as FU-A and FU-B, with pairwise different contents (every third one empty)",
				Body: func(c *mc.C) {
					n := 6
					if c.Thorough {
						n = 7
					}
					f := newFrag(c)
					for i := 0; i < n; i++ {
						k := c.Choose(8)
						f.push(k&3, k>>2 == 1, body(i), 0x65, 0)
					}
				}},
			{Name: "mixed", Split: 4,
				Bounds: "every sequence of 5 (thorough 6) events: 4 fragment kinds (FU-A) of two different NAL units, with the reserved bit set or not",
				Body: func(c *mc.C) {
					n := 5
					if c.Thorough {
						n = 6
					}
					f := newFrag(c)
					for i := 0; i < n; i++ {
						k := c.Choose(12)
						h := byte(0x65)
						if k >= 4 && k < 8 {
							h = 0x21
						}
						r := byte(0)
						if k >= 8 {
							r = 0x20
						}
						f.push(k&3, false, body(i+1), h, r)
					}
				}},
			{Name: "between", Split: 4,
				Bounds: "every sequence of 6 (thorough 7) events: 4 fragment kinds and 6 other payloads (single unit, STAP-A, STAP-B, MTAP16, MTAP24, Annex B), which deliver their own units and leave the series in progress alone",
				Body: func(c *mc.C) {
					n := 6
					if c.Thorough {
						n = 7
					}
					f := newFrag(c)
					for i := 0; i < n; i++ {
						if k := c.Choose(10); k < 4 {
							f.push(k, false, body(i), 0x65, 0)
						} else {
							f.other(k-4, i)
						}
					}
				}},
			{Name: "timestamps", Split: 4,
				Bounds: "every sequence of 5 (thorough 6) fragments out of 8 (start, middle, end, start+end, each as FU-A and FU-B), each pushed with one of two timestamps",
				Body: func(c *mc.C) {
					n := 5
					if c.Thorough {
						n = 6
					}
					f := newFrag(c)
					for i := 0; i < n; i++ {
						k := c.Choose(16)
						f.ts = uint32(k>>3) * 3003
						f.push(k&3, k>>2&1 == 1, body(i), 0x65, 0)
					}
				}},
			{Name: "malformed between", Split: 4,
				Bounds: "every sequence of 6 (thorough 7) events: 4 fragment kinds and 8 payloads that are refused (empty, STAP-A, STAP-B, MTAP16, MTAP24 with a unit of no bytes or one that is cut off, FU-A and FU-B without fragment header), which leave the series in progress alone",
				Body: func(c *mc.C) {
					n := 6
					if c.Thorough {
						n = 7
					}
					f := newFrag(c)
					for i := 0; i < n; i++ {
						if k := c.Choose(12); k < 4 {
							f.push(k, i&1 == 1, body(i), 0x65, 0)
						} else {
							f.refused(k - 4)
						}
					}
				}},
			{Name: "long", Split: 2,
				Bounds: "up to 80 middles before, within and after a series, with the series lost at each of: start, a middle, end; followed by a complete series of 1..45 fragments",
				Body: func(c *mc.C) {
					pre := c.Choose(46)
					mid := c.Choose(46)
					lost := c.Choose(3)
					for post := 0; post <= 45; post++ {
						f := newFrag(c)
						for i := 0; i < pre; i++ {
							f.push(1, i%2 == 0, body(i), 0x65, 0)
						}
						if lost != 0 {
							f.push(0, false, []byte{1}, 0x65, 0)
						}
						for i := 0; i < mid; i++ {
							f.push(1, false, body(i), 0x65, 0)
						}
						if lost != 1 {
							f.push(2, false, []byte{2}, 0x65, 0)
						}
						f.push(0, post%2 == 0, []byte{3}, 0x65, 0)
						for i := 0; i < post; i++ {
							f.push(1, false, body(i+3), 0x65, 0)
						}
						f.push(2, false, []byte{4}, 0x65, 0)
						f.push(2, false, []byte{5}, 0x65, 0)
						f.push(3, false, []byte{6}, 0x65, 0)
					}
					c.Logf("%d middles, then %d, lost %d", pre, mid, lost)
				}},
		},
	})

	add(mc.Check{
		ID:   "C06",
		Rule: "an execution is one sequence of payloads all pushed from one buffer that is overwritten after every push; every unit ever delivered is compared with its expected bytes after every push",
		Drivers: []mc.Driver{
			{Name: "reuse", Split: 4, Budget: [2]int{2, 2},
				Bounds: "every sequence of 3 (thorough 4) payloads of 9 kinds with up to 2 departures in units and cuts; the buffer is overwritten after each push",
				Body: func(c *mc.C) {
					d := newDepack(c)
					n := 3
					if c.Thorough {
						n = 4
					}
					for i := 0; i < n; i++ {
						d.step(c.Dev)
					}
				}},
			{Name: "spare", Split: 4,
				Bounds: "every sequence of 4 (thorough 5) payloads of 9 kinds, each pushed as a slice of a large shared buffer with spare capacity at every of 3 offsets; the whole buffer must be unchanged by the push and is overwritten afterwards",
				Body: func(c *mc.C) {
					n := 4
					if c.Thorough {
						n = 5
					}
					d := newDepack(c)
					ring := make([]byte, 4096)
					k := 0
					for i := 0; i < n; i++ {
						kind := c.Choose(9)
						d.ring(ring, c.Choose(3)*700, kind, &k)
					}
				}},
			{Name: "pending", Split: 3,
				Bounds: "every sequence of 5 (thorough 6) fragments of 6 kinds from one reused buffer with every third push of another kind in between",
				Body: func(c *mc.C) {
					n := 5
					if c.Thorough {
						n = 6
					}
					f := newFrag(c)
					for i := 0; i < n; i++ {
						k := c.Choose(6)
						f.push(k%3, k >= 3, body(i*2+1), 0x65, 0)
					}
				}},
		},
	})

	add(mc.Check{
		ID:   "C08",
		Rule: "an execution is one first number with all 65536 second numbers; every pair is compared with don_diff of RFC 6184 section 5.5",
		Drivers: []mc.Driver{
			{Name: "allpairs", Split: 1,
				Bounds: "all 2^32 pairs of 16-bit decoding order numbers",
				Body: func(c *mc.C) {
					hi := c.Choose(1024)
					for lo := 0; lo < 64; lo++ {
						m := hi*64 + lo
						for n := 0; n < 65536; n++ {
							var w int
							switch {
							case m == n:
								w = 0
							case m < n && n-m < 32768:
								w = n - m
							case m > n && m-n >= 32768:
								w = 65536 - m + n
							case m < n && n-m >= 32768:
								w = -(m + 65536 - n)
							case m > n && m-n < 32768:
								w = -(m - n)
							}
							if g := h264.DonDiff(uint16(m), uint16(n)); g != w {
								c.Failf("DonDiff(%d, %d) = %d, should be %d", m, n, g, w)
							}
						}
					}
					c.Count(64*65536, 64*65536)
					c.Logf("first numbers %d..%d", hi*64, hi*64+63)
				}},
		},
	})
}

func body(i int) []byte {
	switch i % 3 {
	case 0:
		return []byte{byte(0x10 + i)}
	case 1:
		return []byte{byte(0x10 + i), 0x77, byte(0xf0 + i)}
	}
	return nil
}

// frag pushes fragments and holds the series in progress.
type frag struct {
	d       *depack
	pending []byte
	open    bool
	ts      uint32
}

func newFrag(c *mc.C) *frag { return &frag{d: newDepack(c)} }

// push kind 0 start, 1 middle, 2 end, 3 both.
func (f *frag) push(kind int, b bool, data []byte, hdr byte, reserved byte) {
	fh := hdr&0x1f | reserved
	if kind == 0 || kind == 3 {
		fh |= 0x80
	}
	if kind == 2 || kind == 3 {
		fh |= 0x40
	}
	p := []byte{hdr&0xe0 | 28, fh}
	if b {
		p = []byte{hdr&0xe0 | 29, fh, 0, 9}
	}
	p = append(p, data...)
	var ws []want
	if fh&0x80 != 0 {
		f.open = true
		f.pending = nil
	}
	if f.open {
		f.pending = append(f.pending, data...)
		if fh&0x40 != 0 {
			f.open = false
			ws = []want{{hdr: hdr, anyDon: true, ts: 1, anyTS: f.ts != 0, data: refRaw(f.pending)}}
		}
	}
	f.d.push(p, 1+f.ts, ws, fmt.Sprintf("fragment kind %d", kind))
	f.d.c.State(kind, f.open, f.pending)
}

// other pushes a payload that is not a fragment: it must not disturb the series in progress.
func (f *frag) other(kind, i int) {
	u := nalPool[0]
	w := want{hdr: u.hdr, ts: 1, data: refRaw(u.body), anyDon: true}
	two := func(p []byte, gap int) []byte {
		for k := 0; k < 2; k++ {
			p = append(put16(p, len(u.body)+1), make([]byte, gap)...)
			p = append(p, u.wire()...)
		}
		return p
	}
	var p []byte
	ws := []want{w, w}
	switch kind {
	case 0:
		p, ws = u.wire(), ws[:1]
	case 1:
		p = two([]byte{0x78}, 0)
	case 2:
		p = two([]byte{0x79, 0, byte(i)}, 0)
	case 3:
		p = two([]byte{0x7a, 0, byte(i)}, 3)
	case 4:
		p = two([]byte{0x7b, 0, byte(i)}, 4)
	case 5:
		p = append([]byte{0, 0, 0, 1}, u.wire()...)
		p = append(append(p, 0, 0, 1), u.wire()...)
	}
	f.d.push(p, 1, ws, fmt.Sprintf("payload %d between fragments", kind))
	f.d.c.State("other", kind, f.open, f.pending)
}

var refused = [][]byte{{}, {0x78, 0, 0}, {0x78, 0, 9, 0x65, 1}, {0x79, 0, 5, 0, 4, 0x65}, {0x7a, 0, 1, 0, 3, 0, 0, 0, 0x65}, {0x7b, 0, 1, 0, 0, 0, 0, 0, 0}, {0x7c}, {0x7d, 0x85, 0}}

// refused pushes a payload that is malformed: it must not disturb the series in progress.
func (f *frag) refused(kind int) {
	buf := append([]byte{}, refused[kind]...)
	if err := f.d.s.Push(buf, 1); err == nil {
		f.d.c.Failf("Push of %s is not refused", hexs(refused[kind]))
	}
	f.d.c.Step(1)
	f.d.c.State("refused", kind, f.open, f.pending)
}

// ring pushes a payload of the kind from within a large shared buffer.
func (d *depack) ring(ring []byte, off, kind int, k *int) {
	*k++
	u := nalPool[*k%6]
	if kind == 8 && len(u.body) > 0 && u.body[len(u.body)-1] == 0 {
		u = nalPool[0]
	}
	d.ringUnit(ring, off, kind, u, byte(*k))
}

func (d *depack) ringUnit(ring []byte, off, kind int, u nalu, salt byte) {
	// build the payload with a throwaway sink to get bytes and expectation
	var payloads [][]byte
	var wants [][]want
	add := func(p []byte, ws ...want) {
		payloads = append(payloads, p)
		wants = append(wants, ws)
	}
	w := want{hdr: u.hdr, ts: 4, data: refRaw(u.body), anyDon: true}
	switch kind {
	case 0:
		add(u.wire(), w)
	case 1:
		p := put16([]byte{24}, len(u.body)+1)
		p = append(p, u.wire()...)
		p = put16(p, len(u.body)+1)
		add(append(p, u.wire()...), w, w)
	case 2:
		p := put16([]byte{25, 0, 1}, len(u.body)+1)
		p = append(p, u.wire()...)
		p = put16(p, len(u.body)+1)
		add(append(p, u.wire()...), w, w)
	case 3:
		p := append(put16([]byte{26, 0, 1}, len(u.body)+1), 0, 0, 0)
		add(append(p, u.wire()...), w)
	case 4:
		p := append(put16([]byte{27, 0, 1}, len(u.body)+1), 0, 0, 0, 0)
		add(append(p, u.wire()...), w)
	case 5, 6, 7:
		h := len(u.body) / 2
		add(append([]byte{u.hdr&0xe0 | 28, u.hdr&0x1f | 0x80}, u.body[:h]...))
		if kind > 5 {
			add(append([]byte{u.hdr&0xe0 | 28, u.hdr & 0x1f}, u.body[h:h]...))
		}
		if kind < 7 {
			add(append([]byte{u.hdr&0xe0 | 28, u.hdr&0x1f | 0x40}, u.body[h:]...), w)
		}
	case 8:
		p := append([]byte{0, 0, 1}, u.wire()...)
		p = append(p, 0, 0, 0, 1)
		add(append(p, u.wire()...), w, w)
	}
	for i, p := range payloads {
		for j := range ring {
			ring[j] = byte(j*13) + salt
		}
		copy(ring[off:], p)
		before := append([]byte{}, ring...)
		if err := d.s.Push(ring[off:off+len(p)], 4); err != nil {
			d.c.Failf("Push of %s failed: %v", hexs(p), err)
		}
		if !bytes.Equal(before, ring) {
			d.c.Failf("Push of %s wrote into the buffer of the caller", hexs(p))
		}
		for j := range ring {
			ring[j] = 0xee
		}
		expect(d.c, d.s, wants[i], hexs(p))
		for _, sn := range d.snaps {
			if !bytes.Equal(sn.u.Data, sn.data) {
				d.c.Failf("a unit delivered before changed from %s to %s", hexs(sn.data), hexs(sn.u.Data))
			}
		}
		for _, u := range d.s.Units {
			d.snaps = append(d.snaps, snap{u, append([]byte{}, u.Data...)})
		}
		d.c.Step(1)
	}
	d.c.State(kind, off, len(d.s.Fragments) > 0)
}
