package main

import (
	"bytes"

	"github.com/aboukirev/ouro/net/h264"
	"verif.local/harness/mc"
)

// refParse is what a strict receiver makes of one payload that is not Annex B: the units it contains up to the first
// malformation, whether it is malformed in a way that must be reported, and whether reporting is optional.
type refParsed struct {
	units    []want
	mustErr  bool
	mayErr   bool
	fragment bool
}

func refPayload(p []byte, ts uint32) (r refParsed) {
	if len(p) == 0 {
		r.mayErr = true
		return
	}
	b := p[1:]
	switch t := p[0] & 0x1f; t {
	case 24, 25, 26, 27:
		if t != 24 {
			if len(b) < 2 {
				r.mayErr = true
				return
			}
			b = b[2:]
		}
		extra := 0
		if t == 26 {
			extra = 3
		} else if t == 27 {
			extra = 4
		}
		for len(b) > 0 {
			if len(b) < 2+extra {
				r.mayErr = true // not even a unit header: ignoring the rest is fine too
				return
			}
			size := int(b[0])<<8 | int(b[1])
			if size == 0 || size > len(b)-2-extra {
				r.mustErr = true
				return
			}
			off := uint32(0)
			for i := 1; i < extra; i++ {
				off = off<<8 | uint32(b[2+i])
			}
			u := b[2+extra : 2+extra+size]
			r.units = append(r.units, want{hdr: u[0], ts: ts + off, data: refRaw(u[1:]), anyDon: true})
			b = b[2+extra+size:]
		}
	case 28:
		r.fragment = true
		if len(p) < 2 {
			r.mayErr = true
		}
	case 29:
		r.fragment = true
		if len(p) < 4 {
			r.mayErr = true
		}
	default:
		r.units = []want{{hdr: p[0], ts: ts, data: refRaw(p[1:]), anyDon: true}}
	}
	return
}

func isAnnexB(p []byte) bool {
	return bytes.HasPrefix(p, []byte{0, 0, 1}) || bytes.HasPrefix(p, []byte{0, 0, 0, 1})
}

// checkAny pushes an arbitrary payload and judges the outcome.
func checkAny(c *mc.C, s *h264.NALSink, p []byte, pending []byte) {
	in := append([]byte{}, p...)
	err := s.Push(p, 5)
	if !bytes.Equal(in, p) {
		c.Failf("Push(%s) modified the buffer", hexs(in))
	}
	if isAnnexB(p) {
		total := 0
		for _, u := range s.Units {
			total += 1 + len(u.Data)
		}
		if total > len(p)+len(pending)+1 {
			c.Failf("Push(%s) invents data: %s", hexs(p), unitsStr(s.Units))
		}
		return
	}
	r := refPayload(p, 5)
	if r.mustErr && err == nil {
		c.Failf("Push(%s) accepts a unit size of zero or beyond the end of the packet: %s", hexs(p), unitsStr(s.Units))
	}
	if !r.mustErr && !r.mayErr && !r.fragment && err != nil {
		c.Failf("Push(%s) refuses a valid packet: %v", hexs(p), err)
	}
	if r.fragment {
		if len(s.Units) > 1 {
			c.Failf("Push(%s) of one fragment gives %s", hexs(p), unitsStr(s.Units))
		}
		if len(s.Units) == 1 {
			hl := 2
			if p[0]&0x1f == 29 {
				hl = 4
			}
			if len(p) < hl || p[1]&0x40 == 0 {
				c.Failf("Push(%s) of a fragment without end flag gives %s", hexs(p), unitsStr(s.Units))
			}
			w := append([]byte{}, p[hl:]...)
			if p[1]&0x80 == 0 {
				w = append(append([]byte{}, pending...), p[hl:]...)
			}
			if !bytes.Equal(s.Units[0].Data, refRaw(w)) {
				c.Failf("Push(%s) after pending %s gives %s", hexs(p), hexs(pending), unitsStr(s.Units))
			}
		}
		return
	}
	// all units of a valid packet; some leading ones of a malformed packet
	if len(s.Units) > len(r.units) || err == nil && len(s.Units) != len(r.units) {
		c.Failf("Push(%s) = %v gives %s, the packet holds %s", hexs(p), err, unitsStr(s.Units), wantsStr(r.units))
	}
	expect(c, s, r.units[:len(s.Units)], hexs(p))
}

// after pushes valid payloads of every kind; the sink must depacketize them as if nothing happened.
func after(c *mc.C, s *h264.NALSink, kind int) {
	u := nalPool[0]
	w := want{hdr: u.hdr, ts: 9, data: refRaw(u.body), anyDon: true}
	var ps [][]byte
	var ws []want
	switch kind {
	case 0:
		ps = [][]byte{u.wire()}
		ws = []want{w}
	case 1:
		p := put16([]byte{24}, len(u.body)+1)
		p = append(p, u.wire()...)
		p = put16(p, len(u.body)+1)
		ps = [][]byte{append(p, u.wire()...)}
		ws = []want{w, w}
	case 2:
		p := put16([]byte{25, 0x12, 0x34}, len(u.body)+1)
		ps = [][]byte{append(p, u.wire()...)}
		w.anyDon, w.don = false, 0x1234
		ws = []want{w}
	case 3:
		ps = [][]byte{append([]byte{u.hdr&0xe0 | 28, u.hdr&0x1f | 0x80}, u.body[:3]...), append([]byte{u.hdr&0xe0 | 28, u.hdr & 0x1f}, u.body[3:4]...), append([]byte{u.hdr&0xe0 | 28, u.hdr&0x1f | 0x40}, u.body[4:]...)}
		ws = []want{w}
	case 4:
		p := append([]byte{0, 0, 0, 1}, u.wire()...)
		p = append(p, 0, 0, 1)
		ps = [][]byte{append(p, u.wire()...)}
		ws = []want{w, w}
	case 5:
		p := append(put16([]byte{27, 0xff, 0xff}, len(u.body)+1), 1, 0, 1, 0)
		ps = [][]byte{append(p, u.wire()...)}
		w.anyDon, w.don, w.ts = false, 0, 9+256
		ws = []want{w}
	}
	for i, p := range ps {
		if err := s.Push(p, 9); err != nil {
			c.Failf("valid payload %s after the malformed one failed: %v", hexs(p), err)
		}
		if i == len(ps)-1 {
			expect(c, s, ws, hexs(p))
		} else {
			expect(c, s, nil, hexs(p))
		}
	}
}

func init() {
	alpha := []byte{0x00, 0x01, 0x02, 0x03, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1d, 0x41, 0x80, 0xc5, 0xff}
	add(mc.Check{
		ID:   "C07",
		Rule: "an execution is one prefix extended in every way; every resulting payload is pushed into a sink with and without pending fragments and judged against a strict parser, then valid payloads follow",
		Drivers: []mc.Driver{
			{Name: "strings", Split: 3,
				Bounds: "every payload of length up to 6 (thorough 7) over 14 byte values including all aggregation and fragment types, in a fresh sink and in one with a pending fragment; every 7th is followed by a valid payload of one of 6 kinds",
				Body: func(c *mc.C) {
					more := 3
					if c.Thorough {
						more = 4
					}
					var p []byte
					n := c.Choose(4)
					for i := 0; i < n; i++ {
						p = append(p, alpha[c.Choose(len(alpha))])
					}
					m := 0
					if n == 3 {
						m = more
					}
					k := int64(0)
					start := []byte{0x7c, 0x85, 0x11, 0x22}
					s := h264.NewNALSink()
					eachString(alpha, p, m, func(b []byte) {
						s.Units, s.Fragments, s.Don = s.Units[:0], s.Fragments[:0], 0
						checkAny(c, s, b, nil)
						if k%7 == 0 {
							after(c, s, int(k/7)%6)
						}
						s = h264.NewNALSink()
						if err := s.Push(start, 1); err != nil {
							c.Failf("start fragment: %v", err)
						}
						checkAny(c, s, b, []byte{0x11, 0x22})
						if k%7 == 3 {
							after(c, s, int(k/7)%6)
						}
						k++
					})
					c.Count(2*k, 2*k)
					c.Logf("prefix %s: %d payloads", hexs(p), k)
				}},
			{Name: "sizes", Split: 2,
				Bounds: "aggregation packets of all 4 kinds with 1..3 units whose declared size at one position is every value 0..40, and around 2^8, 2^15 and 2^16, with actual data of 0..12 bytes after it",
				Body: func(c *mc.C) {
					t := 24 + c.Choose(4)
					pos := c.Choose(3)
					have := c.Choose(13)
					sizes := []int{}
					for i := 0; i <= 40; i++ {
						sizes = append(sizes, i)
					}
					for _, b := range []int{0x100, 0x7fff, 0x8000, 0xffff} {
						for i := -8; i <= 2; i++ {
							if b+i <= 0xffff {
								sizes = append(sizes, b+i)
							}
						}
					}
					for _, sz := range sizes {
						for kind := 0; kind < 6; kind++ {
							p := []byte{byte(t)}
							if t > 24 {
								p = append(p, 0xff, 0xfe)
							}
							hdr := func(n int) {
								p = put16(p, n)
								if t >= 26 {
									p = append(p, 1, 0, 2)
								}
								if t == 27 {
									p = append(p, 3)
								}
							}
							for i := 0; i < pos; i++ {
								hdr(3)
								p = append(p, 0x65, 0xaa, 0xbb)
							}
							hdr(sz)
							for i := 0; i < have; i++ {
								p = append(p, byte(0x41+i))
							}
							s := h264.NewNALSink()
							checkAny(c, s, p, nil)
							after(c, s, kind)
						}
						c.State(t, pos, have, sz)
						c.Step(12)
					}
					c.Logf("type %d, %d good units, %d bytes", t, pos, have)
				}},
			{Name: "cuts", Split: 2,
				Bounds: "valid payloads of 9 kinds cut short at every byte, with every single byte replaced by each of 14 values, or with 1..3 extra bytes, then a valid payload of each of 6 kinds",
				Body: func(c *mc.C) {
					kind := c.Choose(9)
					after1 := c.Choose(6)
					u, v := nalPool[0], nalPool[3]
					var p []byte
					agg := func(h []byte, mid ...byte) []byte {
						q := append([]byte{}, h...)
						for _, x := range []nalu{u, v, u} {
							q = put16(q, len(x.body)+1)
							q = append(q, mid...)
							q = append(q, x.wire()...)
						}
						return q
					}
					switch kind {
					case 0:
						p = u.wire()
					case 1:
						p = agg([]byte{24})
					case 2:
						p = agg([]byte{25, 1, 2})
					case 3:
						p = agg([]byte{26, 1, 2}, 3, 4, 5)
					case 4:
						p = agg([]byte{27, 1, 2}, 3, 4, 5, 6)
					case 5:
						p = []byte{0x7c, 0x85, 1, 2, 3}
					case 6:
						p = []byte{0x7d, 0x85, 0, 9, 1, 2, 3}
					case 7:
						p = []byte{0x7c, 0x45, 1, 2, 3}
					case 8:
						p = append(append([]byte{0, 0, 1}, u.wire()...), 0, 0, 0, 1, 0x65, 1, 0, 0, 1, 0x18, 0, 1, 7)
					}
					try := func(b []byte) {
						for pend := 0; pend < 2; pend++ {
							s := h264.NewNALSink()
							var pb []byte
							if pend == 1 {
								s.Push([]byte{0x7c, 0x85, 0x33}, 1)
								pb = []byte{0x33}
							}
							checkAny(c, s, b, pb)
							after(c, s, after1)
							c.State(b, pend)
							c.Step(2)
						}
					}
					for n := 0; n <= len(p); n++ {
						try(append([]byte{}, p[:n]...))
					}
					for i := range p {
						for _, x := range append(alpha, p[i]+1, p[i]-1, p[i]^0x80) {
							q := append([]byte{}, p...)
							q[i] = x
							try(q)
						}
					}
					for n := 1; n < 4; n++ {
						for _, x := range alpha {
							try(append(append([]byte{}, p...), bytes.Repeat([]byte{x}, n)...))
						}
					}
					c.Logf("kind %d then %d", kind, after1)
				}},
		},
	})
}
