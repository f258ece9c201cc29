package main

import (
	"fmt"

	"github.com/aboukirev/ouro/net/h264"
	"verif.local/harness/mc"
)

// bitstr is the reference bit stream: one byte per bit, and a position.
type bitstr struct {
	bits []byte
	pos  int
}

func toBits(buf []byte) *bitstr {
	b := &bitstr{}
	for _, x := range buf {
		for i := 7; i >= 0; i-- {
			b.bits = append(b.bits, x>>uint(i)&1)
		}
	}
	return b
}

func (b *bitstr) left() int { return len(b.bits) - b.pos }

func (b *bitstr) read(n int) (uint32, bool) {
	if n > 32 || n > b.left() {
		return 0, false
	}
	v := uint32(0)
	for i := 0; i < n; i++ {
		v = v<<1 | uint32(b.bits[b.pos+i])
	}
	b.pos += n
	return v, true
}

// ue reads an Exp-Golomb code; 0 fine, 1 end of the buffer, 2 value does not fit in 32 bits.
func (b *bitstr) ue() (uint32, int) {
	z := 0
	for {
		v, ok := b.read(1)
		if !ok {
			return 0, 1
		}
		if v == 1 {
			break
		}
		z++
	}
	if z > 31 {
		return 0, 2
	}
	v, ok := b.read(z)
	if !ok {
		return 0, 1
	}
	return uint32(uint64(1)<<uint(z) - 1 + uint64(v)), 0
}

func (b *bitstr) se() (int32, int) {
	k, e := b.ue()
	if e != 0 {
		return 0, e
	}
	// clause 9.1.1: (-1)^(k+1) * ceil(k/2)
	h := int64(k)/2 + int64(k)%2
	if k%2 == 0 {
		h = -h
	}
	return int32(h), 0
}

// scaling is the syntax of clause 7.3.2.1.1.1.
func (b *bitstr) scaling(n int) (list []int32, def bool, e int) {
	last, next := int64(8), int64(8)
	list = make([]int32, n)
	for j := 0; j < n; j++ {
		if next != 0 {
			d, e := b.se()
			if e != 0 {
				return nil, false, e
			}
			next = (last + int64(d) + 256) % 256
			def = j == 0 && next == 0
		}
		if next != 0 {
			last = next
		}
		list[j] = int32(last)
	}
	return list, def, 0
}

// bitw writes bit strings.
type bitw struct{ bits []byte }

func (w *bitw) u(n int, v uint64) {
	for i := n - 1; i >= 0; i-- {
		w.bits = append(w.bits, byte(v>>uint(i)&1))
	}
}

func (w *bitw) flag(f bool) {
	if f {
		w.u(1, 1)
	} else {
		w.u(1, 0)
	}
}

func (w *bitw) ue(v uint32) {
	x := uint64(v) + 1
	n := 0
	for x>>uint(n) > 1 {
		n++
	}
	w.u(n, 0)
	w.u(n+1, x)
}

func (w *bitw) se(v int32) {
	if v > 0 {
		w.ue(uint32(2*int64(v) - 1))
	} else {
		w.ue(uint32(-2 * int64(v)))
	}
}

func (w *bitw) bytes() []byte {
	out := make([]byte, (len(w.bits)+7)/8)
	for i, b := range w.bits {
		out[i/8] |= b << uint(7-i%8)
	}
	return out
}

// trail adds the stop bit and aligns.
func (w *bitw) trail() {
	w.u(1, 1)
	for len(w.bits)%8 != 0 {
		w.u(1, 0)
	}
}

// ops of the bit reader; apply performs op on both and compares. It returns false when the position is no longer
// specified (a code that ends in an error).
type bitop struct {
	name string
	do   func(c *mc.C, r *h264.BitReader, m *bitstr) bool
}

func fixedOp(n int) bitop {
	return bitop{fmt.Sprintf("ReadBits(%d)", n), func(c *mc.C, r *h264.BitReader, m *bitstr) bool {
		want, ok := m.read(n)
		got, err := r.ReadBits(uint(n))
		if ok != (err == nil) || ok && got != want {
			c.Failf("ReadBits(%d) at bit %d of %d returned %#x, %v; the buffer has %#x, available=%v", n, m.pos, len(m.bits), got, err, want, ok)
		}
		return true
	}}
}

func byteOp(n int) bitop {
	return bitop{fmt.Sprintf("ReadByteBits(%d)", n), func(c *mc.C, r *h264.BitReader, m *bitstr) bool {
		want, ok := m.read(n)
		got, err := r.ReadByteBits(uint(n))
		if ok != (err == nil) || ok && uint32(got) != want {
			c.Failf("ReadByteBits(%d) before bit %d returned %#x, %v; the buffer has %#x, available=%v", n, m.pos, got, err, want, ok)
		}
		return true
	}}
}

func skipOp(n int) bitop {
	return bitop{fmt.Sprintf("SkipBits(%d)", n), func(c *mc.C, r *h264.BitReader, m *bitstr) bool {
		_, ok := m.read(n)
		err := r.SkipBits(uint(n))
		if ok != (err == nil) {
			c.Failf("SkipBits(%d) to bit %d of %d: error %v, bits available=%v", n, m.pos, len(m.bits), err, ok)
		}
		return true
	}}
}

var opFlag = bitop{"ReadFlag", func(c *mc.C, r *h264.BitReader, m *bitstr) bool {
	want, ok := m.read(1)
	got, err := r.ReadFlag()
	if ok != (err == nil) || ok && got != (want == 1) {
		c.Failf("ReadFlag before bit %d returned %v, %v; the buffer has %d, available=%v", m.pos, got, err, want, ok)
	}
	return true
}}

var opUE = bitop{"ReadUnsignedGolomb", func(c *mc.C, r *h264.BitReader, m *bitstr) bool {
	want, e := m.ue()
	got, err := r.ReadUnsignedGolomb()
	if (e == 0) != (err == nil) || e == 0 && got != want {
		c.Failf("ReadUnsignedGolomb returned %d, %v; the buffer has %d (status %d)", got, err, want, e)
	}
	return e == 0
}}

var opSE = bitop{"ReadSignedGolomb", func(c *mc.C, r *h264.BitReader, m *bitstr) bool {
	want, e := m.se()
	got, err := r.ReadSignedGolomb()
	if (e == 0) != (err == nil) || e == 0 && got != want {
		c.Failf("ReadSignedGolomb returned %d, %v; the buffer has %d (status %d)", got, err, want, e)
	}
	return e == 0
}}

var opSkipUE = bitop{"SkipGolomb", func(c *mc.C, r *h264.BitReader, m *bitstr) bool {
	_, e := m.ue()
	err := r.SkipGolomb()
	if e == 2 {
		return false // longer than any value: refusing and skipping are both fine
	}
	if (e == 0) != (err == nil) {
		c.Failf("SkipGolomb: error %v, the buffer has status %d", err, e)
	}
	return e == 0
}}

var opParam = bitop{"ReadPayloadParam", func(c *mc.C, r *h264.BitReader, m *bitstr) bool {
	want, ok := uint32(0), true
	for {
		var v uint32
		if v, ok = m.read(8); !ok {
			break
		}
		want += v
		if v != 0xff {
			break
		}
	}
	got, err := r.ReadPayloadParam()
	if ok != (err == nil) || ok && got != want {
		c.Failf("ReadPayloadParam returned %d, %v; the buffer has %d, complete=%v", got, err, want, ok)
	}
	return ok
}}

var opTrail = bitop{"SkipTrailingBits", func(c *mc.C, r *h264.BitReader, m *bitstr) bool {
	ok := false
	if v, have := m.read(1); have && v == 1 {
		ok = true
		for ok && m.pos%8 != 0 {
			v, _ := m.read(1)
			ok = v == 0
		}
	}
	err := r.SkipTrailingBits()
	if ok != (err == nil) {
		c.Failf("SkipTrailingBits: error %v, stop bit and alignment present=%v", err, ok)
	}
	return ok
}}

func scalingOp(n int) bitop {
	return bitop{fmt.Sprintf("ReadScalingList(%d)", n), func(c *mc.C, r *h264.BitReader, m *bitstr) bool {
		want, wdef, e := m.scaling(n)
		list := make([]int32, n)
		def, err := r.ReadScalingList(list)
		if (e == 0) != (err == nil) {
			c.Failf("ReadScalingList(%d): error %v, the buffer has status %d", n, err, e)
		}
		if e == 0 {
			if def != wdef {
				c.Failf("ReadScalingList(%d): use default %v, should be %v", n, def, wdef)
			}
			if !def {
				for i := range list {
					if list[i] != want[i] {
						c.Failf("ReadScalingList(%d): element %d is %d, the buffer has %d", n, i, list[i], want[i])
					}
				}
			}
		}
		return e == 0
	}}
}

func runBits(c *mc.C, buf []byte, ops []bitop) {
	orig := append([]byte{}, buf...)
	r := h264.NewBitReader(buf)
	m := toBits(buf)
	for _, op := range ops {
		if !op.do(c, r, m) {
			return
		}
		if int(r.Available()) != m.left() {
			c.Failf("after %s on % x: %d bits available, should be %d", op.name, buf, int(r.Available()), m.left())
		}
	}
	for i := range buf {
		if buf[i] != orig[i] {
			c.Failf("the buffer was modified")
		}
	}
}

func bitPatterns(n int) [][]byte {
	mk := func(f func(i int) byte) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = f(i)
		}
		return b
	}
	return [][]byte{
		mk(func(i int) byte { return 0xff }),
		mk(func(i int) byte { return 0x00 }),
		mk(func(i int) byte { return 0xa5 }),
		mk(func(i int) byte { return byte(0x12 + 0x37*i) }),
		mk(func(i int) byte { return byte(1 << uint(i%8)) }),
		mk(func(i int) byte { return byte(0x80 >> uint(i%8)) }),
		mk(func(i int) byte {
			if i%3 == 2 {
				return 1
			}
			return 0
		}),
		mk(func(i int) byte { return byte(0xff >> uint(i%5)) }),
	}
}

var allBitOps []bitop

func init() {
	all := []bitop{opFlag, opUE, opSE, opSkipUE, opParam, opTrail,
		fixedOp(0), fixedOp(1), fixedOp(3), fixedOp(7), fixedOp(8), fixedOp(9), fixedOp(15), fixedOp(17), fixedOp(24), fixedOp(25), fixedOp(31), fixedOp(32), fixedOp(33),
		byteOp(0), byteOp(5), byteOp(8), skipOp(0), skipOp(1), skipOp(6), skipOp(8), skipOp(16), skipOp(27), skipOp(32), skipOp(33), scalingOp(2)}
	allBitOps = all
	add(mc.Check{
		ID:   "C01",
		Rule: "an execution is one buffer and one sequence of reader calls compared call by call with a bit string model; trivial if no call was made",
		Drivers: []mc.Driver{
			{Name: "widths", Split: 2,
				Bounds: "every buffer length 0..10 bytes with 8 fill patterns, every start bit 0..40 reached by skipping, one read, read-byte or skip of every width 0..40, then a flag",
				Body: func(c *mc.C) {
					n := c.Choose(11)
					buf := bitPatterns(n)[c.Choose(8)]
					start := c.Choose(41)
					var pre []bitop
					for s := start; s > 0; s -= 7 {
						if s > 7 {
							pre = append(pre, skipOp(7))
						} else {
							pre = append(pre, fixedOp(s))
						}
					}
					c.Logf("buffer % x, start bit %d", buf, start)
					for w := 0; w <= 40; w++ {
						ops := append(append([]bitop{}, pre...), fixedOp(w), opFlag)
						runBits(c, buf, ops)
						ops = append(append([]bitop{}, pre...), skipOp(w), opFlag, opTrail)
						runBits(c, buf, ops)
						if w <= 8 {
							runBits(c, buf, append(append([]bitop{}, pre...), byteOp(w), opFlag))
						}
						c.Step(3 * (len(pre) + 2))
						c.State(n, buf, start, w)
					}
				}},
			{Name: "sequences", Split: 3,
				Bounds: "every sequence of 3 (thorough 4) calls out of 31 kinds and widths on buffers of 0,1,2,5,9 bytes with 8 patterns",
				Body: func(c *mc.C) {
					depth := 2
					if c.Thorough {
						depth = 3
					}
					n := []int{0, 1, 2, 5, 9}[c.Choose(5)]
					buf := bitPatterns(n)[c.Choose(8)]
					ops := make([]bitop, depth+1)
					for i := 0; i < depth; i++ {
						ops[i] = all[c.Choose(len(all))]
					}
					for _, op := range all {
						ops[depth] = op
						runBits(c, buf, ops)
						c.Step(depth + 1)
					}
					c.Logf("buffer % x: %s, %s, then each call", buf, ops[0].name, ops[1].name)
					c.State(n, buf, ops[0].name, ops[1].name)
				}},
			{Name: "golomb", Split: 2,
				Bounds: "Exp-Golomb codes of every length 1..67 bits (0..33 leading zeroes) with smallest, largest, alternating and off-by-one values, at every start bit 0..15, followed by every filler, complete or cut at every bit; read unsigned, signed and skipped",
				Body: func(c *mc.C) {
					z := c.Choose(34)
					start := c.Choose(16)
					fill := c.Choose(2)
					var vals []uint64
					if z == 0 {
						vals = []uint64{0}
					} else {
						max := uint64(1)<<uint(z) - 1
						vals = []uint64{0, 1 & max, max, max - 1, 0x5555555555 & max, 0xaaaaaaaaaa & max, max / 2, max/2 + 1}
					}
					for _, v := range vals {
						w := &bitw{}
						for i := 0; i < start; i++ {
							w.u(1, uint64(i+fill)%2)
						}
						w.u(z, 0)
						w.u(1, 1)
						w.u(z, v)
						end := len(w.bits)
						w.u(13, 0x1555>>uint(fill))
						full := w.bytes()
						for cut := 0; cut <= len(full); cut++ {
							if cut*8 < start || cut != len(full) && cut*8 > end {
								continue
							}
							buf := full[:cut]
							for _, op := range []bitop{opUE, opSE, opSkipUE} {
								runBits(c, buf, []bitop{skipOp(start), op, fixedOp(5), opFlag})
								c.Step(4)
							}
							c.State(buf, start)
						}
					}
					c.Logf("codes with %d leading zeroes at bit %d", z, start)
				}},
			{Name: "scaling", Split: 3,
				Bounds: "scaling lists of 16 and 64 elements: coded deltas out of 8 values at 3 chosen positions, list terminated (next scale 0) at every position or never, at start bits 0,1,7; all other deltas 0",
				Body: func(c *mc.C) {
					n := []int{16, 64}[c.Choose(2)]
					start := []int{0, 1, 7}[c.Choose(3)]
					deltas := []int{0, 1, -1, 5, -7, 127, -128, 64}
					d0 := deltas[c.Choose(8)]
					d1 := deltas[c.Choose(8)]
					for stop := 0; stop <= n; stop++ {
						for mid := 1; mid < n; mid += 1 + n/16 {
							w := &bitw{}
							w.u(start, 0)
							last := 8
							for j := 0; j < n; j++ {
								d := 0
								switch {
								case j == stop:
									d = -last // next scale becomes 0
									if d < -128 {
										d += 256
									}
								case j == 0:
									d = d0
								case j == mid:
									d = d1
								}
								next := (last + d + 256) % 256
								w.se(int32(d))
								if next == 0 {
									break
								}
								last = next
							}
							w.u(11, 0x2d3)
							for len(w.bits)%8 != 0 {
								w.u(1, 1)
							}
							runBits(c, w.bytes(), []bitop{skipOp(start), scalingOp(n), fixedOp(11), opFlag})
							c.Step(4)
							c.State(n, start, d0, d1, stop, mid)
						}
					}
					c.Logf("list of %d at bit %d, deltas %d %d", n, start, d0, d1)
				}},
			{Name: "payloadparam", Split: 2,
				Bounds: "SEI parameters coded with 0..20 bytes 0xFF and every last byte, at every start bit 0..8, complete or cut",
				Body: func(c *mc.C) {
					k := c.Choose(21)
					start := c.Choose(9)
					for v := 0; v < 255; v++ {
						w := &bitw{}
						w.u(start, 0x155>>uint(9-start))
						for i := 0; i < k; i++ {
							w.u(8, 255)
						}
						w.u(8, uint64(v))
						w.u(7, 0x35)
						full := w.bytes()
						runBits(c, full, []bitop{skipOp(start), opParam, fixedOp(7)})
						if v%50 == 0 {
							for cut := 2; cut < len(full); cut++ {
								runBits(c, full[:cut], []bitop{skipOp(start), opParam, opFlag})
							}
						}
						c.Step(3)
						c.State(k, start, v)
					}
					c.Logf("%d bytes 0xff at bit %d", k, start)
				}},
		},
	})
}
