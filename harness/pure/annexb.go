package main

import (
	"bytes"
	"fmt"

	"github.com/aboukirev/ouro/net/h264"
	"verif.local/harness/mc"
)

// refRaw removes emulation prevention bytes (clause 7.3.1).
func refRaw(b []byte) []byte {
	out := []byte{}
	zeros := 0
	for _, x := range b {
		if zeros >= 2 && x == 3 {
			zeros = 0
			continue
		}
		out = append(out, x)
		if x == 0 {
			zeros++
		} else {
			zeros = 0
		}
	}
	return out
}

// refEnc adds emulation prevention bytes (clause 7.4.1), at the end too.
func refEnc(b []byte) []byte {
	out := []byte{}
	zeros := 0
	for _, x := range b {
		if zeros >= 2 && x <= 3 {
			out = append(out, 3)
			zeros = 0
		}
		out = append(out, x)
		if x == 0 {
			zeros++
		} else {
			zeros = 0
		}
	}
	if zeros >= 2 {
		out = append(out, 3)
	}
	return out
}

func checkEP(c *mc.C, raw []byte) {
	in := append([]byte{}, raw...)
	enc := h264.RBSPToEncapsulated(raw)
	if !bytes.Equal(in, raw) {
		c.Failf("RBSPToEncapsulated(% x) modified its input", in)
	}
	for i := 0; i+2 < len(enc); i++ {
		if enc[i] == 0 && enc[i+1] == 0 && enc[i+2] <= 2 {
			c.Failf("RBSPToEncapsulated(% x) = % x contains 00 00 %02x", raw, enc, enc[i+2])
		}
	}
	// every 00 00 03 must be an inserted byte, so removing them all restores the input
	if back := refRaw(enc); !bytes.Equal(back, raw) {
		c.Failf("RBSPToEncapsulated(% x) = % x, which decodes to % x", raw, enc, back)
	}
	keep := append([]byte{}, enc...)
	back := h264.EBSPToRaw(enc)
	if !bytes.Equal(back, raw) {
		c.Failf("EBSPToRaw(RBSPToEncapsulated(% x)) = % x", raw, back)
	}
	if !bytes.Equal(keep, enc) {
		c.Failf("EBSPToRaw(% x) modified its input", keep)
	}
	// arbitrary encapsulated input
	if back := h264.EBSPToRaw(raw); !bytes.Equal(back, refRaw(raw)) {
		c.Failf("EBSPToRaw(% x) = % x, should be % x", raw, back, refRaw(raw))
	}
	if !bytes.Equal(in, raw) {
		c.Failf("EBSPToRaw(% x) modified its input", in)
	}
}

// strings enumerates all strings over the alphabet of length up to n with a given prefix.
func eachString(alpha []byte, prefix []byte, n int, f func(b []byte)) {
	b := append(make([]byte, 0, len(prefix)+n), prefix...)
	var rec func(left int)
	rec = func(left int) {
		f(b)
		if left == 0 {
			return
		}
		for _, x := range alpha {
			b = append(b, x)
			rec(left - 1)
			b = b[:len(b)-1]
		}
	}
	rec(n)
}

func init() {
	add(mc.Check{
		ID:   "C02",
		Rule: "an execution is one byte string prefix extended in every way; every resulting string is encapsulated and decoded",
		Drivers: []mc.Driver{
			{Name: "strings", Split: 3,
				Bounds: "every byte string of length up to 8 (thorough 9) over {00,01,02,03,04,80,ff}",
				Body: func(c *mc.C) {
					alpha := []byte{0, 1, 2, 3, 4, 0x80, 0xff}
					more := 4
					if c.Thorough {
						more = 5
					}
					var p []byte
					n := c.Choose(5)
					for i := 0; i < n; i++ {
						p = append(p, alpha[c.Choose(len(alpha))])
					}
					m := 0
					if n == 4 {
						m = more
					}
					k := int64(0)
					eachString(alpha, p, m, func(b []byte) {
						checkEP(c, b)
						k++
					})
					c.Count(k, 3*k)
					c.Logf("prefix % x: %d strings", p, k)
				}},
			{Name: "runs", Split: 2,
				Bounds: "every sequence of up to 3 runs of 0..9 zero bytes (and 0..70 for the first), separated and followed by every byte value up to 5 or ff or nothing",
				Body: func(c *mc.C) {
					seps := []int{-1, 0, 1, 2, 3, 4, 5, 0xff}
					var b []byte
					long := c.Choose(71)
					for i := 0; i < long; i++ {
						b = append(b, 0)
					}
					first := seps[c.Choose(len(seps))]
					if first >= 0 {
						b = append(b, byte(first))
					}
					base := len(b)
					for z := 0; z < 10; z++ {
						for _, s := range seps {
							for y := 0; y < 10; y++ {
								for _, t := range seps {
									b = b[:base]
									for i := 0; i < z; i++ {
										b = append(b, 0)
									}
									if s >= 0 {
										b = append(b, byte(s))
									}
									for i := 0; i < y; i++ {
										b = append(b, 0)
									}
									if t >= 0 {
										b = append(b, byte(t))
									}
									checkEP(c, b)
								}
							}
						}
					}
					c.Count(6400, 19200)
					c.Logf("%d zeroes then %d", long, first)
				}},
			{Name: "bytes", Split: 1,
				Bounds: "every byte value after 0..4 zeroes and before 0..4 zeroes, in buffers of up to 4100 bytes of every padding value class",
				Body: func(c *mc.C) {
					v := c.Choose(256)
					for pre := 0; pre < 5; pre++ {
						for post := 0; post < 5; post++ {
							for _, pad := range []int{0, 1, 255, 4090} {
								b := bytes.Repeat([]byte{0xab}, pad)
								b = append(b, make([]byte, pre)...)
								b = append(b, byte(v))
								b = append(b, make([]byte, post)...)
								checkEP(c, b)
							}
						}
					}
					c.Count(100, 300)
					c.Logf("byte %02x", v)
				}},
		},
	})

	add(mc.Check{
		ID:   "C03",
		Rule: "an execution is one list of units and one placement of start codes",
		Drivers: []mc.Driver{
			{Name: "units", Split: 3,
				Bounds: "every list of 1..3 units, the first two being every emulation-prevented byte string of length 1..4 (thorough 5) over {00,01,03,65} not ending in zero, the third one of 6; all 3- and 4-byte start codes, with and without the first one",
				Body: func(c *mc.C) {
					max := 4
					if c.Thorough {
						max = 5
					}
					us := epUnits([]byte{0, 1, 3, 0x65}, max)
					u1 := us[c.Choose(len(us))]
					lead := c.Choose(3)
					third := []string{"", "\x65", "\x01", "\x00\x00\x03\x01", "\x03", "\x00\x01"}
					k := int64(0)
					for _, u2 := range append([][]byte{nil}, us...) {
						for t := range third {
							for sc := 0; sc < 4; sc++ {
								units := [][]byte{u1}
								if u2 != nil {
									units = append(units, u2)
								} else if t > 0 {
									continue
								}
								if t > 0 {
									units = append(units, []byte(third[t]))
								}
								checkSplit(c, units, lead, []int{3 + sc&1, 3 + sc>>1})
								k++
							}
						}
					}
					c.Count(k, k)
					c.Logf("first unit % x, lead %d: %d streams", u1, lead, k)
				}},
			{Name: "long", Split: 3,
				Bounds: "1..30 units of lengths 1,2,3,5,300,5000 in rotation, with every start code pattern of period 2, with and without the first one, three fill patterns",
				Body: func(c *mc.C) {
					n := 1 + c.Choose(30)
					lead := c.Choose(3)
					sc := c.Choose(4)
					rot := c.Choose(6)
					fill := c.Choose(3)
					lens := []int{1, 2, 3, 5, 300, 5000}
					var units [][]byte
					for i := 0; i < n; i++ {
						l := lens[(i+rot)%6]
						u := make([]byte, l)
						for j := range u {
							switch fill {
							case 0:
								u[j] = byte(j * 7)
							case 1:
								u[j] = byte(j % 2)
							case 2:
								u[j] = byte(j % 3 / 2)
							}
						}
						u[0] = 0x65
						u[l-1] = 0x80 | byte(i)
						units = append(units, refEnc(u))
					}
					checkSplit(c, units, lead, []int{3 + sc&1, 3 + sc>>1})
					c.Count(1, 1)
					c.Logf("%d units, lead %d, codes %d, fill %d", n, lead, sc, fill)
				}},
			{Name: "values", Split: 2,
				Bounds: "units starting, ending and continuing with every byte value around start codes",
				Body: func(c *mc.C) {
					a := c.Choose(256)
					lead := c.Choose(3)
					k := int64(0)
					for b := 1; b < 256; b++ {
						for sc := 0; sc < 2; sc++ {
							checkSplit(c, [][]byte{{byte(b)}, refEnc([]byte{byte(a), 0, byte(b)}), {byte(b), 0, 0, 3, byte(a), byte(b)}}, lead, []int{3 + sc, 4 - sc})
							k++
						}
					}
					c.Count(k, k)
					c.Logf("byte %02x lead %d", a, lead)
				}},
		},
	})
}

// epUnits lists the non-empty byte strings that contain no start code emulation and do not end in zero.
func epUnits(alpha []byte, max int) (out [][]byte) {
	eachString(alpha, nil, max, func(b []byte) {
		if len(b) == 0 || b[len(b)-1] == 0 {
			return
		}
		for i := 0; i+2 < len(b); i++ {
			if b[i] == 0 && b[i+1] == 0 && b[i+2] <= 2 {
				return
			}
		}
		out = append(out, append([]byte{}, b...))
	})
	return
}

// checkSplit joins units with start codes (lead 0: none before the first, else 3 or 4 bytes) and splits them.
func checkSplit(c *mc.C, units [][]byte, lead int, codes []int) {
	var s []byte
	code := func(n int) {
		if n == 4 {
			s = append(s, 0)
		}
		s = append(s, 0, 0, 1)
	}
	for i, u := range units {
		if i > 0 {
			code(codes[i%len(codes)])
		} else if lead > 0 {
			code(2 + lead)
		}
		s = append(s, u...)
	}
	in := append([]byte{}, s...)
	got := h264.SplitAnnexB(s)
	if !bytes.Equal(in, s) {
		c.Failf("SplitAnnexB(% x) modified its input", in)
	}
	bad := len(got) != len(units)
	for i := 0; !bad && i < len(units); i++ {
		bad = !bytes.Equal(got[i], refRaw(units[i]))
	}
	if bad {
		c.Failf("SplitAnnexB of %s gives %s, should be the %d units", hexs(s), hexlist(got), len(units))
	}
}

func hexs(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("% x... (%d bytes)", b[:60], len(b))
	}
	return fmt.Sprintf("% x", b)
}

func hexlist(l [][]byte) string {
	s := ""
	for i, b := range l {
		if i > 0 {
			s += " | "
		}
		s += hexs(b)
	}
	return "[" + s + "]"
}
