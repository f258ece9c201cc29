package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/aboukirev/ouro/net/hls"
	"github.com/aboukirev/ouro/net/rtcp"
	"github.com/aboukirev/ouro/net/rtp"
	"verif.local/harness/mc"
)

// ---- C13

type refSeg struct {
	dur      float64
	len, pos int64
}

// readPlaylist is an independent reader of the playlist text.
func readPlaylist(s string) (segs []refSeg, uris []string, err string) {
	if !strings.HasSuffix(s, "\n") {
		return nil, nil, "does not end in a line end"
	}
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	if lines[0] != "#EXTM3U" {
		return nil, nil, "does not start with #EXTM3U"
	}
	version, end := 0, false
	var cur *refSeg
	var haveRange bool
	for _, l := range lines[1:] {
		l = strings.TrimSuffix(l, "\r")
		switch {
		case end && l != "":
			return nil, nil, "has lines after #EXT-X-ENDLIST"
		case strings.HasPrefix(l, "#EXT-X-VERSION:"):
			version, _ = strconv.Atoi(l[len("#EXT-X-VERSION:"):])
		case strings.HasPrefix(l, "#EXTINF:"):
			if cur != nil {
				return nil, nil, "has two #EXTINF for one segment"
			}
			v := strings.SplitN(l[len("#EXTINF:"):], ",", 2)[0]
			d, e := strconv.ParseFloat(v, 64)
			if e != nil || strings.ContainsAny(v, "eE") {
				return nil, nil, "has a malformed duration " + v
			}
			cur, haveRange = &refSeg{dur: d}, false
		case strings.HasPrefix(l, "#EXT-X-BYTERANGE:"):
			if cur == nil || haveRange {
				return nil, nil, "has a misplaced #EXT-X-BYTERANGE"
			}
			p := strings.Split(l[len("#EXT-X-BYTERANGE:"):], "@")
			if len(p) != 2 {
				return nil, nil, "has a malformed byte range " + l
			}
			var e1, e2 error
			cur.len, e1 = strconv.ParseInt(p[0], 10, 64)
			cur.pos, e2 = strconv.ParseInt(p[1], 10, 64)
			if e1 != nil || e2 != nil {
				return nil, nil, "has a malformed byte range " + l
			}
			haveRange = true
		case l == "#EXT-X-ENDLIST":
			end = true
		case strings.HasPrefix(l, "#"), l == "":
		default:
			if cur == nil || !haveRange {
				return nil, nil, "has a media URI without duration or range"
			}
			segs = append(segs, *cur)
			uris = append(uris, l)
			cur = nil
		}
	}
	if cur != nil {
		return nil, nil, "ends inside a segment"
	}
	if version < 4 {
		return nil, nil, "declares no version that has byte ranges"
	}
	if !end {
		return nil, nil, "has no #EXT-X-ENDLIST"
	}
	return segs, uris, ""
}

func checkPlaylist(c *mc.C, hist string, pl *hls.Playlist, uri string, all []refSeg, capacity int) {
	a := pl.String()
	b := pl.String()
	if a != b {
		c.Failf("%s: rendering twice gives\n%s\nand\n%s", hist, a, b)
	}
	segs, uris, e := readPlaylist(a)
	if e != "" {
		c.Failf("%s: the playlist %s:\n%s", hist, e, a)
	}
	want := all
	if len(want) > capacity {
		want = want[len(want)-capacity:]
	}
	if len(segs) != len(want) {
		c.Failf("%s: %d segments listed, should be the latest %d:\n%s", hist, len(segs), len(want), a)
	}
	for i := range want {
		if segs[i] != want[i] || uris[i] != uri {
			c.Failf("%s: segment %d is listed as %v at %s, should be %v at %s", hist, i, segs[i], uris[i], want[i], uri)
		}
	}
}

var hlsURIs = [][3]string{
	{"http://host/path", "/var/media/stream.ts", "http://host/path/stream.ts"},
	{"http://host:8080/a/b/", "stream.mp4", "http://host:8080/a/b/stream.mp4"},
	{"http://host", "x.ts", "http://host/x.ts"},
	{"/media", "./d/x.ts", "/media/x.ts"},
	{"https://host/live?key=1", "/tmp/x.ts", "https://host/live/x.ts?key=1"},
}

// ---- C14

func rtpPattern(n, kind int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch kind {
		case 0:
			b[i] = byte(i*29 + 7)
		case 1:
			b[i] = byte(255 - i)
		case 2:
			b[i] = byte(i)
		}
	}
	return b
}

// checkRTP decodes independently and compares.
func checkRTP(c *mc.C, b []byte) {
	keep := string(b)
	p, err := rtp.Unpack(b)
	if string(b) != keep {
		c.Failf("rtp.Unpack modified its input")
	}
	c.Step(1)
	u16 := func(o int) uint16 { return uint16(b[o])<<8 | uint16(b[o+1]) }
	u32 := func(o int) uint32 { return uint32(u16(o))<<16 | uint32(u16(o+2)) }
	bad := func(why string) {
		if err == nil {
			c.Failf("rtp.Unpack(%s) accepted a packet that %s", brief(b), why)
		}
		if p != nil {
			c.Failf("rtp.Unpack(%s) returned an error and a packet", brief(b))
		}
	}
	if len(b) < 12 {
		bad("is shorter than the fixed header")
		return
	}
	if b[0]>>6 != 2 {
		bad("has another version")
		return
	}
	cc := int(b[0] & 15)
	o := 12 + 4*cc
	if len(b) < o {
		bad("is too short for its contributing sources")
		return
	}
	x := b[0]&0x10 != 0
	var xh, xl uint16
	var xd []byte
	if x {
		if len(b) < o+4 {
			bad("is too short for its extension header")
			return
		}
		xh, xl = u16(o), u16(o+2)
		o += 4
		if len(b) < o+4*int(xl) {
			bad("is too short for its extension")
			return
		}
		xd = b[o : o+4*int(xl)]
		o += 4 * int(xl)
	}
	pl := b[o:]
	if b[0]&0x20 != 0 {
		if len(pl) == 0 {
			bad("is too short for its padding")
			return
		}
		n := int(pl[len(pl)-1])
		if n == 0 || n > len(pl) {
			bad("is too short for its padding or declares none")
			return
		}
		pl = pl[:len(pl)-n]
	}
	if err != nil || p == nil {
		c.Failf("rtp.Unpack(%s): %v for a well-formed packet", brief(b), err)
	}
	if p.P() != (b[0]&0x20 != 0) || p.X() != x || int(p.CC()) != cc || p.M() != (b[1]&0x80 != 0) || p.PT() != b[1]&0x7f || p.VPXCC != b[0] || p.MPT != b[1] {
		c.Failf("rtp.Unpack(%s): flags are P=%v X=%v CC=%d M=%v PT=%d", brief(b), p.P(), p.X(), p.CC(), p.M(), p.PT())
	}
	if p.SN != u16(2) || p.TS != u32(4) || p.SSRC != u32(8) {
		c.Failf("rtp.Unpack(%s): sequence %d, timestamp %d, source %#x", brief(b), p.SN, p.TS, p.SSRC)
	}
	if len(p.CSRC) != cc {
		c.Failf("rtp.Unpack(%s): %d contributing sources", brief(b), len(p.CSRC))
	}
	for i := range p.CSRC {
		if p.CSRC[i] != u32(12+4*i) {
			c.Failf("rtp.Unpack(%s): contributing source %d is %#x", brief(b), i, p.CSRC[i])
		}
	}
	if p.XH != xh || p.XL != xl || !bytes.Equal(p.XD, xd) {
		c.Failf("rtp.Unpack(%s): extension %#x, length %d, data %s", brief(b), p.XH, p.XL, brief(p.XD))
	}
	if !bytes.Equal(p.PL, pl) {
		c.Failf("rtp.Unpack(%s): payload %s, should be %s", brief(b), brief(p.PL), brief(pl))
	}
}

func brief(b []byte) string {
	if len(b) > 64 {
		return fmt.Sprintf("%d bytes % x... % x", len(b), b[:32], b[len(b)-8:])
	}
	return fmt.Sprintf("% x", b)
}

// ---- C15

func checkRTCP(c *mc.C, b []byte) {
	keep := string(b)
	p, err := rtcp.Unpack(b)
	if string(b) != keep {
		c.Failf("rtcp.Unpack modified its input")
	}
	c.Step(1)
	bad := func(why string) {
		if err == nil {
			c.Failf("rtcp.Unpack(%s) accepted a packet that %s", brief(b), why)
		}
		if p != nil {
			c.Failf("rtcp.Unpack(%s) returned an error and a packet", brief(b))
		}
	}
	if len(b) < 4 {
		bad("is shorter than the fixed header")
		return
	}
	if b[0]>>6 != 2 {
		bad("has another version")
		return
	}
	n := int(b[0] & 31)
	if b[1] == 200 && len(b) < 28+24*n {
		bad("is too short for its report blocks")
		return
	}
	if err != nil || p == nil {
		c.Failf("rtcp.Unpack(%s): %v for a well-formed packet", brief(b), err)
	}
	if p.VPC != b[0] || p.P() != (b[0]&0x20 != 0) || int(p.C()) != n || p.PT != b[1] || p.LN != uint16(b[2])<<8|uint16(b[3]) {
		c.Failf("rtcp.Unpack(%s): P=%v C=%d PT=%d length=%d", brief(b), p.P(), p.C(), p.PT, p.LN)
	}
	u32 := func(o int) uint32 { return uint32(b[o])<<24 | uint32(b[o+1])<<16 | uint32(b[o+2])<<8 | uint32(b[o+3]) }
	if (b[1] == 200) != (p.DSR != nil) {
		c.Failf("rtcp.Unpack(%s): sender report data present=%v", brief(b), p.DSR != nil)
	}
	if d := p.DSR; d != nil {
		if d.SSRC != u32(4) || d.NTPTS != uint64(u32(8))<<32|uint64(u32(12)) || d.RTPTS != u32(16) || d.PC != u32(20) || d.OC != u32(24) {
			c.Failf("rtcp.Unpack(%s): sender information %+v", brief(b), *d)
		}
	}
}

func init() {
	add(mc.Check{
		ID:   "C13",
		Rule: "an execution is one history of additions; after each one the rendered playlist is read by an independent reader and compared with the list of all segments added so far",
		Drivers: []mc.Driver{
			{Name: "wrap", Split: 2,
				Bounds: "capacities 1..12, 0..60 additions each (up to 60 times around the ring), rendered after every one, 5 URI and file name forms",
				Body: func(c *mc.C) {
					capacity := 1 + c.Choose(12)
					u := hlsURIs[c.Choose(len(hlsURIs))]
					pl, err := hls.NewPlaylist(u[0], u[1], capacity, 10)
					if err != nil {
						c.Failf("NewPlaylist(%q, %q): %v", u[0], u[1], err)
					}
					var all []refSeg
					pos := int64(0)
					for i := 0; ; i++ {
						checkPlaylist(c, fmt.Sprintf("capacity %d, %d additions", capacity, i), pl, u[2], all, capacity)
						c.Step(1)
						c.State(capacity, i, u[0])
						if i == 60 {
							break
						}
						d := []float64{10, 9.5, 0.04, 6.006, 1234567.125}[i%5]
						l := int64(1000 + i*i*77)
						pl.AddSegment(d, l)
						all = append(all, refSeg{d, l, pos})
						pos += l
					}
					c.Logf("capacity %d at %s", capacity, u[0])
				}},
			{Name: "values", Split: 3,
				Bounds: "capacities 1..4, all sequences of 5 (thorough 6) additions out of 12 segments (lengths 0..2^62, durations 0..1e15 and tiny fractions), rendered after all of them or only at the end",
				Body: func(c *mc.C) {
					capacity := 1 + c.Choose(4)
					always := c.Bool()
					depth := 5
					if c.Thorough {
						depth = 6
					}
					durs := []float64{0, 1, 10, 9.999, 0.001, 1e15, 1.0 / 3, 1e-7, 1e21, 4, math.MaxInt32, 2.5}
					lens := []int64{0, 1, 188, 1 << 31, 1<<32 + 5, 1 << 50, 12345, 7, 1 << 40, 0, 65536, 1<<62 - 1<<52}
					pl, err := hls.NewPlaylist("http://h/p", "f.ts", capacity, 10)
					if err != nil {
						c.Failf("NewPlaylist: %v", err)
					}
					var all []refSeg
					pos := int64(0)
					hist := ""
					for i := 0; i < depth; i++ {
						k := c.Choose(len(durs))
						if pos+lens[k] < pos {
							k = 0 // stay below the range of positions
						}
						hist += fmt.Sprintf("(%v,%d)", durs[k], lens[k])
						pl.AddSegment(durs[k], lens[k])
						all = append(all, refSeg{durs[k], lens[k], pos})
						pos += lens[k]
						if always || i == depth-1 {
							checkPlaylist(c, fmt.Sprintf("capacity %d, added %s", capacity, hist), pl, "http://h/p/f.ts", all, capacity)
						}
						c.Step(1)
						c.State(capacity, hist)
					}
					c.Logf("capacity %d: %s", capacity, hist)
				}},
		},
	})
	add(mc.Check{
		ID:   "C14",
		Rule: "an execution is one family of byte strings decoded by the code and by an independent decoder",
		Drivers: []mc.Driver{
			{Name: "header", Split: 2,
				Bounds: "all 256 first bytes x every packet length 0..110 x 3 contents x extension lengths 0,1,2,3,8,65535 x last byte 0..16, 32, 255 and the exact payload length and one more or less",
				Body: func(c *mc.C) {
					first := byte(c.Choose(256))
					kind := c.Choose(3)
					for n := 0; n <= 110; n++ {
						for _, xl := range []int{0, 1, 2, 3, 8, 65535} {
							for k := 0; k < 22; k++ {
								b := rtpPattern(n, kind)
								if n > 0 {
									b[0] = first
								}
								o := 12 + 4*int(first&15)
								if first&0x10 != 0 {
									if n >= o+4 {
										b[o+2], b[o+3] = byte(xl>>8), byte(xl)
									}
									o += 4 + 4*xl
								} else if xl != 0 {
									break
								}
								if first&0x20 != 0 && n > 0 {
									pad := k
									switch k {
									case 17:
										pad = 32
									case 18:
										pad = 255
									case 19, 20, 21:
										pad = n - o + k - 20
									}
									if n > o {
										b[n-1] = byte(pad)
									}
								} else if k > 0 {
									break
								}
								checkRTP(c, b)
								c.State(n, int(first), xl, k, kind)
							}
						}
					}
					c.Logf("first byte %02x, content %d", first, kind)
				}},
			{Name: "fields", Split: 2,
				Bounds: "all second bytes x all values of each single byte of the fixed header and of two contributing sources and an extension header, x 2 first bytes",
				Body: func(c *mc.C) {
					first := []byte{0x80, 0x92, 0xb2, 0xa0}[c.Choose(4)]
					i := c.Choose(32)
					for v := 0; v < 256; v++ {
						for w := 0; w < 256; w++ {
							b := rtpPattern(40, 0)
							b[0] = first
							if first&0x10 != 0 {
								b[22], b[23] = 0, 1
							}
							b[39] = 3
							b[1] = byte(w)
							if i > 0 {
								b[i] = byte(v)
							}
							checkRTP(c, b)
						}
						c.State(int(first), i, v)
					}
				}},
			{Name: "large", Split: 1,
				Bounds: "extensions of 0..65535 words (every power of two and its neighbours, at the exact packet size and up to 5 bytes less or more), 0, 1 and 15 contributing sources, packets up to 262 KB",
				Body: func(c *mc.C) {
					bit := uint(c.Choose(17))
					for _, cc := range []int{0, 1, 15} {
						for _, pad := range []byte{0, 0x20} {
							for d := -1; d <= 1; d++ {
								xl := 1<<bit + d
								if xl < 0 || xl > 65535 {
									continue
								}
								for e := -5; e <= 5; e++ {
									n := 12 + 4*cc + 4 + 4*xl + e
									if n < 0 {
										continue
									}
									b := rtpPattern(n, 1)
									b[0] = 0x90 | byte(cc) | pad
									o := 12 + 4*cc
									if n >= o+4 {
										b[o+2], b[o+3] = byte(xl>>8), byte(xl)
									}
									if e > 0 {
										b[n-1] = byte(e)
									}
									checkRTP(c, b)
									c.State(cc, xl, e, int(pad))
								}
							}
						}
					}
				}},
			{Name: "padding", Split: 2,
				Bounds: "payloads of 0..300 bytes x every value of the last byte 0..255, with and without extension and sources",
				Body: func(c *mc.C) {
					first := []byte{0xa0, 0xb0, 0xa3, 0xbf}[c.Choose(4)]
					n := c.Choose(301)
					o := 12 + 4*int(first&15)
					if first&0x10 != 0 {
						o += 4
					}
					for v := 0; v < 256; v++ {
						b := rtpPattern(o+n, 2)
						b[0] = first
						if first&0x10 != 0 {
							b[o-2], b[o-1] = 0, 0
						}
						if n > 0 {
							b[len(b)-1] = byte(v)
						}
						checkRTP(c, b)
					}
					c.State(int(first), n)
				}},
			{Name: "short", Split: 1,
				Bounds: "all byte strings of length 0..2; every two leading bytes at lengths 3..16",
				Body: func(c *mc.C) {
					x := c.Choose(256)
					checkRTP(c, nil)
					checkRTP(c, []byte{byte(x)})
					for y := 0; y < 256; y++ {
						checkRTP(c, []byte{byte(x), byte(y)})
						for n := 3; n <= 16; n++ {
							b := rtpPattern(n, 0)
							b[0], b[1] = byte(x), byte(y)
							checkRTP(c, b)
						}
						c.State(x, y)
					}
				}},
		},
	})
	add(mc.Check{
		ID:   "C15",
		Rule: "an execution is one family of byte strings decoded by the code and by an independent decoder",
		Drivers: []mc.Driver{
			{Name: "types", Split: 2,
				Bounds: "all 256 first bytes x all 256 packet types x lengths 0..32 and every length at the boundary for the declared count (28+24c-2 .. 28+24c+2), 2 contents",
				Body: func(c *mc.C) {
					first := byte(c.Choose(256))
					pt := byte(c.Choose(256))
					edge := 28 + 24*int(first&31)
					for kind := 0; kind < 2; kind++ {
						for n := 0; n <= 32; n++ {
							b := rtpPattern(n, kind)
							if n > 0 {
								b[0] = first
							}
							if n > 1 {
								b[1] = pt
							}
							checkRTCP(c, b)
						}
						for n := edge - 2; n <= edge+2; n++ {
							b := rtpPattern(n, kind)
							b[0], b[1] = first, pt
							checkRTCP(c, b)
						}
					}
					c.State(int(first), int(pt))
					c.Logf("first byte %02x, packet type %d", first, pt)
				}},
			{Name: "lengths", Split: 2,
				Bounds: "sender reports with every count 0..31 and every length 0..900, 3 contents, with and without padding",
				Body: func(c *mc.C) {
					n := c.Choose(901)
					for cnt := 0; cnt < 32; cnt++ {
						for _, f := range []byte{0x80, 0xa0} {
							for kind := 0; kind < 3; kind++ {
								b := rtpPattern(n, kind)
								if n > 0 {
									b[0] = f | byte(cnt)
								}
								if n > 1 {
									b[1] = 200
								}
								checkRTCP(c, b)
							}
						}
						c.State(n, cnt)
					}
				}},
			{Name: "fields", Split: 2,
				Bounds: "sender report with every pair of values of two adjacent bytes at every position 0..30",
				Body: func(c *mc.C) {
					i := c.Choose(31)
					v := c.Choose(256)
					for w := 0; w < 256; w++ {
						b := rtpPattern(28+24*31, 0)
						b[0], b[1] = 0x80, 200
						b[i], b[i+1] = byte(v), byte(w)
						checkRTCP(c, b)
					}
					c.State(i, v)
				}},
		},
	})
}
