package sess

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"

	ouromain "github.com/aboukirev/ouro/cmd/ouro"
	"verif.local/harness/mc"
	"verif.local/harness/shim/vrt"
)

// reporter says, independently of the code, what the program has to print for media packets.
type reporter struct {
	series map[byte][]byte // of each channel, the fragments of the series in progress; nil if there is none
	lines  []string
}

// rawLen is the length of b without emulation prevention.
func rawLen(b []byte) int {
	n, zeroes := 0, 0
	for _, x := range b {
		if zeroes >= 2 && x == 3 {
			zeroes = 0
			continue
		}
		if x == 0 {
			zeroes++
		} else {
			zeroes = 0
		}
		n++
	}
	return n
}

func (r *reporter) unit(hdr byte, body []byte) {
	r.lines = append(r.lines, fmt.Sprintf("NAL Zero=%t, RefIdc=%d, Type=%d, Size=%d", hdr>>7 == 0, hdr>>5&3, hdr&31, rawLen(body)))
}

// payload takes one that is valid.
func (r *reporter) payload(ch byte, p []byte) {
	if len(p) == 0 {
		return
	}
	if s := string(p); strings.HasPrefix(s, "\x00\x00\x01") || strings.HasPrefix(s, "\x00\x00\x00\x01") {
		s = strings.Replace(s, "\x00\x00\x00\x01", "\x00\x00\x01", -1)
		for _, u := range strings.Split(s, "\x00\x00\x01")[1:] {
			r.payload(ch, []byte(u))
		}
		return
	}
	units := func(p []byte, gap int) {
		for len(p) > 0 {
			n := int(p[0])<<8 | int(p[1])
			p = p[2+gap:]
			r.unit(p[0], p[1:n])
			p = p[n:]
		}
	}
	switch p[0] & 31 {
	case 24:
		units(p[1:], 0)
	case 25:
		units(p[3:], 0)
	case 26:
		units(p[3:], 3)
	case 27:
		units(p[3:], 4)
	case 28, 29:
		data := p[2:]
		if p[0]&31 == 29 {
			data = p[4:]
		}
		if p[1]&0x80 != 0 {
			r.series[ch] = []byte{}
		}
		if r.series[ch] != nil {
			r.series[ch] = append(r.series[ch], data...)
			if p[1]&0x40 != 0 {
				r.unit(p[0]&0xe0|p[1]&31, r.series[ch])
				r.series[ch] = nil
			}
		}
	default:
		r.unit(p[0], p[1:])
	}
}

// packet takes an interleaved packet that is valid.
func (r *reporter) packet(ch byte, s string) {
	p := []byte(s)
	if ch&1 == 1 {
		r.lines = append(r.lines, fmt.Sprintf("RTCP [%d] PT=%d, LN=%d, C=%d", ch, p[1], int(p[2])<<8|int(p[3]), p[0]&31))
		return
	}
	r.lines = append(r.lines, fmt.Sprintf("RTP [%d] PT=%d, CC=%d, M=%t, SN=%d", ch, p[1]&127, p[0]&15, p[1]>>7 == 1, int(p[2])<<8|int(p[3])))
	n := 12 + 4*int(p[0]&15)
	if p[0]&0x10 != 0 {
		n += 4 + 4*(int(p[n+2])<<8|int(p[n+3]))
	}
	end := len(p)
	if p[0]&0x20 != 0 {
		end -= int(p[end-1])
	}
	r.payload(ch, p[n:end])
}

// frames takes a sequence of interleaved packets.
func (r *reporter) frames(s string) {
	for len(s) > 0 {
		n := 4 + int(s[2])<<8 + int(s[3])
		r.packet(s[1], s[4:n])
		s = s[n:]
	}
}

// check compares what has been printed about media with what should have been.
func (r *reporter) check(w *world, what string) {
	got := []string{}
	for _, t := range w.sim.SimPrinted() {
		for _, l := range strings.Split(t, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "RTP [") || strings.HasPrefix(l, "RTCP [") || strings.HasPrefix(l, "NAL ") {
				got = append(got, l)
			}
		}
	}
	for i := 0; i < len(got) || i < len(r.lines); i++ {
		g, e := "nothing", "nothing"
		if i < len(got) {
			g = got[i]
		}
		if i < len(r.lines) {
			e = r.lines[i]
		}
		if g != e {
			w.c.Failf("%s: line %d of %d about media is %s, should be %s", what, i, len(got), g, e)
		}
	}
}

// stagesPrinted are the stages in the order in which the program has printed them.
func stagesPrinted(w *world) string {
	out := []string{}
	for _, t := range w.sim.SimPrinted() {
		for _, l := range strings.Split(t, "\n") {
			if l = strings.TrimSpace(l); strings.HasPrefix(l, "Stage: ") {
				out = append(out, l[7:])
			}
		}
	}
	return strings.Join(out, " ")
}

// programPlaying runs the program up to the confirmation of PLAY.
func programPlaying(w *world, streams int) {
	w.sim.SimListen()
	os.Args = []string{"ouro", base}
	flag.CommandLine = flag.NewFlagSet("ouro", flag.ContinueOnError)
	vrt.Go(ouromain.Main)
	w.settle()
	w.answer(w.last("OPTIONS"), 200, "", "Public: OPTIONS, DESCRIBE, SETUP, PLAY, PAUSE, TEARDOWN")
	w.answer(w.last("DESCRIBE"), 200, video([]string{"a", "b", "c"}[:streams]...), "Content-Type: application/sdp")
	for _, r := range append([]*request{}, w.reqs[len(w.reqs)-streams:]...) {
		w.answer(r, 200, "", transportOK(r), "Session: 4711")
	}
	w.answer(w.last("PLAY"), 200, "")
}

// fragmentOf is a payload of one of the kinds start, middle, end, start and end as FU-A and FU-B, single unit, aggregate.
func fragmentOf(kind, i int) string {
	data := "\x41\x9a\x00\x00\x03\x01defghijklm"[:1+i*3%13] + fmt.Sprint(i)
	switch kind {
	case 0, 1, 2, 3:
		return "\x7c" + string([]byte{[]byte{0x85, 0x05, 0x45, 0xc5}[kind]}) + data
	case 4:
		return "\x41" + data
	case 5:
		return "\x78\x00\x02\x67\x42\x00\x03\x68\xce\x00"
	case 6, 7, 8:
		return "\x5d" + string([]byte{[]byte{0x81, 0x01, 0x41}[kind-6], 0, byte(i)}) + data
	}
	return ""
}

func init() {
	add(mc.Check{
		ID:          "C39",
		Rule:        "an execution is one run of the program and the media packets that arrive in it; the lines it prints are compared with an independent reading of the packets",
		Assumptions: []string{"packets are valid; what precedes the text of a line is not judged"},
		Drivers: []mc.Driver{
			{Name: "whole runs", Split: 3, Bounds: "every one of 30 valid RTP and RTCP packets, once or 25 times, at each of 16 moments of a whole run with one or two streams, on the first or last; the stages printed as well",
				Body: func(c *mc.C) {
					kinds := mediaKinds()
					k := kinds[c.Choose(len(kinds))]
					m := c.Choose(len(mediaMoments) - 1)
					n := []int{1, 25}[c.Choose(2)]
					s := c.Choose(2)
					st := 0
					if s == 1 {
						st = c.Choose(2)
					}
					bubble(c, false, func(w *world) {
						w.sim.SimListen()
						rep := &reporter{series: map[byte][]byte{}}
						p := &program{w: w, c: c}
						p.at = func(x int) string {
							if x != m {
								return ""
							}
							b := strings.Repeat(k.frame(st), n)
							rep.frames(b)
							return b
						}
						p.what = fmt.Sprintf("%d %s %s", n, k.name, mediaMoments[m])
						p.run(runOpts{streams: s + 1})
						rep.check(w, p.what)
						if got := stagesPrinted(w); got != "Ready Playing Pausing Closing Done" {
							c.Failf("%s: the stages printed are %s", p.what, got)
						}
					})
				}},
			{Name: "fragments", Split: 4, Bounds: "two streams; every sequence of 4 (thorough 5) packets out of 9 kinds (FU-A start, middle, end, both, single unit, STAP-A, FU-B start, middle, end) for either stream, in one segment or one by one",
				Body: func(c *mc.C) {
					n := 4
					if c.Thorough {
						n = 5
					}
					one := c.Bool()
					var ks []int
					for i := 0; i < n; i++ {
						ks = append(ks, c.Choose(18))
					}
					bubble(c, false, func(w *world) {
						programPlaying(w, 2)
						rep := &reporter{series: map[byte][]byte{}}
						all := ""
						for i, k := range ks {
							b := frame(byte(k/9)*2, rtpPacket(i, 0, 0, "", fragmentOf(k%9, i), 0))
							rep.frames(b)
							if one {
								w.send(b)
								w.settle()
								rep.check(w, fmt.Sprintf("after packet %d of %v", i, ks))
							}
							all += b
						}
						if !one {
							w.send(all)
							w.settle()
							rep.check(w, fmt.Sprintf("packets %v", ks))
						}
						c.Step(n)
						c.State(ks)
					})
				}},
			{Name: "deep fragments", Split: 4, Bounds: "three streams; every sequence of 7 (thorough 8) fragments (start, middle, end) of either of two streams",
				Body: func(c *mc.C) {
					n := 7
					if c.Thorough {
						n = 8
					}
					var ks []int
					for i := 0; i < n; i++ {
						ks = append(ks, c.Choose(6))
					}
					bubble(c, false, func(w *world) {
						programPlaying(w, 3)
						rep := &reporter{series: map[byte][]byte{}}
						all := ""
						for i, k := range ks {
							all += frame([]byte{0, 4}[k/3], rtpPacket(i, 0, 0, "", fragmentOf(k%3, i), 0))
						}
						rep.frames(all)
						w.send(all)
						w.settle()
						rep.check(w, fmt.Sprintf("fragments %v", ks))
						c.Step(n)
						c.State(ks)
					})
				}},
			{Name: "headers", Split: 1, Bounds: "RTP packets with every payload type and marker, every number of sources, with and without extension and padding, sequence numbers 0, 1, 255 .. 257, 32767 .. 32769, 65535; RTCP packets of every kind 192..223 with every count and lengths of 1, 255 .. 257 and 4000 words",
				Body: func(c *mc.C) {
					v := c.Choose(128)
					bubble(c, false, func(w *world) {
						programPlaying(w, 2)
						rep := &reporter{series: map[byte][]byte{}}
						put := func(ch byte, p string) {
							b := frame(ch, p)
							rep.frames(b)
							w.send(b)
							w.settle()
							c.Step(1)
						}
						for m := 0; m < 2; m++ {
							for f := 0; f < 4; f++ {
								for _, sn := range []int{0, 1, 255, 256, 257, 32767, 32768, 32769, 65535} {
									b := []byte(rtpPacket(sn, byte(f)<<4, (v+sn)%16, "abcdefgh", "\x65\x88\x00\x00\x03\x01", (f>>1)*(1+v)))
									b[1] = byte(v | m<<7)
									put(byte(2*((v+f)%2)), string(b))
								}
							}
						}
						pt := byte(192 + v%32)
						for n := v / 32 * 8; n < v/32*8+8; n++ {
							for _, l := range []int{1, 255, 256, 257, 4000} {
								if pt == 200 && l < 6+6*n {
									l = 6 + 6*n
								}
								put(byte(1+2*(n%2)), string([]byte{0x80 | byte(n), pt, byte(l >> 8), byte(l)})+strings.Repeat("\x01\x02\x03\x04", l))
							}
						}
						rep.check(w, fmt.Sprintf("value %d", v))
						c.State(v)
					})
				}},
			{Name: "sizes", Split: 1, Bounds: "units of every size from 1 to 1500 bytes and every second up to 5000 of 0, 00 00 03 or other bytes, whole or in fragments of 1, 7 or 1000 bytes, on every pair of channels a packet can name",
				Body: func(c *mc.C) {
					chunk := c.Choose(128)
					bubble(c, false, func(w *world) {
						programPlaying(w, 1)
						rep := &reporter{series: map[byte][]byte{}}
						ch := byte(2 * chunk)
						put := func(p string) {
							b := frame(ch, rtpPacket(chunk, 0, 0, "", p, 0))
							rep.frames(b)
							w.send(b)
							w.settle()
							c.Step(1)
						}
						for l := chunk * 40; l < chunk*40+40; l++ {
							if l > 1500 && l%2 == 1 {
								continue
							}
							for _, fill := range []string{"\xab\x01", "\x00\x00\x03\x01", "\x41\x00\x00\x03\x00\x00\x03"} {
								body := strings.Repeat(fill, l/len(fill)+1)[:l]
								put("\x41" + body)
								step := []int{1, 7, 1000}[(l+len(fill))%3]
								if l > 400 {
									step = 1000
								}
								for off := 0; off < l; off += step {
									h := byte(5)
									if off == 0 {
										h |= 0x80
									}
									e := off + step
									if e >= l {
										e = l
										h |= 0x40
									}
									put("\x7c" + string([]byte{h}) + body[off:e])
								}
							}
						}
						rep.check(w, fmt.Sprintf("units of %d bytes on channel %d", chunk*40, ch))
						c.State(chunk)
						c.Tick()
					})
				}},
			{Name: "streaming", Split: 3, Bounds: "all kinds of packets in turn through a whole run, every 7, 40, 500, 1900 or 2100 ms, starting with each kind",
				Body: func(c *mc.C) {
					kinds := mediaKinds()
					first := c.Choose(len(kinds))
					every := []time.Duration{40, 500, 1900, 2100, 7}[c.Choose(5)] * time.Millisecond
					bubble(c, false, func(w *world) {
						w.sim.SimListen()
						rep := &reporter{series: map[byte][]byte{}}
						n := first
						p := &program{w: w, c: c, at: func(int) string { return "" }, every: every}
						p.what = fmt.Sprintf("from %s every %v", kinds[first].name, every)
						p.next = func() string {
							n++
							b := kinds[n%len(kinds)].frame(n & 1)
							if !p.ended {
								rep.frames(b)
							}
							return b
						}
						p.run(runOpts{streams: 2, delays: [4]time.Duration{0, 700 * time.Millisecond, 0, 0}})
						trim(w, rep) // what arrives as the program ends may not be read anymore
						rep.check(w, p.what)
					})
				}},
		},
	})
}

// trim drops the lines expected for a packet that arrives in the last moment of the run.
func trim(w *world, rep *reporter) {
	n := 0
	for _, t := range w.sim.SimPrinted() {
		if t = strings.TrimSpace(t); strings.HasPrefix(t, "RTP [") || strings.HasPrefix(t, "RTCP [") || strings.HasPrefix(t, "NAL ") {
			n++
		}
	}
	if d := len(rep.lines) - n; d > 0 && d < 8 {
		rep.lines = rep.lines[:n]
	}
}
