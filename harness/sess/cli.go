package sess

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"

	ouromain "github.com/aboukirev/ouro/cmd/ouro"
	"verif.local/harness/auth"
	"verif.local/harness/mc"
	"verif.local/harness/shim/vrt"
)

// rtpPacket builds a valid RTP packet.
func rtpPacket(sn int, flags byte, csrc int, ext, payload string, pad int) string {
	h := []byte{0x80 | flags | byte(csrc), 96, byte(sn >> 8), byte(sn), 0, 0, byte(sn), 7, 1, 2, 3, 4}
	for i := 0; i < csrc; i++ {
		h = append(h, 9, 9, 9, byte(i))
	}
	if flags&0x10 != 0 {
		h = append(h, 0xbe, 0xde, 0, byte(len(ext)/4))
		h = append(h, ext...)
	}
	h = append(h, payload...)
	if pad > 0 {
		h = append(h, make([]byte, pad-1)...)
		h = append(h, byte(pad))
	}
	return string(h)
}

type media struct {
	name   string
	rtcp   bool
	packet string
}

func mediaKinds() []media {
	m := []media{}
	for _, x := range []struct{ name, pl string }{
		{"slice", "\x41\x9a\x01\x02"}, {"IDR", "\x65\x88\x80\x10\x00\x00\x03\x00"}, {"SPS", "\x67\x4d\x00\x1f\x96\x35\x40\xa0\x14\x01\x6d\xc0\x40\x40\x50"}, {"PPS", "\x68\xee\x38\x80"},
		{"NAL header only", "\x09"}, {"start code", "\x00\x00\x00\x01\x67\x42\x00\x0a\x00\x00\x01\x68\xce"}, {"STAP-A", "\x78\x00\x02\x67\x42\x00\x02\x68\xce"}, {"STAP-A empty", "\x78"}, {"STAP-B", "\x79\x00\x07\x00\x02\x67\x42"},
		{"MTAP16", "\x7a\x00\x07\x00\x02\x01\x00\x05\x41\x9a"}, {"MTAP24", "\x7b\x00\x07\x00\x02\x01\x00\x00\x05\x41\x9a"},
		{"FU-A start", "\x7c\x85abc"}, {"FU-A middle", "\x7c\x05abc"}, {"FU-A end", "\x7c\x45abc"}, {"FU-B start", "\x7d\x85\x00\x07abc"}, {"large", "\x41" + strings.Repeat("\x00\x00\x03\x01", 350)},
		{"empty payload", ""},
	} {
		m = append(m, media{x.name, false, rtpPacket(len(m), 0, 0, "", x.pl, 0)})
	}
	m = append(m,
		media{"padded", false, rtpPacket(20, 0x20, 0, "", "\x41\x9a", 4)},
		media{"only padding", false, rtpPacket(21, 0x20, 0, "", "", 255)},
		media{"extension", false, rtpPacket(22, 0x10, 2, "abcdefgh", "\x41\x9a", 0)},
		media{"empty extension", false, rtpPacket(23, 0x10, 15, "", "\x41\x9a", 0)},
		media{"SR", true, "\x80\xc8\x00\x06" + strings.Repeat("\x01\x02\x03\x04", 6)},
		media{"SR with reports", true, "\x82\xc8\x00\x12" + strings.Repeat("\x01\x02\x03\x04", 18)},
		media{"RR", true, "\x81\xc9\x00\x07" + strings.Repeat("\x01\x02\x03\x04", 7)},
		media{"RR empty", true, "\x80\xc9\x00\x01\x01\x02\x03\x04"},
		media{"SR and SDES", true, "\x80\xc8\x00\x06" + strings.Repeat("\x01\x02\x03\x04", 6) + "\x81\xca\x00\x03\x01\x02\x03\x04\x01\x02ab\x00\x00\x00\x00"},
		media{"BYE", true, "\x81\xcb\x00\x01\x01\x02\x03\x04"},
		media{"BYE with reason", true, "\x82\xcb\x00\x04\x01\x02\x03\x04\x05\x06\x07\x08\x05bye!!\x00\x00"},
		media{"APP", true, "\x80\xcc\x00\x02\x01\x02\x03\x04name"},
		media{"XR", true, "\x80\xcf\x00\x01\x01\x02\x03\x04"})
	return m
}

var mediaMoments = []string{"before the SETUP answer", "in front of the last SETUP answer", "while PLAY is outstanding", "in front of the PLAY answer", "behind the PLAY answer", "1 s into playing", "when the play timer expires", "while PAUSE is outstanding", "in front of the PAUSE answer", "behind the PAUSE answer", "2.5 s into the pause", "when the pause timer expires", "while TEARDOWN is outstanding", "in front of the TEARDOWN answer", "behind the TEARDOWN answer", "2.5 s after the end", "just before the end"}

// program is the server and clock for one run of the program.
type program struct {
	w     *world
	c     *mc.C
	at    func(moment int) string // packets to send at a moment
	every time.Duration           // and all the time
	next  func() string
	ended bool
	what  string
	tear  bool
}

func (p *program) emit(k int) {
	if s := p.at(k); s != "" {
		p.w.send(s)
		p.w.settle()
	}
}

// pass lets time pass, with the media stream going on.
func (p *program) pass(d time.Duration) {
	if p.every == 0 {
		p.w.sleep(d)
		return
	}
	for d > 0 {
		step := p.every
		if step > d {
			step = d
		}
		time.Sleep(step)
		d -= step
		p.w.send(p.next())
		p.w.settle()
	}
}

func (p *program) count(verb string) int {
	n := 0
	for _, r := range p.w.reqs {
		if r.verb == verb {
			n++
		}
	}
	return n
}

// await checks that a request arrives about five seconds from now and returns it.
func (p *program) await(verb string, mid, end int, half time.Duration) *request {
	c, w := p.c, p.w
	p.pass(half)
	p.emit(mid)
	p.pass(4500*time.Millisecond - half)
	if p.count(verb) != 0 || p.ended {
		c.Failf("%s or the end comes less than 4.5 seconds after the stage before: %s", verb, tailOf(w.history()))
	}
	p.pass(500 * time.Millisecond)
	p.emit(end)
	p.pass(500 * time.Millisecond)
	p.check()
	if p.count(verb) != 1 || p.ended {
		c.Failf("5.5 seconds after the stage before there are %d %s requests, ended %v: %s", p.count(verb), verb, p.ended, tailOf(w.history()))
	}
	return w.last(verb)
}

func (p *program) check() {
	if n, ok := p.w.sim.SimExited(); ok && n != 0 {
		p.c.Failf("the program ends with exit code %d: %s", n, tailOf(p.w.history()))
	}
	if n, ok := p.w.sim.SimExited(); ok && n == 0 {
		p.ended = true
	}
	if p.ended && !p.tear {
		p.c.Failf("the program ends before the teardown is confirmed: %s", tailOf(p.w.history()))
	}
}

type runOpts struct {
	streams    int
	gate       int // 0 none, 1 everything, 2 from PLAY on
	delays     [4]time.Duration
	closes     bool
	concurrent bool
}

func (p *program) run(o runOpts) {
	c, w := p.c, p.w
	os.Args = []string{"ouro", "rtsp://u:p@cam.example:554/live"}
	flag.CommandLine = flag.NewFlagSet("ouro", flag.ContinueOnError)
	vrt.Go(func() {
		ouromain.Main()
		p.ended = true
	})
	w.settle()
	srv := &auth.Server{Ch: &auth.Challenge{Realm: "r", Nonce: "n", Qops: []string{"auth"}}, User: "u", Pass: "p"}
	srv.Ch.Format()
	asked := false
	reply := func(verb string, front, behind int, body string, head ...string) {
		r := w.last(verb)
		if o.gate == 1 || o.gate == 2 && verb != "OPTIONS" && verb != "DESCRIBE" && verb != "SETUP" {
			if !asked {
				asked = true
				w.answer(r, 401, "", "WWW-Authenticate: "+srv.Ch.Text)
				r = w.last(verb)
			}
			if e := srv.Accept(r.head["authorization"], r.verb, r.uri, nil); e != "" {
				c.Failf("the authorization of %s %s: %s", verb, e, tailOf(w.history()))
			}
		}
		b := response(r.cseq, 200, body, head...)
		if front >= 0 {
			b = p.at(front) + b
		}
		if behind >= 0 {
			b += p.at(behind)
		}
		w.send(b)
		w.settle()
		p.check()
	}
	p.pass(o.delays[0])
	reply("OPTIONS", -1, -1, "", "Public: OPTIONS, DESCRIBE, SETUP, PLAY, PAUSE, TEARDOWN")
	p.pass(o.delays[0])
	reply("DESCRIBE", -1, -1, video([]string{"a", "b"}[:o.streams]...), "Content-Type: application/sdp")
	p.emit(0)
	sets := append([]*request{}, w.reqs[len(w.reqs)-o.streams:]...)
	for i, r := range sets {
		p.pass(o.delays[0])
		if r.verb != "SETUP" {
			c.Failf("no SETUP: %s", tailOf(w.history()))
		}
		if o.gate == 1 {
			if e := srv.Accept(r.head["authorization"], r.verb, r.uri, nil); e != "" {
				c.Failf("the authorization of SETUP %s: %s", e, tailOf(w.history()))
			}
		}
		b := response(r.cseq, 200, "", transportOK(r), "Session: 4711;timeout=60")
		if i == len(sets)-1 {
			b = p.at(1) + b
		}
		if p.count("PLAY") != 0 {
			c.Failf("PLAY before ready: %s", tailOf(w.history()))
		}
		w.send(b)
		w.settle()
	}
	p.check()
	w.last("PLAY")
	p.emit(2)
	p.pass(o.delays[1])
	reply("PLAY", 3, 4, "", "Session: 4711")
	p.await("PAUSE", 5, 6, time.Second)
	p.emit(7)
	p.pass(o.delays[2])
	reply("PAUSE", 8, 9, "", "Session: 4711")
	p.await("TEARDOWN", 10, 11, 2500*time.Millisecond)
	p.emit(12)
	p.pass(o.delays[3])
	n := len(w.reqs)
	p.tear = true
	reply("TEARDOWN", 13, 14, "", "Session: 4711")
	if o.closes {
		w.conn.SimEnd(nil)
		w.settle()
		p.every = 0
		p.at = func(int) string { return "" }
	}
	p.pass(2500 * time.Millisecond)
	p.emit(15)
	p.pass(2000 * time.Millisecond)
	p.check()
	if p.ended {
		c.Failf("the program ends less than 4.5 seconds after the teardown: %s", tailOf(w.history()))
	}
	p.pass(400 * time.Millisecond)
	p.emit(16)
	p.pass(600 * time.Millisecond)
	p.check()
	if !p.ended {
		c.Failf("the program does not end 5.5 seconds after the teardown: %s", tailOf(w.history()))
	}
	if len(w.reqs) > n+1 || len(w.reqs) > n && asked && w.reqs[n].verb != "TEARDOWN" {
		c.Failf("requests after TEARDOWN: %s", tailOf(w.history()))
	}
	c.Step(len(w.reqs))
	c.State(p.what, w.history())
	c.Logf("%s: %s", p.what, tailOf(w.history()))
}

func (k media) frame(stream int) string {
	ch := byte(2 * stream)
	if k.rtcp {
		ch++
	}
	return frame(ch, k.packet)
}

func init() {
	delays := []time.Duration{0, 700 * time.Millisecond, 3 * time.Second}
	add(mc.Check{
		ID:          "C32",
		Rule:        "an execution is one run of the program against a server with chosen delays and media packets; all are non-trivial",
		Assumptions: []string{"the program runs on simulated time; about five seconds means between 4.5 and 5.5"},
		Drivers: []mc.Driver{
			{Name: "one kind", Split: 3, Bounds: "every one of 30 valid RTP and RTCP packets, once, 25 times or 60 times in a row on the first or last stream, at every one of 17 moments; one or two streams",
				Body: func(c *mc.C) {
					kinds := mediaKinds()
					k := kinds[c.Choose(len(kinds))]
					m := c.Choose(len(mediaMoments))
					n := []int{1, 25, 60}[c.Choose(3)]
					s := c.Choose(2)
					st := 0
					if s == 1 {
						st = c.Choose(2)
					}
					bubble(c, false, func(w *world) {
						p := &program{w: w, c: c}
						p.at = func(x int) string {
							if x != m {
								return ""
							}
							return strings.Repeat(k.frame(st), n)
						}
						p.what = fmt.Sprintf("%d %s %s", n, k.name, mediaMoments[m])
						p.run(runOpts{streams: s + 1})
					})
				}},
			{Name: "two kinds", Split: 4, Bounds: "every ordered pair of the packets, in a row at every moment, or the first at every moment and the second at every later one (quick: 16 kinds against 8, all moments)",
				Body: func(c *mc.C) {
					kinds := mediaKinds()
					n1, n2 := len(kinds), len(kinds)
					if !c.Thorough {
						n1, n2 = 16, 8
					}
					a := kinds[(c.Choose(n1)*13)%len(kinds)]
					b := kinds[(c.Choose(n2)*7)%len(kinds)]
					m := c.Choose(len(mediaMoments))
					m2 := m + c.Choose(len(mediaMoments)-m)
					bubble(c, false, func(w *world) {
						p := &program{w: w, c: c}
						p.at = func(x int) string {
							s := ""
							if x == m {
								s += a.frame(0)
							}
							if x == m2 {
								s += b.frame(1)
							}
							return s
						}
						p.what = fmt.Sprintf("%s %s, %s %s", a.name, mediaMoments[m], b.name, mediaMoments[m2])
						p.run(runOpts{streams: 2})
					})
				}},
			{Name: "delays", Split: 5, Bounds: "answers delayed by 0, 0.7 or 3 seconds in each of four phases, three places for challenges, one or two streams, the connection closed after the teardown or not, no media or a packet of one of five kinds at every moment",
				Body: func(c *mc.C) {
					o := runOpts{streams: 1 + c.Choose(2), gate: c.Choose(3), closes: c.Bool()}
					for i := range o.delays {
						o.delays[i] = delays[c.Choose(3)]
					}
					kinds := mediaKinds()
					k := c.Choose(6)
					bubble(c, false, func(w *world) {
						p := &program{w: w, c: c, at: func(x int) string {
							if k == 0 {
								return ""
							}
							return kinds[k*5%len(kinds)].frame(o.streams - 1)
						}}
						p.what = fmt.Sprintf("%+v", o)
						p.run(o)
					})
				}},
			{Name: "streaming", Split: 4, Bounds: "all kinds of packets in turn all the time, every 1, 7, 40, 500, 1900 or 2100 milliseconds, starting with each kind, with answers delayed by 0, 0.7 or 3 seconds",
				Body: func(c *mc.C) {
					kinds := mediaKinds()
					first := c.Choose(len(kinds))
					every := []time.Duration{40, 500, 1900, 2100, 7, 1}[c.Choose(6)] * time.Millisecond
					d := delays[c.Choose(3)]
					if every < 40*time.Millisecond && first > 1 && !c.Thorough {
						return
					}
					bubble(c, false, func(w *world) {
						n := first
						p := &program{w: w, c: c, at: func(int) string { return "" }, every: every}
						p.what = fmt.Sprintf("from %s every %v, delay %v", kinds[first].name, every, d)
						p.next = func() string { n++; return kinds[n%len(kinds)].frame(n & 1) }
						p.run(runOpts{streams: 2, delays: [4]time.Duration{0, d, d, d}})
					})
				}},
		},
	})
}
