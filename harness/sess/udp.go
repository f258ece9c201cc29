package sess

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"

	"verif.local/harness/mc"
)

// udpForm is a way in which a server confirms the transport of a unicast stream.
type udpForm struct {
	name  string
	value func(i, port int) string // of stream i, which offers port
	ports func(i, port int) [2]int // data and control port that are then in use
}

func same(i, port int) [2]int { return [2]int{port, port + 1} }

// named is a form that names ports of its own.
func named(name, form string, ports func(i int) [2]int) udpForm {
	return udpForm{name, func(i, p int) string {
		q := ports(i)
		return fmt.Sprintf(form, q[0], q[1])
	}, func(i, p int) [2]int { return ports(i) }}
}

var udpForms = []udpForm{
	{"echo", func(i, p int) string { return fmt.Sprintf("RTP/AVP;unicast;client_port=%d-%d", p, p+1) }, same},
	{"server ports", func(i, p int) string {
		return fmt.Sprintf("RTP/AVP/UDP;unicast;source=192.0.2.9;client_port=%d-%d;server_port=%d-%d;ssrc=1234ABCD", p, p+1, 6970+2*i, 6971+2*i)
	}, same},
	{"no client ports", func(i, p int) string {
		return fmt.Sprintf("RTP/AVP;unicast;server_port=%d-%d", 6970+2*i, 6971+2*i)
	}, same},
	{"other client ports", func(i, p int) string {
		return fmt.Sprintf("RTP/AVP;unicast;client_port=%d-%d", 61000-10*i, 61001-10*i)
	}, func(i, p int) [2]int { return [2]int{61000 - 10*i, 61001 - 10*i} }},
	{"upper case", func(i, p int) string {
		return fmt.Sprintf("RTP/AVP/UDP;UNICAST;SERVER_PORT=6970-6971;CLIENT_PORT=%d-%d;mode=\"PLAY\"", p, p+1)
	}, same},
	named("odd data ports", "RTP/AVP;unicast;client_port=%d-%d;server_port=6970-6971", func(i int) [2]int { return [2]int{43211 + 2*i, 43212 + 2*i} }),
	named("ports apart", "RTP/AVP;unicast;server_port=6970-6971;client_port=%d-%d", func(i int) [2]int { return [2]int{61000 + i, 52007 - 10*i} }),
	named("small and large ports", "RTP/AVP;unicast;client_port=%d-%d", func(i int) [2]int { return [2]int{1 + 7*i, 65535 - i} }),
}

// clientPort returns the first port that the SETUP request offers.
func clientPort(r *request) int {
	p := 0
	for _, f := range strings.Split(r.head["transport"], ";") {
		if strings.HasPrefix(strings.ToLower(f), "client_port=") {
			fmt.Sscanf(f[12:], "%d", &p)
		}
	}
	return p
}

// postman sends datagrams to the client and checks what becomes of them.
type postman struct {
	w     *world
	ports map[int]byte // channel of each port on which the client should listen
	sent  map[byte][]string
	n     int
}

// feed sends a datagram.
func (p *postman) feed(port int, payload string) {
	ch, ok := p.ports[port]
	if got := p.w.net.SimDatagram(port, []byte(payload)); got != ok {
		p.w.c.Failf("datagram to port %d: listening is %v, should be %v; %s", port, got, ok, p.w.history())
	}
	if ok {
		p.sent[ch] = append(p.sent[ch], payload)
		p.n++
	}
	p.w.c.Step(1)
}

// check compares what has been delivered with what was sent.
func (p *postman) check(what string) {
	got := map[byte][]string{}
	for _, k := range p.w.packets {
		got[k.Channel] = append(got[k.Channel], string(k.Payload))
	}
	for ch, want := range p.sent {
		if len(got[ch]) != len(want) {
			p.w.c.Failf("%s: %d of %d datagrams delivered on channel %d; %s", what, len(got[ch]), len(want), ch, p.w.history())
		}
		for i := range want {
			if got[ch][i] != want[i] {
				p.w.c.Failf("%s: datagram %d on channel %d is %d bytes %.20x instead of %d bytes %.20x", what, i, ch, len(got[ch][i]), got[ch][i], len(want[i]), want[i])
			}
		}
	}
	if len(p.w.packets) != p.n {
		p.w.c.Failf("%s: %d packets delivered, %d datagrams sent; %s", what, len(p.w.packets), p.n, p.w.history())
	}
	p.w.c.State(what, fmt.Sprint(p.ports), p.n, p.w.history())
}

// udpSession opens a unicast session; order chooses the next answer and its status; early datagrams are sent to
// ports of streams whose SETUP has been answered before all have been.
func udpSession(w *world, n int, form udpForm, early bool, order func(out int) (int, int)) (*postman, []int) {
	c := w.c
	w.open(base, rtsp.ProtoUnicast)
	w.answer(w.last("OPTIONS"), 200, "", "Public: OPTIONS, DESCRIBE, SETUP, PLAY, PAUSE, TEARDOWN")
	ctl := []string{}
	for i := 0; i < n; i++ {
		ctl = append(ctl, fmt.Sprintf("track%d", i+1))
	}
	w.answer(w.last("DESCRIBE"), 200, video(ctl...), "Content-Type: application/sdp")
	if len(w.reqs) != 2+n {
		c.Failf("%d streams: %s", n, w.history())
	}
	p := &postman{w: w, ports: map[int]byte{}, sent: map[byte][]string{}}
	all := []int{}
	type open struct {
		r *request
		i int
	}
	out := []open{}
	for i := 0; i < n; i++ {
		r := w.reqs[2+i]
		out = append(out, open{r, i})
		q := form.ports(i, clientPort(r))
		all = append(all, q[0], q[1])
	}
	for len(out) > 0 {
		k, st := order(len(out))
		o := out[k]
		out = append(out[:k:k], out[k+1:]...)
		if st == 200 {
			w.answer(o.r, 200, "", "Transport: "+form.value(o.i, clientPort(o.r)), "Session: 4711")
			p.ports[all[2*o.i]] = byte(2 * o.i)
			p.ports[all[2*o.i+1]] = byte(2*o.i + 1)
		} else {
			w.answer(o.r, st, "")
		}
		c.Logf("%d to SETUP of stream %d", st, o.i)
		if early {
			p.feed(all[2*o.i], fmt.Sprintf("early%d", o.i))
			w.settle()
		}
	}
	if fmt.Sprint(w.stages) != "[1]" {
		c.Failf("the stages after all SETUP requests have been answered are %v; %s", w.stages, w.history())
	}
	p.check("once ready")
	return p, all
}

func plainOrder(int) (int, int) { return 0, 200 }

func init() {
	add(mc.Check{
		ID:   "C35",
		Rule: "an execution is one unicast session, the datagrams that arrive and what else happens; all are non-trivial",
		Assumptions: []string{"a datagram reaches a socket that is bound to its port on the address of the client, or on all addresses; the system does not drop datagrams",
			"datagrams of up to 2048 bytes"},
		Drivers: []mc.Driver{
			{Name: "sessions", Split: 5, Bounds: "1 to 3 streams, eight forms of the server's Transport, every order of the SETUP answers, each of them 200 or refused, with or without a datagram before ready; then every sequence of two (thorough three) datagrams to any port offered, before or after PLAY is confirmed",
				Body: func(c *mc.C) {
					n := 1 + c.Choose(3)
					form := udpForms[c.Choose(len(udpForms))]
					early := c.Bool()
					bubble(c, false, func(w *world) {
						p, all := udpSession(w, n, form, early, func(out int) (int, int) { return c.Choose(out), []int{200, 461}[c.Choose(2)] })
						k := 2
						if c.Thorough {
							k = 3
						}
						play := c.Choose(k + 1)
						for i := 0; i < k; i++ {
							if i == play {
								w.command("PLAY")
								w.settle()
								w.answer(w.last("PLAY"), 200, "")
							}
							port := all[c.Choose(len(all))]
							c.Logf("datagram to port %d", port)
							p.feed(port, fmt.Sprintf("%d to %d", i, port))
							w.settle()
							p.check("after datagram " + fmt.Sprint(i))
						}
						w.sleep(5 * time.Second)
						p.check("later")
						live := []int{}
						for _, u := range w.net.UDP {
							if !u.SimClosed() {
								live = append(live, u.Laddr.Port)
							}
						}
						sort.Ints(live)
						if len(live) != len(p.ports) {
							c.Failf("%d streams, %s: listening on ports %v, should be %v", n, form.name, live, p.ports)
						}
					})
				}},
			{Name: "sizes", Split: 2, Bounds: "datagrams of every length from 0 to 2048 with four contents, to a data or control port of the first or second stream",
				Body: func(c *mc.C) {
					fill := []string{"\x00", "$\x00\x00\x04", "RTSP/1.0 200 OK\r\nCSeq: 1\r\n\r\n", "\x80\x60\xff"}[c.Choose(4)]
					which := c.Choose(4)
					chunk := c.Choose(33)
					text := strings.Repeat(fill, 2050/len(fill)+1)
					bubble(c, false, func(w *world) {
						p, all := udpSession(w, 2, udpForms[0], false, plainOrder)
						for l := chunk * 64; l < chunk*64+64 && l <= 2048; l++ {
							p.feed(all[which], text[:l])
							w.settle()
						}
						p.check(fmt.Sprintf("lengths from %d", chunk*64))
						c.Logf("lengths from %d of %.8x to port %d", chunk*64, fill, all[which])
					})
				}},
			{Name: "histories", Split: 4, Bounds: "two streams; every sequence of up to 5 (thorough 6) steps: a datagram to one of three ports, three in a row to two ports, a wait of 0.4, 2.1 or 31 s, PLAY or PAUSE with its answer",
				Body: func(c *mc.C) {
					depth := 5
					if c.Thorough {
						depth = 6
					}
					bubble(c, false, func(w *world) {
						p, all := udpSession(w, 2, udpForms[1], false, plainOrder)
						for i := 0; i < depth; i++ {
							a := c.Choose(9)
							switch a {
							case 8:
								return
							case 0, 1, 2:
								p.feed(all[[]int{0, 3, 2}[a]], fmt.Sprintf("step %d", i))
							case 3:
								p.feed(all[0], fmt.Sprintf("step %d, first", i))
								p.feed(all[3], fmt.Sprintf("step %d, second", i))
								p.feed(all[0], fmt.Sprintf("step %d, third", i))
							case 4, 5, 6:
								w.sleep([]time.Duration{400, 2100, 31000}[a-4] * time.Millisecond)
							case 7:
								verb := []string{"PLAY", "PAUSE"}[i%2]
								w.command(verb)
								w.settle()
								w.answer(w.last(verb), 200, "")
							}
							w.settle()
							p.check(fmt.Sprintf("after step %d", i))
							c.Logf("step %d", a)
						}
					})
				}},
			{Name: "slow application", Split: 3, Bounds: "1 to 3 streams; 1 to 60 datagrams to the ports in turn (or all to one) while the application takes nothing for 0, 3 or 60 s, or while it takes one thing each 0.5 s",
				Body: func(c *mc.C) {
					n := 1 + c.Choose(3)
					k := []int{1, 2, 5, 19, 20, 21, 22, 23, 25, 40, 60}[c.Choose(11)]
					one := c.Bool()
					pace := c.Choose(4)
					bubble(c, false, func(w *world) {
						p, all := udpSession(w, n, udpForms[0], false, plainOrder)
						w.hold = true
						for i := 0; i < k; i++ {
							port := all[i%len(all)]
							if one {
								port = all[len(all)-1]
							}
							p.feed(port, fmt.Sprintf("datagram %d", i))
							w.settle()
							if pace == 3 {
								w.sleep(500 * time.Millisecond)
								select {
								case d := <-w.s.Data:
									w.packets = append(w.packets, d)
								default:
								}
							}
						}
						if pace < 3 {
							w.sleep([]time.Duration{0, 3, 60}[pace] * time.Second)
						}
						w.hold = false
						w.settle()
						p.check(fmt.Sprintf("%d datagrams, pace %d", k, pace))
						c.Logf("%d streams, %d datagrams, pace %d", n, k, pace)
					})
				}},
			{Name: "stop", Split: 3, Bounds: "1 to 3 streams; 0 to 60 datagrams, taken or not by the application, then Stop by the application, once or twice, in a session that goes on or whose connection has ended; then the listeners are closed, at most what had arrived is delivered, and listeners can be added to the same ports and started again",
				Body: func(c *mc.C) {
					n := 1 + c.Choose(3)
					k := []int{0, 1, 5, 20, 22, 26, 60}[c.Choose(7)]
					taken := c.Bool()
					ended := c.Bool()
					twice := c.Bool()
					after := []time.Duration{0, 1500 * time.Millisecond, 7 * time.Second}[c.Choose(3)]
					bubble(c, false, func(w *world) {
						p, all := udpSession(w, n, udpForms[0], false, plainOrder)
						w.hold = !taken
						for i := 0; i < k; i++ {
							p.feed(all[i%len(all)], fmt.Sprintf("datagram %d", i))
							if taken {
								w.settle()
							}
						}
						w.sleep(after)
						if ended {
							w.conn.SimEnd(nil)
							w.settle()
						}
						done := 0
						for i := 0; i < 1 || twice && i < 2; i++ {
							w.guard(func() { w.s.Stop(); done++ })
							w.settle()
						}
						w.sleep(3 * time.Second)
						if done == 0 || twice && done < 2 {
							c.Failf("Stop has not returned: %s", w.history())
						}
						for _, port := range all {
							if w.net.SimDatagram(port, []byte("late")) {
								c.Failf("still listening on port %d after Stop", port)
							}
						}
						w.hold = false
						w.settle()
						if taken {
							p.check("after Stop")
						} else {
							got := map[byte]int{}
							for _, d := range w.packets {
								i := got[d.Channel]
								got[d.Channel]++
								if i >= len(p.sent[d.Channel]) || p.sent[d.Channel][i] != string(d.Payload) {
									c.Failf("after Stop, datagram %d on channel %d is %q", i, d.Channel, d.Payload)
								}
							}
						}
						// once more on the same ports
						p.sent, p.n, w.packets = map[byte][]string{}, 0, nil
						for i, port := range all {
							if err := w.s.AddSink(byte(i), port); err != nil {
								c.Failf("listening again on port %d: %v", port, err)
							}
						}
						w.guard(func() { w.s.Start() })
						w.settle()
						for i, port := range all {
							p.feed(port, fmt.Sprintf("again %d", i))
						}
						w.settle()
						p.check("after starting again")
						c.Logf("%d streams, %d datagrams, taken %v, ended %v", n, k, taken, ended)
					})
				}},
		},
	})
}
