package sess

import (
	"fmt"
	"strings"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
	"verif.local/harness/mc"
	"verif.local/harness/shim/vnet"
)

// actor plays the server and the application of one of several sessions, in moves.
type actor struct {
	w     *world
	gate  *gate
	url   string
	proto int
	moves []func()
	hist  []string
	trace []string // what the session has shown, per move
	seen  int
	nst   int
	npk   int
	sess  string    // identifier of a UDP session
	last  time.Time // of the last keep-alive
	kept  int
	timed bool
}

type part struct {
	name    string
	host    string
	proto   int
	user    string
	pass    string
	kind    int // of challenges
	ask     int // the move that is challenged, -1 none
	session string
	streams int
	end     int // 0 TEARDOWN, 1 end of stream, 2 an unusable message
}

// normal describes a request without what is random in it.
func normal(r *request) string {
	s := r.raw
	if a, ok := r.head["authorization"]; ok && strings.HasPrefix(a, "Digest") {
		nc := ""
		if i := strings.Index(a, "nc="); i >= 0 {
			nc = a[i : i+11]
		}
		s = strings.Replace(s, a, "Digest "+nc, 1)
	}
	lines := strings.Split(s, "\r\n")
	sortStrings(lines[1:])
	return strings.Join(lines, "|")
}

func sortStrings(l []string) {
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

// plain requests: keep-alives are judged by other means
func (a *actor) note() {
	out := []string{}
	for _, r := range a.w.reqs[a.seen:] {
		if a.proto != rtsp.ProtoTCP && r.verb == "OPTIONS" && len(a.w.stages) > 0 {
			if r.head["session"] != a.sess {
				a.w.c.Failf("moves of %s: a keep-alive carries session %q instead of %q", strings.Join(a.hist, ", "), r.head["session"], a.sess)
			}
			if d := r.at.Sub(a.last); d < minGap && a.kept > 0 {
				a.w.c.Failf("moves of %s: keep-alives %v apart", strings.Join(a.hist, ", "), d)
			}
			a.last = r.at
			a.kept++
			continue
		}
		text := normal(r)
		if a.timed {
			// keep-alives take sequence numbers too
			text = strings.Replace(text, fmt.Sprintf("CSeq: %d|", r.cseq), "", 1)
			if i := strings.Index(text, "Digest nc="); i >= 0 {
				text = text[:i] + text[i+18:]
			}
		}
		out = append(out, text)
	}
	a.seen = len(a.w.reqs)
	for _, s := range a.w.stages[a.nst:] {
		out = append(out, fmt.Sprint("stage", s))
		if s == rtsp.StageReady && a.kept == 0 {
			a.last = time.Now()
		}
	}
	a.nst = len(a.w.stages)
	for _, p := range a.w.packets[a.npk:] {
		out = append(out, fmt.Sprintf("packet %d %q", p.Channel, p.Payload))
	}
	a.npk = len(a.w.packets)
	a.trace = append(a.trace, strings.Join(out, "\n"))
	if n := len(a.w.stages); a.proto != rtsp.ProtoTCP && n > 0 && a.w.stages[n-1] != rtsp.StageDone && time.Now().Sub(a.last) > 6*time.Second {
		a.w.c.Failf("moves of %s: no keep-alive for %v", strings.Join(a.hist, ", "), time.Now().Sub(a.last))
	}
}

func newActor(w *world, p part) *actor {
	a := &actor{w: w, proto: p.proto}
	a.url = "rtsp://"
	if p.user != "" {
		a.url += p.user + ":" + p.pass + "@"
	}
	a.url += p.host
	g := &gate{kind: p.kind, user: p.user, pass: p.pass, seen: map[int]*request{}, refused: map[int]bool{}, salt: p.name}
	a.gate = g
	lastOf := func(verb string) *request {
		for i := len(w.reqs) - 1; i >= 0; i-- {
			if w.reqs[i].verb == verb {
				return w.reqs[i]
			}
		}
		w.c.Failf("%s: no %s was sent: %s", p.name, verb, tailOf(w.history()))
		return nil
	}
	add := func(f func()) { a.moves = append(a.moves, f) }
	answer := func(verb, body string, head func(r *request) []string) {
		if k := len(a.moves); k == p.ask {
			add(func() {
				r := lastOf(verb)
				g.verify(w, a.hist)
				g.refused[r.cseq] = true
				w.answer(r, 401, "", "WWW-Authenticate: "+g.challenge(true))
				g.verify(w, a.hist)
			})
		}
		add(func() {
			r := lastOf(verb)
			h := []string{}
			if head != nil {
				h = head(r)
			}
			w.answer(r, 200, body, h...)
			g.verify(w, a.hist)
		})
	}
	add(func() {
		w.net.OnDial = func(x *vnet.TCPConn) { w.conn = x }
		w.open(a.url, p.proto)
		w.net.OnDial = nil
		g.verify(w, a.hist)
	})
	answer("OPTIONS", "", nil)
	ctl := []string{}
	for i := 0; i < p.streams; i++ {
		ctl = append(ctl, fmt.Sprintf("%s%d", p.name, i))
	}
	answer("DESCRIBE", video(ctl...), nil)
	for i := 0; i < p.streams; i++ {
		i := i
		add(func() {
			n := 0
			for _, r := range w.reqs {
				if r.verb == "SETUP" {
					if n == i {
						w.answer(r, 200, "", transportOK(r), "Session: "+p.session)
						return
					}
					n++
				}
			}
			w.c.Failf("%s: no SETUP for stream %d: %s", p.name, i, tailOf(w.history()))
		})
	}
	add(func() { w.command("PLAY"); w.settle() })
	echo := func(r *request) []string { return []string{"Session: " + p.session} }
	answer("PLAY", "", echo)
	add(func() {
		// a packet, half now
		s := frame(1, p.name+" packet")
		w.send(s[:6])
		w.settle()
		w.send(s[6:])
		w.settle()
	})
	switch p.end {
	case 0:
		add(func() { w.command("TEARDOWN"); w.settle() })
		answer("TEARDOWN", "", nil)
	case 1:
		add(func() { w.conn.SimEnd(nil); w.settle() })
	case 2:
		add(func() { w.send("HTTP/1.1 400 no\r\n\r\n"); w.settle() })
	}
	return a
}

var duoParts = []part{
	{name: "plain", host: "cam.example:554/live", proto: rtsp.ProtoTCP, ask: -1, session: "1111;timeout=120", streams: 1},
	{name: "digest", host: "cam.example:554/live", proto: rtsp.ProtoTCP, user: "dU", pass: "dP", kind: 3, ask: 1, session: "2222;timeout=60", streams: 2},
	{name: "basic", host: "other.example:8554/x/", proto: rtsp.ProtoTCP, user: "bU", pass: "bP", kind: 0, ask: 2, session: "3333; timeout=600", streams: 1, end: 1},
	{name: "late", host: "cam.example:554/live", proto: rtsp.ProtoTCP, user: "lU", pass: "lP", kind: 2, ask: 6, session: "2222 ;timeout=5", streams: 1, end: 2},
	{name: "udp", host: "cam.example:554/udp", proto: rtsp.ProtoUnicast, ask: -1, session: "5555;timeout=30", streams: 1},
	{name: "udpauth", host: "cam.example:554/udp", proto: rtsp.ProtoUnicast, user: "uU", pass: "uP", kind: 4, ask: 1, session: "6666;timeout=3600", streams: 2, end: 1},
	{name: "multi", host: "multi.example/m", proto: rtsp.ProtoMulticast, ask: -1, session: "7777", streams: 1, end: 2},
}

// ensemble runs several sessions in one program; who chooses the session that moves next.
func ensemble(c *mc.C, parts []part, pause time.Duration, who func(open []int) int, alone func(i int) []string) [][]string {
	out := make([][]string, len(parts))
	bubble(c, false, func(w *world) {
		as := []*actor{}
		for i, p := range parts {
			x := w
			if i > 0 {
				x = &world{c: c, sim: w.sim, net: w.net, start: w.start, t: w.t}
			}
			as = append(as, newActor(x, p))
			as[i].timed = pause > 0
			as[i].sess = strings.TrimSpace(strings.Split(p.session, ";")[0])

		}
		defer func() {
			for _, x := range w.net.Conns {
				x.SimEnd(nil)
			}
			for k := 0; k < 20; k++ {
				time.Sleep(time.Millisecond)
				more := false
				for _, a := range as {
					a.w.lenient = true
					more = a.w.drain() || more
				}
				if !more {
					break
				}
			}
		}()
		at := make([]int, len(parts))
		order := []string{}
		for {
			open := []int{}
			for i, a := range as {
				if at[i] < len(a.moves) {
					open = append(open, i)
				}
			}
			if len(open) == 0 {
				break
			}
			i := who(open)
			order = append(order, parts[i].name)
			for _, a := range as {
				a.hist = order
			}
			as[i].moves[at[i]]()
			at[i]++
			for k := 0; k < 2; k++ {
				for _, a := range as {
					if a.w.s != nil {
						a.w.settle()
					}
				}
			}
			if pause > 0 {
				time.Sleep(pause)
				for _, a := range as {
					if a.w.s != nil {
						a.w.settle()
					}
				}
			}
			for j, a := range as {
				if j == i {
					a.note()
					if alone == nil {
						continue
					}
					want := alone(j)[at[j]-1]
					if got := a.trace[at[j]-1]; got != want {
						c.Failf("moves of %s: %s shows\n%s\ninstead of what it shows alone:\n%s", strings.Join(order, ", "), parts[j].name, got, want)
					}
					continue
				}
				n := len(a.trace)
				a.note()
				if extra := a.trace[n]; extra != "" {
					c.Failf("moves of %s: the last one makes %s show\n%s", strings.Join(order, ", "), parts[j].name, extra)
				}
				a.trace = a.trace[:n]
			}
			c.Step(1)
		}
		for i, a := range as {
			out[i] = a.trace
			a.gate.verify(a.w, order)
		}
		if alone != nil {
			c.State(strings.Join(order, ","), int(pause))
		}
		c.Logf("%s", strings.Join(order, ", "))
	})
	return out
}

func init() {
	cache := map[string][]string{}
	alone := func(c *mc.C, p part, pause time.Duration) []string {
		k := fmt.Sprint(p, pause)
		if cache[k] == nil {
			cache[k] = ensemble(c, []part{p}, pause, func(open []int) int { return 0 }, nil)[0]
		}
		return cache[k]
	}
	pairs := [][2]int{}
	for i := range duoParts {
		for j := range duoParts {
			if duoParts[j].proto == rtsp.ProtoTCP && (duoParts[i].proto != rtsp.ProtoTCP || i <= j) {
				pairs = append(pairs, [2]int{i, j})
			}
		}
	}
	add(mc.Check{
		ID:          "C36",
		Rule:        "an execution is one interleaving of the moves of two or three sessions; all are non-trivial",
		Assumptions: []string{"at most one of the sessions uses UDP (two would need the same client ports)", "sessions are compared with what each of them does alone, on the same code"},
		Drivers: []mc.Driver{
			{Name: "two sessions", Split: 8, Bounds: "16 pairs out of seven sessions (four interleaved, three over UDP; not challenged or challenged at different requests in four ways, with one or two streams, ended by TEARDOWN, by the server or by an unusable message), every interleaving of their 9 to 12 moves (those with at most four changes (thorough seven) from one to the other), and without limit for the first (thorough two)",
				Budget: [2]int{4, 7},
				Body: func(c *mc.C) {
					k := c.Choose(len(pairs))
					ps := []part{duoParts[pairs[k][0]], duoParts[pairs[k][1]]}
					if pairs[k][0] == pairs[k][1] {
						ps[1].name += "2"
						ps[1].session = "9" + ps[1].session[1:]
					}
					first := c.Choose(2)
					cur := first
					free := c.Thorough && k < 2 || k == 0
					wants := [][]string{alone(c, ps[0], 0), alone(c, ps[1], 0)}
					ensemble(c, ps, 0, func(open []int) int {
						if len(open) == 1 {
							return open[0]
						}
						if free {
							return c.Choose(2)
						}
						if c.Dev(2) == 1 {
							cur = 1 - cur
						}
						return cur
					}, func(i int) []string { return wants[i] })
				}},
			{Name: "with time", Split: 6, Bounds: "the same pairs with a pause of 0.3 or 2.2 s after every move, at most three (thorough six) changes",
				Budget: [2]int{3, 6},
				Body: func(c *mc.C) {
					k := c.Choose(len(pairs))
					pause := []time.Duration{300 * time.Millisecond, 2200 * time.Millisecond}[c.Choose(2)]
					ps := []part{duoParts[pairs[k][0]], duoParts[pairs[k][1]]}
					if pairs[k][0] == pairs[k][1] {
						ps[1].name += "2"
						ps[1].session = "9" + ps[1].session[1:]
					}
					cur := c.Choose(2)
					wants := [][]string{alone(c, ps[0], pause), alone(c, ps[1], pause)}
					ensemble(c, ps, pause, func(open []int) int {
						if len(open) == 1 {
							return open[0]
						}
						if c.Dev(2) == 1 {
							cur = 1 - cur
						}
						return cur
					}, func(i int) []string { return wants[i] })
				}},
			{Name: "three sessions", Split: 6, Bounds: "three sessions (a plain one, one challenged, and any of the seven) with at most three (thorough five) changes",
				Budget: [2]int{3, 5},
				Body: func(c *mc.C) {
					x := duoParts[c.Choose(len(duoParts))]
					ps := []part{x, duoParts[0], duoParts[1]}
					ps[0].name += "0"
					cur := c.Choose(3)
					wants := [][]string{alone(c, ps[0], 0), alone(c, ps[1], 0), alone(c, ps[2], 0)}
					ensemble(c, ps, 0, func(open []int) int {
						for _, i := range open {
							if i == cur {
								if k := c.Dev(len(open)); k > 0 {
									for _, j := range open {
										if j != cur {
											if k--; k == 0 {
												cur = j
												return j
											}
										}
									}
								}
								return cur
							}
						}
						cur = open[0]
						return cur
					}, func(i int) []string { return wants[i] })
				}},
		},
	})
}
