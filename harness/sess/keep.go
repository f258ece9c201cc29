package sess

import (
	"fmt"
	"strings"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
	"verif.local/harness/mc"
)

// keepRun follows the keep-alive requests of one session.
type keepRun struct {
	w       *world
	c       *mc.C
	proto   int
	sess    string
	hist    []string
	n       int       // requests looked at
	active  time.Time // since when the session is active; zero: not
	last    time.Time // last keep-alive, or start of activity
	sent    int       // keep-alive requests sent
	ended   bool
	own     map[*request]bool // OPTIONS issued by the application or by opening
	unans   []*request
	maxGap  time.Duration
	stopped bool // the session waits for the application or for the rest of a message
}

const minGap = 2 * time.Second

func (k *keepRun) scan() {
	c := k.c
	for _, r := range k.w.reqs[k.n:] {
		if r.verb != "OPTIONS" || k.own[r] {
			continue
		}
		c.Step(1)
		k.sent++
		if k.proto == rtsp.ProtoTCP {
			c.Failf("after %s: a keep-alive is sent in an interleaved session: %s", k.hist, k.w.history())
		}
		if k.active.IsZero() || k.ended {
			c.Failf("after %s: a keep-alive is sent before ready or after done: %s", k.hist, k.w.history())
		}
		if got, has := r.head["session"]; got != k.sess || has != (k.sess != "") {
			c.Failf("after %s: the keep-alive carries session %q (header %v) instead of %q", k.hist, got, has, k.sess)
		}
		if k.sent > 1 && r.at.Sub(k.last) < minGap {
			c.Failf("after %s: keep-alives %v apart", k.hist, r.at.Sub(k.last))
		}
		if r.at.Sub(k.last) > k.maxGap && !k.stopped {
			c.Failf("after %s: no keep-alive for %v", k.hist, r.at.Sub(k.last))
		}
		k.last = r.at
		k.unans = append(k.unans, r)
	}
	k.n = len(k.w.reqs)
	if !k.active.IsZero() && !k.ended && !k.stopped && k.proto != rtsp.ProtoTCP {
		if d := time.Now().Sub(k.last); d > k.maxGap {
			c.Failf("after %s: no keep-alive for %v: %s", k.hist, d, k.w.history())
		}
	}
}

// ownOptions issues an OPTIONS command of the application.
func (k *keepRun) ownOptions() *request {
	k.w.settle()
	k.scan()
	n := len(k.w.reqs)
	k.w.command("OPTIONS")
	k.w.settle()
	for _, r := range k.w.reqs[n:] {
		if r.verb == "OPTIONS" {
			k.own[r] = true
			k.scan()
			return r
		}
	}
	k.c.Failf("no OPTIONS was sent: %s", k.w.history())
	return nil
}

func (k *keepRun) do(verb string) *request {
	k.w.command(verb)
	k.w.settle()
	k.scan()
	for i := len(k.w.reqs) - 1; i >= 0; i-- {
		if k.w.reqs[i].verb == verb {
			return k.w.reqs[i]
		}
	}
	k.c.Failf("no %s was sent: %s", verb, k.w.history())
	return nil
}

func init() {
	waits := []time.Duration{300 * time.Millisecond, time.Second, 1999 * time.Millisecond, 2 * time.Second, 3100 * time.Millisecond, 13 * time.Second}
	run := func(c *mc.C, proto int, depth int) {
		bubble(c, false, func(w *world) {
			k := &keepRun{w: w, c: c, proto: proto, sess: "4711", own: map[*request]bool{}, maxGap: 6 * time.Second}
			defer func() { c.Logf("protocol %d: %s; %d keep-alives", proto, strings.Join(k.hist, ", "), k.sent) }()
			w.open(base, proto)
			k.own[w.last("OPTIONS")] = true
			// pauses before ready must not cause any
			early := c.Choose(3)
			if early == 1 {
				w.sleep(7 * time.Second)
			}
			k.scan()
			w.answer(w.last("OPTIONS"), 200, "", "Public: OPTIONS")
			k.scan()
			w.answer(w.last("DESCRIBE"), 200, video("a"))
			if early == 2 {
				w.sleep(7 * time.Second)
			}
			k.scan()
			r := w.last("SETUP")
			k.active = time.Now()
			k.last = k.active
			w.answer(r, 200, "", transportOK(r), "Session: 4711;timeout=60")
			k.scan()
			stages := len(w.stages)
			cmds := map[string]*request{}
			for d := 0; d < depth && !k.ended; d++ {
				o := c.Choose(len(waits) + 6)
				if o == 0 {
					break
				}
				o--
				switch {
				case o < len(waits):
					// in steps, so that gaps are noticed when they occur
					end := time.Now().Add(waits[o])
					for time.Now().Before(end) {
						s := end.Sub(time.Now())
						if s > 500*time.Millisecond {
							s = 500 * time.Millisecond
						}
						w.sleep(s)
						k.scan()
					}
					k.hist = append(k.hist, fmt.Sprintf("wait %v", waits[o]))
				case o == len(waits):
					if len(k.unans) == 0 {
						return
					}
					st := []int{200, 454, 200, 404}[d%4]
					h := []string{}
					if d%2 == 0 {
						h = append(h, "Session: 4711;timeout=60", "Public: OPTIONS, PLAY")
					}
					k.hist = append(k.hist, fmt.Sprintf("%d to the keep-alive", st))
					r := k.unans[0]
					k.unans = k.unans[1:]
					n := len(w.reqs)
					w.answer(r, st, "", h...)
					for _, x := range w.reqs[n:] {
						if x.verb != "OPTIONS" {
							c.Failf("after %s: the answer to a keep-alive makes the client send %s", k.hist, x.verb)
						}
					}
					k.scan()
				case o == len(waits)+1:
					k.hist = append(k.hist, "OPTIONS and its answer")
					w.answer(k.ownOptions(), 200, "")
					k.scan()
				default:
					v := []string{"PLAY", "PAUSE", "TEARDOWN"}[o-len(waits)-2]
					if cmds[v] == nil {
						k.hist = append(k.hist, v)
						cmds[v] = k.do(v)
						break
					}
					st := 200
					if v == "TEARDOWN" && d%3 == 0 {
						st = 455
					}
					k.hist = append(k.hist, fmt.Sprintf("%d to %s", st, v))
					if st == 200 {
						stages++
						k.ended = v == "TEARDOWN"
					}
					w.answer(cmds[v], st, "", "Session: 4711")
					cmds[v] = nil
					k.scan()
				}
				if len(w.stages) != stages {
					c.Failf("after %s: stages %v", k.hist, w.stages)
				}
				c.State(proto, strings.Join(k.hist, ";"), k.sent)
			}
			if k.ended {
				w.sleep(9 * time.Second)
				k.scan()
			} else if proto != rtsp.ProtoTCP {
				n := k.sent
				w.sleep(6 * time.Second)
				k.scan()
				if k.sent == n {
					c.Failf("after %s: no keep-alive in 6 s: %s", k.hist, w.history())
				}
			} else {
				w.sleep(9 * time.Second)
				k.scan()
			}
		})
	}
	add(mc.Check{
		ID:          "C30",
		Rule:        "an execution is one history of waits, commands and answers in simulated time; all are non-trivial",
		Assumptions: []string{"keep-alives are not challenged", "the application takes stage reports at once, the server's messages arrive whole"},
		Drivers: []mc.Driver{
			{Name: "unicast", Split: 4, Bounds: "every history of up to 5 (thorough 6) steps after ready: six waits from 0.3 to 13 s, answers to keep-alives, OPTIONS commands with answers, PLAY, PAUSE, TEARDOWN and answers to them; waits of 7 s before ready",
				Body: func(c *mc.C) {
					d := 5
					if c.Thorough {
						d = 6
					}
					run(c, rtsp.ProtoUnicast, d)
				}},
			{Name: "multicast", Split: 3, Bounds: "the same up to 3 (thorough 5) steps in a multicast session",
				Body: func(c *mc.C) {
					d := 3
					if c.Thorough {
						d = 5
					}
					run(c, rtsp.ProtoMulticast, d)
				}},
			{Name: "interleaved", Split: 3, Bounds: "the same up to 3 (thorough 5) steps in an interleaved session: never a keep-alive",
				Body: func(c *mc.C) {
					d := 3
					if c.Thorough {
						d = 5
					}
					run(c, rtsp.ProtoTCP, d)
				}},
			{Name: "traffic", Split: 3, Bounds: "a unicast or multicast session in which the server answers OPTIONS commands of the application at regular intervals of 0.1 to 6 s for 60 s, keep-alives answered or not, with or without a session identifier",
				Body: func(c *mc.C) {
					proto := protos[1+c.Choose(2)]
					every := []time.Duration{100, 300, 700, 1000, 1900, 1999, 2000, 2001, 2100, 2500, 3900, 4000, 4100, 6000}[c.Choose(14)] * time.Millisecond
					answerKA := c.Bool()
					sess := []string{"", "4711"}[c.Choose(2)]
					bubble(c, false, func(w *world) {
						k := &keepRun{w: w, c: c, proto: proto, sess: sess, own: map[*request]bool{}, maxGap: 6 * time.Second}
						k.hist = []string{fmt.Sprintf("traffic every %v", every)}
						w.open(base, proto)
						k.own[w.last("OPTIONS")] = true
						w.answer(w.last("OPTIONS"), 200, "")
						w.answer(w.last("DESCRIBE"), 200, video("a"))
						r := w.last("SETUP")
						k.active = time.Now()
						k.last = k.active
						h := []string{transportOK(r)}
						if sess != "" {
							h = append(h, "Session: "+sess)
						}
						w.answer(r, 200, "", h...)
						k.scan()
						for t := time.Duration(0); t < 60*time.Second; t += every {
							w.sleep(every)
							k.scan()
							w.answer(k.ownOptions(), 200, "")
							k.scan()
							for answerKA && len(k.unans) > 0 {
								x := k.unans[0]
								k.unans = k.unans[1:]
								w.answer(x, 200, "")
								k.scan()
							}
						}
						if len(w.stages) != 1 {
							c.Failf("stages %v with %s", w.stages, k.hist)
						}
						if k.sent < 10 || k.sent > 31 {
							c.Failf("%d keep-alives in 60 s with %s", k.sent, k.hist)
						}
						c.State(proto, int(every), answerKA, sess, k.sent)
						c.Logf("%s: %d keep-alives", k.hist, k.sent)
					})
				}},
		},
	})
}
