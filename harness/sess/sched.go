package sess

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing/synctest"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
	"verif.local/harness/auth"
	"verif.local/harness/mc"
	"verif.local/harness/shim/vrt"
)

// Schedules: from some point of a session on, every statement of the session that touches its state, every lock
// operation and every read or write of the connection is a scheduling point.  One goroutine runs at a time; going on
// with another one while it could continue is a departure from the default, of which an execution makes a bounded
// number; whenever it cannot continue, every other one and every action of the server is tried.

// wait lets the running goroutines reach scheduling points or block; it orders nothing for the race detector.
func (w *world) wait() {
	vrt.SimRaceOff()
	synctest.Wait()
	vrt.SimRaceOn()
}

// schedule runs the session until nothing can run.
func (w *world) schedule() {
	running := -1
	for n := 0; ; n++ {
		w.wait()
		w.judge()
		w.pull()
		if w.offers() {
			continue
		}
		ps := w.sim.SimParked()
		acts := []func(){}
		if w.env != nil {
			acts = w.env()
		}
		total := len(ps) + len(acts)
		if total == 0 {
			return
		}
		w.c.State(running, len(w.evs), w.history(), fmt.Sprint(len(acts), w.txn), ids(ps))
		if n > 20000 {
			w.c.Failf("the client does not come to rest\n%s", tailOf(w.history()))
		}
		k := 0
		own := -1
		for i, p := range ps {
			if p.ID == running {
				own = i
			}
		}
		if own >= 0 {
			if k = w.c.Dev(total); k == 0 {
				k = own
			} else if k <= own {
				k--
			}
		} else {
			k = w.c.Choose(total)
		}
		if k < len(ps) {
			running = ps[k].ID
			w.c.Step(1)
			w.sim.SimGrant(ps[k])
		} else {
			running = -1
			acts[k-len(ps)]()
		}
	}
}

func ids(ps []*vrt.Parked) string {
	b := []byte{}
	for _, p := range ps {
		b = append(b, byte('a'+p.ID))
	}
	return string(b)
}

// offers takes a stage if one is offered.
func (w *world) offers() bool {
	select {
	case st := <-w.s.State:
		w.stages = append(w.stages, st)
		w.evs = append(w.evs, event{kind: 's', stage: st, at: time.Now()})
		return true
	default:
	}
	return false
}

// races fails when the race detector has seen two accesses that nothing orders.
func (w *world) races() {
	synctest.Wait()
	if vrt.SimRace && w.t.Failed() {
		text := ""
		if ms, _ := filepath.Glob(os.Getenv("MC_RACE_LOG") + ".*"); len(ms) > 0 {
			b, _ := os.ReadFile(fmt.Sprintf("%s.%d", os.Getenv("MC_RACE_LOG"), os.Getpid()))
			if i := strings.LastIndex(string(b), "WARNING: DATA RACE"); i >= 0 {
				for _, l := range strings.Split(string(b[i:]), "\n") {
					l = strings.TrimSpace(l)
					if strings.Contains(l, "/net/rtsp/") || strings.HasPrefix(l, "Previous") || strings.HasPrefix(l, "Read") || strings.HasPrefix(l, "Write") {
						text += " " + l
					}
				}
			}
		}
		w.c.Failf("two goroutines use the same memory with nothing that orders them:%s\n%s", text, w.history())
	}
}

// desk is the server of a schedule: it answers outstanding requests one by one and checks what it gets.
type desk struct {
	w       *world
	c       *mc.C
	checked int
	out     []*request       // outstanding, in wire order
	seen    map[int]*request // by sequence number
	refused map[int]bool
	got     map[string]int // distinct requests per method
	want    []int          // stages to be reported
	first   int            // requests before the schedule starts
	refuse  int            // which of the new requests is challenged, 0 none
	deny    int            // which of the new requests is answered with an error, 0 none
	fresh   bool
	known   bool // the client has acted on a challenge
	numbers int  // answers given
	sets    int  // SETUP requests answered
	auths   []*auth.Server
	hist    []string
}

func newDesk(w *world) *desk {
	return &desk{w: w, c: w.c, seen: map[int]*request{}, refused: map[int]bool{}, got: map[string]int{}}
}

func (d *desk) challenge(fresh bool) string {
	if fresh || len(d.auths) == 0 {
		ch := &auth.Challenge{Realm: "r", Nonce: fmt.Sprintf("n%d", len(d.auths)), Qops: []string{"auth"}}
		ch.Format()
		d.auths = append(d.auths, &auth.Server{Ch: ch, User: "u", Pass: "p"})
	}
	return d.auths[len(d.auths)-1].Ch.Text
}

// look reads the requests that have arrived.
func (d *desk) look() {
	for _, r := range d.w.reqs[d.checked:] {
		a, has := r.head["authorization"]
		if d.known && !has {
			d.c.Failf("after %s: %s#%d carries no authorization", d.hist, r.verb, r.cseq)
		}
		if has {
			ok := false
			for _, v := range d.auths {
				if strings.Contains(a, `nonce="`+v.Ch.Nonce+`"`) {
					if e := v.Accept(a, r.verb, r.uri, nil); e != "" {
						d.c.Failf("after %s: the authorization of %s#%d %s: %s", d.hist, r.verb, r.cseq, e, a)
					}
					ok = true
				}
			}
			if !ok {
				d.c.Failf("after %s: the authorization of %s#%d has an unknown nonce: %s", d.hist, r.verb, r.cseq, a)
			}
		}
		if old, ok := d.seen[r.cseq]; ok {
			if !d.refused[r.cseq] {
				d.c.Failf("%s#%d has the number of %s#%d: %s", r.verb, r.cseq, old.verb, old.cseq, d.w.history())
			}
			if old.rest() != r.rest() {
				d.c.Failf("the repetition of %s is %s", old.rest(), r.rest())
			}
			delete(d.refused, r.cseq)
			d.known = true
		} else {
			d.got[r.verb]++
		}
		d.seen[r.cseq] = r
		d.out = append(d.out, r)
	}
	d.checked = len(d.w.reqs)
}

// acts returns the actions the server can take now.
func (d *desk) acts() []func() {
	d.look()
	fs := []func(){}
	for i := range d.out {
		i := i
		fs = append(fs, func() { d.reply(i) })
		if len(fs) == 2 {
			break
		}
	}
	return fs
}

func (d *desk) reply(i int) {
	r := d.out[i]
	d.out = append(d.out[:i:i], d.out[i+1:]...)
	d.numbers++
	if _, has := r.head["authorization"]; d.numbers == d.refuse || len(d.auths) > 0 && !has {
		d.refused[r.cseq] = true
		d.hist = append(d.hist, fmt.Sprintf("401 to %s#%d", r.verb, r.cseq))
		d.w.send(response(r.cseq, 401, "", "WWW-Authenticate: "+d.challenge(d.fresh && d.numbers == d.refuse)))
		return
	}
	if d.numbers == d.deny {
		d.hist = append(d.hist, fmt.Sprintf("454 to %s#%d", r.verb, r.cseq))
		d.w.send(response(r.cseq, 454, "", "Session: 4711"))
		return
	}
	d.hist = append(d.hist, fmt.Sprintf("200 to %s#%d", r.verb, r.cseq))
	switch r.verb {
	case "PLAY":
		d.want = append(d.want, rtsp.StagePlay)
	case "PAUSE":
		d.want = append(d.want, rtsp.StagePause)
	case "TEARDOWN":
		d.want = append(d.want, rtsp.StageDone)
	case "DESCRIBE":
		if d.got["SETUP"] == 0 {
			d.w.send(response(r.cseq, 200, video("a", "b")))
			return
		}
	case "SETUP":
		d.w.send(response(r.cseq, 200, "", "Session: 4711", transportOK(r)))
		if d.sets++; d.sets == 2 {
			d.want = append(d.want, rtsp.StageReady)
		}
		return
	}
	d.w.send(response(r.cseq, 200, "", "Session: 4711"))
}

// finish checks the state at the end of a schedule.
func (d *desk) finish(progs [][]string, done []int, extra map[string]int) {
	w, c := d.w, d.c
	d.w.races()
	for i, p := range progs {
		if done[i] != len(p) {
			c.Failf("a command of the application does not return: %s after %s", w.history(), d.hist)
		}
	}
	want := map[string]int{}
	for _, p := range progs {
		for _, v := range p {
			want[v]++
		}
	}
	for v, n := range extra {
		want[v] += n
	}
	for _, v := range []string{"OPTIONS", "DESCRIBE", "SETUP", "PLAY", "PAUSE", "TEARDOWN"} {
		if d.got[v] != want[v] {
			c.Failf("%d %s requests of %d reached the wire: %s", d.got[v], v, want[v], w.history())
		}
	}
	for n := range d.refused {
		c.Failf("the challenged request %d was not sent again: %s", n, w.history())
	}
	if fmt.Sprint(w.stages) != fmt.Sprint(d.want) {
		c.Failf("after %s the stages reported are %v instead of %v: %s", d.hist, w.stages, d.want, w.history())
	}
	if len(w.part) > 0 {
		c.Failf("a part of a request was sent: %q", w.part)
	}
	c.State(w.history(), fmt.Sprint(d.hist))
	c.Logf("%s; %v", w.history(), d.hist)
}

// contest runs programs of commands in goroutines of their own against each other and the session.
func contest(c *mc.C, progs [][]string, mode int, keep, fine bool) {
	url, proto := "rtsp://u:p@cam.example:554/live", rtsp.ProtoTCP
	if keep {
		proto = rtsp.ProtoUnicast
	}
	bubble(c, false, func(w *world) {
		d := newDesk(w)
		w.open(url, proto)
		if mode == 1 || mode == 3 || mode == 4 {
			w.answer(w.last("OPTIONS"), 401, "", "WWW-Authenticate: "+d.challenge(false))
			d.refused[w.last("OPTIONS").cseq] = true
		}
		w.answer(w.last("OPTIONS"), 200, "", "Public: OPTIONS, DESCRIBE, SETUP, PLAY, PAUSE, TEARDOWN")
		w.answer(w.last("DESCRIBE"), 200, video("a"), "Content-Type: application/sdp")
		w.answer(w.last("SETUP"), 200, "", transportOK(w.last("SETUP")), "Session: 4711")
		if len(w.stages) != 1 {
			c.Failf("not ready: %s", w.history())
		}
		w.stages = nil
		d.look()
		d.out = nil
		d.got = map[string]int{}
		switch mode {
		case 2:
			d.refuse = 1
		case 3:
			d.refuse, d.fresh = 1, true
		case 4:
			d.refuse = 2
		case 5:
			d.deny = 1
		}
		extra := map[string]int{}
		w.control(fine)
		done := w.programs(progs)
		if keep {
			// the session is about to send a keep-alive
			extra["OPTIONS"] = 1
			time.Sleep(2 * time.Second)
		}
		w.env = d.acts
		w.schedule()
		d.finish(progs, done, extra)
	})
}

func init() {
	add(mc.Check{
		ID:          "C27",
		Rule:        "an execution is one schedule of the goroutines of the client and of the server's answers; all are non-trivial",
		Assumptions: []string{"code between two scheduling points runs without interruption; the race detector, which the schedules run under, shows that no other goroutine could have told the difference"},
		Drivers: []mc.Driver{
			{Name: "late answers", Split: 5, Bounds: "every sequence of 4 (thorough 6) events out of: PLAY, PAUSE or OPTIONS is issued (at most 3), the oldest or the second oldest outstanding request is answered, 1.5 s, 6 s, 61 s or (TCP) one hour pass; over TCP and UDP (with its keep-alives); no authorization, already authorized, the first answer a challenge, with a new nonce, or an error; then everything is answered",
				Body: late},
			{Name: "many requests", Split: 2, Bounds: "12000, some 70000 (thorough 300000) requests, PLAY, PAUSE and OPTIONS in turn, with 1, 3, 40 or 1000 outstanding, answered in order, the latest first, or from the middle, over TCP, challenged with Basic or Digest or not: all numbers differ, stages follow the answers",
				Body: many},
			{Name: "two commands", Split: 10, Budget: [2]int{3, 5}, Bounds: "schedules of two application goroutines issuing one command each (PLAY and PAUSE, PLAY twice, OPTIONS and TEARDOWN) and the receiving goroutine, answers to outstanding requests in either order at any moment, no authorization, already authorized, the first or second request challenged with the same or a new nonce, or refused; scheduling points before every lock, read and write; at most three (thorough five) preemptions",
				Body: func(c *mc.C) { two(c, false) }},
			{Name: "two commands, statements", Split: 10, Budget: [2]int{1, 2}, Bounds: "the same (quick: PLAY twice or one PLAY, no authorization or a challenge with a new nonce) with scheduling points before every statement that uses the session's state; at most one (thorough two) preemptions",
				Body: func(c *mc.C) { two(c, true) }},
			{Name: "keep-alive", Split: 10, Budget: [2]int{3, 4}, Bounds: "one application goroutine with one command (thorough also two) against the keep-alive of a UDP session; at most three (thorough four) preemptions",
				Body: func(c *mc.C) { alive(c, false) }},
			{Name: "keep-alive, statements", Split: 10, Budget: [2]int{1, 2}, Bounds: "the same (quick: PLAY twice or one PLAY, no authorization or a challenge with a new nonce) with scheduling points before every statement that uses the session's state; at most one (thorough two) preemptions",
				Body: func(c *mc.C) { alive(c, true) }},
			{Name: "opening", Split: 10, Budget: [2]int{3, 6}, Bounds: "schedules of Open with the receiving goroutine it starts, a server answering at any moment, with and without a challenge, two streams; at most three (thorough six) preemptions",
				Body: func(c *mc.C) { opening(c, false) }},
			{Name: "opening, statements", Split: 10, Budget: [2]int{1, 2}, Bounds: "the same with scheduling points before every statement that uses the session's state; at most one (thorough two) preemptions",
				Body: func(c *mc.C) { opening(c, true) }},
			{Name: "command during setup", Split: 10, Budget: [2]int{1, 3}, Bounds: "schedules of one application goroutine issuing PLAY (thorough also PLAY and PAUSE, or from two goroutines) while the description and the answers to two SETUP requests arrive, with and without a challenge; at most one (thorough three) preemptions",
				Body: func(c *mc.C) { setting(c, false) }},
			{Name: "command during setup, statements", Split: 10, Budget: [2]int{1, 2}, Bounds: "the same (quick: without a challenge) with scheduling points before every statement that uses the session's state; at most one (thorough two) preemptions",
				Body: func(c *mc.C) { setting(c, true) }},
			{Name: "three goroutines", Split: 10, Budget: [2]int{1, 3}, Bounds: "three application goroutines issuing PLAY, PAUSE and TEARDOWN, or two with PLAY then PAUSE and TEARDOWN (quick: no authorization or a challenge with a new nonce); at most one (thorough three) preemptions",
				Body: func(c *mc.C) {
					progs := [][][]string{{{"PLAY", "PAUSE"}, {"TEARDOWN"}}, {{"PLAY"}, {"PAUSE"}, {"TEARDOWN"}}}
					modes := []int{0, 3, 1, 2, 4, 5}
					if !c.Thorough {
						modes = modes[:2]
					}
					contest(c, progs[c.Choose(2)], modes[c.Choose(len(modes))], false, false)
				}},
		},
	})
}

// many lets the sequence numbers of a session grow.
func many(c *mc.C) {
	out := []int{1, 3, 40, 1000}[c.Choose(4)]
	pick := c.Choose(3)
	mode := c.Choose(3)
	n := 12000
	if c.Thorough {
		n = 300000
	} else if out == 3 && pick == 1 && mode != 1 {
		n = 70000
	}
	if out == 1 && pick > 0 {
		return
	}
	bubble(c, false, func(w *world) {
		w.open("rtsp://u:p@cam.example:554/live", rtsp.ProtoTCP)
		if mode > 0 {
			w.answer(w.last("OPTIONS"), 401, "", "WWW-Authenticate: "+[]string{`Basic realm="r"`, `Digest realm="r", nonce="n"`}[mode-1])
		}
		w.answer(w.last("OPTIONS"), 200, "")
		w.answer(w.last("DESCRIBE"), 200, video("a"))
		w.answer(w.last("SETUP"), 200, "", transportOK(w.last("SETUP")), "Session: 4711")
		seen := map[int]bool{}
		for _, r := range w.reqs {
			seen[r.cseq] = true
		}
		if fmt.Sprint(w.stages) != "[1]" {
			c.Failf("%s", w.history())
		}
		w.reqs, w.stages = nil, nil
		left := []*request{}
		for i := 0; i < n; i++ {
			v := []string{"PLAY", "PAUSE", "OPTIONS"}[i%3]
			w.command(v)
			w.settle()
			if len(w.reqs) != 1 || w.reqs[0].verb != v {
				c.Failf("request %d is %s: %s", i, v, tailOf(w.history()))
			}
			r := w.reqs[0]
			if seen[r.cseq] {
				c.Failf("request %d has the number %d, which another one had", i, r.cseq)
			}
			seen[r.cseq] = true
			w.reqs = nil
			left = append(left, r)
			if len(left) < out {
				continue
			}
			k := []int{0, len(left) - 1, len(left) / 2}[pick]
			r = left[k]
			left = append(left[:k], left[k+1:]...)
			w.answer(r, 200, "")
			want := map[string]string{"PLAY": "[2]", "PAUSE": "[3]", "OPTIONS": "[]"}[r.verb]
			if fmt.Sprint(w.stages) != want || len(w.reqs) != 0 {
				c.Failf("request %d: the answer to %s, number %d of %d outstanding, leads to stages %v and %d requests", i, r.verb, k, len(left)+1, w.stages, len(w.reqs))
			}
			w.stages = nil
			c.Step(1)
		}
		c.Count(int64(n), int64(n))
		c.State(out, pick, mode)
		c.Logf("%d outstanding, pick %d, mode %d", out, pick, mode)
	})
}

// late answers requests after any time, in either order.
func late(c *mc.C) {
	mode := c.Choose(6)
	proto := []int{rtsp.ProtoTCP, rtsp.ProtoUnicast}[c.Choose(2)]
	bubble(c, false, func(w *world) {
		d := newDesk(w)
		w.open("rtsp://u:p@cam.example:554/live", proto)
		if mode == 1 || mode == 3 || mode == 4 {
			w.answer(w.last("OPTIONS"), 401, "", "WWW-Authenticate: "+d.challenge(false))
			d.refused[w.last("OPTIONS").cseq] = true
		}
		w.answer(w.last("OPTIONS"), 200, "", "Public: OPTIONS, DESCRIBE, SETUP, PLAY, PAUSE, TEARDOWN")
		w.answer(w.last("DESCRIBE"), 200, video("a"), "Content-Type: application/sdp")
		w.answer(w.last("SETUP"), 200, "", transportOK(w.last("SETUP")), "Session: 4711")
		d.look()
		d.out = nil
		w.stages = nil
		d.got = map[string]int{}
		switch mode {
		case 2:
			d.refuse = 1
		case 3:
			d.refuse, d.fresh = 1, true
		case 4:
			d.refuse = 2
		case 5:
			d.deny = 1
		}
		want := map[string]int{}
		n := 4
		if c.Thorough {
			n = 6
		}
		cmds, slept := 0, false
		for i := 0; i < n; i++ {
			d.look()
			acts := []func(){}
			if cmds < 3 {
				for _, v := range []string{"PLAY", "PAUSE", "OPTIONS"} {
					v := v
					acts = append(acts, func() { want[v]++; cmds++; w.command(v); w.settle() })
				}
			}
			for k := 0; k < 2 && k < len(d.out); k++ {
				k := k
				acts = append(acts, func() { d.reply(k); w.settle() })
			}
			waits := len(acts)
			if !slept {
				times := []time.Duration{1500 * time.Millisecond, 6 * time.Second, 61 * time.Second, time.Hour}
				if proto != rtsp.ProtoTCP {
					times = times[:3]
				}
				for _, t := range times {
					t := t
					acts = append(acts, func() { w.sleep(t) })
				}
			}
			k := c.Choose(len(acts))
			slept = k >= waits // one after the other adds up to another one
			acts[k]()
			c.Step(1)
			c.State(mode, proto, w.history(), fmt.Sprint(d.hist))
		}
		for d.look(); len(d.out) > 0; d.look() {
			d.reply(0)
			w.settle()
		}
		if w.cmds != cmds {
			c.Failf("%d of %d commands have returned: %s", w.cmds, cmds, w.history())
		}
		for i, err := range w.cmdErrs {
			if err != nil {
				c.Failf("command %d failed: %v: %s", i, err, w.history())
			}
		}
		if n := d.got["OPTIONS"] - want["OPTIONS"]; n < 0 || n > 0 && proto == rtsp.ProtoTCP {
			c.Failf("%d OPTIONS requests of %d reached the wire: %s", d.got["OPTIONS"], want["OPTIONS"], w.history())
		}
		want["OPTIONS"] = d.got["OPTIONS"]
		d.finish(nil, nil, want)
	})
}

func two(c *mc.C, fine bool) {
	progs := [][][]string{{{"PLAY"}, {"PLAY"}}, {{"PLAY"}, {"PAUSE"}}, {{"OPTIONS"}, {"TEARDOWN"}}}
	modes := []int{0, 3, 1, 2, 4, 5}
	if fine && !c.Thorough {
		progs, modes = progs[:1], modes[:2]
	}
	contest(c, progs[c.Choose(len(progs))], modes[c.Choose(len(modes))], false, fine)
}

func alive(c *mc.C, fine bool) {
	progs := [][][]string{{{"PLAY"}}, {{"PLAY", "PAUSE"}}}
	modes := []int{0, 3, 1, 2, 4, 5}
	if !c.Thorough {
		progs = progs[:1]
	}
	if fine && !c.Thorough {
		modes = modes[:2]
	}
	contest(c, progs[c.Choose(len(progs))], modes[c.Choose(len(modes))], true, fine)
}

func opening(c *mc.C, fine bool) {
	refuse := c.Choose(4)
	bubble(c, false, func(w *world) {
		d := newDesk(w)
		d.refuse = refuse
		w.s = rtsp.NewSession()
		w.net.OnDial = nil
		w.dialed = true
		w.control(fine)
		done := []int{0}
		s := w.s
		var err error
		vrt.Go(func() {
			err = s.Open("rtsp://u:p@cam.example:554/live", rtsp.ProtoTCP)
			done[0]++
		})
		w.env = d.acts
		w.schedule()
		d.finish([][]string{{"OPTIONS"}}, done, map[string]int{"DESCRIBE": 1, "SETUP": 2})
		if err != nil {
			c.Failf("Open: %v", err)
		}
	})
}

// setting has commands issued while the streams are being set up.
func setting(c *mc.C, fine bool) {
	progs := [][][]string{{{"PLAY"}}, {{"PLAY", "PAUSE"}}, {{"PLAY"}, {"PLAY"}}}
	refuse := []int{0, 1, 2, 3}
	if !c.Thorough {
		progs, refuse = progs[:1], refuse[:3]
		if fine {
			refuse = refuse[:1]
		}
	}
	prog := progs[c.Choose(len(progs))]
	ref := refuse[c.Choose(len(refuse))]
	bubble(c, false, func(w *world) {
		d := newDesk(w)
		w.open("rtsp://u:p@cam.example:554/live", rtsp.ProtoTCP)
		w.answer(w.last("OPTIONS"), 200, "", "Public: OPTIONS, DESCRIBE, SETUP, PLAY, PAUSE, TEARDOWN")
		w.last("DESCRIBE")
		d.look()
		d.out = d.out[1:]
		d.got = map[string]int{}
		d.refuse = ref
		w.control(fine)
		done := w.programs(prog)
		w.env = d.acts
		w.schedule()
		d.finish(prog, done, map[string]int{"SETUP": 2})
	})
}

// programs starts goroutines of the application that issue commands.
func (w *world) programs(progs [][]string) []int {
	done := make([]int, len(progs))
	for i, p := range progs {
		i, p := i, p
		s := w.s
		vrt.Go(func() {
			for _, v := range p {
				switch v {
				case "PLAY":
					s.Play()
				case "PAUSE":
					s.Pause()
				case "TEARDOWN":
					s.Teardown()
				case "OPTIONS":
					s.Options()
				}
				done[i]++
			}
		})
	}
	return done
}
