package sess

import (
	"fmt"
	"sort"
	"strings"

	"github.com/aboukirev/ouro/net/rtsp"
	"verif.local/harness/mc"
	"verif.local/harness/shim/vrt"
)

// Several sessions in goroutines of their own, under a scheduler.  What happens by default is that the running goroutine
// goes on, else the first that can, else the server answers; every other choice is a departure.

type solo struct {
	w    *world
	d    *desk
	prog []string // commands after ready
	next int
	done [][]int
	all  [][]string
}

func (x *solo) offers() bool { return x.w.s != nil && x.w.offers() }

func (x *solo) acts() []func() {
	w, d := x.w, x.d
	if w.conn == nil {
		return nil
	}
	fs := d.acts()
	if len(fs) > 1 {
		fs = fs[:1]
	}
	if len(fs) == 0 && len(w.stages) > 0 && x.next < len(x.prog) {
		verb := x.prog[x.next]
		fs = append(fs, func() {
			x.next++
			x.all = append(x.all, []string{verb})
			x.done = append(x.done, w.programs([][]string{{verb}}))
		})
	}
	return fs
}

func crowd(c *mc.C, refuse []int, progs [][]string, all bool) {
	bubble(c, false, func(w *world) {
		w.net.OnDial = nil
		xs := []*solo{}
		errs := make([]error, len(refuse))
		opened := make([]int, len(refuse))
		for i := range refuse {
			v := w
			if i > 0 {
				v = &world{c: c, sim: w.sim, net: w.net, start: w.start, t: w.t}
			}
			v.dialed, v.port = true, 8000+i
			v.s = rtsp.NewSession()
			x := &solo{w: v, d: newDesk(v), prog: progs[i]}
			x.d.refuse = refuse[i]
			xs = append(xs, x)
		}
		defer func() {
			for _, x := range xs[1:] {
				x.w.lenient = true
				x.w.drain()
			}
			w.sim.SimFree()
			for _, k := range w.net.Conns {
				k.SimEnd(nil)
				k.Close()
			}
			for k := 0; k < 20; k++ {
				more := false
				w.wait()
				for _, x := range xs {
					more = x.w.drain() || more
				}
				if !more {
					break
				}
			}
		}()
		for _, x := range xs {
			x.w.sched = true
		}
		if all {
			w.sim.SimControlAll()
		} else {
			w.sim.SimControl(false)
		}
		for i, x := range xs {
			i, s := i, x.w.s
			vrt.Go(func() {
				errs[i] = s.Open(fmt.Sprintf("rtsp://u:p@cam.example:%d/live", 8000+i), rtsp.ProtoTCP)
				opened[i]++
			})
		}
		running := -1
		for n := 0; ; n++ {
			w.wait()
			more := false
			for _, x := range xs {
				x.w.judge()
				x.w.pull()
				more = x.offers() || more
			}
			if more {
				continue
			}
			ps := w.sim.SimParked()
			acts := []func(){}
			for _, x := range xs {
				acts = append(acts, x.acts()...)
			}
			total := len(ps) + len(acts)
			if total == 0 {
				break
			}
			if n > 20000 {
				c.Failf("the sessions do not come to rest")
			}
			own := 0
			for i, p := range ps {
				if p.ID == running {
					own = i
				}
			}
			k := c.Dev(total)
			if k == 0 {
				k = own
			} else if k <= own {
				k--
			}
			c.Step(1)
			if k < len(ps) {
				running = ps[k].ID
				w.sim.SimGrant(ps[k])
			} else {
				running = -1
				acts[k-len(ps)]()
			}
		}
		w.races()
		hist := []string{}
		for i, x := range xs {
			if errs[i] != nil || opened[i] != 1 {
				c.Failf("session %d: Open returned %d times, %v", i, opened[i], errs[i])
			}
			progs := [][]string{{"OPTIONS"}}
			done := []int{1}
			for j := range x.all {
				progs, done = append(progs, x.all[j]), append(done, x.done[j][0])
			}
			x.d.finish(progs, done, map[string]int{"DESCRIBE": 1, "SETUP": 2})
			if x.next != len(x.prog) {
				c.Failf("session %d: only %d of the commands were issued: %s", i, x.next, x.w.history())
			}
			// the numbers of its own requests follow each other, as they do alone
			ns := []int{}
			for n := range x.d.seen {
				ns = append(ns, n)
			}
			sort.Ints(ns)
			for j, n := range ns {
				if n != ns[0]+j {
					c.Failf("session %d: the sequence numbers are %v: %s", i, ns, x.w.history())
				}
			}
			for _, r := range x.w.reqs {
				if !strings.Contains(r.uri, fmt.Sprint(":", 8000+i)) {
					c.Failf("session %d has sent %s %s", i, r.verb, r.uri)
				}
			}
			hist = append(hist, x.w.history())
		}
		c.State(c.Trail())
		c.Logf("%s", strings.Join(hist, " | "))
	})
}

func init() {
	progs := []string{"PLAY", "TEARDOWN"}
	pair := func(c *mc.C, few bool) []int {
		l := [][]int{{0, 0}, {0, 1}, {1, 1}, {1, 2}, {2, 3}, {3, 0}, {1, 0}, {2, 1}, {3, 2}, {2, 2}, {3, 3}}
		if !c.Thorough {
			if l = l[:6]; few {
				l = l[:3]
			}
		}
		return l[c.Choose(len(l))]
	}
	extend("C38",
		mc.Driver{Name: "two sessions", Split: 6, Budget: [2]int{2, 3}, Bounds: "two sessions opened, set up with two streams, played and torn down in goroutines of their own, each not challenged or challenged at its first, second or third request (six combinations, thorough eleven); scheduling points before every lock, read and write; at most two (thorough three) departures from the default order of goroutines and answers",
			Body: func(c *mc.C) {
				crowd(c, pair(c, false), [][]string{progs, progs}, false)
			}},
		mc.Driver{Name: "two sessions, statements", Split: 6, Budget: [2]int{1, 2}, Bounds: "the same (quick: three combinations) with scheduling points before every statement that uses the state of a session or a variable of a package; at most one (thorough two) departures",
			Body: func(c *mc.C) {
				crowd(c, pair(c, true), [][]string{progs, progs}, true)
			}},
		mc.Driver{Name: "three sessions", Split: 6, Budget: [2]int{1, 2}, Bounds: "three sessions, two of them challenged; at most one (thorough two) departures",
			Body: func(c *mc.C) {
				crowd(c, []int{0, 1, 1 + c.Choose(2)}, [][]string{progs, progs, progs[:1]}, false)
			}},
	)
}
