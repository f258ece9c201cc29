package sess

import (
	"fmt"
	"strings"

	"github.com/aboukirev/ouro/net/rtsp"
	"verif.local/harness/mc"
)

var verbOf = []string{"PLAY", "PAUSE", "TEARDOWN", "OPTIONS"}
var stageOf = map[string]int{"PLAY": rtsp.StagePlay, "PAUSE": rtsp.StagePause, "TEARDOWN": rtsp.StageDone}
var refusals = []int{454, 250, 302, 500, 201, 204, 404}

func init() {
	// commands and answers in every order
	walk := func(c *mc.C, proto, streams, depth int, lazy bool) {
		bubble(c, false, func(w *world) {
			ctl := []string{"track1", "track2"}[:streams]
			w.ready(base, proto, "12345678;timeout=60", ctl...)
			w.holdStages = lazy
			want := append([]int{}, w.stages...)
			n0 := len(w.reqs)
			out := []*request{}
			issued := 0
			hist := []string{}
			for d := 0; d < depth; d++ {
				k := c.Choose(len(verbOf) + 2*len(out) + 1)
				if k == 0 {
					break
				}
				c.Step(1)
				if k--; k < len(verbOf) {
					w.command(verbOf[k])
					w.settle()
					issued++
					if len(w.reqs) != n0+issued || w.cmds != issued || w.cmdErrs[issued-1] != nil {
						c.Failf("%s after %s: %d requests sent for %d commands, %d returned: %s", verbOf[k], hist, len(w.reqs)-n0, issued, w.cmds, w.history())
					}
					r := w.last(verbOf[k])
					if r.uri != base {
						c.Failf("%s sent to %s instead of %s", r.verb, r.uri, base)
					}
					out = append(out, r)
					hist = append(hist, r.verb)
				} else {
					k -= len(verbOf)
					r := out[k/2]
					out = append(out[:k/2:k/2], out[k/2+1:]...)
					st := 200
					if k%2 == 1 {
						st = refusals[d%len(refusals)]
					} else if s := stageOf[r.verb]; s != 0 {
						want = append(want, s)
					}
					w.answer(r, st, "", "Session: 12345678")
					hist = append(hist, fmt.Sprintf("%d to %s#%d", st, r.verb, r.cseq))
				}
				if !lazy && fmt.Sprint(w.stages) != fmt.Sprint(want) {
					c.Failf("after %s the stages reported are %v instead of %v", strings.Join(hist, ", "), w.stages, want)
				}
				c.State(fmt.Sprint(w.stages), len(out), hist[len(hist)-1], fmt.Sprint(proto, streams, lazy))
			}
			w.holdStages = false
			w.settle()
			if fmt.Sprint(w.stages) != fmt.Sprint(want) {
				c.Failf("after %s the stages reported are %v instead of %v", strings.Join(hist, ", "), w.stages, want)
			}
			if len(w.reqs) != n0+issued {
				c.Failf("after %s there were %d requests for %d commands", strings.Join(hist, ", "), len(w.reqs)-n0, issued)
			}
			if len(hist) == 0 {
				c.Trivial()
			}
			c.Logf("%s", strings.Join(hist, ", "))
		})
	}
	pick := func(c *mc.C, q, t int) int {
		if c.Thorough {
			return t
		}
		return q
	}
	add(mc.Check{
		ID:          "C24",
		Rule:        "an execution is one sequence of commands and answers after ready; non-trivial when it has at least one step",
		Assumptions: []string{"each request is answered at most once", "the simulated network delivers what is sent"},
		Drivers: []mc.Driver{
			{Name: "orders", Split: 2, Bounds: "every sequence of up to 6 (thorough 8) steps, each a PLAY, PAUSE, TEARDOWN or OPTIONS command or an answer (200 or refusal) to any outstanding one, stages taken at once",
				Body: func(c *mc.C) { walk(c, rtsp.ProtoTCP, 1, pick(c, 6, 8), false) }},
			{Name: "slow stages", Split: 2, Bounds: "the same up to 6 (thorough 7) steps with the stages taken only at the end, two streams",
				Body: func(c *mc.C) { walk(c, rtsp.ProtoTCP, 2, pick(c, 6, 7), true) }},
			{Name: "statuses", Split: 2, Bounds: "every status from 100 to 599 in answer to PLAY, PAUSE, TEARDOWN or OPTIONS after every history of up to 2 confirmed commands out of PLAY and PAUSE, with and without a body",
				Body: func(c *mc.C) {
					st := 100 + c.Choose(500)
					if st == 401 {
						c.Trivial()
						return
					}
					verb := verbOf[c.Choose(4)]
					n := c.Choose(3)
					body := ""
					if c.Bool() {
						body = "v=0\r\n"
					}
					bubble(c, false, func(w *world) {
						w.ready(base, rtsp.ProtoTCP, "12345678", "track1")
						want := append([]int{}, w.stages...)
						hist := []string{}
						do := func(v string, st int, body string) {
							w.command(v)
							w.settle()
							w.answer(w.last(v), st, body)
							if st == 200 && stageOf[v] != 0 {
								want = append(want, stageOf[v])
							}
							hist = append(hist, fmt.Sprintf("%d to %s", st, v))
							if fmt.Sprint(w.stages) != fmt.Sprint(want) {
								c.Failf("after %s the stages reported are %v instead of %v", strings.Join(hist, ", "), w.stages, want)
							}
							c.Step(1)
						}
						for i := 0; i < n; i++ {
							do(verbOf[c.Choose(2)], 200, "")
						}
						do(verb, st, body)
						reqs := len(w.reqs)
						do("PAUSE", 200, "")
						if len(w.reqs) != reqs+1 {
							c.Failf("after %s: unexpected requests: %s", hist, w.history())
						}
						c.State(fmt.Sprint(hist))
						c.Logf("%s", hist)
					})
				}},
		},
	})
}
