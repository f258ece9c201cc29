package sess

import (
	"fmt"
	"strings"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
	"verif.local/harness/mc"
)

// keepMix is a UDP session in which keep-alive requests are answered, challenged or refused, with or without
// another session identifier, among PLAY commands.  kind -1 is a server that does not challenge.
func keepMix(c *mc.C, kind, early, depth int) {
	bubble(c, false, func(w *world) {
		g := &gate{kind: kind, user: "u", pass: "p", seen: map[int]*request{}, refused: map[int]bool{}}
		hist := []string{}
		cur := ""
		at, ids := 0, 0
		sent := map[int]bool{}  // sequence numbers seen
		again := map[int]bool{} // challenged already
		left := []*request{}    // not answered yet
		play := false           // PLAY is outstanding
		stages := []int{}
		defer func() { c.Logf("%d %d: %s", kind, early, strings.Join(hist, ", ")) }()
		check := func() {
			for _, r := range w.reqs[at:] {
				got, has := r.head["session"]
				must := r.verb == "PLAY" || r.verb == "PAUSE" || r.verb == "TEARDOWN" || r.verb == "DESCRIBE"
				if (must || has && !sent[r.cseq]) && got != cur {
					c.Failf("after %s: %s#%d carries session %q (present: %v) instead of %q", hist, r.verb, r.cseq, got, has, cur)
				}
				if at > 0 && len(stages) > 0 && r.verb != "OPTIONS" && r.verb != "PLAY" && r.verb != "PAUSE" {
					c.Failf("after %s: the client sends %s", hist, r.verb)
				}
				sent[r.cseq] = true
				left = append(left, r)
			}
			at = len(w.reqs)
			g.verify(w, hist)
			if fmt.Sprint(w.stages) != fmt.Sprint(stages) {
				c.Failf("after %s: stages %v instead of %v", hist, w.stages, stages)
			}
			c.Step(1)
		}
		take := func() *request {
			r := left[0]
			left = left[1:]
			return r
		}
		challenge := func(r *request, fresh bool) {
			hist = append(hist, fmt.Sprintf("401 to %s#%d", r.verb, r.cseq))
			text := "WWW-Authenticate: " + g.challenge(fresh)
			g.refused[r.cseq] = true
			again[r.cseq] = true
			w.answer(r, 401, "", text)
			check()
		}
		reply := func(r *request, st int, body string, change bool, head ...string) {
			h := head
			if change {
				ids++
				cur = fmt.Sprintf("%dab", ids)
				h = append(h, "Session: "+cur+";timeout=60")
			}
			hist = append(hist, fmt.Sprintf("%d to %s#%d with session %q", st, r.verb, r.cseq, cur))
			if st == 200 && r.verb == "PLAY" {
				stages = append(stages, rtsp.StagePlay)
			}
			if r.verb == "PLAY" {
				play = false
			}
			w.answer(r, st, body, h...)
		}
		w.open("rtsp://u:p@cam.example:554/live", rtsp.ProtoUnicast)
		check()
		for i, v := range []string{"OPTIONS", "DESCRIBE", "SETUP"} {
			if early == i+1 {
				challenge(take(), false)
			}
			r := take()
			h := []string{"Public: OPTIONS, PLAY"}
			body := ""
			if v == "DESCRIBE" {
				body = video("a")
			} else if v == "SETUP" {
				h = append(h, transportOK(r))
				stages = append(stages, rtsp.StageReady)
			}
			reply(r, 200, body, v == "SETUP", h...)
			// The first keep-alive may follow at once.
			check()
		}
		for d := 0; d < depth; d++ {
			o := c.Choose(8)
			if o == 0 {
				break
			}
			if len(left) == 0 && o > 2 || o == 2 && play {
				return
			}
			switch o {
			case 1:
				hist = append(hist, "wait 2.1 s")
				w.sleep(2100 * time.Millisecond)
			case 2:
				hist = append(hist, "PLAY")
				play = true
				w.command("PLAY")
				w.settle()
			case 3, 4:
				reply(take(), 200, "", o == 4)
			case 5:
				reply(take(), 454, "", false)
			case 6, 7:
				if kind < 0 || again[left[0].cseq] || o == 7 && g.known == 0 {
					return
				}
				challenge(take(), o == 7)
			}
			check()
			c.State(kind, early, strings.Join(hist, ";"))
		}
		for n := 0; len(left) > 0; n++ {
			reply(take(), 200, "", false)
			check()
		}
		w.command("PAUSE")
		w.settle()
		check()
		for len(left) > 0 {
			r := take()
			if r.verb == "PAUSE" {
				stages = append(stages, rtsp.StagePause)
			}
			reply(r, 200, "", false)
			check()
		}
	})
}

func init() {
	depth := func(c *mc.C, n int) int {
		if c.Thorough {
			return n + 1
		}
		return n
	}
	extend("C25", mc.Driver{Name: "keep-alives", Split: 4, Bounds: "a unicast session whose server challenges none, OPTIONS, DESCRIBE or SETUP first, eight challenge forms, then every sequence of 4 (thorough 5) of: a wait of 2.1 s, PLAY, and the oldest outstanding request is answered 200, 200 with another session, 454, or challenged with the same or a fresh nonce",
		Body: func(c *mc.C) {
			kind := c.Choose(len(gateKinds))
			keepMix(c, kind, c.Choose(4), depth(c, 4))
		}})
	extend("C28", mc.Driver{Name: "keep-alives", Split: 4, Bounds: "a unicast session without challenges or with Digest challenges; every sequence of 5 (thorough 6) of: a wait of 2.1 s, PLAY, and the oldest outstanding request (keep-alives too) is answered 200, 200 with another session, 454, or challenged",
		Body: func(c *mc.C) {
			kind := []int{-1, 2}[c.Choose(2)]
			keepMix(c, kind, 0, depth(c, 5))
		}})
}
