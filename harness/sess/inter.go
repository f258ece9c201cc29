package sess

import (
	"fmt"
	"strings"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
	"verif.local/harness/mc"
)

// item is one message of the server: a packet or the answer to a request.
type item struct {
	bytes string
	ch    byte
	data  string
	stage int // stage reported because of it, 0 none; -1 for packets
	name  string
}

func packet(ch byte, payload string) item {
	return item{bytes: frame(ch, payload), ch: ch, data: payload, stage: -1, name: fmt.Sprintf("packet %d/%d", ch, len(payload))}
}

// payloads of packets that look like something else
var tricky = []string{
	"",
	"$",
	"\x80\x60\x00\x01$\x00\x00\x02ab",
	"RTSP/1.0 200 OK\r\nCSeq: 5\r\n\r\n",
	"\r\n\r\n",
	"\x00",
}

type play struct {
	w    *world
	outs []*request
}

// playing opens a TCP session and leaves PLAY, PAUSE, OPTIONS, another PLAY and TEARDOWN unanswered.
func playing(w *world) *play {
	w.ready(base, rtsp.ProtoTCP, "4711", "a")
	p := &play{w: w}
	for _, v := range []string{"PLAY", "PAUSE", "OPTIONS", "PLAY", "TEARDOWN"} {
		w.command(v)
		w.settle()
		p.outs = append(p.outs, w.last(v))
	}
	w.evs = nil
	return p
}

func (p *play) reply(k, status int, body string, head ...string) item {
	r := p.outs[k]
	it := item{bytes: response(r.cseq, status, body, head...), name: fmt.Sprintf("%d to %s", status, r.verb)}
	if status == 200 {
		it.stage = stageOf[r.verb]
	}
	return it
}

// stagesOf picks the items that cause a stage to be reported.
func stagesOf(items []item) []item {
	out := []item{}
	for _, it := range items {
		if it.stage > 0 {
			out = append(out, it)
		}
	}
	return out
}

// expect compares everything delivered with the items.
func (w *world) expect(items []item, what string) {
	packets, stages := []item{}, []int{}
	order := []string{}
	for _, it := range items {
		if it.stage < 0 {
			packets = append(packets, it)
		} else if it.stage > 0 {
			stages = append(stages, it.stage)
		}
		order = append(order, it.name)
	}
	how := func() string {
		return fmt.Sprintf("%s; sent: %s; delivered: %s", what, strings.Join(order, ", "), tailOf(w.history()))
	}
	if len(w.packets) != len(packets) {
		w.c.Failf("%d packets delivered instead of %d: %s", len(w.packets), len(packets), how())
	}
	for i, p := range w.packets {
		if p.Channel != packets[i].ch || string(p.Payload) != packets[i].data {
			w.c.Failf("packet %d is channel %d %s instead of channel %d %s: %s", i, p.Channel, quoted(string(p.Payload)), packets[i].ch, quoted(packets[i].data), how())
		}
	}
	got := w.stages
	if len(stages) == 0 || stages[0] != rtsp.StageReady {
		got = got[1:]
	}
	if fmt.Sprint(got) != fmt.Sprint(stages) {
		w.c.Failf("stages %v reported instead of %v: %s", got, stages, how())
	}
}

var pauses = []time.Duration{0, 1500 * time.Millisecond, 2 * time.Second, 2100 * time.Millisecond, 4 * time.Second, 9 * time.Second}

// stream sends the bytes in pieces; after each piece there may be a pause.  -1 ns means not even letting the client run.
func (w *world) stream(s string, cuts []int, wait func(i int) time.Duration) {
	for i, p := range cut(s, cuts...) {
		w.send(p)
		if d := wait(i); d >= 0 {
			w.settle()
			if d > 0 {
				w.sleep(d)
			}
		}
	}
	w.settle()
}

func join(items []item) string {
	b := strings.Builder{}
	for _, it := range items {
		b.WriteString(it.bytes)
	}
	return b.String()
}

func (w *world) noMore(c *mc.C, n int) {
	if len(w.reqs) != n {
		c.Failf("requests sent in answer to packets and plain answers: %s", w.history())
	}
}

func init() {
	// mixtures are the message sequences that are cut in every way
	mixture := func(c *mc.C, p *play, k int) []item {
		sdp := "v=0\r\n"
		switch k {
		case 0:
			return []item{packet(0, "abc"), p.reply(0, 200, "", "Session: 4711", "RTP-Info: url=x;seq=1"), packet(1, tricky[2])}
		case 1:
			return []item{p.reply(0, 200, ""), packet(0, ""), packet(255, tricky[3]), p.reply(1, 200, "")}
		case 2:
			return []item{packet(2, "$$$$"), packet(3, tricky[4]), p.reply(2, 200, sdp, "Public: PLAY"), packet(0, "z")}
		case 3:
			return []item{p.reply(0, 404, "no such\r\n$\x00\x00\x01stream"), p.reply(1, 200, ""), packet(0, "$\x00\x00\x03xyz")}
		case 4:
			return []item{packet(0, ""), packet(1, ""), p.reply(3, 200, ""), packet(9, "\r\nRTSP/1.0"), p.reply(0, 200, "")}
		}
		panic("no such mixture")
	}
	add(mc.Check{
		ID:          "C26",
		Rule:        "an execution is one stream of packets and answers, its segmentation, its pauses and the pace of the application; all are non-trivial",
		Assumptions: []string{"the connection stays open", "every answer is to an outstanding request"},
		Drivers: []mc.Driver{
			{Name: "cut", Split: 3, Bounds: "five mixtures of packets and answers, one cut at every position, followed by one of six pauses from none to 9 s, or none of the client running",
				Body: func(c *mc.C) {
					k := c.Choose(5)
					pz := c.Choose(len(pauses) + 1)
					bubble(c, false, func(w *world) {
						p := playing(w)
						items := mixture(c, p, k)
						s := join(items)
						n := len(w.reqs)
						at := 1 + c.Choose(len(s)-1)
						d := time.Duration(-1)
						if pz > 0 {
							d = pauses[pz-1]
						}
						w.stream(s, []int{at}, func(i int) time.Duration { return d })
						what := fmt.Sprintf("mixture %d cut at %d, pause %v", k, at, d)
						w.expect(items, what)
						w.noMore(c, n)
						c.Step(2)
						c.State(k, at, int(d))
						c.Logf("%s: %s", what, w.history())
					})
				}},
			{Name: "two cuts", Split: 4, Bounds: "every pair of cuts of three (thorough five) mixtures, each followed by no pause or one of 2.1 s",
				Body: func(c *mc.C) {
					top := 3
					if c.Thorough {
						top = 5
					}
					k := c.Choose(top)
					m := c.Choose(4)
					lens := []int{}
					bubble(c, false, func(w *world) {
						p := playing(w)
						items := mixture(c, p, k)
						s := join(items)
						n := len(w.reqs)
						a := 1 + c.Choose(len(s)-2)
						b := a + 1 + c.Choose(len(s)-a-1)
						lens = []int{a, b}
						w.stream(s, lens, func(i int) time.Duration {
							if i < 2 && m&(1<<i) != 0 {
								return 2100 * time.Millisecond
							}
							return 0
						})
						what := fmt.Sprintf("mixture %d cut at %v, pauses %b", k, lens, m)
						w.expect(items, what)
						w.noMore(c, n)
						c.Step(3)
						c.State(k, a, b, m)
						c.Logf("%s: %s", what, w.history())
					})
				}},
			{Name: "three cuts", Split: 5, Bounds: "every three cuts of a short mixture (thorough: of two), the second and third up to 9 (thorough 40) bytes after the one before, each followed by no pause or one of 2.1 s",
				Body: func(c *mc.C) {
					mixes := 1
					far := 9
					if c.Thorough {
						mixes, far = 2, 40
					}
					k := c.Choose(mixes)
					m := c.Choose(8)
					bubble(c, false, func(w *world) {
						p := playing(w)
						items := []item{packet(1, "a$"), p.reply(0, 200, ""), packet(2, tricky[2]), p.reply(1, 200, "b$")}
						if k == 1 {
							items = []item{p.reply(2, 454, "x\r\n", "Public: PLAY"), p.reply(1, 200, ""), packet(0, ""), packet(5, "$\x00\x00\x01$")}
						}
						s := join(items)
						n := len(w.reqs)
						at := []int{1 + c.Choose(len(s)-1)}
						for len(at) < 3 {
							top := len(s) - at[len(at)-1] - 1
							if top > far {
								top = far
							}
							if top <= 0 {
								break
							}
							at = append(at, at[len(at)-1]+1+c.Choose(top))
						}
						w.stream(s, at, func(i int) time.Duration {
							if i < 3 && m&(1<<i) != 0 {
								return 2100 * time.Millisecond
							}
							return 0
						})
						what := fmt.Sprintf("mixture %d cut at %v, pauses %b", k, at, m)
						w.expect(items, what)
						w.noMore(c, n)
						c.Step(len(at) + 1)
						c.State(k, fmt.Sprint(at), m)
						c.Logf("%s: %s", what, w.history())
					})
				}},
			{Name: "pieces", Split: 3, Bounds: "five mixtures in pieces of 1 to 9 bytes, no pause, a pause after every piece (0.5, 2.1 or 5 s) or after every third",
				Body: func(c *mc.C) {
					k := c.Choose(5)
					size := 1 + c.Choose(9)
					m := c.Choose(6)
					bubble(c, false, func(w *world) {
						p := playing(w)
						items := mixture(c, p, k)
						s := join(items)
						n := len(w.reqs)
						at := []int{}
						for i := size; i < len(s); i += size {
							at = append(at, i)
						}
						w.stream(s, at, func(i int) time.Duration {
							switch m {
							case 0:
								return -1
							case 1:
								return 0
							case 2:
								return 500 * time.Millisecond
							case 3:
								return 2100 * time.Millisecond
							case 4:
								return 5 * time.Second
							}
							if i%3 == 0 {
								return 3 * time.Second
							}
							return 0
						})
						what := fmt.Sprintf("mixture %d in pieces of %d, mode %d", k, size, m)
						w.expect(items, what)
						w.noMore(c, n)
						c.Step(len(at))
						c.State(k, size, m)
						c.Logf("%s: %s", what, w.history())
					})
				}},
			{Name: "orders", Split: 3, Bounds: "every sequence of up to 5 (thorough 6) messages out of packets with six tricky payloads and the answers to PLAY, PAUSE, TEARDOWN and OPTIONS (200 or refused), in one segment, one segment each, or in pieces of 3 bytes",
				Body: func(c *mc.C) {
					top := 5
					if c.Thorough {
						top = 6
					}
					mode := c.Choose(3)
					bubble(c, false, func(w *world) {
						p := playing(w)
						n := len(w.reqs)
						used := [5]bool{}
						items := []item{}
						for len(items) < top {
							k := c.Choose(1 + 3 + 5)
							if k == 0 {
								break
							}
							if k--; k < 3 {
								// payloads and channels in turn, so that all of them occur in all positions
								j := len(items)
								items = append(items, packet(byte(j*37+k), tricky[(j*3+k*2)%len(tricky)]))
								continue
							}
							k -= 3
							i, st := 0, 200
							switch k {
							case 0, 1:
								i = k
							case 2:
								i, st = 3, 200
							case 3:
								i, st = 2, 200
								if len(items)%2 == 0 {
									st = 454
								}
							case 4:
								i = 4
							}
							if used[i] {
								return
							}
							used[i] = true
							items = append(items, p.reply(i, st, []string{"", "body\r\n\r\n$"}[len(items)%2]))
						}
						if len(items) == 0 {
							c.Trivial()
							return
						}
						s := join(items)
						at := []int{}
						switch mode {
						case 1:
							x := 0
							for _, it := range items[:len(items)-1] {
								x += len(it.bytes)
								at = append(at, x)
							}
						case 2:
							for i := 3; i < len(s); i += 3 {
								at = append(at, i)
							}
						}
						w.stream(s, at, func(int) time.Duration { return 0 })
						w.expect(items, fmt.Sprintf("mode %d", mode))
						w.noMore(c, n)
						c.Step(len(items))
						c.State(w.history(), mode)
						c.Logf("%s", w.history())
					})
				}},
			{Name: "sizes", Split: 3, Bounds: "packets of 0 to 80 bytes, of every length around 2048 and 4096 (the read buffer and the next multiple), and 16384, 32767, 32768, 65534, 65535 bytes, after 0 to 3 other bytes in the buffer, cut in the header, at the start, in the middle or before the last byte, with and without a pause of 2.1 s; then another packet and an answer",
				Body: func(c *mc.C) {
					n := c.Choose(81 + 24 + 24 + 8)
					switch {
					case n <= 80:
					case n < 81+24:
						n = n - 81 + 2036
					case n < 81+48:
						n = n - 81 - 24 + 4084
					default:
						n = []int{16384, 32767, 32768, 65533, 65534, 65535, 8192, 2048 * 5}[n-81-48]
					}
					pre := c.Choose(4)
					cutAt := c.Choose(7)
					pz := c.Choose(2)
					bubble(c, false, func(w *world) {
						p := playing(w)
						reqs := len(w.reqs)
						items := []item{}
						if pre > 0 {
							items = append(items, packet(1, strings.Repeat("q", pre*700)))
						}
						items = append(items, packet(byte(n), string(content(n))), packet(7, "tail"), p.reply(0, 200, ""))
						s := join(items)
						off := 0
						if pre > 0 {
							off = len(items[0].bytes)
						}
						at := []int{}
						switch cutAt {
						case 1, 2, 3:
							at = []int{off + cutAt}
						case 4:
							at = []int{off + 4}
						case 5:
							at = []int{off + 4 + n/2}
						case 6:
							at = []int{off + 4 + n - 1}
						}
						w.stream(s, at, func(i int) time.Duration {
							if i == 0 && pz == 1 {
								return 2100 * time.Millisecond
							}
							return 0
						})
						w.expect(items, fmt.Sprintf("packet of %d bytes after %d, cut %d", n, pre, cutAt))
						w.noMore(c, reqs)
						c.Step(len(items))
						c.State(n, pre, cutAt, pz)
						c.Logf("packet of %d bytes after %d, cut %d: %s", n, pre, cutAt, tailOf(w.history()))
					})
				}},
			{Name: "channels", Split: 2, Bounds: "every channel from 0 to 255 with every first byte of the payload (256) and lengths 1 to 3, 260 and 2100; before and after the answer to PLAY",
				Body: func(c *mc.C) {
					ch := byte(c.Choose(256))
					n := []int{1, 2, 3, 260, 2100}[c.Choose(5)]
					before := c.Bool()
					bubble(c, false, func(w *world) {
						p := playing(w)
						reqs := len(w.reqs)
						items := []item{}
						if !before {
							items = append(items, p.reply(0, 200, ""))
						}
						for x := 0; x < 256; x++ {
							b := content(n)
							b[0] = byte(x)
							b[n-1] = byte(x)
							items = append(items, packet(ch, string(b)))
						}
						if before {
							items = append(items, p.reply(0, 200, ""))
						}
						w.send(join(items))
						w.settle()
						w.expect(items, fmt.Sprintf("channel %d, %d bytes", ch, n))
						w.noMore(c, reqs)
						c.Step(len(items))
						c.State(ch, n, before)
						c.Logf("channel %d, %d bytes", ch, n)
					})
				}},
			{Name: "dialogue", Split: 4, Bounds: "a whole session from OPTIONS to TEARDOWN and after it, two streams, with and without a challenge to PLAY, and packets in front of every subset of its answers and at the end; each message at once, in two segments cut at four places, or in pieces of 5 bytes with pauses of 2.1 s",
				Body: func(c *mc.C) {
					gap := c.Choose(1 << 9)
					challenged := c.Bool()
					mode := c.Choose(6)
					bubble(c, false, func(w *world) {
						url := base
						if challenged {
							url = "rtsp://u:p@cam.example:554/live"
						}
						w.open(url, rtsp.ProtoTCP)
						n := 0
						items := []item{}
						deliver := func(b string, stage int) {
							k := len(items)
							if n < 9 && gap>>n&1 == 1 {
								it := packet(byte(n), tricky[n%len(tricky)])
								items = append(items, it)
								b = it.bytes + b
							}
							n++
							if stage > 0 {
								items = append(items, item{stage: stage, name: fmt.Sprint("stage ", stage)})
							}
							if b == "" {
								return
							}
							at := []int{}
							switch mode {
							case 1, 2, 3, 4:
								at = []int{1 + (len(b)-1)*mode/5}
							case 5:
								for i := 5; i < len(b); i += 5 {
									at = append(at, i)
								}
							}
							if len(b) < 2 {
								at = nil
							}
							w.stream(b, at, func(i int) time.Duration {
								if mode == 5 && i%2 == 0 {
									return 2100 * time.Millisecond
								}
								return 0
							})
							if len(w.packets) != len(items)-len(stagesOf(items)) || len(w.stages) != len(stagesOf(items)) {
								c.Failf("after message %d (%d items before): %d packets and stages %v: %s", n, k, len(w.packets), w.stages, w.history())
							}
						}
						r := w.last("OPTIONS")
						deliver(response(r.cseq, 200, "", "Public: PLAY"), 0)
						r = w.last("DESCRIBE")
						deliver(response(r.cseq, 200, video("a", "b")), 0)
						sets := append([]*request{}, w.reqs[2:]...)
						if len(sets) != 2 {
							c.Failf("no two SETUP requests: %s", w.history())
						}
						deliver(response(sets[0].cseq, 200, "", transportOK(sets[0]), "Session: 4711"), 0)
						deliver(response(sets[1].cseq, 200, "", transportOK(sets[1]), "Session: 4711"), rtsp.StageReady)
						for _, v := range []string{"PLAY", "PAUSE", "TEARDOWN"} {
							w.command(v)
							w.settle()
							r := w.last(v)
							if v == "PLAY" {
								if challenged {
									deliver(response(r.cseq, 401, "", `WWW-Authenticate: Digest realm="r", nonce="n", qop="auth"`), 0)
									r = w.last(v)
								} else {
									deliver("", 0)
								}
							}
							deliver(response(r.cseq, 200, ""), stageOf[v])
						}
						deliver("", 0)
						w.expect(items[:], fmt.Sprintf("gaps %b, mode %d, challenged %v", gap, mode, challenged))
						want := 2 + 2 + 3
						if challenged {
							want++
						}
						w.noMore(c, want)
						c.Step(n)
						c.State(gap, mode, challenged)
						c.Logf("gaps %b, mode %d, challenged %v: %s", gap, mode, challenged, tailOf(w.history()))
					})
				}},
			{Name: "trickle", Split: 3, Bounds: "packets of 3000 and 65535 bytes and an answer with a body of 5000, in pieces of 500, 1460 or 2048 bytes with pauses of 0, 1.9, 2.1 or 30 s between all of them",
				Body: func(c *mc.C) {
					kind := c.Choose(3)
					size := []int{500, 1460, 2048}[c.Choose(3)]
					d := []time.Duration{0, 1900 * time.Millisecond, 2100 * time.Millisecond, 30 * time.Second}[c.Choose(4)]
					bubble(c, false, func(w *world) {
						p := playing(w)
						reqs := len(w.reqs)
						items := []item{packet(0, "head")}
						switch kind {
						case 0:
							items = append(items, packet(4, string(content(3000))))
						case 1:
							items = append(items, packet(4, string(content(65535))))
						case 2:
							items = append(items, p.reply(0, 200, string(content(5000))))
						}
						items = append(items, packet(5, "tail"), p.reply(1, 200, ""))
						s := join(items)
						at := []int{}
						for i := size; i < len(s); i += size {
							at = append(at, i)
						}
						w.stream(s, at, func(int) time.Duration { return d })
						w.expect(items, fmt.Sprintf("kind %d in pieces of %d with pauses of %v", kind, size, d))
						w.noMore(c, reqs)
						c.Step(len(at))
						c.State(kind, size, int(d))
						c.Logf("kind %d in pieces of %d with pauses of %v: %s", kind, size, d, tailOf(w.history()))
					})
				}},
			{Name: "slow application", Split: 3, Bounds: "up to 60 packets and answers to PLAY and PAUSE among them at every pair of positions in steps, while the application takes packets only, stages only, nothing for up to 60 s, or one thing each 3 s",
				Body: func(c *mc.C) {
					total := []int{5, 19, 20, 21, 22, 40, 60}[c.Choose(7)]
					mode := c.Choose(4)
					a := c.Choose(4) * total / 3
					b := c.Choose(4) * total / 3
					if b < a {
						return
					}
					once := c.Bool()
					bubble(c, false, func(w *world) {
						p := playing(w)
						reqs := len(w.reqs)
						items := []item{}
						for i := 0; i <= total; i++ {
							if i == a {
								items = append(items, p.reply(0, 200, ""))
							}
							if i == b {
								items = append(items, p.reply(1, 200, ""))
							}
							if i < total {
								items = append(items, packet(byte(i%4), fmt.Sprintf("%d%s", i, tricky[i%len(tricky)])))
							}
						}
						switch mode {
						case 0:
							w.holdStages = true
						case 1, 2, 3:
							w.hold = true
						}
						if once {
							w.send(join(items))
							w.settle()
						} else {
							for _, it := range items {
								w.send(it.bytes)
								w.settle()
							}
						}
						w.sleep(7 * time.Second)
						if mode == 2 {
							w.sleep(60 * time.Second)
						}
						if mode == 3 || mode == 1 {
							// one thing at a time: stages first or packets first
							for i := 0; i < len(items); i++ {
								w.step1(mode == 1)
								w.sleep(3 * time.Second)
							}
						}
						w.hold, w.holdStages = false, false
						w.settle()
						w.expect(items, fmt.Sprintf("%d packets, answers at %d and %d, application %d, at once %v", total, a, b, mode, once))
						w.noMore(c, reqs)
						c.Step(len(items))
						c.State(total, mode, a, b, once)
						c.Logf("%d packets, answers at %d and %d, application %d", total, a, b, mode)
					})
				}},
		},
	})
}

// step1 takes one thing from the client.
func (w *world) step1(stagesFirst bool) {
	stage := func() bool {
		select {
		case st := <-w.s.State:
			w.stages = append(w.stages, st)
			w.evs = append(w.evs, event{kind: 's', stage: st, at: time.Now()})
			return true
		default:
			return false
		}
	}
	data := func() bool {
		select {
		case p := <-w.s.Data:
			w.packets = append(w.packets, p)
			w.evs = append(w.evs, event{kind: 'd', pkt: p, at: time.Now()})
			return true
		default:
			return false
		}
	}
	if stagesFirst {
		_ = stage() || data()
	} else {
		_ = data() || stage()
	}
	w.settle()
}
