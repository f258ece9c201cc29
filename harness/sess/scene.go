package sess

import (
	"fmt"
	"strings"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
	"verif.local/harness/mc"
)

// scene is a plain session from Open to TEARDOWN which drivers vary at its steps.
type scene struct {
	w       *world
	c       *mc.C
	proto   int
	gate    *gate
	asks    func(step int) bool                               // the server challenges the request of this step
	pause   func(step int) time.Duration                      // before each step
	reply   func(step int, r *request, plain string) string   // how the answer looks
	heads   func(step int) []string                           // further headers of the answer
	alive   bool                                              // keep-alives are answered
	session string                                            // Session header of the SETUP answers
	cmds    []string                                          // commands after ready
	after   func(step int, name string, req *request, st int) // judge
	hist    []string
	ka      int // requests looked at for keep-alives
	known   map[*request]bool
	stages  []int // stages that ought to have been reported
}

const sceneStreams = 2

func sceneSteps(cmds int) int { return 1 + 2 + sceneStreams + 2*cmds }

// requests that are not keep-alives
func (s *scene) plain() (out []*request) {
	for _, r := range s.w.reqs {
		if r.verb != "OPTIONS" || s.known[r] || len(s.w.stages) == 0 && r.n < 3 {
			out = append(out, r)
		}
	}
	return
}

// keep answers the keep-alives that have been sent.
func (s *scene) keep() {
	for s.alive && s.ka < len(s.w.reqs) {
		r := s.w.reqs[s.ka]
		s.ka++
		if r.verb == "OPTIONS" && !s.known[r] {
			s.w.answer(r, 200, "")
		}
	}
}

func (s *scene) idle(step int) {
	d := s.pause(step)
	if d == 0 {
		return
	}
	s.hist = append(s.hist, fmt.Sprintf("%v pass", d))
	end := time.Now().Add(d)
	for {
		left := end.Sub(time.Now())
		if left <= 0 {
			break
		}
		if s.alive && s.proto != rtsp.ProtoTCP && left > time.Second {
			left = time.Second
		}
		s.w.sleep(left)
		s.keep()
	}
}

// lastOf returns the most recent request of the method, other than a keep-alive.
func (s *scene) lastOf(verb string) *request {
	for i := len(s.w.reqs) - 1; i >= 0; i-- {
		r := s.w.reqs[i]
		if r.verb == verb && (verb != "OPTIONS" || i < 2 || s.known[r]) {
			return r
		}
	}
	s.c.Failf("after %s: no %s was sent: %s", strings.Join(s.hist, ", "), verb, tailOf(s.w.history()))
	return nil
}

func (s *scene) answer(step int, r *request, body string, head ...string) {
	w, c := s.w, s.c
	s.idle(step)
	if s.gate != nil {
		s.gate.verify(w, s.hist)
		if s.asks(step) {
			s.gate.refused[r.cseq] = true
			s.hist = append(s.hist, fmt.Sprintf("401 to %s#%d", r.verb, r.cseq))
			n := len(w.reqs)
			w.answer(r, 401, "", "WWW-Authenticate: "+s.gate.challenge(step%2 == 1))
			s.gate.verify(w, s.hist)
			r = nil
			for _, x := range w.reqs[n:] {
				if x.verb != "OPTIONS" || step == 1 {
					r = x
				}
			}
			if r == nil {
				c.Failf("after %s: not repeated: %s", s.hist, tailOf(w.history()))
			}
			if step == 1 {
				s.known[r] = true
			}
		}
	}
	s.hist = append(s.hist, fmt.Sprintf("200 to %s#%d", r.verb, r.cseq))
	if s.heads != nil {
		head = append(head, s.heads(step)...)
	}
	text := response(r.cseq, 200, body, head...)
	if s.reply != nil {
		text = s.reply(step, r, text)
	}
	w.send(text)
	w.settle()
	if s.gate != nil {
		s.gate.verify(w, s.hist)
	}
	if st := stageOf[r.verb]; st != 0 {
		s.stages = append(s.stages, st)
	}
	s.after(step, "answer to "+r.verb, r, 200)
}

func (s *scene) run() {
	w, c := s.w, s.c
	s.known = map[*request]bool{}
	url := base
	if s.gate != nil {
		url = "rtsp://" + s.gate.user + ":" + s.gate.pass + "@cam.example:554/live"
	}
	w.open(url, s.proto)
	s.known[w.last("OPTIONS")] = true
	s.after(0, "opening", nil, 0)
	s.answer(1, s.lastOf("OPTIONS"), "", "Public: OPTIONS, DESCRIBE, SETUP, PLAY, PAUSE, TEARDOWN")
	s.answer(2, s.lastOf("DESCRIBE"), video("a", "b"), "Content-Type: application/sdp")
	sets := []*request{}
	for _, r := range w.reqs {
		if r.verb == "SETUP" {
			sets = append(sets, r)
		}
	}
	if len(sets) < sceneStreams {
		c.Failf("after %s: %s", s.hist, tailOf(w.history()))
	}
	for i, r := range sets[len(sets)-sceneStreams:] {
		h := []string{transportOK(r)}
		if s.session != "" {
			h = append(h, "Session: "+s.session)
		}
		if i == sceneStreams-1 {
			s.stages = append(s.stages, rtsp.StageReady)
		}
		s.answer(3+i, r, "", h...)
	}
	step := 3 + sceneStreams
	for _, v := range s.cmds {
		s.idle(step)
		n := len(w.reqs)
		w.command(v)
		w.settle()
		var r *request
		for _, x := range w.reqs[n:] {
			if x.verb == v {
				r = x
			}
		}
		if r == nil {
			c.Failf("after %s: %s is not sent: %s", strings.Join(s.hist, ", "), v, tailOf(w.history()))
		}
		s.known[r] = true
		s.hist = append(s.hist, v)
		s.after(step, v, r, 0)
		s.answer(step+1, r, "")
		step += 2
	}
	c.Step(step)
	c.State(s.proto, strings.Join(s.hist, ";"))
	c.Logf("protocol %d: %s", s.proto, strings.Join(s.hist, ", "))
}

// ---- judges

func (s *scene) judgeOpening() {
	want := []string{"OPTIONS", "DESCRIBE", "SETUP", "SETUP"}
	uris := []string{base, base, base + "/a", base + "/b"}
	s.after = func(step int, name string, r *request, st int) {
		k := step + 1
		if step >= 2 {
			k = len(want)
		}
		got := []*request{}
		for _, r := range s.w.reqs {
			if r.verb == "DESCRIBE" || r.verb == "SETUP" || r.n == 0 {
				got = append(got, r)
			}
		}
		if len(got) != k {
			s.c.Failf("after %s: %s", strings.Join(s.hist, ", "), tailOf(s.w.history()))
		}
		for i, r := range got {
			if r.verb != want[i] || !sameURI(r.uri, uris[i]) {
				s.c.Failf("after %s: request %d is %s %s: %s", strings.Join(s.hist, ", "), i, r.verb, r.uri, tailOf(s.w.history()))
			}
		}
		ready := 0
		for _, x := range s.w.stages {
			if x == rtsp.StageReady {
				ready++
			}
		}
		if (step >= 2+sceneStreams) != (ready == 1) || ready > 1 {
			s.c.Failf("after %s: the stages are %v", strings.Join(s.hist, ", "), s.w.stages)
		}
	}
}

func (s *scene) judgeStages() {
	s.after = func(step int, name string, r *request, st int) {
		if fmt.Sprint(s.w.stages) != fmt.Sprint(s.stages) {
			s.c.Failf("after %s: the stages are %v instead of %v", strings.Join(s.hist, ", "), s.w.stages, s.stages)
		}
	}
}

func (s *scene) judgeSession(id string) {
	n := 0
	est := 0
	s.after = func(step int, name string, r *request, st int) {
		for _, r := range s.w.reqs[n:] {
			got, has := r.head["session"]
			must := r.verb != "OPTIONS" && r.verb != "SETUP"
			if has && est == 0 || has && got != id || est > 0 && must && !has {
				s.c.Failf("after %s: %s carries session %q (present: %v)", strings.Join(s.hist, ", "), r.verb, got, has)
			}
		}
		n = len(s.w.reqs)
		if step >= 3 {
			est++
		}
	}
}

func newScene(w *world, c *mc.C, proto int) *scene {
	return &scene{w: w, c: c, proto: proto, pause: func(int) time.Duration { return 0 }, session: "4711;timeout=60", cmds: []string{"PLAY", "PAUSE", "PLAY", "TEARDOWN"}, after: func(int, string, *request, int) {}}
}

var longPauses = []time.Duration{2100 * time.Millisecond, 31 * time.Second, 61 * time.Second, 601 * time.Second, 3601 * time.Second}

// twoPauses chooses two steps and how long the server or the application waits before them.
func twoPauses(c *mc.C, s *scene, n int) {
	long := longPauses
	if s.gate != nil && s.proto != rtsp.ProtoTCP && !c.Thorough {
		long = long[:3] // each keep-alive is verified
	}
	i := 1 + c.Choose(n-1)
	j := i + c.Choose(n-i)
	a, b := long[c.Choose(len(long))], time.Duration(0)
	if j > i {
		b = long[c.Choose(len(long))]
	}
	s.pause = func(step int) time.Duration {
		switch step {
		case i:
			return a
		case j:
			return b
		}
		return 0
	}
}

// headers that servers send
var sceneHeads = []string{
	"Date: Thu, 01 Jan 1970 00:00:00 GMT", "Server: X/1.0 (a; b) c", "Cache-Control: no-cache", "Expires: Thu, 01 Jan 1970 00:00:00 GMT", "Last-Modified: x", "Content-Base: " + base + "/",
	"Content-Location: " + base, "Content-Language: en", "Content-Encoding: identity", "Allow: DESCRIBE, PLAY", "Supported: play.basic", "Unsupported: x", "Via: RTSP/1.0 proxy", "Connection: close",
	"Connection: keep-alive", "Location: rtsp://other.example/live", "Retry-After: 5", "RTP-Info: url=" + base + "/a;seq=1;rtptime=2,url=" + base + "/b;seq=3", "Range: npt=now-", "Range: npt=0-0", "Scale: 1.0", "Speed: 2.5",
	"Timestamp: 5 0.1", "Bandwidth: 1", "Blocksize: 1000", "Conference: x", "Require: x", "Public: OPTIONS", "Public: DESCRIBE", "Vary: *", "Accept: application/sdp", "X-Accept-Dynamic-Rate: 1", "User-Agent: camera",
	"Proxy-Authenticate: Basic realm=\"r\"", "WWW-Authenticate: Basic realm=\"r\"", "WWW-Authenticate: Digest realm=\"r\", nonce=\"n\"", "Authentication-Info: nextnonce=\"x\"", "Upgrade: x", "Transfer-Encoding: identity", "X-Empty:", "X-CSeq: 99", "X-Session: 5", "Referer: " + base,
	"Media-Properties: No-Seeking", "Accept-Ranges: NPT", "X-Transport: RTP/AVP", "Content-Type: text/parameters", "MTag: 5", "CSeq2: 1", "Seek-Style: RAP",
}

var sceneForms = []func(s string) string{
	func(s string) string { return strings.Replace(s, " OK\r\n", "\r\n", 1) },
	func(s string) string { return strings.Replace(s, " OK\r\n", " \r\n", 1) },
	func(s string) string { return strings.Replace(s, " OK\r\n", " ok\r\n", 1) },
	func(s string) string { return strings.Replace(s, " OK\r\n", " All right: 401 RTSP/1.0\r\n", 1) },
	func(s string) string {
		return strings.Replace(s, " OK\r\n", " "+strings.Repeat("so far so good ", 300)+"\r\n", 1)
	},
	func(s string) string {
		i := strings.Index(s, "\r\n\r\n")
		return strings.ReplaceAll(s[:i+4], "\r\n", "\n") + s[i+4:]
	},
	func(s string) string {
		i := strings.Index(s, "\r\n\r\n")
		return s[:8] + strings.NewReplacer("CSeq:", "cseq:", "Session:", "session:", "Transport:", "TRANSPORT:", "Content-Length:", "content-length:").Replace(s[8:i]) + s[i:]
	},
	func(s string) string {
		i := strings.Index(s, "\r\n\r\n")
		return s[:8] + strings.NewReplacer("CSeq: ", "CSeq:", "Session: ", "Session:  \t", "Transport: ", "Transport :", "Content-Length: ", "Content-length:    ").Replace(s[8:i]) + s[i:]
	},
	func(s string) string { return strings.Replace(s, "\r\n\r\n", "\r\nContent-Length: 0\r\n\r\n", 1) },
}

func init() {
	judges := map[string]func(s *scene){
		"C23": func(s *scene) { s.judgeOpening(); s.cmds = s.cmds[:1] },
		"C24": (*scene).judgeStages,
		"C25": func(s *scene) {
			s.gate = &gate{kind: 0, user: "u", pass: "p", seen: map[int]*request{}, refused: map[int]bool{}}
			s.judgeStages()
			s.cmds = s.cmds[:2]
		},
		"C28": func(s *scene) { s.judgeSession("4711") },
	}
	for id, judge := range judges {
		judge := judge
		extend(id, mc.Driver{Name: "waits", Split: 3, Bounds: "a session with two streams from Open to TEARDOWN (C23: to PLAY, C25: to PAUSE), each protocol; waits of 2.1 s, 31 s, a minute, ten minutes or an hour (quick C25 with keep-alives: up to a minute) before any one or two of its answers and commands, keep-alives answered or not, with and (C25) a challenge to all, the first or the last requests",
			Body: func(c *mc.C) {
				proto := protos[c.Choose(3)]
				alive := false
				if proto != rtsp.ProtoTCP {
					alive = c.Bool()
				}
				bubble(c, false, func(w *world) {
					s := newScene(w, c, proto)
					s.alive = alive
					judge(s)
					n := sceneSteps(len(s.cmds))
					if s.gate != nil {
						k := c.Choose(3)
						s.gate.kind = c.Choose(3) * 2
						s.alive = false // keep-alives would need credentials as well
						s.asks = func(step int) bool { return k == 0 || k == 1 && step == 1 || k == 2 && step > 4 }
					}
					twoPauses(c, s, n)
					s.run()
				})
			}})
		extend(id, mc.Driver{Name: "headers", Split: 3, Bounds: "the same session, any one or all answers carrying one of 50 other headers in front of or behind their own, or having one of nine other forms (no or odd reason, LF, letter case, blanks, Content-Length 0)",
			Body: func(c *mc.C) {
				proto := protos[c.Choose(3)]
				k := c.Choose(len(sceneHeads)*2 + len(sceneForms))
				bubble(c, false, func(w *world) {
					s := newScene(w, c, proto)
					judge(s)
					n := sceneSteps(len(s.cmds))
					if s.gate != nil {
						s.gate.kind = c.Choose(3) * 2
						s.asks = func(step int) bool { return step == 1 || step == 6 }
					}
					at := c.Choose(n)
					if k < 2*len(sceneHeads) && k%2 == 0 {
						s.heads = func(step int) []string {
							if at == 0 || step == at {
								if h := sceneHeads[k/2]; step != 2 && step != 1 || !strings.HasPrefix(h, "Content-Type") && !strings.HasPrefix(h, "Public") {
									return []string{h}
								}
							}
							return nil
						}
					} else {
						s.reply = func(step int, r *request, plain string) string {
							if at != 0 && step != at {
								return plain
							}
							if k >= 2*len(sceneHeads) {
								f := k - 2*len(sceneHeads)
								if f == len(sceneForms)-1 && step == 2 {
									return plain // it has a body
								}
								return sceneForms[f](plain)
							}
							h := sceneHeads[k/2]
							if strings.HasPrefix(h, "Content-Type") && step == 2 || strings.HasPrefix(h, "Public") && step == 1 {
								return plain
							}
							return strings.Replace(plain, "\r\n", "\r\n"+h+"\r\n", 1)
						}
					}
					what := fmt.Sprintf("header or form %d in answer %d", k, at)
					if k < 2*len(sceneHeads) {
						what = fmt.Sprintf("%q in answer %d", sceneHeads[k/2], at)
					}
					s.hist = append(s.hist, what)
					s.run()
				})
			}})
	}

	extend("C31", mc.Driver{Name: "silence", Split: 2, Bounds: "the dialogue of a session of each protocol up to any message, silence for 3 s, a minute, an hour or five hours, half a message or none, then the end of the stream or a reset: the done stage once, and nothing before",
		Body: func(c *mc.C) {
			proto := protos[c.Choose(3)]
			d := []time.Duration{3 * time.Second, time.Minute, time.Hour, 5 * time.Hour}[c.Choose(4)]
			at := c.Choose(sceneSteps(4) + 1)
			part := []string{"", "R", "RTSP/1.0 200 OK\r\n", "$", "$\x00\x00\x09abc"}[c.Choose(5)]
			bad := c.Bool()
			bubble(c, false, func(w *world) {
				s := newScene(w, c, proto)
				ended := false
				s.after = func(step int, name string, r *request, st int) {
					if ended || step < at && !(step == sceneSteps(4)-1 && at > step) {
						return
					}
					ended = true
					w.send(part)
					n := len(w.stages)
					w.sleep(d)
					if len(w.stages) != n {
						c.Failf("after %s and %v: stages %v", strings.Join(s.hist, ", "), d, w.stages)
					}
					var err error
					if bad {
						err = fmt.Errorf("connection reset")
					}
					was := n > 0 && w.stages[n-1] == rtsp.StageDone
					w.conn.SimEnd(err)
					w.settle()
					w.sleep(9 * time.Second)
					if was && len(w.stages) != n || !was && (len(w.stages) != n+1 || w.stages[n] != rtsp.StageDone) {
						c.Failf("after %s, %v and the end: stages %v", strings.Join(s.hist, ", "), d, w.stages)
					}
					c.State(proto, int(d), at, part, bad)
					c.Logf("%v after %s", d, strings.Join(s.hist, ", "))
					panic(sceneOver{})
				}
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(sceneOver); !ok {
							panic(r)
						}
					}
				}()
				s.run()
			})
		}})

	extend("C26", mc.Driver{Name: "waits", Split: 2, Bounds: "packets and answers with waits of half a minute, a minute, ten minutes or an hour before, within the header, within the data, or behind each of five messages",
		Body: func(c *mc.C) {
			d := longPauses[1+c.Choose(4)]
			at := c.Choose(5)
			where := c.Choose(4)
			bubble(c, false, func(w *world) {
				p := playing(w)
				n := len(w.reqs)
				items := []item{packet(0, "first packet"), p.reply(0, 200, ""), packet(1, "second packet"), p.reply(1, 200, ""), packet(3, "third packet")}
				for i, it := range items {
					if i != at || where == 3 {
						w.send(it.bytes)
					} else {
						k := []int{0, 2, 9}[where]
						w.send(it.bytes[:k])
						w.settle()
						w.sleep(d)
						w.send(it.bytes[k:])
					}
					w.settle()
					if i == at && where == 3 {
						w.sleep(d)
					}
				}
				what := fmt.Sprintf("%v at message %d, place %d", d, at, where)
				w.expect(items, what)
				w.noMore(c, n)
				c.Step(6)
				c.State(what)
				c.Logf("%s", what)
			})
		}})

	extend("C35", mc.Driver{Name: "waits", Split: 2, Bounds: "two streams; datagrams to all ports after waits of half a minute, a minute, ten minutes or an hour before or after ready, after PLAY and PAUSE, keep-alives answered or not",
		Body: func(c *mc.C) {
			a, b := time.Duration(0), longPauses[1+c.Choose(4)]
			if c.Bool() {
				a = longPauses[1+c.Choose(4)]
			}
			cmds := [][]string{{}, {"PLAY"}, {"PLAY", "PAUSE"}}[c.Choose(3)]
			alive := c.Bool()
			bubble(c, false, func(w *world) {
				p, all := udpSession(w, 2, udpForms[c.Choose(len(udpForms))], false, func(int) (int, int) {
					w.sleep(a)
					return 0, 200
				})
				burst := func(what string) {
					for _, port := range all {
						p.feed(port, fmt.Sprintf("%s %d", what, port))
					}
					w.settle()
					p.check(what)
				}
				n := 0
				wait := func(d time.Duration) {
					for end := time.Now().Add(d); time.Now().Before(end); {
						w.sleep(5 * time.Second)
						for ; alive && n < len(w.reqs); n++ {
							if r := w.reqs[n]; r.verb == "OPTIONS" && n > 0 {
								w.answer(r, 200, "")
							}
						}
					}
				}
				burst("once ready")
				wait(b)
				burst("after a wait")
				for _, v := range cmds {
					w.command(v)
					w.settle()
					for i := len(w.reqs) - 1; ; i-- {
						if w.reqs[i].verb == v {
							w.answer(w.reqs[i], 200, "")
							break
						}
					}
					wait(b)
					burst("after " + v)
				}
				c.State(int(a), int(b), len(cmds), alive)
				c.Logf("%v, %v, %s", a, b, cmds)
			})
		}})
}

type sceneOver struct{}
