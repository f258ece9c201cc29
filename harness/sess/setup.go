package sess

import (
	"fmt"
	"strings"

	"github.com/aboukirev/ouro/net/rtsp"
	"verif.local/harness/mc"
)

// offer checks that a Transport value offers the transport of stream i for the protocol.
func offer(proto, i int, v string) string {
	f := strings.Split(v, ";")
	p := map[string]string{}
	for _, x := range f[1:] {
		kv := strings.SplitN(strings.TrimSpace(x), "=", 2)
		k := strings.ToLower(kv[0])
		if _, dup := p[k]; dup {
			return "parameter " + k + " twice"
		}
		p[k] = ""
		if len(kv) == 2 {
			p[k] = kv[1]
		}
	}
	pair := func(n int) string { return fmt.Sprintf("%d-%d", n, n+1) }
	_, multi := p["multicast"]
	_, uni := p["unicast"]
	switch proto {
	case rtsp.ProtoTCP:
		if f[0] != "RTP/AVP/TCP" || p["interleaved"] != pair(2*i) || multi {
			return "does not offer interleaved channels " + pair(2*i)
		}
	case rtsp.ProtoUnicast:
		if f[0] != "RTP/AVP" && f[0] != "RTP/AVP/UDP" || multi || !uni || p["client_port"] != pair(50000+2*i) {
			return "does not offer client ports " + pair(50000+2*i)
		}
	case rtsp.ProtoMulticast:
		if f[0] != "RTP/AVP" && f[0] != "RTP/AVP/UDP" || !multi || uni || p["port"] != pair(50000+2*i) {
			return "does not offer ports " + pair(50000+2*i)
		}
	}
	return ""
}

type urlForm struct{ url, base string }

var urlForms = []urlForm{
	{"rtsp://cam.example:554/live", "rtsp://cam.example:554/live"},
	{"rtsp://cam.example/live/", "rtsp://cam.example:554/live/"},
	{"rtsp://cam.example:8554/Streaming/Channels/101", "rtsp://cam.example:8554/Streaming/Channels/101"},
	{"rtsp://10.1.2.3:554/a%20b/c.sdp", "rtsp://10.1.2.3:554/a%20b/c.sdp"},
	{"rtsp://cam.example", "rtsp://cam.example:554"},
	{"rtsp://cam.example:554/", "rtsp://cam.example:554/"},
}

// sameURI compares request URIs; the default port may be written or left out.
func sameURI(a, b string) bool {
	norm := func(s string) string {
		if strings.HasPrefix(s, "rtsp://") {
			h := s[7:]
			i := strings.IndexByte(h, '/')
			if i < 0 {
				i = len(h)
			}
			return "rtsp://" + strings.TrimSuffix(h[:i], ":554") + h[i:]
		}
		return s
	}
	return norm(a) == norm(b)
}

type ctlForm struct {
	text     string
	absolute bool
}

// control URLs of stream i
func ctlForms(i int) []ctlForm {
	return []ctlForm{
		{fmt.Sprintf("trackID=%d", i+1), false},
		{fmt.Sprintf("rtsp://cam.example:554/live/track%d", i+1), true},
		{fmt.Sprintf("streamid=%d/x?y=%d", i, i), false},
		{fmt.Sprintf("rtsp://media%d.example/elsewhere", i), true},
		{fmt.Sprintf("rtsp-%d", i), false},
		{fmt.Sprintf("t/http://a:%d", i), false},
	}
}

func (f ctlForm) resolve(base string) string {
	if f.absolute {
		return f.text
	}
	return strings.TrimSuffix(base, "/") + "/" + f.text
}

var audioSection = "m=audio 0 RTP/AVP 8\r\na=control:audio\r\na=rtpmap:8 PCMA/8000\r\n"
var metaSection = "m=application 0 RTP/AVP 107\r\na=control:meta\r\n"

// describe makes a description with the controls; others is a bit set of where other sections go.
func describe(ctl []ctlForm, others int) string {
	b := "v=0\r\no=- 1 1 IN IP4 127.0.0.1\r\ns=x\r\nt=0 0\r\na=control:*\r\n"
	for i := 0; i <= len(ctl); i++ {
		if others&(1<<i) != 0 {
			if i%2 == 0 {
				b += audioSection
			} else {
				b += metaSection
			}
		}
		if i < len(ctl) {
			b += fmt.Sprintf("m=video 0 RTP/AVP 96\r\na=control:%s\r\na=rtpmap:96 H264/90000\r\na=fmtp:96 packetization-mode=1;sprop-parameter-sets=Z00AH5Y1QKAUAW3AQEBQAAA=,aO48gA==\r\n", ctl[i].text)
		}
	}
	return b
}

var confirmations = []func(r *request) string{
	func(r *request) string { return r.head["transport"] },
	func(r *request) string { return r.head["transport"] + ";ssrc=1234ABCD;mode=\"PLAY\"" },
	func(r *request) string {
		return strings.Replace(strings.Replace(r.head["transport"], "RTP/AVP;", "RTP/AVP/UDP;", 1), "interleaved=", "unicast;interleaved=", 1) + ";server_port=6970-6971"
	},
}

// setupRun opens a session and answers its requests; statuses and order come from the choices.
func setupRun(c *mc.C, uf urlForm, proto int, ctl []ctlForm, others int, conf int, optStatus int, order func(n int) (int, int)) {
	setupBatch(c, uf, proto, ctl, others, conf, optStatus, false, order)
}

// setupBatch does the same; with batch all SETUP answers arrive in one segment.
func setupBatch(c *mc.C, uf urlForm, proto int, ctl []ctlForm, others int, conf int, optStatus int, batch bool, order func(n int) (int, int)) {
	bubble(c, false, func(w *world) {
		w.open(uf.url, proto)
		want := []string{"OPTIONS " + uf.base}
		verify := func(what string) {
			// keep-alive requests of UDP sessions may follow ready
			reqs := []*request{}
			for i, r := range w.reqs {
				if i > 0 && r.verb == "OPTIONS" && proto != rtsp.ProtoTCP && len(w.stages) > 0 {
					continue
				}
				reqs = append(reqs, r)
			}
			if len(reqs) != len(want) {
				c.Failf("%s: the requests are %s", what, w.history())
			}
			for i, r := range reqs {
				f := strings.SplitN(want[i], " ", 2)
				if r.verb != f[0] || !sameURI(r.uri, f[1]) {
					c.Failf("%s: request %d is %s %s instead of %s", what, i, r.verb, r.uri, want[i])
				}
				if k := i - 2; k >= 0 {
					if e := offer(proto, k, r.head["transport"]); e != "" {
						c.Failf("%s: SETUP of stream %d with Transport %q %s", what, k, r.head["transport"], e)
					}
				} else if r.head["transport"] != "" {
					c.Failf("%s has a Transport header", r.verb)
				}
			}
			c.Step(1)
			c.State(uf.url, proto, describe(ctl, others), w.history())
		}
		if !w.opened || w.openErr != nil {
			c.Failf("Open of %s: returned %v, error %v", uf.url, w.opened, w.openErr)
		}
		verify("after opening")
		w.answer(w.reqs[0], optStatus, "", "Public: OPTIONS, DESCRIBE, SETUP")
		want = append(want, "DESCRIBE "+uf.base)
		verify("after the answer to OPTIONS")
		if a := w.reqs[1].head["accept"]; !strings.Contains(a, "application/sdp") {
			c.Failf("DESCRIBE accepts %q", a)
		}
		w.answer(w.reqs[1], 200, describe(ctl, others), "Content-Type: application/sdp")
		for _, f := range ctl {
			want = append(want, "SETUP "+f.resolve(uf.base))
		}
		verify("after the description")
		out := append([]*request{}, w.reqs[2:]...)
		hist := []string{}
		all := ""
		for len(out) > 0 {
			if len(w.stages) != 0 {
				c.Failf("ready with %d SETUP requests unanswered: %s", len(out), w.history())
			}
			i, st := order(len(out))
			r := out[i]
			out = append(out[:i:i], out[i+1:]...)
			hist = append(hist, fmt.Sprintf("%d to SETUP#%d", st, r.cseq))
			h := []string{}
			if st == 200 {
				h = []string{"Transport: " + confirmations[conf](r), "Session: 4711"}
			}
			all += response(r.cseq, st, "", h...)
			if batch && len(out) > 0 {
				continue
			}
			w.send(all)
			all = ""
			w.settle()
			verify("after " + strings.Join(hist, ", "))
		}
		if fmt.Sprint(w.stages) != fmt.Sprint([]int{rtsp.StageReady}) {
			c.Failf("%d streams, after %s: the stages reported are %v", len(ctl), strings.Join(hist, ", "), w.stages)
		}
		// another answer changes nothing
		w.command("OPTIONS")
		w.settle()
		if r := w.last("OPTIONS"); proto == rtsp.ProtoTCP {
			want = append(want, "OPTIONS "+uf.base)
			w.answer(r, 200, "", "Public: OPTIONS, DESCRIBE, SETUP")
			if len(w.reqs) != len(want) || len(w.stages) != 1 {
				c.Failf("after the answer to a later OPTIONS: %s", w.history())
			}
		}
		c.Logf("%s %s", strings.Join(want, ", "), strings.Join(hist, ", "))
	})
}

var protos = []int{rtsp.ProtoTCP, rtsp.ProtoUnicast, rtsp.ProtoMulticast}

func init() {
	add(mc.Check{
		ID:          "C23",
		Rule:        "an execution is one server (description, order and status of its answers) and one URL; all are non-trivial",
		Assumptions: []string{"control attributes of the streams are not empty", "the base URL has no query", "the description has at least one video stream"},
		Drivers: []mc.Driver{
			{Name: "orders", Split: 5, Bounds: "1 to 3 (thorough 4) streams, each protocol, every order of the SETUP answers and each of them 200 or one of two refusals, one segment each or all in one",
				Body: func(c *mc.C) {
					proto := protos[c.Choose(3)]
					top := 3
					if c.Thorough {
						top = 4
					}
					n := 1 + c.Choose(top)
					conf := c.Choose(3)
					ctl := []ctlForm{}
					for i := 0; i < n; i++ {
						ctl = append(ctl, ctlForms(i)[i%2])
					}
					setupBatch(c, urlForms[0], proto, ctl, 0, conf, 200, c.Bool(), func(n int) (int, int) {
						i := c.Choose(n)
						return i, []int{200, 404, 461}[c.Choose(3)]
					})
				}},
			{Name: "forms", Split: 5, Bounds: "six URL forms, six control forms for each of 1 to 3 streams, other sections in every subset of positions (for up to two streams), OPTIONS answered or refused, answers in order or reversed",
				Body: func(c *mc.C) {
					uf := urlForms[c.Choose(len(urlForms))]
					proto := protos[c.Choose(3)]
					n := 1 + c.Choose(3)
					ctl := []ctlForm{}
					others := 0
					for i := 0; i < n; i++ {
						fs := ctlForms(i)
						k := len(fs)
						if n == 3 {
							k = 3
						}
						ctl = append(ctl, fs[c.Choose(k)])
					}
					if n < 3 || c.Thorough {
						others = c.Choose(1 << (n + 1))
					} else {
						others = []int{0, 5, 15}[c.Choose(3)]
					}
					opt := []int{200, 404}[c.Choose(2)]
					rev := c.Bool()
					setupRun(c, uf, proto, ctl, others, 0, opt, func(n int) (int, int) {
						if rev {
							return n - 1, 200
						}
						return 0, 200
					})
				}},
			{Name: "controls", Split: 4, Bounds: "every relative control URL made of one of 16 words, one of 8 numbers and one of 8 ends, alone or as the first, second or both of two streams, for a base with and without a final slash",
				Body: func(c *mc.C) {
					word := []string{"trackID=", "TrackID=", "track", "trackid=", "stream", "stream=", "streamid=", "StreamId=", "video", "audio", "media", "ch", "live", "mpeg4/media.amp/trackID=", "a=", "x.h264/"}[c.Choose(16)]
					num := []string{"", "0", "1", "2", "01", "10", "255", "v"}[c.Choose(8)]
					uf := urlForms[c.Choose(2)]
					where := c.Choose(4)
					for _, end := range []string{"", "a", "/x", "/", "&y=1", "?y=1", ";z", "=0"} {
						x := ctlForm{word + num + end, false}
						if x.text == "" {
							continue
						}
						ctl := [][]ctlForm{{x}, {x, ctlForms(1)[0]}, {ctlForms(0)[0], x}, {x, x}}[where]
						setupRun(c, uf, rtsp.ProtoTCP, ctl, 0, 0, 200, func(n int) (int, int) { return n - 1, 200 })
						c.Tick()
					}
				}},
			{Name: "same control", Split: 3, Bounds: "2 to 4 (thorough 6) streams which all have the same control URL, every order of answers (first three positions)",
				Body: func(c *mc.C) {
					proto := protos[c.Choose(3)]
					top := 3
					if c.Thorough {
						top = 5
					}
					n := 2 + c.Choose(top)
					ctl := []ctlForm{}
					for i := 0; i < n; i++ {
						ctl = append(ctl, ctlForms(7)[0])
					}
					setupRun(c, urlForms[1], proto, ctl, 0, 1, 200, func(n int) (int, int) {
						return c.Choose(n), []int{200, 453}[c.Choose(2)]
					})
				}},
			{Name: "statuses", Split: 3, Bounds: "every status from 100 to 599 except 401 in answer to OPTIONS, DESCRIBE (with and without a description) or each SETUP of 1 to 3 streams, in three protocols",
				Body: func(c *mc.C) {
					st := 100 + c.Choose(500)
					if st == 401 {
						c.Trivial()
						return
					}
					proto := protos[c.Choose(3)]
					n := 1 + c.Choose(3)
					ctl := []ctlForm{}
					for i := 0; i < n; i++ {
						ctl = append(ctl, ctlForms(i)[0])
					}
					pos := c.Choose(n + 3)
					switch pos {
					case 0:
						setupRun(c, urlForms[0], proto, ctl, 0, 0, st, func(n int) (int, int) { return 0, 200 })
					case 1, 2:
						body := ""
						if pos == 2 {
							body = describe(ctl, 0)
						}
						bubble(c, false, func(w *world) {
							w.open(urlForms[0].url, proto)
							w.answer(w.last("OPTIONS"), 200, "")
							w.answer(w.last("DESCRIBE"), st, body)
							want := 2
							if st == 200 && pos == 2 {
								want += n
							}
							if len(w.reqs) != want || len(w.stages) != 0 {
								c.Failf("DESCRIBE answered with %d (description: %v): %s", st, pos == 2, w.history())
							}
							w.conn.SimEnd(nil)
							w.settle()
							if len(w.reqs) != want || len(w.stages) > 0 && w.stages[0] == rtsp.StageReady {
								c.Failf("DESCRIBE answered with %d, then the end: %s", st, w.history())
							}
							c.Step(3)
							c.State(st, pos, proto, n)
							c.Logf("%d: %s", st, w.history())
						})
					default:
						k := 0
						setupRun(c, urlForms[0], proto, ctl, 0, 0, 200, func(int) (int, int) {
							if k++; k == pos-2 {
								return 0, st
							}
							return 0, 200
						})
					}
				}},
			{Name: "refused", Split: 4, Bounds: "DESCRIBE answered with seven other statuses, with and without a description, in three protocols",
				Body: func(c *mc.C) {
					proto := protos[c.Choose(3)]
					st := []int{404, 500, 302, 204, 201, 454, 400}[c.Choose(7)]
					body := ""
					if c.Bool() {
						body = describe([]ctlForm{ctlForms(0)[0], ctlForms(1)[1]}, 0)
					}
					uf := urlForms[c.Choose(len(urlForms))]
					bubble(c, false, func(w *world) {
						w.open(uf.url, proto)
						w.answer(w.last("OPTIONS"), 200, "")
						w.answer(w.last("DESCRIBE"), st, body)
						if len(w.reqs) != 2 || len(w.stages) != 0 {
							c.Failf("DESCRIBE answered with %d: %s", st, w.history())
						}
						w.conn.SimEnd(nil)
						w.settle()
						if len(w.reqs) != 2 || len(w.stages) > 0 && w.stages[0] == rtsp.StageReady {
							c.Failf("DESCRIBE answered with %d, then the end: %s", st, w.history())
						}
						c.Step(3)
						c.State(st, body, proto, uf.url)
						c.Logf("%d: %s", st, w.history())
					})
				}},
		},
	})

	// ---- session identifiers
	ids := []string{"", "12345678", "ab-Cd_ef+9;timeout=60", " 77 ; timeout=5", "x;a;b"}
	bare := []string{"", "12345678", "ab-Cd_ef+9", "77", "x"}
	add(mc.Check{
		ID:          "C28",
		Rule:        "an execution is one sequence of answers with and without Session headers and the commands between them; non-trivial when a Session header occurs",
		Assumptions: []string{"challenges carry no Session header"},
		Drivers: []mc.Driver{
			{Name: "histories", Split: 4, Bounds: "1 or 2 streams; each answer (OPTIONS, DESCRIBE, SETUP, then up to 3 (thorough 5) commands of PLAY, PAUSE, TEARDOWN, DESCRIBE) carries none or one of four Session values (two before the commands), 200 or refused",
				Body: func(c *mc.C) {
					bubble(c, false, func(w *world) {
						cur := 0
						seen := false
						hist := []string{}
						check := func(from int) {
							for _, r := range w.reqs[from:] {
								got, has := r.head["session"]
								must := r.verb == "PLAY" || r.verb == "PAUSE" || r.verb == "TEARDOWN" || r.verb == "DESCRIBE"
								if has && cur == 0 {
									c.Failf("after %s: %s carries session %q", hist, r.verb, got)
								}
								if (must || has) && got != bare[cur] {
									c.Failf("after %s: %s carries session %q (present: %v) instead of %q", hist, r.verb, got, has, bare[cur])
								}
							}
							c.Step(1)
						}
						reply := func(r *request, status int, body string, k int, more ...string) {
							h := more
							if k != 0 {
								h = append(h, "Session: "+ids[k])
								cur = k
								seen = true
							}
							hist = append(hist, fmt.Sprintf("%d to %s with session %q", status, r.verb, ids[k]))
							n := len(w.reqs)
							w.answer(r, status, body, h...)
							check(n)
							c.State(strings.Join(hist, ";"))
						}
						w.open(base, rtsp.ProtoTCP)
						check(0)
						reply(w.last("OPTIONS"), 200, "", c.Choose(2)*2, "Public: OPTIONS, PLAY")
						n := 1 + c.Choose(2)
						reply(w.last("DESCRIBE"), 200, video([]string{"a", "b"}[:n]...), c.Choose(2)*3)
						for _, r := range append([]*request{}, w.reqs[2:]...) {
							reply(r, 200, "", c.Choose(3), transportOK(r))
						}
						top := 3
						if c.Thorough {
							top = 5
						}
						for i := 0; i < top; i++ {
							k := c.Choose(5)
							if k == 4 {
								break
							}
							verb := []string{"PLAY", "PAUSE", "TEARDOWN", "DESCRIBE"}[k]
							from := len(w.reqs)
							w.command(verb)
							w.settle()
							r := w.last(verb)
							check(from)
							st := 200
							if verb == "DESCRIBE" {
								st = 404
							} else if i%2 == 1 {
								st = 455
							}
							reply(r, st, "", []int{0, 1 + i%4, 4}[c.Choose(3)])
						}
						if !seen {
							c.Trivial()
						}
						c.Logf("%s", strings.Join(hist, "; "))
					})
				}},
			{Name: "challenged", Split: 4, Bounds: "1 or 2 streams; Basic or Digest challenges (without a Session header) of OPTIONS, DESCRIBE, the SETUP requests and up to 2 (thorough 3) commands of PLAY, PAUSE, TEARDOWN, DESCRIBE, up to two (thorough three) of them; the answers carry none or another Session value",
				Budget: [2]int{2, 3},
				Body: func(c *mc.C) {
					kind := c.Choose(2)
					n := 1 + c.Choose(2)
					bubble(c, false, func(w *world) {
						cur, nonce := "", 0
						hist := []string{}
						seen := 0
						check := func() {
							for _, r := range w.reqs[seen:] {
								got, has := r.head["session"]
								must := r.verb == "PLAY" || r.verb == "PAUSE" || r.verb == "TEARDOWN" || r.verb == "DESCRIBE"
								if (must || has) && got != cur {
									c.Failf("after %s: %s carries session %q (present: %v) instead of %q", hist, r.verb, got, has, cur)
								}
							}
							seen = len(w.reqs)
							c.Step(1)
						}
						reply := func(r *request, status int, body string, more ...string) {
							if c.Dev(2) == 1 {
								h := `WWW-Authenticate: Basic realm="r"`
								if kind == 1 {
									h = fmt.Sprintf(`WWW-Authenticate: Digest realm="r", nonce="n%d", qop="auth"`, nonce)
									nonce++
								}
								hist = append(hist, "401 to "+r.verb)
								w.answer(r, 401, "", h)
								check()
								r = w.last(r.verb)
							}
							h := more
							if c.Bool() {
								cur = fmt.Sprint(4711 + len(hist))
								h = append(h, "Session: "+cur+";timeout=60")
							}
							hist = append(hist, fmt.Sprintf("%d to %s with session %q", status, r.verb, cur))
							w.answer(r, status, body, h...)
							check()
							c.State(strings.Join(hist, ";"), kind)
						}
						w.open("rtsp://u:p@cam.example:554/live", rtsp.ProtoTCP)
						check()
						reply(w.last("OPTIONS"), 200, "", "Public: OPTIONS, PLAY")
						reply(w.last("DESCRIBE"), 200, video([]string{"a", "b"}[:n]...))
						for i := 0; i < n; i++ {
							var r *request
							for _, x := range w.reqs {
								if x.verb == "SETUP" && (r == nil || x.cseq > r.cseq) && (i > 0 || r == nil) {
									r = x
								}
							}
							reply(r, 200, "", transportOK(r))
						}
						top := 2
						if c.Thorough {
							top = 3
						}
						for i := 0; i < top; i++ {
							k := c.Choose(5)
							if k == 4 {
								break
							}
							verb := []string{"PLAY", "PAUSE", "TEARDOWN", "DESCRIBE"}[k]
							w.command(verb)
							w.settle()
							r := w.last(verb)
							check()
							st := 200
							if verb == "DESCRIBE" {
								st = 404
							}
							reply(r, st, "")
						}
						c.Logf("%s", strings.Join(hist, "; "))
					})
				}},
			{Name: "values", Split: 3, Bounds: "Session values of every printable token character, with 24 spellings of parameters and spaces, in the answer to SETUP of a TCP, unicast or multicast session; then PLAY, PAUSE, OPTIONS by keep-alive or command, TEARDOWN",
				Body: func(c *mc.C) {
					proto := protos[c.Choose(3)]
					id := []string{"1", "00000001", "CAFEbabe", "$-_.+!*'(),", "0123456789012345678901234567890123456789012345678901234567890123", "a=b", "\"q\"", "x:y/z"}[c.Choose(8)]
					val := id + []string{"", ";", ";timeout=60", "; timeout=60", " ;timeout=60", " ; timeout = 60 ; x", ";timeout=60;timeout=61", "\t;a=1"}[c.Choose(8)]
					val = []string{"", " ", "\t "}[c.Choose(3)] + val
					name := []string{"Session:", "session:", "SESSION :"}[c.Choose(3)]
					bubble(c, false, func(w *world) {
						w.open(base, proto)
						w.answer(w.last("OPTIONS"), 200, "")
						w.answer(w.last("DESCRIBE"), 200, video("a"))
						r := w.last("SETUP")
						n := len(w.reqs)
						w.answer(r, 200, "", transportOK(r), name+val)
						for _, v := range []string{"PLAY", "PAUSE", "OPTIONS", "TEARDOWN"} {
							w.command(v)
							w.settle()
							w.last(v)
						}
						for _, r := range w.reqs[n:] {
							if got, has := r.head["session"]; got != id && (has || r.verb != "OPTIONS") {
								c.Failf("Session header %q: %s carries %q instead of %q", val, r.verb, got, id)
							}
							c.Step(1)
						}
						c.State(val, name, proto)
						c.Logf("%q", val)
					})
				}},
		},
	})
}
