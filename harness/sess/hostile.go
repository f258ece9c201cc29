package sess

import (
	"encoding/base64"
	"fmt"
	"strings"
	"syscall"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
	"verif.local/harness/mc"
)

const sdpSprop = "v=0\r\no=- 1 1 IN IP4 127.0.0.1\r\ns=x\r\nt=0 0\r\nm=video 0 RTP/AVP 96\r\na=control:a\r\na=rtpmap:96 H264/90000\r\na=fmtp:96 packetization-mode=1;sprop-parameter-sets=Z00AH5Y1QKAUAW3AQEBQAAA=,aO48gA==\r\nm=video 0 RTP/AVP 97\r\na=control:rtsp://x/b\r\na=rtpmap:97 H264/90000\r\na=fmtp:97 config=000001674d001f;sizelength=2\r\n"

// dialogue is a complete session; step k sends the k-th message of the server and returns false when there is
// nothing left.  The bytes of a step can be replaced.
type dialogue struct {
	w        *world
	url      string
	proto    int
	cmds     map[string]*request
	setups   []*request
	sent     []item // packets sent whole
	replaced bool
}

const dialogueSteps = 9

var dialogueNames = []string{"OPTIONS answer", "DESCRIBE answer", "first SETUP answer", "second SETUP answer", "packet", "PLAY answer", "packet", "PAUSE answer", "TEARDOWN answer"}

func (d *dialogue) find(verb string) *request {
	for i := len(d.w.reqs) - 1; i >= 0; i-- {
		if d.w.reqs[i].verb == verb {
			return d.w.reqs[i]
		}
	}
	d.w.c.Failf("no %s: %s", verb, d.w.history())
	return nil
}

// next returns the bytes of step k of the plain dialogue, issuing the command it answers.
func (d *dialogue) next(k int) string {
	w := d.w
	cmd := func(v string) string {
		w.command(v)
		w.settle()
		if w.cmds == 0 {
			w.c.Failf("%s does not return: %s", v, w.history())
		}
		return response(d.find(v).cseq, 200, "", "Session: 4711")
	}
	switch k {
	case 0:
		return response(d.find("OPTIONS").cseq, 200, "", "Public: OPTIONS, DESCRIBE, SETUP, TEARDOWN, PLAY, PAUSE")
	case 1:
		return response(d.find("DESCRIBE").cseq, 200, sdpSprop, "Content-Type: application/sdp")
	case 2, 3:
		if d.setups == nil {
			for _, r := range w.reqs {
				if r.verb == "SETUP" {
					d.setups = append(d.setups, r)
				}
			}
		}
		if len(d.setups) != 2 {
			w.c.Failf("%d SETUP requests: %s", len(d.setups), w.history())
		}
		r := d.setups[k-2]
		return response(r.cseq, 200, "", transportOK(r), "Session: 4711;timeout=60")
	case 4, 6:
		return frame(byte(k), "payload of "+dialogueNames[k]+fmt.Sprint(k))
	case 5:
		return cmd("PLAY")
	case 7:
		return cmd("PAUSE")
	}
	return cmd("TEARDOWN")
}

// upTo plays the plain dialogue before step k.
func (d *dialogue) upTo(k int) {
	d.w.open(d.url, d.proto)
	for i := 0; i < k; i++ {
		b := d.next(i)
		if i == 4 || i == 6 {
			d.sent = append(d.sent, packet(b[1], b[4:]))
		}
		d.w.send(b)
		d.w.settle()
	}
}

// end ends the connection and checks how the session ends.
func (d *dialogue) end(kind int, what string) {
	w, c := d.w, d.w.c
	switch kind {
	case 0:
		w.conn.SimEnd(nil)
	case 1:
		w.conn.SimEnd(syscall.ECONNRESET)
	case 2:
		w.conn.SimFailWrites(syscall.EPIPE)
		w.conn.SimEnd(syscall.ETIMEDOUT)
		w.settle()
		w.conn.SimEnd(nil)
	}
	w.hold, w.holdStages = false, false
	w.settle()
	w.sleep(10 * time.Second)
	done := 0
	for _, s := range w.stages {
		if s == rtsp.StageDone {
			done++
		}
	}
	if done != 1 {
		c.Failf("%s, then the end of the connection: the done stage is reported %d times: %s", what, done, tailOf(w.history()))
	}
	if len(w.packets) < len(d.sent) {
		c.Failf("%s: %d of %d packets were delivered: %s", what, len(w.packets), len(d.sent), tailOf(w.history()))
	}
	for i, p := range d.sent {
		if w.packets[i].Channel != p.ch || string(w.packets[i].Payload) != p.data {
			c.Failf("%s: packet %d is %q", what, i, w.packets[i].Payload)
		}
	}
	live := 2 * len(w.net.UDP)
	if n := w.sim.SimLive(); n > live {
		c.Failf("%s, then the end of the connection: %d goroutines of the client do not end: %s", what, n, tailOf(w.history()))
	}
	c.Step(1)
	c.State(what, fmt.Sprint(w.stages))
	c.Logf("%s: %s", what, tailOf(w.history()))
}

func hostileBodies() []string {
	bs := []string{"x", "m=video", "m=video\r\n", "m=\r\na=control:x\r\n", "a=control:x", "m=video 0 RTP/AVP\r\na=rtpmap\r\na=fmtp\r\na=control\r\na=\r\n", "m=video 0 RTP/AVP 96\r\na=rtpmap:/\r\na=fmtp:96 =;;=;config\r\na=control:\r\n",
		"\x00\x01\xff\xfe", strings.Repeat("m=video 0 RTP/AVP 96\r\na=control:x\r\n", 100), "m=video 0 RTP/AVP 99999999999999999999\r\na=rtpmap:-1 H264/-90000/x\r\n", strings.Repeat("a", 100000), "m=audio 0 RTP/AVP 0\r\na=control:x\r\n", "\r\n\r\n\r\n", "=\n=\n==", "m=video 0 RTP/AVP 96\r\na=control:rtsp://\r\na=control:rtsp://%zz\r\n"}
	sets := [][]byte{{}, {0x67}, {0x68}, {0x67, 0xff, 0xff, 0xff}, {0x67, 0x64, 0, 0x1f}, {0x67, 0x64, 0, 0x1f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x68, 0x80}, {0x68, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x67, 0x42, 0, 0x0a, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}, {0x68, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}, {0x65, 1, 2, 3}, {0xe7, 0x42, 0, 0x0a}, {0x68, 0xe4, 0, 0, 0x03, 0xff, 0xff, 0xff}, {0x67, 0x4d, 0x00, 0x1f, 0x96, 0x35, 0x40, 0xa0, 0x14, 0x01, 0x6d, 0xc0, 0x40, 0x40, 0x50, 0xff, 0xff}}
	for _, s := range sets {
		bs = append(bs, "m=video 0 RTP/AVP 96\r\na=fmtp:96 sprop-parameter-sets="+base64.StdEncoding.EncodeToString(s)+"\r\na=control:x\r\n")
	}
	for _, s := range []string{"!!!!", "Z", ",,,", "Z00AH5Y1QKAUAW3AQEBQAAA", "====", "Zw==,aA==,Zw=="} {
		bs = append(bs, "m=video 0 RTP/AVP 96\r\na=fmtp:96 sprop-parameter-sets="+s+"\r\na=control:x\r\n")
	}
	return bs
}

var hostileTransports = []string{"", ";", "RTP/AVP/TCP;interleaved=", "RTP/AVP/TCP;interleaved", "RTP/AVP/TCP;interleaved=a-b", "RTP/AVP/TCP;interleaved=-1--2", "RTP/AVP/TCP;interleaved=99999999999999999999", "RTP/AVP;client_port=1-", "RTP/AVP;client_port=65535-65536;server_port=x", "RTP/AVP;unicast;port=0-0", "/;/;/", "RTP/AVP/UDP;multicast;destination=;ttl=;port=5-6;layers=-1", "destination", "a=b=c", "\x00\xff", "=", "interleaved=0-1-2-3", strings.Repeat(";x", 5000), "RTP/AVP;unicast;port=70000-70001", "RTP/AVP;port=-5", "RTP/AVP/TCP;unicast;interleaved=0-1", "RTP/AVP/TCP;interleaved=4-5", "RTP/AVP;unicast;client_port=50000-50001;server_port=6000-6001", "RTP/AVP;multicast;destination=239.0.0.1;port=50100-50101;ttl=1"}

var hostileHeaders = []string{"Session: ", "Session: ;", "Session: ;;;", "Session: " + strings.Repeat("s", 5000), "Content-Length: -1", "Content-Length: 99999999999999999999", "Content-Length: 2147483647", "Content-Length: 9223372036854775807", "Content-Length: 1048577", "Content-Length: 70000", "Content-Length: x", ":", ": x", "x", "\x00: \x00", "CSeq: ", "CSeq: -1", "CSeq: 0", "CSeq: 99999999999999999999", "CSeq: 2", "Public: ,,,", "Public: " + methods(12), "Public: " + methods(300), "Public: ", strings.Repeat("h", 3000) + ": v", "Content-Base: ::", "Connection: close"}

var hostileChallenges = []string{"", "Digest", "Digest ", "Basic", "Digest realm", "Digest realm=", "Digest realm=\"", "Digest realm=\"a\" nonce=\"b\"", "Digest nonce=\"b\"", "Digest realm=\"a\"", "Digest realm=\"a\", nonce=\"b\", qop=\"\"", "Digest realm=\"a\", nonce=\"b\", qop=\"auth", "Digest realm=\"a\", nonce=\"b\", algorithm=MD4", "Digest ,,,,", "Digest ====", "Digest realm=\"a\", realm=\"b\", nonce=\"c\"", "Bearer x", "Digest realm=\"a\", nonce=\"b\", qop=\"auth-int\"", "digest REALM=a,NONCE=b", "Basic realm=\"x\"", "Digest realm=\"\x00\xff\", nonce=\"\r", "Digest realm=\"" + strings.Repeat("r", 4000) + "\", nonce=\"n\""}

// methods is a list of methods of a server.
func methods(n int) string {
	l := []string{}
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprintf("METHOD%d", i))
	}
	return strings.Join(l, ", ")
}

var hostileBytes = []string{"\x00", "\r\n", "\n", "\r", "$", "$$", "$\x00", "$\x00\xff", "$\x00\x00", "RTSP/1.0", "RTSP/1.0 ", "RTSP/1.0 200", "RTSP/1.0 200 OK\r\n\r\n", "RTSP/1.0 200 OK\n\n", "RTSP/1.0 401 x\r\n\r\n", "RTSP/1.0 401 x\r\nCSeq: 1\r\n\r\n", "HTTP/1.0 200 OK\r\n\r\n", "OPTIONS * RTSP/1.0\r\nCSeq: 9\r\n\r\n", "ANNOUNCE rtsp://x RTSP/1.0\r\nCSeq: 3\r\nContent-Length: 4\r\n\r\nm=vi", ": ", "a: b\r\n", strings.Repeat("x", 3000), strings.Repeat("\n", 50), strings.Repeat("$\x00\x00\x00", 30), strings.Repeat("RTSP/1.0 200 OK\r\nCSeq: 1\r\n\r\n", 3), "\xff\xfe\xfd", "RTSP/1.0 000 \r\nCSeq: 0\r\n\r\n", "RTSP/1.0 100 Continue\r\nCSeq: 1\r\n\r\n", "$\xff\xff\xff" + strings.Repeat("y", 100)}

func init() {
	start := func(c *mc.C, w *world) *dialogue {
		return &dialogue{w: w, url: "rtsp://u:p@cam.example:554/live", proto: rtsp.ProtoTCP}
	}
	mut := func(c *mc.C, proto, quick int) {
		k := c.Choose(dialogueSteps)
		kinds := 2
		end := c.Choose(kinds)
		bubble(c, false, func(w *world) {
			d := start(c, w)
			d.proto = proto
			d.upTo(k)
			b := d.next(k)
			i := c.Choose(len(b))
			vals := []byte{0, '\n', ' ', ':', '$', 0xff, '9', b[i] + 1, b[i] ^ 0x20, ';', '='}
			nv := len(vals)
			if !c.Thorough && nv > quick {
				nv = quick
			}
			v := c.Choose(nv + 1)
			m := []byte(b)
			if v == nv {
				m = append(m[:i:i], m[i+1:]...)
			} else if m[i] == vals[v] {
				return
			} else {
				m[i] = vals[v]
			}
			w.send(string(m))
			w.settle()
			d.end(end, fmt.Sprintf("%s with byte %d changed: %s", dialogueNames[k], i, quoted(string(m))))
		})
	}
	add(mc.Check{
		ID:          "C31",
		Rule:        "an execution is one server, hostile from some point on, and the end of the connection; all are non-trivial",
		Assumptions: []string{"the application takes what the session delivers in the end"},
		Drivers: []mc.Driver{
			{Name: "cut off", Split: 3, Bounds: "the dialogue of a session with two streams (nine server messages) ended at every byte of every message by end of stream, reset, or timeout with failing writes; interleaved and unicast",
				Body: func(c *mc.C) {
					k := c.Choose(dialogueSteps + 1)
					end := c.Choose(3)
					proto := protos[c.Choose(2)]
					bubble(c, false, func(w *world) {
						d := start(c, w)
						d.proto = proto
						d.upTo(k)
						what := "complete dialogue"
						if k < dialogueSteps {
							b := d.next(k)
							n := c.Choose(len(b))
							w.send(b[:n])
							if c.Bool() {
								w.settle()
							}
							what = fmt.Sprintf("%d bytes of %s", n, dialogueNames[k])
						}
						d.end(end, fmt.Sprintf("%s, proto %d, end %d", what, proto, end))
					})
				}},
			{Name: "changed bytes", Split: 3, Bounds: "the same dialogue with every single byte of every message removed or replaced by each of six (thorough eleven) others, then end of stream or reset",
				Body: func(c *mc.C) { mut(c, rtsp.ProtoTCP, 6) }},
			{Name: "changed bytes, unicast", Split: 3, Bounds: "the same for a unicast session, two (thorough eleven) replacements",
				Body: func(c *mc.C) { mut(c, rtsp.ProtoUnicast, 2) }},
			{Name: "junk", Split: 4, Bounds: "every sequence of one or two of 29 hostile byte strings in place of any message of the dialogue (thorough: three), after a packet in the same segment or not, then the end, with the application taking things at once or only at the end",
				Body: func(c *mc.C) {
					k := c.Choose(dialogueSteps + 1)
					first := c.Choose(len(hostileBytes))
					s := hostileBytes[first]
					n := 1
					if c.Thorough {
						n = 2
					}
					for i := 0; i < n; i++ {
						if j := c.Choose(len(hostileBytes) + 1); j > 0 {
							s += hostileBytes[j-1]
						} else {
							break
						}
					}
					pre := c.Bool()
					slow := c.Bool()
					bubble(c, false, func(w *world) {
						d := start(c, w)
						d.upTo(k)
						if k < dialogueSteps {
							d.next(k)
						}
						w.hold = slow
						if pre {
							p := packet(1, "before")
							d.sent = append(d.sent, p)
							s = p.bytes + s
						}
						w.send(s)
						w.settle()
						d.end(first%2, fmt.Sprintf("%s in place of %s, slow %v", quoted(s), append(dialogueNames, "the end")[k], slow))
					})
				}},
			{Name: "headers", Split: 3, Bounds: "every answer of the dialogue with one of 27 hostile headers in front or at the end, 20 transports in either SETUP answer, 22 challenges at any answer, with and without credentials; then the dialogue goes on as far as it can, then the end",
				Body: func(c *mc.C) {
					ks := []int{0, 1, 2, 3, 5, 7, 8}
					k := ks[c.Choose(len(ks))]
					kind := c.Choose(5)
					end := c.Choose(2)
					bubble(c, false, func(w *world) {
						d := start(c, w)
						if c.Bool() {
							d.url = base
						}
						if kind >= 2 && c.Bool() {
							d.proto = rtsp.ProtoUnicast
						}
						d.upTo(k)
						b := d.next(k)
						i := strings.Index(b, "\r\n") + 2
						j := strings.Index(b, "\r\n\r\n") + 2
						switch kind {
						case 0:
							b = b[:i] + hostileHeaders[c.Choose(len(hostileHeaders))] + "\r\n" + b[i:]
						case 1:
							b = b[:j] + hostileHeaders[c.Choose(len(hostileHeaders))] + "\r\n" + b[j:]
						case 2:
							if k != 2 && k != 3 {
								return
							}
							b = b[:j] + "Transport: " + hostileTransports[c.Choose(len(hostileTransports))] + "\r\n" + b[j:]
						case 3, 4:
							ch := hostileChallenges[c.Choose(len(hostileChallenges))]
							b = strings.Replace(b, " 200 OK\r\n", " 401 no\r\nWWW-Authenticate: "+ch+"\r\n", 1)
							if kind == 4 {
								// and the same again if the request is repeated
								b += b
							}
						}
						w.send(b)
						w.settle()
						w.sleep(5 * time.Second)
						d.end(end, fmt.Sprintf("%s as %s", dialogueNames[k], quoted(b)))
					})
				}},
			{Name: "descriptions", Split: 3, Bounds: "36 hostile descriptions, then answers to whatever SETUP requests they cause in order, with a good or a hostile transport, three protocols; then the end",
				Body: func(c *mc.C) {
					bodies := hostileBodies()
					k := c.Choose(len(bodies))
					proto := protos[c.Choose(3)]
					good := c.Bool()
					end := c.Choose(2)
					noudp := c.Bool()
					bubble(c, false, func(w *world) {
						d := start(c, w)
						d.proto = proto
						w.net.NoUDP = noudp
						d.upTo(1)
						w.answer(w.last("DESCRIBE"), 200, bodies[k])
						for i, r := range append([]*request{}, w.reqs...) {
							if r.verb == "SETUP" {
								if good {
									w.answer(r, 200, "", transportOK(r), "Session: 1")
								} else {
									w.answer(r, 200, "", "Transport: "+hostileTransports[i%len(hostileTransports)])
								}
							}
						}
						d.end(end, fmt.Sprintf("description %s", quoted(bodies[k])))
					})
				}},
			{Name: "writes fail", Split: 3, Bounds: "writes start to fail before any message of the dialogue; then the message arrives, time passes, commands are issued, and the connection ends",
				Body: func(c *mc.C) {
					k := c.Choose(dialogueSteps + 1)
					proto := protos[c.Choose(2)]
					end := c.Choose(3)
					cmd := c.Choose(4)
					bubble(c, false, func(w *world) {
						d := start(c, w)
						d.proto = proto
						d.upTo(k)
						b := ""
						if k < dialogueSteps {
							b = d.next(k)
						}
						w.conn.SimFailWrites(syscall.EPIPE)
						if b != "" {
							if b[0] == '$' {
								d.sent = append(d.sent, packet(b[1], b[4:]))
							}
							w.send(b)
							w.settle()
						}
						w.sleep(5 * time.Second)
						if cmd < 3 {
							w.command(verbOf[cmd])
							w.settle()
							w.command(verbOf[cmd])
							w.settle()
						}
						d.end(end, fmt.Sprintf("writes fail from %s, proto %d, command %d", append(dialogueNames, "the end")[k], proto, cmd))
					})
				}},
			{Name: "tunnel", Split: 2, Bounds: "opening over HTTP with every one of the hostile byte strings, every prefix of a good reply, and junk after a good reply, then the end or silence: no panic",
				Body: func(c *mc.C) {
					good := "HTTP/1.0 200 OK\r\nServer: x\r\n\r\n"
					s := ""
					switch c.Choose(3) {
					case 0:
						s = hostileBytes[c.Choose(len(hostileBytes))]
					case 1:
						s = good[:c.Choose(len(good))]
					case 2:
						s = good + hostileBytes[c.Choose(len(hostileBytes))]
					}
					end := c.Bool()
					bubble(c, false, func(w *world) {
						w.s = rtsp.NewSession()
						w.guard(func() {
							w.openErr = w.s.Open(base, rtsp.ProtoHTTP)
							w.opened = true
						})
						w.lenient = true
						w.settle()
						w.lenient = false
						w.send(s)
						if end {
							w.conn.SimEnd(nil)
						}
						w.judge()
						for i := 0; i < 5; i++ {
							time.Sleep(time.Second)
							w.judge()
							w.take()
						}
						c.Step(1)
						c.State(s, end)
						c.Logf("%q", s)
					})
				}},
		},
	})
}
