package sess

import (
	"fmt"
	"io"
	"strings"
	"syscall"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
	"verif.local/harness/mc"
	"verif.local/harness/shim/vnet"
)

// badURLs cannot be opened.
var badURLs = []string{
	"rtsp://cam.example:port/live", "rtsp://[2001:db8::1/live", "rtsp://cam.example:70000/live", ":", "rtsp://cam ex/live", "rtsp://cam.example/%zz",
	"rtsp://u:p@cam.example:5x/live", "rtsp://cam.example:-1/live", "rtsp://cam\x7f/live", "rtsp://cam.example:65536/", "%", "rtsp://u:p@cam.example:1:2/live", "://cam.example/live", "rtsp://cam.example/\n",
}

// failing is a session of which opening fails.
type failing struct {
	w    *world
	c    *mc.C
	hist []string
	dial func(x *vnet.TCPConn) // what happens on the next connection
	seen int                   // connections judged
}

func (f *failing) what() string { return strings.Join(f.hist, ", ") }

// call runs a method of the session in a goroutine of the application and gives it d of time.
func (f *failing) call(d time.Duration, m func() error) (err error) {
	done := false
	f.w.guard(func() { err = m(); done = true })
	f.w.settle()
	if !done && d > 0 {
		f.w.sleep(d)
	}
	if !done {
		f.c.Failf("%s: has not returned after %v", f.what(), d)
	}
	f.c.Step(1)
	return err
}

// open tries to open the session, which must fail and leave nothing behind.
func (f *failing) open(what, url string, proto int, get bool) {
	f.hist = append(f.hist, what)
	s := f.w.s
	if err := f.call(10*time.Second, func() error { return s.Open(url, proto) }); err == nil {
		f.c.Failf("%s: Open(%q) returned no error", f.what(), url)
	}
	conns := f.w.net.Conns
	for i, x := range conns {
		if i >= f.seen {
			ws := x.SimSent(0)
			if !get && len(ws) > 0 || len(ws) > 0 && !strings.HasPrefix(string(ws[0].Data), "GET ") || strings.Contains(fmt.Sprint(ws), "RTSP/1.0") {
				f.c.Failf("%s: sent %q", f.what(), ws)
			}
		}
		if !x.SimClosed() {
			f.c.Failf("%s: connection %d is still open", f.what(), i)
		}
	}
	f.seen = len(conns)
	f.quiet()
}

// quiet checks that nothing has been reported and nothing runs.
func (f *failing) quiet() {
	if len(f.w.stages) > 0 || len(f.w.packets) > 0 {
		f.c.Failf("%s: reports stages %v and %d packets", f.what(), f.w.stages, len(f.w.packets))
	}
	if n := f.w.sim.SimLive(); n != 0 {
		f.c.Failf("%s: %d goroutines are left", f.what(), n)
	}
	if n := len(f.w.net.UDP); n != 0 {
		f.c.Failf("%s: %d listeners", f.what(), n)
	}
}

// event makes opening or a command fail.
func (f *failing) event(k, i int) {
	w, s := f.w, f.w.s
	f.dial = nil
	w.net.Refuse = false
	switch k {
	case 0, 1:
		url := badURLs[(k*7+i)%len(badURLs)]
		f.open("Open of "+url, url, []int{rtsp.ProtoTCP, rtsp.ProtoUnicast, rtsp.ProtoHTTP}[i%3], false)
	case 2:
		w.net.Refuse = true
		f.open("refused", base, []int{rtsp.ProtoHTTP, rtsp.ProtoTCP, rtsp.ProtoUnicast}[i%3], false)
		w.net.Refuse = false
	case 3:
		f.dial = func(x *vnet.TCPConn) {
			x.SimFeed([]byte([]string{"RTSP/1.0 200 OK\r\n\r\n", "HTTP/1.0 2000 OK\r\n\r\n", "HTTP/1.0 200 OK\r\nx\r\n\r\n"}[i%3]))
		}
		f.open("malformed reply", base, rtsp.ProtoHTTP, true)
	case 4:
		f.dial = func(x *vnet.TCPConn) {
			x.SimFeed([]byte([]string{"", "HTTP/1.0 200", "HTTP/1.0 200 OK\r\nServer: x\r\n"}[i%3]))
			x.SimEnd([]error{nil, syscall.ECONNRESET, io.ErrUnexpectedEOF}[i%3])
		}
		f.open("closed instead of a reply", "rtsp://u:p@cam.example/live", rtsp.ProtoHTTP, true)
	case 5:
		f.dial = func(x *vnet.TCPConn) { x.SimFeed([]byte([]string{"", "HTTP", "HTTP/1.0 200 OK\r\nServer"}[i%3])) }
		f.open("no reply", base, rtsp.ProtoHTTP, true)
	case 6:
		f.dial = func(x *vnet.TCPConn) {
			x.SimFailWrites([]error{syscall.EPIPE, syscall.ECONNRESET, syscall.EHOSTUNREACH}[i%3])
		}
		f.open("GET cannot be written", base, rtsp.ProtoHTTP, true)
	default:
		m := []func() error{s.Play, s.Teardown, s.Options, s.Describe, s.Pause, s.KeepAlive}[(k-7)*2+i%2]
		f.hist = append(f.hist, []string{"Play", "Teardown", "Options", "Describe", "Pause", "KeepAlive"}[(k-7)*2+i%2])
		if err := f.call(0, m); err == nil {
			f.c.Failf("%s: no error", f.what())
		}
		f.quiet()
	}
	f.c.State(f.what())
}

func startFailing(c *mc.C, w *world) *failing {
	f := &failing{w: w, c: c}
	w.s = rtsp.NewSession()
	w.net.OnDial = func(x *vnet.TCPConn) {
		if f.dial != nil {
			f.dial(x)
		}
	}
	return f
}

// succeed opens the session after all and runs it up to the confirmation of PLAY.
func (f *failing) succeed(proto int) {
	w, c, s := f.w, f.c, f.w.s
	f.hist = append(f.hist, fmt.Sprintf("Open with protocol %d", proto))
	w.net.OnDial = func(x *vnet.TCPConn) { w.conn = x }
	if err := f.call(0, func() error { return s.Open(base, proto) }); err != nil {
		c.Failf("%s: %v", f.what(), err)
	}
	w.answer(w.last("OPTIONS"), 200, "", "Public: OPTIONS, DESCRIBE, SETUP, PLAY, PAUSE, TEARDOWN")
	w.answer(w.last("DESCRIBE"), 200, video("a", "b"), "Content-Type: application/sdp")
	if len(w.reqs) != 4 || w.reqs[2].verb != "SETUP" || w.reqs[3].verb != "SETUP" {
		c.Failf("%s: no SETUP requests: %s", f.what(), w.history())
	}
	for _, r := range append([]*request{}, w.reqs[2:]...) {
		w.answer(r, 200, "", transportOK(r), "Session: 4711")
	}
	if fmt.Sprint(w.stages) != "[1]" {
		c.Failf("%s: the stages reported are %v: %s", f.what(), w.stages, w.history())
	}
	if err := f.call(0, s.Play); err != nil {
		c.Failf("%s: Play returns %v", f.what(), err)
	}
	w.answer(w.last("PLAY"), 200, "")
	if fmt.Sprint(w.stages) != "[1 2]" {
		c.Failf("%s: the stages reported are %v: %s", f.what(), w.stages, w.history())
	}
	for i, r := range w.reqs {
		if r.cseq != i+1 && i < 4 {
			c.Failf("%s: request %d has number %d: %s", f.what(), i, r.cseq, w.history())
		}
		if i < 4 && r.head["session"] != "" || r.head["authorization"] != "" {
			c.Failf("%s: request %d is %q", f.what(), i, r.raw)
		}
	}
}

func init() {
	add(mc.Check{
		ID:          "C40",
		Rule:        "an execution is one history of attempts to open and of commands; all are non-trivial",
		Assumptions: []string{"a name resolves and a connection is made or refused at once"},
		Drivers: []mc.Driver{
			{Name: "histories", Split: 3, Bounds: "every sequence of 5 (thorough 6) of ten events on one session: Open of a bad URL, refused, tunnel refused in four ways, each of six commands; then Open succeeds (three protocols) and the session runs to PLAY",
				Body: func(c *mc.C) {
					n := 5
					if c.Thorough {
						n = 6
					}
					proto := protos[c.Choose(3)]
					var ks []int
					for i := 0; i < n; i++ {
						ks = append(ks, c.Choose(10))
					}
					bubble(c, false, func(w *world) {
						f := startFailing(c, w)
						for i, k := range ks {
							f.event(k, i+ks[0]+proto)
						}
						f.succeed(proto)
						c.Logf("%s", f.what())
					})
				}},
			{Name: "kinds", Split: 2, Bounds: "each of 14 URLs that cannot be opened with four protocols, and every other way of failing in each variant, one to 40 times; a command after each; then Open succeeds",
				Body: func(c *mc.C) {
					k := c.Choose(14 + 24)
					proto := c.Choose(4)
					n := []int{1, 2, 40}[c.Choose(3)]
					bubble(c, false, func(w *world) {
						f := startFailing(c, w)
						for i := 0; i < n; i++ {
							if k < 14 {
								f.open("Open of "+badURLs[k], badURLs[k], proto, false)
							} else {
								f.event(2+(k-14)/3, k+proto*(n-1))
							}
							f.event(7+i%3, i/3+k)
							f.hist = f.hist[len(f.hist)-1:]
						}
						f.succeed(protos[proto%3])
						c.Logf("%s", f.what())
					})
				}},
			{Name: "first request", Split: 1, Bounds: "the OPTIONS of Open cannot be written for one of four reasons, three protocols; then any two commands, and the connection ends",
				Body: func(c *mc.C) {
					why := []error{syscall.EPIPE, syscall.ECONNRESET, syscall.ETIMEDOUT, io.ErrClosedPipe}[c.Choose(4)]
					proto := protos[c.Choose(3)]
					a, b := c.Choose(5), c.Choose(5)
					end := c.Choose(3)
					bubble(c, false, func(w *world) {
						f := startFailing(c, w)
						f.dial = func(x *vnet.TCPConn) { w.conn = x; x.SimFailWrites(why) }
						f.hist = append(f.hist, fmt.Sprintf("Open with protocol %d, writes fail with %v", proto, why))
						s := w.s
						if err := f.call(10*time.Second, func() error { return s.Open(base, proto) }); err == nil {
							c.Failf("%s: no error", f.what())
						}
						for _, k := range []int{a, b} {
							f.hist = append(f.hist, fmt.Sprintf("command %d", k))
							if err := f.call(0, []func() error{s.Play, s.Teardown, s.Options, s.Describe, s.Pause}[k]); err == nil {
								c.Failf("%s: no error", f.what())
							}
							w.sleep(3 * time.Second)
						}
						if end > 0 {
							w.conn.SimEnd([]error{nil, syscall.ECONNRESET}[end-1])
							w.settle()
							w.sleep(5 * time.Second)
						}
						for _, st := range w.stages {
							if st != rtsp.StageDone || len(w.stages) > 1 {
								c.Failf("%s: the stages reported are %v", f.what(), w.stages)
							}
						}
						c.State(f.what(), end)
					})
				}},
			{Name: "commands", Split: 3, Bounds: "after ready over TCP or UDP, every sequence of 6 (thorough 7) of eight events: PLAY, PAUSE, TEARDOWN, two commands at once, the answer to the last command, 3 s pass, writes start to fail in one of two ways, writes work again",
				Body: func(c *mc.C) {
					n := 6
					if c.Thorough {
						n = 7
					}
					proto := protos[c.Choose(2)]
					var ks []int
					for i := 0; i < n; i++ {
						ks = append(ks, c.Choose(8))
					}
					bubble(c, false, func(w *world) {
						w.ready(base, proto, "4711", "a", "b")
						f := &failing{w: w, c: c}
						s := w.s
						fails := false
						count := func(verb string) int {
							n := 0
							for _, r := range w.reqs {
								if r.verb == verb {
									n++
								}
							}
							return n
						}
						answered := 0
						for i, k := range ks {
							f.hist = append(f.hist, []string{"PLAY", "PAUSE", "TEARDOWN", "PLAY and PAUSE at once", "answer", "3 s pass", "writes fail", "writes work"}[k])
							switch k {
							case 0, 1, 2:
								verb := verbOf[k]
								n := count(verb)
								err := f.call(0, []func() error{s.Play, s.Pause, s.Teardown}[k])
								if (err != nil) != fails {
									c.Failf("%s: the command returns %v", f.what(), err)
								}
								if d := count(verb) - n; d == 1 == fails || d > 1 {
									c.Failf("%s: %d requests for one command, which returns %v", f.what(), d, err)
								}
							case 3:
								n := count("PLAY") + count("PAUSE")
								var errs [2]error
								done := 0
								w.guard(func() { errs[0] = s.Play(); done++ })
								w.guard(func() { errs[1] = s.Pause(); done++ })
								w.settle()
								if done != 2 {
									c.Failf("%s: %d of the commands have returned", f.what(), done)
								}
								d := count("PLAY") + count("PAUSE") - n
								if (errs[0] != nil) != fails || (errs[1] != nil) != fails || !fails && d != 2 || fails && d != 0 {
									c.Failf("%s: the commands return %v, %d requests have been sent", f.what(), errs, d)
								}
							case 4:
								for j := len(w.reqs) - 1; j >= 4; j-- {
									if r := w.reqs[j]; r.verb != "OPTIONS" && r.cseq > answered {
										answered = r.cseq
										w.answer(r, 200, "")
										break
									}
								}
							case 5:
								w.sleep(3 * time.Second)
							case 6:
								fails = true
								w.conn.SimFailWrites([]error{syscall.EPIPE, syscall.ENOBUFS}[i%2])
							case 7:
								fails = false
								w.conn.SimFailWrites(nil)
							}
						}
						c.State(f.what(), proto)
					})
				}},
		},
	})
}
