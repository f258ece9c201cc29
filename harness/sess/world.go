// Package sess explores sessions of the client: the code runs on a simulated network and clock, and the harness
// plays the server, the application that takes packets and stages, and, where needed, the scheduler.
package sess

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
	"verif.local/harness/mc"
	"verif.local/harness/shim/vnet"
	"verif.local/harness/shim/vrt"
)

// Checks of this package.
var Checks []mc.Check

func add(c mc.Check) { Checks = append(Checks, c) }

var top *testing.T

// request is one request of the client as read from the wire.
type request struct {
	verb, uri string
	head      map[string]string // lower case names
	cseq      int
	raw       string
	at        time.Time
	n         int // position among all requests
}

// event is something the outside of the client can observe.
type event struct {
	kind  byte // r request, s stage, d packet
	req   *request
	stage int
	pkt   rtsp.RawPacket
	at    time.Time
}

func (e event) String() string {
	switch e.kind {
	case 'r':
		return fmt.Sprintf("%s#%d", e.req.verb, e.req.cseq)
	case 's':
		return "stage" + strconv.Itoa(e.stage)
	}
	return fmt.Sprintf("packet%d/%d", e.pkt.Channel, len(e.pkt.Payload))
}

type world struct {
	c      *mc.C
	sim    *vrt.Sim
	net    *vnet.SimNet
	s      *rtsp.Session
	conn   *vnet.TCPConn
	txn    int
	part   []byte   // bytes of an unfinished request
	stalls bool     // requests may be cut short
	cuts   []string // verbs of the requests that have followed these
	reqs   []*request
	evs    []event
	start  time.Time

	hold       bool // the application takes neither stages nor packets
	holdStages bool
	lenient    bool // do not judge how goroutines end or requests look
	opened     bool
	openErr    error
	stages     []int
	packets    []rtsp.RawPacket
	cmds       int // commands of the application that have returned
	cmdErrs    []error
	sched      bool            // a scheduler is in control
	env        func() []func() // actions of the server while it is
	dialed     bool            // look for the connection in the network
	port       int             // to which it has been made, if not 0
	t          *testing.T
}

// control hands the goroutines of the code to the scheduler.
func (w *world) control(fine bool) {
	w.sched = true
	w.sim.SimControl(fine)
}

// enter runs f in a bubble.  A test in which the race detector has found something ends the goroutine that runs it.
func enter(f func(t *testing.T)) {
	if !vrt.SimRace {
		synctest.Test(top, f)
		return
	}
	var out interface{}
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() { out = recover() }()
		synctest.Test(top, f)
	}()
	if <-done; out != nil {
		panic(out)
	}
}

// bubble runs one execution in a bubble of its own; panics of the body (verdicts, skips) come out of it.
func bubble(c *mc.C, controlled bool, body func(w *world)) {
	var out interface{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if strings.Contains(fmt.Sprint(r), "deadlock") {
					return // goroutines of the code that nothing can end; the body has had its say
				}
				if out == nil {
					out = r
				}
			}
		}()
		enter(func(t *testing.T) {
			w := &world{c: c, sim: vrt.SimReset(controlled), net: vnet.SimReset(), start: time.Now(), sched: controlled, t: t}
			w.net.OnDial = func(x *vnet.TCPConn) { w.conn = x }
			defer w.finish()
			defer func() { out = recover() }()
			body(w)
		})
	}()
	if out != nil {
		panic(out)
	}
}

// finish ends the goroutines of the code.
func (w *world) finish() {
	defer func() { recover() }()
	w.lenient = true
	w.sim.SimFree()
	for _, c := range w.net.Conns {
		c.SimEnd(nil)
		c.Close()
	}
	for i := 0; i < 50; i++ {
		synctest.Wait()
		if !w.drain() {
			break
		}
	}
	if w.s != nil && len(w.net.UDP) > 0 {
		go func() {
			defer func() { recover() }()
			w.s.Stop()
		}()
		for _, u := range w.net.UDP {
			u.Close()
		}
		synctest.Wait()
	}
}

// drain takes what the code offers without judging it.
func (w *world) drain() (more bool) {
	if w.s == nil {
		return
	}
	select {
	case <-w.s.State:
		more = true
	default:
	}
	if w.s.Conn != nil {
		for {
			select {
			case <-w.s.Data:
				more = true
				continue
			default:
			}
			break
		}
	}
	return
}

// judge fails when a goroutine of the code has ended in a way it never should.
func (w *world) judge() {
	if w.lenient {
		return
	}
	panics, kills := w.sim.SimTrouble()
	if len(panics) > 0 {
		w.c.Failf("panic in the client: %s\n%s", panics[0], w.history())
	}
	if len(kills) > 0 {
		w.c.Failf("the client runs away: %s\n%s", kills[0], w.history())
	}
}

// history is what has been observed so far.
func (w *world) history() string {
	out := []string{}
	for _, e := range w.evs {
		out = append(out, e.String())
	}
	return strings.Join(out, " ")
}

// settle lets the client run until it waits for something, taking everything it delivers on the way.
func (w *world) settle() {
	for i := 0; ; i++ {
		if w.sched {
			w.schedule()
		} else {
			synctest.Wait()
		}
		w.judge()
		more := w.pull()
		if w.take() {
			more = true
		}
		if !more {
			return
		}
		if i > 200000 {
			w.c.Failf("the client does not come to rest\n%s", tailOf(w.history()))
		}
	}
}

func tailOf(s string) string {
	if len(s) > 600 {
		return "..." + s[len(s)-600:]
	}
	return s
}

// take receives one thing the client offers to the application.
func (w *world) take() bool {
	if w.hold || w.s == nil {
		return false
	}
	got := false
	if w.s.Conn != nil {
	loop:
		for {
			select {
			case p := <-w.s.Data:
				w.packets = append(w.packets, p)
				w.evs = append(w.evs, event{kind: 'd', pkt: p, at: time.Now()})
				got = true
			default:
				break loop
			}
		}
	}
	if !w.holdStages {
		select {
		case st := <-w.s.State:
			w.stages = append(w.stages, st)
			w.evs = append(w.evs, event{kind: 's', stage: st, at: time.Now()})
			got = true
		default:
		}
	}
	return got
}

// pull reads the requests that have reached the wire.
func (w *world) pull() bool {
	if w.dialed {
		if w.conn = w.net.SimFirst(); w.port != 0 {
			w.conn = w.net.SimAt(w.port)
		}
	}
	if w.conn == nil {
		return false
	}
	ws := w.conn.SimSent(w.txn)
	if len(ws) == 0 {
		return false
	}
	w.txn += len(ws)
	for _, x := range ws {
		if w.stalls && len(w.part) > 0 && startsRequest.Match(x.Data) {
			w.part = nil // of a request that has been given up
			w.cuts = append(w.cuts, strings.Fields(string(x.Data))[0])
		}
		w.part = append(w.part, x.Data...)
		for {
			i := strings.Index(string(w.part), "\r\n\r\n")
			if i < 0 {
				break
			}
			raw := string(w.part[:i+4])
			w.part = w.part[i+4:]
			r, e := parseRequest(raw)
			if e != "" && !w.lenient {
				w.c.Failf("malformed request on the wire: %s\n%s", e, raw)
			}
			r.at = x.At
			r.n = len(w.reqs)
			w.reqs = append(w.reqs, r)
			w.evs = append(w.evs, event{kind: 'r', req: r, at: x.At})
		}
	}
	return true
}

var startsRequest = regexp.MustCompile(`^[A-Z_]+ rtsp://`)

func parseRequest(raw string) (*request, string) {
	r := &request{raw: raw, head: map[string]string{}}
	lines := strings.Split(strings.TrimSuffix(raw, "\r\n\r\n"), "\r\n")
	f := strings.Split(lines[0], " ")
	if len(f) != 3 || f[2] != "RTSP/1.0" || f[0] == "" || f[1] == "" || strings.ToUpper(f[0]) != f[0] {
		return r, fmt.Sprintf("request line %q", lines[0])
	}
	r.verb, r.uri = f[0], f[1]
	for _, l := range lines[1:] {
		i := strings.IndexByte(l, ':')
		if i <= 0 || strings.ContainsAny(l[:i], " \t") || strings.ContainsAny(l, "\r\n") {
			return r, fmt.Sprintf("header line %q", l)
		}
		k := strings.ToLower(l[:i])
		if _, dup := r.head[k]; dup {
			return r, fmt.Sprintf("header %s twice", k)
		}
		r.head[k] = strings.TrimSpace(l[i+1:])
	}
	n, err := strconv.Atoi(r.head["cseq"])
	if err != nil || n < 0 {
		return r, fmt.Sprintf("CSeq %q", r.head["cseq"])
	}
	r.cseq = n
	if v, ok := r.head["content-length"]; ok && v != "0" {
		return r, fmt.Sprintf("Content-Length %q", v)
	}
	return r, ""
}

// rest describes a request apart from what a repetition may change.
func (r *request) rest() string {
	ks := []string{}
	for k, v := range r.head {
		if k != "authorization" && k != "session" {
			ks = append(ks, k+"="+v)
		}
	}
	sort.Strings(ks)
	return r.verb + " " + r.uri + " " + strings.Join(ks, "|")
}

// guard runs code of the client in a goroutine of the application.
func (w *world) guard(f func()) {
	vrt.Go(f)
}

// open starts a session the way an application does.
func (w *world) open(url string, proto int) {
	w.s = rtsp.NewSession()
	s := w.s
	w.guard(func() {
		err := s.Open(url, proto)
		w.openErr = err
		w.opened = true
	})
	w.settle()
}

// command issues a command from a goroutine of the application.
func (w *world) command(verb string) {
	s := w.s
	w.guard(func() {
		var err error
		switch verb {
		case "PLAY":
			err = s.Play()
		case "PAUSE":
			err = s.Pause()
		case "TEARDOWN":
			err = s.Teardown()
		case "DESCRIBE":
			err = s.Describe()
		case "OPTIONS":
			err = s.Options()
		}
		w.cmds++
		w.cmdErrs = append(w.cmdErrs, err)
	})
}

// send makes bytes arrive at the client in one segment.
func (w *world) send(b string) { w.conn.SimFeed([]byte(b)) }

// sleep lets simulated time pass.
func (w *world) sleep(d time.Duration) {
	time.Sleep(d)
	w.settle()
}

var reasons = map[int]string{200: "OK", 401: "Unauthorized", 404: "Not Found", 453: "Not Enough Bandwidth", 454: "Session Not Found", 461: "Unsupported Transport", 500: "Internal Server Error", 302: "Moved Temporarily"}

// response formats a response.
func response(cseq, status int, body string, head ...string) string {
	b := strings.Builder{}
	fmt.Fprintf(&b, "RTSP/1.0 %d %s\r\nCSeq: %d\r\n", status, reasons[status], cseq)
	for _, h := range head {
		b.WriteString(h + "\r\n")
	}
	if body != "" {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
	}
	b.WriteString("\r\n" + body)
	return b.String()
}

// frame formats an interleaved packet.
func frame(ch byte, payload string) string {
	return "$" + string([]byte{ch, byte(len(payload) >> 8), byte(len(payload))}) + payload
}

// answer sends a response to a request and lets the client act on it.
func (w *world) answer(r *request, status int, body string, head ...string) {
	w.send(response(r.cseq, status, body, head...))
	w.settle()
}

// last returns the most recent request, which has to be the given method.
func (w *world) last(verb string) *request {
	if len(w.reqs) == 0 || w.reqs[len(w.reqs)-1].verb != verb {
		w.c.Failf("no %s request was sent: %s", verb, w.history())
	}
	return w.reqs[len(w.reqs)-1]
}

// since returns the requests from number n on.
func (w *world) since(n int) []*request { return w.reqs[n:] }

// video is a description with one video section per control URL.
func video(controls ...string) string {
	b := "v=0\r\no=- 1 1 IN IP4 127.0.0.1\r\ns=x\r\nt=0 0\r\n"
	for _, u := range controls {
		b += "m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=fmtp:96 packetization-mode=1\r\na=control:" + u + "\r\n"
	}
	return b
}

// transportOK is a server's confirmation of the transport a SETUP request offers.
func transportOK(r *request) string {
	return "Transport: " + r.head["transport"] + ";ssrc=1234ABCD"
}

// ready answers everything up to the ready stage in the plainest way.
func (w *world) ready(url string, proto int, sess string, controls ...string) {
	w.open(url, proto)
	w.answer(w.last("OPTIONS"), 200, "", "Public: OPTIONS, DESCRIBE, SETUP, PLAY, PAUSE, TEARDOWN")
	w.answer(w.last("DESCRIBE"), 200, video(controls...), "Content-Type: application/sdp")
	n := len(w.reqs)
	if n != 2+len(controls) {
		w.c.Failf("%d streams: %s", len(controls), w.history())
	}
	for _, r := range append([]*request{}, w.reqs[2:]...) {
		if r.verb != "SETUP" {
			w.c.Failf("no SETUP: %s", w.history())
		}
		h := []string{transportOK(r)}
		if sess != "" {
			h = append(h, "Session: "+sess)
		}
		w.answer(r, 200, "", h...)
	}
	if len(w.stages) != 1 || w.stages[0] != rtsp.StageReady {
		w.c.Failf("not ready after all answers: %s", w.history())
	}
}

const base = "rtsp://cam.example:554/live"

// more holds further drivers of checks, by id.
var more = map[string][]mc.Driver{}

func extend(id string, ds ...mc.Driver) { more[id] = append(more[id], ds...) }
