package sess

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/aboukirev/ouro/net/rtsp"
	"verif.local/harness/mc"
	"verif.local/harness/shim/vnet"
)

type field struct{ name, value, text string }

// reply is a response as it should be understood.
type reply struct {
	text   string
	status int
	line   string // status and reason, without blanks around
	cseq   int
	heads  []field
	body   []byte
}

// link opens a connection on which the pieces have arrived, followed by the end of the stream.
func (w *world) link(proto int, url string, pieces []string, end bool) (*rtsp.Conn, error) {
	w.net.OnDial = func(x *vnet.TCPConn) {
		w.conn = x
		for _, p := range pieces {
			x.SimFeed([]byte(p))
		}
		if end {
			x.SimEnd(nil)
		}
	}
	return rtsp.Dial(url, proto)
}

func quoted(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q...(%d bytes)", s[:300], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// matches compares what Unpack returned with the response.
func (r *reply) matches(c *mc.C, got *rtsp.Response, err error, how string) {
	if err != nil || got == nil {
		c.Failf("%s: response %s: error %v", how, quoted(r.text), err)
	}
	if got.StatusCode != r.status {
		c.Failf("%s: response %s: status %d", how, quoted(r.text), got.StatusCode)
	}
	if r.line != "" && got.Status != r.line {
		c.Failf("%s: response %s: status %q", how, quoted(r.text), got.Status)
	}
	if got.Cseq != r.cseq {
		c.Failf("%s: response %s: CSeq %d", how, quoted(r.text), got.Cseq)
	}
	for _, h := range r.heads {
		for _, n := range []string{h.name, strings.ToLower(h.name), strings.ToUpper(h.name), strings.Title(strings.ToLower(h.name))} {
			if v := got.Header.Get(n); v != h.value {
				c.Failf("%s: response %s: header %s is %q instead of %q", how, quoted(r.text), n, v, h.value)
			}
		}
	}
	if !bytes.Equal(got.Body, r.body) {
		c.Failf("%s: response %s: the body has %d bytes instead of %d: %s", how, quoted(r.text), len(got.Body), len(r.body), quoted(string(got.Body)))
	}
}

const sentinel = "$\x01\x00\x02RTSP/1.0 201 Next\r\nCSeq: 77\r\n\r\nzz"

// at checks that the connection is positioned at rest.
func at(c *mc.C, conn *rtsp.Conn, rest, how string) {
	for i := 0; i < len(rest); i++ {
		b, err := conn.ReadByte()
		if err != nil || b != rest[i] {
			c.Failf("%s: byte %d after the message is %q, %v instead of %q", how, i, b, err, rest[i])
		}
	}
	if b, err := conn.ReadByte(); err == nil {
		c.Failf("%s: byte %q after the end", how, b)
	}
}

func unpackAt(c *mc.C, r *reply, pieces []string, how string) {
	bubble(c, false, func(w *world) {
		conn, err := w.link(rtsp.ProtoTCP, base, pieces, true)
		if err != nil {
			c.Failf("dial: %v", err)
		}
		got, err := rtsp.Unpack(conn)
		r.matches(c, got, err, how)
		at(c, conn, sentinel, how+": "+quoted(r.text))
		c.Step(1 + len(pieces))
	})
}

// cut divides s at the positions.
func cut(s string, at ...int) []string {
	out := []string{}
	p := 0
	for _, a := range at {
		out = append(out, s[p:a])
		p = a
	}
	return append(out, s[p:])
}

func chunks(s string, n int) (out []string) {
	for len(s) > n {
		out = append(out, s[:n])
		s = s[n:]
	}
	return append(out, s)
}

// content fills a body with bytes that look like everything else on the connection.
func content(n int) []byte {
	b := make([]byte, n)
	pat := "\r\n\r\nRTSP/1.0 200 OK\r\nCSeq: 1\r\n\r\n$\x00\x00\x04\xff\x00m=video"
	for i := range b {
		b[i] = pat[(i+i/97)%len(pat)]
	}
	return b
}

func headLine(f field, style int) string {
	name := f.name
	switch style % 4 {
	case 1:
		name = strings.ToLower(name)
	case 2:
		name = strings.ToUpper(name)
	case 3:
		b := []byte(strings.ToLower(name))
		for i := 1; i < len(b); i += 2 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
		name = string(b)
	}
	sep := []string{": ", ":", ":  \t", " : "}[style/4%4]
	return name + sep + f.value + []string{"", " ", "\t"}[style/16%3]
}

const styles = 48

func makeReply(status int, reason string, eol func(i int) string, fs []field, style func(i int) int, body []byte, length bool) *reply {
	r := &reply{status: status, body: body, heads: fs}
	line := fmt.Sprintf("RTSP/1.0 %03d", status)
	if reason != "\x00" {
		line += " " + reason
	}
	r.line = strings.TrimSpace(strings.TrimPrefix(line, "RTSP/1.0"))
	b := line + eol(0)
	if length {
		fs = append(append([]field{}, fs...), field{name: "Content-Length", value: fmt.Sprint(len(body))})
		r.heads = fs
	}
	for i, f := range fs {
		b += headLine(f, style(i)) + eol(i+1)
		if strings.EqualFold(f.name, "CSeq") {
			fmt.Sscan(f.value, &r.cseq)
		}
	}
	r.text = b + eol(len(fs)+1) + string(body)
	return r
}

var eols = []func(i int) string{
	func(int) string { return "\r\n" },
	func(int) string { return "\n" },
	func(i int) string { return []string{"\r\n", "\n"}[i%2] },
	func(i int) string { return []string{"\n", "\r\n"}[i%2] },
}

var statusValues = []int{200, 401, 100, 204, 302, 454, 551, 599, 999, 101}
var reasonValues = []string{"OK", "\x00", "", "Not Found", "a: b  c/1.0 300", strings.Repeat("long ", 700)}
var otherFields = []field{
	{name: "Session", value: "12345678;timeout=60"},
	{name: "Transport", value: "RTP/AVP/TCP;unicast;interleaved=0-1;mode=\"PLAY\""},
	{name: "WWW-Authenticate", value: `Digest realm="a: b", nonce="c=="`},
	{name: "X-Empty", value: ""},
	{name: "Date", value: "Thu, 01 Jan 1970 00:00:00 GMT"},
	{name: "Public", value: strings.Repeat("OPTIONS, DESCRIBE, ", 160) + "PLAY"},
}

// verdict is what a strict reading of the grammar says about bytes that end where the stream ends.
type verdict int

const (
	free verdict = iota // neither clearly right nor clearly wrong
	good
	bad
)

// judgeResponse reads text (with what follows it) as a response of the version; rest is what follows it.
func judgeResponse(text, version string) (v verdict, status int, heads []field, rest string) {
	lines := []string{}
	for {
		i := strings.IndexByte(text, '\n')
		if i < 0 {
			return bad, 0, nil, ""
		}
		l := text[:i]
		if i > 0 && l[i-1] == '\r' {
			l = l[:i-1]
		}
		text = text[i+1:]
		if len(lines) > 0 && l == "" {
			break
		}
		if len(lines) == 0 {
			if !strings.HasPrefix(l, version+" ") {
				return bad, 0, nil, ""
			}
			f := strings.SplitN(strings.TrimSpace(l[len(version)+1:]), " ", 2)
			s := f[0]
			if len(s) != 3 || strings.Trim(s, "0123456789") != "" {
				return bad, 0, nil, ""
			}
			if l[len(version)+1] == ' ' || strings.ContainsAny(s, "\r\t") {
				v = free
			} else {
				v = good
			}
			fmt.Sscan(s, &status)
		} else {
			i := strings.IndexByte(l, ':')
			switch {
			case strings.TrimSpace(l) == "":
				return free, status, nil, ""
			case i < 0:
				return bad, 0, nil, ""
			case strings.TrimSpace(l[:i]) == "" || strings.ContainsAny(strings.TrimSpace(l[:i]), " \t\r"):
				v = free
			default:
				n := strings.TrimSpace(l[:i])
				for _, h := range heads {
					if strings.EqualFold(h.name, n) {
						v = free
					}
				}
				heads = append(heads, field{name: n, value: strings.TrimSpace(l[i+1:])})
			}
		}
		lines = append(lines, l)
	}
	return v, status, heads, text
}

// sequences runs f for every sequence of up to n tokens after the prefix.
func sequences(prefix string, tokens []string, n int, f func(s string)) {
	f(prefix)
	if n == 0 {
		return
	}
	for _, t := range tokens {
		sequences(prefix+t, tokens, n-1, f)
	}
}

func init() {
	straight := func(int) int { return 0 }
	add(mc.Check{
		ID:          "C22",
		Rule:        "an execution is one response (or other byte string) and its segmentation; all are non-trivial",
		Assumptions: []string{"header names are tokens and occur once", "pauses inside a message are explored under C26"},
		Drivers: []mc.Driver{
			{Name: "forms", Split: 4, Bounds: "ten statuses, six reasons, four line end styles, 48 spellings of header lines (case, colon spacing, trailing space) for CSeq, another of six headers and Content-Length, three positions of CSeq, bodies of 0, 1 or 57 bytes or none",
				Body: func(c *mc.C) {
					st := statusValues[c.Choose(len(statusValues))]
					reason := reasonValues[c.Choose(len(reasonValues))]
					el := eols[c.Choose(len(eols))]
					sty := c.Choose(styles)
					pos := c.Choose(3)
					body, has := [][]byte{nil, {}, {'$'}, content(57)}, false
					k := c.Choose(4)
					has = k > 0
					cs := []string{"1", "7", "65536", "2147483647"}[(sty+pos)%4]
					fs := []field{otherFields[(sty+k)%6], otherFields[(sty+k+3)%6]}
					fs = append(fs[:pos:pos], append([]field{{name: "CSeq", value: cs}}, fs[pos:]...)...)
					r := makeReply(st, reason, el, fs, func(i int) int { return sty + i*5 }, body[k], has)
					unpackAt(c, r, []string{r.text + sentinel}, "in one piece")
					c.State(r.text)
					c.Logf("%q", quoted(r.text))
				}},
			{Name: "cuts", Split: 3, Bounds: "five responses with following bytes; cut at every position, every pair of positions (thorough also triples for the shortest two), and into pieces of every size up to 40",
				Body: func(c *mc.C) {
					rs := []*reply{
						makeReply(200, "OK", eols[0], []field{{name: "CSeq", value: "3"}}, straight, nil, false),
						makeReply(404, "\x00", eols[1], []field{{name: "CSeq", value: "12"}}, straight, []byte("\r\n"), true),
						makeReply(200, "OK", eols[0], []field{{name: "CSeq", value: "3"}, {name: "Session", value: "a;b"}}, straight, content(40), true),
						makeReply(401, "Un", eols[1], []field{{name: "X-Empty", value: ""}, {name: "CSeq", value: "123456"}}, func(i int) int { return 29 + i }, []byte("a"), true),
						makeReply(302, "", eols[2], []field{{name: "CSeq", value: "9"}, {name: "Location", value: "rtsp://a/b:c"}}, func(i int) int { return 5 }, nil, true),
					}
					k := c.Choose(len(rs))
					r := rs[k]
					s := r.text + sentinel
					var ps []string
					switch m := c.Choose(4); m {
					case 0:
						ps = chunks(s, 1+c.Choose(40))
					case 1:
						ps = cut(s, 1+c.Choose(len(s)-1))
					case 2:
						a := 1 + c.Choose(len(s)-2)
						ps = cut(s, a, a+1+c.Choose(len(s)-a-1))
					case 3:
						if k > 1 || !c.Thorough {
							return
						}
						a := 1 + c.Choose(len(s)-3)
						b := a + 1 + c.Choose(len(s)-a-2)
						ps = cut(s, a, b, b+1+c.Choose(len(s)-b-1))
					}
					unpackAt(c, r, ps, fmt.Sprintf("in pieces %d", len(ps)))
					c.State(r.text, fmt.Sprint(ps))
					c.Logf("%q", ps)
				}},
			{Name: "phrases", Split: 3, Bounds: "all reason phrases of up to 5 (thorough 6) characters over letter, digit, blank, TAB, colon, slash and a letter beyond ASCII, CRLF and LF in turn",
				Body: func(c *mc.C) {
					abc := []string{"", "a", "2", " ", "\t", ":", "/", "\u00e9"}
					head := abc[c.Choose(8)] + abc[c.Choose(8)] + abc[c.Choose(8)]
					n, top := int64(0), 2
					if c.Thorough {
						top = 3
					}
					sequences(head, abc[1:], top, func(reason string) {
						n++
						r := makeReply(statusValues[n%10], reason, eols[n%2], []field{{name: "CSeq", value: "3"}}, straight, nil, false)
						unpackAt(c, r, []string{r.text + sentinel}, "phrase")
						c.State(reason)
					})
					c.Count(n, n)
					c.Logf("%q", head)
				}},
			{Name: "bodies", Split: 2, Bounds: "bodies of every length 0 to 300, around 1024, 2048, 4096 and 65536 (thorough every length to 5000), with a head of two sizes, whole or in pieces of 1, 3, 536, 1460, 2048 bytes",
				Body: func(c *mc.C) {
					n := c.Choose(301 + 4*41)
					if n > 300 {
						n -= 301
						n = []int{1024, 2048, 4096, 65536}[n/41] - 20 + n%41
					}
					if c.Thorough && c.Choose(2) == 1 {
						n = c.Choose(5000)
					}
					if n > 65536 {
						return
					}
					fs := []field{{name: "CSeq", value: "5"}}
					if c.Bool() {
						fs = append(fs, otherFields[5])
					}
					r := makeReply(200, "OK", eols[0], fs, straight, content(n), true)
					k := c.Choose(6)
					s := r.text + sentinel
					ps := []string{s}
					if k > 0 {
						size := []int{1, 3, 536, 1460, 2048}[k-1]
						if size < 5 && n > 5000 {
							size += 500
						}
						ps = chunks(s, size)
					}
					unpackAt(c, r, ps, fmt.Sprintf("body of %d bytes in %d pieces", n, len(ps)))
					c.State(n, k, len(fs))
					c.Logf("body of %d bytes in %d pieces", n, len(ps))
				}},
			{Name: "streams", Split: 3, Bounds: "every sequence of up to three of six responses back to back, whole, byte by byte or in pieces of 7 bytes: each Unpack returns the next one",
				Body: func(c *mc.C) {
					rs := []*reply{
						makeReply(200, "OK", eols[0], []field{{name: "CSeq", value: "3"}}, straight, nil, false),
						makeReply(404, "\x00", eols[1], []field{{name: "CSeq", value: "12"}}, straight, []byte("\r\n"), true),
						makeReply(200, "OK", eols[0], []field{{name: "CSeq", value: "4"}, {name: "Session", value: "a;b"}}, straight, content(150), true),
						makeReply(401, "Un", eols[3], []field{{name: "CSeq", value: "1"}}, straight, nil, true),
						makeReply(200, "OK", eols[0], []field{otherFields[5], {name: "CSeq", value: "8"}}, straight, content(2100), true),
						makeReply(500, "Oops", eols[0], nil, straight, nil, false),
					}
					n := 1 + c.Choose(3)
					seq := []*reply{}
					s := ""
					for i := 0; i < n; i++ {
						r := rs[c.Choose(len(rs))]
						seq = append(seq, r)
						s += r.text
					}
					k := c.Choose(3)
					s += sentinel
					ps := []string{s}
					if k > 0 {
						ps = chunks(s, []int{1, 7}[k-1])
					}
					bubble(c, false, func(w *world) {
						conn, err := w.link(rtsp.ProtoTCP, base, ps, true)
						if err != nil {
							c.Failf("dial: %v", err)
						}
						for i, r := range seq {
							got, err := rtsp.Unpack(conn)
							r.matches(c, got, err, fmt.Sprintf("response %d of %s", i, quoted(s)))
						}
						at(c, conn, sentinel, quoted(s))
						c.Step(n)
						c.State(s, k)
						c.Logf("%s", quoted(s))
					})
				}},
			{Name: "malformed", Split: 2, Bounds: "60 heads that are not a response of the version with three digit status and well-formed headers, and every proper prefix of four responses followed by the end of the stream or an error: an error, no panic",
				Body: func(c *mc.C) {
					text := ""
					var end error
					if c.Bool() {
						text = badHeads("RTSP/1.0", []string{"RTSP/1.1", "RTSP/2.0", "RTSP/1.00", "RTSP/1", "HTTP/1.0", "RTSP", "XRTSP/1.0", "RTSP/1.0x", " RTSP/1.0"}, c)
					} else {
						rs := []*reply{
							makeReply(200, "OK", eols[0], []field{{name: "CSeq", value: "3"}}, straight, nil, false),
							makeReply(200, "OK", eols[0], []field{{name: "CSeq", value: "3"}, {name: "Session", value: "a;b"}}, straight, content(60), true),
							makeReply(404, "\x00", eols[1], []field{{name: "CSeq", value: "12"}}, straight, []byte("\r\n"), true),
							makeReply(200, "OK", eols[0], []field{otherFields[5], {name: "CSeq", value: "8"}}, straight, content(30), true),
						}
						s := rs[c.Choose(4)].text
						text = s[:c.Choose(len(s))]
						if c.Bool() {
							end = errors.New("connection reset by peer")
						}
					}
					bubble(c, false, func(w *world) {
						conn, err := w.link(rtsp.ProtoTCP, base, []string{text}, false)
						if err != nil {
							c.Failf("dial: %v", err)
						}
						w.conn.SimEnd(end)
						got, err := rtsp.Unpack(conn)
						if err == nil {
							c.Failf("%s, then the end (%v): no error but %+v", quoted(text), end, got)
						}
						c.Step(1)
						c.State(text, fmt.Sprint(end))
						c.Logf("%q: %v", text, err)
					})
				}},
			{Name: "lengths", Split: 1, Bounds: "Content-Length values from 20 hostile ones with a short body and the end of the stream: an error or a body of what is there, no panic",
				Body: func(c *mc.C) {
					v := []string{"-1", "-9223372036854775808", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "2147483648", "4294967296", "1e3", "0x10", "abc", "", "5 5", "+3", "1048577", "1073741824", "65537", "4", "003", "-0", "2147483647"}[c.Choose(20)]
					bubble(c, false, func(w *world) {
						text := "RTSP/1.0 200 OK\r\nCSeq: 1\r\nContent-Length: " + v + "\r\n\r\nabc"
						conn, err := w.link(rtsp.ProtoTCP, base, []string{text}, true)
						if err != nil {
							c.Failf("dial: %v", err)
						}
						got, err := rtsp.Unpack(conn)
						if err == nil && (got.StatusCode != 200 || got.Cseq != 1 || len(got.Body) > 3) {
							c.Failf("%q: %+v", text, got)
						}
						if v == "003" && (err != nil || string(got.Body) != "abc") {
							c.Failf("%q: %+v %v", text, got, err)
						}
						if (v == "4" || v == "65537") && err == nil {
							c.Failf("%q: a body of 3 bytes for %s", text, v)
						}
						c.Step(1)
						c.State(v)
						c.Logf("%q: %v", v, err)
					})
				}},
			{Name: "tokens", Split: 2, Bounds: "every sequence of up to 6 (thorough 7) tokens of ten as the start of a message, and as its headers after a status line, judged by an independent reader of the grammar",
				Body: func(c *mc.C) { tokenRun(c, "RTSP/1.0", rtsp.ProtoTCP) }},
		},
	})

	// ---- the HTTP tunnel
	add(mc.Check{
		ID:          "C33",
		Rule:        "an execution is one reply to the GET and its segmentation; all are non-trivial",
		Assumptions: []string{"no pauses longer than the read timeout inside the reply", "a well-formed reply has status 200"},
		Drivers: []mc.Driver{
			{Name: "replies", Split: 4, Bounds: "six reasons, four line end styles, 48 spellings of header lines, 0 to 3 headers, whole, in two pieces cut anywhere, or in pieces of 1 to 5 bytes",
				Body: func(c *mc.C) {
					reason := reasonValues[c.Choose(len(reasonValues))]
					el := eols[c.Choose(len(eols))]
					sty := c.Choose(styles)
					n := c.Choose(4)
					fs := []field{{name: "Content-Type", value: "application/x-rtsp-tunnelled"}, {name: "Server", value: "a: b/1.0"}, {name: "X-Empty", value: ""}}[:n]
					r := makeReply(200, reason, el, fs, func(i int) int { return sty + i*5 }, nil, false)
					s := strings.Replace(r.text, "RTSP/1.0", "HTTP/1.0", 1) + sentinel
					var ps []string
					switch k := c.Choose(7); k {
					case 0:
						ps = []string{s}
					case 6:
						if len(s) > 1000 || sty%7 != 0 {
							return
						}
						ps = cut(s, 1+c.Choose(len(s)-1))
					default:
						ps = chunks(s, k)
					}
					bubble(c, false, func(w *world) {
						conn, err := w.link(rtsp.ProtoHTTP, "rtsp://u:p@cam.example/live", ps, true)
						if err != nil {
							c.Failf("reply %q in %d pieces: %v", s, len(ps), err)
						}
						at(c, conn, sentinel, quoted(s))
						tunnelGET(c, w, "rtsp://cam.example:554/live")
						c.Step(1 + len(ps))
						c.State(fmt.Sprintf("%q", ps))
						c.Logf("%q", quoted(s))
					})
				}},
			{Name: "long", Split: 1, Bounds: "header lines of every length from 1 to 4200 around the 2048 byte buffer, steps of 1 near multiples of 1024",
				Body: func(c *mc.C) {
					n := c.Choose(4 * 41)
					n = (n/41+1)*1024 - 20 + n%41
					s := "HTTP/1.0 200 OK\r\nX-Long: " + strings.Repeat("v", n) + "\r\nA: b\r\n\r\n" + sentinel
					bubble(c, false, func(w *world) {
						conn, err := w.link(rtsp.ProtoHTTP, base, []string{s}, true)
						if err != nil {
							c.Failf("header of %d bytes: %v", n, err)
						}
						at(c, conn, sentinel, fmt.Sprintf("header of %d bytes", n))
						c.Step(1)
						c.State(n)
					})
				}},
			{Name: "malformed", Split: 2, Bounds: "heads that are not an HTTP/1.0 reply with three digit status and well-formed headers, and every proper prefix of two replies followed by the end of the stream, by an error, or by silence: opening fails",
				Body: func(c *mc.C) {
					text := ""
					k := c.Choose(4)
					if k == 0 {
						text = badHeads("HTTP/1.0", []string{"HTTP/1.1", "HTTP/2", "HTTP/0.9", "RTSP/1.0", "HTTP/1.00", "HTTP", "XHTTP/1.0", "HTTP/1.0x", " HTTP/1.0"}, c)
					} else {
						s := []string{"HTTP/1.0 200 OK\r\nServer: x\r\nContent-Type: application/x-rtsp-tunnelled\r\n\r\n", "HTTP/1.0 200\n\n"}[c.Choose(2)]
						text = s[:c.Choose(len(s))]
					}
					bubble(c, false, func(w *world) {
						w.net.OnDial = func(x *vnet.TCPConn) {
							x.SimFeed([]byte(text))
							switch k {
							case 0, 1:
								x.SimEnd(nil)
							case 2:
								x.SimEnd(errors.New("connection reset by peer"))
							}
						}
						_, err := rtsp.Dial(base, rtsp.ProtoHTTP)
						if err == nil {
							c.Failf("reply %q, then the end (%d): opened", text, k)
						}
						c.Step(1)
						c.State(text, k)
						c.Logf("%q: %v", text, err)
					})
				}},
			{Name: "tokens", Split: 2, Bounds: "every sequence of up to 6 (thorough 7) tokens of ten as the start of a reply, and as its headers after a status line, judged by an independent reader of the grammar",
				Body: func(c *mc.C) { tokenRun(c, "HTTP/1.0", rtsp.ProtoHTTP) }},
			{Name: "post", Split: 2, Bounds: "five URLs and four cookies: POST compared with GET",
				Body: func(c *mc.C) {
					uri := []string{base, "rtsp://h:554/a?b=c&d", "*", "rtsp://h:554/a%20b", "rtsp://[::1]:554/"}[c.Choose(5)]
					cookie := []string{"0123456789abcdef", "x", "0", "ffffffffffffffff"}[c.Choose(4)]
					get, post := string(rtsp.ConnectHTTP("GET", uri, cookie)), string(rtsp.ConnectHTTP("POST", uri, cookie))
					g, e1 := tunnelHead(get)
					p, e2 := tunnelHead(post)
					if e1 != "" || e2 != "" {
						c.Failf("%s %s: %q %q", e1, e2, get, post)
					}
					if g["\x00"] != "GET "+uri+" HTTP/1.0" || p["\x00"] != "POST "+uri+" HTTP/1.0" {
						c.Failf("request lines %q and %q", g["\x00"], p["\x00"])
					}
					if !digits(p["content-length"]) || g["content-length"] != "" {
						c.Failf("content lengths %q and %q", g["content-length"], p["content-length"])
					}
					for _, m := range []map[string]string{g, p} {
						if m["x-sessioncookie"] != cookie || m["accept"] != "application/x-rtsp-tunnelled" {
							c.Failf("cookie %q, accept %q", m["x-sessioncookie"], m["accept"])
						}
						delete(m, "content-length")
						delete(m, "\x00")
					}
					if fmt.Sprint(g) != fmt.Sprint(p) {
						c.Failf("GET %q and POST %q differ", get, post)
					}
					c.Step(2)
					c.State(uri, cookie)
					c.Logf("%q", post)
				}},
		},
	})
}

func digits(s string) bool { return s != "" && strings.Trim(s, "0123456789") == "" }

// tunnelHead reads the head of a tunnel request; its first line is under the name \x00.
func tunnelHead(s string) (map[string]string, string) {
	m := map[string]string{}
	if !strings.HasSuffix(s, "\r\n\r\n") || strings.Index(s, "\r\n\r\n") != len(s)-4 {
		return m, "not one head ended by an empty line"
	}
	for i, l := range strings.Split(strings.TrimSuffix(s, "\r\n\r\n"), "\r\n") {
		if i == 0 {
			m["\x00"] = l
			continue
		}
		k := strings.IndexByte(l, ':')
		if k <= 0 || strings.ContainsAny(l[:k], " \t") || strings.ContainsAny(l, "\r\n") {
			return m, fmt.Sprintf("header line %q", l)
		}
		n := strings.ToLower(l[:k])
		if _, dup := m[n]; dup {
			return m, "header " + n + " twice"
		}
		m[n] = strings.TrimSpace(l[k+1:])
	}
	return m, ""
}

func tunnelGET(c *mc.C, w *world, uri string) {
	sent := ""
	for _, x := range w.conn.SimSent(0) {
		sent += string(x.Data)
	}
	m, e := tunnelHead(sent)
	if e != "" {
		c.Failf("the tunnel request %q: %s", sent, e)
	}
	f := strings.Split(m["\x00"], " ")
	if len(f) != 3 || f[0] != "GET" || f[2] != "HTTP/1.0" || !sameURI(f[1], uri) {
		c.Failf("the tunnel request line is %q", m["\x00"])
	}
	if m["x-sessioncookie"] == "" || m["accept"] != "application/x-rtsp-tunnelled" {
		c.Failf("the tunnel request has cookie %q and accepts %q", m["x-sessioncookie"], m["accept"])
	}
	if v, has := m["content-length"]; has {
		c.Failf("the GET has a content length %q", v)
	}
}

// badHeads chooses a head that must be refused, with everything after it in order.
func badHeads(version string, versions []string, c *mc.C) string {
	ok := "CSeq: 1\r\n\r\n"
	all := []string{"\r\n\r\n", "\n", " \r\n\r\n", version + "\r\n" + ok, version + "\n\n", "200 OK\r\n" + ok, ": x\r\n\r\n", "OK\r\n\r\n", "\x00\x01\x02\r\n\r\n", "PLAY rtsp://x RTSP/1.0\r\n" + ok}
	for _, v := range versions {
		all = append(all, v+" 200 OK\r\n"+ok)
	}
	for _, s := range []string{"", "2", "20", "2000", "20x", "x00", "abc", "-20", "+20", "2.0", "0x2", "2e1", "2 00", "20 0", "OK 200", "２００", "20\x00", "-200", "+200", "1_0", "99999999999999999999", "0200", "200;", "/1.0"} {
		all = append(all, version+" "+s+" OK\r\n"+ok)
		if s != "2 00" && s != "" {
			all = append(all, version+" "+s+"\r\n"+ok)
		}
	}
	for _, h := range []string{"CSeq 1", "x", "CSeq=1", "200 OK", "no colon here"} {
		all = append(all, version+" 200 OK\r\n"+h+"\r\n"+ok, version+" 200 OK\r\nCSeq: 1\r\n"+h+"\r\n\r\n", version+" 200 OK\nA: b\n"+h+"\nC: d\n\n")
	}
	return all[c.Choose(len(all))]
}

// tokenRun judges every short sequence of tokens.
func tokenRun(c *mc.C, version string, proto int) {
	start := c.Bool()
	tokens := []string{version, version + "1", " ", "200", "2", "x", "\r\n", "\n", ":", "-"}
	prefix := ""
	depth := 4
	if c.Thorough {
		depth = 5
	}
	if !start {
		tokens = []string{"CSeq", ":", " ", "5", "\r\n", "\n", "A", "\t", "Session", "\r\n\r\n"}
		prefix = version + " 200 OK\r\n"
	}
	a, b := c.Choose(len(tokens)+1), 0
	if a > 0 {
		prefix += tokens[a-1]
		if b = c.Choose(len(tokens) + 1); b > 0 {
			prefix += tokens[b-1]
		} else {
			depth = 0
		}
	} else {
		depth = 0
	}
	var n int64
	bubble(c, false, func(w *world) {
		sequences(prefix, tokens, depth, func(s string) {
			n++
			c.Tick()
			v, status, heads, rest := judgeResponse(s, version)
			w.net.Conns, w.net.Dialed = nil, nil
			conn, err := w.link(proto, base, []string{s}, true)
			var got *rtsp.Response
			if proto == rtsp.ProtoTCP {
				if err != nil {
					c.Failf("dial: %v", err)
				}
				got, err = rtsp.Unpack(conn)
			}
			switch {
			case v == bad && err == nil:
				c.Failf("%q is accepted", s)
			case v == good && err != nil:
				c.Failf("%q is refused: %v", s, err)
			case v == good:
				if got != nil {
					r := &reply{text: s, status: status}
					for _, h := range heads {
						if strings.EqualFold(h.name, "CSeq") {
							if !digits(h.value) {
								r.cseq = got.Cseq
							} else {
								fmt.Sscan(h.value, &r.cseq)
							}
						}
						r.heads = append(r.heads, h)
					}
					r.matches(c, got, nil, "short")
				}
				at(c, conn, rest, quoted(s))
			}
		})
	})
	c.Count(n, n)
	c.Logf("all continuations of %q", prefix)
}
