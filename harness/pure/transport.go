package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/aboukirev/ouro/net/h264"
	"github.com/aboukirev/ouro/net/rtsp"
	"verif.local/harness/mc"
)

// ---- C20

const udpBase = 50000

// readTransport is an independent reader of a Transport value.
func readTransport(s string) (lower string, params map[string]string, err string) {
	f := strings.Split(s, ";")
	switch f[0] {
	case "RTP/AVP", "RTP/AVP/UDP":
		lower = "UDP"
	case "RTP/AVP/TCP":
		lower = "TCP"
	default:
		return "", nil, "starts with " + f[0]
	}
	params = map[string]string{}
	for _, p := range f[1:] {
		kv := strings.SplitN(p, "=", 2)
		if _, dup := params[kv[0]]; dup || kv[0] == "" {
			return "", nil, "has an empty or repeated parameter"
		}
		if len(kv) == 2 {
			params[kv[0]] = kv[1]
		} else {
			params[kv[0]] = ""
		}
	}
	return
}

func checkOffer(c *mc.C, proto, i int, s string) {
	lower, p, e := readTransport(s)
	if e != "" {
		c.Failf("transport %q offered for protocol %d stream %d %s", s, proto, i, e)
	}
	want := map[string]string{}
	lowerWant := "UDP"
	opt := ""
	switch proto {
	case rtsp.ProtoTCP, rtsp.ProtoHTTP:
		lowerWant = "TCP"
		want["interleaved"] = fmt.Sprintf("%d-%d", 2*i, 2*i+1)
		opt = "unicast"
	case rtsp.ProtoUnicast:
		want["unicast"] = ""
		want["client_port"] = fmt.Sprintf("%d-%d", udpBase+2*i, udpBase+2*i+1)
	case rtsp.ProtoMulticast:
		want["multicast"] = ""
		want["port"] = fmt.Sprintf("%d-%d", udpBase+2*i, udpBase+2*i+1)
	}
	if v, ok := p["mode"]; ok {
		if strings.Trim(v, `"`) != "PLAY" {
			c.Failf("transport %q offered for protocol %d stream %d", s, proto, i)
		}
		delete(p, "mode")
	}
	if opt != "" {
		delete(p, opt)
	}
	if lower != lowerWant || fmt.Sprint(p) != fmt.Sprint(want) {
		c.Failf("transport %q offered for protocol %d stream %d, should be %s %v", s, proto, i, lowerWant, want)
	}
}

type tparam struct {
	text  string
	apply func(t *rtsp.Transport)
	// free makes unspecified fields equal
	free func(got, want *rtsp.Transport)
}

func pairs(name string, f func(t *rtsp.Transport) *rtsp.Pair, a, b int) tparam {
	return tparam{fmt.Sprintf("%s=%d-%d", name, a, b), func(t *rtsp.Transport) { *f(t) = rtsp.Pair{One: a, Two: b} }, nil}
}

func single(name string, f func(t *rtsp.Transport) *rtsp.Pair, a int) tparam {
	return tparam{fmt.Sprintf("%s=%d", name, a), func(t *rtsp.Transport) { f(t).One = a }, func(g, w *rtsp.Transport) { f(w).Two = f(g).Two }}
}

var fInter = func(t *rtsp.Transport) *rtsp.Pair { return &t.Interleave }
var fPort = func(t *rtsp.Transport) *rtsp.Pair { return &t.Port }
var fClient = func(t *rtsp.Transport) *rtsp.Pair { return &t.ClientPort }
var fServer = func(t *rtsp.Transport) *rtsp.Pair { return &t.ServerPort }

// the first alternative of each group is the one used in permutations
func transportParams(tcp bool) [][]tparam {
	g := [][]tparam{
		{{"destination=10.0.0.1", func(t *rtsp.Transport) { t.Destination = "10.0.0.1" }, nil}, {"destination=Host.example", func(t *rtsp.Transport) { t.Destination = "Host.example" }, nil}, {"destination=a/b/udp", func(t *rtsp.Transport) { t.Destination = "a/b/udp" }, nil}, {"destination=a=b", func(t *rtsp.Transport) { t.Destination = "a=b" }, nil}},
		{{"source=192.168.1.64", func(t *rtsp.Transport) { t.Source = "192.168.1.64" }, nil}, {"source=fe80::1", func(t *rtsp.Transport) { t.Source = "fe80::1" }, nil}, {"source=/tcp/TCP", func(t *rtsp.Transport) { t.Source = "/tcp/TCP" }, nil}},
		{{"ssrc=4D2A8F01", func(t *rtsp.Transport) { t.SSRC = "4D2A8F01" }, nil}, {"ssrc=0000abcd", func(t *rtsp.Transport) { t.SSRC = "0000abcd" }, nil}},
		{{"append", func(t *rtsp.Transport) { t.IsAppend = true }, nil}},
		{{"layers=2", func(t *rtsp.Transport) { t.Layers = 2 }, nil}, {"layers=0", func(t *rtsp.Transport) { t.Layers = 0 }, nil}},
		{{`mode="PLAY"`, func(t *rtsp.Transport) { t.Mode = `"PLAY"` }, nil}, {"mode=record", func(t *rtsp.Transport) { t.Mode = "record" }, nil}},
	}
	if tcp {
		g = append(g, []tparam{pairs("interleaved", fInter, 4, 5), pairs("interleaved", fInter, 0, 1), pairs("interleaved", fInter, 254, 255), pairs("interleaved", fInter, 7, 3), single("interleaved", fInter, 9)})
	} else {
		g = append(g,
			[]tparam{pairs("client_port", fClient, 4588, 4589), pairs("client_port", fClient, 65534, 65535), single("client_port", fClient, 4590)},
			[]tparam{pairs("server_port", fServer, 6256, 6257), pairs("server_port", fServer, 1, 2), single("server_port", fServer, 6258)},
			[]tparam{pairs("port", fPort, 3456, 3457), single("port", fPort, 3458)},
			[]tparam{{"ttl=127", func(t *rtsp.Transport) { t.TTL = 127 }, nil}, {"ttl=0", func(t *rtsp.Transport) { t.TTL = 0 }, nil}, {"ttl=255", func(t *rtsp.Transport) { t.TTL = 255 }, nil}})
	}
	return g
}

func fullTransport(tcp bool) rtsp.Transport {
	t := rtsp.Transport{IsTCP: tcp, IsInterleaved: tcp, Interleave: rtsp.Pair{One: 10, Two: 11}, Port: rtsp.Pair{One: 20, Two: 21}, ClientPort: rtsp.Pair{One: 30, Two: 31},
		ServerPort: rtsp.Pair{One: 40, Two: 41}, Layers: 5, TTL: 6, Destination: "d", Source: "s", SSRC: "x", Mode: "PLAY"}
	return t
}

// sameTransport compares all parameters.
func sameTransport(a, b *rtsp.Transport) bool {
	return a.IsTCP == b.IsTCP && a.IsMulticast == b.IsMulticast && a.IsInterleaved == b.IsInterleaved && a.IsAppend == b.IsAppend && a.Interleave == b.Interleave &&
		a.Port == b.Port && a.ClientPort == b.ClientPort && a.ServerPort == b.ServerPort && a.Layers == b.Layers && a.TTL == b.TTL &&
		a.Destination == b.Destination && a.Source == b.Source && a.SSRC == b.SSRC && a.Mode == b.Mode
}

func transportDiff(a, b rtsp.Transport) string { return diff(a, b) }

func checkParse(c *mc.C, start rtsp.Transport, value string, ps []tparam) {
	t := start
	if err := t.Parse(value); err != nil {
		c.Failf("parsing %q: %v", value, err)
	}
	want := start
	for _, p := range ps {
		if p.apply != nil {
			p.apply(&want)
		}
	}
	for _, p := range ps {
		if p.free != nil {
			p.free(&t, &want)
		}
	}
	if !sameTransport(&t, &want) {
		c.Failf("parsing %q:%s", value, transportDiff(t, want))
	}
	c.Step(1)
}

// ---- C21

func checkRequest(c *mc.C, r *rtsp.Request) {
	type kv struct{ k, v string }
	var want []kv
	want = append(want, kv{"cseq", strconv.Itoa(r.Cseq)}, kv{"user-agent", rtsp.Agent}, kv{"content-length", "0"})
	explicit := false
	for k, v := range r.Header {
		want = append(want, kv{strings.ToLower(k), v})
		explicit = explicit || strings.EqualFold(k, "session")
	}
	if !explicit && r.Session != "" && r.Verb != rtsp.VerbOptions && r.Verb != rtsp.VerbSetup {
		want = append(want, kv{"session", r.Session})
	}
	if r.Auth != "" {
		want = append(want, kv{"authorization", r.Auth})
	}
	// Packing leaves the request as it is, so that it can be sent again.
	for i := 0; i < 2; i++ {
		s := string(r.Pack())
		c.Step(1)
		if !strings.HasSuffix(s, "\r\n\r\n") || strings.Index(s, "\r\n\r\n") != len(s)-4 {
			c.Failf("%+v packed as %q is not one message ending in an empty line", *r, s)
		}
		lines := strings.Split(s[:len(s)-4], "\r\n")
		if lines[0] != r.Verb+" "+r.URI+" RTSP/1.0" {
			c.Failf("%+v packed as %q: request line", *r, s)
		}
		var got []kv
		for _, l := range lines[1:] {
			if strings.ContainsAny(l, "\r\n") {
				c.Failf("%+v packed as %q: line ends", *r, s)
			}
			i := strings.IndexByte(l, ':')
			if i <= 0 || strings.ContainsAny(l[:i], " \t") {
				c.Failf("%+v packed as %q: malformed header %q", *r, s, l)
			}
			got = append(got, kv{strings.ToLower(l[:i]), strings.Trim(l[i+1:], " \t")})
		}
		less := func(x []kv) func(i, j int) bool {
			return func(i, j int) bool { return x[i].k+"\x00"+x[i].v < x[j].k+"\x00"+x[j].v }
		}
		sort.Slice(got, less(got))
		sort.Slice(want, less(want))
		if fmt.Sprint(got) != fmt.Sprint(want) {
			c.Failf("%+v packed as %q: headers are %v, should be %v", *r, s, got, want)
		}
	}
}

var verbs = []string{"OPTIONS", "DESCRIBE", "SETUP", "PLAY", "PAUSE", "TEARDOWN", "GET_PARAMETER", "SET_PARAMETER", "ANNOUNCE", "RECORD", "REDIRECT"}

// ---- C34

// feedSection is a section with parameter sets of its own.
func feedSection(i int) ([]sdpLine, *arrival, *arrival) {
	s := defaultSPS()
	s.id = uint32(i % 3)
	s.w = uint32(10 + i)
	b, _, fs := s.encode()
	p := ppsv{id: uint32(i%2 + 1), sps: s.id, qp: int32(i%20 - 3)}
	pb, _, fp := p.encode(1)
	sps := &arrival{name: fmt.Sprintf("SPS of section %d", i), sps: fs, id: s.id}
	pps := &arrival{name: fmt.Sprintf("PPS of section %d", i), pps: fp, id: p.id}
	pt := 96 + i%32
	return []sdpLine{mVideo(pt, ""), aRtpmap(pt, "H264", 90000, ""), aControl(fmt.Sprintf("track%d", i)),
		aFmtp(pt, ";", "", pSprop("sprop-parameter-sets", append([]byte{0x67}, refEnc(b)...), append([]byte{0x68}, refEnc(pb)...)))}, sps, pps
}

func init() {
	add(mc.Check{
		ID:          "C20",
		Rule:        "an execution is one family of transport values compared with an independent reading of the header",
		Assumptions: []string{"no blanks around parameters", "the second half of a pair given as a single number is not specified"},
		Drivers: []mc.Driver{
			{Name: "offer", Split: 2,
				Bounds: "4 lower protocols x streams 0..127",
				Body: func(c *mc.C) {
					proto := c.Choose(4)
					i := c.Choose(128)
					t := rtsp.NewTransport(proto, 2*i)
					checkOffer(c, proto, i, t.String())
					c.Step(1)
					c.State(proto, i)
					c.Logf("%s", t.String())
				}},
			{Name: "offers", Split: 1,
				Bounds: "4 lower protocols, each of streams 0..300 and 2^k-1 .. 2^k+1 up to 2^12 offered after each of the others (interleaved: as numbers), and again after that",
				Body: func(c *mc.C) {
					proto := c.Choose(4)
					nums := append([]int{}, around(9, 12, 1)...)
					for i := 0; i <= 300; i++ {
						nums = append(nums, i)
					}
					want := map[int]string{}
					for _, i := range nums {
						want[i] = rtsp.NewTransport(proto, 2*i).String()
						checkOffer(c, proto, i, want[i])
					}
					for _, i := range nums {
						for _, j := range nums {
							if got := rtsp.NewTransport(proto, 2*j).String(); got != want[j] {
								c.Failf("protocol %d: stream %d after stream %d is offered %q instead of %q", proto, j, i, got, want[j])
							}
							rtsp.NewTransport(proto, 2*i)
						}
						c.Step(len(nums))
						c.State(proto, i)
						c.Tick()
					}
				}},
			{Name: "roundtrip", Split: 3,
				Bounds: "3 kinds (interleaved, unicast, multicast) x all combinations of destination (3), source (3), channel or port pairs (5 x 3 server), append, ttl (4), layers (4), ssrc (3), mode (4), parsed into a default transport of the same kind and other numbers",
				Body: func(c *mc.C) {
					kind := c.Choose(3)
					t := *rtsp.NewTransport(kind, 6)
					t.Destination = []string{"", "10.1.2.3", "Host-1.example.org"}[c.Choose(3)]
					t.Source = []string{"", "0.0.0.0", "2001:db8::1"}[c.Choose(3)]
					pr := []rtsp.Pair{{One: 2, Two: 3}, {One: 1, Two: 2}, {One: 254, Two: 255}, {One: 65534, Two: 65535}, {One: 100, Two: 7}}[c.Choose(5)]
					switch kind {
					case 0:
						t.Interleave = pr
					case 1:
						t.ClientPort = pr
						t.ServerPort = []rtsp.Pair{{}, {One: 6970, Two: 6971}, {One: 1, Two: 1}}[c.Choose(3)]
					case 2:
						t.Port = pr
						t.TTL = []int{0, 1, 127, 255}[c.Choose(4)]
					}
					for _, t.IsAppend = range []bool{false, true} {
						for _, t.Layers = range []int{0, 1, 2, 10} {
							for _, t.SSRC = range []string{"", "0", "DeadBEEF"} {
								for _, t.Mode = range []string{"PLAY", "RECORD", `"PLAY,RECORD"`, "record"} {
									for q := 0; q < 2; q++ {
										s := t.String()
										g := *rtsp.NewTransport(kind, 40*q)
										if err := g.Parse(s); err != nil {
											c.Failf("%q (formatted from %+v): %v", s, t, err)
										}
										if !sameTransport(&g, &t) {
											c.Failf("%q parsed:%s", s, transportDiff(g, t))
										}
										c.Step(2)
										c.State(s)
									}
								}
							}
						}
					}
					c.Logf("%s", t.String())
				}},
			{Name: "orders", Split: 3,
				Bounds: "all orders of all subsets of 7 parameters for interleaved and of 5 (rotating) out of 10 for UDP, lower, upper or mixed case names, with none, or an empty field or one of five unknown parameters at every place, over a transport with every field set",
				Body: func(c *mc.C) {
					tcp := c.Bool()
					groups := transportParams(tcp)
					style := c.Choose(3)
					rot := 0
					n := 7
					if !tcp {
						rot = c.Choose(len(groups))
						n = 5
					}
					start := fullTransport(tcp)
					sub := c.Choose(1 << uint(n))
					var ps []tparam
					for i := 0; i < n; i++ {
						if sub>>uint(i)&1 == 1 {
							ps = append(ps, groups[(i+rot)%len(groups)][0])
						}
					}
					ord := permute(c, len(ps))
					first := "RTP/AVP"
					if tcp {
						first = "RTP/AVP/TCP"
					}
					list := []string{first}
					var sel []tparam
					for _, i := range ord {
						p := ps[i]
						sel = append(sel, p)
						kv := strings.SplitN(p.text, "=", 2)
						switch style {
						case 1:
							kv[0] = strings.ToUpper(kv[0])
						case 2:
							kv[0] = strings.Title(kv[0])
						}
						list = append(list, strings.Join(kv, "="))
					}
					v := strings.Join(list, ";")
					checkParse(c, start, v, sel)
					// empty fields and unknown parameters change nothing
					for i := 1; i <= len(list); i++ {
						for _, x := range []string{"", "x-unknown", "url=rtsp://host", "x=RTP/AVP/UDP", `src_addr="192.0.2.5:6256"/"192.0.2.5:6257"`, "y=1-2"} {
							l := append(append(append([]string{}, list[:i]...), x), list[i:]...)
							checkParse(c, start, strings.Join(l, ";"), sel)
						}
					}
					c.State(v)
					c.Logf("%s", v)
				}},
			{Name: "values", Split: 3,
				Bounds: "every alternative value of every parameter alone and in all pairs, protocol part with TCP, UDP or none in either case, unicast or multicast or neither, with unknown parameters in between",
				Body: func(c *mc.C) {
					tcp := c.Bool()
					groups := transportParams(tcp)
					start := fullTransport(tcp)
					a := c.Choose(len(groups))
					b := c.Choose(len(groups))
					for proto := 0; proto < 6; proto++ {
						first := []string{"RTP/AVP", "RTP/AVP/TCP", "RTP/AVP/UDP", "rtp/avp/tcp", "RTP/AVP/tcp", "rtp/avp/udp"}[proto]
						head := tparam{text: first}
						switch proto {
						case 1, 3, 4:
							head.apply = func(t *rtsp.Transport) { t.IsTCP = true }
						case 2, 5:
							head.apply = func(t *rtsp.Transport) { t.IsTCP = false }
						}
						for cast := 0; cast < 4; cast++ {
							if tcp && cast >= 2 {
								continue
							}
							ct := tparam{text: []string{"x-nothing", "unicast", "multicast", "MULTICAST"}[cast]}
							switch cast {
							case 1:
								ct.apply = func(t *rtsp.Transport) { t.IsMulticast = false }
							case 2, 3:
								ct.apply = func(t *rtsp.Transport) { t.IsMulticast = true }
							}
							for _, x := range groups[a] {
								for _, y := range groups[b] {
									sel := []tparam{head, ct, x}
									v := first + ";" + ct.text + ";" + x.text
									if a != b {
										sel = append(sel, y)
										v += ";unknown=5-6;" + y.text + ";other"
									}
									for _, multi := range []bool{false, !tcp} {
										s := start
										s.IsMulticast = multi
										checkParse(c, s, v, sel)
									}
									c.State(v)
								}
							}
						}
					}
				}},
			{Name: "malformed", Split: 2,
				Bounds: "13 malformed values of each of the 6 numeric parameters and of every parameter without a value, at every place between 4 valid parameters, in 2 letter cases",
				Body: func(c *mc.C) {
					name := []string{"interleaved", "client_port", "server_port", "port", "ttl", "layers"}[c.Choose(6)]
					at := c.Choose(5)
					bads := []string{"", "=", "=x", "=1x", "=-", "=x-2", "=0x10", "=1.5", "=99999999999999999999", "=one", "=a-b", "=1,2", "=\x00"}
					pair := name != "ttl" && name != "layers"
					if pair {
						bads = append(bads, "=1-", "=1-x", "=1-2x")
					}
					for _, bad := range bads {
						for _, up := range []bool{false, true} {
							n := name
							if up {
								n = strings.ToUpper(n)
							}
							rest := []string{"unicast", "client_port=1-2", "server_port=3-4", "ssrc=5"}
							l := append([]string{"RTP/AVP"}, rest[:at]...)
							l = append(l, n+bad)
							l = append(l, rest[at:]...)
							v := strings.Join(l, ";")
							t := fullTransport(false)
							if err := t.Parse(v); err == nil {
								c.Failf("parsing %q: no error", v)
							}
							c.Step(1)
							c.State(v)
						}
					}
				}},
			{Name: "short", Split: 3,
				Bounds: "all strings of up to 5 (thorough 6) characters over ; = - / 1 a blank and byte FF appended to 8 beginnings: no panic, formatting the result does not panic either",
				Body: func(c *mc.C) {
					alpha := ";=-/1a \xff"
					pre := []string{"", "RTP/AVP", "RTP/AVP/TCP;interleaved", "RTP/AVP;client_port=", "ttl=", "mode", "port=1", "destination"}[c.Choose(8)]
					b := []byte(pre)
					n := 2
					if c.Thorough {
						n = 3
					}
					for i := 0; i < n; i++ {
						b = append(b, alpha[c.Choose(len(alpha))])
					}
					var rec func(b []byte, d int)
					rec = func(b []byte, d int) {
						t := rtsp.Transport{}
						t.Parse(string(b))
						_ = t.String()
						rtsp.ParsePair(string(b))
						c.Step(1)
						if d == 0 {
							return
						}
						for i := range []byte(alpha) {
							rec(append(b[:len(b):len(b)], alpha[i]), d-1)
						}
					}
					rec(b, 3)
					c.Count(585, 0)
				}},
		},
	})

	uris := []string{"rtsp://host:554/path", "*", "rtsp://h/a?b=c&d=e:f;g", "rtsp://[::1]:8554/x/trackID=1"}
	sessions := []string{"", "12345678", "a-b_c.d+e$", "0"}
	auths := []string{"", "Basic YTpi", `Digest username="a", realm="b: c", nonce="d", uri="rtsp://h/", response="e"`}
	add(mc.Check{
		ID:          "C21",
		Rule:        "an execution is one request, packed and read back by an independent reader",
		Assumptions: []string{"no line breaks in URIs and header values", "User-Agent, Content-Length, CSeq and Authorization are not given as extra headers"},
		Drivers: []mc.Driver{
			{Name: "requests", Split: 3,
				Bounds: "11 methods x 4 URIs x 4 sessions x 3 authorizations x all subsets of 6 extra headers (among them Session) x 8 sequence numbers",
				Body: func(c *mc.C) {
					verb := verbs[c.Choose(len(verbs))]
					uri := uris[c.Choose(len(uris))]
					sess := sessions[c.Choose(len(sessions))]
					auth := auths[c.Choose(len(auths))]
					keys := []string{"Transport", "Accept", "Session", "Range", "X-Custom", "Require"}
					vals := []string{"RTP/AVP;unicast;client_port=1-2", "application/sdp", "explicit", "npt=0.000-", "a: b, c=d", "implicit-play"}
					for sub := 0; sub < 1<<uint(len(keys)); sub++ {
						for _, seq := range []int{0, 1, 9, 10, 99, 65535, 65536, 2147483647} {
							h := rtsp.MessageHeader{}
							for i := range keys {
								if sub>>uint(i)&1 == 1 {
									h[keys[i]] = vals[i]
								}
							}
							if len(h) == 0 && seq == 1 {
								h = nil
							}
							r := &rtsp.Request{Verb: verb, Cseq: seq, URI: uri, Auth: auth, Session: sess, Header: h}
							checkRequest(c, r)
							c.State(verb, uri, sess, auth, sub, seq)
						}
					}
					c.Logf("%s %s session %q authorization %q", verb, uri, sess, auth)
				}},
			{Name: "sizes", Split: 2,
				Bounds: "URI, session, authorization and two header values empty or of every length from 1 to 80 and around 2^7 to 2^16, one at a time and all together; 0 to 60 extra headers, every one of them empty or not",
				Body: func(c *mc.C) {
					k := c.Choose(80 + 10*5 + 61)
					n := k + 1
					if k >= 80 {
						n = 1<<uint(7+(k-80)/5) + (k-80)%5 - 2
					}
					long := func(n int) string {
						return strings.Repeat("a1B2=/+x", n/8+1)[:n]
					}
					if k >= 130 {
						for empty := 0; empty < 3; empty++ {
							h := rtsp.MessageHeader{}
							for i := 0; i < k-130; i++ {
								v := fmt.Sprint("value ", i)
								if empty == 1 || empty == 2 && i%2 == 0 {
									v = ""
								}
								h[fmt.Sprintf("X-Extra-%d", i)] = v
							}
							checkRequest(c, &rtsp.Request{Verb: "PLAY", Cseq: 3, URI: "*", Session: "s", Auth: "Basic x", Header: h})
						}
						c.State(k)
						return
					}
					for what := 0; what < 6; what++ {
						r := &rtsp.Request{Verb: "DESCRIBE", Cseq: 3, URI: "rtsp://h/", Session: "s", Auth: "Basic x", Header: rtsp.MessageHeader{"Accept": "a", "Range": ""}}
						if what == 0 || what == 5 {
							r.URI += long(n)
						}
						if what == 1 || what == 5 {
							r.Session = long(n)
						}
						if what == 2 || what == 5 {
							r.Auth = "Digest " + long(n)
						}
						if what == 3 || what == 5 {
							r.Header["Accept"] = long(n)
						}
						if what == 4 || what == 5 {
							r.Header["Range"] = long(n)
						}
						checkRequest(c, r)
						c.State(what, n)
					}
				}},
			{Name: "headers", Split: 2,
				Bounds: "MessageHeader: all sequences of 4 set, get and delete operations on 2 names in 3 spellings with 2 values; the packed request carries what is left",
				Body: func(c *mc.C) {
					names := [][]string{{"X-Some-Name", "x-some-name", "X-SOME-NAME"}, {"Range", "range", "RANGE"}}
					h := rtsp.MessageHeader{}
					m := map[int]string{}
					hist := ""
					for i := 0; i < 4; i++ {
						n := c.Choose(2)
						sp := names[n][c.Choose(3)]
						switch k := c.Choose(3); k {
						case 0, 1:
							v := []string{"one", "two: 2"}[k]
							h.Set(sp, v)
							m[n] = v
							hist += fmt.Sprintf("Set(%s,%s) ", sp, v)
						case 2:
							h.Del(sp)
							delete(m, n)
							hist += fmt.Sprintf("Del(%s) ", sp)
						}
						for j := range names {
							for _, q := range names[j] {
								if got := h.Get(q); got != m[j] {
									c.Failf("%s: Get(%s) = %q, should be %q", hist, q, got, m[j])
								}
							}
						}
						c.Step(1)
						c.State(m)
					}
					checkRequest(c, &rtsp.Request{Verb: "PLAY", Cseq: 7, URI: "*", Session: "s", Header: h})
				}},
		},
	})

	add(mc.Check{
		ID:   "C34",
		Rule: "an execution is one description and one history of transport confirmations; after each the transports, flags and parameter sets of all feeds are compared with a model",
		Drivers: []mc.Driver{
			{Name: "sections", Split: 2,
				Bounds: "all sequences of 0..6 sections (video with sets, audio, application) for the 4 protocols: feeds, numbers and offers",
				Body: func(c *mc.C) {
					proto := c.Choose(4)
					n := c.Choose(7)
					lines := append([]sdpLine{}, sessionHead...)
					v := 0
					for i := 0; i < n; i++ {
						switch c.Choose(3) {
						case 0:
							l, _, _ := feedSection(i)
							lines = append(lines, l...)
							v++
						case 1:
							lines = append(lines, section(1)...)
						case 2:
							lines = append(lines, section(3)...)
						}
					}
					feeds, err := rtsp.ParseFeeds(proto, []byte(render(lines, "\r\n", true)))
					want := expectFeeds(lines)
					if err != nil || len(feeds) != len(want) {
						c.Failf("%d feeds, error %v, should be %d", len(feeds), err, len(want))
					}
					for i, f := range feeds {
						if !sameFeed(toFeed(f.Media), want[i]) {
							c.Failf("feed %d is %v, should be %v", i, toFeed(f.Media), want[i])
						}
						checkOffer(c, proto, i, f.TransportHeader())
						if f.IsSet {
							c.Failf("feed %d is set before its transport was confirmed", i)
						}
						c.Step(1)
					}
					c.State(proto, c.Trail())
				}},
			{Name: "confirm", Split: 3,
				Bounds: "3 video sections (and an audio section between) x 3 protocols x all sequences of 4 (thorough 5) confirmations of any feed with one of 5 transport values, one of them malformed",
				Body: func(c *mc.C) {
					proto := c.Choose(3)
					var lines []sdpLine
					var sp, pp [3]*arrival
					for i := 0; i < 3; i++ {
						var l []sdpLine
						l, sp[i], pp[i] = feedSection(i)
						lines = append(lines, l...)
						if i == 0 {
							lines = append(lines, section(1)...)
						}
					}
					feeds, err := rtsp.ParseFeeds(proto, []byte(render(lines, "\n", true)))
					if err != nil || len(feeds) != 3 {
						c.Failf("%d feeds, error %v", len(feeds), err)
					}
					type mod struct {
						params         map[string]string
						known, set, ok bool
					}
					var m [3]mod
					base := func(i int) map[string]string {
						_, p, _ := readTransport(feeds[i].TransportHeader())
						return p
					}
					for i := range m {
						m[i] = mod{params: base(i), known: true, ok: true}
					}
					n := 4
					if c.Thorough {
						n = 5
					}
					hist := ""
					for k := 0; k < n; k++ {
						i := c.Choose(3)
						op := c.Choose(5)
						upd := map[string]string{}
						var val string
						switch op {
						case 0:
							upd["source"], upd["ssrc"] = "10.0.0.9", fmt.Sprintf("0000000%d", i)
						case 1:
							switch proto {
							case 0:
								upd["interleaved"] = fmt.Sprintf("%d-%d", 10+k, 11+k)
							case 1:
								upd["client_port"], upd["server_port"] = "7000-7001", fmt.Sprintf("%d-%d", 8000+i, 8001+i)
							case 2:
								upd["port"], upd["ttl"] = "7000-7001", "16"
							}
						case 2:
							upd["destination"], upd["mode"] = fmt.Sprintf("10.0.0.%d", i+1), `"RECORD"`
						case 3:
						case 4:
							upd["layers"] = "x"
						}
						val = []string{"RTP/AVP/TCP", "RTP/AVP/UDP;unicast", "RTP/AVP;multicast"}[proto]
						for _, q := range []string{"destination", "source", "interleaved", "client_port", "server_port", "port", "ttl", "layers", "ssrc", "mode"} {
							if v, ok := upd[q]; ok {
								val += ";" + q + "=" + v
							}
						}
						hist += fmt.Sprintf("feed %d: %s; ", i, val)
						err := feeds[i].TransportSetup(val)
						if (err != nil) != (op == 4) {
							c.Failf("%s: error %v", hist, err)
						}
						if op == 4 {
							m[i].known = false
							if m[i].set {
								m[i].ok = false
							}
						} else {
							for q, v := range upd {
								m[i].params[q] = v
							}
							m[i].set, m[i].ok = true, true
						}
						for j := range m {
							if m[j].known {
								_, p, e := readTransport(feeds[j].TransportHeader())
								if e != "" || fmt.Sprint(p) != fmt.Sprint(m[j].params) {
									c.Failf("%s: transport of feed %d is %q, should be %v", hist, j, feeds[j].TransportHeader(), m[j].params)
								}
							}
							if m[j].ok && feeds[j].IsSet != m[j].set {
								c.Failf("%s: feed %d set=%v, should be %v", hist, j, feeds[j].IsSet, m[j].set)
							}
							ms := modelStore{map[uint32]*arrival{}, map[uint32]*arrival{}}
							if m[j].set {
								ms.sps[sp[j].id] = sp[j]
								ms.pps[pp[j].id] = pp[j]
							}
							if feeds[j].Sets == nil {
								c.Failf("%s: feed %d has no parameter set store", hist, j)
							}
							checkStore(c, j, hist, feeds[j].Sets, &ms)
						}
						c.Step(1)
						c.State(hist)
					}
					c.Logf("%s", hist)
				}},
		},
	})
	_ = h264.NewParameterSets
}
