package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/aboukirev/ouro/net/sdp"
	"verif.local/harness/mc"
)

// feedx is what one video section defines.
type feedx struct {
	payload int
	control string
	rtpmap  int
	codec   uint
	clock   int
	sprop   [][]byte
	config  []byte
	size    int
	index   int
}

func toFeed(m sdp.Media) feedx {
	return feedx{m.PayloadType, m.Control, m.Rtpmap, m.Type, m.TimeScale, m.SpropParameterSets, m.Config, m.SizeLength, m.IndexLength}
}

func (f feedx) String() string {
	return fmt.Sprintf("{payload %d control %q rtpmap %d codec %d clock %d sprop %x config %x size %d index %d}", f.payload, f.control, f.rtpmap, f.codec, f.clock, f.sprop, f.config, f.size, f.index)
}

func sameFeed(a, b feedx) bool {
	if a.payload != b.payload || a.control != b.control || a.rtpmap != b.rtpmap || a.codec != b.codec || a.clock != b.clock || a.size != b.size || a.index != b.index {
		return false
	}
	if !bytes.Equal(a.config, b.config) || len(a.sprop) != len(b.sprop) {
		return false
	}
	for i := range a.sprop {
		if !bytes.Equal(a.sprop[i], b.sprop[i]) {
			return false
		}
	}
	return true
}

// sdpLine is one line; video lines start a feed, others of a video section change it.
type sdpLine struct {
	text  string
	media bool // an m= line
	video bool
	apply func(f *feedx)
}

func expectFeeds(lines []sdpLine) (out []feedx) {
	in := false
	for _, l := range lines {
		if l.media {
			in = l.video
			if in {
				out = append(out, feedx{})
			}
		}
		if in && l.apply != nil {
			l.apply(&out[len(out)-1])
		}
	}
	return
}

func render(lines []sdpLine, eol string, last bool) string {
	b := strings.Builder{}
	for i, l := range lines {
		b.WriteString(l.text)
		if i < len(lines)-1 || last {
			b.WriteString(eol)
		}
	}
	return b.String()
}

func checkSDP(c *mc.C, text string, want []feedx, what string) {
	buf := []byte(text)
	got := sdp.Parse(buf)
	if string(buf) != text {
		c.Failf("sdp.Parse modified its input")
	}
	c.Step(1)
	if len(got) != len(want) {
		c.Failf("%s%q: %d feeds, should be %d", what, text, len(got), len(want))
	}
	for i := range want {
		if !sameFeed(toFeed(got[i]), want[i]) {
			c.Failf("%s%q: feed %d is %v, should be %v", what, text, i, toFeed(got[i]), want[i])
		}
	}
}

func mVideo(payload int, rest string) sdpLine {
	return sdpLine{"m=video 0 RTP/AVP " + fmt.Sprint(payload) + rest, true, true, func(f *feedx) { f.payload = payload }}
}
func mOther(s string) sdpLine { return sdpLine{text: s, media: true} }
func plain(s string) sdpLine  { return sdpLine{text: s} }
func aControl(u string) sdpLine {
	return sdpLine{text: "a=control:" + u, apply: func(f *feedx) { f.control = u }}
}

func aRtpmap(pt int, codec string, clock int, rest string) sdpLine {
	return sdpLine{text: fmt.Sprintf("a=rtpmap:%d %s/%d%s", pt, codec, clock, rest), apply: func(f *feedx) {
		f.rtpmap, f.clock = pt, clock
		switch strings.ToLower(codec) {
		case "h264":
			f.codec = sdp.H264
		case "mpeg4-generic":
			f.codec = sdp.AAC
		}
	}}
}

type param struct {
	text  string
	apply func(f *feedx)
}

func pSprop(key string, sets ...[]byte) param {
	var enc []string
	for _, s := range sets {
		enc = append(enc, base64.StdEncoding.EncodeToString(s))
	}
	return param{key + "=" + strings.Join(enc, ","), func(f *feedx) { f.sprop = sets }}
}
func pConfig(key string, b []byte) param {
	return param{key + "=" + hex.EncodeToString(b), func(f *feedx) { f.config = b }}
}
func pSize(key string, n int) param {
	return param{fmt.Sprintf("%s=%d", key, n), func(f *feedx) { f.size = n }}
}
func pIndex(key string, n int) param {
	return param{fmt.Sprintf("%s=%d", key, n), func(f *feedx) { f.index = n }}
}
func pNone(s string) param { return param{s, nil} }

func aFmtp(pt int, sep string, trail string, ps ...param) sdpLine {
	var ts []string
	for _, p := range ps {
		ts = append(ts, p.text)
	}
	return sdpLine{text: fmt.Sprintf("a=fmtp:%d %s%s", pt, strings.Join(ts, sep), trail), apply: func(f *feedx) {
		for _, p := range ps {
			if p.apply != nil {
				p.apply(f)
			}
		}
	}}
}

// byte strings whose base64 text has '/', '+', '=' and neither
var spsBytes = []byte{0x67, 0x4d, 0x00, 0x1f, 0xff, 0xff, 0xfe, 0xfb, 0xef, 0xbe}
var ppsBytes = []byte{0x68, 0xee, 0x3c, 0x80}
var thirdBytes = []byte{0x06, 0x05, 0xff, 0xf0, 0x3e}

var controls = []string{"trackID=1", "rtsp://host:554/a/b/trackID=0", "rtsp://h/H264/90000/x", "*", "streamid=0;x=1", "a:b:c", "rtsp://u@h/?a=b&c=d;e,f=%20", "m=video", "96", "mpeg4-generic/8000/2"}

var sessionHead = []sdpLine{plain("v=0"), plain("o=- 1 1 IN IP4 10.0.0.1"), plain("s=Session streamed; m=video 0 RTP/AVP 99"), plain("c=IN IP4 0.0.0.0"), plain("t=0 0")}
var sessionAttrs = []sdpLine{plain("a=control:rtsp://host/aggregate/"), plain("a=range:npt=0-"), plain("a=rtpmap:12 H264/1"), plain("a=fmtp:12 sizelength=9;config=ab"), plain("a=tool:x/y"), plain("b=AS:100")}

func permute(c *mc.C, n int) []int {
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	var out []int
	for len(left) > 0 {
		i := c.Choose(len(left))
		out = append(out, left[i])
		left = append(left[:i], left[i+1:]...)
	}
	return out
}

func section(kind int) []sdpLine {
	switch kind {
	case 0:
		return []sdpLine{mVideo(96, ""), aRtpmap(96, "H264", 90000, ""), aFmtp(96, ";", "", pNone("packetization-mode=1"), pSprop("sprop-parameter-sets", spsBytes, ppsBytes)), aControl("trackID=1")}
	case 1:
		return []sdpLine{mOther("m=audio 0 RTP/AVP 97"), plain("a=rtpmap:97 MPEG4-GENERIC/44100/2"), plain("a=fmtp:97 streamtype=5;sizelength=13;indexlength=3;config=1210"), plain("a=control:trackID=2")}
	case 2:
		return []sdpLine{mVideo(97, " 98"), aControl("rtsp://h/track3"), plain("c=IN IP4 1.2.3.4"), aFmtp(97, "; ", "", pSize("sizelength", 13), pIndex("indexlength", 3), pConfig("config", []byte{0x12, 0x10})), aRtpmap(97, "mpeg4-generic", 8000, "/1")}
	case 3:
		return []sdpLine{mOther("m=application 0 RTP/AVP 107"), plain("a=control:trackID=4"), plain("a=rtpmap:107 vnd.onvif.metadata/90000")}
	case 4:
		return []sdpLine{mVideo(26, "")}
	case 5:
		return []sdpLine{mVideo(33, ""), aControl("trackID=6")}
	case 6:
		return []sdpLine{mVideo(35, ""), aRtpmap(35, "JPEG", 1000, ""), plain("b=AS:5000"), plain("a=recvonly"), plain("a=framerate:25.0")}
	case 7:
		return []sdpLine{mOther("m=text 0 RTP/AVP 108")}
	}
	return nil
}

func init() {
	add(mc.Check{
		ID:          "C16",
		Rule:        "an execution is one generated description, parsed and compared with what its lines define",
		Assumptions: []string{"each attribute occurs at most once per section", "attribute values have the form given by RFC 4566 and RFC 6184: one space after the payload number, ';' or '; ' between parameters"},
		Drivers: []mc.Driver{
			{Name: "sections", Split: 2,
				Bounds: "all sequences of 0..6 (thorough 7) sections of 8 kinds (4 video forms with all, some or no attributes, audio, application, text), with or without session attributes, CRLF or LF, with or without final line end",
				Body: func(c *mc.C) {
					max := 6
					if c.Thorough {
						max = 7
					}
					n := c.Choose(max + 1)
					lines := append([]sdpLine{}, sessionHead...)
					sess := c.Bool()
					if sess {
						lines = append(lines, sessionAttrs...)
					}
					kinds := ""
					for i := 0; i < n; i++ {
						k := c.Choose(8)
						kinds += fmt.Sprint(k)
						lines = append(lines, section(k)...)
					}
					want := expectFeeds(lines)
					for f := 0; f < 4; f++ {
						checkSDP(c, render(lines, []string{"\r\n", "\n"}[f&1], f&2 == 0), want, "")
					}
					c.State(kinds, sess)
					c.Logf("sections %s, session attributes %v", kinds, sess)
				}},
			{Name: "order", Split: 2,
				Bounds: "one video section between two others, all 720 orders of 6 attribute lines, 10 control URLs, CRLF or LF",
				Body: func(c *mc.C) {
					u := controls[c.Choose(len(controls))]
					eol := []string{"\r\n", "\n"}[c.Choose(2)]
					attrs := []sdpLine{aControl(u), aRtpmap(96, "H264", 90000, ""), aFmtp(96, ";", "", pNone("profile-level-id=4D001F"), pNone("packetization-mode=1"), pSprop("sprop-parameter-sets", spsBytes, ppsBytes)), plain("c=IN IP4 239.0.0.1/127"), plain("a=framesize:96 1280-720"), plain("a=x-dimensions:1280,720")}
					lines := append(append([]sdpLine{}, sessionHead...), sessionAttrs...)
					lines = append(lines, section(2)...)
					lines = append(lines, section(1)...)
					lines = append(lines, mVideo(96, ""))
					for _, i := range permute(c, len(attrs)) {
						lines = append(lines, attrs[i])
					}
					lines = append(lines, section(3)...)
					lines = append(lines, section(0)...)
					t := render(lines, eol, true)
					checkSDP(c, t, expectFeeds(lines), "")
					c.State(t)
				}},
			{Name: "matches", Split: 4,
				Bounds: "two video sections (thorough also three), each with one of two payload types, rtpmap absent or of three, sets absent or one of two, control absent or one of two, the attributes in one of two orders in all sections; with an audio section between them or not",
				Body: func(c *mc.C) {
					n := 2
					if c.Thorough && c.Bool() {
						n = 3
					}
					rev, audio := c.Bool(), c.Bool()
					lines := append([]sdpLine{}, sessionHead...)
					for i := 0; i < n; i++ {
						pt := 96 + c.Choose(2)
						lines = append(lines, mVideo(pt, ""))
						var attrs []sdpLine
						switch c.Choose(4) {
						case 1:
							attrs = append(attrs, aRtpmap(pt, "H264", 90000, ""))
						case 2:
							attrs = append(attrs, aRtpmap(pt, "MPEG4-GENERIC", 8000, ""))
						case 3:
							attrs = append(attrs, aRtpmap(pt, "JPEG", 90000, ""))
						}
						switch c.Choose(3) {
						case 1:
							attrs = append(attrs, aFmtp(pt, ";", "", pSprop("sprop-parameter-sets", spsBytes, ppsBytes)))
						case 2:
							attrs = append(attrs, aFmtp(pt, ";", "", pConfig("config", []byte{0x12, 0x10}), pSize("sizelength", 13), pSprop("sprop-parameter-sets", thirdBytes)))
						}
						if k := c.Choose(3); k > 0 {
							attrs = append(attrs, aControl(controls[k-1]))
						}
						if rev {
							for a, b := 0, len(attrs)-1; a < b; a, b = a+1, b-1 {
								attrs[a], attrs[b] = attrs[b], attrs[a]
							}
						}
						lines = append(lines, attrs...)
						if audio && i == 0 {
							lines = append(lines, section(1)...)
						}
					}
					t := render(lines, "\r\n", true)
					checkSDP(c, t, expectFeeds(lines), "")
					c.State(t)
				}},
			{Name: "params", Split: 2,
				Bounds: "all orders of all subsets of 6 format parameters (sets, config, size, index length, two unknown ones), separators ';' and '; ', with or without a final ';', lower, mixed and upper case names, 1..3 parameter sets with every base64 alphabet and padding form",
				Body: func(c *mc.C) {
					sep := []string{";", "; "}[c.Choose(2)]
					trail := []string{"", ";", "; "}[c.Choose(3)]
					style := c.Choose(3)
					cs := func(s string) string {
						switch style {
						case 1:
							return strings.ToUpper(s)
						case 2:
							return strings.Title(s)
						}
						return s
					}
					nsets := c.Choose(4)
					sets := [][][]byte{{spsBytes, ppsBytes}, {ppsBytes}, {spsBytes, ppsBytes, thirdBytes}, {thirdBytes, {0x67}, {0x68, 0x01}, spsBytes}}[nsets]
					all := []param{pSprop(cs("sprop-parameter-sets"), sets...), pConfig(cs("config"), []byte{0x00, 0xff, 0x3c, 0x80}), pSize(cs("sizelength"), 13), pIndex(cs("indexlength"), 3), pNone("packetization-mode=1"), pNone("mode=AAC-hbr")}
					subset := c.Choose(64)
					var ps []param
					for i, p := range all {
						if subset>>uint(i)&1 == 1 {
							ps = append(ps, p)
						}
					}
					if len(ps) == 0 {
						c.Trivial()
						return
					}
					ord := permute(c, len(ps))
					var op []param
					for _, i := range ord {
						op = append(op, ps[i])
					}
					if style == 0 && nsets == 0 || len(ps) < 6 || c.Thorough {
						lines := []sdpLine{plain("v=0"), mVideo(96, ""), aFmtp(96, sep, trail, op...), aRtpmap(96, "h264", 90000, ""), aControl("t/1")}
						t := render(lines, "\r\n", true)
						checkSDP(c, t, expectFeeds(lines), "")
						c.State(t)
						c.Logf("%q", t)
					} else {
						c.Trivial()
					}
				}},
			{Name: "numbers", Split: 1,
				Bounds: "every payload type 0..127 in the media line and rtpmap (independently 128x8), 12 clock rates, 4 codec spellings, sizes and lengths 0..64, every byte value in parameter sets of 1..4 bytes at each position and in config",
				Body: func(c *mc.C) {
					pt := c.Choose(128)
					for _, pm := range []int{pt, 0, 96, 97, 127, 1, 35, 99} {
						for _, clock := range []int{90000, 8000, 1, 44100, 48000, 16000, 1000, 96000, 11025, 1000000, 90, 2147483647} {
							for _, codec := range []string{"H264", "h264", "MPEG4-GENERIC", "mpeg4-generic", "MPEG4-Generic", "H265", "H264-SVC", "JPEG"} {
								lines := []sdpLine{mVideo(pt, ""), aRtpmap(pm, codec, clock, "")}
								checkSDP(c, render(lines, "\r\n", true), expectFeeds(lines), "")
							}
						}
					}
					for n := 0; n <= 64; n++ {
						lines := []sdpLine{mVideo(pt, " 33"), aFmtp(pt, ";", "", pSize("sizelength", n), pIndex("indexlength", 64-n))}
						checkSDP(c, render(lines, "\r\n", true), expectFeeds(lines), "")
					}
					for _, v := range []int{2 * pt, 2*pt + 1} {
						for n := 1; n <= 4; n++ {
							for i := 0; i < n; i++ {
								b := []byte{0x67, 0xff, 0xfb, 0x3e}[:n:n]
								b = append([]byte{}, b...)
								b[i] = byte(v)
								lines := []sdpLine{mVideo(96, ""), aFmtp(96, ";", "", pSprop("sprop-parameter-sets", b, []byte{0x68, byte(v)}), pConfig("config", b))}
								checkSDP(c, render(lines, "\n", false), expectFeeds(lines), "")
							}
						}
					}
					c.State(pt)
				}},
		},
	})

	// ---- C17
	full := func() []sdpLine {
		lines := append(append([]sdpLine{}, sessionHead...), sessionAttrs...)
		for _, k := range []int{0, 1, 2, 3, 5, 0} {
			lines = append(lines, section(k)...)
		}
		return lines
	}
	neutral := []string{"", " ", "=", "==", "x", "a", "a=", "a=:", "a= ", "a=:x", "a=unknown", "a=unknown:1", "a=control", "a=rtpmap", "a=fmtp", "a=fmtp:", "a=fmtp:96", "a=fmtp:96 ", "a=fmtp:96 ;;;", "a=fmtp:96 =;=", "a=fmtp:96 x", "a=fmtp:96 x=", "a=fmtp:96 =x",
		"b=", "b=AS:5", "z=control:x", "k=clear:H264/90000", "i=a=control:x", "u=http://h/a=control:x", "\x00", "a=\x00\xff:\xfe", "\xff\xfe=\xfd", "a=x:rtpmap:5 H264/3", "a=xfmtp:96 sizelength=77", "a=type:broadcast control:x", "a=cliprect:0,0,720/1280",
		"a=extmap:1 urn:H264/90000", "a=quality:sizelength=3;config=00", "r=604800 3600 0 90000", "a=ptime:20 H264/8", "A=control:zzz", "M=video 0 RTP/AVP 5", strings.Repeat("x", 5000), "a=" + strings.Repeat(";", 3000), "a=" + strings.Repeat(":", 3000), "a=ssrc:1 cname:H264/90000"}
	add(mc.Check{
		ID:   "C17",
		Rule: "an execution is one damaged description: it must parse without a panic, and everything its intact lines define must come out",
		Drivers: []mc.Driver{
			{Name: "short", Split: 2,
				Bounds: "all strings of up to 6 (thorough 7) characters over a,m,=,:,/,;,space,comma,LF,9 appended to 5 beginnings",
				Body: func(c *mc.C) {
					alpha := "am=:/; ,\n9"
					pre := []string{"", "m=video", "m=video 0 RTP/AVP 96\na=", "m=video 0 RTP/AVP 96\na=rtpmap:", "m=video 0 RTP/AVP 96\na=fmtp:96 sprop-parameter-sets"}[c.Choose(5)]
					n := 5
					if c.Thorough {
						n = 6
					}
					b := []byte(pre)
					for i := 0; i < n-2; i++ {
						b = append(b, alpha[c.Choose(len(alpha))])
					}
					for x := 0; x < len(alpha); x++ {
						for y := 0; y < len(alpha); y++ {
							for z := 0; z < len(alpha); z++ {
								t := string(b) + string([]byte{alpha[x], alpha[y], alpha[z]})
								sdp.Parse([]byte(t))
								c.Step(1)
							}
						}
					}
					sdp.Parse(b)
					c.Count(1001, 0)
				}},
			{Name: "bytes", Split: 2,
				Bounds: "a full description (6 sections) with every byte replaced by every value, every byte deleted, and cut at every byte: no panic, feeds never more than one per line",
				Body: func(c *mc.C) {
					lines := full()
					t := render(lines, "\r\n", true)
					i := c.Choose(len(t))
					for v := 0; v < 256; v++ {
						b := []byte(t)
						b[i] = byte(v)
						if n := len(sdp.Parse(b)); n > 7 {
							c.Failf("%d feeds in %q", n, b)
						}
						c.Step(1)
					}
					sdp.Parse([]byte(t[:i]))
					sdp.Parse([]byte(t[i:]))
					sdp.Parse([]byte(t[:i] + t[i+1:]))
					c.State(i)
				}},
			{Name: "cut", Split: 1,
				Bounds: "sequences of 6 section permutations cut at every line boundary, with CRLF, LF or no line end",
				Body: func(c *mc.C) {
					lines := append([]sdpLine{}, sessionHead...)
					for _, k := range permute(c, 6) {
						lines = append(lines, section(k)...)
					}
					for n := 0; n <= len(lines); n++ {
						want := expectFeeds(lines[:n])
						for f := 0; f < 4; f++ {
							checkSDP(c, render(lines[:n], []string{"\r\n", "\n"}[f&1], f&2 == 0), want, "cut: ")
						}
						c.State(c.Trail(), n)
					}
				}},
			{Name: "neutral", Split: 2,
				Bounds: fmt.Sprintf("each pair of %d empty, damaged or unknown lines inserted at every line boundary of a full description", len(neutral)),
				Body: func(c *mc.C) {
					lines := full()
					at := c.Choose(len(lines) + 1)
					x := neutral[c.Choose(len(neutral))]
					for _, y := range neutral {
						ls := append([]sdpLine{}, lines[:at]...)
						ls = append(ls, plain(x), plain(y))
						ls = append(ls, lines[at:]...)
						checkSDP(c, render(ls, "\r\n", true), expectFeeds(lines), "")
					}
					c.State(at, x)
				}},
			{Name: "damaged", Split: 2,
				Bounds: "each line of a full description cut at every byte (media lines not shorter than m=) or with every byte replaced by one of 8: everything the other lines define comes out",
				Body: func(c *mc.C) {
					lines := full()
					i := c.Choose(len(lines))
					l := lines[i]
					var texts []string
					for k := 0; k < len(l.text); k++ {
						if l.media && k < 2 {
							continue
						}
						texts = append(texts, l.text[:k])
						for _, v := range []byte{0, ' ', '=', ':', ';', '/', 0xff, 'x'} {
							b := []byte(l.text)
							b[k] = v
							texts = append(texts, string(b))
						}
					}
					base := expectFeeds(lines)
					// index of the feed the line belongs to, -1 outside video sections
					own, in, n := -1, false, -1
					for j, m := range lines {
						if m.media {
							in = m.video
							if in {
								n++
							}
						}
						if j == i && in {
							own = n
						}
					}
					for _, t := range texts {
						ls := append([]sdpLine{}, lines...)
						ls[i].text = t
						text := render(ls, "\r\n", true)
						got := sdp.Parse([]byte(text))
						c.Step(1)
						if l.media {
							// its own section may be lost or turned into a video section; the others are not affected
							var want []feedx
							for j, f := range base {
								if j != own {
									want = append(want, f)
								}
							}
							if len(got) < len(want) || len(got) > len(want)+1 {
								c.Failf("%q damaged to %q: %d feeds", l.text, t, len(got))
							}
							// the feeds of the other sections occur in order
							k := 0
							for _, g := range got {
								if k < len(want) && sameFeed(toFeed(g), want[k]) {
									k++
								}
							}
							if k < len(want) && !(len(l.text) >= 2 && !strings.HasPrefix(t, "m=")) {
								c.Failf("%q damaged to %q: feed %v of another section is missing: %v", l.text, t, want[k], got)
							}
							continue
						}
						if len(got) != len(base) {
							c.Failf("%q damaged to %q: %d feeds, should be %d", l.text, t, len(got), len(base))
						}
						for j := range base {
							g := toFeed(got[j])
							w := base[j]
							if j == own {
								// fields this line defines are free
								probe := feedx{payload: -1, control: "\x01", rtpmap: -1, codec: 12345, clock: -1, size: -1, index: -1}
								if l.apply != nil {
									l.apply(&probe)
								}
								if probe.control != "\x01" {
									g.control = w.control
								}
								if probe.rtpmap != -1 {
									g.rtpmap, g.clock, g.codec = w.rtpmap, w.clock, w.codec
								}
								if strings.HasPrefix(l.text, "a=fmtp") {
									g.sprop, g.config, g.size, g.index = w.sprop, w.config, w.size, w.index
								}
							}
							if !sameFeed(g, w) {
								c.Failf("%q damaged to %q: feed %d is %v, should be %v", l.text, t, j, toFeed(got[j]), w)
							}
						}
					}
					c.State(i)
					c.Logf("%q", l.text)
				}},
		},
	})
}
