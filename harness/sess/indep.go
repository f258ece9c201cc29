package sess

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing/synctest"

	"github.com/aboukirev/ouro/net/h264"
	"github.com/aboukirev/ouro/net/hls"
	"github.com/aboukirev/ouro/net/rtcp"
	"github.com/aboukirev/ouro/net/rtp"
	"github.com/aboukirev/ouro/net/rtsp"
	"github.com/aboukirev/ouro/net/sdp"
	"verif.local/harness/auth"
	"verif.local/harness/mc"
	"verif.local/harness/shim/vnet"
	"verif.local/harness/shim/vrt"
)

// Independence: a use is a short program that works with objects and buffers of its own and keeps everything it was
// given.  However uses are mixed, each has what it has when it runs alone.

// use is one such program; what tells everything that it holds.
type use struct {
	steps []func()
	what  func() string
	own   bool // things are kept
	kept  []kept
	mine  []interface{} // what calls have returned: slices and pointers that the program may do with as it likes
	store bool          // what has been returned is part of an object
}

// kept is something that a call has returned, and what it was then.
type kept struct {
	f   func() string
	was string
}

func (u *use) keep(f func() string) {
	if u.own {
		u.kept = append(u.kept, kept{f, f()})
	}
}

func (u *use) keepBytes(b []byte) {
	u.keep(func() string { return hex.EncodeToString(b) })
	u.give(b)
}

func (u *use) give(v interface{}) {
	if u.own {
		u.mine = append(u.mine, v)
	}
}

// ruin writes something else into everything that can be reached.
func ruin(v reflect.Value, depth int) {
	if depth > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			ruin(v.Elem(), depth+1)
		}
	case reflect.Slice:
		v = v.Slice(0, v.Cap())
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			ruin(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			ruin(v.Field(i), depth+1)
		}
	case reflect.Map:
		if v.CanInterface() && v.Type().Elem().Kind() == reflect.String {
			for _, k := range v.MapKeys() {
				v.SetMapIndex(k, reflect.ValueOf("ruined"))
			}
		}
	default:
		if !v.CanSet() {
			return
		}
		switch v.Kind() {
		case reflect.String:
			v.SetString("ruined")
		case reflect.Bool:
			v.SetBool(!v.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			v.SetInt(^v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			v.SetUint(^v.Uint())
		case reflect.Float32, reflect.Float64:
			v.SetFloat(-v.Float() - 1)
		}
	}
}

// ruin overwrites what the use has been given since the last time.
func (u *use) ruin() {
	for _, v := range u.mine {
		ruin(reflect.ValueOf(v), 0)
	}
	u.mine = nil
}

// changed finds something that is no longer what it was.
func (u *use) changed(c *mc.C, name string) {
	for i, k := range u.kept {
		if now := k.f(); now != k.was {
			c.Failf("%s alone: result %d of %d was %.200s and has become %.200s", name, i+1, len(u.kept), k.was, now)
		}
	}
}

type useKind struct {
	name string
	make func(w *world, n int) *use
	net  bool // needs a connection
	long bool // takes long; not for schedules
	near bool // the data of its uses have almost everything in common; mixed with its own kind only
}

// bitWriter writes parameter sets.
type bitWriter struct {
	b []byte
	n int
}

func (w *bitWriter) bit(v int) {
	if w.n%8 == 0 {
		w.b = append(w.b, 0)
	}
	w.b[w.n/8] |= byte(v << uint(7-w.n%8))
	w.n++
}

func (w *bitWriter) bits(n int, v uint) *bitWriter {
	for i := n - 1; i >= 0; i-- {
		w.bit(int(v >> uint(i) & 1))
	}
	return w
}

func (w *bitWriter) ue(vs ...uint) *bitWriter {
	for _, v := range vs {
		n := 0
		for (v+1)>>uint(n+1) > 0 {
			n++
		}
		w.bits(n, 0)
		w.bits(n+1, v+1)
	}
	return w
}

func (w *bitWriter) se(v int) *bitWriter {
	if v > 0 {
		return w.ue(uint(2*v - 1))
	}
	return w.ue(uint(-2 * v))
}

// lists writes scaling lists, two of every three of them present.
func (w *bitWriter) lists(count, n int) {
	for i := 0; i < count; i++ {
		if (i+n)%3 == 2 {
			w.bit(0)
			continue
		}
		w.bit(1)
		size := 16
		if i >= 6 {
			size = 64
		}
		if (i+n)%4 == 3 {
			w.se(-8)
			continue
		}
		for j := 0; j < size; j++ {
			w.se((j+i+n)%3 + 1)
		}
	}
}

func madeSPS(n, id int) []byte {
	w := &bitWriter{}
	w.bits(8, 100).bits(8, 0).bits(8, uint(30+n)).ue(uint(id), 1, 0, 0).bits(1, 0).bits(1, 1)
	w.lists(8, n+id)
	w.ue(uint(n), 1).bits(1, 0).se(n).se(-n).ue(3).se(n + 1).se(-2).se(id)
	w.ue(uint(n+1)).bits(1, 0).ue(uint(20+n), uint(10+id)).bits(1, 1).bits(1, 1).bits(1, 1).ue(0, uint(n%3), uint(id), 0).bits(1, 0)
	w.bits(1, 1)
	return w.b
}

func madePPS(n, id, how int) []byte {
	w := &bitWriter{}
	w.ue(uint(id), uint(id)).bits(1, uint(n%2)).bits(1, 0)
	if how == 0 {
		w.ue(2, 6, uint(8+3*n))
		for i := 0; i < 9+3*n; i++ {
			w.bits(2, uint((i*(n+1)+id)%3))
		}
	} else {
		w.ue(0)
	}
	w.ue(uint(n), uint(id)).bits(1, 0).bits(2, uint(n%3)).se(n).se(-n).se(id).bits(3, uint(n%8))
	if how == 1 {
		w.bits(1, 1).bits(1, 1)
		w.lists(8, n+id)
		w.se(n)
	}
	w.bits(1, 1)
	return w.b
}

// blob is n bytes with zero runs in them, none at the end.
func blob(n, k int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch (i*7 + k) % 11 {
		case 0, 1, 2:
		case 3:
			b[i] = 3
		case 4:
			b[i] = 1
		default:
			b[i] = byte(i*13 + k*29 + 5)
		}
	}
	if n > 0 {
		b[n-1] = byte(0x80 | k)
	}
	return b
}

func hexs(l [][]byte) string {
	out := []string{}
	for _, b := range l {
		out = append(out, hex.EncodeToString(b))
	}
	return fmt.Sprintf("%d %s", len(l), strings.Join(out, " "))
}

// bytesUse is a use of a function from bytes to bytes.
func bytesUse(n int, f func(b []byte) [][]byte, in ...[]byte) *use {
	var got [][]byte
	u := &use{what: func() string { return hexs(got) + " of " + hexs(in) }}
	for i := range in {
		i := i
		u.steps = append(u.steps, func() {
			for _, b := range f(in[i]) {
				got = append(got, b)
				u.keepBytes(b)
			}
		})
	}
	return u
}

func setsText(ps *h264.ParameterSets) string {
	out := ""
	for id := uint32(0); id < 4; id++ {
		if s, ok := ps.GetSPS(id); ok && s != nil {
			out += fmt.Sprintf(" sps%d%+v", id, *s)
		}
		if p, ok := ps.GetPPS(id); ok && p != nil {
			out += fmt.Sprintf(" pps%d%+v", id, *p)
		}
	}
	return out
}

// setsUse fills a store; it keeps what lookups returned.
func setsUse(parse ...func(ps *h264.ParameterSets) error) *use {
	ps := h264.NewParameterSets()
	var errs []bool
	var spss []*h264.SPSInfo
	var ppss []*h264.PPSInfo
	u := &use{store: true, what: func() string {
		out := fmt.Sprint(errs, setsText(ps))
		for _, s := range spss {
			out += fmt.Sprintf(" got%+v", *s)
		}
		for _, p := range ppss {
			out += fmt.Sprintf(" got%+v", *p)
		}
		return out
	}}
	for _, f := range parse {
		f := f
		u.steps = append(u.steps, func() {
			errs = append(errs, f(ps) == nil)
			for id := uint32(0); id < 4; id++ {
				if s, ok := ps.GetSPS(id); ok && s != nil {
					spss = append(spss, s)
					u.keep(func() string { return fmt.Sprintf("%+v", *s) })
					u.give(s)
				}
				if p, ok := ps.GetPPS(id); ok && p != nil {
					ppss = append(ppss, p)
					u.keep(func() string { return fmt.Sprintf("%+v", *p) })
					u.give(p)
				}
			}
		})
	}
	return u
}

// sinkUse pushes payloads and keeps the units.
func sinkUse(ts uint32, payloads ...[]byte) *use {
	s := h264.NewNALSink()
	var units []h264.NALUnit
	var errs []bool
	u := &use{what: func() string {
		out := fmt.Sprint(errs)
		for i := range units {
			x := &units[i]
			out += fmt.Sprintf(" %02x/%d/%d/%x", x.Header, x.Don, x.TS, x.Data)
		}
		return out + " of " + hexs(payloads)
	}}
	for i, p := range payloads {
		i, p := i, p
		u.steps = append(u.steps, func() {
			errs = append(errs, s.Push(p, ts+uint32(i)*3000) == nil)
			for _, x := range s.Units {
				units = append(units, x)
				u.keepBytes(x.Data)
			}
		})
	}
	return u
}

func sized(b []byte) []byte { return append([]byte{byte(len(b) >> 8), byte(len(b))}, b...) }

func cat(l ...[]byte) []byte {
	out := []byte{}
	for _, b := range l {
		out = append(out, b...)
	}
	return out
}

func madeSDP(n int) []byte {
	out := "v=0\r\ns=x\r\nm=audio 0 RTP/AVP 0\r\na=control:audio\r\n"
	for i := 0; i < 2; i++ {
		sets := base64.StdEncoding.EncodeToString(append([]byte{0x67}, madeSPS(n, i)...)) + "," + base64.StdEncoding.EncodeToString(append([]byte{0x68}, madePPS(n, i, 0)...))
		out += fmt.Sprintf("m=video 0 RTP/AVP %d\r\na=rtpmap:%d H264/90000\r\na=control:track%d-%d\r\na=fmtp:%d packetization-mode=1; sprop-parameter-sets=%s\r\n", 96+n, 96+n, n, i, 96+n, sets)
	}
	return []byte(out)
}

// digestUse authorizes the requests of one of several users.
func digestUse(n int, text func(ch *auth.Challenge), bodies bool) *use {
	ch := &auth.Challenge{Realm: fmt.Sprint("realm", n), Nonce: fmt.Sprint("nonce", n)}
	text(ch)
	return digestRun(n, ch, fmt.Sprint("user", n), fmt.Sprint("pass", n), fmt.Sprint("rtsp://host/", n), func(i int) []byte {
		if bodies {
			return blob(20+i, n)
		}
		return nil
	})
}

// digestRun answers a challenge; a server judges the authorizations.
func digestRun(n int, ch *auth.Challenge, user, pass, uri string, body func(i int) []byte) *use {
	ch.Format()
	srv := &auth.Server{Ch: ch, User: user, Pass: pass}
	var f rtsp.DigestAuth
	var got, verdict []string
	u := &use{what: func() string { return fmt.Sprint(verdict) }}
	u.steps = append(u.steps, func() {
		if f != nil {
			return
		}
		d, err := rtsp.NewDigest(uri, ch.Text)
		if err != nil {
			verdict = append(verdict, err.Error())
			return
		}
		f = d.Authenticate(user, pass)
	})
	for i, verb := range []string{"DESCRIBE", "PLAY", "SETUP"} {
		u.steps = append(u.steps, func() {
			if f == nil {
				return
			}
			got = append(got, f(verb, body(i)))
			verdict = append(verdict, srv.Accept(got[len(got)-1], verb, uri, body(i)))
		})
	}
	return u
}

func reportText(p *rtcp.Packet) string {
	s := fmt.Sprintf(" %d/%d/%d", p.VPC, p.PT, p.LN)
	if p.DSR != nil {
		s += fmt.Sprintf("%+v", *p.DSR)
	}
	return s
}

// packsUse keeps what functions return.
func packsUse(fs ...func() []byte) *use {
	var got [][]byte
	u := &use{what: func() string { return fmt.Sprintf("%q", got) }}
	for _, f := range fs {
		u.steps = append(u.steps, func() { b := f(); got = append(got, b); u.keepBytes(b) })
	}
	return u
}

func transportText(t *rtsp.Transport) string { return fmt.Sprintf("%+v", *t) }

func mediaText(l []sdp.Media) string {
	out := ""
	for i := range l {
		m := &l[i]
		out += fmt.Sprintf(" %+v", *m)
	}
	return out
}

// dialed is a connection and its other end.
func dialed(w *world, url string) (*rtsp.Conn, *vnet.TCPConn) {
	keep := w.net.OnDial
	var x *vnet.TCPConn
	w.net.OnDial = func(y *vnet.TCPConn) { x = y }
	conn, err := rtsp.Dial(url, rtsp.ProtoTCP)
	w.net.OnDial = keep
	if err != nil {
		w.c.Failf("dial: %v", err)
	}
	return conn, x
}

// connUse is a use of a connection, with functions that read a response and some bytes.
func connUse(w *world, conn *rtsp.Conn) (*use, func(), func(n int)) {
	var got []*rtsp.Response
	var errs []bool
	var rest [][]byte
	text := func(r *rtsp.Response) string {
		return fmt.Sprintf(" %s/%d/%d/%s/%s/%q", r.Proto, r.StatusCode, r.Cseq, r.Header.Get("Session"), r.Header.Get("Content-Length"), r.Body)
	}
	u := &use{what: func() string {
		out := fmt.Sprint(errs, conn.BaseURI, conn.URL.String(), hexs(rest))
		for _, r := range got {
			out += text(r)
		}
		return out
	}}
	unpack := func() {
		r, err := rtsp.Unpack(conn)
		errs = append(errs, err == nil)
		if err == nil {
			got = append(got, r)
			u.keep(func() string { return text(r) })
			u.give(r)
		}
	}
	read := func(n int) {
		b, err := conn.ReadBytes(n)
		errs = append(errs, err == nil)
		rest = append(rest, b)
		u.keepBytes(b)
	}
	return u, unpack, read
}

// similarSPS and similarPPS differ in their last values only.
func similarSPS(n int) []byte {
	w := &bitWriter{}
	w.bits(8, 100).bits(8, 0).bits(8, 40).ue(1, 1, 0, 0).bits(1, 0).bits(1, 1)
	w.lists(8, 1)
	w.ue(1, 2, 2).bits(1, 0).ue(30, 20).bits(1, 1).bits(1, 1).bits(1, 1).ue(0, 0, 0, uint(1+n)).bits(1, 0).bits(1, 1)
	return w.b
}

func similarPPS(n int) []byte {
	w := &bitWriter{}
	w.ue(1, 1).bits(1, 0).bits(1, 0).ue(2, 6, 23)
	for i := 0; i < 24; i++ {
		w.bits(2, uint(i%3))
	}
	w.ue(0, 0).bits(1, 0).bits(2, 0).se(0).se(0).se(0).bits(3, 7).bits(1, 1).bits(1, 1)
	w.lists(8, 1)
	w.se(n+1).bits(1, 1)
	return w.b
}

// digestNear authorizes with data in which only one thing differs.
func digestNear(n int, what string) *use {
	v := func(name string) string {
		if name == what {
			return fmt.Sprint(name, n)
		}
		return name
	}
	ch := &auth.Challenge{Realm: v("realm"), Nonce: v("nonce"), Opaque: "o", Qops: []string{"auth-int"}}
	switch what {
	case "alg":
		ch.Alg = []string{"", "MD5", "MD5-sess", "MD5-sess"}[n]
	case "qop":
		ch.Qops = [][]string{{"auth"}, {"auth-int"}, {}, {"auth", "auth-int"}}[n]
	}
	return digestRun(n, ch, v("user"), v("password"), "rtsp://host/"+v("uri"), func(i int) []byte {
		if what == "qop" {
			return nil
		}
		if what != "body" {
			return blob(30, i)
		}
		return append(blob(30, i), byte(n))
	})
}

var useKinds = []useKind{
	{name: "EBSPToRaw", make: func(w *world, n int) *use {
		f := func(b []byte) [][]byte { return [][]byte{h264.EBSPToRaw(b)} }
		return bytesUse(n, f, cat([]byte{9, 0, 0, 3, 1, byte(n), 0, 0, 3}, []byte{7, 8}), blob(40+n, n), []byte{byte(n), 1, 2, 0, 0, 3, 0, 0, 3, 2})
	}},
	{name: "RBSPToEncapsulated", make: func(w *world, n int) *use {
		f := func(b []byte) [][]byte { return [][]byte{h264.RBSPToEncapsulated(b)} }
		return bytesUse(n, f, blob(30, n), []byte{0, 0, 0, 0, byte(n), 0, 0, 1}, blob(60-n, n+1))
	}},
	{name: "SplitAnnexB", make: func(w *world, n int) *use {
		s := []byte{0, 0, 0, 1}
		unit := func(k int) []byte { return []byte{0x65, byte(n + 5), byte(k), 0, 0, 3, 1, 0x80} }
		return bytesUse(n, h264.SplitAnnexB, cat(s, unit(1), s[1:], unit(2)), cat(s[1:], unit(3), s, unit(4), s, unit(5)), cat(s, unit(6)))
	}},
	{name: "BitReader", make: func(w *world, n int) *use {
		buf := append(madeSPS(n, 1), blob(20, n)...)
		r := h264.NewBitReader(buf)
		list := make([]int32, 16)
		out := []string{}
		note := func(v ...interface{}) { out = append(out, fmt.Sprint(append(v, r.Available())...)) }
		return &use{what: func() string { return fmt.Sprint(out, list, hexs([][]byte{buf})) }, steps: []func(){
			func() { v, e := r.ReadBits(uint(24 + n)); note(v, e == nil) },
			func() {
				v, e := r.ReadUnsignedGolomb()
				x, e2 := r.ReadSignedGolomb()
				note(v, e == nil, x, e2 == nil)
			},
			func() { v, e := r.ReadScalingList(list); y, e2 := r.ReadByteBits(7); note(v, e == nil, y, e2 == nil) },
			func() { e := r.SkipGolomb(); v, e2 := r.ReadBits(32); note(e == nil, v, e2 == nil) },
		}}
	}},
	{name: "ParseSPS and ParsePPS", make: func(w *world, n int) *use {
		a, b, c, d := madeSPS(n, 0), madePPS(n, 0, 0), madeSPS(n, 1), madePPS(n, 1, 1)
		return setsUse(func(ps *h264.ParameterSets) error { return ps.ParseSPS(a) }, func(ps *h264.ParameterSets) error { return ps.ParsePPS(b) },
			func(ps *h264.ParameterSets) error { return ps.ParseSPS(c) }, func(ps *h264.ParameterSets) error { return ps.ParsePPS(d) })
	}},
	{name: "ParseSprop", make: func(w *world, n int) *use {
		a, b := append([]byte{0x67}, h264.RBSPToEncapsulated(madeSPS(n, 2))...), append([]byte{0x68}, madePPS(n, 2, 0)...)
		bad := append([]byte{0x67}, madeSPS(n, 3)[:9]...)
		return setsUse(func(ps *h264.ParameterSets) error { return ps.ParseSprop(a) }, func(ps *h264.ParameterSets) error { return ps.ParseSprop(bad) },
			func(ps *h264.ParameterSets) error { return ps.ParseSprop(b) })
	}},
	{name: "fragments", make: func(w *world, n int) *use {
		return sinkUse(uint32(n)<<20, cat([]byte{0x7c, 0x85}, blob(9+n, n)), cat([]byte{0x7c, 0x05}, blob(5, n+1)), cat([]byte{0x7c, 0x45}, blob(7, n)),
			cat([]byte{0x7c, 0x81}, blob(4, n)))
	}},
	{name: "aggregates", make: func(w *world, n int) *use {
		return sinkUse(uint32(n)<<20, cat([]byte{0x78}, sized(cat([]byte{0x67}, blob(6, n))), sized(cat([]byte{0x68, 0, 0, 3, 1}, blob(3, n)))),
			cat([]byte{0x79, 1, byte(n)}, sized(cat([]byte{0x65}, blob(8, n))), sized(cat([]byte{0x41}, blob(6, n)))),
			cat([]byte{0x7a, 2, byte(n)}, []byte{0, 9, 0, 0, 7, 0x65, 5, byte(n), 0, 0, 3}, []byte{0, 7, 1, 0, 8, 0x41, byte(n), 7, 9}))
	}},
	{name: "single units", make: func(w *world, n int) *use {
		return sinkUse(uint32(n)<<20, cat([]byte{0x65}, blob(12, n)), cat([]byte{0x41, 5, 0, 0, 3, 0, 7}, blob(5, n)), cat([]byte{0, 0, 0, 1, 0x67, 8}, []byte{byte(n), 9, 0x80, 0, 0, 1, 0x68, 6, 0x80}))
	}},
	{name: "rtp.Unpack", make: func(w *world, n int) *use {
		bufs := [][]byte{cat([]byte{0x92, 0xe0, 1, byte(n), 0, 0, 0, 2, 0, 0, 0, 3}, []byte{1, 2, 3, byte(n), 5, 6, 7, 8}, []byte{0, 1, 0, 1, 9, 9, byte(n), 9}, blob(20, n)),
			cat([]byte{0xa0, 0x60, 1, byte(n + 1), 0, 0, 1, 2, 0, 0, 0, 3}, blob(30, n), []byte{0, 2})}
		var ps []*rtp.Packet
		var bad []string
		u := &use{what: func() string {
			out := fmt.Sprint(bad)
			for _, p := range ps {
				out += fmt.Sprintf(" %+v", *p)
			}
			return out + hexs(bufs)
		}}
		step := func(b []byte) func() {
			return func() {
				p, err := rtp.Unpack(b)
				if err != nil || p == nil {
					bad = append(bad, fmt.Sprint(err))
					return
				}
				ps = append(ps, p)
				u.keep(func() string { return fmt.Sprintf("%+v", *p) })
				u.give(p)
			}
		}
		u.steps = []func(){step(bufs[0]), step([]byte{0x40, byte(n)}), step(bufs[1])}
		return u
	}},
	{name: "rtcp.Unpack", make: func(w *world, n int) *use {
		bufs := [][]byte{cat([]byte{0x80, 200, 0, 6}, blob(24, n)), cat([]byte{0x81, 201, 0, 7}, blob(28, n)), cat([]byte{0x80, 200, 0, 6}, blob(24, n+3))}
		var out []*rtcp.Packet
		u := &use{what: func() string {
			s := ""
			for _, p := range out {
				if p == nil {
					s += " nil"
					continue
				}
				s += reportText(p)
			}
			return s + hexs(bufs)
		}}
		for _, b := range bufs {
			b := b
			u.steps = append(u.steps, func() {
				p, _ := rtcp.Unpack(b)
				if out = append(out, p); p != nil {
					u.keep(func() string { return reportText(p) })
					u.give(p)
				}
			})
		}
		return u
	}},
	{name: "sdp.Parse", make: func(w *world, n int) *use {
		bufs := [][]byte{madeSDP(n), madeSDP(n + 1)}
		var got []sdp.Media
		u := &use{what: func() string { return mediaText(got) + string(bufs[0]) + string(bufs[1]) }}
		for _, b := range bufs {
			b := b
			u.steps = append(u.steps, func() {
				l := sdp.Parse(b)
				for _, m := range l {
					got = append(got, m)
					u.keep(func() string { return fmt.Sprintf("%+v", m) })
				}
				u.give(l)
			})
		}
		return u
	}},
	{name: "playlist", make: func(w *world, n int) *use {
		var pl *hls.Playlist
		var texts []string
		u := &use{what: func() string {
			if pl == nil {
				return fmt.Sprint(texts)
			}
			return fmt.Sprint(texts, pl.String())
		}}
		u.steps = append(u.steps, func() {
			var err error
			if pl, err = hls.NewPlaylist(fmt.Sprint("http://h/", n), "/v/a.ts", 2+n, 3.5); err != nil {
				pl = nil
			}
		})
		for i := 0; i < 3; i++ {
			i := i
			u.steps = append(u.steps, func() {
				pl.AddSegment(float64(n)+float64(i)/4, int64(1000*n+i+1))
				pl.AddSegment(float64(n)+float64(i)/8, int64(2000*n+i+1))
				texts = append(texts, pl.String())
			})
		}
		return u
	}},
	{name: "Digest with qop", make: func(w *world, n int) *use {
		return digestUse(n, func(ch *auth.Challenge) { ch.Qops = []string{"auth"} }, false)
	}},
	{name: "Digest with MD5-sess, auth-int", make: func(w *world, n int) *use {
		return digestUse(n, func(ch *auth.Challenge) { ch.Qops = []string{"auth-int"}; ch.Alg = "MD5-sess"; ch.Opaque = "o" }, true)
	}},
	{name: "Digest without qop", make: func(w *world, n int) *use {
		return digestUse(n, func(ch *auth.Challenge) {}, false)
	}},
	{name: "Basic", make: func(w *world, n int) *use {
		var got []string
		var f rtsp.DigestAuth
		return &use{what: func() string { return fmt.Sprint(got) }, steps: []func(){
			func() {
				if d, err := rtsp.NewDigest("rtsp://h/", `Basic realm="r"`); err == nil {
					f = d.Authenticate(fmt.Sprint("u", n), fmt.Sprint("p", n))
				}
			},
			func() { got = append(got, f("PLAY", nil)) },
			func() { got = append(got, f("PAUSE", nil)) },
		}}
	}},
	{name: "Transport", make: func(w *world, n int) *use {
		t, v := rtsp.NewTransport(rtsp.ProtoTCP, 2*n), rtsp.NewTransport(rtsp.ProtoUnicast, 2*n)
		var texts []string
		return &use{what: func() string { return fmt.Sprint(texts, transportText(t), transportText(v)) }, steps: []func(){
			func() { texts = append(texts, t.String(), v.String()) },
			func() {
				texts = append(texts, fmt.Sprint(t.Parse(fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d;ssrc=%08X", n+4, n+5, n+77)), t.String()))
			},
			func() {
				texts = append(texts, fmt.Sprint(v.Parse(fmt.Sprintf("RTP/AVP;unicast;server_port=%d-%d;source=10.0.0.%d;mode=\"PLAY\"", 6000+n, 6001+n, n)), v.String()))
			},
		}}
	}},
	{name: "feeds", make: func(w *world, n int) *use {
		text := madeSDP(n)
		feeds, err := rtsp.ParseFeeds([]int{rtsp.ProtoTCP, rtsp.ProtoUnicast, rtsp.ProtoMulticast}[n%3], text)
		var errs []bool
		u := &use{what: func() string {
			out := fmt.Sprint(err == nil, errs, string(text))
			for _, f := range feeds {
				out += fmt.Sprintf(" %+v %s %v %s", f.Media, f.TransportHeader(), f.IsSet, setsText(f.Sets))
			}
			return out
		}}
		for i := range feeds {
			i := i
			u.steps = append(u.steps, func() {
				u.give(&feeds[i].Media)
				v := []string{"RTP/AVP/TCP;unicast;interleaved=", "RTP/AVP;unicast;server_port=", "RTP/AVP;multicast;destination=225.0.0.1;ttl=3;port="}[n%3]
				errs = append(errs, feeds[i].TransportSetup(fmt.Sprintf("%s%d-%d", v, 40+10*n+2*i, 41+10*n+2*i)) == nil)
			})
		}
		return u
	}},
	{name: "requests", make: func(w *world, n int) *use {
		r := &rtsp.Request{Verb: rtsp.VerbPlay, Cseq: 10 * n, URI: fmt.Sprint("rtsp://h/", n), Session: fmt.Sprint("s", n)}
		return packsUse(
			func() []byte { return r.Pack() },
			func() []byte { r.Cseq++; r.Auth = "Basic YTpi"; r.Session = ""; return r.Pack() },
			func() []byte {
				x := &rtsp.Request{Verb: rtsp.VerbSetup, Cseq: n, URI: fmt.Sprint("rtsp://h/", n, "/a"), Header: rtsp.MessageHeader{}}
				x.Header.Set("Transport", fmt.Sprint("RTP/AVP", n))
				return x.Pack()
			})
	}},
	{name: "headers", make: func(w *world, n int) *use {
		h := rtsp.MessageHeader{}
		return &use{what: func() string {
			l := []string{}
			for k, v := range h {
				l = append(l, k+"="+v)
			}
			sort.Strings(l)
			return fmt.Sprint(l, h.Get("session"), h.Get("CSEQ"), h.Get("x-"+fmt.Sprint(n)))
		}, steps: []func(){
			func() { h.Set("session", fmt.Sprint("a", n)); h.Set("x-"+fmt.Sprint(n), "1") },
			func() { h.Set("CSeq", fmt.Sprint(n)); h.Del("Session") },
			func() { h.Set("SESSION", fmt.Sprint("b", n)) },
		}}
	}},
	{name: "ConnectHTTP", make: func(w *world, n int) *use {
		fs := []func() []byte{}
		for i, verb := range []string{"GET", "POST", "GET"} {
			fs = append(fs, func() []byte {
				return rtsp.ConnectHTTP(verb, fmt.Sprintf("http://h%d/%d", n, i), strings.Repeat(fmt.Sprint(n), 4+i))
			})
		}
		return packsUse(fs...)
	}},
	{name: "connection", net: true, make: func(w *world, n int) *use {
		feed := func(k int) string {
			body := string(blob(30+5*n+k, n))
			return fmt.Sprintf("RTSP/1.0 200 OK\r\nCSeq: %d\r\nSession: s%d-%d\r\nContent-Length: %d\r\n\r\n%s", 10*n+k, n, k, len(body), body)
		}
		raw := string(blob(17, n))
		conn, x := dialed(w, fmt.Sprintf("rtsp://u%d:p%d@h%d/p%d", n, n, n, n))
		u, unpack, read := connUse(w, conn)
		u.steps = []func(){
			func() { x.SimFeed([]byte(feed(0) + feed(1)[:25])) },
			unpack,
			func() { x.SimFeed([]byte(feed(1)[25:] + raw)); unpack() },
			func() { read(17) },
		}
		return u
	}},
	{name: "long stream", net: true, near: true, long: true, make: func(w *world, n int) *use {
		conn, x := dialed(w, "rtsp://h/p")
		u, unpack, read := connUse(w, conn)
		text := func(k int) string {
			body := string(blob(1+k%120, n))
			return fmt.Sprintf("RTSP/1.0 200 OK\r\nCSeq: %d\r\nSession: s%d-%d\r\nContent-Length: %d\r\n\r\n%s", k, n, k, len(body), body)
		}
		data := func(k int) string { return string(blob(1+k%90, n+k)) }
		part := func(from, to int) func() {
			return func() {
				t := ""
				for k := from; k < to; k++ {
					t += text(k) + data(k)
				}
				x.SimFeed([]byte(t))
				for k := from; k < to; k++ {
					unpack()
					read(1 + k%90)
				}
			}
		}
		u.steps = []func(){part(0, 1), part(1, 40), part(40, 90)}
		return u
	}},
	{name: "reports of one source", near: true, make: func(w *world, n int) *use {
		var out []*rtcp.Packet
		u := &use{what: func() string {
			s := ""
			for _, p := range out {
				s += reportText(p)
			}
			return s
		}}
		for i := 0; i < 3; i++ {
			u.steps = append(u.steps, func() {
				p, err := rtcp.Unpack(cat([]byte{0x80, 200, 0, 6, 0, 0, 0, 9}, blob(20, n+3*i)))
				if err != nil || p == nil {
					w.c.Failf("a sender report is refused: %v", err)
				}
				out = append(out, p)
				u.keep(func() string { return reportText(p) })
				u.give(p)
			})
		}
		return u
	}},
	{name: "packets of one source", near: true, make: func(w *world, n int) *use {
		var out []*rtp.Packet
		u := &use{what: func() string {
			s := ""
			for _, p := range out {
				s += fmt.Sprintf("%+v", *p)
			}
			return s
		}}
		for i := 0; i < 3; i++ {
			u.steps = append(u.steps, func() {
				p, err := rtp.Unpack(cat([]byte{0xb1, 0xe0, 1, 1, 0, 0, 0, 2, 0, 0, 0, 3, 0, 0, 0, byte(n), 7, 7, 0, 1, 0, 0, byte(n), 1}, []byte{1, byte(n), byte(i)}, []byte{0, 2}))
				if err != nil || p == nil {
					w.c.Failf("a packet is refused: %v", err)
				}
				out = append(out, p)
				u.keep(func() string { return fmt.Sprintf("%+v", *p) })
				u.give(p)
			})
		}
		return u
	}},
	{name: "similar units", near: true, make: func(w *world, n int) *use {
		f := func(b []byte) [][]byte {
			return append(h264.SplitAnnexB(b), h264.EBSPToRaw(b[4:]), h264.RBSPToEncapsulated(b[4:]))
		}
		return bytesUse(n, f, cat([]byte{0, 0, 0, 1}, blob(70, 5), []byte{byte(n + 7)}), cat([]byte{0, 0, 0, 1}, blob(30, 5), []byte{byte(n + 7)}, blob(40, 5), []byte{9}))
	}},
	{name: "similar parameter sets", near: true, make: func(w *world, n int) *use {
		a, b := similarSPS(n), similarPPS(n)
		return setsUse(func(ps *h264.ParameterSets) error { return ps.ParseSPS(a) }, func(ps *h264.ParameterSets) error { return ps.ParsePPS(b) },
			func(ps *h264.ParameterSets) error { return ps.ParseSprop(cat([]byte{0x67}, a)) }, func(ps *h264.ParameterSets) error { return ps.ParseSprop(cat([]byte{0x68}, b)) })
	}},
	{name: "similar payloads", near: true, make: func(w *world, n int) *use {
		end := []byte{byte(n + 9)}
		return sinkUse(90000, cat([]byte{0x7c, 0x85}, blob(9, 1), end), cat([]byte{0x7c, 0x45}, blob(7, 1), end), cat([]byte{0x78}, sized(cat([]byte{0x67}, blob(6, 1), end)), sized(cat([]byte{0x68}, blob(3, 1), end))),
			cat([]byte{0x65}, blob(12, 1), end))
	}},
	{name: "similar descriptions", near: true, make: func(w *world, n int) *use {
		text := fmt.Sprintf("v=0\r\nm=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=control:track1\r\na=fmtp:96 packetization-mode=%d; sprop-parameter-sets=%s,%s\r\n", n%2, base64.StdEncoding.EncodeToString(cat([]byte{0x67}, similarSPS(n))), base64.StdEncoding.EncodeToString(cat([]byte{0x68}, similarPPS(n))))
		out := []string{}
		u := &use{what: func() string { return fmt.Sprint(out) }}
		u.steps = []func(){
			func() { l := sdp.Parse([]byte(text)); out = append(out, mediaText(l)); u.give(l) },
			func() {
				feeds, err := rtsp.ParseFeeds(rtsp.ProtoTCP, []byte(text))
				out = append(out, fmt.Sprint(err == nil))
				for _, f := range feeds {
					u.give(&f.Media)
				}
				for _, f := range feeds {
					out = append(out, fmt.Sprintf(" %+v %s %s", f.Media, f.TransportHeader(), setsText(f.Sets)))
				}
			},
		}
		return u
	}},
	{name: "similar playlists", near: true, make: func(w *world, n int) *use {
		var pl *hls.Playlist
		texts := []string{}
		add := func(i int) func() {
			return func() { pl.AddSegment(3+float64(n)/8, int64(i)); texts = append(texts, pl.String()) }
		}
		return &use{what: func() string { return fmt.Sprint(texts) }, steps: []func(){
			func() {
				var err error
				if pl, err = hls.NewPlaylist("http://h/", "/v/a.ts", 2, 3.5); err != nil {
					w.c.Failf("a playlist is refused: %v", err)
				}
			}, add(1), add(2), add(3),
		}}
	}},
	{name: "similar requests", near: true, make: func(w *world, n int) *use {
		r := &rtsp.Request{Verb: rtsp.VerbPlay, Cseq: 7, URI: "rtsp://h/p", Session: fmt.Sprint("s", n), Auth: fmt.Sprint("Basic ", n), Header: rtsp.MessageHeader{"Range": fmt.Sprint("npt=", n)}}
		return packsUse(func() []byte { return r.Pack() }, func() []byte { r.Auth = ""; return r.Pack() }, func() []byte { r.Session = ""; return r.Pack() }, func() []byte { return rtsp.ConnectHTTP("GET", "http://h/", fmt.Sprint("cookie", n)) })
	}},
	{name: "similar transports", near: true, make: func(w *world, n int) *use {
		t := rtsp.NewTransport(rtsp.ProtoUnicast, 0)
		var texts []string
		parse := func(i int) func() {
			return func() {
				texts = append(texts, fmt.Sprint(t.Parse(fmt.Sprintf("RTP/AVP;unicast;client_port=50000-50001;server_port=6000-6001;ssrc=%08X", n+i)), t.String(), transportText(t)))
			}
		}
		return &use{what: func() string { return fmt.Sprint(texts) }, steps: []func(){parse(0), parse(1), parse(2)}}
	}},
	{name: "Digests, passwords differ", near: true, make: func(w *world, n int) *use { return digestNear(n, "password") }},
	{name: "Digests, users differ", near: true, make: func(w *world, n int) *use { return digestNear(n, "user") }},
	{name: "Digests, nonces differ", near: true, make: func(w *world, n int) *use { return digestNear(n, "nonce") }},
	{name: "Digests, realms differ", near: true, make: func(w *world, n int) *use { return digestNear(n, "realm") }},
	{name: "Digests, addresses differ", near: true, make: func(w *world, n int) *use { return digestNear(n, "uri") }},
	{name: "Digests, algorithms differ", near: true, make: func(w *world, n int) *use { return digestNear(n, "alg") }},
	{name: "Digests, qualities differ", near: true, make: func(w *world, n int) *use { return digestNear(n, "qop") }},
	{name: "Digests, bodies differ", near: true, make: func(w *world, n int) *use { return digestNear(n, "body") }},
}

func init() {
	// those that stand for different data first
	sort.SliceStable(useKinds, func(i, j int) bool { return !useKinds[i].near && useKinds[j].near })
}

// fars is the number of kinds whose uses are mixed with all others.
func fars() int {
	n := 0
	for n < len(useKinds) && !useKinds[n].near {
		n++
	}
	return n
}

// kinds chooses a pair of kinds.
func kinds(c *mc.C) (int, int) {
	a := c.Choose(len(useKinds))
	if useKinds[a].near {
		return a, a
	}
	return a, c.Choose(fars())
}

// alone is what a use has after each of its steps when nothing else happens.
func alone(w *world, k, n int) []string {
	u := useKinds[k].make(w, n)
	u.own = true
	out := []string{u.what()}
	for _, f := range u.steps {
		f()
		u.changed(w.c, useKinds[k].name)
		out = append(out, u.what())
	}
	return out
}

var aloneUse = map[[2]int][]string{}

// aloneAll fills the table of all uses run by themselves.
func aloneAll(c *mc.C) {
	if len(aloneUse) > 0 {
		return
	}
	all := map[[2]int][]string{}
	for k := range useKinds {
		for n := 0; n < 4; n++ {
			bubble(c, false, func(w *world) { all[[2]int{k, n}] = alone(w, k, n) })
		}
	}
	aloneUse = all
}

// member is a use that takes part in a mixture.
type member struct {
	k, n, at int
	u        *use
}

func (m *member) name() string { return fmt.Sprintf("%s (%d)", useKinds[m.k].name, m.n) }

func (m *member) check(c *mc.C, hist []string) {
	if got, want := m.u.what(), aloneUse[[2]int{m.k, m.n}][m.at]; got != want {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		from := i - 40
		if from < 0 {
			from = 0
		}
		cut := func(s string) string {
			if s = s[from:]; len(s) > 120 {
				s = s[:120]
			}
			return s
		}
		c.Failf("after %s: %s holds ...%s instead of ...%s", strings.Join(hist, ", "), m.name(), cut(got), cut(want))
	}
}

// mixture runs the uses with every interleaving of their steps.
func mixture(c *mc.C, ms []*member, always bool) {
	bubble(c, false, func(w *world) {
		for _, m := range ms {
			m.u = useKinds[m.k].make(w, m.n)
		}
		hist := []string{}
		for {
			open := []*member{}
			for _, m := range ms {
				if m.at < len(m.u.steps) {
					open = append(open, m)
				}
			}
			if len(open) == 0 {
				break
			}
			m := open[c.Choose(len(open))]
			m.u.steps[m.at]()
			m.at++
			hist = append(hist, fmt.Sprintf("step %d of %s", m.at, m.name()))
			c.Step(1)
			if always {
				for _, m := range ms {
					m.check(c, hist)
				}
			}
		}
		for _, m := range ms {
			m.check(c, hist)
		}
		c.State(strings.Join(hist, ","))
		c.Logf("%s", strings.Join(hist, ", "))
	})
}

// apart runs the uses in goroutines of their own.
func apart(c *mc.C, ms []*member) {
	bubble(c, false, func(w *world) {
		for _, m := range ms {
			m.u = useKinds[m.k].make(w, m.n)
		}
		w.sched = true
		w.sim.SimControlAll()
		for _, m := range ms {
			m := m
			vrt.Go(func() {
				for _, f := range m.u.steps {
					f()
					m.at++
				}
			})
		}
		running := -1
		for n := 0; ; n++ {
			w.wait()
			ps := w.sim.SimParked()
			if len(ps) == 0 {
				break
			}
			if n > 20000 {
				c.Failf("%s and %s together do not come to rest", ms[0].name(), ms[1].name())
			}
			k, own := 0, -1
			for i, p := range ps {
				if p.ID == running {
					own = i
				}
			}
			if own >= 0 {
				if k = c.Dev(len(ps)); k == 0 {
					k = own
				} else if k <= own {
					k--
				}
			} else {
				k = c.Choose(len(ps))
			}
			running = ps[k].ID
			c.Step(1)
			w.sim.SimGrant(ps[k])
		}
		w.wait()
		synctest.Wait()
		if panics, _ := w.sim.SimTrouble(); len(panics) > 0 {
			c.Failf("%s and %s in two goroutines: panic %s", ms[0].name(), ms[1].name(), panics[0])
		}
		w.evs = nil
		if vrt.SimRace && w.t.Failed() {
			w.races()
		}
		for _, m := range ms {
			if m.at != len(m.u.steps) {
				c.Failf("%s and %s in two goroutines: %s does not return", ms[0].name(), ms[1].name(), m.name())
			}
			m.check(c, []string{"running in goroutines of their own: " + ms[0].name() + " and " + ms[1].name()})
		}
		c.State(ms[0].name(), ms[1].name(), c.Trail())
	})
}

func init() {
	nf := fars()
	nn := len(useKinds) - nf
	add(mc.Check{
		ID:          "C37",
		Rule:        "an execution is one mixture of uses of the packages, each with its own objects; trivial only when a use has a single step",
		Assumptions: []string{"what a use gets when it runs by itself is right, which the other properties decide"},
		Drivers: []mc.Driver{
			{Name: "pairs", Split: 3, Bounds: fmt.Sprintf("every ordered pair of %d kinds of uses (2 to 4 calls each, with objects and buffers of their own, all results kept), same or different data, and pairs of the same of %d further kinds, whose data differ in one thing only; every interleaving of their calls, both examined after each call", nf, nn),
				Body: func(c *mc.C) {
					aloneAll(c)
					a, b := kinds(c)
					mixture(c, []*member{{k: a, n: 0}, {k: b, n: 1 - c.Choose(2)}}, true)
				}},
			{Name: "triples", Split: 3, Bounds: fmt.Sprintf("three uses: two of one kind with one of each of %d kinds, three of one of these or of %d kinds with similar data, different data, every interleaving, examined at the end", nf, nn),
				Body: func(c *mc.C) {
					aloneAll(c)
					a, b := kinds(c)
					if !c.Thorough && (len(aloneUse[[2]int{a, 0}]) > 4 || len(aloneUse[[2]int{b, 0}]) > 4) && a != b {
						c.Trivial()
						return
					}
					mixture(c, []*member{{k: a, n: 0}, {k: a, n: 1}, {k: b, n: 2}}, false)
				}},
			{Name: "many", Split: 3, Bounds: fmt.Sprintf("a use of each of %d kinds, suspended after each of its calls while 1, 2, 4, ... 256 (thorough 4096) uses of each kind, with four sets of data, begin and are kept or run to their end and are dropped, then continued; the same within %d kinds with similar data", nf, nn),
				Body: func(c *mc.C) {
					aloneAll(c)
					a, b := kinds(c)
					most := 9
					if c.Thorough {
						most = 13
					}
					count := 1 << uint(c.Choose(most))
					at := c.Choose(len(aloneUse[[2]int{a, 0}]))
					how := c.Choose(2)
					if useKinds[b].net && count > 64 {
						count = 64
					}
					bubble(c, false, func(w *world) {
						m := &member{k: a, n: 0}
						m.u = useKinds[a].make(w, 0)
						hist := []string{}
						run := func(to int) {
							for ; m.at < to; m.at++ {
								m.u.steps[m.at]()
							}
							hist = append(hist, fmt.Sprintf("%d steps of %s", m.at, m.name()))
							m.check(c, hist)
						}
						run(at)
						kept := []*member{}
						for i := 0; i < count; i++ {
							o := &member{k: b, n: i % 4}
							o.u = useKinds[b].make(w, o.n)
							for o.at < len(o.u.steps) && (how == 1 || o.at < 1) {
								o.u.steps[o.at]()
								o.at++
								c.Step(1)
							}
							if how == 0 {
								kept = append(kept, o)
							}
						}
						hist = append(hist, fmt.Sprintf("%d uses of %s", count, useKinds[b].name))
						m.check(c, hist)
						run(len(m.u.steps))
						for i, o := range kept {
							if i < 4 || i >= len(kept)-4 || i&(i-1) == 0 {
								for ; o.at < len(o.u.steps); o.at++ {
									o.u.steps[o.at]()
								}
								o.check(c, hist)
							}
						}
						m.check(c, hist)
						c.State(hist)
					})
				}},
		},
	})
	extend("C37", mc.Driver{Name: "written", Split: 2, Bounds: fmt.Sprintf("every ordered pair of %d kinds of uses and pairs of the same of %d further kinds, same or different data: the second one is suspended after each of its calls, the first one runs and overwrites everything it has been given (up to the capacity of what it was given) after each call or at its end, and the second one continues; and each use by itself overwriting what it is given", nf, nn),
		Body: func(c *mc.C) {
			aloneAll(c)
			a, b := kinds(c)
			other := 0
			if useKinds[b].long || useKinds[a].long {
				c.Trivial()
				return
			}
			other = c.Choose(2)
			soon := c.Bool()
			at := c.Choose(len(aloneUse[[2]int{b, other}]))
			bubble(c, false, func(w *world) {
				m := &member{k: b, n: other}
				m.u = useKinds[b].make(w, other)
				hist := []string{fmt.Sprintf("%d steps of %s", at, m.name())}
				for ; m.at < at; m.at++ {
					m.u.steps[m.at]()
				}
				x := useKinds[a].make(w, 0)
				x.own = true
				for _, f := range x.steps {
					f()
					if soon {
						x.ruin()
					}
					c.Step(1)
				}
				x.ruin()
				hist = append(hist, fmt.Sprintf("all of %s (0), which overwrote what it was given", useKinds[a].name))
				m.check(c, hist)
				for m.at < len(m.u.steps) {
					m.u.steps[m.at]()
					m.at++
					m.check(c, hist)
				}
				c.State(a, b, other, soon, at)
				c.Logf("%s", strings.Join(hist, ", "))
			})
			if at == 0 && a == b {
				// An object does not depend on what it has returned, either.
				bubble(c, false, func(w *world) {
					want := useKinds[a].make(w, other)
					want.own = true
					if want.store || useKinds[a].name == "feeds" {
						return
					}
					for _, f := range want.steps {
						f()
					}
					got := useKinds[a].make(w, other)
					got.own = true
					for _, f := range got.steps {
						f()
						got.ruin()
					}
					for i := range want.kept {
						if i >= len(got.kept) || got.kept[i].was != want.kept[i].was {
							c.Failf("%s (%d) overwrites what it is given after each call: result %d of %d differs from %.200s", useKinds[a].name, other, i+1, len(want.kept), want.kept[i].was)
						}
					}
				})
			}
		}})
	extend("C37", mc.Driver{Name: "long", Bounds: fmt.Sprintf("one use of each of %d kinds whose calls are repeated 64 (thorough 1024) times with the same objects, everything returned is kept and examined after rounds 1, 2, 4 and so on", len(useKinds)),
		Body: func(c *mc.C) {
			k := c.Choose(len(useKinds))
			rounds := 64
			if c.Thorough {
				rounds = 1024
			}
			bubble(c, false, func(w *world) {
				u := useKinds[k].make(w, c.Choose(4))
				u.own = true
				for i := 0; i < rounds; i++ {
					for _, f := range u.steps {
						f()
						c.Step(1)
					}
					if i&(i-1) == 0 || i == rounds-1 {
						u.changed(c, useKinds[k].name)
					}
				}
				c.State(c.Trail())
				c.Logf("%d rounds of %s, %d results", rounds, useKinds[k].name, len(u.kept))
			})
		}})
	add(mc.Check{
		ID:          "C38",
		Rule:        "an execution is one schedule of two goroutines that have nothing in common; trivial when the pair is examined in the other order",
		Assumptions: []string{"code between two scheduling points runs without interruption; the race detector, which the schedules run under, shows that no other goroutine could have told the difference"},
		Drivers: []mc.Driver{
			{Name: "goroutines", Split: 3, Budget: [2]int{1, 2}, Bounds: fmt.Sprintf("two uses of every pair of %d kinds and of each of %d kinds with similar data in two goroutines; scheduling points before every lock, read and write and every statement that uses a variable of a package; at most one (thorough two) preemptions; with the race detector", nf, nn-1),
				Body: func(c *mc.C) {
					aloneAll(c)
					a, b := kinds(c)
					if b < a || useKinds[a].long {
						c.Trivial()
						return
					}
					apart(c, []*member{{k: a, n: 0}, {k: b, n: 1}})
				}},
		},
	})
}
