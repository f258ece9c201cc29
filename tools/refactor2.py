# usage: gen2.py NAME OUTDIR ; second set of refactorings: replaces whole functions
import sys,re,os
name,d=sys.argv[1:3]
R={}
def fn(f,*news):
    """Replaces each function or method of the file by the text given."""
    p=os.path.join(d,f); s=open(p).read()
    for head,new in news:
        i=s.index('\n'+head)+1
        j=s.index('\n}\n',i)+3
        s=s[:i]+new.lstrip('\n')+s[j:]
    open(p,'w').write(s)
def sub(f,*prs):
    p=os.path.join(d,f); s=open(p).read()
    for a,b in prs:
        assert s.count(a)==1,(name,f,a,s.count(a))
        s=s.replace(a,b)
    open(p,'w').write(s)
S='net/rtsp/session.go';C='net/rtsp/connection.go';H='net/rtsp/http.go'

def main_c():
    p=os.path.join(d,'cmd/ouro/main.go')
    open(p,'w').write(r"""package main

import (
	"flag"
	"log"
	"os"
	"time"

	"github.com/aboukirev/ouro/net/h264"
	"github.com/aboukirev/ouro/net/rtcp"
	"github.com/aboukirev/ouro/net/rtp"
	"github.com/aboukirev/ouro/net/rtsp"
)

const pause = 5 * time.Second

var names = map[int]string{
	rtsp.StageReady: "Ready",
	rtsp.StagePlay:  "Playing",
	rtsp.StagePause: "Pausing",
	rtsp.StageDone:  "Done",
}

// client drives one session from opening to the end.
type client struct {
	sess  *rtsp.Session
	out   *log.Logger
	stage int
	timer *time.Timer
	sinks [256]*h264.NALSink
}

func (c *client) must(err error) {
	if err != nil {
		c.out.Fatal(err)
	}
}

func (c *client) run() {
	c.stage = rtsp.StageInit
	c.timer = time.NewTimer(time.Hour)
	c.timer.Stop()
	for more := true; more; {
		select {
		case <-c.timer.C:
			more = c.expired()
		case stage := <-c.sess.State:
			c.changed(stage)
		case pkt := <-c.sess.Data:
			if err := c.packet(pkt); err != nil {
				c.out.Println(err)
				more = false
			}
		}
	}
}

func (c *client) expired() bool {
	c.out.Printf("Timer: stage=%d\n", c.stage)
	switch c.stage {
	case rtsp.StagePlay:
		c.must(c.sess.Pause())
	case rtsp.StagePause:
		c.out.Println("Stage: Closing")
		c.must(c.sess.Teardown())
	case rtsp.StageDone:
		return false
	}
	return true
}

func (c *client) changed(stage int) {
	c.stage = stage
	name, known := names[stage]
	if !known {
		c.out.Printf("Stage: %d\n", stage)
		return
	}
	c.out.Println("Stage: " + name)
	if stage == rtsp.StageReady {
		c.must(c.sess.Play())
		return
	}
	c.timer.Reset(pause)
}

func (c *client) packet(pkt rtsp.RawPacket) error {
	if pkt.Channel&1 != 0 {
		p, err := rtcp.Unpack(pkt.Payload)
		if err != nil {
			return err
		}
		c.out.Printf("RTCP [%d] PT=%d, LN=%d, C=%d\r\n", pkt.Channel, p.PT, p.LN, p.C())
		return nil
	}
	p, err := rtp.Unpack(pkt.Payload)
	if err != nil {
		return err
	}
	c.out.Printf("RTP [%d] PT=%d, CC=%d, M=%t, SN=%d\r\n", pkt.Channel, p.PT(), p.CC(), p.M(), p.SN)
	if len(p.PL) == 0 {
		return nil
	}
	sink := c.sinks[pkt.Channel]
	if sink == nil {
		sink = h264.NewNALSink()
		c.sinks[pkt.Channel] = sink
	}
	if err := sink.Push(p.PL, p.TS); err != nil {
		return err
	}
	for _, nal := range sink.Units {
		c.out.Printf("NAL Zero=%t, RefIdc=%d, Type=%d, Size=%d\r\n", nal.ZeroBit(), nal.RefIdc(), nal.Type(), len(nal.Data))
	}
	return nil
}

func main() {
	flag.Parse()
	if flag.NArg() != 1 {
		log.Panic("Wrong number of arguments.  Exactly one is expected.")
	}
	log.SetOutput(os.Stdout)
	c := &client{sess: rtsp.NewSession(), out: log.New(os.Stdout, "", log.LstdFlags)}
	if err := c.sess.Open(flag.Arg(0), rtsp.ProtoTCP); err != nil {
		log.Fatalln(err)
	}
	c.run()
}
""")
R['main_c']=main_c

def conn_c():
    fn(C,('func Dial(',r"""
func Dial(uri string, proto int) (c *Conn, err error) {
	full, err := url.Parse(uri)
	if err != nil {
		return nil, err
	}
	if _, _, e := net.SplitHostPort(full.Host); e != nil {
		full.Host += ":554"
	}
	public := *full
	public.User = nil

	remote, err := net.ResolveTCPAddr("tcp", full.Host)
	if err != nil {
		return nil, err
	}
	sock, err := net.DialTCP("tcp", nil, remote)
	if err != nil {
		return nil, err
	}
	defer func() {
		if err != nil {
			sock.Close()
			c = nil
		}
	}()

	c = new(Conn)
	c.conn = sock
	c.rdr = bufio.NewReaderSize(sock, 2048)
	c.Data = make(chan RawPacket, 20)
	c.guid = fmt.Sprintf("%016x", rand.Uint64())
	c.Proto = proto
	c.Timeout = 2 * time.Second
	c.URL = full
	c.BaseURI = public.String()
	if proto == ProtoHTTP {
		err = c.tunnel()
	}
	return c, err
}

// tunnel issues GET and reads the headers of the response.
func (c *Conn) tunnel() error {
	_, err := c.conn.Write(ConnectHTTP("GET", c.BaseURI, c.guid))
	if err != nil {
		return err
	}
	return ReceiveHTTP(c)
}
"""),('func (c *Conn) Write(',r"""
func (c *Conn) Write(p []byte) (int, error) {
	if c.Proto != ProtoHTTP {
		c.limit(c.conn)
		return c.conn.Write(p)
	}
	c.limit(c.post)
	if !c.connected {
		if _, err := c.post.Write(ConnectHTTP("POST", c.BaseURI, c.guid)); err != nil {
			return 0, err
		}
		c.connected = true
	}
	w := base64.NewEncoder(base64.StdEncoding, c.post)
	n, err := w.Write(p)
	w.Close()
	return n, err
}

func (c *Conn) limit(conn *net.TCPConn) {
	if c.Timeout > 0 {
		conn.SetWriteDeadline(time.Now().Add(c.Timeout))
	}
}

func (c *Conn) limitRead() {
	if c.Timeout > 0 {
		c.conn.SetReadDeadline(time.Now().Add(c.Timeout))
	}
}
"""),('func (c *Conn) readMessageLine(',r"""
func (c *Conn) readMessageLine(first bool) (string, error) {
	var line strings.Builder
	for {
		c.limitRead()
		part, err := c.rdr.ReadSlice('\n')
		line.Write(part)
		switch {
		case err == nil:
			return line.String(), nil
		case line.Len() > maxMessageSize:
			return "", errOutOfMemory
		case err == bufio.ErrBufferFull:
			continue
		case !isTimeoutOrTemp(err):
			return line.String(), err
		case first && line.Len() == 0:
			return "", err
		}
	}
}
"""),('func (c *Conn) ReadBytes(',r"""
func (c *Conn) ReadBytes(n int) ([]byte, error) {
	if n < 0 || n > maxMessageSize {
		return nil, errOutOfMemory
	}
	b := make([]byte, n)
	rest := b
	for len(rest) > 0 {
		c.limitRead()
		m, err := c.rdr.Read(rest)
		rest = rest[m:]
		if err == nil || isTimeoutOrTemp(err) {
			continue
		}
		return nil, err
	}
	return b, nil
}
"""))
    sub(C,('	"net/url"\n','	"net/url"\n	"strings"\n'))
R['conn_c']=conn_c

def conn_d():
    fn(C,('func (c *Conn) AddSink(',r"""
func (c *Conn) AddSink(ch byte, port int) error {
	if c.addr == nil {
		c.addr = c.localAddr()
	}
	sink := udpsink{done: make(chan int), ch: ch}
	var err error
	if sink.UDPConn, err = net.ListenUDP("udp", &net.UDPAddr{Port: port, IP: c.addr.IP, Zone: c.addr.Zone}); err == nil {
		c.sinks = append(c.sinks, sink)
	}
	return err
}

func (c *Conn) localAddr() *net.IPAddr {
	local, ok := c.conn.LocalAddr().(*net.TCPAddr)
	if !ok {
		return &net.IPAddr{}
	}
	return &net.IPAddr{IP: local.IP, Zone: local.Zone}
}
"""),('func (c *Conn) Start(',r"""
func (c *Conn) Start() {
	for i := range c.sinks {
		go c.sinks[i].run(c.Data)
	}
}

// run delivers datagrams until the listener is closed.
func (s udpsink) run(data chan<- RawPacket) {
	defer s.UDPConn.Close()
	buf := make([]byte, 2048)
	for {
		n, _, err := s.UDPConn.ReadFromUDP(buf)
		switch {
		case err == nil:
			payload := make([]byte, n)
			copy(payload, buf)
			if !s.deliver(data, RawPacket{s.ch, payload}) {
				return
			}
		case isTimeoutOrTemp(err):
		default:
			return
		}
	}
}

func (s udpsink) deliver(data chan<- RawPacket, pkt RawPacket) bool {
	select {
	case <-s.done:
		return false
	case data <- pkt:
		return true
	}
}
"""),('func (c *Conn) Stop(',r"""
func (c *Conn) Stop() {
	sinks := c.sinks
	c.sinks = nil
	for i := range sinks {
		close(sinks[i].done)
		sinks[i].UDPConn.Close()
	}
}
"""))
R['conn_d']=conn_d

def session_d():
    fn(S,('func (s *Session) Open(',r"""
func (s *Session) Open(uri string, proto int) (err error) {
	var conn *Conn
	if conn, err = Dial(uri, proto); err == nil {
		s.Conn = conn
		go s.process()
		err = s.Options()
	}
	return err
}
"""),('func (s *Session) authorize(',r"""
func (s *Session) authorize(challenge string) error {
	fresh, err := NewDigest(s.BaseURI, challenge)
	if err != nil {
		return err
	}
	user := s.URL.User
	if user == nil {
		return errNoCredentials
	}
	password, _ := user.Password()
	s.Lock()
	if old := s.digest; old != nil && old.nonce == fresh.nonce {
		fresh.count, fresh.cnonce = old.count, old.cnonce
	}
	s.digest, s.auth = fresh, fresh.Authenticate(user.Username(), password)
	s.Unlock()
	return nil
}
"""),('func (s *Session) enqueue(',r"""
func (s *Session) enqueue(req *Request) error {
	s.Lock()
	defer s.Unlock()
	buf := s.prepare(req)
	log.Println(string(buf))
	_, err := s.Write(buf)
	return err
}

// prepare numbers, signs and remembers the request.
func (s *Session) prepare(req *Request) []byte {
	if req.Cseq == 0 {
		req.Cseq = s.cseq + 1
		s.cseq = req.Cseq
	}
	s.queue[req.Cseq] = req
	req.Session = s.session
	if s.auth != nil {
		s.digest.uri = req.URI
		req.Auth = s.auth(req.Verb, nil)
	}
	return req.Pack()
}
"""),('func (s *Session) Setup(',r"""
func (s *Session) Setup() error {
	for _, f := range s.feeds {
		cseq, err := s.request(VerbSetup, s.controlURI(f.Control), Headers{HeaderTransport: f.TransportHeader()})
		if err != nil {
			return err
		}
		f.cseq = cseq
	}
	return nil
}

func (s *Session) controlURI(control string) string {
	if strings.HasPrefix(control, "rtsp://") {
		return control
	}
	base := s.BaseURI
	if !strings.HasSuffix(base, "/") {
		base += "/"
	}
	return base + control
}
"""),('func (s *Session) KeepAlive(',r"""
func (s *Session) KeepAlive() error {
	if s.Conn == nil {
		return errNoConnection
	}
	if s.Proto == ProtoHTTP || s.Proto == ProtoTCP {
		return nil
	}
	if s.stage <= StageInit || s.stage >= StageDone {
		return nil
	}
	now := time.Now()
	if !s.last.IsZero() && now.Sub(s.last) < keepAliveTimeout {
		return nil
	}
	s.last = now
	var headers Headers
	if s.session != "" {
		headers = Headers{HeaderSession: s.session}
	}
	return s.command(VerbOptions, s.BaseURI, headers)
}
"""),('func (s *Session) receive(',r"""
func (s *Session) receive() error {
	b, err := s.Peek(1)
	if err != nil {
		return err
	}
	if b[0] != '$' {
		return s.handleRtsp()
	}
	if b, err = s.Peek(4); err != nil {
		return err
	}
	pkt := RawPacket{Channel: b[1]}
	size := int(be.Uint16(b[2:4]))
	s.Discard(4)
	if pkt.Payload, err = s.ReadBytes(size); err != nil {
		return err
	}
	s.Data <- pkt
	return nil
}
"""),('func (s *Session) handleSetup(',r"""
func (s *Session) handleSetup(rsp *Response) error {
	if rsp.StatusCode != RtspOK {
		s.feedidx++
	} else {
		for i, f := range s.feeds {
			if f.cseq != rsp.Cseq {
				continue
			}
			s.feedidx++
			if err := s.listen(i, f, rsp.Header.Get(HeaderTransport)); err != nil {
				return err
			}
		}
	}
	if s.feedidx < len(s.feeds) {
		return nil
	}
	s.notify(StageReady)
	s.Start()
	return nil
}

func (s *Session) listen(i int, f *Feed, transport string) error {
	if err := f.TransportSetup(transport); err != nil {
		return err
	}
	t := f.transp
	if t.IsTCP {
		return nil
	}
	port := t.ClientPort
	if t.IsMulticast {
		port = t.Port
	}
	for k, p := range []int{port.One, port.Two} {
		if err := s.AddSink(byte(2*i+k), p); err != nil {
			return err
		}
	}
	return nil
}
"""))
R['session_d']=session_d

def http_a():
    fn(H,('func ConnectHTTP(',r"""
func ConnectHTTP(verb, uri, cookie string) []byte {
	lines := []string{
		verb + " " + uri + " HTTP/1.0",
		HeaderXSessionCookie + ": " + cookie,
		HeaderAccept + ": application/x-rtsp-tunnelled",
		HeaderPragma + ": no-cache",
		HeaderCacheControl + ": no-store",
	}
	if verb == "POST" {
		lines = append(lines, HeaderContentLength+": 32767")
	}
	lines = append(lines, HeaderUserAgent+": "+Agent, "", "")
	return []byte(strings.Join(lines, "\r\n"))
}
"""),('func ReceiveHTTP(',r"""
func ReceiveHTTP(rdr *Conn) error {
	line, err := rdr.ReadLine()
	if err != nil {
		return err
	}
	if err = checkStatusLine(line); err != nil {
		return err
	}
	for {
		if line, err = rdr.ReadLine(); err != nil {
			return err
		}
		line = strings.TrimSpace(line)
		if len(line) == 0 {
			return nil
		}
		if !strings.Contains(line, ":") {
			return errMalformedResponse
		}
	}
}

func checkStatusLine(line string) error {
	parts := strings.SplitN(line, " ", 2)
	if len(parts) < 2 {
		return errMalformedResponse
	}
	if parts[0] != "HTTP/1.0" {
		return errNotSupported
	}
	code := strings.SplitN(strings.TrimSpace(parts[1]), " ", 2)[0]
	if len(code) != 3 {
		return errInvalidStatus
	}
	for _, r := range []byte(code) {
		if r < '0' || r > '9' {
			return errInvalidStatus
		}
	}
	return nil
}
"""))
    sub(H,('	"bytes"\n	"strconv"\n',''))
R['http_a']=http_a

def rtp_a():
    fn('net/rtp/packet.go',('func Unpack(',r"""
func Unpack(buf []byte) (*Packet, error) {
	if len(buf) < HeaderSize {
		return nil, errPacketTooShort
	}
	p := &Packet{VPXCC: buf[0], MPT: buf[1]}
	if p.VPXCC>>6 != 2 {
		return nil, errInvalidVersion
	}
	p.SN = be.Uint16(buf[2:4])
	p.TS = be.Uint32(buf[4:8])
	p.SSRC = be.Uint32(buf[8:12])

	rest := buf[HeaderSize:]
	n := int(p.CC())
	if len(rest) < 4*n {
		return nil, errPacketTooShort
	}
	p.CSRC = make([]uint32, 0, n)
	for ; n > 0; n-- {
		p.CSRC = append(p.CSRC, be.Uint32(rest))
		rest = rest[4:]
	}
	if p.X() {
		var err error
		if rest, err = p.extension(rest); err != nil {
			return nil, err
		}
	}
	p.PL = rest
	if !p.P() {
		return p, nil
	}
	if len(rest) == 0 {
		return nil, errInvalidPadding
	}
	pad := int(rest[len(rest)-1])
	if pad < 1 || pad > len(rest) {
		return nil, errInvalidPadding
	}
	p.PL = rest[:len(rest)-pad]
	return p, nil
}

// extension takes extension header off the data.
func (p *Packet) extension(rest []byte) ([]byte, error) {
	if len(rest) < 4 {
		return nil, errPacketTooShort
	}
	p.XH, p.XL = be.Uint16(rest), be.Uint16(rest[2:])
	rest = rest[4:]
	size := 4 * int(p.XL)
	if size > len(rest) {
		return nil, errPacketTooShort
	}
	if size > 0 {
		p.XD = rest[:size]
	}
	return rest[size:], nil
}
"""))
    fn('net/rtcp/packet.go',('func Unpack(',r"""
func Unpack(buf []byte) (*Packet, error) {
	if len(buf) < HeaderSize {
		return nil, errPacketTooShort
	}
	if buf[0]>>6 != 2 {
		return nil, errInvalidVersion
	}
	p := new(Packet)
	p.VPC, p.PT, p.LN = buf[0], buf[1], be.Uint16(buf[2:4])
	switch p.PT {
	case 200:
		need := HeaderSize + 24 + 24*int(p.C())
		if need > len(buf) {
			return nil, errPacketTooShort
		}
		body := buf[HeaderSize:]
		p.DSR = &DataSR{
			SSRC:  be.Uint32(body),
			NTPTS: uint64(be.Uint32(body[4:]))<<32 | uint64(be.Uint32(body[8:])),
			RTPTS: be.Uint32(body[12:]),
			PC:    be.Uint32(body[16:]),
			OC:    be.Uint32(body[20:]),
		}
	}
	return p, nil
}
"""))
R['rtp_a']=rtp_a

def sps_a():
    f='net/h264/spspps.go'
    p=os.path.join(d,f); s=open(p).read()
    lists=re.compile(r"\t+for i, off, size := 0, 0, 16; i < nlists; i\+\+ \{\n.*?\n\t+if i >= 5 \{\n\t+size = 64\n\t+\}\n\t+\}\n",re.S)
    assert len(lists.findall(s))==2
    it=iter(('sps','pps'))
    def r(m):
        x=next(it)
        return "if err = readLists(br, nlists, &%s.ScalingListPresent, &%s.ScalingList, &%s.UseDefaultScalingMatrix); err != nil {\nreturn\n}\n"%(x,x,x)
    s=lists.sub(r,s).replace('			var present bool\n','')
    s=s.replace("	br := NewBitReader(buf)\n	if sps.ProfileIdc, err","	br := NewBitReader(buf)\n	defer func() {\n		if err == nil {\n			s.spset[sps.SpsID] = sps\n		}\n	}()\n	if sps.ProfileIdc, err").replace("	s.spset[sps.SpsID] = sps\n	return\n","	return nil\n")
    i=s.index("	if sps.ProfileIdc == 100 ||"); j=s.index("{\n",i)
    s=s[:i]+"	if hasChroma(sps.ProfileIdc) "+s[j:]
    i=s.index('// ParseSprop analyzes')
    j=s.index('\n}\n',i)+3
    s=s[:i]+r"""
func hasChroma(profile byte) bool {
	switch profile {
	case 44, 83, 86, 100, 110, 118, 122, 128, 134, 135, 138, 139, 244:
		return true
	}
	return false
}

func readLists(br *BitReader, n int, mask *uint32, lists *[6*16 + 6*64]int32, defaults *[12]bool) error {
	off := 0
	for i := 0; i < n; i++ {
		size := 16
		if i >= 6 {
			size = 64
		}
		present, err := br.ReadFlag()
		if err != nil {
			return err
		}
		if present {
			*mask |= 1 << uint(i)
			if defaults[i], err = br.ReadScalingList(lists[off : off+size]); err != nil {
				return err
			}
		}
		off += size
	}
	return nil
}

// ParseSprop analyzes value from SDP sprop parameter sets where first byte is a NAL header.
func (s *ParameterSets) ParseSprop(buf []byte) error {
	if len(buf) == 0 {
		return nil
	}
	switch raw := EBSPToRaw(buf[1:]); buf[0] & 31 {
	case typeSPS:
		return s.ParseSPS(raw)
	case typePPS:
		return s.ParsePPS(raw)
	default:
		return nil
	}
}
"""+s[j:]
    open(p,'w').write(s)
R['sps_a']=sps_a

def annexb_b():
    fn('net/h264/annexb.go',('func startsAnnexB(',r"""
func startsAnnexB(buf []byte) bool {
	return bytes.HasPrefix(buf, []byte{0, 0, 1}) || bytes.HasPrefix(buf, []byte{0, 0, 0, 1})
}
"""),('func splitAnnexB(',r"""
func splitAnnexB(buf []byte) [][]byte {
	var units [][]byte
	code := []byte{0, 0, 1}
	prev, from := 0, 0
	for {
		i := bytes.Index(buf[from:], code)
		if i < 0 || from+i+len(code) >= len(buf) {
			break
		}
		at := from + i
		end := at
		if at > 0 && buf[at-1] == 0 {
			end--
		}
		if end > prev {
			units = append(units, buf[prev:end])
		}
		prev = at + len(code)
		from = prev
	}
	return append(units, buf[prev:])
}
"""),('func EBSPToRaw(',r"""
func EBSPToRaw(buf []byte) []byte {
	rbsp := make([]byte, 0, len(buf))
	for {
		i := bytes.Index(buf, []byte{0, 0, 3})
		if i < 0 {
			return append(rbsp, buf...)
		}
		rbsp = append(rbsp, buf[:i+2]...)
		buf = buf[i+3:]
	}
}
"""),('func RBSPToEncapsulated(',r"""
func RBSPToEncapsulated(buf []byte) []byte {
	ebsp := make([]byte, 0, len(buf)+len(buf)/2)
	for len(buf) > 0 {
		if len(buf) > 1 && buf[0] == 0 && buf[1] == 0 && (len(buf) == 2 || buf[2] < 4) {
			ebsp = append(ebsp, 0, 0, 3)
			buf = buf[2:]
		} else {
			ebsp = append(ebsp, buf[0])
			buf = buf[1:]
		}
	}
	return ebsp
}
"""))
    sub('net/h264/annexb.go',('package h264\n','package h264\n\nimport "bytes"\n'))
R['annexb_b']=annexb_b

def sdp_b():
    fn('net/sdp/packet.go',('func Parse(',r"""
func Parse(buf []byte) []Media {
	var found []*Media
	var m *Media
	for _, line := range strings.Split(string(buf), "\n") {
		line = strings.TrimSpace(line)
		if strings.HasPrefix(line, "m=") {
			m = parseMedia(line[2:])
			if m != nil {
				found = append(found, m)
			}
		} else if strings.HasPrefix(line, "a=") && m != nil {
			m.attribute(line[2:])
		}
	}
	var feeds []Media
	for _, f := range found {
		feeds = append(feeds, *f)
	}
	return feeds
}

func parseMedia(val string) *Media {
	fields := strings.Split(val, " ")
	if fields[0] != "video" {
		return nil
	}
	m := &Media{}
	if len(fields) > 3 {
		m.PayloadType, _ = strconv.Atoi(fields[3])
	}
	return m
}

func (m *Media) attribute(val string) {
	name, params, hasParams := val, "", false
	if i := strings.IndexByte(val, ' '); i >= 0 {
		name, params, hasParams = val[:i], val[i+1:], true
	}
	key, arg, hasArg := name, "", false
	if i := strings.IndexByte(name, ':'); i >= 0 {
		key, arg, hasArg = name[:i], name[i+1:], true
	}
	switch key {
	case "control":
		if hasArg {
			m.Control = arg
		}
	case "rtpmap":
		if hasArg {
			m.Rtpmap, _ = strconv.Atoi(arg)
		}
		m.encoding(name)
		if hasParams {
			m.encoding(params)
		}
	case "fmtp":
		if !hasParams {
			return
		}
		for _, param := range strings.Split(params, ";") {
			if i := strings.IndexByte(param, '='); i >= 0 {
				m.parameter(strings.ToLower(strings.TrimSpace(param[:i])), param[i+1:])
			}
		}
	}
}

func (m *Media) encoding(field string) {
	parts := strings.Split(field, "/")
	if len(parts) < 2 {
		return
	}
	if strings.EqualFold(parts[0], "H264") {
		m.Type = H264
	} else if strings.EqualFold(parts[0], "MPEG4-GENERIC") {
		m.Type = AAC
	}
	if rate, err := strconv.Atoi(parts[1]); err == nil {
		m.TimeScale = rate
	}
}

func (m *Media) parameter(key, val string) {
	switch key {
	case "config":
		m.Config, _ = hex.DecodeString(val)
	case "sizelength":
		m.SizeLength, _ = strconv.Atoi(val)
	case "indexlength":
		m.IndexLength, _ = strconv.Atoi(val)
	case "sprop-parameter-sets":
		for _, set := range strings.Split(val, ",") {
			raw, _ := base64.StdEncoding.DecodeString(set)
			m.SpropParameterSets = append(m.SpropParameterSets, raw)
		}
	}
}
"""))
R['sdp_b']=sdp_b
if __name__=='__main__': R[name]()
