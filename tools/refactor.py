# usage: gen.py NAME OUTDIR ; applies refactoring NAME to OUTDIR (a copy of /repo)
import sys,re,os
name,d=sys.argv[1:3]
def rep(f,*prs):
    p=os.path.join(d,f); s=open(p).read()
    for a,b in prs:
        assert s.count(a)==1,(name,f,a,s.count(a))
        s=s.replace(a,b)
    open(p,'w').write(s)
S='net/rtsp/session.go';C='net/rtsp/connection.go';M='net/rtsp/message.go';T='net/rtsp/transport.go';D='net/rtsp/digest.go';F='net/rtsp/feed.go';H='net/rtsp/http.go'
R={}
def session_a():
    rep(S,('''	for {
		select {
		case <-s.done:
			return
		default:
			if err := s.KeepAlive(); err != nil && s.stage == StageDone {
				return
			}
			if err := s.receive(); err != nil && !isTimeoutOrTemp(err) {
				log.Println(err)
				return
			}
		}
	}
}''','''	for !s.finished() {
		if !s.step() {
			return
		}
	}
}

func (s *Session) finished() bool {
	select {
	case <-s.done:
		return true
	default:
		return false
	}
}

// step does one round of the loop and tells if there should be another.
func (s *Session) step() bool {
	err := s.KeepAlive()
	if err != nil && s.stage == StageDone {
		return false
	}
	if err = s.receive(); err == nil || isTimeoutOrTemp(err) {
		return true
	}
	log.Println(err)
	return false
}'''),
    ('''	s.stage = stage
	select {
	case s.State <- stage:
	}''','''	s.stage = stage
	s.State <- stage'''),
    ('''			select {
			case s.Data <- RawPacket{Channel: ch, Payload: append([]byte{}, buf...)}:
			}''','''			s.Data <- RawPacket{Channel: ch, Payload: buf}'''),
    )
R['session_a']=session_a
def session_b():
    s=open(os.path.join(d,S)).read()
    i=s.index('	switch req.Verb {\n	case VerbOptions:'); j=s.index('func (s *Session) handleSetup')
    body=s[i:j]
    s=s[:i]+'''	return s.dispatch(req, rsp)
}

// success tells if the request has been accepted.
func success(rsp *Response) bool { return rsp.StatusCode == RtspOK }

func (s *Session) dispatch(req *Request, rsp *Response) (err error) {
	stages := map[string]int{VerbPause: StagePause, VerbPlay: StagePlay, VerbTeardown: StageDone}
	if stage, ok := stages[req.Verb]; ok {
		if success(rsp) {
			s.notify(stage)
		}
		return nil
	}
	if req.Verb == VerbSetup {
		return s.handleSetup(rsp)
	}
	if req.Verb == VerbOptions && s.stage == StageInit {
		public := rsp.Header.Get(HeaderPublic)
		for _, v := range strings.Split(public, ", ") {
			s.verbs[v] = struct{}{}
		}
		return s.Describe()
	}
	if req.Verb != VerbDescribe || !success(rsp) || rsp.Body == nil {
		return nil
	}
	feeds, err := ParseFeeds(s.Proto, rsp.Body)
	s.feeds = feeds
	if err != nil {
		return err
	}
	return s.Setup()
}

'''+s[j:]
    s=s.replace('''	for i := range s.feeds {
		// Setup is done on a different URI that accounts for Control in media.
		uri := s.feeds[i].Control
		if !strings.HasPrefix(uri, "rtsp://") {
			uri = strings.TrimSuffix(s.BaseURI, "/") + "/" + uri
		}
		cseq, err := s.request(VerbSetup, uri, Headers{HeaderTransport: s.feeds[i].TransportHeader()})
		if err != nil {
			return err
		}
		s.feeds[i].cseq = cseq
	}
	return nil''','''	var err error
	for _, feed := range s.feeds {
		headers := Headers{HeaderTransport: feed.TransportHeader()}
		if feed.cseq, err = s.request(VerbSetup, s.resolve(feed.Control), headers); err != nil {
			break
		}
	}
	return err''')
    s=s.replace('''// Play handles client PLAY''','''// resolve returns URI of a media.
func (s *Session) resolve(control string) string {
	const scheme = "rtsp://"
	if len(control) >= len(scheme) && control[:len(scheme)] == scheme {
		return control
	}
	base := s.BaseURI
	if !strings.HasSuffix(base, "/") {
		base += "/"
	}
	return base + control
}

// Play handles client PLAY''')
    open(os.path.join(d,S),'w').write(s)
R['session_b']=session_b
def session_c():
    # explicit lock field instead of embedded, defer-less, queue as slice-free map ops, RWMutex, atomic cseq
    s=open(os.path.join(d,S)).read()
    s=s.replace('		sync.Mutex\n','		mu      sync.RWMutex\n').replace('s.Lock()','s.mu.Lock()').replace('s.Unlock()','s.mu.Unlock()')
    s=s.replace('''	_, err := s.Write(buf)
	return err
}''','''	n, err := s.Write(buf)
	if err == nil && n < len(buf) {
		err = io.ErrShortWrite
	}
	return err
}''',1).replace('import (\n','import (\n	"io"\n')
    s=s.replace('''	req, ok = s.queue[seq]
	if ok {
		delete(s.queue, seq)
	}
	return
''','''	if req, ok = s.queue[seq]; !ok {
		return nil, false
	}
	delete(s.queue, seq)
	return req, true
''')
    s=s.replace('''	go s.process()
	return s.Options()''','''	go func() {
		s.process()
	}()
	err = s.Options()
	return err''')
    open(os.path.join(d,S),'w').write(s)
R['session_c']=session_c
def conn_a():
    s=open(os.path.join(d,C)).read()
    s=s.replace('''		if c.Timeout > 0 {
			c.conn.SetReadDeadline(time.Now().Add(c.Timeout))
		}
''','''		c.extend()
''').replace('''	if c.Timeout > 0 {
		c.conn.SetReadDeadline(time.Now().Add(c.Timeout))
	}
''','''	c.extend()
''')
    s=s.replace('''// Peek returns''','''// extend moves the deadline of the next read.
func (c *Conn) extend() {
	if c.Timeout <= 0 {
		return
	}
	deadline := time.Now().Add(c.Timeout)
	_ = c.conn.SetReadDeadline(deadline)
}

// Peek returns''')
    s=s.replace('conn      *net.TCPConn ','conn      net.Conn ')
    s=s.replace('''	if _, _, err = net.SplitHostPort(url1.Host); err != nil {
		url1.Host = url1.Host + ":554"
	}
''','''	if url1.Port() == "" {
		url1.Host = withPort(url1.Host)
	}
''').replace('''// Dial opens''','''func withPort(host string) string {
	if _, _, err := net.SplitHostPort(host); err == nil {
		return host
	}
	return host + ":554"
}

// Dial opens''')
    s=s.replace('''	for off := 0; off < n; {
		c.extend()
		m, err := c.rdr.Read(b[off:])
		off += m
		if err != nil && !isTimeoutOrTemp(err) {
			return nil, err
		}
	}
	return b, nil''','''	rest := b
	for len(rest) > 0 {
		c.extend()
		m, err := io.ReadFull(c.rdr, rest)
		rest = rest[m:]
		switch {
		case err == nil, isTimeoutOrTemp(err):
		case err == io.ErrUnexpectedEOF:
			return nil, io.EOF
		default:
			return nil, err
		}
	}
	return b, nil''').replace('	"fmt"\n','	"fmt"\n	"io"\n')
    open(os.path.join(d,C),'w').write(s)
R['conn_a']=conn_a
def conn_b():
    # Dial with net.Dialer & type assertion; Peek loops
    rep(C,('''	addr, err := net.ResolveTCPAddr("tcp", url1.Host)
	if err != nil {
		return nil, err
	}
	conn, err := net.DialTCP("tcp", nil, addr)
	if err != nil {
		return nil, err
	}
''','''	raw, err := net.Dial("tcp", url1.Host)
	if err != nil {
		return nil, err
	}
	conn, ok := raw.(*net.TCPConn)
	if !ok {
		raw.Close()
		return nil, errNoConnection
	}
'''),
    ('''		rdr:       bufio.NewReaderSize(conn, 2048),''','''		rdr:       bufio.NewReaderSize(conn, 4096),'''),
    ('''		line = append(line, part...)
		if err == nil {
			return string(line), nil
		}
		if len(line) > maxMessageSize {
			return "", errOutOfMemory
		}
		if err != bufio.ErrBufferFull && (!isTimeoutOrTemp(err) || (first && len(line) == 0)) {
			return string(line), err
		}
''','''		line = append(line, part...)
		switch {
		case err == nil:
			return string(line), nil
		case len(line) > maxMessageSize:
			return "", errOutOfMemory
		case err == bufio.ErrBufferFull:
			continue
		case isTimeoutOrTemp(err) && !(first && len(line) == 0):
			continue
		}
		return string(line), err
'''))
R['conn_b']=conn_b
def msg_a():
    s=open(os.path.join(d,M)).read()
    i=s.index('	// Parse the response headers.'); j=s.index('	r.Cseq, _ =')
    s=s[:i]+'''	if err = readHeaders(rdr, r.Header); err != nil {
		return nil, err
	}

'''+s[j:]
    s=s.replace('''// Unpack RTSP message''','''func readHeaders(rdr *Conn, h MessageHeader) error {
	for {
		line, err := rdr.readMessageLine(false)
		if err != nil {
			return err
		}
		line = strings.TrimSpace(line)
		if len(line) == 0 {
			return nil
		}
		colon := strings.Index(line, ":")
		if colon < 0 {
			return errMalformedResponse
		}
		h.Set(strings.TrimSpace(line[:colon]), strings.TrimSpace(line[colon+1:]))
	}
}

// Unpack RTSP message''')
    i=s.index('	buf := &bytes.Buffer{}\n	buf.WriteString(r.Verb)'); j=s.index('// Unpack RTSP')
    j=s.index('func readHeaders')
    s=s[:i]+'''	lines := []string{r.Verb + " " + r.URI + " RTSP/1.0"}
	add := func(key, val string) { lines = append(lines, key+": "+val) }
	add(HeaderCSeq, strconv.Itoa(r.Cseq))
	keys := make([]string, 0, len(r.Header))
	for key := range r.Header {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	for _, key := range keys {
		add(key, r.Header[key])
	}
	if explicit := r.Header.Get(HeaderSession) != ""; !explicit && r.Session != "" {
		switch r.Verb {
		case VerbOptions, VerbSetup:
		default:
			add(HeaderSession, r.Session)
		}
	}
	if r.Auth != "" {
		add(HeaderAuthorization, r.Auth)
	}
	add(HeaderUserAgent, Agent)
	add(HeaderContentLength, "0")
	return []byte(strings.Join(lines, "\\r\\n") + "\\r\\n\\r\\n")
}

'''+s[j:]
    s=s.replace('	"strconv"\n','	"sort"\n	"strconv"\n')
    open(os.path.join(d,M),'w').write(s)
R['msg_a']=msg_a
def trans_a():
    s=open(os.path.join(d,T)).read()
    i=s.index('	fields := strings.Split(value, ";")\n	for _, field'); j=s.index('// ParsePair parses')
    s=s[:i]+'''	for _, field := range strings.Split(value, ";") {
		if err = t.parseField(field); err != nil {
			return err
		}
	}
	return nil
}

func (t *Transport) parseField(field string) (err error) {
	key, val, has := field, "", false
	if i := strings.IndexByte(field, '='); i >= 0 {
		key, val, has = field[:i], field[i+1:], true
	}
	if parts := strings.Split(field, "/"); !has && len(parts) == 3 {
		t.IsTCP = strings.EqualFold(parts[2], "tcp")
	}
	text := map[string]*string{"destination": &t.Destination, "source": &t.Source, "ssrc": &t.SSRC, "mode": &t.Mode}
	nums := map[string]*int{"layers": &t.Layers, "ttl": &t.TTL}
	pairs := map[string]*Pair{"interleaved": &t.Interleave, "port": &t.Port, "client_port": &t.ClientPort, "server_port": &t.ServerPort}
	key = strings.ToLower(key)
	switch key {
	case "unicast", "multicast":
		t.IsMulticast = key == "multicast"
		return nil
	case "append":
		t.IsAppend = true
		return nil
	case "interleaved":
		t.IsMulticast = false
	}
	if p, ok := text[key]; ok {
		if !has {
			return ErrMalformedTransport
		}
		*p = val
	} else if p, ok := nums[key]; ok {
		if !has {
			return ErrMalformedTransport
		}
		*p, err = strconv.Atoi(val)
	} else if p, ok := pairs[key]; ok {
		if !has {
			return ErrMalformedTransport
		}
		*p, err = ParsePair(val)
	}
	return err
}

'''+s[j:]
    open(os.path.join(d,T),'w').write(s)
R['trans_a']=trans_a
def dig_a():
    s=open(os.path.join(d,D)).read()
    i=s.index('	if d.qop == "auth-int" {\n'); j=s.index('func md5hex')
    s=s[:i]+'''	parts := []string{verb, d.uri}
	if d.qop == "auth-int" {
		parts = append(parts, md5hex(body))
	}
	d.ha2 = md5hex([]byte(strings.Join(parts, ":")))
	if d.qop == "" {
		return fmt.Sprintf(", response=\\"%s\\"", md5hex(colonnade(d.ha1, d.nonce, d.ha2)))
	}
	ha1 := d.ha1
	if d.algorithm == "md5-sess" {
		ha1 = md5hex(colonnade(ha1, d.nonce, d.cnonce))
	}
	resp := md5hex(colonnade(ha1, d.nonce, d.nc, d.cnonce, d.qop, d.ha2))
	return fmt.Sprintf(", qop=\\"%s\\", nc=%s, cnonce=\\"%s\\", response=\\"%s\\"", d.qop, d.nc, d.cnonce, resp)
}

'''+s[j:]
    i=s.index('	hf := md5.New()'); j=s.index('func colonnade')
    s=s[:i]+'''	sum := md5.Sum(data)
	return hex.EncodeToString(sum[:])
}

func colonnade(params ...string) []byte {
	return []byte(strings.Join(params, ":"))
}
'''
    open(os.path.join(d,D),'w').write(s)
R['dig_a']=dig_a
def h264_a():
    s=open(os.path.join(d,'net/h264/packet.go')).read()
    s=s.replace('''		s.Units = append(s.Units, NALUnit{Header: buf[2], Don: s.Don, TS: ts, Data: EBSPToRaw(buf[3 : int(size)+2])})
		s.Don++
''','''		s.emit(buf[2:int(size)+2], ts)
''').replace('''		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don, TS: ts + tsoff, Data: EBSPToRaw(buf[off+1 : int(size)+int(off)])})
		s.Don++
''','''		s.emit(buf[off:int(size)+int(off)], ts+tsoff)
''').replace('''		s.Units = append(s.Units, NALUnit{Header: buf[0], Don: s.Don, TS: ts, Data: EBSPToRaw(buf[1:])})
		s.Don++
''','''		s.emit(buf, ts)
''').replace('''func (s *NALSink) parseSTAP''','''// emit adds a complete unit, header included.
func (s *NALSink) emit(unit []byte, ts uint32) {
	nal := NALUnit{TS: ts, Don: s.Don}
	nal.Header, nal.Data = unit[0], EBSPToRaw(unit[1:])
	s.Units = append(s.Units, nal)
	s.Don = s.Don + 1
}

func (s *NALSink) parseSTAP''')
    s=s.replace('''	s.Units = s.Units[:0]
	if !starts''','''	s.Units = nil
	if !starts''')
    s=s.replace('''	diff = int(don2) - int(don1)
	if diff >= 32768 {
		diff = diff - 65536
	} else if diff <= -32768 {
		diff = diff + 65536
	}
	return''','''	const half, full = 1 << 15, 1 << 16
	switch diff = int(don2) - int(don1); {
	case diff >= half:
		return diff - full
	case diff <= -half:
		return diff + full
	default:
		return diff
	}''')
    i=s.index('	if (header & 0x80) != 0 {\n		s.Fragments = s.Fragments[:0]'); j=s.index('func (s *NALSink) parseSTAP')
    j=s.index('// emit adds')
    s=s[:i]+'''	frag := NALFragment{Flags: header}
	frag.Header, frag.Don, frag.TS = indicator, don, ts
	if frag.IsStart() {
		s.Fragments = nil
	} else if s.Fragments == nil || len(s.Fragments) == 0 {
		return
	}
	frag.Data = make([]byte, len(data))
	copy(frag.Data, data)
	s.Fragments = append(s.Fragments, frag)
	if !frag.IsEnd() {
		return
	}
	whole := []byte{indicator}
	for i := range s.Fragments {
		whole = append(whole, s.Fragments[i].Data...)
	}
	s.Don = s.Fragments[0].Don
	s.Fragments = nil
	s.emit(whole, ts)
}

'''+s[j:]
    open(os.path.join(d,'net/h264/packet.go'),'w').write(s)
R['h264_a']=h264_a
def annexb_a():
    s=open(os.path.join(d,'net/h264/annexb.go')).read()
    i=s.index('	zero := byte(0)\n	size := len(buf)\n	rbsp'); j=s.index('// RBSPToEncapsulated adds')
    s=s[:i]+'''	out := make([]byte, 0, len(buf))
	zeroes := 0
	for _, b := range buf {
		if zeroes >= 2 && b == 3 {
			zeroes = 0
			continue
		}
		if b == 0 {
			zeroes++
		} else {
			zeroes = 0
		}
		out = append(out, b)
	}
	return out
}

'''+s[j:]
    open(os.path.join(d,'net/h264/annexb.go'),'w').write(s)
R['annexb_a']=annexb_a
def bits_a():
    s=open(os.path.join(d,'net/h264/bits.go')).read()
    i=s.index('	// Unaligned read of 32 bits'); j=s.index('// ReadByteBits attempts')
    s=s[:i]+'''	pos := r.byten*8 + r.bitn
	for i := uint(0); i < n; i++ {
		val = val<<1 | uint32(r.buffer[pos>>3]>>(7-pos&7))&1
		pos++
	}
	r.byten, r.bitn = pos/8, pos%8
	return val, nil
}

'''+s[j:]
    open(os.path.join(d,'net/h264/bits.go'),'w').write(s)
R['bits_a']=bits_a
def main_a():
    s=open(os.path.join(d,'cmd/ouro/main.go')).read()
    i=s.index('            if pkt.Channel % 2 == 0 {'); j=s.index('func main()')
    s=s[:i]+'''			var err error
			if pkt.Channel&1 == 1 {
				err = control(pkt)
			} else {
				err = media(sinkFor(nalsinks, pkt.Channel), pkt)
			}
			if err != nil {
				log.Println(err)
				return
			}
		}
	}
}

func sinkFor(sinks map[byte]*h264.NALSink, ch byte) *h264.NALSink {
	if sinks[ch] == nil {
		sinks[ch] = h264.NewNALSink()
	}
	return sinks[ch]
}

func media(sink *h264.NALSink, pkt rtsp.RawPacket) error {
	p, err := rtp.Unpack(pkt.Payload)
	if err != nil {
		return err
	}
	log.Printf("RTP [%d] PT=%d, CC=%d, M=%t, SN=%d\\r\\n", pkt.Channel, p.PT(), p.CC(), p.M(), p.SN)
	if len(p.PL) == 0 {
		return nil
	}
	if err = sink.Push(p.PL, p.TS); err != nil {
		return err
	}
	for i := range sink.Units {
		nal := &sink.Units[i]
		log.Printf("NAL Zero=%t, RefIdc=%d, Type=%d, Size=%d\\r\\n", nal.ZeroBit(), nal.RefIdc(), nal.Type(), len(nal.Data))
	}
	return nil
}

func control(pkt rtsp.RawPacket) error {
	p, err := rtcp.Unpack(pkt.Payload)
	if err == nil {
		log.Printf("RTCP [%d] PT=%d, LN=%d, C=%d\\r\\n", pkt.Channel, p.PT, p.LN, p.C())
	}
	return err
}

'''+s[j:]
    s=s.replace('''	tmr := time.NewTimer(time.Minute)
	tmr.Stop()
''','''	var tmr <-chan time.Time
''').replace('<- tmr.C','<-tmr').replace('tmr.Reset(time.Second * 5)','tmr = time.After(5 * time.Second)')
    s=s.replace('''	flag.Parse()
	if flag.NArg() != 1 {
		log.Panic("Wrong number of arguments.  Exactly one is expected.")
	}
	url := flag.Arg(0)

	log.SetOutput(os.Stdout)
''','''	flag.Parse()
	args := flag.Args()
	if len(args) != 1 {
		log.Panic("Wrong number of arguments.  Exactly one is expected.")
	}
	log.SetOutput(os.Stdout)
	run(args[0])
}

func run(url string) {
''')
    open(os.path.join(d,'cmd/ouro/main.go'),'w').write(s)
R['main_a']=main_a
def main_b():
    s=open(os.path.join(d,'cmd/ouro/main.go')).read()
    s=s.replace('''	for {
		select {
		case <- tmr.C:''','''	logger := log.New(os.Stdout, "", log.LstdFlags)
	logger.SetOutput(ioutil.Discard)
	logger.Println("start")
	for {
		select {
		case <- tmr.C:''').replace('	"log"\n','	"io/ioutil"\n	"log"\n')
    s=s.replace('''	handleStates(sess)
''','''	finished := make(chan struct{})
	go func() {
		defer close(finished)
		handleStates(sess)
	}()
	<-finished
''')
    open(os.path.join(d,'cmd/ouro/main.go'),'w').write(s)
R['main_b']=main_b
def sdp_a():
    s=open(os.path.join(d,'net/sdp/packet.go')).read()
    s=s.replace('''	var m *Media
	content := string(buf)

	for _, line := range strings.Split(content, "\\n") {
		line = strings.TrimSpace(line)
''','''	var m *Media
	scanner := bufio.NewScanner(bytes.NewReader(buf))
	scanner.Buffer(nil, len(buf)+1)

	for scanner.Scan() {
		line := strings.TrimSpace(scanner.Text())
''').replace('import (\n','import (\n	"bufio"\n	"bytes"\n')
    open(os.path.join(d,'net/sdp/packet.go'),'w').write(s)
R['sdp_a']=sdp_a
def hls_a():
    s=open(os.path.join(d,'net/hls/playlist.go')).read()
    i=s.index('	buf := &bytes.Buffer{}'); j=s.index('// AddSegment advances')
    s=s[:i]+'''	b := strings.Builder{}
	fmt.Fprintf(&b, "#EXTM3U\\n#EXT-X-VERSION:%d\\n", pl.Version)
	for _, seg := range pl.current() {
		fmt.Fprintf(&b, "#EXTINF:%s\\n", strconv.FormatFloat(seg.Duration, 'f', -1, 64))
		fmt.Fprintf(&b, "#EXT-X-BYTERANGE:%d@%d\\n%s\\n", seg.Length, seg.Position, pl.URI)
	}
	b.WriteString("#EXT-X-ENDLIST\\n")
	return b.String()
}

// current returns segments of the ring, oldest first.
func (pl Playlist) current() []Segment {
	if pl.First < 0 {
		return nil
	}
	if pl.First <= pl.Last {
		return pl.Segments[pl.First : pl.Last+1]
	}
	return append(append([]Segment{}, pl.Segments[pl.First:]...), pl.Segments[:pl.Last+1]...)
}

'''+s[j:]
    s=s.replace('	"bytes"\n','	"fmt"\n').replace('	"strconv"\n','	"strconv"\n	"strings"\n')
    open(os.path.join(d,'net/hls/playlist.go'),'w').write(s)
R['hls_a']=hls_a
def feed_a():
    rep(F,('''	for _, b := range f.SpropParameterSets {
		if err := f.Sets.ParseSprop(b); err != nil {
			return err
		}
	}
	f.IsSet = true
	return nil''','''	var err error
	for i := 0; i < len(f.SpropParameterSets) && err == nil; i++ {
		err = f.Sets.ParseSprop(f.SpropParameterSets[i])
	}
	f.IsSet = f.IsSet || err == nil
	return err'''),('''	for i, m := range sdp.Parse(buf) {
		feeds = append(feeds, &Feed{Media: m, transp: NewTransport(proto, i*2), Sets: h264.NewParameterSets()})
	}
	return''','''	media := sdp.Parse(buf)
	for i := 0; i < len(media); i++ {
		f := &Feed{Sets: h264.NewParameterSets(), transp: NewTransport(proto, i*2)}
		f.Media = media[i]
		feeds = append(feeds, f)
	}
	return feeds, nil'''))
R['feed_a']=feed_a
if __name__=="__main__" and name=="list": print(" ".join(R))
elif __name__=="__main__": R[name]()
