package sess

import (
	"fmt"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
	"verif.local/harness/mc"
)

func init() {
	extend("C31", mc.Driver{Name: "openings", Split: 4, Bounds: "1 to 3 streams, three protocols, every order of the SETUP answers, each of them 200 with a good transport or one of 24 hostile or unexpected ones (up to two different ones), or refused with one of six statuses: when all are answered the session has reported ready or done",
		Body: func(c *mc.C) {
			n := 1 + c.Choose(3)
			proto := protos[c.Choose(3)]
			m := len(hostileTransports)
			bad := c.Choose(m)
			status := []int{200, 404, 454, 461, 500, 503}[c.Choose(6)]
			bubble(c, false, func(w *world) {
				w.open("rtsp://u:p@cam.example/live", proto)
				w.answer(w.last("OPTIONS"), 200, "", "Public: OPTIONS, DESCRIBE, SETUP, PLAY, PAUSE, TEARDOWN")
				w.answer(w.last("DESCRIBE"), 200, video([]string{"a", "b", "c"}[:n]...), "Content-Type: application/sdp")
				var left []*request
				for _, r := range w.reqs {
					if r.verb == "SETUP" {
						left = append(left, r)
					}
				}
				if len(left) != n {
					c.Failf("%d SETUP requests for %d streams: %s", len(left), n, w.history())
				}
				what := ""
				for len(left) > 0 {
					i := c.Choose(len(left))
					r := left[i]
					left = append(left[:i:i], left[i+1:]...)
					k := c.Choose(4)
					what += fmt.Sprintf("SETUP#%d ", r.cseq)
					switch k {
					case 0:
						what += "good, "
						w.answer(r, 200, "", transportOK(r), "Session: 4711")
					case 1, 2:
						t := hostileTransports[(bad+k*k-1)%m]
						what += "Transport: " + quoted(t) + ", "
						w.answer(r, 200, "", "Transport: "+t, "Session: 4711")
					case 3:
						what += fmt.Sprint(status, ", ")
						if status == 200 {
							w.answer(r, 200, "", transportOK(r))
						} else {
							w.answer(r, status, "")
						}
					}
				}
				w.sleep(10 * time.Second)
				if len(w.stages) != 1 || w.stages[0] != rtsp.StageReady && w.stages[0] != rtsp.StageDone {
					c.Failf("%d streams, %s: every SETUP is answered and the stages reported are %v", n, what, w.stages)
				}
				c.State(n, proto, what)
				c.Logf("%s: %v", what, w.stages)
			})
		}})

	extend("C26", mc.Driver{Name: "streams", Split: 3, Bounds: "1 to 8, 12, 16, 33, 64 and 127 streams over TCP; at each of five moments (before DESCRIBE is answered, before the first and the last SETUP answer, after ready, after the answer to PLAY) a packet on every channel from 0 to 255, of each of four lengths",
		Body: func(c *mc.C) {
			n := []int{1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 33, 64, 127}[c.Choose(13)]
			at := c.Choose(5)
			size := []int{0, 1, 12, 1400}[c.Choose(4)]
			bubble(c, false, func(w *world) {
				got := 0
				packets := func() {
					for ch := 0; ch < 256; ch++ {
						d := ""
						for len(d) < size {
							d += string([]byte{byte(ch), '$', byte(len(d)), 0})
						}
						d = d[:size]
						w.send(frame(byte(ch), d))
						if ch%8 == 7 {
							w.settle()
						}
						if ch%8 == 7 {
							for _, p := range w.packets {
								e := ""
								for len(e) < size {
									e += string([]byte{byte(got), '$', byte(len(e)), 0})
								}
								if int(p.Channel) != got || string(p.Payload) != e[:size] {
									c.Failf("%d streams, moment %d: packet on channel %d is delivered as %d %s", n, at, got, p.Channel, quoted(string(p.Payload)))
								}
								got++
							}
							w.packets = w.packets[:0]
							if got != ch+1 {
								c.Failf("%d streams, moment %d: %d packets delivered of %d", n, at, got, ch+1)
							}
						}
					}
					c.Step(256)
				}
				var controls []string
				for i := 0; i < n; i++ {
					controls = append(controls, fmt.Sprint("track", i))
				}
				w.open(base, rtsp.ProtoTCP)
				w.answer(w.last("OPTIONS"), 200, "", "Public: OPTIONS, DESCRIBE, SETUP, PLAY, PAUSE, TEARDOWN")
				if at == 0 {
					packets()
				}
				w.answer(w.last("DESCRIBE"), 200, video(controls...), "Content-Type: application/sdp")
				i := 0
				for _, r := range append([]*request{}, w.reqs...) {
					if r.verb != "SETUP" {
						continue
					}
					if at == 1 && i == 0 || at == 2 && i == n-1 {
						packets()
					}
					w.answer(r, 200, "", transportOK(r), "Session: 4711")
					i++
				}
				if at == 3 {
					packets()
				}
				if fmt.Sprint(w.stages) != "[1]" {
					c.Failf("%d streams: the stages reported are %v", n, w.stages)
				}
				if at == 4 {
					w.command("PLAY")
					w.settle()
					w.answer(w.last("PLAY"), 200, "")
					packets()
				}
				if got != 256 {
					c.Failf("%d streams, moment %d: %d packets delivered", n, at, got)
				}
				c.State(n, at, size)
			})
		}})

	seqs := []int{0, 1, 2, 5, 127, 128, 1000, 2000, 9999, 32767, 32768, 32770, 40000, 64000, 65534, 65535}
	stamps := []uint32{0, 1, 3600, 1 << 31, 1<<31 + 1, 1<<32 - 1}
	extend("C39", mc.Driver{Name: "order", Split: 2, Bounds: "on one stream or two in turn, every three out of 16 sequence numbers, and every three out of six timestamps with sequence numbers that stay or go on, one unit each or three fragments of a unit",
		Body: func(c *mc.C) {
			a, b := c.Choose(len(seqs)), c.Choose(len(seqs))
			bubble(c, false, func(w *world) {
				two := c.Bool()
				programPlaying(w, 2)
				rep := &reporter{series: map[byte][]byte{}}
				n := 0
				put := func(sn int, ts uint32, kind int) {
					ch := byte(0)
					if two && n%2 == 1 {
						ch = 2
					}
					n++
					p := []byte(rtpPacket(sn&0xffff, 0, 0, "", fragmentOf(kind, n), 0))
					p[4], p[5], p[6], p[7] = byte(ts>>24), byte(ts>>16), byte(ts>>8), byte(ts)
					f := frame(ch, string(p))
					rep.frames(f)
					w.send(f)
					w.settle()
					c.Step(1)
				}
				for k := range seqs {
					for j, i := range []int{a, b, k} {
						put(seqs[i], 0, 4)
						put(seqs[i], 0, j)
					}
				}
				if a < len(stamps) && b < len(stamps) {
					for k := range stamps {
						for j, i := range []int{a, b, k} {
							put(j, stamps[i], 4)
							put(0, stamps[i], j)
						}
					}
				}
				rep.check(w, fmt.Sprintf("sequence numbers %d, %d", seqs[a], seqs[b]))
				c.State(a, b, two)
			})
		}}, mc.Driver{Name: "counts", Split: 2, Bounds: "1 to 40, 63 to 65, 127 to 129, 255 to 257, 1000 and 5000 units of one to four bytes in one packet of each of four kinds of aggregates, of an Annex B stream, or as many fragments of one unit, the second half of them after 1 to 3 other packets",
		Body: func(c *mc.C) {
			counts := []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000}
			n := c.Choose(40+len(counts)) + 1
			if n > 40 {
				n = counts[n-41]
			}
			kind := c.Choose(6)
			bubble(c, false, func(w *world) {
				programPlaying(w, 2)
				rep := &reporter{series: map[byte][]byte{}}
				put := func(ch byte, p string) {
					f := frame(ch, rtpPacket(n, 0, 0, "", p, 0))
					rep.frames(f)
					w.send(f)
					w.settle()
					c.Step(1)
				}
				unit := func(i int) string {
					return string([]byte{[]byte{0x67, 0x68, 0x06, 0x09, 0x65, 0x41, 0x0c}[i%7]}) + "\xf0ab"[:1+i%3]
				}
				if kind < 5 {
					p := []string{"\x78", "\x79\x00\x07", "\x7a\x00\x07", "\x7b\x00\x07", ""}[kind]
					for i := 0; i < n; i++ {
						u := unit(i)
						p += []string{string([]byte{0, byte(len(u))}), string([]byte{0, byte(len(u))}), string([]byte{0, byte(len(u))}) + "\x01\x00\x02", string([]byte{0, byte(len(u))}) + "\x01\x00\x00\x02", "\x00\x00\x01"}[kind] + u
					}
					put(0, p)
					put(2, p)
					put(0, "\x09\xf0")
					put(0, p)
				} else if n > 1 {
					for i := 0; i < n; i++ {
						h := byte(0x05)
						if i == 0 {
							h |= 0x80
						} else if i == n-1 {
							h |= 0x40
						}
						put(2, string([]byte{0x7c, h, byte(i) | 4}))
						if i == n/2 {
							for k := 0; k <= n%3; k++ {
								put(0, unit(k))
								put(2, unit(k))
							}
						}
					}
				}
				rep.check(w, fmt.Sprintf("%d units, kind %d", n, kind))
				c.State(n, kind)
			})
		}}, mc.Driver{Name: "units", Split: 2, Bounds: "every header byte of a unit of types 1 to 23, alone, as first, second or third unit of each of four kinds of aggregates, of an Annex B stream, or in fragments, next to units with each of eight other headers",
		Body: func(c *mc.C) {
			h := byte(c.Choose(256))
			o := []byte{0x67, 0x68, 0x06, 0x09, 0x65, 0x41, 0x0c, 0x0a}[c.Choose(8)]
			bubble(c, false, func(w *world) {
				programPlaying(w, 2)
				rep := &reporter{series: map[byte][]byte{}}
				put := func(p string) {
					f := frame(2, rtpPacket(1, 0, 0, "", p, 0))
					rep.frames(f)
					w.send(f)
					w.settle()
					c.Step(1)
				}
				unit := func(h byte, l int) string { return string([]byte{h}) + "\x00\x00\x03\xf0ab"[:l] }
				if typ := h & 31; typ < 1 || typ > 23 {
					return
				}
				for at := 0; at < 3; at++ {
					for l := 0; l < 7; l += 3 {
						us := []string{unit(o, 1), unit(o, 4), unit(o, 2)}
						us[at] = unit(h, l)
						sa, m16, m24, b := "", "", "", ""
						for i, u := range us {
							n := string([]byte{0, byte(len(u))})
							sa += n + u
							m16 += n + "\x01\x00\x02" + u
							m24 += n + "\x01\x00\x00\x02" + u
							b += "\x00\x00\x00\x01"[(i+l)%2:] + u
						}
						put("\x78" + sa)
						put("\x79\x00\x07" + sa)
						put("\x7a\x00\x07" + m16)
						put("\x7b\x00\x07" + m24)
						put(b)
						put(us[at])
					}
				}
				f, t := h&0xe0|28, h&31
				put(string([]byte{f, 0x80 | t, 1, 2}))
				put(string([]byte{f, t, 3}))
				put(string([]byte{f, 0x40 | t, 4}))
				put(string([]byte{f, 0xc0 | t, 5}))
				rep.check(w, fmt.Sprintf("unit header %02x next to %02x", h, o))
				c.State(h, o)
			})
		}})

	extend("C40", mc.Driver{Name: "stalls", Split: 3, Bounds: "after ready over TCP or UDP, every sequence of 5 (thorough 6) of nine events: PLAY, PAUSE, TEARDOWN, the answer to the last command, 3 s pass, the next write times out after 0, 1, 30 or all but one of its bytes, and the end of the connection",
		Body: func(c *mc.C) {
			n := 5
			if c.Thorough {
				n = 6
			}
			proto := protos[c.Choose(2)]
			var ks []int
			stalled := false
			for i := 0; i < n; i++ {
				ks = append(ks, c.Choose(10))
				stalled = stalled || ks[i] >= 5 && ks[i] < 9
			}
			if !stalled {
				c.Trivial()
				return
			}
			bubble(c, false, func(w *world) {
				w.ready(base, proto, "4711", "a", "b")
				w.stalls = true
				f := &failing{w: w, c: c}
				s := w.s
				next, broken, ended := false, false, false
				answered := 0
				for _, k := range ks {
					f.hist = append(f.hist, []string{"PLAY", "PAUSE", "TEARDOWN", "answer", "3 s pass", "a write stalls at once", "a write stalls after 1 byte", "a write stalls after 30 bytes", "a write stalls before the last byte", "the connection ends"}[k])
					switch k {
					case 0, 1, 2:
						verb := verbOf[k]
						reqs, cuts, left := len(w.reqs), len(w.cuts), len(w.part) > 0
						err := f.call(10*time.Second, []func() error{s.Play, s.Pause, s.Teardown}[k])
						w.settle()
						d := 0
						for _, r := range w.reqs[reqs:] {
							if r.verb == verb {
								d++
							}
						}
						if d > 1 || (d == 1) != (err == nil) {
							c.Failf("%s: %d requests for one command, which returns %v", f.what(), d, err)
						}
						for i, v := range w.cuts[cuts:] {
							if v != verb || i == 0 && left {
								continue
							}
							c.Failf("%s: part of the request has been sent, and all of it again: %s", f.what(), w.history())
						}
						if err != nil && !next && !broken && !ended {
							c.Failf("%s: the command returns %v", f.what(), err)
						}
						// A client may give up the connection when a request has been cut short.
						broken = broken || next && err != nil
						next = false
					case 3:
						for j := len(w.reqs) - 1; j >= 4; j-- {
							if r := w.reqs[j]; r.verb != "OPTIONS" && r.cseq > answered {
								answered = r.cseq
								w.answer(r, 200, "")
								break
							}
						}
					case 4:
						w.sleep(3 * time.Second)
						if proto != rtsp.ProtoTCP && next {
							next, broken = false, true // a keep-alive may have been hit
						}
					case 9:
						ended = true
						w.conn.SimEnd(nil)
						w.settle()
					default:
						next = true
						w.conn.SimStall([]int{0, 1, 30, 1 << 20}[k-5])
					}
				}
				c.State(f.what(), proto)
			})
		}})
}
