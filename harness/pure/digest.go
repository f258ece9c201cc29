package main

import (
	"fmt"
	"strings"

	"github.com/aboukirev/ouro/net/rtsp"
	"verif.local/harness/auth"
	"verif.local/harness/mc"
)

var digestRealms = []string{"IP Camera(12345)", "", "a, b=c; d", "realm", "x\\y é/\t'z'"}
var digestNonces = []string{"dcd98b7102dd2f0e8b11d0f600bfb0c093", "0", "a+b/c==", "MTIz, nonce=x"}
var digestURIs = []string{"rtsp://host:554/path/a.b?x=1&y=2", "rtsp://h/", "*", "rtsp://h/a,b=c/trackID=1"}
var digestUsers = [][2]string{{"admin", "12345"}, {"u", ""}, {"user name", "p:a:s=s,w@rd/"}, {"ü", "пароль"}}
var digestVerbs = []string{"DESCRIBE", "SETUP", "PLAY", "OPTIONS"}
var digestBodies = [][]byte{nil, {}, []byte("v=0\r\n"), {0, 255, ':'}}

func newAuth(c *mc.C, ch *auth.Challenge, uri string, u [2]string) rtsp.DigestAuth {
	d, err := rtsp.NewDigest(uri, ch.Text)
	if err != nil || d == nil {
		c.Failf("challenge %s: %v", ch.Text, err)
	}
	f := d.Authenticate(u[0], u[1])
	if f == nil {
		c.Failf("challenge %s: no authorization function", ch.Text)
	}
	return f
}

func init() {
	qopForms := [][]string{nil, {"auth"}, {"auth-int"}, {"auth", "auth-int"}, {"auth-int", "auth"}}
	add(mc.Check{
		ID:          "C18",
		Rule:        "an execution is one challenge and one sequence of authorizations; every value is verified by an independent RFC 2617 server",
		Assumptions: []string{"MD5-sess only together with qop", "one user per challenge", "qop and algorithm may be quoted in the authorization"},
		Drivers: []mc.Driver{
			{Name: "sequences", Split: 3,
				Bounds: "Basic and Digest x 5 qop offers x 4 algorithm forms x opaque or not x all sequences of 3 (thorough 4) uses with 4 methods and 4 bodies",
				Body: func(c *mc.C) {
					ch := &auth.Challenge{Realm: "IP Camera", Nonce: "f00d", Qops: qopForms[c.Choose(5)]}
					if k := c.Choose(5); k == 4 {
						ch.Basic = true
					} else {
						ch.Alg = []string{"", "MD5", "md5", "MD5-sess"}[k]
					}
					if ch.Alg == "MD5-sess" && ch.Qops == nil || ch.Basic && ch.Qops != nil {
						c.Trivial()
						return
					}
					if c.Bool() {
						ch.Opaque = "op=a,que"
					}
					ch.Format()
					u := digestUsers[0]
					uri := digestURIs[0]
					f := newAuth(c, ch, uri, u)
					srv := &auth.Server{Ch: ch, User: u[0], Pass: u[1]}
					n := 3
					if c.Thorough {
						n = 4
					}
					hist := ""
					for i := 0; i < n; i++ {
						k := c.Choose(16)
						verb, body := digestVerbs[k&3], digestBodies[k>>2]
						v := f(verb, body)
						hist += fmt.Sprintf("%s(%q) ", verb, body)
						if e := srv.Accept(v, verb, uri, body); e != "" {
							c.Failf("challenge %s, uses %s: %s %s", ch.Text, hist, v, e)
						}
						c.Step(1)
						c.State(ch.Text, hist)
					}
					c.Logf("%s: %s", ch.Text, hist)
				}},
			{Name: "values", Split: 3,
				Bounds: "5 realms x 4 nonces x 4 users x 4 URIs x opaque forms x qop offers x algorithms, two uses each",
				Body: func(c *mc.C) {
					ch := &auth.Challenge{Realm: digestRealms[c.Choose(5)], Nonce: digestNonces[c.Choose(4)], Qops: qopForms[c.Choose(5)]}
					ch.Opaque = []string{"", "5ccc069c403ebaf9f0171e9517f40e41", "a=b, c"}[c.Choose(3)]
					u := digestUsers[c.Choose(4)]
					uri := digestURIs[c.Choose(4)]
					for _, ch.Alg = range []string{"", "MD5", "MD5-sess"} {
						if ch.Alg == "MD5-sess" && ch.Qops == nil {
							continue
						}
						ch.Format()
						f := newAuth(c, ch, uri, u)
						srv := &auth.Server{Ch: ch, User: u[0], Pass: u[1]}
						for i := 0; i < 2; i++ {
							v := f("SETUP", nil)
							if e := srv.Accept(v, "SETUP", uri, nil); e != "" {
								c.Failf("challenge %s, user %q, URI %s, use %d: %s %s", ch.Text, u, uri, i+1, v, e)
							}
							c.Step(1)
						}
						c.State(ch.Text, u[0], uri)
					}
					c.Logf("%s user %q URI %s", ch.Text, u, uri)
				}},
			{Name: "long", Split: 2,
				Bounds: "every challenge form used 70000 (thorough 300000) times in a row: every nonce count in order",
				Body: func(c *mc.C) {
					ch := &auth.Challenge{Realm: "r", Nonce: "n", Qops: qopForms[c.Choose(5)], Alg: []string{"MD5", "MD5-sess"}[c.Choose(2)]}
					if ch.Qops == nil && ch.Alg == "MD5-sess" {
						c.Trivial()
						return
					}
					ch.Format()
					u := digestUsers[2]
					f := newAuth(c, ch, "*", u)
					srv := &auth.Server{Ch: ch, User: u[0], Pass: u[1]}
					n := 70000
					if c.Thorough {
						n = 300000
					}
					for i := 0; i < n; i++ {
						verb := digestVerbs[i%4]
						if e := srv.Accept(f(verb, nil), verb, "*", nil); e != "" {
							c.Failf("challenge %s, use %d: %s", ch.Text, i+1, e)
						}
						c.Step(1)
						c.Tick()
					}
					c.State(ch.Text)
				}},
			{Name: "parallel", Split: 3,
				Bounds: "two challenges (all qop and algorithm forms) in use at the same time, all interleavings of 6 uses",
				Body: func(c *mc.C) {
					var f [2]rtsp.DigestAuth
					var srv [2]*auth.Server
					uris := []string{"rtsp://a/1", "rtsp://b/2"}
					for i := range f {
						ch := &auth.Challenge{Realm: fmt.Sprint("r", i), Nonce: fmt.Sprint("n", i), Qops: qopForms[c.Choose(5)], Alg: []string{"MD5", "MD5-sess"}[c.Choose(2)]}
						if ch.Qops == nil && ch.Alg == "MD5-sess" {
							c.Trivial()
							return
						}
						ch.Format()
						f[i] = newAuth(c, ch, uris[i], digestUsers[i])
						srv[i] = &auth.Server{Ch: ch, User: digestUsers[i][0], Pass: digestUsers[i][1]}
					}
					for k := 0; k < 6; k++ {
						i := c.Choose(2)
						verb := digestVerbs[k%4]
						v := f[i](verb, digestBodies[k%4])
						if e := srv[i].Accept(v, verb, uris[i], digestBodies[k%4]); e != "" {
							c.Failf("challenges %s and %s, use %d: %s %s", srv[0].Ch.Text, srv[1].Ch.Text, k, v, e)
						}
						c.Step(1)
					}
					c.State(c.Trail())
				}},
		},
	})

	add(mc.Check{
		ID:          "C19",
		Rule:        "an execution is one challenge text; the authorization made from it must be accepted by a server that issued it, or the challenge must be refused",
		Assumptions: []string{"no backslash-escaped quotes inside quoted values", "each parameter at most once", "one challenge per header"},
		Drivers: []mc.Driver{
			{Name: "forms", Split: 3,
				Bounds: "all orders of realm, nonce, opaque, qop, algorithm (120) with an unknown parameter at one of 6 places out of 5 forms or none, 5 comma spacings, quoted or bare values, 4 scheme spellings, 5 value sets (with commas, equal signs, blanks inside and at either end)",
				Body: func(c *mc.C) {
					spacing := []string{",", ", ", " , ", " ,", ",\t "}[c.Choose(5)]
					bare := c.Bool()
					set := c.Choose(5)
					ord := permute(c, 5)
					scheme := []string{"Digest", "digest", "DIGEST", "dIGEST"}[(ord[0]+set)%4]
					ch := &auth.Challenge{Realm: []string{"realm", "a b, c=d, nonce=zz", "x=y", " lead", "tail, \t"}[set], Nonce: []string{"abc123", "x,y==", "opaque=1, q", "\t, n ", ", ="}[set], Opaque: []string{"0", "realm=q,  z", "a==", "=o ", " ,"}[set]}
					q := []string{"auth", "auth-int", "auth,auth-int", "auth,auth-int", "auth"}[set]
					ch.Qops = strings.Split(q, ",")
					ch.Alg = []string{"MD5", "md5", "MD5-sess"}[(set+ord[1])%3]
					quote := func(v string) string {
						if bare && !strings.ContainsAny(v, " ,=\t") && v != "" {
							return v
						}
						return `"` + v + `"`
					}
					all := []string{"realm=" + quote(ch.Realm), "nonce=" + quote(ch.Nonce), "opaque=" + quote(ch.Opaque), "qop=" + quote(q), "algorithm=" + quote(ch.Alg)}
					if bare {
						all[0], all[1] = "Realm="+quote(ch.Realm), "NONCE="+quote(ch.Nonce)
					}
					for unk := 0; unk < 8; unk++ {
						for at := 0; at <= 5; at++ {
							if unk == 0 && at > 0 {
								break
							}
							var ps []string
							for i := 0; i <= 5; i++ {
								if i == at && unk > 0 {
									ps = append(ps, []string{"", `charset="UTF-8"`, "userhash=false", `foo="realm=1, nonce=2"`, "stale=TRUE", `domain="/a /b, opaque=3"`, `xrealm="q"`, `nonce2="q"`}[unk])
								}
								if i < 5 {
									ps = append(ps, all[ord[i]])
								}
							}
							ch.Text = scheme + " " + strings.Join(ps, spacing)
							uri := "rtsp://h/1"
							f := newAuth(c, ch, uri, digestUsers[0])
							srv := &auth.Server{Ch: ch, User: digestUsers[0][0], Pass: digestUsers[0][1]}
							v := f("PLAY", nil)
							if e := srv.Accept(v, "PLAY", uri, nil); e != "" {
								c.Failf("challenge %s: %s %s", ch.Text, v, e)
							}
							c.Step(1)
							c.State(ch.Text)
						}
					}
					c.Logf("%s", ch.Text)
				}},
			{Name: "subsets", Split: 2,
				Bounds: "realm and nonce with every subset of opaque, qop, algorithm, domain and stale present, 5 comma spacings, quoted or bare; Basic with the same",
				Body: func(c *mc.C) {
					spacing := []string{",", ", ", " , ", " ,", ",   "}[c.Choose(5)]
					sub := c.Choose(32)
					for _, bare := range []bool{false, true} {
						for _, basic := range []bool{false, true} {
							ch := &auth.Challenge{Realm: "r", Nonce: "n", Basic: basic}
							q := func(s string) string {
								if bare {
									return s
								}
								return `"` + s + `"`
							}
							ps := []string{"realm=" + q("r"), "nonce=" + q("n")}
							if sub&1 != 0 {
								ps = append(ps, "opaque="+q("o"))
								ch.Opaque = "o"
							}
							if sub&2 != 0 {
								ps = append(ps, "qop="+q("auth"))
								ch.Qops = []string{"auth"}
							}
							if sub&4 != 0 {
								ps = append(ps, "algorithm="+q("MD5"))
							}
							if sub&8 != 0 {
								ps = append(ps, "domain="+q("/"))
							}
							if sub&16 != 0 {
								ps = append(ps, "stale="+q("false"))
							}
							ch.Text = "Digest "
							if basic {
								ch.Text = "Basic "
							}
							ch.Text += strings.Join(ps, spacing)
							for _, pad := range []string{"", " "} {
								ch.Text = pad + strings.TrimSpace(ch.Text) + pad
								f := newAuth(c, ch, "*", digestUsers[3])
								srv := &auth.Server{Ch: ch, User: digestUsers[3][0], Pass: digestUsers[3][1]}
								if e := srv.Accept(f("PLAY", nil), "PLAY", "*", nil); e != "" {
									c.Failf("challenge %s: %s", ch.Text, e)
								}
								c.Step(1)
							}
							c.State(ch.Text)
						}
					}
				}},
			{Name: "refused", Split: 1,
				Bounds: "14 other schemes and 16 other algorithms, each with the algorithm before, between or after the other parameters, quoted or bare, with or without qop",
				Body: func(c *mc.C) {
					rest := `realm="r", nonce="n", qop="auth"`
					for _, s := range []string{"", "Bearer", "NTLM", "Negotiate", "Digests", "XDigest", "Basics", "DigestMD5", "Hawk", "Mutual", "AWS4-HMAC-SHA256", "Digest-MD5", "Basic2", "OAuth"} {
						t := strings.TrimSpace(s + " " + rest)
						if d, err := rtsp.NewDigest("*", t); err == nil || d != nil {
							c.Failf("challenge %s of another scheme was not refused", t)
						}
						c.Step(1)
						c.State(t)
					}
					pos := c.Choose(4)
					for _, a := range []string{"SHA-256", "SHA-256-sess", "SHA-512-256", "sha", "MD4", "MD55", "MD5-sess2", "MD5sess", "MD5-", "token", "md-5", "AKAv1-MD5", "SHA", "xMD5", "0", "MD5 -sess"} {
						for _, quoted := range []bool{true, false} {
							if strings.Contains(a, " ") && !quoted {
								continue
							}
							p := "algorithm=" + a
							if quoted {
								p = `algorithm="` + a + `"`
							}
							ps := []string{`realm="r"`, `nonce="n"`, `qop="auth"`}
							if pos == 3 {
								ps = append(ps[:2:2], p)
							} else {
								ps = append(append(append([]string{}, ps[:pos]...), p), ps[pos:]...)
							}
							for _, sep := range []string{",", ", "} {
								t := "Digest " + strings.Join(ps, sep)
								if d, err := rtsp.NewDigest("*", t); err == nil || d != nil {
									c.Failf("challenge %s with another algorithm was not refused", t)
								}
								c.Step(1)
								c.State(t)
							}
						}
					}
				}},
			{Name: "short", Split: 3,
				Bounds: "all strings of up to 6 (thorough 7) characters over space, comma, =, quote, backslash, a, TAB, LF, byte FF after 6 beginnings: no panic, and the authorization can be made",
				Body: func(c *mc.C) {
					alpha := " ,=\"\\a\t\n\xff"
					pre := []string{"", "Digest", "Digest ", "Basic ", "Digest realm", `Digest qop="auth`}[c.Choose(6)]
					n := 3
					if c.Thorough {
						n = 4
					}
					b := []byte(pre)
					for i := 0; i < n; i++ {
						b = append(b, alpha[c.Choose(len(alpha))])
					}
					var rec func(b []byte, d int)
					rec = func(b []byte, d int) {
						if dg, err := rtsp.NewDigest("u", string(b)); err == nil {
							f := dg.Authenticate("a", "b")
							f("PLAY", nil)
						}
						c.Step(1)
						if d == 0 {
							return
						}
						for i := range []byte(alpha) {
							rec(append(b[:len(b):len(b)], alpha[i]), d-1)
						}
					}
					rec(b, 3)
					c.Count(820, 0)
				}},
			{Name: "bytes", Split: 2,
				Bounds: "two full challenges with every byte replaced by every value and cut at every byte: no panic",
				Body: func(c *mc.C) {
					t := []string{`Digest realm="IP Camera(12345)", nonce="dcd98b", opaque="5ccc", qop="auth,auth-int", algorithm=MD5-sess, stale="FALSE"`, `Basic realm="x, y=z"`}[c.Choose(2)]
					i := c.Choose(len(t))
					for v := -1; v < 256; v++ {
						b := []byte(t)
						if v < 0 {
							b = b[:i]
						} else {
							b[i] = byte(v)
						}
						if dg, err := rtsp.NewDigest("u", string(b)); err == nil {
							f := dg.Authenticate("a", "b")
							f("PLAY", nil)
							f("PLAY", []byte("x"))
						}
						c.Step(1)
					}
					c.State(t, i)
				}},
		},
	})
}

// textBytes are the octets a quoted string may contain, but for the backslash.
var textBytes = func() (out []byte) {
	for b := 0; b < 256; b++ {
		if b == '\t' || b >= ' ' && b != 0x7f && b != '"' && b != '\\' {
			out = append(out, byte(b))
		}
	}
	return
}()

// checkChallengeValue uses a challenge whose realm (0), nonce (1) or opaque (2) is v.
func checkChallengeValue(c *mc.C, which int, v string, qop bool) {
	for basic := 0; basic < 2; basic++ {
		if basic == 1 && which > 0 {
			break
		}
		ch := &auth.Challenge{Realm: "r s", Nonce: "n", Opaque: "o", Basic: basic == 1}
		switch which {
		case 0:
			ch.Realm = v
		case 1:
			ch.Nonce = v
		case 2:
			ch.Opaque = v
		}
		if qop && basic == 0 {
			ch.Qops = []string{"auth"}
		}
		ch.Format()
		f := newAuth(c, ch, "rtsp://h/1", digestUsers[0])
		srv := &auth.Server{Ch: ch, User: digestUsers[0][0], Pass: digestUsers[0][1]}
		a := f("PLAY", nil)
		if e := srv.Accept(a, "PLAY", "rtsp://h/1", nil); e != "" {
			c.Failf("challenge %q: %q %s", clip(ch.Text), clip(a), e)
		}
		c.Step(1)
		c.State(ch.Text)
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// checkChallengeUnknown uses challenges with n unknown parameters.
func checkChallengeUnknown(c *mc.C, n int) {
	var unk []string
	for i := 0; i < n; i++ {
		unk = append(unk, fmt.Sprintf("x%d=\"v, realm=%d\"", i, i))
	}
	known := []string{`realm="r"`, `nonce="n"`, `qop="auth"`, `opaque="o"`}
	for at := 0; at <= len(known); at++ {
		ch := &auth.Challenge{Realm: "r", Nonce: "n", Opaque: "o", Qops: []string{"auth"}}
		ps := append(append(append([]string{}, known[:at]...), unk...), known[at:]...)
		ch.Text = "Digest " + strings.Join(ps, ", ")
		f := newAuth(c, ch, "*", digestUsers[0])
		srv := &auth.Server{Ch: ch, User: digestUsers[0][0], Pass: digestUsers[0][1]}
		if e := srv.Accept(f("PLAY", nil), "PLAY", "*", nil); e != "" {
			c.Failf("challenge with %d unknown parameters at %d: %s", n, at, e)
		}
		c.Step(1)
	}
}

// checkUses uses one challenge three times with the credentials, URI and body.
func checkUses(c *mc.C, ch *auth.Challenge, user, pass, uri, verb string, body []byte) {
	if ch.Text == "" {
		ch.Format()
	}
	f := newAuth(c, ch, uri, [2]string{user, pass})
	srv := &auth.Server{Ch: ch, User: user, Pass: pass}
	for i := 0; i < 3; i++ {
		v := f(verb, body)
		if e := srv.Accept(v, verb, uri, body); e != "" {
			c.Failf("challenge %s, user %q, password %q, URI %q, %s with body %q, use %d: %s %s", clip(ch.Text), clip(user), clip(pass), clip(uri), verb, clip(string(body)), i+1, clip(v), e)
		}
		c.Step(1)
	}
	c.State(ch.Text, user, pass, uri, body)
}

// digestKinds are challenges of every kind.
func digestKinds() []*auth.Challenge {
	out := []*auth.Challenge{{Basic: true, Realm: "r"}}
	for _, q := range [][]string{nil, {"auth"}, {"auth-int"}} {
		for _, a := range []string{"", "MD5", "MD5-sess"} {
			if q != nil || a != "MD5-sess" {
				out = append(out, &auth.Challenge{Realm: "r", Nonce: "n", Qops: q, Alg: a})
			}
		}
	}
	return out
}

func init() {
	anyByte := []byte{}
	for b := 0; b < 256; b++ {
		anyByte = append(anyByte, byte(b))
	}
	extend("C18", mc.Driver{Name: "characters", Split: 2,
		Bounds: "user name (characters a quoted string may contain), password and body (any byte), URI (visible characters) made of one character, of all pairs, and with each character at the beginning, in the middle and at the end; nine kinds of challenge in turn (all of them for single characters)",
		Body: func(c *mc.C) {
			which := c.Choose(4)
			set := [][]byte{textBytes, anyByte, anyByte, textBytes}[which]
			x := set[c.Choose(len(set))]
			kinds := digestKinds()
			vals := []string{string([]byte{x}), "ab" + string([]byte{x}), string([]byte{x}) + "ab", "ab" + string([]byte{x}) + "cd"}
			single := len(vals)
			for _, y := range set {
				vals = append(vals, string([]byte{x, y}), "a"+string([]byte{x, y, 'b'}))
			}
			for i, v := range vals {
				if which == 3 && strings.ContainsAny(v, " \t") || which == 0 && strings.Contains(v, ":") {
					continue
				}
				for k, ch := range kinds {
					if i >= single && (i+i/len(kinds)+k)%len(kinds) != 0 {
						continue
					}
					ch.Text = ""
					user, pass, uri, body := "admin", "12345", "rtsp://h/1", []byte("b")
					switch which {
					case 0:
						user = v
					case 1:
						pass = v
					case 2:
						body = []byte(v)
					case 3:
						uri = v
					}
					checkUses(c, ch, user, pass, uri, "SETUP", body)
				}
			}
			c.Logf("value %d, character %q", which, x)
		}}, mc.Driver{Name: "offers", Split: 3,
		Bounds: "qop offers of one to three options in six spellings each (letter case, all of auth, auth-int), five ways to write the list, quoted; five spellings of each algorithm, quoted or bare, or none",
		Body: func(c *mc.C) {
			words := []string{"auth", "AUTH", "Auth", "auth-int", "AUTH-INT", "Auth-Int"}
			n := 1 + c.Choose(3)
			qops := []string{}
			for i := 0; i < n; i++ {
				qops = append(qops, words[c.Choose(len(words))])
			}
			sep := []string{",", ", ", " ,", " , ", ",  "}[c.Choose(5)]
			for _, alg := range []string{"", "MD5", "md5", "Md5", "mD5", "MD5-sess", "md5-sess", "MD5-SESS", "Md5-Sess"} {
				for _, q := range []string{"", "\""} {
					for _, order := range []bool{false, true} {
						ch := &auth.Challenge{Realm: "r", Nonce: "n", Qops: qops, Alg: alg}
						qop := "qop=\"" + strings.Join(qops, sep) + "\""
						if alg != "" {
							a := "algorithm=" + q + alg + q
							if order {
								qop = a + ", " + qop
							} else {
								qop += ", " + a
							}
						}
						ch.Text = `Digest realm="r", nonce="n", ` + qop
						checkUses(c, ch, "admin", "12345", "rtsp://h/1", "PLAY", []byte("x"))
						ch.Text = `Digest ` + qop + `, realm="r", nonce="n"`
						checkUses(c, ch, "admin", "12345", "rtsp://h/1", "PLAY", nil)
					}
				}
			}
		}}, mc.Driver{Name: "lengths", Split: 2,
		Bounds: "user name, password, URI or body of 0..300 and 2^k-1 .. 2^k+1 bytes up to 2^16, for nine kinds of challenge",
		Body: func(c *mc.C) {
			ns := around(9, 16, 1)
			for i := 0; i <= 300; i++ {
				ns = append(ns, i)
			}
			n := ns[c.Choose(len(ns))]
			which := c.Choose(4)
			v := strings.Repeat("a1B2/+x.", n/8+1)[:n]
			for _, ch := range digestKinds() {
				user, pass, uri, body := "admin", "12345", "rtsp://h/1", []byte("b")
				switch which {
				case 0:
					user = v
				case 1:
					pass = v
				case 2:
					body = []byte(v)
				case 3:
					uri = "*" + v
				}
				checkUses(c, ch, user, pass, uri, "SETUP", body)
			}
			c.Logf("value %d, length %d", which, n)
		}})

	// ---- C21
	visible := []byte{}
	for b := 0x21; b < 256; b++ {
		if b != 0x7f {
			visible = append(visible, byte(b))
		}
	}
	extend("C21", mc.Driver{Name: "characters", Split: 2,
		Bounds: "header value, session, authorization or URI made of one or two visible characters (all pairs), with each of them at the beginning, in the middle and at the end of a word, and next to a blank or TAB inside a value",
		Body: func(c *mc.C) {
			which := c.Choose(4)
			x := visible[c.Choose(len(visible))]
			vals := []string{string([]byte{x}), "ab" + string([]byte{x}), string([]byte{x}) + "ab", "ab" + string([]byte{x}) + "cd"}
			if which != 3 {
				for _, bl := range []string{" ", "\t", "  "} {
					vals = append(vals, string([]byte{x})+bl+string([]byte{x}), "a"+bl+string([]byte{x}), string([]byte{x})+bl+"a")
				}
			}
			for _, y := range visible {
				vals = append(vals, string([]byte{x, y}), "a"+string([]byte{x, y, 'b'}))
			}
			for i, v := range vals {
				checkRequestValue(c, which, v, i)
			}
			c.Logf("value %d, character %q", which, x)
		}}, mc.Driver{Name: "lengths", Split: 1,
		Bounds: "header value, session, authorization or URI of 1..600 and 2^k-1 .. 2^k+1 characters up to 2^17",
		Body: func(c *mc.C) {
			ns := around(9, 17, 1)
			for i := 1; i <= 600; i++ {
				ns = append(ns, i)
			}
			n := ns[c.Choose(len(ns))]
			for which := 0; which < 4; which++ {
				checkRequestValue(c, which, strings.Repeat("a1B2/+x;", n/8+1)[:n], n)
				if which < 3 {
					checkRequestValue(c, which, strings.Repeat("a=\"b, c\"; ", n/10+1)[:n-1]+".", n+1)
				}
			}
			c.Logf("length %d", n)
		}})
}

// checkRequestValue packs requests with v as the value of a header, session, authorization or URI.
func checkRequestValue(c *mc.C, which int, v string, i int) {
	r := &rtsp.Request{Verb: verbs[i%len(verbs)], Cseq: 7, URI: "rtsp://h/1", Header: rtsp.MessageHeader{}}
	if i&1 == 1 {
		r.Session, r.Auth = "12345678", "Basic x"
	}
	switch which {
	case 0:
		r.Header[[]string{"Transport", "Range", "X-Any", "Accept"}[i%4]] = v
		if i%3 == 0 {
			r.Header["Require"] = "b"
		}
	case 1:
		r.Session = v
	case 2:
		r.Auth = v
	case 3:
		r.URI = v
	}
	checkRequest(c, r)
	c.State(which, v)
}
