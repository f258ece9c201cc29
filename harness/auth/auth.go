// Package auth is a server's side of RFC 2617, written independently of the code: it verifies authorizations.
package auth

import (
	"crypto/md5"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strings"
)

type Challenge struct {
	Basic                bool
	Realm, Nonce, Opaque string
	Qops                 []string
	Alg                  string // "", MD5, MD5-sess
	Text                 string
}

type Server struct {
	Ch         *Challenge
	User, Pass string
	Used       int    // times the nonce has been used
	cnonce     string // of the first use, for MD5-sess
}

func HashHex(s string) string {
	h := md5.Sum([]byte(s))
	return hex.EncodeToString(h[:])
}

// ParseParams reads name=value and name="value" separated by commas (RFC 2617 1.2).
func ParseParams(s string) (map[string]string, string) {
	out := map[string]string{}
	for {
		s = strings.TrimLeft(s, " \t,")
		if s == "" {
			return out, ""
		}
		i := strings.IndexByte(s, '=')
		if i <= 0 {
			return nil, "no value in " + s
		}
		name := strings.ToLower(strings.TrimSpace(s[:i]))
		s = strings.TrimLeft(s[i+1:], " \t")
		val := ""
		if strings.HasPrefix(s, "\"") {
			j := strings.IndexByte(s[1:], '"')
			if j < 0 {
				return nil, "unterminated quote in " + s
			}
			val, s = s[1:1+j], s[j+2:]
		} else {
			j := strings.IndexByte(s, ',')
			if j < 0 {
				j = len(s)
			}
			val, s = strings.TrimSpace(s[:j]), s[j:]
		}
		if s = strings.TrimLeft(s, " \t"); s != "" && s[0] != ',' {
			return nil, "text after the value of " + name + ": " + s
		}
		if _, dup := out[name]; dup {
			return nil, "parameter " + name + " twice"
		}
		out[name] = val
	}
}

// Accept verifies one Authorization value; "" means accepted.
func (v *Server) Accept(value, method, uri string, body []byte) string {
	if strings.ContainsAny(value, "\r\n") {
		return "contains a line break"
	}
	if v.Ch.Basic {
		if !strings.HasPrefix(value, "Basic ") {
			return "is not Basic"
		}
		b, err := base64.StdEncoding.DecodeString(value[6:])
		if err != nil {
			return "is not base64"
		}
		if string(b) != v.User+":"+v.Pass {
			return fmt.Sprintf("carries %q", b)
		}
		return ""
	}
	if !strings.HasPrefix(value, "Digest ") {
		return "is not Digest"
	}
	p, e := ParseParams(value[7:])
	if e != "" {
		return e
	}
	for _, x := range [][2]string{{"username", v.User}, {"realm", v.Ch.Realm}, {"nonce", v.Ch.Nonce}, {"uri", uri}} {
		if got, ok := p[x[0]]; !ok || got != x[1] {
			return fmt.Sprintf("has %s %q instead of %q", x[0], got, x[1])
		}
	}
	if got, ok := p["opaque"]; got != v.Ch.Opaque || ok && v.Ch.Opaque == "" {
		return fmt.Sprintf("has opaque %q instead of %q", got, v.Ch.Opaque)
	}
	alg := strings.ToLower(v.Ch.Alg)
	if alg == "" {
		alg = "md5"
	}
	if got, ok := p["algorithm"]; ok && strings.ToLower(got) != alg || !ok && alg != "md5" {
		return fmt.Sprintf("has algorithm %q instead of %q", got, v.Ch.Alg)
	}
	qop, ok := p["qop"]
	if !ok && len(v.Ch.Qops) > 0 {
		return "has no qop"
	}
	ha1 := HashHex(v.User + ":" + v.Ch.Realm + ":" + v.Pass)
	ha2 := HashHex(method + ":" + uri)
	if !ok {
		if _, has := p["nc"]; has {
			return "has a nonce count without qop"
		}
		if _, has := p["cnonce"]; has {
			return "has a cnonce without qop"
		}
		if p["response"] != HashHex(ha1+":"+v.Ch.Nonce+":"+ha2) {
			return "has a wrong response"
		}
		return ""
	}
	offered := false
	for _, q := range v.Ch.Qops {
		offered = offered || strings.EqualFold(q, qop)
	}
	if !offered {
		return fmt.Sprintf("has qop %q which was not offered", qop)
	}
	v.Used++
	if want := fmt.Sprintf("%08x", v.Used); p["nc"] != want {
		return fmt.Sprintf("has nonce count %q instead of %s", p["nc"], want)
	}
	cn := p["cnonce"]
	if cn == "" {
		return "has no cnonce"
	}
	if v.cnonce == "" {
		v.cnonce = cn
	}
	if alg == "md5-sess" {
		ha1 = HashHex(ha1 + ":" + v.Ch.Nonce + ":" + v.cnonce)
	}
	if strings.EqualFold(qop, "auth-int") {
		ha2 = HashHex(method + ":" + uri + ":" + HashHex(string(body)))
	}
	if p["response"] != HashHex(strings.Join([]string{ha1, v.Ch.Nonce, p["nc"], cn, qop, ha2}, ":")) {
		return "has a wrong response"
	}
	return ""
}

// Format writes the challenge the usual way.
func (ch *Challenge) Format() {
	if ch.Basic {
		ch.Text = fmt.Sprintf("Basic realm=%q", ch.Realm)
		return
	}
	s := `Digest realm="` + ch.Realm + `", nonce="` + ch.Nonce + `"`
	if ch.Opaque != "" {
		s += `, opaque="` + ch.Opaque + `"`
	}
	if ch.Qops != nil {
		s += `, qop="` + strings.Join(ch.Qops, ",") + `"`
	}
	if ch.Alg != "" {
		s += `, algorithm=` + ch.Alg
	}
	ch.Text = s + `, stale=FALSE`
}
