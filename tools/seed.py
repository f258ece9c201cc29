#!/usr/bin/env python3
"""Writes a planted bug to /verif/seeded and tries it out.

usage: seed.py FILE...   each FILE defines BUGS, a list of dicts:
  id, prop, file or edits [(file, old, new)], pkg (package directory of the demo), demo (Go test source), needs, breaks
A bug is kept if it applies, builds, passes the tests, and its demonstration tells the trees apart.
"""
import json, os, shutil, subprocess, sys, tempfile

ROOT = '/verif/seeded'
ENV = dict(os.environ, GOFLAGS='-mod=readonly', GOPROXY='off')

SERVER = r'''
type dreq struct {
	verb, uri, raw string
	head           map[string]string
}

// dserver plays the server of one session on the loopback network.
type dserver struct {
	t *testing.T
	l net.Listener
	c net.Conn
	r *bufio.Reader
	s *rtsp.Session
}

func dstart(t *testing.T, cred string, proto int) *dserver {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	d := &dserver{t: t, l: l, s: rtsp.NewSession()}
	url := "rtsp://" + cred + l.Addr().String() + "/live"
	go d.s.Open(url, proto)
	if d.c, err = l.Accept(); err != nil {
		t.Fatal(err)
	}
	d.r = bufio.NewReader(d.c)
	return d
}

func (d *dserver) stop() { d.c.Close(); d.l.Close() }

// try reads a request if there is one in time.
func (d *dserver) try(wait time.Duration) *dreq {
	q := &dreq{head: map[string]string{}}
	d.c.SetReadDeadline(time.Now().Add(wait))
	for n := 0; ; n++ {
		line, err := d.r.ReadString('\n')
		if err != nil {
			return nil
		}
		q.raw += line
		line = strings.TrimSpace(line)
		if line == "" {
			return q
		}
		if n == 0 {
			f := strings.Fields(line)
			q.verb, q.uri = f[0], f[1]
		} else if i := strings.Index(line, ":"); i > 0 {
			q.head[strings.ToLower(line[:i])] = strings.TrimSpace(line[i+1:])
		}
	}
}

func (d *dserver) next(verb string) *dreq {
	d.t.Helper()
	q := d.try(5 * time.Second)
	if q == nil || q.verb != verb {
		d.t.Fatalf("no %s but %v", verb, q)
	}
	return q
}

func (d *dserver) reply(q *dreq, status string, body string, head ...string) {
	out := "RTSP/1.0 " + status + "\r\nCSeq: " + q.head["cseq"] + "\r\n"
	for _, h := range head {
		out += h + "\r\n"
	}
	if body != "" {
		out += fmt.Sprintf("Content-Length: %d\r\n", len(body))
	}
	io.WriteString(d.c, out+"\r\n"+body)
}

func dvideo(controls ...string) string {
	b := "v=0\r\n"
	for _, c := range controls {
		b += "m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=control:" + c + "\r\n"
	}
	return b
}

// setup answers everything up to the ready stage.
func (d *dserver) setup(controls ...string) {
	d.t.Helper()
	d.reply(d.next("OPTIONS"), "200 OK", "")
	d.reply(d.next("DESCRIBE"), "200 OK", dvideo(controls...))
	for range controls {
		q := d.next("SETUP")
		d.reply(q, "200 OK", "", "Session: 4711", "Transport: "+q.head["transport"])
	}
	d.stage(rtsp.StageReady)
}

func (d *dserver) stage(want int) {
	d.t.Helper()
	select {
	case st := <-d.s.State:
		if st != want {
			d.t.Fatalf("stage %d instead of %d", st, want)
		}
	case <-time.After(5 * time.Second):
		d.t.Fatalf("stage %d is not reported", want)
	}
}

func (d *dserver) quiet(wait time.Duration) {
	d.t.Helper()
	select {
	case st := <-d.s.State:
		d.t.Fatalf("stage %d is reported", st)
	case <-time.After(wait):
	}
}
'''
IMPORTS = ['bufio', 'fmt', 'io', 'net', 'strings', 'testing', 'time', 'log', 'github.com/aboukirev/ouro/net/rtsp']

DEMO = '''#!/bin/bash
# Runs the demonstration against the tree in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
export GOPROXY=off GOFLAGS=-mod=readonly GOTOOLCHAIN=local GOWORK=off HOME=${HOME:-/root}
printf '{"Replace": {"%s": "%s"}}' "$PWD/@PKG@/zz_demo_test.go" "$D/demo_test.go" > "$W/overlay.json"
timeout 200 go test @FLAGS@-overlay "$W/overlay.json" -count=1 -run '^TestDemo$' ./@PKG@
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=ENV, **kw)

def write(b, d):
    os.makedirs(d, exist_ok=True)
    demo = b['demo'].strip() + '\n'
    if b.get('server'):
        extra = b.get('imports', [])
        imps = ''.join(f'\t"{i}"\n' for i in sorted(set(IMPORTS + extra)))
        demo = f'package rtsp_test\n\nimport (\n{imps})\n\nfunc init() {{ log.SetOutput(io.Discard) }}\n' + SERVER + '\n' + demo
    open(d + '/demo_test.go', 'w').write(demo)
    subprocess.run(['gofmt', '-w', d + '/demo_test.go'], check=True)
    open(d + '/demo.sh', 'w').write(b.get('script') or DEMO.replace('@PKG@', b['pkg']).replace('@FLAGS@', b.get('flags', '')))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)

def main():
    bugs = []
    only = set()
    for f in sys.argv[1:]:
        if f.startswith('+'):
            only.add(f[1:])
            continue
        ns = {}
        exec(open(f).read(), ns)
        bugs += ns['BUGS']
    for b in bugs:
        if only and b['id'] not in only:
            continue
        if not only and os.path.exists(f"{ROOT}/{b['id']}/patch.diff"):
            continue
        T = tempfile.mkdtemp(prefix='seed-')
        try:
            sh('cp -a /repo tree', T)
            tree = T + '/tree'
            write(b, T + '/demo')
            r = sh(T + '/demo/demo.sh', tree)
            if r.returncode != 0:
                print(b['id'], 'demo fails on the clean tree', r.stdout[-1500:], r.stderr[-800:])
                continue
            bad = False
            for f, old, new in b['edits']:
                s = open(tree + '/' + f).read()
                if s.count(old) != 1:
                    print(b['id'], 'text occurs', s.count(old), 'times:', old)
                    bad = True
                    break
                open(tree + '/' + f, 'w').write(s.replace(old, new))
            if bad:
                continue
            diff = sh('git diff -- "*.go"', tree).stdout
            r = sh('go vet ./net/... ./cmd/... >/dev/null; go build ./... && go test ./... 2>&1', tree)
            if r.returncode != 0:
                print(b['id'], 'build or tests', r.stdout[-1500:], r.stderr[-800:])
                continue
            r = sh(T + '/demo/demo.sh', tree)
            if r.returncode == 0:
                print(b['id'], 'demo passes with the bug')
                continue
            d = f"{ROOT}/{b['id']}"
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(T + '/demo', d)
            open(d + '/patch.diff', 'w').write(diff)
            last = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()][:3]
            print(b['id'], 'kept:', ' | '.join(last)[:200])
        finally:
            shutil.rmtree(T)

main()
