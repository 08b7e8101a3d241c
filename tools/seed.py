#!/usr/bin/env python3
"""Try the planted bugs of mutants.py: seed.py try [ids|Cxx...] [--all-checks]; seed.py write ids..."""
import sys, os, json, subprocess, shutil, tempfile
sys.path.insert(0, os.path.dirname(__file__))
from mutants import M
PRE = '''package gojsonschema

import (
%s)

func eq(t *testing.T, got, want string) {
	t.Helper()
	if got != want {
		t.Fatalf("got %%q, want %%q", got, want)
	}
}

func run(schema, doc string) (r *Result, bad string) {
	defer func() {
		if e := recover(); e != nil {
			bad = "PANIC"
		}
	}()
	s, err := NewSchema(NewStringLoader(schema))
	if err != nil {
		return nil, "COMPILE"
	}
	r, err = s.Validate(NewStringLoader(doc))
	if err != nil {
		return nil, "LOAD"
	}
	return r, ""
}

func list(schema, doc string, f func(ResultError) string) string {
	r, bad := run(schema, doc)
	if r == nil {
		return bad
	}
	var l []string
	for _, e := range r.Errors() {
		l = append(l, f(e))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func errs(schema, doc string) string {
	return list(schema, doc, func(e ResultError) string { return e.Type() + "@" + e.Context().String() })
}
func vals(schema, doc string) string {
	return list(schema, doc, func(e ResultError) string { return fmt.Sprint(e.Value()) })
}
func descs(schema, doc string) string {
	return list(schema, doc, func(e ResultError) string { return e.Description() })
}
func fields(schema, doc string) string {
	return list(schema, doc, func(e ResultError) string { return e.Field() })
}

var _ = []interface{}{vals, descs, fields, errs, eq, fmt.Sprint}
'''
EXTRA = {
 'badFS': '''
type badFile struct{ closed bool }
func (f *badFile) Close() error { f.closed = true; return nil }
func (f *badFile) Read([]byte) (int, error) { return 0, errors.New("read") }
func (f *badFile) Seek(int64, int) (int64, error) { return 0, nil }
func (f *badFile) Readdir(int) ([]os.FileInfo, error) { return nil, nil }
func (f *badFile) Stat() (os.FileInfo, error) { return nil, nil }
type badFS struct{ f *badFile }
func (b badFS) Open(string) (http.File, error) { return b.f, nil }
''',
 'badRef': '''
type badRef struct{ JSONLoader }
func (badRef) JsonReference() (gojsonreference.JsonReference, error) { return gojsonreference.JsonReference{}, errors.New("bad") }
''',
 'customLoc': '''
type customLoc struct{ DefaultLocale }
func (customLoc) ArrayContains() string { return "CUSTOM {{.field}}" }
''',
 'rtFunc': '''
type rtFunc func(*http.Request) (*http.Response, error)
func (f rtFunc) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }
type clBody struct { io.Reader; c *bool }
func (b clBody) Close() error { *b.c = true; return nil }
type badRd struct{}
func (badRd) Read(p []byte) (int, error) { return copy(p, "{}"), errors.New("broken") }
''',
 'anyFS': '''
type anyFS struct{}
func (anyFS) Open(n string) (http.File, error) { return nil, os.ErrNotExist }
''',
 'halfLd': '''
type halfLd struct{ JSONLoader }
func (l halfLd) LoadJSON() (interface{}, error) { return 1, errors.New("half") }
''',
 'valLoc': '''
type valLoc struct{ DefaultLocale }
func (valLoc) ErrorFormat() string { return "{{.value}}" }
''',
 'selfRm': '''
type selfRm struct{}
func (selfRm) IsFormat(interface{}) bool { FormatCheckers.Remove("selfrm"); return true }
''',
}
PKGS = [('json.','encoding/json'),('errors.','errors'),('http.','net/http'),('httptest.','net/http/httptest'),('os.','os'),('time.','time'),('sync.','sync'),('bytes.','bytes'),('io.','io'),('filepath.','path/filepath'),('strconv.','strconv'),('gojsonreference.','github.com/xeipuuv/gojsonreference')]
def demo_src(mu):
    body = mu['demo']
    if body.startswith('race:'):
        body = '''var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() { defer wg.Done(); for i := 0; i < 50; i++ { _ = %s } }()
	}
	wg.Wait()''' % body[5:]
    ex = ''.join(v for k, v in EXTRA.items() if k in body)
    text = body + ex
    imps = ['fmt','sort','strings','testing'] + [p for k, p in PKGS if k in text]
    src = PRE % ''.join('\t"%s"\n' % i for i in sorted(set(imps)))
    src += ex + '\nfunc TestVPDemo(t *testing.T) {\n\t' + body + '\n}\n'
    p = subprocess.run(['gofmt'], input=src, capture_output=True, text=True)
    return p.stdout if p.returncode == 0 else src
DEMO = '''#!/bin/bash
# exits 0 when the behaviour holds, non-zero when it is broken
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp -d)
trap 'rm -rf "$o"' EXIT
printf '{"Replace": {"%s/zz_vp_demo_test.go": "%s/demo_test.go.txt"}}' "$PWD" "$d" > "$o/ov.json"
go test -count=1 -vet=off -timeout 120s -overlay "$o/ov.json" -run 'TestVPDemo$' .
'''
def demo_sh(mu):
    return DEMO.replace('go test -count=1', 'go test -race -count=1') if mu['demo'].startswith('race:') else DEMO
BASE = json.load(open('/opt/vp/BASELINE.json'))
def stable_tests():
    t = BASE
    for k in ('stable','passed','tests','pass'):
        if isinstance(t, dict) and k in t: t = t[k]; break
    return t
def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
def prepare(mu):
    d = '/tmp/mut/' + mu['id']
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/mut', exist_ok=True)
    shutil.copytree('/repo', d, symlinks=True)
    for f, old, new in mu['edits']:
        s = open(d + '/' + f).read()
        if s.count(old) < 1: return d, 'text not found in ' + f
        s = s.replace(old, new, 1)
        open(d + '/' + f, 'w').write(s)
    return d, ''
def try_one(mu, props, tests=True):
    d, err = prepare(mu)
    out = {'id': mu['id'], 'prop': mu['prop']}
    if err: out['err'] = err; return out
    try:
        b = sh('go build ./... && go vet . 2>/dev/null; go build ./...', d)
        if b.returncode: out['err'] = 'build: ' + b.stderr[:500]; return out
        if tests:
            r = sh('unshare -Urn python3 /verif/tools/lo.py go test -count=1 -vet=off . 2>&1 | grep -E "^\\s*--- FAIL|^panic|^FAIL|^ok"', d)
            out['tests'] = sorted(x.split()[2] for x in r.stdout.splitlines() if x.startswith('--- FAIL')) + (['PANIC'] if 'panic' in r.stdout else [])
            w = '/tmp/mut/' + mu['id'] + '.demo'; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
            open(w + '/demo_test.go.txt', 'w').write(demo_src(mu)); open(w + '/demo.sh', 'w').write(demo_sh(mu))
            c = sh('bash %s/demo.sh' % w, '/repo'); m_ = sh('bash %s/demo.sh' % w, d)
            out['demo'] = (c.returncode, m_.returncode)
            if c.returncode: out['demo_clean'] = (c.stdout + c.stderr)[:600]
            shutil.rmtree(w)
        for p in props:
            v = '/tmp/mut/v.' + mu['id']; os.makedirs(v, exist_ok=True)
            shutil.copy('/verif/known-findings.txt', v)
            r = sh('/tmp/chk check ' + p, '/verif', {'VERIF_REPO': d, 'VERIF_DIR': v})
            out[p] = {0: 'quiet', 1: 'CAUGHT'}.get(r.returncode, 'rc %d' % r.returncode)
            out[p + '_out'] = (r.stdout + r.stderr)[:1500]
            shutil.rmtree(v)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out
if __name__ == '__main__':
    a = sys.argv[2:]
    opts = [x for x in a if x.startswith('--')]; a = [x for x in a if not x.startswith('--')]
    ids = {x['id'] for x in M}
    sel = [x for x in M if not a or x['id'] in a or x['prop'] in a]
    if sys.argv[1] == 'try':
        for mu in sel:
            o = try_one(mu, [] if '--nocheck' in opts else [mu['prop']], '--notest' not in opts)
            p = mu['prop']
            print(mu['id'], p, o.get('err', ''), 'tests:', o.get('tests'), 'demo:', o.get('demo'), o.get(p), flush=True)
            if o.get('demo_clean'): print('   ', o['demo_clean'])
            if '-v' in sys.argv or '--verbose' in opts: print(o.get(p + '_out', ''))
    elif sys.argv[1] == 'write':
        for mu in sel:
            d, err = prepare(mu)
            if err: print(mu['id'], err); continue
            o = '/verif/seeded/' + mu['id']
            shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
            p = sh('git diff', d).stdout
            open(o + '/patch.diff', 'w').write(p)
            open(o + '/demo.sh', 'w').write(demo_sh(mu))
            open(o + '/demo_test.go.txt', 'w').write(demo_src(mu))
            json.dump({'property': mu['prop'], 'needs': mu['needs'], 'what_it_breaks': mu['breaks']}, open(o + '/meta.json', 'w'), indent=1)
            shutil.rmtree(d)
