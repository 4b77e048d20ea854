#!/usr/bin/env python3
"""Builds and confirms the planted bugs of /verif/seeded from the definitions in bugs*.py.

For every bug: apply the edits to a scratch copy of /repo, check that it builds, that the existing
tests pass, that the demonstration succeeds without the change and fails with it, and that the change
touches lines of the original repository; then write seeded/<id>/.
usage: plant.py [--check] [id ...]     --any: also those that change no original line; --check: also run the check of the property (quick tier)
"""
import os, sys, subprocess, json, shutil, importlib.util, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'b04bd6b'
S = '/tmp/w/plant'
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local',
           GOPROXY='off', GOFLAGS='-mod=mod', GOSUMDB='off')

DEMO_SH = '''#!/bin/bash
# run with the working directory set to the repository
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
export HOME=${HOME:-/root}
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$D" > "$T/overlay.json"
go test RACE-overlay "$T/overlay.json" -vet=off -count=1 -run '^TestDemo$' -timeout 200s .
'''
HELP = '''
func parse(t *testing.T, sql string) model.Stmts {
	t.Helper()
	stmts, err := schemalex.New().ParseString(sql)
	if err != nil {
		t.Fatalf("parse %q: %s", sql, err)
	}
	return stmts
}

func sqlOf(t *testing.T, v interface{}) string {
	t.Helper()
	var buf bytes.Buffer
	if err := format.SQL(&buf, v); err != nil {
		t.Fatal(err)
	}
	return buf.String()
}

func diffOf(t *testing.T, from, to string, o ...diff.Option) string {
	t.Helper()
	var buf bytes.Buffer
	if err := diff.Strings(&buf, from, to, o...); err != nil {
		t.Fatal(err)
	}
	return buf.String()
}

func lintOf(t *testing.T, sql string) string {
	t.Helper()
	var buf bytes.Buffer
	if err := lint.New().Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(sql)), &buf); err != nil {
		t.Fatal(err)
	}
	return buf.String()
}

var _, _, _, _ = parse, sqlOf, diffOf, lintOf
'''
STD = ['bytes', 'context', 'strings', 'testing']
MOD = ['', '/diff', '/format', '/lint', '/model']

def demo_go(b):
    imps = sorted(set(STD + b.get('imports', [])))
    s = 'package schemalex_test\n\nimport (\n'
    for i in imps: s += '\t"%s"\n' % i
    s += '\n'
    for m in MOD: s += '\t"github.com/schemalex/schemalex%s"\n' % m
    for m in b.get('ximports', []): s += '\t%s\n' % m
    s += ')\n' + HELP + '\n' + b.get('decl', '')
    s += '\nfunc TestDemo(t *testing.T) {\n' + b['demo'].strip('\n') + '\n}\n'
    return s

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=ENV, **k)

def reset():
    if not os.path.isdir(S):
        os.makedirs(os.path.dirname(S), exist_ok=True)
        sh('cp -a /repo %s' % S)
    sh('cd %s && git fetch -q /repo HEAD 2>/dev/null; git checkout -q -f $(git -C /repo rev-parse HEAD) && git clean -fdq' % S)

def load():
    bugs = []
    for f in sorted(glob.glob(V + '/tools/bugs*.py')):
        spec = importlib.util.spec_from_file_location('b', f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        bugs += m.BUGS
    ids = [b['id'] for b in bugs]
    assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
    return bugs

def main():
    check = '--check' in sys.argv
    want = [a for a in sys.argv[1:] if not a.startswith('--')]
    fails = []
    for b in load():
        if want and b['id'] not in want and b['id'].split('-')[0] not in want: continue
        r = confirm(b)
        msg = r
        if r == 'ok' and check:
            p = subprocess.run(['./run.sh', b['prop']], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, VERIF_REPO=S, VERIF_SEED='1', VERIF_MAXVIOL='1'))
            caught = p.returncode == 1 and ('VIOLATION property=%s ' % b['prop']) in p.stdout
            msg = 'ok  CAUGHT' if caught else 'ok  MISSED (exit %d)' % p.returncode
        if not msg.startswith('ok') or 'MISSED' in msg: fails.append(b['id'])
        print('%-8s %s' % (b['id'], msg), flush=True)
    reset()
    print('not ok:', fails)

def confirm(b):
    reset()
    d = V + '/seeded/' + b['id']
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    race = '-race ' if b.get('race') else ''
    if 'sh' in b:
        open(d + '/demo.sh', 'w').write(b['sh'])
    else:
        open(d + '/demo.sh', 'w').write(DEMO_SH.replace('RACE', race))
    os.chmod(d + '/demo.sh', 0o755)
    if 'demo' in b:
        open(d + '/demo_test.go', 'w').write(demo_go(b))
        sh('gofmt -w %s/demo_test.go' % d)
    for n, c in b.get('files', {}).items():
        open(d + '/' + n, 'w').write(c)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    # the demonstration holds without the change
    r = sh(d + '/demo.sh', cwd=S)
    if r.returncode != 0: return 'DEMO FAILS WITHOUT CHANGE\n' + r.stdout[-1500:]
    for f, old, new in b['edits']:
        p = S + '/' + f
        s = open(p).read()
        if s.count(old) != 1: return 'EDIT: %d matches of %r in %s' % (s.count(old), old, f)
        open(p, 'w').write(s.replace(old, new))
    r = sh('gofmt -l $(git diff --name-only)', cwd=S)
    if r.stdout.strip(): sh('gofmt -w ' + r.stdout.replace('\n', ' '), cwd=S)
    r = sh('go build ./... && go vet . ./diff ./format ./lint ./model >/dev/null 2>&1; go build ./...', cwd=S)
    if r.returncode != 0: return 'BUILD\n' + r.stdout[-1500:]
    diff = sh('git diff', cwd=S).stdout
    open(d + '/patch.diff', 'w').write(diff)
    if '--any' not in sys.argv and not orig_lines(diff): return 'CHANGES NO ORIGINAL LINE'
    r = sh('go test -vet=off -count=1 -timeout 5m ./...', cwd=S)
    if r.returncode != 0: return 'TESTS FAIL\n' + r.stdout[-1500:]
    r = sh(d + '/demo.sh', cwd=S)
    if r.returncode == 0: return 'DEMO PASSES WITH CHANGE'
    return 'ok'

def orig_lines(diff):
    """does the change delete at least one line of the original repository?"""
    n = 0
    cur = None; line = 0
    for l in diff.split('\n'):
        if l.startswith('--- a/'): cur = l[6:]; bl = None
        elif l.startswith('@@'):
            line = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            if bl is None:
                bl = sh('git blame -s %s..HEAD -- %s' % (BASE, cur), cwd='/repo').stdout.split('\n')
            if bl[line-1].startswith('^'): n += 1
            line += 1
        elif l.startswith(' '): line += 1
    return n

main()
