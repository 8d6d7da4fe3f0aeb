#!/usr/bin/env python3
"""Plants bugs: plants.py holds changes to the library with a demonstration each; a change that
compiles, passes the tests and is shown by its demonstration is written to seeded/.

   plant.py [ID...]        confirm and write
   plant.py --catch [ID..] also run the check of the property against each (on /repo, undone after)
"""
import json, os, shutil, subprocess, sys, tempfile
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from plants import PLANTS

DEMO = '''#!/bin/bash
# shows the bug: run with the repository as the working directory
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)" || exit 2
trap 'rm -rf "$d"' EXIT
cp "$here/demo.go.txt" "$d/main.go"
printf 'module demo\\n\\ngo 1.17\\n\\nrequire github.com/cnsgfk/xbnf v0.0.0\\n\\nreplace github.com/cnsgfk/xbnf => %s\\n' "$PWD" > "$d/go.mod"
cd "$d" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off HOME="${HOME:-/root}"
go build RACE-o demo . || exit 2
timeout 100 ./demo
'''
CLIDEMO = '''#!/bin/bash
# shows the bug: run with the repository as the working directory
d="$(mktemp -d)" || exit 2
trap 'rm -rf "$d"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off HOME="${HOME:-/root}"
go build -o "$d/xbnf" ./main || exit 2
cd "$d" || exit 2
'''
GO = '''package main

import (
	"fmt"
	"os"
%s
	"github.com/cnsgfk/xbnf"
)

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

func grammar(defs ...string) *xbnf.Grammar {
	g := xbnf.NewGrammar()
	for _, d := range defs {
		if _, err := g.AddRule(d); err != nil {
			fail("%%s: %%s", d, err)
		}
	}
	if err := g.Validate(); err != nil {
		fail("%%s", err)
	}
	return g
}

var _ = grammar

func main() {
%s
}
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)

def main():
    args = [a for a in sys.argv[1:] if a != '--catch']
    catch = '--catch' in sys.argv
    for p in PLANTS:
        if args and not any(p['id'] == a or p['property'] == a for a in args):
            continue
        print(p['id'], p['property'], end=': ', flush=True)
        print(plant(p), end='', flush=True)
        print(' -> ' + run_check(p) if catch and os.path.exists(os.path.join(VERIF, 'seeded', p['id'])) else '', flush=True)

BASE = '4ea80d1'

def not_original(diff):
    """the lines a change removes that are not of the original repository"""
    import re
    f, n, bad, removed = '', 0, [], 0
    for l in diff.splitlines():
        if l.startswith('--- '):
            f = l[6:]
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-'):
            removed += 1
            b = sh(['git', 'blame', '-L', '%d,%d' % (n, n), '--porcelain', 'HEAD', '--', f], '/repo').stdout.split()[0]
            if sh(['git', 'merge-base', '--is-ancestor', b, BASE], '/repo').returncode:
                bad.append('%s:%d' % (f, n))
            n += 1
        elif l.startswith(' '):
            n += 1
    return ' '.join(bad)

def plant(p):
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        w = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', w, symlinks=True)
        sh(['git', 'checkout', '-q', '--', '.'], w)
        for f, old, new in p['edits']:
            path = os.path.join(w, f)
            s = open(path).read()
            if s.count(old) != 1:
                return 'NOT PLANTED: text found %d times in %s' % (s.count(old), f)
            open(path, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], w).stdout
        mine = not_original(diff)
        if mine:
            return 'NOT PLANTED: changes lines of fixes: ' + mine
        out = os.path.join(tmp, 'seed')
        os.makedirs(out)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        if 'go' in p:
            imports = ''.join('\t"%s"\n' % i for i in p.get('imports', []))
            open(os.path.join(out, 'demo.go.txt'), 'w').write(GO % (imports, p['go'].strip('\n')))
            open(os.path.join(out, 'demo.sh'), 'w').write(DEMO.replace('RACE', '-race ' if p.get('race') else ''))
        else:
            open(os.path.join(out, 'demo.sh'), 'w').write(CLIDEMO + p['sh'].strip('\n') + '\n')
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        v = sh(['go', 'vet', '.', './main'], w)
        b = sh(['go', 'build', './...'], w)
        if b.returncode:
            return 'NOT PLANTED: does not build: ' + b.stderr[-400:]
        for _ in range(3):
            t = sh(['go', 'test', '-count=1', './...'], w)
            if t.returncode:
                return 'NOT PLANTED: tests fail: ' + (t.stdout + t.stderr)[-600:]
        d = sh(['bash', os.path.join(out, 'demo.sh')], w)
        if d.returncode in (0, 2):
            return 'NOT PLANTED: demo does not show it (%d): %s' % (d.returncode, (d.stdout + d.stderr)[-600:])
        c = sh(['bash', os.path.join(out, 'demo.sh')], '/repo')
        if c.returncode:
            return 'NOT PLANTED: demo fails on the unchanged tree: ' + (c.stdout + c.stderr)[-600:]
        dst = os.path.join(VERIF, 'seeded', p['id'])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return 'ok (%s)' % d.stdout.strip()[:80].replace('\n', ' / ')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def run_check(p):
    dst = os.path.join(VERIF, 'seeded', p['id'])
    a = sh(['git', 'apply', os.path.join(dst, 'patch.diff')], '/repo')
    if a.returncode:
        return 'patch does not apply'
    try:
        e = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
        c = sh(['python3', 'bin/check.py', p['property']], VERIF, env=e)
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        return 'CAUGHT' if c.returncode == 1 and v else 'MISSED (%d) %s' % (c.returncode, (c.stdout + c.stderr)[-300:])
    finally:
        sh(['git', 'checkout', '-q', '--', '.'], '/repo')

main()
