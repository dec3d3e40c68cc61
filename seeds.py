#!/usr/bin/env python3
"""Plants bugs: writes seeded/<id>/{patch.diff,demo.sh,meta.json} from seeds/*.py after confirming, in a scratch
clone of /repo, that the change builds, passes the tests, and that the demonstration tells it from the original.
usage: seeds.py [-k SUBSTR] [--check]   (--check also runs the property's check against the change)"""
import sys, os, shutil, subprocess, tempfile, json, glob, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', PATH='/opt/veriftools/go1.26.10/bin:' + os.environ['PATH'])
PRE = '''#!/bin/bash
# Run in the repository after a build; exit 0 when the property holds here.
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
[ -d /opt/veriftools/go1.26.10/bin ] && export PATH=/opt/veriftools/go1.26.10/bin:$PATH
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/demo-XXXXXX)
trap 'chmod -R u+rwx "$tmp" 2>/dev/null; rm -rf "$tmp"' EXIT
export GOTEMPLATE_NO_STDIN=1
'''
CLI = 'go build -o "$tmp/gt" . || exit 3\nmkdir "$tmp/w"; cd "$tmp/w" || exit 3\n'

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)

def one(s, check):
    d = tempfile.mkdtemp(prefix='seed-')
    try:
        w = d + '/r'
        sh(['git', 'clone', '-q', '/repo', w], '/')
        out = d + '/s'
        os.mkdir(out)
        if 'go' in s:   # an in-module Go test run through an overlay
            open(out + '/demo_test.go', 'w').write(s['go'])
            body = f'''cat > "$tmp/o.json" <<J
{{"Replace": {{"$repo/{s['pkg']}/zz_demo_test.go": "$here/demo_test.go"}}}}
J
go test -vet=off -count=1 {s.get('goflags','')} -overlay "$tmp/o.json" -run TestZZDemo ./{s['pkg']}
'''
        else:
            body = CLI + s['demo']
        open(out + '/demo.sh', 'w').write(PRE + body)
        os.chmod(out + '/demo.sh', 0o755)
        a = sh(['bash', out + '/demo.sh'], w, timeout=280)
        if a.returncode: return s, 'DEMO-FAILS-ON-ORIGINAL', a.stdout[-500:] + a.stderr[-500:]
        for f, old, new in s['edits']:
            p = w + '/' + f
            t = open(p).read()
            if old not in t: return s, 'STALE', old[:80]
            open(p, 'w').write(t.replace(old, new, 1))
        sh(['gofmt', '-l', '.'], w)
        diff = sh(['git', 'diff'], w).stdout
        open(out + '/patch.diff', 'w').write(diff)
        b = sh(['go', 'build', './...'], w)
        if b.returncode: return s, 'NOBUILD', b.stderr[:500]
        b = sh(['go', 'test', '-vet=off', './...'], w)
        if b.returncode: return s, 'TESTFAIL', b.stdout[-700:]
        for _ in range(s.get('repeat', 1)):
            a = sh(['bash', out + '/demo.sh'], w, timeout=280)
            if a.returncode == 0: return s, 'DEMO-PASSES-WITH-BUG', a.stdout[-500:]
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        dst = HERE + '/seeded/' + s['id']
        if os.path.isdir(dst): shutil.rmtree(dst)
        shutil.copytree(out, dst)
        msg = ''
        if check:
            c = sh([HERE + '/bin/verifchecker', '-repo', w, '-prop', s['property'], '-out', d, '-known', HERE + '/known-findings.txt'], '/')
            msg = 'CAUGHT' if c.returncode == 1 else 'missed'
        return s, 'kept ' + msg, ''
    finally:
        shutil.rmtree(d)

def main():
    k = sys.argv[sys.argv.index('-k') + 1] if '-k' in sys.argv else ''
    seeds = []
    for f in sorted(glob.glob(HERE + '/seeds/*.py')):
        g = {}
        exec(compile(open(f).read(), f, 'exec'), g)
        seeds += g['SEEDS']
    seeds = [s for s in seeds if k in s['id']]
    with cf.ThreadPoolExecutor(4) as ex:
        for s, st, detail in ex.map(lambda s: one(s, '--check' in sys.argv), seeds):
            print(f"{s['id']:28} {s['property']} {st}")
            if detail: print('     ' + detail.replace('\n', '\n     '))
main()
