#!/usr/bin/env python3
"""Both-ways trials of the checker: broken variants must be reported, rewritten-but-equivalent
variants must stay quiet. usage: trials.py [-k SUBSTR] [--tests]   (scratch copies under /tmp)"""
import sys, os, shutil, subprocess, tempfile, json, glob, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', PATH='/opt/veriftools/go1.26.10/bin:' + os.environ['PATH'])

def run(t, tests):
    d = tempfile.mkdtemp(prefix='trial-')
    try:
        w = os.path.join(d, 'r')
        shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('.git'), symlinks=True)
        for f, old, new in t['edits']:
            p = os.path.join(w, f)
            s = open(p).read()
            if old is None:
                open(p, 'w').write(s + new)
                continue
            if old not in s:
                return t, 'STALE', f'{f}: text not found: {old[:60]!r}'
            open(p, 'w').write(s.replace(old, new) if t.get('all') else s.replace(old, new, 1))
        b = subprocess.run(['go', 'build', './...'], cwd=w, env=ENV, capture_output=True, text=True)
        if b.returncode:
            return t, 'NOBUILD', b.stderr[:500]
        if tests:
            b = subprocess.run(['go', 'test', '-vet=off', './...'], cwd=w, env=ENV, capture_output=True, text=True)
            if b.returncode:
                return t, 'TESTFAIL', b.stdout[-600:]
        res = {}
        for p in t['props']:
            c = subprocess.run([HERE + '/bin/verifchecker', '-repo', w, '-prop', p, '-out', d, '-known', HERE + '/known-findings.txt'], env=ENV, capture_output=True, text=True)
            res[p] = (c.returncode, c.stdout + c.stderr)
        if t['kind'] == 'bug':
            ok = any(rc == 1 for rc, _ in res.values())
        else:
            ok = all(rc == 0 for rc, _ in res.values())
        detail = '\n'.join(o for rc, o in res.values() if (rc != 0))[:700]
        return t, 'ok' if ok else 'FAIL', detail if (not ok or '-v' in sys.argv) else ''
    finally:
        shutil.rmtree(d)

def main():
    k = sys.argv[sys.argv.index('-k') + 1] if '-k' in sys.argv else ''
    trials = []
    only = sys.argv[sys.argv.index('-f') + 1] if '-f' in sys.argv else ''
    for f in sorted(glob.glob(HERE + '/trials/*.py')):
        if only not in f: continue
        g = {}
        exec(compile(open(f).read(), f, 'exec'), g)
        trials += g['TRIALS']
    trials = [t for t in trials if (k in t['name'] or k in ' '.join(t['props'])) and ('--ok' not in sys.argv or t['kind'] == 'ok')]
    allp = os.environ.get('PROPS', '').split() or [c['property'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks']] if '--all' in sys.argv else None
    if allp:
        for t in trials:
            if t['kind'] == 'ok': t['props'] = allp
    bad = 0
    with cf.ThreadPoolExecutor(4) as ex:
        for t, st, detail in ex.map(lambda t: run(t, '--tests' in sys.argv), trials):
            if st != 'ok': bad += 1
            print(f"{st:8} {t['kind']:4} {','.join(t['props'])[:40]:12} {t['name']}")
            if detail: print('      ' + detail.replace('\n', '\n      '))
    print(len(trials), 'trials,', bad, 'not as expected')
    sys.exit(1 if bad else 0)
main()
