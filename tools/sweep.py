#!/usr/bin/env python3
"""Applies behaviour-preserving mutators to copies of /repo and reports the checks that change their answer.
usage: sweep.py [mutator ...]   env PROPS="C01 C02", PER=file (one file at a time)"""
import subprocess, sys, os, shutil, glob, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = 'closure defer demorgan flipcmp hoist nestif noop range rename reorder returns splitif swapif switch vars wrap'.split()
muts = sys.argv[1:] or ALL
props = os.environ.get('PROPS', '').split()
if not props:
    props = [l.split('"')[3] for l in open(V + '/properties.jsonl')]
    props = [p for p in props if p not in os.environ.get('SKIP', '').split()]
env = dict(os.environ)
def one(m, only=None):
    d = f'/tmp/w/mut-{m}' + ('-' + only.replace('/', '_').replace(':', '_') if only else '')
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    try:
        a = ['/tmp/mutate', '-dir', d, '-m', m] + (['-only', only] if only else [])
        r = subprocess.run(a, capture_output=True, text=True, env=env)
        if r.returncode: return m, only, 'MUTATE ' + r.stderr[-300:], {}
        n = subprocess.run(['git', '-C', d, 'diff', '--numstat'], capture_output=True, text=True).stdout
        b = subprocess.run(['go', 'build', './...'], cwd=d, capture_output=True, text=True, env=env)
        if b.returncode: return m, only, 'BUILD ' + b.stderr[-600:], {}
        b = subprocess.run(['go', 'test', './...'], cwd=d, capture_output=True, text=True, env=env)
        note = '' if b.returncode == 0 else 'TESTS ' + '\n'.join(l for l in b.stdout.split('\n') if l.startswith('--- FAIL') or 'panic' in l)[:500]
        res = {}
        for p in props:
            try:
                r = subprocess.run([V + '/bin/verifchecker', '-prop', p, '-out', '/tmp/ev/' + os.path.basename(d), '-repo', d, '-known', V + '/known-findings.txt'], capture_output=True, text=True, timeout=900, env=env)
                if r.returncode: res[p] = [l[:300] for l in (r.stdout + r.stderr).split('\n') if l][:6]
            except subprocess.TimeoutExpired:
                res[p] = ['TIMEOUT']
        return m, only, note + f' {len(n.splitlines())} files', res
    finally:
        if not os.environ.get('KEEP'): shutil.rmtree(d, ignore_errors=True)
jobs = [(m, None) for m in muts]
if os.environ.get('PER') == 'file':
    fs = [f for f in subprocess.run(['git', '-C', '/repo', 'ls-files', '*.go'], capture_output=True, text=True).stdout.split() if not f.endswith('_test.go')]
    jobs = [(m, f) for m in muts for f in fs]
with cf.ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for f in cf.as_completed([ex.submit(one, *j) for j in jobs]):
        m, only, note, res = f.result()
        print('==', m, only or '', note, 'OK' if not res else 'ALARM ' + ' '.join(res), flush=True)
        for p, ls in res.items():
            for l in ls: print('    ', p, l)
