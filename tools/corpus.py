#!/usr/bin/env python3
"""Try the checks on edited copies of the repository.

usage: corpus.py [-t] [-k DIR] [-p P01,P02] FILE.py [name-prefix ...]

Each FILE.py defines CASES, a list of (name, properties, [(file, old, new), ...]). Properties is a
space-separated list of the checks expected to alarm; empty means that no check may alarm (the edit
preserves behaviour) and -p, or ALL in the file, says which checks are run. -t also runs the tests of the repository.
"""
import importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
args = sys.argv[1:]
tests = False
only = None
keep = None
while args and args[0].startswith('-'):
    o = args.pop(0)
    if o == '-t': tests = True
    if o == '-k': keep = args.pop(0)
    if o == '-p': only = args.pop(0).split(',')
spec = importlib.util.spec_from_file_location('c', args[0]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
chk = os.environ.get('CHK', '/verif/bin/checker')
def run(case):
    name, props, edits = case
    d = tempfile.mkdtemp(prefix='corpus-', dir='/tmp')
    try:
        repo = d + '/repo'
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        for f, old, new in edits:
            p = f'{repo}/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                return f'{name}: BAD EDIT ({s.count(old)} matches of {old[:50]!r})'
            open(p, 'w').write(s.replace(old, new))
        env = dict(os.environ, VERIF_REPO=repo, VERIF_ROOT=d)
        b = subprocess.run(['go', 'vet', './...'] if False else ['go', 'build', '-mod=mod', './...'], cwd=repo, capture_output=True, text=True)
        if b.returncode:
            return f'{name}: DOES NOT BUILD {b.stderr[:300]}'
        if tests:
            t = subprocess.run(['go', 'test', '-mod=mod', './...'], cwd=repo, capture_output=True, text=True)
            if t.returncode:
                return f'{name}: TESTS FAIL {[l for l in t.stdout.splitlines() if "FAIL" in l][:4]}'
        subprocess.run(['git', 'checkout', '-q', 'go.sum', 'go.mod'], cwd=repo)
        out = []
        want = props.split()
        for p in (only or want or m.ALL):
            r = subprocess.run(["timeout", "900", chk, p], env=env, capture_output=True, text=True)
            exp = 1 if p in want else 0
            if r.returncode != exp:
                out.append(f'{p} exit {r.returncode}, expected {exp}: ' + ' // '.join(l.strip()[:260] for l in (r.stdout + r.stderr).splitlines() if l.startswith('  '))[:900])
        return f'{name}: ' + ('ok' if not out else '\n    '.join(['WRONG'] + out))
    finally:
        shutil.rmtree(d)
if keep:
    # leave the edited copy of one case in the given directory
    c = [c for c in m.CASES if c[0] == args[1]][0]
    shutil.rmtree(keep, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', keep], check=True)
    for f, old, new in c[2]:
        s = open(f'{keep}/{f}').read()
        assert s.count(old) == 1
        open(f'{keep}/{f}', 'w').write(s.replace(old, new))
    sys.exit()
cases = [c for c in m.CASES if len(args) == 1 or any(c[0].startswith(a) for a in args[1:])]
bad = 0
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(run, cases):
        if not r.endswith(': ok') or len(cases) < 12:
            print(r, flush=True)
        bad += not r.endswith(': ok')
print(f'{len(cases)} cases, {bad} wrong')
