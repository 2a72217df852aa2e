#!/usr/bin/env python3
"""Writes and confirms planted bugs in a scratch copy of /repo.

A bug is described in a python file holding a list BUGS of dicts: id, property, needs, breaks, edits
[(file, old, new)], demo (Go test source). Only the named ids are processed when given.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

DEMO = '''#!/bin/bash
# Exits 0 if the tree in the current directory shows the right behaviour.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
go test -overlay <(printf '{"Replace":{"%s/%szz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "DIR" "$here") \\
	-run '^TestZZDemo$' -count=1 ./DIR
'''

def run(cmd, cwd, env=None):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; export GOFLAGS=-mod=mod; ' + cmd], cwd=cwd,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = set(sys.argv[2:])
    tmp = tempfile.mkdtemp(prefix='seed')
    ok = True
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
        for b in bugs:
            if only and b['id'] not in only:
                continue
            d = os.path.join('/verif/seeded', b['id'])
            os.makedirs(d, exist_ok=True)
            subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--', '.'])
            open(os.path.join(d, 'demo_test.go.txt'), 'w').write(b['demo'])
            sub = b.get('dir', '')
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO.replace('DIR', sub))
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            demo = os.path.join(d, 'demo.sh')
            r0 = run(demo, repo)
            bad = ''
            for f, old, new in b['edits']:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    bad = '%s: %d matches' % (f, s.count(old))
                    break
                open(p, 'w').write(s.replace(old, new))
            if bad:
                print(b['id'], 'EDIT', bad); ok = False; continue
            subprocess.call(['bash', '-c', '. /opt/vp/env.sh; gofmt -l ' + ' '.join(e[0] for e in b['edits'])], cwd=repo)
            diff = subprocess.check_output(['git', '-C', repo, 'diff', '--', *sorted({e[0] for e in b['edits']})], text=True)
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            t = run('go build ./... && go test -count=1 ./...', repo)
            r1 = run(demo, repo)
            good = r0.returncode == 0 and t.returncode == 0 and r1.returncode not in (0, 2)
            built = 'build failed' not in r1.stdout and 'setup failed' not in r1.stdout
            print(b['id'], 'ok' if good and built else 'BAD', 'clean', r0.returncode, 'tests', t.returncode, 'bug', r1.returncode)
            if not (good and built):
                ok = False
                print(r0.stdout[-800:], t.stdout[-800:], r1.stdout[-800:])
    finally:
        shutil.rmtree(tmp)
    sys.exit(0 if ok else 1)

main()
