#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the planted bugs in bugs.py, and confirms
each in scratch copies: it must build, pass the stable tests, and its
demonstration must pass without it and fail with it.
usage: mkseed.py [ID...]"""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS

STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', CGO_ENABLED='0',
           GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build', GOSUMDB='off')

DEMO = '''#!/bin/bash
# Runs demo_test.go as a test of package %(pkg)s of the repository in the
# current directory.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off
o=$(mktemp /tmp/demo-overlay.XXXXXX)
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" > "$o"
go test -vet=off -count=1 -overlay "$o" -run '^TestDemo' ./%(pkg)s
s=$?
rm -f "$o"
exit $s
'''

def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def stable_pass(d):
    r = run(['go', 'test', '-json', '-vet=off', '-count=1', './...'], d)
    ok = set()
    for l in r.stdout.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get('Action') == 'pass' and e.get('Test'):
            ok.add(e['Package'] + '/' + e['Test'])
    return [t for t in STABLE if t not in ok]

def main():
    want = sys.argv[1:]
    bad = 0
    scratch = '/tmp/mkseed'
    for b in BUGS:
        if want and b['id'] not in want:
            continue
        out = os.path.join('/verif/seeded', b['id'])
        shutil.rmtree(scratch, ignore_errors=True)
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
        subprocess.check_call(['git', 'clone', '-q', '/repo', scratch])
        os.makedirs(out, exist_ok=True)
        pkg = b['pkg']
        with open(os.path.join(out, 'demo.sh'), 'w') as f:
            f.write(DEMO % {'pkg': pkg})
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        with open(os.path.join(out, 'demo_test.go'), 'w') as f:
            f.write(b['test'].lstrip('\n'))
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        msg = []
        r = run(['bash', os.path.join(out, 'demo.sh')], scratch)
        if r.returncode != 0:
            msg.append('demo fails without the bug:\n' + r.stdout[-1500:])
        for path, old, new in b['edits']:
            p = os.path.join(scratch, path)
            s = open(p).read()
            if s.count(old) != 1:
                msg.append('%s: %d places for %r' % (path, s.count(old), old))
                continue
            open(p, 'w').write(s.replace(old, new))
        r = run(['gofmt', '-l', 'signify/key.go', 'signify/common.go', 'signify/signature.go', 'crypto', 'base64', 'cmd'], scratch)
        if r.stdout.strip():
            msg.append('not formatted: ' + r.stdout)
        run(['git', 'checkout', '--', 'go.mod', 'go.sum'], scratch)
        d = subprocess.check_output(['git', '-C', scratch, 'diff'], text=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(d)
        r = run(['go', 'build', '-o', '/dev/null', './...'], scratch)
        if r.returncode != 0:
            msg.append('does not build:\n' + r.stdout)
        else:
            m = stable_pass(scratch)
            if m:
                msg.append('stable tests fail: ' + ' '.join(m))
            r = run(['bash', os.path.join(out, 'demo.sh')], scratch)
            if r.returncode == 0:
                msg.append('demo passes with the bug')
        print(b['id'], b['prop'], 'ok' if not msg else 'BAD ' + '\n   '.join(msg), flush=True)
        bad += bool(msg)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(bad > 0)

main()
