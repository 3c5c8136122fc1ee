#!/usr/bin/env python3
"""Runs the checks on scratch copies of the repository with a planted bug (or
a refactoring) applied, and prints which report it.
usage: runbugs.py [-a] [-d DIR] [ID...]   -a: all checks, not only the bug's own"""
import json, os, subprocess, shutil, sys
from concurrent.futures import ThreadPoolExecutor
args = sys.argv[1:]
allc = '-a' in args
args = [a for a in args if a != '-a']
base = '/verif/seeded'
if '-d' in args:
    i = args.index('-d')
    base = args[i+1]
    del args[i:i+2]
ids = args or sorted(os.listdir(base))
BIN = '/verif/bin/checker'
subprocess.check_call(['/verif/check.sh', '--build'])
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', CGO_ENABLED='0',
           GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build', GOSUMDB='off')
def one(i):
    d = '/tmp/runbugs-' + i
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/repo'])
    os.makedirs(d + '/out')
    for f in ('known-findings.txt',):
        if os.path.exists('/verif/' + f):
            shutil.copy('/verif/' + f, d + '/out/')
    r = subprocess.run(['git', '-C', d + '/repo', 'apply', os.path.join(base, i, 'patch.diff')])
    if r.returncode:
        return i, 'PATCH FAILS', ''
    prop = None
    m = os.path.join(base, i, 'meta.json')
    if os.path.exists(m):
        prop = json.load(open(m)).get('property')
    what = ['all'] if allc or not prop else [prop]
    e = dict(ENV, VERIF_REPO=d + '/repo', VERIF_DIR=d + '/out')
    try:
        r = subprocess.run([BIN, 'check'] + what, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
        o = r.stdout
    except subprocess.TimeoutExpired:
        o = 'TIMEOUT'
    shutil.rmtree(d, ignore_errors=True)
    hit = [l.split('property=')[1].split()[0] for l in o.splitlines() if l.startswith('VIOLATION')]
    return i, (prop or '-') + (' CAUGHT' if prop in hit else ' missed' if prop else ''), hit, o
with ThreadPoolExecutor(3 if allc else 6) as ex:
    for x in ex.map(one, ids):
        print(x[0], x[1], x[2], flush=True)
        if len(x) > 3:
            open('/tmp/runbugs.%s.log' % x[0], 'w').write(x[3])
