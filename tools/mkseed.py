#!/usr/bin/env python3
"""mkseed.py ID PROPERTY PKG 'go test args' NEEDS BREAKS < edits on stdin
stdin: JSON {"edits": [[file, old, new], ...], "demo": "go test source", "tests": ["pkg", ...]}
Plants the change in a scratch copy, confirms demo and existing tests, and writes /verif/seeded/ID."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ident, prop, pkg, args, needs, breaks = sys.argv[1:7]
spec = json.load(sys.stdin)
S = '/tmp/seedscratch'
def sh(c, cwd=None, env=None):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, env=env)
shutil.rmtree(S, ignore_errors=True)
sh('git -C /repo worktree prune')
r = sh('git clone -q /repo ' + S)
assert r.returncode == 0, r.stderr
out = os.path.join(V, 'seeded', ident)
os.makedirs(out, exist_ok=True)
tpl = open(V + '/tools/demo_template.sh').read().replace('@PKG@', pkg).replace('@ARGS@', args)
open(out + '/demo.sh', 'w').write(tpl)
os.chmod(out + '/demo.sh', 0o755)
open(out + '/demo_test.go', 'w').write(spec['demo'])
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + '/meta.json', 'w'), indent=1)
a = sh(out + '/demo.sh', cwd=S)
for f, o, n in spec['edits']:
    p = os.path.join(S, f)
    t = open(p).read()
    assert t.count(o) == 1, (f, o, t.count(o))
    open(p, 'w').write(t.replace(o, n))
d = sh('git diff', cwd=S).stdout
open(out + '/patch.diff', 'w').write(d)
b = sh(out + '/demo.sh', cwd=S)
print('demo unchanged rc', a.returncode, 'patched rc', b.returncode)
if a.returncode != 0: print(a.stdout[-1500:], a.stderr[-1500:])
if b.returncode == 0: print('PATCHED DEMO PASSES')
else: print(b.stdout[-600:])
if 'build failed' in b.stdout: print('BUILD FAILED', b.stdout[-800:], b.stderr[-800:])
# existing tests of the touched packages
W = '/tmp/seedov'
os.makedirs(W, exist_ok=True)
import re
rep = {}
for root, dirs, files in os.walk(S):
    dirs[:] = [x for x in dirs if x != '.git']
    if 'go.mod' in files:
        src = os.path.join(root, 'go.mod'); t = open(src).read()
        n = re.sub(r"(?m)^\s*(?:require\s+)?gitlab\.mpi-sws\.org/cld/tracing/tracing-framework-go\s.*\n", "", t)
        if n != t:
            dst = os.path.join(W, os.path.relpath(src, S).replace('/', '_')); open(dst, 'w').write(n); rep[src] = dst
json.dump({"Replace": rep}, open(W + '/o.json', 'w'))
env = dict(os.environ, GOFLAGS='-overlay=' + W + '/o.json', GOPROXY='off', GOTOOLCHAIN='local'); env.pop('GOWORK', None)
for p in spec.get('tests', [pkg]):
    t = sh('go test -vet=off -count=1 ./' + p, cwd=S, env=env)
    print('tests', p, 'rc', t.returncode, '' if t.returncode == 0 else t.stdout[-800:] + t.stderr[-400:])
shutil.rmtree(S, ignore_errors=True)
