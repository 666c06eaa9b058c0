#!/usr/bin/env python3
"""seed.py SPEC.py...: makes /verif/seeded/<id> from a spec, verifies it in a scratch copy and runs the property's check
against it (development aid). A spec defines id, prop, edits=[(file, old, new)], pkg, demo (Go test source with a function
TestSeedDemo), needs, breaks, and optionally extra={beside-name: (repo path, source)}, race, checks."""
import json, os, re, shutil, subprocess, sys, tempfile
ENV = dict(os.environ)
BASE = json.load(open('/opt/vp/BASELINE.json'))
DEMO = '''#!/bin/bash
# Exits 0 if the property holds in the demonstrated situation, 1 if not. Run with cwd /repo.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x $d/go ] && PATH=$d:$PATH && break; done
export PATH HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off
cp "$repo/go.mod" "$tmp/demo.mod" && cp "$repo/go.sum" "$tmp/demo.sum" || exit 2
cat > "$tmp/overlay.json" <<END
{"Replace": {@REPL@}}
END
go test -mod=mod -modfile="$tmp/demo.mod" -overlay "$tmp/overlay.json" -vet=off @RACE@-count=1 -timeout 120s -run '^TestSeedDemo$' ./@PKG@
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, executable='/bin/bash', **k)
def demo(dst, d, n=1):
    rs = []
    for _ in range(n):
        r = sh('bash %s/demo.sh' % dst, cwd=d); rs.append(r.returncode)
    return rs, r.stdout
def passed(d):
    r = sh('''. /opt/vp/env.sh >/dev/null; cd %s && export GOFLAGS="-mod=mod -modfile=/tmp/seedmod.mod"; cp go.mod /tmp/seedmod.mod; cp go.sum /tmp/seedmod.sum
    go build ./... || exit 9; go test -json -vet=off -count=1 -p 1 -timeout 10m ./... > /tmp/seed-test.json; python3 /opt/vp/results.py /tmp/seed-res.json gojson:/tmp/seed-test.json''' % d)
    if r.returncode == 9: return None, r.stdout
    return json.load(open('/tmp/seed-res.json')), r.stdout
def main(f):
    s = {}
    exec(open(f).read(), s)
    dst = '/verif/seeded/' + s['id']
    shutil.rmtree(dst, ignore_errors=True); os.makedirs(dst)
    d = tempfile.mkdtemp(prefix='seed-')
    try:
        sh('cp -a /repo/. %s' % d)
        names = {'demo_test.go': (s['pkg'] + '/zz_seed_demo_test.go', s['demo'])}
        names.update(s.get('extra', {}))
        repl = []
        for n, (p, src) in names.items():
            open(dst + '/' + n, 'w').write(src.lstrip('\n')); repl.append('"$repo/%s": "$here/%s"' % (p, n))
        open(dst + '/demo.sh', 'w').write(DEMO.replace('@REPL@', ', '.join(repl)).replace('@PKG@', s['pkg']).replace('@RACE@', '-race ' if s.get('race') else ''))
        os.chmod(dst + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(dst + '/meta.json', 'w'), indent=1)
        rs, out = demo(dst, d, 3)
        if any(rs): print(s['id'], 'DEMO FAILS ON CLEAN', rs, out[-1500:]); return
        for fn, old, new in s['edits']:
            t = open(d + '/' + fn).read()
            assert t.count(old) == 1, (fn, t.count(old), old)
            open(d + '/' + fn, 'w').write(t.replace(old, new))
        r = sh('git diff', cwd=d); open(dst + '/patch.diff', 'w').write(r.stdout)
        res, out = passed(d)
        if res is None: print(s['id'], 'BUILD FAILS', out[-800:]); return
        stable = BASE.get('stable', BASE.get('passed', []))
        got = set(res.get('passed', []))
        miss = [t for t in stable if t not in got]
        if miss: print(s['id'], 'EXISTING TESTS FAIL', miss[:5]); return
        rs, out = demo(dst, d, 3)
        if not all(rs): print(s['id'], 'DEMO PASSES WITH PATCH', rs); return
        msg = re.findall(r'demo_test.go:\d+: (.*)', out)
        print(s['id'], 'ok; demo:', (msg or [out[-300:]])[0][:200], flush=True)
        if os.environ.get('NOCHECK'): return
        for p in s.get('checks', [s['prop']]):
            r = sh('/verif/check %s --tier quick' % p, env=dict(ENV, VERIF_REPO=d))
            l = [x for x in r.stdout.splitlines() if x.startswith('unit ')] or r.stdout.splitlines()[-1:]
            print('   ', p, 'exit', r.returncode, (l or [''])[0][:220], flush=True)
    finally:
        shutil.rmtree(d)
for f in sys.argv[1:]: main(f)
