#!/usr/bin/env python3
"""refac.py: apply multi-edit changes to a scratch copy of /repo and run checks on it (development aid).
stdin: blocks '@@ NAME | FILE | PROPS' followed by one or more '<<<' old '===' new '>>>' edits.
EXPECT (env, default 0) is the exit code every check should give; prints those which differ."""
import os, re, shutil, subprocess, sys, tempfile
want = int(os.environ.get("EXPECT", "0"))
for blk in re.split(r'^@@ ', sys.stdin.read(), flags=re.M)[1:]:
    head, body = blk.split("\n", 1)
    name, f, props = [x.strip() for x in head.split("|")]
    d = tempfile.mkdtemp(prefix="refac-")
    try:
        subprocess.check_call("cp -a /repo/. %s && rm -rf %s/.git" % (d, d), shell=True)
        p = os.path.join(d, f)
        s = open(p).read(); ok = True
        for m in re.finditer(r'^<<<\n(.*?)\n===\n(.*?)\n?^>>>$', body, re.S | re.M):
            if s.count(m[1]) < 1:
                print("!! pattern not found:", name, repr(m[1][:70])); ok = False; break
            s = s.replace(m[1], m[2], 1)
        if not ok: continue
        open(p, "w").write(s)
        b = subprocess.run(["/opt/veriftools/go1.27.3/bin/go", "build", "./..."], cwd=d, env=dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode:
            print("!! does not build:", name, b.stdout[:300]); continue
        for pr in props.split():
            r = subprocess.run(["/verif/check", pr, "--tier", os.environ.get("TIER", "quick")], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            first = ""
            if r.returncode != want:
                ls = [l for l in r.stdout.splitlines() if l.strip()]
                first = next((l for l in ls if l.startswith("unit ")), ls[-1] if ls else "")
                open("/tmp/refac.%s.%s.log" % (name, pr), "w").write(r.stdout)
            print("%s %-28s %-4s exit %d %s" % ("ok " if r.returncode == want else "BAD", name, pr, r.returncode, first[:200]), flush=True)
    finally:
        shutil.rmtree(d)
