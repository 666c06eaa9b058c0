#!/usr/bin/env python3
"""mut.py: apply textual mutations to a scratch copy of /repo and run checks on it (development aid).
stdin: blocks 'FILE | PROPS' / '<<<' old / '===' new / '>>>' """
import os, re, shutil, subprocess, sys, tempfile
txt = sys.stdin.read()
for m in re.finditer(r'^(\S+) \| ([^\n]+)\n<<<\n(.*?)\n===\n(.*?)\n?>>>$', txt, re.S | re.M):
    f, props, old, new = m.groups()
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        subprocess.check_call(["rsync", "-a", "--exclude", ".git", "/repo/", d + "/"]) if shutil.which("rsync") else subprocess.check_call("cp -a /repo/. %s && rm -rf %s/.git" % (d, d), shell=True)
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) < 1:
            print("!! pattern not found in", f, repr(old[:60])); continue
        open(p, "w").write(s.replace(old, new, 1))
        for pr in props.split():
            r = subprocess.run(["/verif/check", pr, "--tier", os.environ.get("TIER", "quick")], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            lines = [l for l in r.stdout.splitlines() if l and not l.startswith("  ")]
            first = next((l for l in lines if l.startswith("unit ")), lines[-1] if lines else "")
            print("%-6s exit %d  [%s] %r -> %r :: %s" % (pr, r.returncode, f, old.strip()[:40], new.strip()[:40], first[:230]), flush=True)
    finally:
        shutil.rmtree(d)
