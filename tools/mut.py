#!/usr/bin/env python3
"""Development aid: apply small source changes to a scratch copy, one at a time, and see which properties' engines notice.
usage: mut.py <file with list MUT of (name, file, old, new)> <engine> <variant> <cases> <prop>..."""
import os, re, subprocess, sys, json, shutil, runpy
mf, engine, variant, cases, props = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4], sys.argv[5:]
base = os.environ.get("MUT_BASE", "/repo")
work = "/tmp/mutrepo"
shutil.rmtree(work, ignore_errors=True)
subprocess.check_call(["cp", "-a", base, work])
env = dict(os.environ, VERIF_REPO=work)
for name, f, old, new in runpy.run_path(mf)["MUT"]:
    p = os.path.join(work, f)
    orig = open(p).read()
    if orig.count(old) != 1:
        print(name, "PATTERN", orig.count(old)); continue
    open(p, "w").write(orig.replace(old, new))
    try:
        b = subprocess.run(["python3", "/verif/check.py", "bin", variant] + engine.split("+"), env=env, capture_output=True, text=True)
        if b.returncode: print(name, "BUILD", [l for l in (b.stdout + b.stderr).splitlines() if "error" in l][:2]); continue
        out = []
        for pr in props:
            for e in engine.split("+"):
                subprocess.run([b.stdout.strip().splitlines()[-1], "run", "--engine", e, "--prop", pr, "--seed", "1", "--cases", cases, "--time", "120", "--jobs", "8", "--out", "/tmp/mo.json", "--replay-out", "/tmp/mr.json", "--shrink-time", "1"], capture_output=True)
                d = json.load(open("/tmp/mo.json"))
                out.append(f"{pr}:{'KILL ' + d['message'][:70] if d['rc'] else 'miss'}")
        print(name, "|", " | ".join(out), flush=True)
    finally:
        open(p, "w").write(orig)
shutil.rmtree(work, ignore_errors=True)
