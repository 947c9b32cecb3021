#!/usr/bin/env python3
"""Development aid: tally every oracle message over a range of cases, whatever property it belongs to."""
import subprocess, sys, re, collections
from concurrent.futures import ThreadPoolExecutor
b, engine, prop, lo, hi = sys.argv[1:6]
seed = sys.argv[6] if len(sys.argv) > 6 else "1"
def one(k):
    try:
        p = subprocess.run([b, "case", "--engine", engine, "--prop", prop, "--case", str(k), "--seed", seed], capture_output=True, text=True, timeout=120, errors="replace")
    except subprocess.TimeoutExpired:
        return k, "TIMEOUT"
    l = p.stdout.strip().split("\n")[-1]
    return k, l
c = collections.defaultdict(list)
with ThreadPoolExecutor(8) as ex:
    for k, l in ex.map(one, range(int(lo), int(hi))):
        n = re.sub(r"n\d+\.\d+(\.\w+)*", "N", l)
        n = re.sub(r"\d+", "#", re.sub(r"\[[C\d ]+\]", lambda m: m.group(0).replace("C", "c~"), n))[:230]
        c[n].append(k)
for n, ks in sorted(c.items(), key=lambda x: -len(x[1])):
    print(len(ks), n, ks[:6])
