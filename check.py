#!/usr/bin/env python3
"""Decide one property: build the harness against /repo's working tree, run the
generated-input search, write evidence/<id>.json and report.

usage: check.py <property> [quick|thorough]
       check.py setup
       check.py replay <file>
"""
import hashlib, json, os, subprocess, sys, shutil, tempfile, time, re, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import PLAN, ENGINE_SOURCES, ASSUMPTIONS, COMMON_ASSUMPTIONS  # noqa: E402

CXX = "clang++"
VARIANTS = {
    # asserts on, memory and undefined behaviour errors fatal
    "debug": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function",
              "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    # release semantics: asserts off
    "release": ["-O1", "-g1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"],
}
COMMON = ["-w", "-fPIC", "-include", os.path.join(H, "compat.hpp"), "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + H]
NEEDS_API = {"wsrep_provider_v26.cpp", "allowlist_service_v1.cpp", "config_service_v1.cpp", "connection_monitor_service_v1.cpp",
             "event_service_v1.cpp", "thread_service_v1.cpp", "tls_service_v1.cpp"}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def lib_sources():
    r = []
    for f in sorted(glob.glob(REPO + "/src/*.cpp")):
        if os.path.basename(f) in NEEDS_API:
            continue
        if re.search(rb'#\s*include\s*["<](v26/|wsrep_api\.h|wsrep/wsrep_api)', read(f)):
            continue
        r.append(f)
    return r


def headers_hash():
    fs = sorted(glob.glob(REPO + "/include/**/*.hpp", recursive=True) + glob.glob(REPO + "/include/**/*.h", recursive=True)
                + glob.glob(REPO + "/src/*.hpp") + glob.glob(H + "/*.hpp"))
    return sha(*[f + sha(read(f)) for f in fs])


def build(variant, engines):
    os.makedirs(BUILD, exist_ok=True)
    hh = headers_hash()
    srcs = [(f, "-std=c++11") for f in lib_sources()]
    hs = {"core.cpp", "stubs.cpp"}
    for e in engines:
        hs.update(ENGINE_SOURCES[e])
    srcs += [(os.path.join(H, f), "-std=c++17") for f in sorted(hs)]
    objs, jobs = [], []
    for f, std in srcs:
        flags = VARIANTS[variant] + COMMON + [std]
        key = sha(hh, f, read(f), " ".join(flags))
        o = os.path.join(BUILD, key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((os.path.getsize(f), [CXX] + flags + ["-c", f, "-o", o], o))
    jobs.sort(key=lambda j: -j[0])
    return objs, jobs


def compile_jobs(jobs):
    def one(j):
        tmp = j[2] + ".%d.tmp" % os.getpid()
        cmd = j[1][:-1] + [tmp]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode == 0:
            os.rename(tmp, j[2])
        return p.returncode, p.stdout.decode(errors="replace"), j[1][-3]
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        for rc, out, src in ex.map(one, jobs):
            if rc:
                print("build failed for %s:\n%s" % (src, out[-3000:]))
                sys.exit(2)


def binaries(pairs):
    """pairs: set of (variant, frozenset(engines))"""
    all_jobs, todo = {}, []
    res = {}
    for variant, engines in pairs:
        objs, jobs = build(variant, sorted(engines))
        for j in jobs:
            all_jobs[j[2]] = j
        todo.append((variant, engines, objs))
    compile_jobs(sorted(all_jobs.values(), key=lambda j: -j[0]))

    def link(t):
        variant, engines, objs = t
        b = os.path.join(BUILD, "vf-%s-%s" % (variant, sha(*objs)))
        if not os.path.exists(b):
            tmp = b + ".%d.%d.tmp" % (os.getpid(), id(t))
            san = [x for x in VARIANTS[variant] if x.startswith("-fsanitize") or x.startswith("-fno-sanitize")]
            p = subprocess.run([CXX] + san + objs + ["-o", tmp, "-lpthread", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                print("link failed:\n" + p.stdout.decode(errors="replace")[-3000:])
                sys.exit(2)
            os.rename(tmp, b)
        return (variant, engines), b
    with ThreadPoolExecutor(max_workers=4) as ex:
        for k, b in ex.map(link, todo):
            res[k] = b
    return res


def prune():
    """keep the object cache bounded"""
    try:
        fs = [(os.path.getmtime(f), f) for f in glob.glob(BUILD + "/*")]
        fs.sort(reverse=True)
        for _, f in fs[1500:]:
            os.unlink(f)
    except OSError:
        pass


def run_check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    plan = PLAN[prop]
    pairs = {(v, frozenset([e])) for (e, v, q, t) in plan}
    bins = binaries(pairs)
    tb = time.time()
    scratch = tempfile.mkdtemp(prefix="vf_scratch_")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    env = dict(os.environ, VF_SCRATCH=scratch)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    results, violation, broken = [], None, None
    jobs = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))
    try:
        for (e, v, q, t) in plan:
            cases = int((t if tier == "thorough" else q) * scale)
            if cases <= 0:
                continue
            out = os.path.join(scratch, "out.json")
            rep = os.path.join(rdir, "%s-%s-%s.json" % (prop, e, v))
            cap = 1500 if tier == "thorough" else 150
            cmd = [bins[(v, frozenset([e]))], "run", "--engine", e, "--prop", prop, "--seed", str(seed), "--cases", str(cases),
                   "--time", str(cap), "--jobs", str(jobs), "--out", out, "--replay-out", rep,
                   "--shrink-time", "60" if tier == "thorough" else "25"]
            if tier == "thorough":
                cmd.append("--thorough")
            if os.path.exists(out):
                os.unlink(out)
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if not os.path.exists(out):
                broken = "engine %s/%s gave no result: %s" % (e, v, p.stderr.decode(errors="replace")[-500:])
                break
            r = json.loads(read(out).decode(errors="replace"))
            r["variant"] = v
            results.append(r)
            if r["rc"] == 1:
                # name the build variant in the replay file
                d = json.loads(read(rep).decode())
                d["variant"] = v
                with open(rep, "w") as f:
                    f.write(json.dumps(d) + "\n")
                violation = (rep, r["message"])
                break
            if r["rc"] != 0:
                broken = "engine %s/%s: unstable failure: %s" % (e, v, r["message"])
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    samples = []
    for r in results:
        for s in r["samples"]:
            samples.append("[%s/%s] %s" % (r["engine"], r["variant"], s))
    labels = {}
    for r in results:
        for k, n in r["labels"].items():
            labels[r["engine"] + ": " + k] = labels.get(r["engine"] + ": " + k, 0) + n
    foreign = {}
    for r in results:
        for k, n in r["foreign_msgs"].items():
            foreign[k] = foreign.get(k, 0) + n
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
            "rule": "; ".join(sorted({r["engine"] + ": " + r["rule"] for r in results})),
            "samples": samples[:6],
            "classes": labels,
            "runs": [{k: r[k] for k in ("engine", "variant", "requested", "evaluations", "nontrivial", "distinct_nontrivial", "foreign", "steps", "explore_s")} for r in results],
            "scheduler_steps": sum(r["steps"] for r in results),
        },
        "assumptions": COMMON_ASSUMPTIONS + ASSUMPTIONS.get(prop, []),
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(tb - t0, 2),
        "violations": [] if not violation else [{"replay": os.path.relpath(violation[0], VERIF), "message": violation[1]}],
    }
    if foreign:
        ev["coverage"]["observations_of_other_properties"] = foreign
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    prune()
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)" % (
        prop, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"], ev["build_s"]))
    if foreign:
        print("  %d cases ended at observations of other properties: %s" % (sum(foreign.values()), list(foreign.items())[:3]))
    if violation:
        print("  " + violation[1])
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(violation[0], VERIF)))
        return 1
    if broken:
        print("ERROR: " + broken)
        return 3
    return 0


def run_replay(path):
    d = json.loads(read(path).decode())
    v, e = d.get("variant", "debug"), d["engine"]
    b = binaries({(v, frozenset([e]))})[(v, frozenset([e]))]
    scratch = tempfile.mkdtemp(prefix="vf_scratch_")
    try:
        return subprocess.run([b, "replay", "--engine", e, "--prop", d["property"], "--file", path], env=dict(os.environ, VF_SCRATCH=scratch)).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        return run_replay(sys.argv[2])
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        # build everything once, so that the checks only rebuild what changed
        binaries({(v, frozenset([e])) for pl in PLAN.values() for (e, v, q, t) in pl})
        print("built")
        return 0
    if len(sys.argv) >= 2 and sys.argv[1] == "bin":
        # developer helper: print binary path for variant, engines...
        print(list(binaries({(sys.argv[2], frozenset(sys.argv[3:]))}).values())[0])
        return 0
    if len(sys.argv) < 2 or sys.argv[1] not in PLAN:
        print(__doc__)
        return 2
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return run_check(sys.argv[1], tier)


if __name__ == "__main__":
    sys.exit(main())
