"""mk(id, property, needs, breaks, edits, demo): writes /verif/seeded/<id> (development aid, not used by the checks)
edits: [(file, old, new[, count])]; every old text must be unique in its file"""
import json, os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = "#define BOOST_TEST_MODULE demo\n#include \"kit.hpp\"\n"
def mk(sid, prop, needs, breaks, edits, demo):
    d = V + "/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    t = "/tmp/mkseed"; shutil.rmtree(t, ignore_errors=True)
    out = ""
    byfile = {}
    for f, old, new in edits:
        s = byfile.get(f) or open("/repo/" + f).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        byfile[f] = s.replace(old, new)
    for f, s in byfile.items():
        os.makedirs(os.path.dirname(t + "/b/" + f), exist_ok=True)
        open(t + "/b/" + f, "w").write(s)
        p = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, t + "/b/" + f], stdout=subprocess.PIPE)
        out += "diff --git a/%s b/%s\n" % (f, f) + p.stdout.decode()
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.cpp", "w").write(PRE + demo)
    shutil.copy(V + "/tools/seedkit/kit.hpp", d); shutil.copy(V + "/tools/seedkit/demo.sh", d)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
