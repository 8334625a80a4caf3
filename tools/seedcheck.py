#!/usr/bin/env python3
"""seedcheck.py [ids...] [--all-checks]: for every planted bug: demo on the unchanged tree, then with the patch: stable tests,
demo, own check. Works on /repo itself and undoes the patch."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(os.listdir(SEED))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def tests():
    out = "/tmp/seedcheck_tests.json"
    sh("bash /opt/vp/build.sh; bash /opt/vp/test.sh " + out, cwd="/repo")
    r = json.load(open(out))
    base = json.load(open("/opt/vp/BASELINE.json"))
    def passed(x):
        for k in ("passed", "stable", "pass"):
            if k in x:
                return set(x[k])
        return {t for t, v in x.items() if v in ("passed", "pass", True)}
    return sorted(passed(base) - passed(r))


for i in ids:
    d = os.path.join(SEED, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    r0 = sh("sh %s/demo.sh" % d, cwd="/repo").returncode
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode:
        print(i, prop, "PATCH DOES NOT APPLY", a.stderr)
        continue
    try:
        missing = tests()
        r1 = sh("sh %s/demo.sh" % d, cwd="/repo")
        res = {}
        props = [prop]
        if "--all-checks" in sys.argv:
            props = sorted(json.loads(l)["id"] for l in open(HERE + "/properties.jsonl"))
        for p in props:
            c = sh("python3 check.py " + p, cwd=HERE)
            res[p] = (c.returncode, c.stdout)
    finally:
        sh("git -C /repo checkout -- .")
    ok = r0 == 0 and r1.returncode != 0 and not missing
    c, o = res[prop]
    caught = c == 1 and "VIOLATION property=%s" % prop in o
    print("%-34s %s %s %s%s" % (i, prop, "valid" if ok else "INVALID(demo %d/%d, tests %s)" % (r0, r1.returncode, missing[:3]),
                             "caught" if caught else "MISSED(%d)" % c,
                             " by " + " ".join(p for p in res if res[p][0] == 1) if len(res) > 1 else ""), flush=True)
    if r0:
        print(sh("sh %s/demo.sh" % d, cwd="/repo").stderr[-500:])
    if "-v" in sys.argv or "--verbose" in sys.argv:
        print(r1.stderr[-300:], o[:600])
