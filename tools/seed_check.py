#!/usr/bin/env python3
"""seed_check.py [ID[:CHECK,CHECK] ...]: runs the checks (by default the one of the bug's own property) against a copy of /repo with the bug."""
import json, os, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
def one(k):
    k, _, cs = k.partition(":")
    cs = cs.split(",") if cs else [json.load(open(V + "/seeded/%s/meta.json" % k))["property"]]
    t = "/tmp/sd/c-" + k; out = []
    subprocess.run("rm -rf %s; mkdir -p /tmp/sd; cp -a /repo %s; cd %s && git apply %s/seeded/%s/patch.diff" % (t, t, t, V, k), shell=True, check=True)
    for c in cs:
        v = "/tmp/sd/v-%s-%s" % (k, c)
        subprocess.run("rm -rf %s; mkdir %s; cd %s && cp -a checks lib known run.py known_findings.json properties.jsonl MANIFEST.json %s/; mkdir -p %s/build" % (v, v, V, v, v), shell=True)
        p = subprocess.run(["python3", "run.py", c], cwd=v, env=dict(os.environ, VERIF_REPO=t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        m = [l for l in p.stdout.splitlines() if l.startswith("message") or "case " in l]
        out.append("%s %s rc=%d %s" % (k, c, p.returncode, "caught: " + (m[0] if m else "")[:160] if p.returncode == 1 and "VIOLATION property=%s " % c in p.stdout else "MISSED " + p.stdout[-300:]))
        subprocess.run(["rm", "-rf", v])
    subprocess.run(["rm", "-rf", t])
    return out
for k in ids:
    for l in one(k): print(l, flush=True)
