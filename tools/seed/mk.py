#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the specs in specs*.py."""
import glob, json, os, subprocess, sys, shutil
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(os.path.dirname(here))
S = []
def seed(id, prop, edits, needs, breaks, main, use_util=True):
    S.append((id, prop, edits, needs, breaks, main, use_util))
for f in sorted(glob.glob(here + "/specs*.py")):
    exec(open(f).read())
want = sys.argv[1:]
for id, prop, edits, needs, breaks, main, use_util in S:
    if want and id not in want:
        continue
    d = f"{root}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    for f, a, b in edits:
        p = "/repo/" + f
        s = open(p).read()
        if s.count(a) != 1:
            print(id, "pattern occurs", s.count(a), "times in", f, repr(a[:60]))
            continue
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.check_output(["git", "-C", "/repo", "diff"]).decode()
    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    shutil.copy(here + "/demo.sh", d + "/demo.sh")
    m = main
    if use_util:
        shutil.copy(here + "/util.rs", d + "/util.rs")
        m = "mod util;\nuse util::*;\n#[allow(unused_imports)]\nuse std::fs;\n" + m
    open(d + "/main.rs", "w").write(m.lstrip())
