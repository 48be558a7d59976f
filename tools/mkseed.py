#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE: reads from stdin 'old ==== new' replacement blocks; writes seeded/ID/{patch.diff,meta.json,demo.sh}.
stdin format:
needs: ...
breaks: ...
profile: (optional extra [profile.dev] lines separated by ;)
@@ path
<<<<
old
====
new
>>>>
@@ demo
rust source
"""
import json, os, subprocess, sys, re, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop = sys.argv[1:3]
t = sys.stdin.read()
needs = re.search(r"^needs: (.*)$", t, re.M).group(1)
brk = re.search(r"^breaks: (.*)$", t, re.M).group(1)
pm = re.search(r"^profile: (.*)$", t, re.M)
head, *parts = re.split(r"^@@ (.*)\n", t, flags=re.M)
d = os.path.join(V, "seeded", sid)
os.makedirs(d, exist_ok=True)
W = tempfile.mkdtemp(prefix="mkseed")
subprocess.run(["git", "clone", "-q", "/repo", W + "/r"], check=True)
for name, body in zip(parts[::2], parts[1::2]):
    name = name.strip()
    if name == "demo":
        open(os.path.join(d, "demo.rs"), "w").write(body)
        continue
    p = os.path.join(W, "r", name)
    s = open(p).read()
    for m in re.finditer(r"<<<<\n(.*?)\n?====\n(.*?)\n?>>>>", body, re.S):
        if s.count(m.group(1)) != 1:
            sys.exit(f"{sid}: {name}: old text found {s.count(m.group(1))} times: {m.group(1)[:80]!r}")
        s = s.replace(m.group(1), m.group(2))
    open(p, "w").write(s)
r = subprocess.run(["git", "-C", W + "/r", "diff"], capture_output=True, text=True)
open(os.path.join(d, "patch.diff"), "w").write(r.stdout)
json.dump({"property": prop, "needs": needs, "what_it_breaks": brk}, open(os.path.join(d, "meta.json"), "w"), indent=1)
tm = open(os.path.join(V, "tools/demo.sh.tmpl")).read()
open(os.path.join(d, "demo.sh"), "w").write(tm.replace("@PROFILE@", pm.group(1).replace(";", "\n") if pm else ""))
shutil.rmtree(W)
print(sid, "written", len(r.stdout))
