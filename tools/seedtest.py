#!/usr/bin/env python3
"""tools/seedtest.py ID...: plant /verif/seeded/<ID>/patch.diff in /repo, rebuild, run the stable tests, the demo and the
property's quick check, undo it, run the demo again. Prints one line per bug. Development only: no check uses it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
def undo(): sh("git -C /repo checkout -- .")
def one(i):
    d = f"{V}/seeded/{i}"; meta = json.load(open(d + "/meta.json")); prop = meta["property"]
    # changed lines must be original ones
    first = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    cur = None; orig = 0; added = 0
    a = sh(f"git -C /repo apply --check {d}/patch.diff")
    if a.returncode: return f"{i}: does not apply: {a.stdout}"
    import re
    ln = 0; notes = []
    for l in open(d + "/patch.diff"):
        if l.startswith("--- a/"): cur = l[6:].strip()
        elif l.startswith("@@"): ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            b = sh(f"git -C /repo blame -l -s -L{ln},{ln} {cur}").stdout
            if b.lstrip("^").startswith(first[:30]): orig += 1
            else: added += 1
            ln += 1
        elif l.startswith(" "): ln += 1
    notes.append(f"orig-lines={orig} mine={added}")
    try:
        sh(f"git -C /repo apply {d}/patch.diff")
        t = sh(f"bash /opt/vp/test.sh /tmp/seedwork/{i}.json")
        try: r = json.load(open(f"/tmp/seedwork/{i}.json"))
        except Exception: return f"{i}: build failed {t.stdout[-400:]}"
        miss = base - set(r["passed"]) if base else set(r["failed"])
        notes.append(f"tests {'ok' if not miss else 'FAIL ' + ','.join(sorted(miss)[:5])} ({len(r['passed'])})")
        if miss: return f"{i} [{prop}]: " + "; ".join(notes)
        dm = sh(f"timeout 300 bash {d}/demo.sh", cwd="/repo"); notes.append(f"demo-with={dm.returncode}")
        if "-n" not in sys.argv:
            t0 = time.time(); c = sh(f"timeout 900 {V}/bin/check {prop} quick", cwd=V)
            notes.append(f"check={c.returncode} {'CAUGHT' if c.returncode == 1 and 'VIOLATION property=' + prop in c.stdout else '**MISSED**'} {time.time()-t0:.0f}s")
            open(f"/tmp/seedwork/{i}.check", "w").write(c.stdout)
    finally:
        undo()
    sh("bash /opt/vp/build.sh")
    dm = sh(f"timeout 300 bash {d}/demo.sh", cwd="/repo"); notes.append(f"demo-without={dm.returncode}")
    if dm.returncode: notes.append(dm.stdout[-300:])
    return f"{i} [{prop}]: " + "; ".join(notes)
for i in [a for a in sys.argv[1:] if not a.startswith("-")]:
    print(one(i), flush=True)
