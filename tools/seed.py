#!/usr/bin/env python3
"""seed.py ID PROP HARNESS CRATES FILE <<< JSON-ish python: dict(old,new or edits, needs, breaks, demo)"""
import subprocess, sys, pathlib, json, shutil, tempfile
spec = {}
exec(sys.stdin.read(), spec)
id, prop, h, crates = sys.argv[1:5]
wt = pathlib.Path("/tmp/seedwt")
if wt.exists(): shutil.rmtree(wt)
subprocess.run(["git","-C","/repo","worktree","prune"],check=True)
subprocess.run(["git","-C","/repo","worktree","add","-q","--detach",str(wt),"HEAD"],check=True)
for f, old, new in spec["edits"]:
    p = wt/f; s = p.read_text()
    assert s.count(old) == 1, (f, s.count(old), old)
    p.write_text(s.replace(old, new))
diff = subprocess.run(["git","-C",str(wt),"diff"],capture_output=True,text=True,check=True).stdout
sd = pathlib.Path("/tmp/seed"); sd.mkdir(exist_ok=True)
(sd/"patch.diff").write_text(diff); (sd/"demo.rs").write_text(spec["demo"])
(sd/"meta.json").write_text(json.dumps({"needs": spec["needs"], "what_it_breaks": spec["breaks"]}))
subprocess.run([sys.executable,"-B","/verif/tools/mkseed.py",id,prop,h,crates],check=True)
r0 = subprocess.run(["bash",f"/verif/seeded/{id}/demo.sh"],cwd="/repo",capture_output=True,text=True)
r1 = subprocess.run(["bash",f"/verif/seeded/{id}/demo.sh"],cwd=str(wt),capture_output=True,text=True)
print(id, "unchanged:", r0.returncode, "patched:", r1.returncode)
if r0.returncode: print(r0.stdout[-800:], r0.stderr[-2500:])
else: print("  patched says:", (r1.stdout+r1.stderr)[-300:].strip())
if "--check" in sys.argv:
    import os
    r = subprocess.run([sys.executable,"check.py",prop,"quick"],cwd="/verif",capture_output=True,text=True,env=dict(os.environ,VERIF_REPO=str(wt)))
    print("  check:", r.returncode, [l for l in r.stdout.splitlines() if l.startswith(("VIOL","NO-ANS","failed"))][:6])
subprocess.run(["git","-C","/repo","worktree","remove","--force",str(wt)],check=True)
