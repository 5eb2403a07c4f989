"""Runs contract harnesses of one harness file under Kani and classifies every check."""
import json, os, pathlib, re, signal, subprocess, time
FLAGS = ["-Z", "unstable-options", "-Z", "stubbing", "--no-memory-safety-checks", "--no-undefined-function-checks", "--no-assertion-reach-checks"]

def env(mf):
    e = dict(os.environ)
    e.update({"CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "--cap-lints allow", "CARGO_TERM_COLOR": "never"})
    for k in ("MF_N", "MF_ND", "MF_CAP", "MF_PROP", "MF_CFG", "MF_W", "MF_T"): e.pop(k, None)
    for k, v in mf.items():
        if k != "MF_U": e[k] = str(v)
    for c in str(mf.get("MF_CFG", "")).split(): e["RUSTFLAGS"] += f" --cfg {c}"
    return e

def sh(cmd, cwd, e, log, timeout):
    """-> return code, or 'timeout'; the whole process group is ended on a timeout"""
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        try: return p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait(); return "timeout"
        except BaseException:
            os.killpg(p.pid, signal.SIGKILL); raise

def run(work, fns, mf, jobs=8, timeout=800, extra=()):
    """-> (return code, {fn: {...}}, log text, wall, command)"""
    out = pathlib.Path(work) / "kani.json"
    if out.exists(): out.unlink()
    cmd = ["cargo", "kani", "-p", "h"] + FLAGS + ["-j", str(jobs), "--output-format", "terse", "--export-json", str(out), "--exact", "--default-unwind", str(mf.get("MF_U", 8))]
    for f in fns: cmd += ["--harness", "proofs::" + f]
    cmd += list(extra)
    t0 = time.time()
    log = pathlib.Path(work) / "kani.log"
    rc = sh(cmd, work, env(mf), log, timeout)
    return rc, parse(out), log.read_text(errors="replace"), time.time() - t0, " ".join(cmd)

def playback(work, fn, mf, timeout):
    """concrete values of a counterexample for a failing harness: list of byte lists, or None"""
    cmd = ["cargo", "kani", "-p", "h"] + FLAGS + ["-Z", "concrete-playback", "--concrete-playback=print", "--default-unwind", str(mf.get("MF_U", 8)), "--exact", "--harness", "proofs::" + fn]
    log = pathlib.Path(work) / f"playback-{fn}.log"
    sh(cmd, work, env(mf), log, timeout)
    return tapes(log.read_text(errors="replace"))

def tapes(txt):
    """every `concrete_vals` block, with the description of the check it belongs to"""
    res = []
    for m in re.finditer(r"/// Test generated for harness `([^`]*)`.*?\n(.*?)let concrete_vals: Vec<Vec<u8>> = vec!\[\n(.*?)\n\s*\];", txt, re.S):
        vals = [[int(x) for x in v.split(",") if x.strip()] for v in re.findall(r"^\s*vec!\[([0-9, ]*)\]", m.group(3), re.M)]
        desc = re.search(r'Check for `([^`]*)`: "(.*?)"', m.group(0), re.S)
        res.append((desc.group(2) if desc else "", vals))
    return res

def parse(out):
    if not out.exists(): return {}
    d = json.loads(out.read_text())
    stats = {c["harness_id"]: c.get("cbmc_stats", {}) for c in d.get("cbmc", [])}
    res = {}
    for r in d["verification_results"]["results"]:
        h = r["harness_id"].split("::")[-1]
        e = {"status": r["status"], "ms": r.get("duration_ms", 0), "stats": stats.get(r["harness_id"]) or {}, "ob": [], "cov": [], "other": [], "n": 0, "ok": 0}
        for c in r.get("checks", []):
            st, desc, loc = c["status"], c["description"], c.get("location") or {}
            item = {"status": st, "desc": desc, "file": loc.get("file", ""), "line": loc.get("line", ""), "function": c.get("function", ""), "category": c.get("category", "")}
            if desc.startswith("COV:"): e["cov"].append(item); continue
            e["n"] += 1
            if st in ("Success", "Unreachable"): e["ok"] += 1
            if desc.startswith("OB:"): e["ob"].append(item)
            elif st not in ("Success", "Unreachable"): e["other"].append(item)
        res[h] = e
    return res

def report(rc, res, txt, w):
    print("rc", rc, "wall %.1f" % w)
    if not res: print("\n".join([l for l in txt.splitlines() if "error" in l or "limit" in l][:20]) or txt[-1500:])
    for h, e in sorted(res.items(), key=lambda x: -x[1]["ms"]):
        s = {k: (v or 0) for k, v in (e["stats"] or {}).items()}
        print(f"== {h} {e['status']} {e['ms']/1000:.1f}s checks {e['ok']}/{e['n']} symex {s.get('runtime_symex_s',0):.1f} steps {s.get('size_program_expression')} conv {s.get('runtime_convert_ssa_s',0):.1f} solve {s.get('runtime_decision_procedure_s',0):.1f}")
        for c in e["cov"]:
            if c["status"] != "Satisfied": print("   COV", c["desc"], c["status"])
        und = [c for c in e["ob"] + e["other"] if c["status"] not in ("Success", "Unreachable")]
        und.sort(key=lambda c: c["status"] != "Failure")
        for c in und[:14]: print("   ", c["status"], c["desc"], c["file"].replace("/real/src", "").split("toolchains")[-1], c["line"], c["function"][:110])
        if len(und) > 14: print("    ...", len(und))

if __name__ == "__main__":
    import sys
    sys.path.insert(0, str(pathlib.Path(__file__).parent))
    import ws
    work, harness, crates = sys.argv[1], sys.argv[2], sys.argv[3].split(",")
    fns = sys.argv[4].split(",")
    mf = dict(x.split("=") for x in sys.argv[5:])
    jobs = int(mf.pop("J", 8)); to = int(mf.pop("TO", 800)); pb = mf.pop("PB", None)
    ws.make(work, harness, crates)
    if pb: print(playback(work, fns[0], mf, to)); sys.exit()
    rc, res, txt, w, _ = run(work, fns, mf, jobs, to)
    report(rc, res, txt, w)
