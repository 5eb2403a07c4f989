#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: proves the obligations of one property on /repo's current tree.

exit 0: every obligation discharged (known findings are printed); exit 1 with a VIOLATION line: an
obligation fails; exit 2: no answer (the tree does not compile against the shim, a limit was hit...)."""
import json, os, pathlib, re, shutil, subprocess, sys, tempfile, threading, time
ROOT = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(ROOT / "tools"))
sys.dont_write_bytecode = True
import kanirun, props, ws

def known_findings():
    p = ROOT / "known-findings.json"
    return json.loads(p.read_text())["findings"] if p.exists() else []

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    budget = 840 if tier == "quick" else 6 * 3600
    spec = props.PROPS[pid]
    base = pathlib.Path(tempfile.mkdtemp(prefix=f"verif-{pid}-"))
    try: rc = decide(pid, tier, spec, base, t0, budget)
    finally: shutil.rmtree(base, ignore_errors=True)
    sys.exit(rc)

def classify(e, known):
    """-> (violations, known ones, limits) among the checks of one contract"""
    bad, kn, lim = [], [], []
    for c in e["ob"]:
        if c["status"] == "Failure": (kn if any(k["obligation"] == c["desc"][3:] for k in known) else bad).append(c)
    for c in e["other"]:
        if c["status"] != "Failure": continue
        d = c["desc"]
        if d.startswith("MF-LIMIT") or "unwinding" in d or "unsupported" in d.lower() or "not currently supported" in d or "recursion" in d: lim.append(c)
        else: bad.append(c)
    for c in e["cov"]:
        if c["status"] in ("Unsatisfiable", "Unreachable"): bad.append({**c, "cov": True})
    return bad, kn, lim

def unit(pid, u, work, mf, fns, known, jobs, left, R):
    """runs the contracts of one unit; results go to R (one thread per unit, merged under a lock)"""
    todo, tries, killed = fns, 0, 0
    while todo:
        rc, res, txt, wall, cmd = kanirun.run(work, todo, mf, jobs, max(30, left()))
        again, alone = [], []
        with R["lock"]:
            R["cmds"].append(cmd)
            for f in todo:
                e = res.get(f)
                if e is None or (e["n"] == 0 and e["status"] != "Success"):
                    if "failed with status" in txt and killed == 0 and left() > 120: alone.append(f); continue
                    R["errors"].append(f"{f}: no result (rc {rc}): " + " | ".join([l for l in txt.splitlines() if l.startswith("error") or "rror[" in l or "failed with status" in l][:4])); continue
                bad, kn, lim = classify(e, known)
                if lim and not bad and tries == 0 and left() > 60: again.append(f); continue
                b = props.bound(u["h"], f); k = "b" if b else ""
                R[k + "n"] += e["n"]; R[k + "ok"] += e["ok"]
                R["solver"] += float((e["stats"] or {}).get("runtime_decision_procedure_s") or 0)
                R[k + "contracts"].append({"contract": f"{u['h']}::{f}", **({"bound": b} if b else {}), "obligations": e["n"], "discharged": e["ok"], "named": [c["desc"][3:] for c in e["ob"]], "seconds": round(e["ms"] / 1000, 1)})
                R["known"] += [(f, c) for c in kn]
                if bad: R["viol"].append((u, work, dict(mf), f, bad))
                elif lim: R["errors"].append(f"{f}: {lim[0]['desc']} at {lim[0]['file']}:{lim[0]['line']}")
                elif e["status"] != "Success" and not kn: R["errors"].append(f"{f}: status {e['status']}")
        if alone: todo, killed, jobs = alone + again, 1, 2; continue  # ended from outside (memory): once more, fewer at a time
        todo, tries = again, tries + 1
        if todo: mf["MF_N"] = int(mf.get("MF_N", 8)) * 2; mf["MF_CAP"] = int(mf.get("MF_CAP", 3)) + 2; mf["MF_U"] = 2 * int(mf["MF_N"]) + 2; mf.update({k: int(mf[k]) + 5 for k in ("MF_W", "MF_T") if k in mf})

def decide(pid, tier, spec, base, t0, budget):
    known = [k for k in known_findings() if k["property"] == pid]
    R = {"lock": threading.Lock(), "cmds": [], "errors": [], "viol": [], "known": [], "n": 0, "ok": 0, "bn": 0, "bok": 0, "contracts": [], "bcontracts": [], "solver": 0.0}
    left = lambda: budget - (time.time() - t0)
    cpus = min(8, os.cpu_count() or 1)
    ts = []
    for i, u in enumerate(spec["units"]):
        work = base / f"u{i}"
        mf = dict(u["mf"] if tier == "quick" or not u["tmf"] else u["tmf"]); mf["MF_PROP"] = pid
        fns = u["fns"] + u["known"] + (u["tfns"] if tier != "quick" else [])
        try: ws.make(work, u["h"], u["crates"])
        except FileNotFoundError as x: R["errors"].append(f"source missing: {x}"); continue
        jobs = max(2, min(len(fns), -(-cpus * len(fns) // sum(len(x["fns"]) for x in spec["units"]))))
        ts.append(threading.Thread(target=unit, args=(pid, u, work, mf, fns, known, jobs, left, R)))
    for t in ts: t.start()
    for t in ts: t.join()
    errors, viol, seen_known, cmds, contracts, bounded, solver = R["errors"], R["viol"], R["known"], R["cmds"], R["contracts"], R["bcontracts"], R["solver"]
    n, ok, bn, bok = R["n"], R["ok"], R["bn"], R["bok"]
    for v in spec.get("verus", []):
        log = base / "verus.log"
        r = kanirun.sh(["verus", str(ROOT / v), "--crate-type=lib"], base, dict(os.environ), log, max(30, left()))
        m = re.search(r"(\d+) verified, (\d+) errors", log.read_text(errors="replace"))
        if r != 0 or not m or m.group(2) != "0": errors.append(f"{v}: verus exit {r}"); continue
        n += int(m.group(1)); ok += int(m.group(1)); cmds.append("verus " + v)
        contracts.append({"contract": v + " (lemmas, Verus/Z3)", "obligations": int(m.group(1)), "discharged": int(m.group(1)), "named": [], "seconds": 0})
    for f, c in {c["desc"]: (f, c) for f, c in seen_known}.values():
        print(f"KNOWN-FINDING: property={pid} {c['desc'][3:]} (contract {f}): " + next(k["what"] for k in known if k["obligation"] == c["desc"][3:]))
    rc = 0
    if viol:
        rc = 1
        report(pid, viol, left)
    elif errors: rc = 2
    for e in errors: print("NO-ANSWER:", e)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": props.level(pid),
          "coverage": {"obligations": n, "discharged": ok, "bounded_contracts": bounded, "bounded_checks": bn, "bounded_checks_passed": bok, "explanation": props.note(pid), "checker_cmd": cmds[0] if cmds else "", "trusted_base": spec["tb"],
                       "functions_under_contract": spec["under"], "contracts": contracts, "solver_s": round(solver, 1), "back_end": "CBMC 6.11 bit-blasting + CaDiCaL, through Kani 0.68"},
          "assumptions": props.ASSUME.get(pid, []) + props.ASSUME.get(pid[0], []) + ["obligation failures listed as known findings: " + c["desc"][3:] for _, c in seen_known],
          "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    print(f"{pid} {tier}: {ok}/{n} checks discharged over {len(contracts)} contracts, {bok}/{bn} bounded checks over {len(bounded)} contracts, in {time.time() - t0:.0f}s")
    return rc

def report(pid, viol, left):
    """replay file, counterexample where the verifier gives one, and the VIOLATION line"""
    path = ROOT / "evidence" / f"{pid}.replay.txt"
    path.parent.mkdir(exist_ok=True)
    out = [f"property {pid}"]; hit = False
    for u, work, mf, f, bad in viol:
        for c in bad: out.append(f"failed: contract {u['h']}::{f}: {c['desc']} [{c['status']}] at {c['file']}:{c['line']} in {c['function']}")
    for u, work, mf, f, bad in viol:
        if hit or left() < 60 or all(c.get("cov") for c in bad): continue
        tapes = kanirun.playback(work, f, mf, max(30, left() - 40))
        want = [c["desc"] for c in bad]
        tapes = [t for t in tapes if t[0] in want] or tapes
        for desc, tape in tapes[:4]:
            tp = work / "tape"; tp.write_text("\n".join(" ".join(map(str, v)) for v in tape))
            # natively: real encodings, room for them, and the vectors drawn as the verifier drew them
            nat = {**mf, "MF_CFG": " ".join(c for c in mf.get("MF_CFG", "").split() if c != "mf_tok"), "MF_ND": mf.get("MF_N", 8), "MF_N": 64 if "mf_tok" in mf.get("MF_CFG", "") else mf.get("MF_N", 8)}
            e = kanirun.env(nat); e["RUSTFLAGS"] += " --cfg mf_av"
            log = work / "replay.log"
            rc = kanirun.sh(["cargo", "run", "--offline", "-q", "-p", "r", "--", f, str(tp)], work, e, log, max(30, left()))
            msg = log.read_text(errors="replace")[-1500:]
            if rc == 10:
                hit = True
                out += ["", f"counterexample for {u['h']}::{f}, replayed on the natively compiled code:", msg, "inputs, in the order the contract draws them (little-endian bytes):"] + [" ".join(map(str, v)) for v in tape]
                break
            out.append(f"counterexample for {desc} not reproduced natively (exit {rc})")
    for u, work, mf, f, bad in viol:
        if hit or left() < 40 or all(c.get("cov") for c in bad): continue
        nat = {**mf, "MF_CFG": " ".join(c for c in mf.get("MF_CFG", "").split() if c != "mf_tok"), "MF_CAP": 32}
        nat.pop("MF_N", None)
        log = work / "search.log"
        rc = kanirun.sh(["cargo", "run", "--offline", "-q", "-p", "r", "--", f, "search", str(int(min(60, left() / 2)))], work, kanirun.env(nat), log, max(30, left()))
        msg = log.read_text(errors="replace")[-800:]
        if rc == 10: hit = True; out += ["", f"failing input for {u['h']}::{f} found by running the contract on the natively compiled code (pseudo-random inputs):", msg]
        else: out.append(f"native search for {f}: exit {rc}: {msg.strip()[-200:]}")
    path.write_text("\n".join(out) + "\n")
    print("\n".join(out[:12]))
    print(f"VIOLATION property={pid} replay={path}" + ("" if hit else " no-failing-input-found"))

if __name__ == "__main__": main()
