#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Builds the property's harnesses from /repo's working tree, explores them
symbolically, replays every counterexample natively and reports.
exit 0: nothing violated; 1: VIOLATION lines; 2: no answer.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from registry import PROPS

VERIF = vbuild.VERIF


def known():
    """id -> (property, text) of the recorded, unrepaired findings"""
    out = {}
    p = f"{VERIF}/known-findings.txt"
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: id=(\S+) property=(\S+) (.*)", ln)
            if m:
                out[m[1]] = (m[2], m[3].strip())
    return out


def functions(exe, addrs):
    if not addrs:
        return []
    import bisect
    tab = []
    for ln in subprocess.run(["/usr/bin/nm", exe], capture_output=True, text=True).stdout.splitlines():
        f = ln.split()
        if len(f) == 3 and f[1] in "TtWwVv":
            tab.append((int(f[0], 16), f[2]))
    tab.sort()
    keys = [a for a, _ in tab]
    names = set()
    for a in addrs:
        i = bisect.bisect_right(keys, int(a, 16)) - 1
        if i >= 0:
            names.add(tab[i][1])
    names = sorted(names)
    d = subprocess.run(["/usr/bin/c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
    return [x for x in d if x and ("rpy" in x or "lal" in x)]


def short(f):
    f = re.sub(r"\(.*", "", f) if len(f) > 160 else f
    return f[:200]


def main():
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = PROPS[pid]
    thorough = tier == "thorough"
    kfs = known()
    rdir = f"{VERIF}/build/replay/{pid}"
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    violations, errors, kfseen, notes = [], [], {}, []
    units = []
    tot = {k: 0 for k in ("paths", "branches", "queries", "sat", "unsat", "unknown", "solver_s",
                          "assert_queries_proved", "asserts_by_normal_form_only", "engine_errors", "diverged", "selfcheck_mismatches")}
    allfn, samples, complete = set(), [], True
    for u in spec["units"]:
        if thorough is False and u.get("thorough_only"):
            continue
        name = u["name"]
        bt = time.time()
        bkw = {k: u[k] for k in ("sym", "native", "sym_files", "native_files", "defs", "libs", "exclude", "lazy", "q", "native_harness") if k in u}
        try:
            exe = vbuild.build(name, u["harness"], mode="sym", **bkw)
        except vbuild.BuildError as e:
            print(f"build of {name} failed:\n{e}")
            errors.append(f"{name}: does not build")
            continue
        bt = time.time() - bt
        out, vd = f"{rdir}/{name}.json", f"{rdir}/{name}.in"
        os.makedirs(vd, exist_ok=True)
        budget = u.get("time", (90, 900))[1 if thorough else 0]
        env = dict(os.environ, SYM_OUT=out, SYM_VIOL=vd, SYM_TIME=str(budget), SYM_TIER="1" if thorough else "0",
                   SYM_PATHSEC=str(u.get("pathsec", 20)), SYM_QT=str(u.get("qt", 10000) * (5 if thorough else 1)),
                   VERIF_SEED=str(seed))
        for k, v in u.get("env", {}).items():
            env[k] = v
        rt = time.time()
        log = open(f"{rdir}/{name}.log", "w")
        try:
            r = subprocess.run([exe], env=env, stdout=log, stderr=log, timeout=budget + 200)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -99
        try:
            d = json.load(open(out))
        except (OSError, ValueError):
            errors.append(f"{name}: exploration ended with status {rc} and no result")
            continue
        for k in tot:
            tot[k] += d.get(k, 0)
        complete &= bool(d.get("complete"))
        fns = functions(exe, d.pop("functions", []))
        allfn.update(fns)
        d["functions_encoded"] = len(fns)
        d["build_s"], d["run_s"] = round(bt, 1), round(time.time() - rt, 1)
        d["bounds"] = u.get("bounds", "")
        # counterexamples: believe only what the real code does natively
        todo = [(v["label"], v.get("kf", ""), v["file"]) for v in d.get("violations", [])]
        for f in sorted(os.listdir(vd)):
            if f.startswith("engine-error-"):
                todo.append(("path process failed", "", f))
        if todo:
            try:
                rexe = vbuild.build(name, u["harness"], mode="replay", **bkw)
            except vbuild.BuildError as e:
                print(f"replay build of {name} failed:\n{e}")
                errors.append(f"{name}: replay does not build")
                rexe = None
        for label, kf, f in todo:
            if not rexe:
                break
            envr = {"SYM_TIER": env["SYM_TIER"], "PATH": "/usr/bin:/bin", **u.get("env", {})}
            try:
                r = subprocess.run([rexe, f"{vd}/{f}"], env=envr, capture_output=True, text=True, timeout=90, errors="replace")
                rr, txt = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rr, txt = 1, "REPLAY hang"
            last = [x for x in txt.splitlines() if x.startswith("REPLAY")]
            last = last[-1] if last else f"status {rr}"
            if rr == 0:
                notes.append(f"{name}: {label}: not reproduced natively ({f})")
                if label != "path process failed":
                    errors.append(f"{name}: counterexample for {label} does not reproduce")
                continue
            m = re.search(r" KF:(\S+)", last)
            if rr == 4 and m and m[1] in kfs and kfs[m[1]][0] == pid:
                kfseen.setdefault(m[1], last)
                continue
            sh = f"{rdir}/{name}-{f}.sh"
            with open(sh, "w") as g:
                ee = " ".join(f"{k}={v}" for k, v in envr.items())
                g.write(f"#!/bin/sh\n# {label}\nexec env {ee} {rexe} {vd}/{f}\n")
            os.chmod(sh, 0o755)
            violations.append((name, label, sh, last, txt))
        # vacuity
        miss = d.get("missing_labels", [])
        if miss and d.get("complete") and not d.get("violations"):
            errors.append(f"{name}: never reached: {', '.join(miss)}")
        elif miss:
            notes.append(f"{name}: not reached in this run: {', '.join(miss)}")
        if d.get("paths", 0) == 0:
            errors.append(f"{name}: no path")
        for smp in d.pop("samples", []):
            samples.append(smp)
        samples.append({"unit": name, "assertions": {k: v for k, v in list(d.get("asserts", {}).items())[:6]},
                        "reached": d.get("reached", {})})
        units.append({"unit": name, **{k: v for k, v in d.items()}})
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
        "coverage": {
            "states": int(tot["paths"]), "transitions": int(tot["branches"]),
            "traces_validated_against_impl": int(tot["paths"] - tot["engine_errors"]),
            "samples": samples[:20],
            "exhaustive": bool(complete and tot["unknown"] == 0 and not errors),
            "queries": int(tot["queries"]), "queries_sat": int(tot["sat"]), "queries_unsat": int(tot["unsat"]),
            "queries_unknown": int(tot["unknown"]), "assertions_discharged_by_solver": int(tot["assert_queries_proved"]),
            "assertions_by_polynomial_normal_form_only": int(tot["asserts_by_normal_form_only"]),
            "solver_seconds": round(tot["solver_s"], 2),
            "functions_encoded": sorted({short(f) for f in allfn}),
            "bounds": {u["name"]: u.get("bounds", "") for u in spec["units"]},
            "meaning": "states = symbolic paths, each also executed by the real code on the solver's model of the "
                       "path; transitions = decisions on symbolic data along them; a path with an unknown query is "
                       "not explored past it",
            "units": units, "notes": notes, "known_findings_reproduced": kfseen,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for k, (p, txt) in kfs.items():
        if p == pid:
            if k in kfseen:
                print(f"KNOWN-FINDING: property={pid} {txt}")
            else:
                print(f"note: recorded finding {k} did not show in this run")
    for n in notes:
        print("note:", n)
    print(f"{pid} {tier}: {int(tot['paths'])} paths, {int(tot['queries'])} queries "
          f"({int(tot['unsat'])} unsat, {int(tot['unknown'])} unknown), {tot['solver_s']:.1f} s solver, "
          f"{wall:.1f} s, {'complete' if complete else 'INCOMPLETE'}")
    for name, label, sh, last, txt in violations:
        print(f"--- {name}: {label}: {last}")
        print("\n".join(txt.splitlines()[-12:]))
        print(f"VIOLATION property={pid} replay={sh}")
    if violations:
        sys.exit(1)
    for e in errors:
        print("error:", e)
    sys.exit(2 if errors else 0)


if __name__ == "__main__":
    main()
