#!/usr/bin/env python3
"""./run.py C01 [quick|thorough]     decide one property on /repo's current tree
   ./run.py replay <replay file>       replay a recorded violation against the real code"""
import json, os, re, shlex, shutil, sys, time, threading
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from lib import kani, native, verus
from lib.props import PROPS

REPO = os.environ.get("REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))


class Ob:
    def __init__(self, module, fn, kind, opts):
        self.module, self.fn, self.kind = module, fn, kind
        self.harness = f"{module}_{fn}"
        self.reject = self.cal = self.thorough = self.sweep = False
        self.unwind, self.bounded, self.timeout, self.secs, self.stubs = 0, "", 0, 0.0, []
        for t in opts:
            k, _, v = t.partition("=")
            if k == "unwind": self.unwind = int(v)
            elif k == "bounded": self.bounded = v
            elif k == "timeout": self.timeout = int(v)
            elif k == "secs": self.secs = float(v)
            elif k == "stub": self.stubs.append(tuple(v.split("=>")))
            elif k in ("reject", "cal", "thorough", "sweep"): setattr(self, k, True)
            else: raise SystemExit(f"bad option {t} on {module}::{fn}")


def load(module):
    text = open(os.path.join(VERIF, "obl", module + ".rs")).read()
    r = []
    for m in re.finditer(r"^//@ (kani|native)(.*)\npub fn (\w+)<", text, re.M):
        r.append(Ob(module, m.group(3), m.group(1), shlex.split(m.group(2))))
    n = len(re.findall(r"^//@ ", text, re.M))
    assert n == len(r), f"{module}: {n} markers, {len(r)} obligations"
    return r


def check(prop, tier):
    t0 = time.time()
    P = PROPS[prop]
    build = os.path.join(BUILD, prop)
    os.makedirs(build, exist_ok=True)
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    mods = P["modules"]
    uses = P.get("uses", [])
    obs = [o for m in mods for o in load(m)]
    mods = uses + mods
    obs = [o for o in obs if tier == "thorough" or not o.thorough]
    kobs = [o for o in obs if o.kind == "kani"]
    shim = load("shim") if kobs or "shim" in mods else []
    nobs = obs + (shim if "shim" not in mods else [])
    quick = tier == "quick"
    ktime = P.get("kani_timeout", 100 if quick else 600)
    deadline = t0 + (700 if quick else 3000)
    result = {}          # obligation -> dict(status, by, detail, ...)
    notes = []

    kani_out = {}
    def do_kani():
        if not kobs:
            return
        crate = kani.generate(VERIF, REPO, build, mods, kobs)
        kt = max([ktime] + [o.timeout for o in kobs])
        kani_out["crate"] = crate
        kani_out["r"] = kani.run(crate, os.path.join(build, "kani_target"), kobs, kt, P.get("jobs", 8), deadline)

    # a unit, or (unit, the functions this property rests on)
    units = {u if isinstance(u, str) else u[0]: None if isinstance(u, str) else u[1] for u in P.get("verus", [])}
    verus_out = {}
    def do_verus():
        for u in units:
            verus_out[u] = verus.run(VERIF, REPO, build, u, P.get("verus_timeout", 120) if quick else 900)

    threads = [threading.Thread(target=do_kani), threading.Thread(target=do_verus)]
    for t in threads:
        t.start()
    ncrate = native.generate(VERIF, REPO, build, prop, mods + ([] if "shim" in mods else (["shim"] if shim else [])), nobs)
    exe, blog = native.build(ncrate, os.path.join(BUILD, "native_target"), prop)
    if exe is None:
        for t in threads:
            t.join()
        print(blog[-6000:])
        print(f"{prop}: the native build of the obligations against {REPO} failed")
        sys.exit(2)
    secs = P.get("search_secs", 4.0) * (1 if quick else 10)
    maxc = 3_000_000 if quick else 60_000_000
    names = [o.harness for o in nobs]
    nres, ntext = native.search(exe, SEED, secs, maxc, names, 600 if quick else 3000)
    listed = load_known(prop)
    # a failing input that is a listed finding neither explains nor hides anything else
    new_fail = lambda n, r: r["status"] == "fail" and not any(
        k in f"{n} {r['msg']} {n}[{r['human']}]: {r['msg']}" for k in listed)
    # a hang or crash ends the driver early: run what is missing one by one
    missing = [n for n in names if n not in nres]
    if missing and not any(new_fail(n, r) for n, r in nres.items()):
        for n in missing:
            r, t = native.search(exe, SEED, secs, maxc, [n], secs * 3 + 60)
            if n in r:
                nres[n] = r[n]
            else:
                nres[n] = dict(status="crash", msg=t[-1500:])
    for t in threads:
        t.join()

    # a proof that fails without an input: look harder for one
    if not any(r["status"] not in ("ok", "fail") or new_fail(n, r) for n, r in nres.items()):
        broken = [f for u, vr in verus_out.items() for f in vr["functions"]
                  if f["status"] == "fail" and (units[u] is None or f["name"] in units[u])]
        if broken:
            for k in range(1, 4):
                more, _ = native.search(exe, SEED + 7919 * k, 4 * secs, 10 * maxc, names, 100)
                bad = {n: r for n, r in more.items() if new_fail(n, r)}
                if bad:
                    nres.update(bad)
                    break

    violations = []      # (obligation, how, detail, replay dict)
    discharged = 0
    total = 0
    vccs = 0
    solver = 0.0
    per = []
    bounded_cases = 0

    # --- Kani
    if kobs:
        kres, ktext, kcmd, ksecs = kani_out["r"]
        open(os.path.join(build, "kani.log"), "w").write(ktext)
        if not kres:
            notes.append("Kani gave no result (compilation of the harness crate failed?): " + ktext.strip()[-600:])
        for o in kobs:
            total += 1
            r, st = kres.get(o.harness, (dict(checks=[], status="not run"), {}))
            status, why = kani.judge(o, r)
            vccs += int(st.get("vccs_generated") or 0)
            solver += float(st.get("runtime_solver_s") or st.get("runtime_decision_procedure_s") or 0)
            per.append(dict(obligation=o.harness, back_end="kani/cbmc", status=status,
                            seconds=round((r.get("duration_ms") or 0) / 1000.0, 2), bounded=o.bounded, detail=why))
            if status == "ok":
                if o.bounded:
                    total -= 1
                else:
                    discharged += 1
            elif status == "fail":
                n = nres.get(o.harness)
                if n and n["status"] == "fail":
                    continue     # reported below with its input
                cands, ptext = kani.counterexample(kani_out["crate"], os.path.join(build, "kani_target"), o, max(120, 3 * ktime))
                got = None
                for c in cands:
                    how, text = native.replay(exe, o.harness, c)
                    if how in ("fail", "crash", "hang"):
                        got = (c, text)
                        break
                if got:
                    violations.append((o.harness, "kani counterexample replayed against the real code: " + why, got[1],
                                       dict(kind="native", obligation=o.harness, values=got[0])))
                elif cands and any(native.replay(exe, o.harness, c)[0] == "ok" for c in cands if c):
                    # the counterexample does not reproduce on the real code: undecided, not a violation
                    per[-1]["status"] = "undecided"
                    per[-1]["detail"] += " [counterexample does not reproduce on the real code]"
                    notes.append(f"{o.harness}: Kani counterexample does not reproduce natively")
                else:
                    violations.append((o.harness, "kani: " + why, ptext[-4000:],
                                       dict(kind="none", obligation=o.harness, output=ptext[-8000:])))
    # --- Verus
    vcmds = []
    for u, vr in verus_out.items():
        vcmds.append(vr["cmd"])
        open(os.path.join(build, f"verus_{u}.log"), "w").write(vr["output"])
        solver += vr.get("solver", 0.0)
        mine = units[u]
        if mine is not None:
            # the other functions of the unit are decided by the properties that own them
            lost = [f for f in vr["functions"] if f["name"] not in mine and not f["name"].startswith("(") and f["status"] != "ok"]
            vr["functions"] = [f for f in vr["functions"] if f["name"] in mine or f["name"].startswith("(")]
            vr["contracts"] = [c for c in vr["contracts"] if c.split(" (")[0] in mine]
            if lost:
                notes.append(f"{u}: contracts of other properties not established on this tree: " + ", ".join(f["name"] for f in lost))
        for f in vr["functions"]:
            total += 1
            per.append(dict(obligation=f"{u}:{f['name']}", back_end="verus/z3", status=f["status"],
                            seconds=round(f.get("seconds", 0), 2), bounded="", detail=f.get("detail", "")))
            if f["status"] == "ok":
                discharged += 1
            elif f["status"] == "fail":
                if not any(new_fail(n, r) for n, r in nres.items()):
                    violations.append((f"{u}:{f['name']}", "verus: " + f["detail"], vr["output"][-4000:],
                                       dict(kind="none", obligation=f"{u}:{f['name']}", output=vr["output"][-12000:])))
        for n in vr.get("notes", []):
            notes.append(f"{u}: {n}")
    # --- native search
    for o in nobs:
        n = nres.get(o.harness)
        if n is None:
            notes.append(f"{o.harness}: no native result")
            continue
        if n["status"] == "ok":
            bounded_cases += n["ok"]
            if n["ok"] == 0:
                notes.append(f"{o.harness}: native search met the precondition in no case")
        elif n["status"] == "fail":
            if o.module == "shim" and "shim" not in mods:
                notes.append(f"the chrono contract does not hold: {n['human']} {n['msg']}")
            violations.insert(0, (o.harness, n["msg"], f"{o.harness}[{n['human']}]: {n['msg']}",
                                  dict(kind="native", obligation=o.harness, values=n["raw"].split())))
        else:
            violations.insert(0, (o.harness, "the real code crashes: " + n["msg"][-300:], n["msg"],
                                  dict(kind="crash", obligation=o.harness, output=n["msg"])))

    # --- known findings
    known = load_known(prop)
    reported = []
    for v in violations:
        k = next((k for k in known if k in v[0] + " " + v[1] + " " + v[2]), None)
        if k:
            print(f"KNOWN-FINDING: property={prop} {k}")
        else:
            reported.append(v)

    level = P.get("level", "proof")
    ev = dict(property=prop, tier=tier, seed=SEED, level=level,
              coverage=dict(obligations=total, discharged=discharged,
                            checker_cmd="; ".join(filter(None, [kani_out["r"][2] if kobs else "", *vcmds])) or "native",
                            trusted_base=trusted(P, kobs, verus_out),
                            functions_under_contract=P.get("functions", []) + sum([v.get("contracts", []) for v in verus_out.values()], []),
                            verification_conditions=vccs + sum(v.get("vcs", 0) for v in verus_out.values()),
                            solver_seconds=round(solver, 2),
                            bounded_native_cases=bounded_cases,
                            per_obligation=per,
                            bounded_standins=[dict(obligation=o.harness, method="native search of the real code",
                                                   cases=nres.get(o.harness, {}).get("ok", 0),
                                                   first_draw_swept=nres.get(o.harness, {}).get("span", 0)) for o in nobs],
                            notes=notes),
              assumptions=P.get("assumptions", []) + COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(reported))
    if level in ("exploration",):
        ev["coverage"].update(evaluations=bounded_cases, distinct_nontrivial=bounded_cases,
                              rule="draws that meet the precondition of the obligation",
                              samples=[nres[o.harness].get("sample", "") for o in nobs if nres.get(o.harness, {}).get("status") == "ok"][:5])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for p in per:
        if p["status"] != "ok":
            print(f"{prop}: obligation {p['obligation']} {p['status']}: {p['detail'][:300]}")
    for n in notes:
        print(f"{prop}: note: {n[:400]}")
    print(f"{prop} [{tier}]: {discharged}/{total} obligations discharged, {bounded_cases} native cases, {ev['wall_s']} s")
    if reported:
        # prefer a violation that comes with a failing input
        reported.sort(key=lambda v: 0 if v[3]["kind"] in ("native", "crash") else 1)
        v = reported[0]
        path = os.path.join(replays, f"{prop}_{re.sub(r'[^A-Za-z0-9_]+', '_', v[0])}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, obligation=v[0], why=v[1], detail=v[2], all=[[x[0], x[1]] for x in reported], replay=v[3],
                           how=f"python3 run.py replay {os.path.relpath(path, VERIF)}"), f, indent=1)
        for x in reported[:10]:
            print(f"{prop}: failed obligation {x[0]}: {x[1][:300]}")
        tail = "" if v[3]["kind"] in ("native", "crash") else " no-failing-input-found"
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}{tail}")
        sys.exit(1)
    sys.exit(0)


COMMON_ASSUMPTIONS = [
    "the rustc front ends of Kani and of the native build give the code the same meaning",
    "debug semantics: arithmetic overflow in the code is a panic",
]


def trusted(P, kobs, verus_out):
    t = []
    if kobs:
        t += ["Kani 0.68 / CBMC 6.11 with CaDiCaL", "contract of chrono (chrono_shim), compared natively with the real chrono over its whole range on this run"]
        if any(o.cal for o in kobs):
            t.append("std RandomState::new replaced by a constant state (hash seeds do not influence set membership)")
    if verus_out:
        t += ["Verus 0.2026.09.13 / Z3"] + sum([v.get("trusted", []) for v in verus_out.values()], [])
    return t + P.get("trusted", [])


def load_known(prop):
    r = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"KNOWN-FINDING: property=(\w+) (.*)", l.strip())
            if m and m.group(1) == prop:
                r.append(m.group(2))
    except OSError:
        pass
    return r


def do_replay(path):
    d = json.load(open(path))
    prop = d["property"]
    P = PROPS[prop]
    if d["replay"]["kind"] != "native":
        print(json.dumps(d, indent=1))
        return 1
    build = os.path.join(BUILD, prop)
    os.makedirs(build, exist_ok=True)
    mods = P["modules"]
    nobs = [o for m in mods for o in load(m)] + load("shim")
    mods = P.get("uses", []) + mods
    crate = native.generate(VERIF, REPO, build, prop, mods + ["shim"], nobs)
    exe, blog = native.build(crate, os.path.join(BUILD, "native_target"), prop)
    if exe is None:
        print(blog[-3000:])
        return 2
    how, text = native.replay(exe, d["replay"]["obligation"], d["replay"]["values"])
    print(how, text)
    return 1 if how in ("fail", "crash", "hang") else 0


def setup():
    """Warm the build: compile the crate natively once.  Every check rebuilds what it needs anyway."""
    os.makedirs(BUILD, exist_ok=True)
    prop = "C01"
    build = os.path.join(BUILD, prop)
    os.makedirs(build, exist_ok=True)
    obs = [o for m in PROPS[prop]["modules"] for o in load(m)]
    crate = native.generate(VERIF, REPO, build, prop, PROPS[prop]["modules"], obs)
    exe, log = native.build(crate, os.path.join(BUILD, "native_target"), prop)
    print("setup:", "ok" if exe else log[-2000:])
    sys.exit(0)


if __name__ == "__main__":
    if sys.argv[1] == "setup":
        setup()
    if sys.argv[1] == "replay":
        sys.exit(do_replay(sys.argv[2]))
    check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
