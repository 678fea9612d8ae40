"""Kani back end: generate a harness crate from the obligations, run it, read the verdict of every check."""
import json, os, re, subprocess, time

FLAGS = ["-Z", "unstable-options", "-Z", "stubbing", "--no-assertion-reach-checks", "--no-memory-safety-checks"]


def generate(verif, repo, build, modules, obligations):
    crate = os.path.join(build, "kani")
    os.makedirs(os.path.join(crate, "src"), exist_ok=True)
    toml = f"""[package]
name = "obligations"
version = "0.1.0"
edition = "2021"
[dependencies]
rust-quantlib = {{ path = "{repo}" }}
[workspace]
[patch.crates-io]
chrono = {{ path = "{verif}/chrono_shim" }}
"""
    out = ["#![cfg(kani)]", "#![allow(unused, dead_code)]",
           f'#[macro_use] #[path = "{verif}/obl/obl.rs"] pub mod obl;']
    for m in modules:
        out.append(f'#[path = "{verif}/obl/{m}.rs"] pub mod {m};')
    for o in obligations:
        attrs = ["#[kani::proof]"]
        if o.unwind:
            attrs.append(f"#[kani::unwind({o.unwind})]")
        if o.cal:
            attrs.append("#[kani::stub(std::hash::RandomState::new, crate::obl::fixed_random_state)]")
        for a, b in o.stubs:
            attrs.append(f"#[kani::stub({a}, {b})]")
        cover = "" if o.reject else ' kani::cover!(true, "reached");'
        out.append("\n".join(attrs) + f"\nfn {o.harness}() {{ let mut s = obl::KaniSrc; {o.module}::{o.fn}(&mut s);{cover} }}")
    write_if_changed(os.path.join(crate, "Cargo.toml"), toml)
    write_if_changed(os.path.join(crate, "src", "lib.rs"), "\n".join(out) + "\n")
    return crate


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    return e


def run(crate, target, obligations, timeout, jobs, deadline):
    """-> dict harness -> (status, seconds, checks) ; status in ok/fail/undecided ; plus compile error text"""
    out = os.path.join(crate, "result.json")
    if os.path.exists(out):
        os.remove(out)
    cmd = ["cargo", "kani"] + FLAGS + ["--target-dir", target, "--export-json", out, "-j", str(jobs),
           "--output-format", "terse", "--harness-timeout", f"{timeout}s", "--exact"]
    for o in obligations:
        cmd += ["--harness", o.harness]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=crate, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=max(10, deadline - time.time()))
        text = p.stdout
    except subprocess.TimeoutExpired as e:
        subprocess.run(["pkill", "-f", target], check=False)
        text = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
        text += "\nTIMEOUT of the whole Kani run"
    res = {}
    try:
        d = json.load(open(out))
        stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in d.get("cbmc", [])}
        for r in d["verification_results"]["results"]:
            res[r["harness_id"]] = (r, stats.get(r["harness_id"], {}))
    except Exception as e:
        text += f"\n(no result file: {e})"
    return res, text, " ".join(cmd[:2] + FLAGS + ["--harness", "<obligation>"]), time.time() - t0


TOOL = re.compile(r"unwinding assertion|is not currently supported|unsupported|recursion unwinding|chrono contract", re.I)


def judge(o, r):
    """Decide one obligation from the verdict of each of its checks."""
    checks = r.get("checks") or []
    bad = [c for c in checks if c["status"] not in ("Success", "Satisfied", "Unreachable")]
    undet = [c for c in bad if c["status"] in ("Undetermined", "SolverError") or TOOL.search(c["description"])]
    if not checks:
        return "undecided", "no verdict (" + str(r.get("status")) + ")"
    tool_fail = [c for c in bad if TOOL.search(c["description"]) and c["status"] == "Failure"]
    if o.reject:
        mine = [c for c in checks if c["description"].startswith("rejects:")]
        if not mine:
            return "undecided", "the rejection check was not generated"
        if any(c["status"] == "Failure" for c in mine):
            if tool_fail:
                return "undecided", "beyond the bound: " + tool_fail[0]["description"]
            return "fail", mine[0]["description"]
        if tool_fail or any(c["status"] in ("Undetermined", "SolverError") for c in mine):
            return "undecided", "beyond the bound"
        if not any(c["status"] == "Failure" for c in bad):
            return "undecided", "vacuous: no input reaches the call"
        return "ok", ""
    fails = [c for c in bad if c["status"] == "Failure" and c not in tool_fail and c.get("category") != "cover"]
    if tool_fail:
        return "undecided", tool_fail[0]["description"]
    if fails:
        c = fails[0]
        return "fail", f'{c["description"]} ({c["location"].get("file")}:{c["location"].get("line")})'
    cover = [c for c in checks if c.get("category") == "cover" or c["description"] == "reached"]
    if not cover or any(c["status"] not in ("Satisfied",) for c in cover):
        return "undecided", "vacuous: the end of the obligation is not reachable"
    if undet:
        return "undecided", undet[0]["description"]
    return "ok", ""


def counterexample(crate, target, o, timeout):
    """Concrete values (16-byte draws) for a failing obligation, or None."""
    cmd = ["cargo", "kani"] + FLAGS + ["-Z", "concrete-playback", "--concrete-playback=print", "--target-dir", target,
           "--harness-timeout", f"{timeout}s", "--exact", "--harness", o.harness]
    try:
        p = subprocess.run(cmd, cwd=crate, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 60)
    except subprocess.TimeoutExpired:
        return [], "timeout while extracting the counterexample"
    out = []
    for block in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", p.stdout, re.S):
        vals = []
        for v in re.findall(r"vec!\[([0-9, ]*)\]", block):
            b = [int(x) for x in v.split(",") if x.strip()]
            if len(b) == 16:
                vals.append("u%x" % int.from_bytes(bytes(b), "little"))
        out.append(vals)
    return out, p.stdout
