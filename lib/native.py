"""Native back end: the same obligations compiled against the real crate (real chrono), for replaying
counterexamples and for searching for failing inputs."""
import os, subprocess
from lib.kani import write_if_changed, env


def generate(verif, repo, build, prop, modules, obligations):
    crate = os.path.join(build, "native")
    os.makedirs(os.path.join(crate, "src"), exist_ok=True)
    toml = f"""[package]
name = "native_{prop.lower()}"
version = "0.1.0"
edition = "2021"
[dependencies]
rust-quantlib = {{ path = "{repo}" }}
chrono = "0.4"
[workspace]
[profile.release]
opt-level = 2
debug-assertions = true
overflow-checks = true
debug = 1
panic = "unwind"
"""
    out = ["#![allow(unused, dead_code, unexpected_cfgs)]", f'#[macro_use] #[path = "{verif}/obl/obl.rs"] pub mod obl;',
           f'#[path = "{verif}/obl/native.rs"] pub mod native;']
    for m in modules:
        out.append(f'#[path = "{verif}/obl/{m}.rs"] pub mod {m};')
    out.append("static TABLE: &[(&str, fn(&mut native::NatSrc))] = &[")
    for o in obligations:
        out.append(f'    ("{o.harness}", {o.module}::{o.fn}::<native::NatSrc>),')
    out.append("];\nfn main() { native::main(TABLE) }")
    write_if_changed(os.path.join(crate, "Cargo.toml"), toml)
    write_if_changed(os.path.join(crate, "src", "main.rs"), "\n".join(out) + "\n")
    lock = os.path.join(repo, "Cargo.lock")
    return crate


def build(crate, target, prop):
    p = subprocess.run(["cargo", "build", "--release", "--offline", "--target-dir", target], cwd=crate, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    exe = os.path.join(target, "release", f"native_{prop.lower()}")
    return (exe if p.returncode == 0 else None), p.stdout


def search(exe, seed, secs, max_cases, names, timeout):
    try:
        p = subprocess.run([exe, "search", str(seed), str(secs), str(max_cases)] + names, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=timeout)
        text = p.stdout
        if p.returncode != 0:
            text += "\n" + p.stderr[-2000:]
    except subprocess.TimeoutExpired as e:
        text = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
    res = {}
    for l in text.splitlines():
        f = l.split("\t")
        if f[0] == "OK":
            res[f[1]] = dict(status="ok", cases=int(f[2]), ok=int(f[3]), span=int(f[4]), secs=float(f[5]), sample=f[6] if len(f) > 6 else "")
        elif f[0] == "FAIL":
            res[f[1]] = dict(status="fail", raw=f[2], human=f[3], msg=f[4] if len(f) > 4 else "")
    return res, text


def replay(exe, name, values, timeout=120):
    try:
        p = subprocess.run([exe, "replay", name] + values, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", "the real code does not terminate on this input"
    if p.returncode == 1 and "FAILED" in p.stdout:
        return "fail", p.stdout.strip()
    if p.returncode == 0:
        return ("skip" if "SKIPPED" in p.stdout else "ok"), p.stdout.strip()
    return "crash", (p.stdout + p.stderr)[-2000:]
