"""Builds shard crates around generated declarations from /repo's working tree and runs the monitors in them."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys
import time
from . import emit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
WORK = os.environ.get("BW_WORK", os.path.join(VERIF, "work"))
SHARDS = 8


class Inconclusive(Exception):
    pass


def env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST"))}
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="1.98.1-x86_64-unknown-linux-gnu",
             CARGO_TARGET_DIR=os.path.join(WORK, "target"), CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
             PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
    e.update(extra or {})
    return e


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def shims(ws, features):
    """manifests for the two crates of the repository, whose own manifest names a registry that is not there"""
    derive = sorted(f for f in features if f in ("dyn_fns", "hex_fns", "part_eq_enums"))
    write(f"{ws}/bondrewd-derive/Cargo.toml", f"""[package]
name = "bondrewd-derive"
version = "0.4.2"
edition = "2021"
[lib]
proc-macro = true
path = "{REPO}/bondrewd-derive/src/lib.rs"
[dependencies]
proc-macro2 = "=1.0.107"
quote = "=1.0.47"
syn = "=1.0.109"
convert_case = "=0.6.0"
[features]
default = ["part_eq_enums"]
dyn_fns = []
hex_fns = []
part_eq_enums = []
""")
    write(f"{ws}/bondrewd/Cargo.toml", f"""[package]
name = "bondrewd"
version = "0.2.1"
edition = "2021"
[lib]
path = "{REPO}/bondrewd/src/lib.rs"
[dependencies]
bondrewd-derive = {{ path = "../bondrewd-derive", optional = true }}
[features]
default = ["std"]
std = []
derive = ["dep:bondrewd-derive"]
dyn_fns = ["derive", "bondrewd-derive/dyn_fns"]
hex_fns = ["bondrewd-derive?/hex_fns"]
""")
    return f"""[dependencies]
bondrewd = {{ path = "../bondrewd", features = {json.dumps(sorted({'derive'} | (set(features) & {'dyn_fns', 'hex_fns'})))} }}
bwrt = {{ path = "{VERIF}/rt" }}
bondrewd-derive = {{ path = "../bondrewd-derive", features = {json.dumps(derive)} }}
"""


def source_stamp():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


class Shard:
    """some declarations which are compiled together"""

    def __init__(self, i, decls):
        self.i, self.decls = i, decls
        self.owner = []     # (first line, last line, declaration)
        self.lib_owner = []

    def lib(self, subjects):
        """the declarations in a library"""
        lines = ["#![allow(dead_code, unused, deprecated, non_camel_case_types, clippy::all)]",
                 "#![forbid(unsafe_code)]", "use bondrewd::*;", "use bondrewd_derive::*;", "use bwrt::*;"]
        self.lib_owner = []
        for d in self.decls:
            first = len(lines) + 1
            lines += emit.lines_src(d, d in subjects)
            self.lib_owner.append((first, len(lines), d))
        return "\n".join(lines) + "\n"

    def source(self, glue, subjects, lib=None):
        lines = ["#![allow(dead_code, unused, deprecated, non_camel_case_types, clippy::all)]",
                 "#![forbid(unsafe_code)]",
                 "use bondrewd::*;", "use bondrewd_derive::*;", "use bwrt::*;",
                 "fn main() { bwrt::run::main(subjects(), include_str!(\"spec.txt\")) }"]
        if lib:
            lines.insert(2, f"use {lib}::*;")
        self.owner = []
        for d in self.decls:
            first = len(lines) + 1
            if not lib:
                lines += emit.lines_src(d, d in subjects)
            if d in subjects:
                lines.append(f"fn s_{d.name}() -> Subject {{ {emit.subject_src(d, glue)} }}")
            if lib and d in subjects:
                lines += emit.uses_src(d)
            self.owner.append((first, len(lines), d))
        names = ", ".join(f"s_{d.name}" for d in self.decls if d in subjects)
        lines.append(f"fn subjects() -> Vec<fn() -> Subject> {{ vec![{names}] }}")
        return "\n".join(lines) + "\n"


def lock():
    os.makedirs(WORK, exist_ok=True)
    f = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def invalidate():
    """cargo looks at time stamps, which a checkout or patch may not move forward"""
    stamp = source_stamp()
    p = os.path.join(WORK, "stamp")
    try:
        with open(p) as f:
            if f.read() == stamp:
                return
    except OSError:
        pass
    import glob
    import shutil
    for d in glob.glob(os.path.join(WORK, "target", "*", ".fingerprint", "bondrewd*")):
        shutil.rmtree(d, ignore_errors=True)
    write(p, stamp)


def cargo(ws, args, timeout, toolchain=None, extra=None):
    e = env(extra)
    if toolchain:
        e["RUSTUP_TOOLCHAIN"] = toolchain
    p = subprocess.Popen(["cargo"] + args, cwd=ws, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        raise Inconclusive("cargo ran out of time")
    return p.returncode, out, err


def root_spans(span, main):
    """lines of a shard's main.rs a compiler message is about, looking through macro expansions"""
    out = []
    while span:
        if span["file_name"].endswith(main):
            out.append(span["line_start"])
        span = (span.get("expansion") or {}).get("span")
    return out


def messages(out):
    for line in out.splitlines():
        if line.startswith("{"):
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                yield m["package_id"], m["message"]


def spans_of(message):
    todo, out = [message], []
    while todo:
        m = todo.pop()
        out += m.get("spans", [])
        todo += m.get("children", [])
    return out


def workspace(ws, members, profile_opt=0):
    write(f"{ws}/Cargo.toml", f"""[workspace]
resolver = "2"
members = {json.dumps(["bondrewd", "bondrewd-derive"] + members)}
[profile.dev]
opt-level = {profile_opt}
debug = 0
incremental = false
[profile.dev.package.bwrt]
opt-level = 2
overflow-checks = false
debug-assertions = false
""")


def build(ws, shards, glue, features, subjects, timeout=600, opt=0, apart=False):
    """Compiles. Returns {declaration: first error} for declarations the compiler rejects; those are dropped.
    apart: the declarations are in another crate than what uses them"""
    dep = base = shims(ws, features)
    workspace(ws, [f"s{s.i}" for s in shards], opt)
    rejected = {}
    for _ in range(12):
        for s in shards:
            lib = f"{os.path.basename(ws)}_s{s.i}_lib".replace("-", "_").lower() if apart else None
            if apart:
                write(f"{ws}/s{s.i}/src/lib.rs", s.lib(subjects))
                dep = f'[lib]\nname = "{lib}"\n' + base
            write(f"{ws}/s{s.i}/Cargo.toml", f"""[package]
name = "s{s.i}"
version = "0.0.0"
edition = "2021"
[[bin]]
name = "{os.path.basename(ws)}-s{s.i}"
path = "src/main.rs"
{dep}""")
            write(f"{ws}/s{s.i}/src/main.rs", s.source(glue, subjects, lib))
            write(f"{ws}/s{s.i}/src/spec.txt", "".join(emit.spec_src(d) for d in s.decls if d in subjects))
        rc, out, err = cargo(ws, ["build", "--offline", "--keep-going", "--message-format=json"] +
                             [x for s in shards for x in ("-p", f"s{s.i}")], timeout)
        if rc == 0:
            return rejected
        bad = {}
        other = []
        for pkg, m in messages(out):
            name = next((s for s in shards if f"/s{s.i}#" in pkg), None)
            if name is None:
                other.append(m["rendered"])
                continue
            lines = [l for sp in spans_of(m) for l in root_spans(sp, f"s{name.i}/src/main.rs")]
            hit = [d for l in lines for a, b, d in name.owner if a <= l <= b]
            lines = [l for sp in spans_of(m) for l in root_spans(sp, f"s{name.i}/src/lib.rs")] if apart else []
            hit = [d for l in lines for a, b, d in name.lib_owner if a <= l <= b] + hit
            if hit:
                bad.setdefault(hit[0], (name, m["rendered"]))
            elif not m["message"].startswith("aborting") and m.get("spans"):
                other.append(m["rendered"])
        if not bad:
            raise Inconclusive("build failed:\n" + "\n".join(other)[:4000] + err[-3000:])
        for d, (s, text) in bad.items():
            rejected.setdefault(d, text)
            if d in s.decls:
                s.decls.remove(d)
        # whatever needs a dropped declaration goes too
        for s in shards:
            while True:
                gone = [d for d in s.decls if any(r not in s.decls for r in emit.refs(d))]
                if not gone:
                    break
                s.decls = [d for d in s.decls if d not in gone]
    raise Inconclusive("build kept failing")


def run_shard(args, **extra):
    exe, argv, timeout = args
    try:
        p = subprocess.run([exe] + argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env(extra))
    except subprocess.TimeoutExpired:
        raise Inconclusive("a monitor ran out of time")
    if p.returncode != 0:
        # a stack overflow or abort of generated code would end here as well
        raise Inconclusive(f"monitor ended with {p.returncode}: " + p.stderr.decode("utf8", "replace")[-2000:])
    return json.loads(p.stdout.decode())


def foreign_env(target):
    return env({"RUSTUP_TOOLCHAIN": "nightly-x86_64-unknown-linux-gnu", "CARGO_TARGET_DIR": os.path.join(WORK, "target-miri"),
                "MIRI_SYSROOT": os.path.join(WORK, f"sysroot-{target}"),
                "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"})


def sysroot(target, timeout=700):
    """the standard library of another machine"""
    e = foreign_env(target)
    ready = os.path.join(e["MIRI_SYSROOT"], "ready")
    if os.path.exists(ready):
        return
    os.makedirs(WORK, exist_ok=True)
    p = subprocess.run(["cargo", "miri", "setup", "--target", target], env=e, cwd=WORK, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise Inconclusive(f"no sysroot for {target}: " + p.stdout.decode("utf8", "replace")[-2000:])
    write(ready, "")


def foreign(ws, shards, target, seed, n, timeout=700, only=None):
    """The calls recorded here, made on another machine, which Miri interprets. Returns the results and
    [(declaration, message)] for what does not compile there"""
    e = foreign_env(target)
    tape = [os.path.join(ws, f"s{s.i}", "tape.bin") for s in shards]
    rest = [str(seed), str(n)] + ([only] if only else [])

    def work(a):
        s, tape = a
        exe = os.path.join(WORK, "target", "debug", f"{os.path.basename(ws)}-s{s.i}")
        told = run_shard((exe, ["record"] + rest, timeout), BW_TAPE=tape)
        cmd = ["cargo", "miri", "run", "-q", "--offline", "--target", target, "-p", f"s{s.i}", "--", "replay"] + rest
        try:
            p = subprocess.run(cmd, env={**e, "BW_TAPE": tape}, cwd=ws, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Inconclusive("the interpreter ran out of time")
        err = p.stderr.decode("utf8", "replace")
        if p.returncode == 0:
            res = json.loads(p.stdout.decode())
            if res["evaluations"] != told["evaluations"]:
                raise Inconclusive("not all of the recorded calls were made")
            return {**res, "ops": told["ops"], "distinct": told["distinct"]}, []
        for text in re.split(r"\n(?=error|warning|note)", err):
            lines = [int(x) for x in re.findall(rf"--> s{s.i}/src/main\.rs:(\d+)", text)]
            bad = [d for x in lines for first, last, d in s.owner if first <= x <= last]
            if bad and text.startswith("error") and not text.startswith("error: unsupported operation"):
                return None, [(bad[0], text[:3000])]
        raise Inconclusive(f"the interpreter ended with {p.returncode}: " + err[-2000:])

    with cf.ThreadPoolExecutor(len(shards)) as ex:
        done = list(ex.map(work, zip(shards, tape)))
    return merge([r for r, _ in done if r]), [x for _, bad in done for x in bad]


def run(ws, shards, monitor, seed, n, timeout=600, only=None):
    jobs = [(os.path.join(WORK, "target", "debug", f"{os.path.basename(ws)}-s{s.i}"),
             [monitor, str(seed), str(n)] + ([only] if only else []), timeout) for s in shards]
    with cf.ThreadPoolExecutor(len(jobs)) as ex:
        return merge(list(ex.map(run_shard, jobs)))


def merge(results):
    total = {"evaluations": 0, "distinct": 0, "types": 0, "fields": 0, "ops": {}, "violation_count": 0,
             "violations": [], "samples": []}
    for r in results:
        for k in ("evaluations", "distinct", "types", "fields", "violation_count"):
            total[k] += r[k]
        for k, v in r["ops"].items():
            total["ops"][k] = total["ops"].get(k, 0) + v
        total["violations"] += r["violations"]
        total["samples"] += r["samples"]
    return total
