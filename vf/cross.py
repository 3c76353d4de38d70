"""Builds for targets without an installed standard library: `core` (metadata only) is compiled
from rust-src once per target, the crate under test and the harness are compiled against it."""
import os, re, json, shutil
from .common import *

TOOLCHAIN = "nightly"
_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = run(["rustc", "+" + TOOLCHAIN, "--print", "sysroot"]).out.strip()
    return _sysroot


def tool(name):
    return os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/bin", name)


def rustc(args, timeout=240, env=None, host=False):
    """nightly rustc, or (host) the toolchain that has the x86 standard libraries installed."""
    e = {"RUSTC_BOOTSTRAP": "1"}
    e.update(env or {})
    exe = ["rustc", "+" + NATIVE_TOOLCHAIN] if host else [os.path.join(sysroot(), "bin/rustc")]
    return run(exe + args, timeout=timeout, env=e)


HOST_TARGETS = ("x86_64-unknown-linux-gnu", "i686-unknown-linux-gnu")


class CrossError(Exception):
    pass


def spec(target):
    """Path of a JSON target, if it is one."""
    p = os.path.join(VERIF, "cross", "targets", target + ".json")
    return p if os.path.exists(p) else target


def core_for(target, cpu=None):
    tag = target + ("." + cpu if cpu else "")
    d = os.path.join(CACHE, "core", tag)
    with Lock("core-" + tag):
        if os.path.exists(os.path.join(d, "ok")):
            return d
        os.makedirs(d, exist_ok=True)
        src = os.path.join(sysroot(), "lib/rustlib/src/rust/library/core/src/lib.rs")
        fl = ["--target", spec(target), "-Zunstable-options", "-Cpanic=abort", "--cap-lints", "allow", "--out-dir", d, "--crate-type", "rlib", "--emit=metadata", "-Zalways-encode-mir", "-Zmir-opt-level=1", "--edition", "2024", "-Copt-level=3"]
        if cpu:
            fl.append("-Ctarget-cpu=" + cpu)
        p = rustc(["--crate-name", "core", src] + fl, timeout=600)
        if p.rc != 0:
            raise CrossError(f"core for {target}: " + p.err[-800:])
        cb = os.path.join(d, "cb.rs")
        open(cb, "w").write("#![feature(compiler_builtins, no_core)]\n#![compiler_builtins]\n#![no_std]\n")
        p = rustc(["--crate-name", "compiler_builtins", cb, "-L", d] + fl)
        if p.rc != 0:
            raise CrossError(f"compiler_builtins for {target}: " + p.err[-800:])
        open(os.path.join(d, "ok"), "w").write("ok")
    return d


def drop_core(target):
    shutil.rmtree(os.path.join(CACHE, "core", target), ignore_errors=True)


def build_script():
    """The crate's own build script, compiled for the host."""
    d = os.path.join(CACHE, "cross", repo_hash())
    out = os.path.join(d, "build-script")
    with Lock("build-script-" + repo_hash()[:8]):
        if not os.path.exists(out):
            os.makedirs(d, exist_ok=True)
            p = run(["rustc", "+" + NATIVE_TOOLCHAIN, os.path.join(REPO, "build.rs"), "--edition", "2021", "-o", out + ".tmp", "--crate-name", "build_script_build"], env={"CARGO_PKG_NAME": "atomic-maybe-uninit"})
            if p.rc != 0:
                raise CrossError("build script: " + p.err[-800:])
            os.rename(out + ".tmp", out)
    return out


def script_cfgs(target, flags, stable=False, host=False):
    """What the build script decides for this target (stable: as it would with a stable compiler)."""
    p = rustc(["--print", "cfg", "--target", spec(target)] + flags, host=host, env={"RUSTC_BOOTSTRAP": "-1"} if stable else None)
    if p.rc != 0:
        raise CrossError("print cfg: " + p.err[-500:])
    env = {"TARGET": target, "HOST": "x86_64-unknown-linux-gnu", "RUSTC": run(["rustup", "which", "rustc", "--toolchain", NATIVE_TOOLCHAIN]).out.strip() if host else os.path.join(sysroot(), "bin/rustc"), "CARGO_ENCODED_RUSTFLAGS": "\x1f".join(flags), "OUT_DIR": "/tmp", "CARGO_PKG_NAME": "atomic-maybe-uninit"}
    if stable:
        env["RUSTC_BOOTSTRAP"] = "-1"
    multi = {}
    for l in p.out.splitlines():
        m = re.match(r'([a-z_0-9]+)(?:="(.*)")?$', l.strip())
        if m:
            multi.setdefault(m[1], []).append(m[2] or "")
    for k, v in multi.items():
        env["CARGO_CFG_" + k.upper()] = ",".join(v)
    q = run([build_script()], env=env)
    if q.rc != 0:
        raise CrossError("build script run: " + q.err[-500:])
    return [l[len("cargo:rustc-cfg="):] for l in q.out.splitlines() if l.startswith("cargo:rustc-cfg=")], multi


class Target:
    """One cross configuration: target triple + flags."""

    def __init__(self, name, triple, flags=(), cfgs=(), cpu=None, core_cpu=None, stable=False):
        self.name, self.triple = name, triple
        self.flags = list(flags) + (["-Ctarget-cpu=" + cpu] if cpu else [])
        self.cfgs = list(cfgs)
        self.harness = []  # cfgs for the harness only
        self.core_cpu, self.stable = core_cpu, stable
        self.host = triple in HOST_TARGETS


def compile_harness(t, source, emit, opt="3", extra=(), out_tag="h"):
    """Compile the crate under test and one harness source for Target `t`; returns output dir."""
    core = None if t.host else core_for(t.triple, t.core_cpu)
    src = os.path.join(VERIF, "cross", source) if not os.path.isabs(source) else source
    key = tree_hash(os.path.dirname(src) if src.startswith(VERIF) else src, extra=str(t.harness) + repo_hash() + t.triple + str(t.flags) + str(t.cfgs) + str(t.stable) + emit + opt + str(extra))
    d = os.path.join(CACHE, "cross", repo_hash(), f"{t.name}-{out_tag}-{key}")
    with Lock(f"x-{repo_hash()[:8]}-{t.name}-{out_tag}-{opt}"):
        if os.path.exists(os.path.join(d, "ok")):
            return d
        os.makedirs(d, exist_ok=True)
        cfgs, multi = script_cfgs(t.triple, t.flags, t.stable, t.host)
        base = ["--target", spec(t.triple), "-Zunstable-options", "-Cpanic=abort", "--cap-lints", "allow", "-Copt-level=" + opt, "--out-dir", d, "-Ccodegen-units=1", "-Zcross-crate-inline-threshold=always", "-Zmerge-functions=disabled"] + t.flags
        if core:
            base += ["-L", core]
        ex = []
        for c in cfgs + t.cfgs:
            ex += ["--cfg", c]
        p = rustc(["--crate-name", "atomic_maybe_uninit", "--edition", "2021", "--crate-type", "rlib", "--emit=metadata", "-Zalways-encode-mir", os.path.join(REPO, "src/lib.rs")] + base + ex, host=t.host)
        if p.rc != 0:
            raise CrossError(f"crate for {t.name}: " + p.err[-1500:])
        p = rustc(["--crate-name", out_tag, "--edition", "2021", "--crate-type", "rlib", "--emit=" + emit, src, "--extern", "atomic_maybe_uninit=" + os.path.join(d, "libatomic_maybe_uninit.rmeta")] + base + list(extra) + [a for c in t.harness for a in ("--cfg", c)], host=t.host)
        if p.rc != 0:
            raise CrossError(f"harness for {t.name}: " + p.err[-3000:])
        json.dump(multi, open(os.path.join(d, "cfg.json"), "w"))
        open(os.path.join(d, "ok"), "w").write("ok")
    return d
