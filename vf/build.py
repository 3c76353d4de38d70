"""Native builds of the harness crates against /repo's working tree."""
import os, shutil
from .common import *


class Config:
    def __init__(self, name, target=None, flags="", release=True, cfgs=(), opt=None, toolchain=None):
        self.name, self.target, self.flags, self.release = name, target, flags, release
        self.cfgs, self.opt, self.toolchain = tuple(cfgs), opt, toolchain or NATIVE_TOOLCHAIN

    def rustflags(self):
        return " ".join([self.flags] + ["--cfg " + c for c in self.cfgs]).strip()


I686 = "i686-unknown-linux-gnu"
CX = "-Ctarget-feature=+cmpxchg16b"
LEG = "atomic_maybe_uninit_no_asm_maybe_uninit"
PRE20 = "portable_atomic_pre_llvm_20"
CONFIGS = {}


def _c(*a, **k):
    c = Config(*a, **k)
    CONFIGS[c.name] = c


_c("x64")
_c("x64-cx16", flags=CX, cfgs=["vf_128"])
_c("x64-debug", release=False)
_c("x64-cx16-debug", flags=CX, cfgs=["vf_128"], release=False)
_c("x64-legacy", cfgs=[LEG])
_c("x64-cx16-legacy", flags=CX, cfgs=["vf_128", LEG])
_c("x64-cx16-legacy-debug", flags=CX, cfgs=["vf_128", LEG], release=False)
_c("x64-cx16-pre20", flags=CX, cfgs=["vf_128", PRE20])
_c("x64-cx16-opt1", flags=CX, cfgs=["vf_128"], opt="1")
_c("x64-cx16-opts", flags=CX, cfgs=["vf_128"], opt="s")
_c("x64-native", flags="-Ctarget-cpu=x86-64-v3", cfgs=["vf_128"])
_c("x64-nopic", flags="-Crelocation-model=static " + CX, cfgs=["vf_128"])
_c("x64-stable", flags=CX, cfgs=["vf_128"], toolchain="stable")
_c("x64-nightly", flags=CX, cfgs=["vf_128"], toolchain="nightly")
_c("i686", target=I686)
_c("i686-debug", target=I686, release=False)
_c("i686-sse", target=I686, flags="-Ctarget-feature=-sse2")
_c("i686-x87", target=I686, flags="-Ctarget-feature=-sse,-sse2")
_c("i686-nox87", target=I686, flags="-Ctarget-feature=-sse,-sse2,-x87")
_c("i686-softfloat", target=I686, flags="-Ctarget-feature=-sse,-sse2,-x87,+soft-float")
_c("i686-nocx8", target=I686, cfgs=["vf_no64", "atomic_maybe_uninit_no_cmpxchg8b"])
_c("i686-nocx", target=I686, cfgs=["vf_nocas", "vf_no64", "atomic_maybe_uninit_no_cmpxchg8b", "atomic_maybe_uninit_no_cmpxchg"])
_c("i686-legacy", target=I686, cfgs=[LEG])
_c("i686-legacy-debug", target=I686, cfgs=[LEG], release=False)
_c("i686-x87-legacy", target=I686, flags="-Ctarget-feature=-sse,-sse2", cfgs=[LEG])
_c("i686-sse-legacy", target=I686, flags="-Ctarget-feature=-sse2", cfgs=[LEG])
_c("i686-nox87-legacy", target=I686, flags="-Ctarget-feature=-sse,-sse2,-x87", cfgs=[LEG])
_c("i686-x87-debug", target=I686, flags="-Ctarget-feature=-sse,-sse2", release=False)
_c("i686-nopic", target=I686, flags="-Crelocation-model=static")


class BuildError(Exception):
    def __init__(self, cfg, log):
        super().__init__(f"build of {cfg} failed")
        self.cfg, self.log = cfg, log


def other_tree(src, d):
    """A copy of a harness crate that depends on the tree VF_REPO names (for development)."""
    d = os.path.join(d, "crate")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(src, d, ignore=shutil.ignore_patterns("target"))
    m = os.path.join(d, "Cargo.toml")
    text = open(m).read().replace('"/repo"', f'"{REPO}"')
    open(m, "w").write(text)
    return d


def build(crate, cfg, bin_name):
    """Build /verif/<crate> in configuration `cfg`; returns the path of the binary."""
    c = CONFIGS[cfg]
    src = os.path.join(VERIF, crate)
    key = tree_hash(os.path.join(src, "src"), os.path.join(src, "Cargo.toml"), extra=repo_hash())
    tdir = os.path.join(CACHE, "native", f"{key}-{os.path.basename(crate)}", c.name)
    prof = "release" if c.release else "debug"
    out = os.path.join(tdir, c.target or "", prof, bin_name)
    stamp = os.path.join(tdir, "ok")
    with Lock(f"{os.path.basename(crate)}-{c.name}"):
        if os.path.exists(stamp) and os.path.exists(out):
            return out
        env = {"RUSTUP_TOOLCHAIN": c.toolchain, "CARGO_TARGET_DIR": tdir, "RUSTFLAGS": c.rustflags(), "CARGO_NET_OFFLINE": "true"}
        if c.opt:
            env["CARGO_PROFILE_RELEASE_OPT_LEVEL"] = c.opt
        if REPO != "/repo":
            src = other_tree(src, tdir)
        cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(src, "Cargo.toml")]
        if c.release:
            cmd.append("--release")
        if c.target:
            cmd += ["--target", c.target]
        p = run(cmd, timeout=300, env=env)
        if p.rc != 0:
            raise BuildError(cfg, p.err[-6000:])
        open(stamp, "w").write("ok")
    return out
