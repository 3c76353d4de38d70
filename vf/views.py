"""C09 jobs: the views crate natively in every configuration, and under the Miri interpreter."""
import os, re
from .common import *
from .build import CONFIGS, other_tree, build, BuildError
from .native import run_binary

CONST_ERR = re.compile(r"error\[(E0080|E0015|E0658|E0493|E0492)\]")
MIRI_UB = re.compile(r"error: (Undefined Behavior|unsupported operation|abnormal termination|memory leaked)[^\n]*", re.I)


def native(x, cfg, tag, seed):
    try:
        b = build("views", cfg, "amu-views")
    except BuildError as e:
        m = CONST_ERR.search(e.log)
        if m:
            x.rep.violation(f"{cfg}:views", "const-evaluation", f"a documented const use does not evaluate ({m[1]}): " + e.log[m.start():][:600], f"cargo build in /verif/views, configuration {cfg}")
        else:
            x.rep.unsure(f"{cfg}:views", "build failed: " + e.log[-400:])
        return
    run_binary(x.rep, f"{cfg}:views{tag}", [b, str(seed)], x.accept, crash_is="crash")


def miri(x, name, flags, target=None, seed=1, rustflags="", ub="undefined-behaviour"):
    job = f"miri-{name}:views"
    tdir = os.path.join(CACHE, "miri", name)
    src = os.path.join(VERIF, "views")
    if REPO != "/repo":
        tdir += "-" + repo_hash()[:8]
        with Lock("miri-copy-" + name):
            src = other_tree(src, tdir)
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--manifest-path", os.path.join(src, "Cargo.toml")]
    if target:
        cmd += ["--target", target]
    cmd += ["--", str(seed)]
    with Lock("miri-" + name):
        p = run(cmd, timeout=600, env={"MIRIFLAGS": flags, "CARGO_TARGET_DIR": tdir, "RUSTFLAGS": rustflags, "CARGO_NET_OFFLINE": "true"})
    done = False
    for l in p.out.splitlines():
        if l.startswith("V "):
            if x.accept is None or "views-disagree" in x.accept:
                x.rep.violation(job, "views-disagree", l[2:], " ".join(cmd))
        elif l.startswith("S ") and "violations" not in l:
            x.rep.stat("miri_" + l.split()[1], int(l.split()[2]), job)
            if x.rep.prop == "C09":
                x.rep.stat("view_checks", int(l.split()[2]))
        elif l.startswith("DONE"):
            done = True
    if p.timed_out:
        x.rep.unsure(job, "timeout")
    elif not done:
        m = MIRI_UB.search(p.err)
        if m and "Undefined Behavior" in m[0]:
            x.rep.violation(job, ub, p.err[m.start():][:900], f"MIRIFLAGS='{flags}' " + " ".join(cmd))
        elif CONST_ERR.search(p.err) and x.rep.prop == "C05":
            # partly uninitialized constants are among the const uses
            u = re.search(r"[^\n]*(?:uninitialized memory|is uninitialized)[^\n]*", p.err)
            if u:
                x.rep.violation(job, ub, "const evaluation: " + p.err[max(0, u.start() - 200):u.end() + 300], " ".join(cmd))
            else:
                x.rep.unsure(job, p.err[-400:])
        elif CONST_ERR.search(p.err):
            x.rep.violation(job, "const-evaluation", p.err[CONST_ERR.search(p.err).start():][:700], " ".join(cmd))
        else:
            x.rep.unsure(job, p.err[-400:])


def uninit_jobs(x):
    """C05: the views on partly and wholly uninitialized values; Miri stops at any use of such a byte."""
    base = "-Zmiri-strict-provenance -Zmiri-symbolic-alignment-check"
    x.add(miri, x, "x64", base, seed=x.seed + 5, ub="acts-on-uninitialized")
    if not x.quick:
        x.add(miri, x, "i686", base, "i686-unknown-linux-gnu", x.seed + 5, "--cfg vf_i686", ub="acts-on-uninitialized")
        x.add(miri, x, "s390x", base, "s390x-unknown-linux-gnu", x.seed + 5, ub="acts-on-uninitialized")


def jobs(x):
    from .checks import REL, MORE, DBG, DEEP, DEEPDBG
    base = "-Zmiri-strict-provenance -Zmiri-symbolic-alignment-check"
    x.add(miri, x, "x64", base, seed=x.seed)
    x.add(miri, x, "x64-tree", base + " -Zmiri-tree-borrows", seed=x.seed)
    if not x.quick:
        x.add(miri, x, "i686", base, "i686-unknown-linux-gnu", x.seed, "--cfg vf_i686")
        x.add(miri, x, "s390x", base, "s390x-unknown-linux-gnu", x.seed)
        x.add(miri, x, "x64-seed2", base, seed=x.seed + 17)
        x.add(miri, x, "mips", base, "mips-unknown-linux-gnu", x.seed)
    for c in REL + DBG + ([] if x.quick else MORE + DEEP + DEEPDBG):
        for r in range(1 if x.quick else 4):
            x.add(native, x, c, f"#{r}" if r else "", x.seed + 31 * r)
