"""Runs the native harness binaries and interprets their output."""
import json, shlex, signal
from .common import *
from .build import *

CRASH = {signal.SIGSEGV, signal.SIGILL, signal.SIGBUS, signal.SIGTRAP, signal.SIGABRT, signal.SIGFPE}


def run_binary(rep, job, cmd, accept, timeout=300, env=None, crash_is=None, prefix=None, uid=None):
    """One harness run. `accept`: classes this property judges, or None for all.
    A crash of the harness inside the code under test is a violation when it happens again on a rerun."""
    def go():
        return run(cmd, timeout=timeout, env=env)
    p = go()
    replay = " ".join(shlex.quote(c) for c in cmd)
    vs, done = [], False
    for l in p.out.splitlines():
        if l.startswith("V "):
            try:
                vs.append(json.loads(l[2:]))
            except ValueError:
                pass
        elif l.startswith("S "):
            _, k, v = l.split()
            if k != "violations":
                rep.stat(k, int(v), job)
        elif l.startswith("X "):
            try:
                rep.sample(f"{job}: " + json.loads(l[2:]))
            except ValueError:
                pass
        elif l.startswith("DONE"):
            done = True
    for v in vs:
        if accept is None or v["what"] in accept:
            rep.violation(job, v["what"], v["detail"], replay)
        else:
            with rep.lock:
                rep.other[v["what"]] = rep.other.get(v["what"], 0) + 1
    if p.timed_out:
        rep.unsure(job, f"did not finish in {timeout}s")
    elif not done or p.rc != 0:
        crashed = p.rc < 0 and -p.rc in CRASH or p.rc == 70 or p.rc == 101
        if crashed and crash_is is not None:
            q = go()
            again = not q.timed_out and (q.rc < 0 and -q.rc in CRASH or q.rc in (70, 101))
            if again:
                tail = [l for l in (q.out + "\n" + q.err).splitlines() if l and not l.startswith(("S ", "X "))][-6:]
                rep.violation(job, crash_is, f"the run died (exit {q.rc}): " + " | ".join(tail)[:800], replay)
                return p
        rep.unsure(job, f"exit {p.rc}: " + (p.err or p.out)[-300:])
    return p


def native_job(rep, cfg, cmd, scale, accept, seed, crash_is="crash", crate="native", binary="amu-native", timeout=300, valgrind=False, tag=""):
    job = f"{cfg}:{cmd}" + tag
    try:
        b = build(crate, cfg, binary)
    except BuildError as e:
        rep.unsure(job, "build failed: " + e.log[-500:])
        return None
    c = [b, cmd, str(seed), str(scale)]
    if valgrind:
        c = ["valgrind", "-q", "--error-limit=no"] + c
    return run_binary(rep, job, c, accept, timeout=timeout, crash_is=crash_is)
