"""Shared plumbing: paths, content hashes, bounded subprocesses, reports."""
import hashlib, json, os, subprocess, sys, time, threading, signal, shutil, fcntl, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
NATIVE_TOOLCHAIN = "1.97.0"


def tree_hash(*roots, extra=""):
    """Hash of the contents of source trees (never of time stamps)."""
    h = hashlib.sha256(extra.encode())
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, dirs, fs in os.walk(root):
                dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "__pycache__"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            if f.endswith("Cargo.lock"):
                continue
            h.update(os.path.relpath(f, root).encode() + b"\0")
            try:
                with open(f, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                h.update(b"?")
    return h.hexdigest()[:16]


_repo_hash = None


def repo_hash():
    global _repo_hash
    if _repo_hash is None:
        _repo_hash = tree_hash(os.path.join(REPO, "src"), os.path.join(REPO, "build.rs"), os.path.join(REPO, "Cargo.toml"))
    return _repo_hash


class Lock:
    def __init__(self, name):
        os.makedirs(os.path.join(CACHE, "locks"), exist_ok=True)
        self.path = os.path.join(CACHE, "locks", name)

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


class Proc:
    def __init__(self, rc, out, err, wall, timed_out):
        self.rc, self.out, self.err, self.wall, self.timed_out = rc, out, err, wall, timed_out


def run(cmd, timeout=300, env=None, cwd=None, stdin=None, merge=False):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_BOOTSTRAP"):
        e.pop(k, None)
    if env:
        e.update(env)
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT if merge else subprocess.PIPE, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, env=e, cwd=cwd, start_new_session=True, text=True, errors="replace")
    to = False
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
    return Proc(p.returncode, out or "", err or "", time.time() - t, to)


def gc_cache(sub, keep):
    """Drop old build outputs so that the cache does not grow with every edit of /repo."""
    d = os.path.join(CACHE, sub)
    try:
        names = sorted(os.listdir(d), key=lambda n: os.path.getmtime(os.path.join(d, n)))
    except OSError:
        return
    for n in names[:-keep] if len(names) > keep else []:
        shutil.rmtree(os.path.join(d, n), ignore_errors=True)
