"""Collects what the monitors observed and turns it into a verdict, evidence and replay files."""
import json, os, sys, time, threading
from .common import *

KNOWN = os.path.join(VERIF, "known-findings.txt")


def known_findings(prop):
    """Lines `finding: property=<id> key=<key> <text>`; `fixed:` lines suppress nothing."""
    out = {}
    try:
        for l in open(KNOWN):
            if l.startswith(f"finding: property={prop} key="):
                k, _, text = l[len(f"finding: property={prop} key="):].strip().partition(" ")
                out[k] = text
    except OSError:
        pass
    return out


class Report:
    def __init__(self, prop, tier, seed, rule, nontrivial, evaluations):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rule, self.nontrivial_keys, self.evaluation_keys = rule, nontrivial, evaluations
        self.lock = threading.Lock()
        self.stats, self.samples, self.violations, self.notes, self.inconclusive = {}, [], [], {}, []
        self.jobs, self.known, self.other = {}, set(), {}
        self.t0 = time.time()
        self.assumptions = []
        self._known = known_findings(prop)

    def stat(self, key, v, job=None):
        with self.lock:
            if key.startswith("max_"):
                self.stats[key] = max(self.stats.get(key, 0), v)
            else:
                self.stats[key] = self.stats.get(key, 0) + v
            if job is not None:
                self.jobs.setdefault(job, {})[key] = v

    def sample(self, s):
        with self.lock:
            self.samples.append(s)

    def note(self, s):
        with self.lock:
            self.notes[s] = self.notes.get(s, 0) + 1

    def unsure(self, what, why):
        with self.lock:
            self.inconclusive.append({"job": what, "reason": why[:600]})

    def violation(self, job, cls, detail, replay=None, key=None):
        """`replay`: the command that shows it again; `key`: identity for the known-findings file."""
        with self.lock:
            if key is not None and key in self._known:
                self.known.add(key)
                return
            self.violations.append({"job": job, "class": cls, "detail": detail, "replay": replay})

    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        ev = sum(self.stats.get(k, 0) for k in self.evaluation_keys)
        nt = sum(self.stats.get(k, 0) for k in self.nontrivial_keys)
        step = max(1, len(self.samples) // 12)
        cov = {
            "evaluations": int(ev),
            "distinct_nontrivial": int(nt),
            "rule": self.rule,
            "samples": [str(s)[:300] for s in self.samples[::step][:14]],
            "observed": self.stats,
            "per_job": {},
            "jobs_run": len(self.jobs),
            "inconclusive": self.inconclusive[:20],
            "notes": self.notes,
        }
        for j in sorted(self.jobs):
            cov["per_job"][j] = self.jobs[j]
        while len(json.dumps(cov)) > 45000 and cov["per_job"]:
            for k in sorted(cov["per_job"])[::2]:
                del cov["per_job"][k]
        evid = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 1), "violations": len(self.violations)}
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        tmp = p + f".{os.getpid()}"
        json.dump(evid, open(tmp, "w"), indent=1)
        os.rename(tmp, p)
        for k in sorted(self.known):
            print(f"KNOWN-FINDING: property={self.prop} {self._known[k]}")
        for i in self.inconclusive[:20]:
            print(f"INCONCLUSIVE property={self.prop} job={i['job']}: {i['reason'][:300]}")
        for k, n in sorted(self.other.items()):
            print(f"note: {n} observation(s) of class {k}, which another property's check judges")
        print(f"{self.prop} {self.tier} seed={self.seed}: {ev} evaluations, {nt} distinct non-trivial, {len(self.jobs)} jobs, {len(self.violations)} violations, {len(self.inconclusive)} inconclusive, {wall:.0f}s")
        if not self.violations:
            return 0
        seen = set()
        for n, v in enumerate(self.violations):
            k = (v["class"])
            if k in seen or len(seen) >= 6:
                continue
            seen.add(k)
            rp = os.path.join(VERIF, "evidence", "replay", f"{self.prop}-{n}.json")
            json.dump(v, open(rp, "w"), indent=1)
            print(f"VIOLATION property={self.prop} replay={rp}")
            print(f"  {v['class']} in {v['job']}: {str(v['detail'])[:500]}")
        sys.stdout.flush()
        return 1
