"""Findings, known findings, evidence."""
import json, os, time
from . import facts

KNOWN = os.path.join(facts.VERIF, "known_findings.txt")


class Finding:
    def __init__(self, key, where, rule, msg):
        self.key, self.where, self.rule, self.msg = key, where, rule, msg

    def __repr__(self):
        return "%s [%s] %s: %s" % (self.where, self.rule, self.key, self.msg)


class Result:
    def __init__(self):
        self.findings = {}
        self.coverage = {}
        self.assumptions = []
        self.samples = []
        self.notes = []
        self.obligations = 0
        self.discharged = 0

    def add(self, key, where, rule, msg):
        if isinstance(where, (list, tuple)):
            where = "%s:%s" % (where[0], where[1])
        if key not in self.findings:
            self.findings[key] = Finding(key, where, rule, msg)

    def count(self, what, n=1):
        self.coverage[what] = self.coverage.get(what, 0) + n

    def oblig(self, ok=True, n=1):
        self.obligations += n
        if ok:
            self.discharged += n

    def sample(self, s):
        if len(self.samples) < 25:
            self.samples.append(s)

    def floor(self, what, minimum, pid):
        """anchors disappeared: the rule would pass vacuously"""
        if self.coverage.get(what, 0) < minimum:
            self.add("floor:" + what, "-", "floor", "only %d of the expected >= %d %s found in the current source: the rule has lost its anchors" % (self.coverage.get(what, 0), minimum, what))


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.rstrip("\n")
            if line.startswith("known: property=%s " % pid) and " key=" in line:
                rest = line.split(" key=", 1)[1]
                key, _, desc = rest.partition(" :: ")
                out[key.strip()] = desc.strip()
    return out


def finish(pid, res, tier, seed, t0, technique):
    kn = known(pid)
    viol = []
    for k, f in sorted(res.findings.items()):
        if k in kn:
            print("KNOWN-FINDING: property=%s %s (%s)" % (pid, k, kn[k]))
        else:
            viol.append(f)
    edir = os.path.join(facts.VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    cov = {
        "explanation": technique,
        "analysed": res.coverage,
        "obligations": res.obligations,
        "discharged": res.discharged,
        "samples": res.samples[:25],
        "notes": res.notes[:200],
        "known_findings_seen": sorted(k for k in res.findings if k in kn),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": res.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(edir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if viol:
        rp = os.path.join(edir, pid + ".violation.txt")
        with open(rp, "w") as f:
            for v in viol:
                f.write(repr(v) + "\n")
        for v in viol:
            print("  " + repr(v))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s %s obligations=%d" % (pid, " ".join("%s=%s" % kv for kv in sorted(res.coverage.items())), res.obligations))
    return 0
