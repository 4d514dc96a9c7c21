"""Small helpers over the instantiated MIR in the fact base."""
import re


def norm_path(p):
    p = p.replace("moveit::slot::__macro::core::", "core::").replace("moveit::slot::__macro::", "")
    return p


def succs(term):
    k = term[0]
    if k == "goto":
        return [term[1]]
    if k == "switch":
        out = [b for _, b in term[2]]
        if isinstance(term[3], int):
            out.append(term[3])
        return out
    if k == "drop":
        return [x for x in (term[2],) if isinstance(x, int)]
    if k == "call":
        return [x for x in (term[4],) if isinstance(x, int)]
    if k == "assert":
        return [x for x in term if False]
    return []


class Mir:
    def __init__(self, F):
        self.F = F
        self.types = F.types
        self.insts = {i["id"]: i for i in F.insts}
        self.tcache = {}

    # ---- places
    def place_types(self, body, place):
        """yield (tid before projection, projection) pairs, finally (tid, None)"""
        t = body["locals"][place[0]]
        variant = None
        for pr in place[1:]:
            yield t, pr, variant
            if pr == "*":
                ty = self.types[t]
                t = ty["t"] if "t" in ty else (ty.get("args") or [t])[0]
                variant = None
            elif pr[0] == "f":
                t = pr[2]
                variant = None
            elif pr[0] == "d":
                variant = pr[1]
            elif pr[0] in ("i", "ci"):
                ty = self.types[t]
                t = ty.get("t", t)
                variant = None
        yield t, None, variant

    def place_type(self, body, place):
        for t, pr, v in self.place_types(body, place):
            last = t
        return last

    def ty(self, i):
        return self.types[i]

    def strip_ref(self, i):
        t = self.types[i]
        while t["k"] in ("ref", "ptr"):
            i = t["t"]
            t = self.types[i]
        return i

    def has_ptr(self, tid, depth=0, seen=None):
        """does a value of this type carry raw pointers (through refs to them, tuples, std wrappers)?"""
        t = self.types[tid]
        if depth > 6:
            return False
        k = t["k"]
        if k == "ptr":
            return True
        if k in ("ref", "slice", "array"):
            return self.has_ptr(t["t"], depth + 1)
        if k == "tuple":
            return any(self.has_ptr(x, depth + 1) for x in t["ts"])
        if k == "adt" and not t["local"] and not t.get("phantom"):
            return any(self.has_ptr(x, depth + 1) for x in t["args"] if isinstance(x, int))
        return False

    def calls(self, inst):
        b = inst.get("body")
        if not b:
            return
        for bi, (stmts, term, clean) in enumerate(b["blocks"]):
            if term and term[0] == "call":
                yield bi, term
    def drops(self, inst):
        b = inst.get("body")
        if not b:
            return
        for bi, (stmts, term, clean) in enumerate(b["blocks"]):
            if term and term[0] == "drop":
                yield bi, term
