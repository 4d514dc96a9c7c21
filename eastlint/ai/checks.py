"""The checks decided by the abstract interpreter: one run over the entry points, findings filtered by tag."""
import re
from .. import facts, report
from . import run as runner

# containers whose entry points are interpreted (path prefixes of the public functions)
SCOPE = ("string::", "vector::", "vector_map::", "list::", "fixed_pool::", "fixed_list::", "fixed_vector::", "fixed_map::", "allocator::", "internal::hash_table", "hash_map::", "hash_set::", "deque::", "queue::", "compare::", "equals::",
         "internal::rb_tree::RBTree", "internal::rb_tree::iter::", "map::", "set::", "fixed_map::")


def in_scope(r):
    p = r["path"]
    for x in ("construction by ", "move by ", "release by ", "exchange by "):
        if p.startswith(x):
            p = p[len(x):]
    p = p.lstrip("<")
    return p.startswith(SCOPE) or r.get("adt", "").startswith(SCOPE)


# a reference operation that reads what is no element, loses one or cuts the structure does not give what the model gives
WRAP = ("hash_map::", "hash_set::", "queue::", "map::", "set::", "fixed_list::", "fixed_map::", "fixed_vector::", "fixed_pool::")
SEQ = ("string::", "vector::", "list::", "deque::", "queue::", "fixed_list::", "fixed_vector::")
MAP = ("vector_map::", "internal::hash_table", "hash_map::", "hash_set::", "internal::rb_tree::", "map::", "set::", "fixed_map::")
BROKEN = ("C03", "C04", "C12", "C14", "C17", "C18")


def head(p):
    p = p.lstrip("<")
    return p[p.index(" for ") + 5:] if p.startswith("impl ") and " for " in p else p


# property -> (tags, what the entry point must be, what the function at fault must be)
IMPLIED = {
    "C25": (BROKEN, None, WRAP),
    "C30": (BROKEN + ("C10", "C11"), SEQ, None),
    "C31": (BROKEN + ("C16", "C23"), MAP, None),
    "C24": (BROKEN + ("C16", "C23"), None, ("internal::hash_table::entry::", "hash_map::entry::", "vector_map::entry::")),
}


def implied(pid, tag, fn, root):
    tags, r, f = IMPLIED.get(pid, ((), None, None))
    if tag not in tags or not root[:1].strip() or root.startswith(("drop of", "construction", "move by", "release", "exchange")):
        return False
    return (r is None or head(root).startswith(r)) and (f is None or head(str(fn)).startswith(f))


def engine(pid, tier, tags=None, scope=None, least=60, res=None):
    tags = tags or (pid,)
    F = facts.load()
    res = res or report.Result()
    ids = [r["id"] for r in runner.roots_of(F) if (scope or in_scope)(r)]
    out = runner.run(F, ids)
    rr = {r["id"]: r for r in F.roots + runner.drop_roots(F) + runner.ctor_roots(F)}
    und = []
    for rid, status, why, n, fs, notes, stat, dt in sorted(out):
        res.count("entry_points")
        res.count("entry_points_" + {"ok": "decided"}.get(status, status))
        if status not in ("ok", "instances"):
            und.append("%s %s: %s" % (status, rr[rid]["path"], why[:160]))
        if status not in ("ok", "instances", "undecided"):
            continue
        res.count("exits", n)
        for k in ("steps", "loops", "states"):
            res.count(k, stat.get(k, 0))
        o = stat.get("ob:" + pid, 0)
        res.oblig(True, o)
        for k, v in notes.items():
            if k.startswith("unproved obligation " + pid):
                res.oblig(False, v)
                res.notes.append("%s: %s" % (rr[rid]["path"], k))
        if len(res.samples) < 25 and o:
            res.sample("%s: %d paths to an exit, %d obligations of %s" % (rr[rid]["path"], n, o, pid))
        for tag, where, fn, msg, root in fs:
            if tag in tags or implied(pid, tag, fn, root) and ("C05", where, fn, msg, root) not in fs:
                res.add("%s:%s:%s" % (tag, norm(fn), msg), where, tag, "%s (reached from %s)" % (msg, norm(root)))
    res.notes += und
    res.floor("entry_points", least, pid)
    res.assumptions += [
        "arguments satisfy the representation invariant of their type; element, allocator and functor types are arbitrary",
        "entry points listed under notes as undecided or skipped are not covered",
        "element size at least 1; counters stay below their type's maximum",
    ]
    return res


def norm(p):
    return re.sub(r"\s+", " ", str(p))


def _mk(pid):
    def f(tier):
        return engine(pid, tier)
    return f


for _p in ("C01", "C02", "C03", "C04", "C05", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C20", "C23", "C24", "C25", "C30", "C31"):
    globals()[_p.lower()] = _mk(_p)


def c33(tier):
    def scope(r):
        p = r["path"].lstrip("<")
        return p.startswith("internal::rb_tree::iter::") or r["name"] in ("iter", "iter_mut") and p.startswith(("internal::rb_tree::", "map::", "set::"))
    # a step of the iterator that reads what is no node is no traversal either
    return engine("C33", tier, ("C33", "C04", "C12", "C14"), scope, 6)


def c34(tier):
    def scope(r):
        return r["pub"] and r["name"].startswith(("into_compat", "from_compat"))
    # a position that designates no element, or none of its subarray, is not the one C++ has
    return engine("C34", tier, ("C34", "C04", "C12", "C14", "C17"), scope, 10)
