"""C19 (no contents-proportional recursion), C26 (no dereference of caller-chosen raw pointers in safe API)."""
from . import facts, sigs
from .mir import Mir, succs, norm_path
from .report import Result
from .rules_sig import compute_mutviews


# ------------------------------------------------------------------ C19
def call_edges(M, inst):
    """(callee inst id, block, kind, term)"""
    b = inst.get("body")
    if not b:
        return
    for bi, (stmts, term, clean) in enumerate(b["blocks"]):
        if not term:
            continue
        if term[0] == "call":
            fn = term[1].get("fn")
            if fn and isinstance(fn.get("inst"), int):
                yield fn["inst"], bi, "call", term
            if fn and fn.get("rpath", fn["path"]).endswith("drop_in_place"):
                for t in fn.get("targs", []):
                    if isinstance(t, int):
                        yield from ((d, bi, "drop", term) for d in drop_targets(M, t))
            # function items / closures handed to other code
            for at in term[7]:
                yield from ((c, bi, "passes", term) for c in callable_targets(M, at))
        if term[0] == "drop":
            yield from ((d, bi, "drop", term) for d in drop_targets(M, term[2]))


def callable_targets(M, tid, depth=0):
    t = M.types[tid]
    if depth > 4:
        return
    if t["k"] == "closure" and isinstance(t.get("inst"), int):
        yield t["inst"]
    if t["k"] == "fndef" and isinstance(t.get("callee", {}).get("inst"), int):
        yield t["callee"]["inst"]
    if t["k"] in ("ref", "ptr"):
        yield from callable_targets(M, t["t"], depth + 1)
    if t["k"] == "adt":
        for a in t["args"]:
            if isinstance(a, int):
                yield from callable_targets(M, a, depth + 1)


def drop_targets(M, tid, seen=None):
    """Drop impls run by dropping a value of this type"""
    seen = seen if seen is not None else set()
    if tid in seen:
        return
    seen.add(tid)
    t = M.types[tid]
    if isinstance(t.get("drop"), int):
        yield t["drop"]
    k = t["k"]
    if k == "adt":
        if t.get("phantom") or t["path"].endswith(("MaybeUninit", "ManuallyDrop")):
            return
        for v in t.get("variants") or []:
            for f in v["fields"]:
                yield from drop_targets(M, f[1], seen)
        if not t["local"]:
            for a in t["args"]:
                if isinstance(a, int):
                    yield from drop_targets(M, a, seen)
    elif k in ("array", "slice"):
        yield from drop_targets(M, t["t"], seen)
    elif k == "tuple":
        for x in t["ts"]:
            yield from drop_targets(M, x, seen)
    elif k == "closure":
        for x in t["upvars"]:
            yield from drop_targets(M, x, seen)


def sccs(nodes, edges):
    idx, low, onst, st, out, n = {}, {}, set(), [], [], [0]
    import sys
    sys.setrecursionlimit(10000)

    def go(v):
        idx[v] = low[v] = n[0]
        n[0] += 1
        st.append(v)
        onst.add(v)
        for w in edges.get(v, ()):
            if w not in idx:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in onst:
                low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            c = []
            while True:
                w = st.pop()
                onst.discard(w)
                c.append(w)
                if w == v:
                    break
            out.append(c)
    for v in nodes:
        if v not in idx:
            go(v)
    return out


def tree_nodes(F, S):
    """types with two or more owning child links, held by a comparator-ordered tree"""
    out = set()
    for p, a in F.adts.items():
        if not any(pr["k"] == "trait" and pr["path"].split("::")[-1] == "Compare" for pr in a["preds"]):
            continue
        for v in a["variants"]:
            for fl in v["fields"]:
                t = fl["ty"]
                if t.get("k") == "ptr" and t["t"].get("k") == "adt" and t["t"]["local"]:
                    q = t["t"]["path"]
                    n = F.adts.get(q)
                    kids = [f["name"] for vv in n["variants"] for f in vv["fields"] if f["ty"].get("k") == "ptr" and f["ty"]["t"].get("path") == q]
                    if len(kids) >= 2:
                        out.add(q)
    return out


def loops(body):
    """does the CFG contain a cycle?"""
    n = len(body["blocks"])
    color = [0] * n

    def go(v):
        color[v] = 1
        for w in succs2(body["blocks"][v][1]):
            if color[w] == 1:
                return True
            if color[w] == 0 and go(w):
                return True
        color[v] = 2
        return False
    return go(0)


def succs2(term):
    k = term[0]
    if k == "goto":
        return [term[1]]
    if k == "switch":
        return [b for _, b in term[2]] + ([term[3]] if isinstance(term[3], int) else [])
    if k == "drop":
        return [term[3]]
    if k == "call":
        return [term[4]] if isinstance(term[4], int) else []
    if k == "assert":
        return [term[4]]
    return []


def one_child_step(M, inst, term, nodes, seen=frozenset()):
    """does a (recursive) call's node argument derive from a child link by a bounded number of field reads?"""
    b = inst["body"]
    todo, done, ok = [], set(), False
    for op in term[2]:
        if op[0] in ("copy", "move"):
            todo.append(op[1][0])
    fields = set()
    while todo:
        l = todo.pop()
        if l in done:
            continue
        done.add(l)
        for stmts, t, clean in b["blocks"]:
            for s in stmts:
                if s[0] == "=" and s[1][0] == l:
                    for pl in rv_places(s[2]):
                        fields |= child_fields(M, b, pl, nodes)
                        todo.append(pl[0])
            if t and t[0] == "call" and t[3][0] == l:
                fn = t[1].get("fn")
                if fn and isinstance(fn.get("inst"), int) and fn["inst"] not in seen:
                    ci = M.insts[fn["inst"]]
                    if ci.get("body"):
                        if ci["local"] and loops(ci["body"]):
                            return None
                        for st2, t2, c2 in ci["body"]["blocks"]:
                            for s in st2:
                                if s[0] == "=":
                                    for pl in rv_places(s[2]):
                                        fields |= child_fields(M, ci["body"], pl, nodes)
                for op in t[2]:
                    if op[0] in ("copy", "move"):
                        todo.append(op[1][0])
    return fields


def rv_places(rv):
    k = rv[0]
    out = []

    def op(o):
        if o[0] in ("copy", "move"):
            out.append(o[1])
    if k == "use":
        op(rv[1])
    elif k in ("ref", "raw"):
        out.append(rv[2])
    elif k == "cast":
        op(rv[2])
    elif k == "bin":
        op(rv[2])
        op(rv[3])
    elif k == "un":
        op(rv[2])
    elif k == "agg":
        for o in rv[2]:
            op(o)
    elif k == "repeat":
        op(rv[1])
    elif k == "discr":
        out.append(rv[1])
    return out


def child_fields(M, body, place, nodes):
    out = set()
    for t, pr, v in M.place_types(body, place):
        if pr and pr[0] == "f" and M.types[t]["k"] == "adt" and M.types[t]["path"] in nodes:
            ft = M.types[pr[2]]
            if ft["k"] == "ptr":
                out.add((M.types[t]["path"], pr[1]))
    return out


def c19(tier):
    res = Result()
    F = facts.load("release")
    M = Mir(F)
    S = sigs.Sigs(F)
    nodes = tree_nodes(F, S)
    edges, meta = {}, {}
    for i in F.insts:
        for c, bi, kind, term in call_edges(M, i):
            if c in M.insts:
                edges.setdefault(i["id"], set()).add(c)
                meta.setdefault((i["id"], c), []).append((bi, kind, term))
                res.count("call_edges")
        res.count("functions")
    for comp in sccs([i["id"] for i in F.insts], edges):
        rec = len(comp) > 1 or comp[0] in edges.get(comp[0], ())
        if not rec:
            continue
        names = sorted({norm_path(M.insts[c]["path"]) for c in comp})
        if not any(M.insts[c]["local"] for c in comp):
            res.count("std_recursion_ignored")
            continue
        res.count("recursive_cycles")
        exempt = False
        if nodes:
            exempt = True
            for c in comp:
                for d in comp:
                    for bi, kind, term in meta.get((c, d), []):
                        if kind != "call" or d not in edges.get(c, ()):
                            continue
                        fs = one_child_step(M, M.insts[c], term, nodes)
                        if len(comp) == 1 and not fs:
                            exempt = False
            if len(comp) > 1 and not all(any(one_child_step(M, M.insts[c], t, nodes) for d in comp for (_, k, t) in meta.get((c, d), [])) for c in comp if M.insts[c]["local"] and not M.insts[c]["closure"]):
                exempt = False
        res.oblig(exempt)
        if exempt:
            res.sample("height-bounded tree recursion accepted: %s (descends through child links of %s)" % (names, sorted(nodes)))
            res.count("tree_traversals_accepted")
        else:
            i = next(M.insts[c] for c in comp if M.insts[c]["local"])
            res.add("rec:" + "|".join(names), i.get("span", ["?", 0]), "C19 no contents-proportional recursion",
                    "recursive cycle %s: its depth is not bounded by a tree height, so it grows with the number of stored elements" % " -> ".join(names))
    res.floor("functions", 400, "C19")
    res.floor("call_edges", 600, "C19")
    res.oblig(True, len(F.insts))
    res.assumptions.append("recursion through user-supplied trait implementations (nested containers, element destructors) is the caller's")
    return res


# ------------------------------------------------------------------ C26
class Taint:
    def __init__(self, F, S):
        self.F, self.S, self.M = F, S, Mir(F)
        self.memo = {}
        self.bundles = self._bundles()
        self.deref_fields = {}
        self._field_uses()

    def _bundles(self):
        """client-handled pointer bundles: interchange structs of raw pointers without behaviour of their own"""
        S, out = self.S, set()
        impls = {}
        for im in self.F.impls:
            if im["self"].get("k") == "adt" and im["trait"]:
                impls.setdefault(im["self"]["path"], set()).add(im["trait"].split("::")[-1])
        for p, a in S.adts.items():
            if a["kind"] != "struct" or S.is_owner(p) or a["has_dtor"] or not a["repr_c"]:
                continue
            if impls.get(p, set()) & {"Iterator", "Allocator", "DoubleEndedIterator", "Deref"}:
                continue
            if p not in S.obtainable:
                continue
            fs = [f["ty"] for v in a["variants"] for f in v["fields"] if f["ty"].get("path") != sigs.PHANTOM]
            if fs and all(f.get("k") == "ptr" for f in fs):
                out.add(p)
        return out

    def tainty(self, tid, depth=0):
        """types whose values can be or carry caller-chosen pointers"""
        t = self.M.types[tid]
        if depth > 6:
            return False
        k = t["k"]
        if k == "ptr":
            return True
        if k in ("ref", "slice", "array"):
            return self.tainty(t["t"], depth + 1)
        if k == "tuple":
            return any(self.tainty(x, depth + 1) for x in t["ts"])
        if k == "adt":
            if t.get("phantom"):
                return False
            if t["local"]:
                return t["path"] in self.bundles
            return any(self.tainty(x, depth + 1) for x in t["args"] if isinstance(x, int))
        return False

    def carries(self, tid, depth=0):
        """types a tainted pointer can be stored in"""
        t = self.M.types[tid]
        if depth > 8:
            return False
        k = t["k"]
        if k == "ptr":
            return True
        if k in ("ref", "slice", "array"):
            return self.carries(t["t"], depth + 1)
        if k == "tuple":
            return any(self.carries(x, depth + 1) for x in t["ts"])
        if k == "closure":
            return any(self.carries(x, depth + 1) for x in t["upvars"])
        if k == "adt":
            if t.get("phantom"):
                return False
            if t["path"].endswith("NonNull"):
                return True
            for v in t.get("variants") or []:
                for f in v["fields"]:
                    if self.carries(f[1], depth + 1):
                        return True
            if not t["local"]:
                return any(self.carries(x, depth + 1) for x in t["args"] if isinstance(x, int))
        return False

    def _field_uses(self):
        """fields of raw-pointer type whose loaded value some function dereferences"""
        for i in self.F.insts:
            b = i.get("body")
            if not b or not i["local"]:
                continue
            for f, tid in self._fields_loaded(b):
                pass
        # flow-insensitive: per body, locals that hold a loaded field value
        for i in self.F.insts:
            b = i.get("body")
            if not b or not i["local"]:
                continue
            src = {}
            changed = True
            while changed:
                changed = False
                for stmts, t, c in b["blocks"]:
                    for s in stmts:
                        if s[0] != "=":
                            continue
                        o = set()
                        for pl in rv_places(s[2]):
                            if s[2][0] == "bin" and s[2][1] not in ("Offset",):
                                continue
                            o |= src.get(pl[0], set()) if not pl[1:] or True else set()
                            for tt, pr, v in self.M.place_types(b, pl):
                                if pr and pr != "*" and pr[0] == "f" and self.M.types[tt]["k"] == "adt" and self.M.types[tt].get("local") and self.M.types[pr[2]]["k"] == "ptr":
                                    o.add((self.M.types[tt]["path"], pr[1]))
                        if o and self.carries(b["locals"][s[1][0]]) and not o <= src.get(s[1][0], set()):
                            src.setdefault(s[1][0], set()).update(o)
                            changed = True
                    if t and t[0] == "call":
                        fn = t[1].get("fn") or {}
                        o = set()
                        for op in t[2]:
                            if op[0] in ("copy", "move"):
                                o |= src.get(op[1][0], set())
                        if o and norm_path(fn.get("path", "")).split("::")[-1] in ("add", "sub", "offset", "cast", "cast_const", "cast_mut", "wrapping_add", "clone", "as_ptr", "from", "into") and not o <= src.get(t[3][0], set()):
                            src.setdefault(t[3][0], set()).update(o)
                            changed = True
            for stmts, t, c in b["blocks"]:
                places = []
                for s in stmts:
                    if s[0] == "=":
                        places.append(s[1])
                        places += rv_places(s[2])
                if t and t[0] == "call":
                    for op in t[2]:
                        if op[0] in ("copy", "move"):
                            places.append(op[1])
                    fn = t[1].get("fn") or {}
                    if fn.get("unsafe"):
                        for op in t[2]:
                            if op[0] in ("copy", "move") and self.M.types[self.M.place_type(b, op[1])]["k"] == "ptr":
                                for key in src.get(op[1][0], ()):
                                    self.deref_fields.setdefault(key, i["path"])
                    places.append(t[3])
                if t and t[0] == "drop":
                    places.append(t[1])
                for pl in places:
                    prev_t = None
                    for tt, pr, v in self.M.place_types(b, pl):
                        if pr == "*" and self.M.types[tt]["k"] == "ptr":
                            keys = set()
                            if prev_t is not None:
                                keys.add(prev_t)
                            keys |= src.get(pl[0], set()) if prev_t is None else set()
                            for key in keys:
                                self.deref_fields.setdefault(key, i["path"])
                        if pr and pr != "*" and pr[0] == "f" and self.M.types[tt]["k"] == "adt" and self.M.types[tt].get("local"):
                            prev_t = (self.M.types[tt]["path"], pr[1])
                        elif pr == "*":
                            prev_t = None

    def _fields_loaded(self, b):
        return []

    def analyse(self, iid, tparams, depth=0):
        """-> (sinks: [(where, what)], return tainted?, tainted out-params)"""
        key = (iid, tparams)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = ([], True, frozenset())
        i = self.M.insts.get(iid)
        b = i.get("body") if i else None
        if not b or depth > 12:
            return self.memo[key]
        T = set(tparams)
        sinks, outs = {}, set()
        M = self.M
        def tainted_place(pl):
            return pl[0] in T
        changed = True
        rounds = 0
        while changed and rounds < 30:
            changed = False
            rounds += 1

            def mark(l):
                nonlocal changed
                if l not in T:
                    T.add(l)
                    changed = True

            def check_place(pl, line, what):
                if pl[0] not in T:
                    return
                first = True
                for tt, pr, v in M.place_types(b, pl):
                    if pr == "*" and M.types[tt]["k"] == "ptr":
                        sinks.setdefault((i["path"], "deref"), (i.get("span", ["?", 0])[0], line, "dereferences a raw pointer chosen by the caller"))
            for bi, (stmts, t, clean) in enumerate(b["blocks"]):
                for s in stmts:
                    if s[0] == "=":
                        line = s[3]
                        pls = rv_places(s[2])
                        addr_of = s[2][0] in ("ref", "raw")
                        for pl in pls:
                            if not addr_of or True:
                                check_place(pl, line, "read")
                        check_place(s[1], line, "write")
                        hit = any(tainted_place(pl) and self.carries(M.place_type(b, pl)) for pl in pls)
                        if s[2][0] == "bin" and s[2][1] != "Offset":
                            hit = False
                        if s[2][0] == "discr":
                            hit = False
                        if s[2][0] == "cast" and M.types[s[2][3]]["k"] not in ("ptr", "ref"):
                            hit = False
                        if hit:
                            if s[2][0] == "agg" and s[2][1][0] == "adt":
                                tt = M.types[s[2][1][1]]
                                for fi, op in enumerate(s[2][2]):
                                    if op[0] in ("copy", "move") and tainted_place(op[1]) and self.carries(M.place_type(b, op[1])):
                                        self._store(tt, fi, i, line, sinks)
                            self._store_place(b, s[1], i, line, sinks)
                            if self.carries(b["locals"][s[1][0]]):
                                mark(s[1][0])
                if not t:
                    continue
                if t[0] == "drop":
                    check_place(t[1], t[5] if len(t) > 5 else 0, "drop")
                if t[0] == "call":
                    fn = t[1].get("fn")
                    line = t[6]
                    targs = []
                    for ai, op in enumerate(t[2]):
                        if op[0] in ("copy", "move"):
                            check_place(op[1], line, "arg")
                            if tainted_place(op[1]) and self.carries(M.place_type(b, op[1])):
                                targs.append(ai)
                    if targs and fn:
                        path = norm_path(fn.get("rpath") or fn["path"])
                        if fn.get("unsafe"):
                            sinks.setdefault((i["path"], path), (i.get("span", ["?", 0])[0], line, "passes a raw pointer chosen by the caller to unsafe %s" % path))
                        elif isinstance(fn.get("inst"), int) and M.insts[fn["inst"]].get("body"):
                            sk, ret, _ = self.analyse(fn["inst"], frozenset(a + 1 for a in targs), depth + 1)
                            for k2, v2 in sk.items() if isinstance(sk, dict) else []:
                                sinks.setdefault(k2, v2)
                            if ret and self.carries(b["locals"][t[3][0]]):
                                mark(t[3][0])
                        else:
                            last = path.split("::")[-1]
                            if last not in ("is_null", "eq", "ne", "cmp", "partial_cmp", "fmt", "addr", "lt", "le", "gt", "ge") and self.carries(b["locals"][t[3][0]]):
                                mark(t[3][0])
        ret = 0 in T
        self.memo[key] = (sinks, ret, frozenset(outs))
        return self.memo[key]

    def _store(self, tt, fi, i, line, sinks):
        if tt["k"] == "adt" and tt.get("local") and tt["path"] not in self.bundles:
            key = (tt["path"], fi)
            f = tt["variants"][0]["fields"]
            if fi < len(f) and self.M.types[f[fi][1]]["k"] == "ptr" and key in self.deref_fields:
                sinks.setdefault((i["path"], "store:%s.%s" % (tt["path"], f[fi][0])),
                                 (i.get("span", ["?", 0])[0], line, "stores a raw pointer chosen by the caller in %s.%s, which %s dereferences" % (tt["path"], f[fi][0], self.deref_fields[key])))

    def _store_place(self, b, pl, i, line, sinks):
        last = None
        for tt, pr, v in self.M.place_types(b, pl):
            if pr and pr != "*" and pr[0] == "f":
                last = (self.M.types[tt], pr[1])
            elif pr is not None:
                last = None
        if last and pl[1:] and pl[-1] != "*":
            self._store(last[0], last[1], i, line, sinks)


def c26(tier):
    res = Result()
    for cfg in ("release", "nightly"):
        F = facts.load(cfg)
        S = sigs.Sigs(F)
        compute_mutviews(S)
        T = Taint(F, S)
        res.count("pointer_bundle_types", len(T.bundles))
        res.count("dereferenced_pointer_fields", len(T.deref_fields))
        roots = {r["path"]: r for r in F.roots}
        for f in S.fns:
            r = roots.get(f["path"])
            if not r:
                continue
            if not S.safe_callable(f):
                continue
            res.count("safe_functions")
            ins = r["inputs"]
            src = frozenset(i + 1 for i, t in enumerate(ins) if T.tainty(t) and not self_is_container(S, f, i))
            if not src:
                continue
            res.count("safe_functions_taking_pointers")
            sk, ret, _ = T.analyse(r["id"], src)
            res.oblig(not sk)
            res.sample("%s: raw-pointer inputs %s, %d sinks" % (f["path"], sorted(src), len(sk)))
            for (where, what), (file, line, msg) in sorted(sk.items()):
                res.add("%s -> %s:%s" % (f["path"], where, what), (file, line), "C26 caller-chosen pointers", "safe %s %s%s" % (f["path"], msg, "" if where == f["path"] else " (in %s)" % where))
        # public raw-pointer fields that safe code could overwrite
        for p, a in sorted(S.adts.items()):
            if p not in S.obtainable or p in T.bundles:
                continue
            for v in a["variants"]:
                for n, fl in enumerate(v["fields"]):
                    if fl["ty"].get("k") == "ptr" and (p, n) in T.deref_fields:
                        res.count("pointer_fields_checked")
                        res.oblig(not fl["pub"])
                        if fl["pub"]:
                            res.add("pubfield:%s.%s" % (p, fl["name"]), a["span"], "C26 pointer fields are private", "public field %s.%s can be set to any pointer by safe code and is dereferenced by %s" % (p, fl["name"], T.deref_fields[(p, n)]))
        # traits that produce pointers the library trusts
        for tr in F.raw["traits"]:
            if not tr["reachable"]:
                continue
            meths = [f for f in S.fns if (f.get("impl") or {}).get("in_trait") == tr["path"]]
            retp = [f for f in F.fns if (f.get("impl") or {}).get("in_trait") == tr["path"] and any(x.get("k") == "ptr" for x in sigs.walk(f["output"]))]
            if retp:
                res.count("pointer_producing_traits")
                res.oblig(tr["unsafe"])
                if not tr["unsafe"]:
                    res.add("trait:" + tr["path"], "-", "C26 trusted traits are unsafe", "trait %s returns raw pointers the containers write through, but implementing it is not unsafe" % tr["path"])
            for f in F.fns:
                if (f.get("impl") or {}).get("in_trait") == tr["path"] and not f["unsafe"] and f["name"].startswith(("dealloc", "free", "release")) and any(x.get("k") == "ptr" for i in f["inputs"] for x in sigs.walk(i)):
                    res.add("traitfn:" + f["path"], f["span"], "C26 releasing a pointer is unsafe", "trait method %s releases a caller-chosen pointer but is safe" % f["path"])
    res.floor("safe_functions", 250, "C26")
    res.floor("pointer_bundle_types", 2, "C26")
    res.floor("dereferenced_pointer_fields", 20, "C26")
    return res


def self_is_container(S, f, i):
    return False
