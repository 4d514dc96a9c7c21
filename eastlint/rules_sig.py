"""C06 (no aliasing / dangling references through safe API), C07 (keys immutable), C08 (Send/Sync)."""
from . import facts, sigs
from .sigs import walk, children, show, subst, unify, PHANTOM
from .report import Result

ITER_TRAITS = ("std::iter::Iterator", "std::iter::DoubleEndedIterator", "std::iter::ExactSizeIterator", "std::iter::FusedIterator",
               "core::iter::Iterator")


# ------------------------------------------------------------------ shared helpers
def occ(S, t, mut=False, out=None):
    """occurrences of client-visible loans in a type: [(region, is_mut, pointee type, holder)]"""
    if out is None:
        out = []
    k = t.get("k")
    if k == "ref":
        out.append((t["r"], t["mut"], t["t"], "ref"))
        occ(S, t["t"], mut, out)
    elif k == "adt":
        if t["path"] == PHANTOM:
            return out
        if t["local"] and t["path"] in S.adts:
            lts = S.lifetimes(t["path"])
            regs = [a["r"] for a in t["args"] if a.get("k") == "re"]
            if not S.is_owner(t["path"]):
                for l, r in zip(lts, regs):
                    out.append((r, t["path"] in S.mutviews, t, "view"))
            for a in t["args"]:
                if a.get("k") not in ("re", "const", "other"):
                    occ_args(S, a, out)
        else:
            for a in children(t):
                occ(S, a, mut, out)
    elif k == "ptr":
        return out
    elif k == "alias":
        if t.get("kind") == "OpaqueTy":
            for b in t.get("bounds", []):
                if b.get("term"):
                    occ(S, b["term"], mut, out)
                if b.get("k") == "trait" and b["path"].split("::")[-1] in ("Fn", "FnMut", "FnOnce"):
                    continue
    elif k == "dyn":
        out.append((t["r"], True, t, "dyn"))
    else:
        for c in children(t):
            occ(S, c, mut, out)
    return out


def occ_args(S, t, out):
    """loans nested in type arguments of a local type (e.g. an entry parameterised by a reference)"""
    occ(S, t, False, out)


def compute_mutviews(S):
    """Views (lifetime-carrying, non-owning types) that give access to &mut contents."""
    mv = set()
    S.mutviews = mv
    changed = True

    def has_mut(t):
        for x in walk(t):
            if x.get("k") == "ref" and x["mut"]:
                return True
            if x.get("k") == "adt" and x["path"] in mv:
                return True
        return False
    while changed:
        changed = False
        for p, a in S.adts.items():
            if p in mv or not S.is_view(p) or p not in S.obtainable:
                continue
            m = False
            for im, item in S.iter_items.get(p, []):
                if has_mut(item):
                    m = True
            for v in a["variants"]:
                for fl in v["fields"]:
                    t = fl["ty"]
                    if t.get("k") == "adt" and t["path"] == PHANTOM:
                        continue
                    if has_mut_field(S, t, mv):
                        m = True
            for f in S.fns:
                im = f.get("impl") or {}
                st = im.get("self") or {}
                if st.get("k") == "adt" and st.get("path") == p and f["has_self"] and not f["unsafe"] and f["reachable"] and has_mut(f["output"]):
                    if not any(has_mut(i) and i is not f["inputs"][0] for i in f["inputs"][1:]):
                        m = True
            if m:
                mv.add(p)
                changed = True
    return mv


def has_mut_field(S, t, mv):
    k = t.get("k")
    if k == "ref":
        return t["mut"] or has_mut_field(S, t["t"], mv)
    if k == "ptr":
        return False
    if k == "adt":
        if t["path"] in mv:
            return True
        if t["local"] and t["path"] in S.adts:
            return False
        if t["path"] == PHANTOM:
            return False
    return any(has_mut_field(S, c, mv) for c in children(t))


def recv_ref(t):
    """&'r [mut] X  -> (region, mut, X); also Pin<&mut X>"""
    if t.get("k") == "adt" and t["path"].endswith("pin::Pin") and t["args"]:
        t = t["args"][0]
    if t.get("k") == "ref":
        return t["r"], t["mut"], t["t"]
    return None


def outlives(f, a, b):
    """'a: 'b declared (directly or transitively)"""
    if a == b:
        return True
    seen, todo = {a}, [a]
    while todo:
        x = todo.pop()
        for p in f["preds"]:
            if p["k"] == "re_outlives" and p["a"] == x and p["b"] not in seen:
                if p["b"] == b:
                    return True
                seen.add(p["b"])
                todo.append(p["b"])
    return False


def fkey(f):
    return f["path"]


# ------------------------------------------------------------------ C06
def c06(tier):
    res = Result()
    for cfg in ("release", "nightly"):
        _c06(facts.load(cfg), res, cfg)
    res.floor("safe_functions_checked", 200, "C06")
    res.floor("loan_outputs_checked", 60, "C06")
    res.floor("mutable_views", 4, "C06")
    res.assumptions.append("bodies are assumed to return references into the borrowed container itself; the rule constrains which programs type-check")
    return res


def _c06(F, res, cfg):
    S = sigs.Sigs(F)
    mv = compute_mutviews(S)
    res.count("mutable_views", len(mv))
    for p in sorted(mv):
        a = S.adts[p]
        res.count("mutable_view_duplication_checks")
        for q in a["solver"]:
            if q["trait"] in ("Clone", "Copy"):
                res.oblig(not q["all"])
                if q["all"]:
                    res.add("R3:%s:Clone" % p, a["span"], "C06.R3 mutable views are not duplicable", "mutable view %s implements %s: two copies alias the same elements mutably" % (p, q["trait"]))
        # R4 variance
        exposed = set()
        for im, item in S.iter_items.get(p, []):
            m = {}
            unify(im["self"], self_ty(a), m)
            for x in walk(subst(item, m)):
                if x.get("k") == "ref" and x["mut"]:
                    exposed |= {y["name"] for y in walk(x["t"]) if y.get("k") == "param"}
        for v in a["variants"]:
            for fl in v["fields"]:
                if fl["ty"].get("k") == "ref" and fl["ty"]["mut"]:
                    exposed |= {y["name"] for y in walk(fl["ty"]["t"]) if y.get("k") == "param"}
        for g, var in zip(a["generics"], a["variances"]):
            if g["kind"] == "ty" and g["name"] in exposed:
                res.count("variance_checks")
                res.oblig(var == "o")
                if var != "o":
                    res.add("R4:%s:%s" % (p, g["name"]), a["span"], "C06.R4 invariance under &mut", "mutable view %s is not invariant in %s (variance %s): a short-lived value can be written through it" % (p, g["name"], var))
    for p in sorted(S.obtainable):
        a = S.adts[p]
        if not S.is_view(p):
            continue
        for g, var in zip(a["generics"], a["variances"]):
            res.count("variance_checks")
            bad = var in ("-", "*") if g["kind"] == "lt" else False
            res.oblig(not bad)
            if bad:
                res.add("R4:%s:%s" % (p, g["name"]), a["span"], "C06.R4 lifetime variance", "view %s can have its lifetime %s enlarged (variance %s)" % (p, g["name"], var))
    # R5 iterator items
    for p, lst in sorted(S.iter_items.items()):
        if p not in S.obtainable:
            continue
        for im, item in lst:
            res.count("iterator_items_checked")
            selfregs = {x["r"] for x in im["self"]["args"] if x.get("k") == "re"}
            for (r, m, pt, how) in occ(S, item):
                ok = r in selfregs and not S.is_owner(p)
                res.oblig(ok)
                if not ok:
                    res.add("R5:%s" % p, im["span"], "C06.R5 item lifetime", "iterator %s yields a loan of lifetime %s that is not bounded by the borrow it was made from" % (p, r))
    # R10 lifetime-less handles
    for p in sorted(S.obtainable):
        a = S.adts[p]
        if S.is_owner(p) or S.lifetimes(p) or a["kind"] == "enum":
            continue
        if not flat_has_ptr(S, p):
            continue
        from_owner = [f for f in S.fns if S.safe_callable(f) and any((recv_ref(i) and recv_ref(i)[2].get("k") == "adt" and S.is_owner(recv_ref(i)[2]["path"])) for i in f["inputs"]) and any(x.get("k") == "adt" and x["path"] == p for x in S._values(f["output"]))]
        if not from_owner:
            continue
        yields = [f for f in S.fns if S.safe_callable(f) and (f.get("impl") or {}).get("self", {}).get("path") == p and f["has_self"] and any(x.get("k") in ("ref", "param") for x in walk(f["output"]))]
        res.oblig(not yields)
        if yields:
            res.add("R10:%s" % p, a["span"], "C06.R10 handle without a lifetime", "%s carries raw pointers into a container but no lifetime; %s returns it and %s reads through it" % (p, from_owner[0]["path"], yields[0]["path"]))
    # R1/R2 signatures
    for f in S.fns:
        if not S.safe_callable(f):
            continue
        res.count("safe_functions_checked")
        check_sig(S, f, res, cfg)


def flat_has_ptr(S, p, seen=None):
    seen = seen or set()
    if p in seen or p not in S.adts:
        return False
    seen.add(p)
    for v in S.adts[p]["variants"]:
        for fl in v["fields"]:
            for x in walk(fl["ty"]):
                if x.get("k") == "ptr":
                    return True
                if x.get("k") == "adt" and x["local"] and flat_has_ptr(S, x["path"], seen):
                    return True
    return False


def self_ty(a):
    args = []
    for g in a["generics"]:
        if g["kind"] == "lt":
            args.append({"k": "re", "r": g["name"]})
        elif g["kind"] == "ty":
            args.append({"k": "param", "name": g["name"], "s": g["name"]})
        else:
            args.append({"k": "const", "s": g["name"]})
    return {"k": "adt", "path": a["path"], "local": True, "args": args, "s": a["path"]}


def check_sig(S, f, res, cfg):
    im = f.get("impl") or {}
    is_iter_fn = im.get("trait") in ITER_TRAITS or (im.get("trait") or "").split("::")[-1] in ("Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator")
    # sources of loans
    src = []  # (region, gives_mut, kind, pointee)
    owner_ref = False
    for i, t in enumerate(f["inputs"]):
        rr = recv_ref(t)
        if rr:
            r, m, x = rr
            if x.get("k") == "adt" and S.is_owner(x["path"]):
                src.append((r, m, "owner", x))
                owner_ref = True
                # loans stored inside an owner are not the owner's elements
            elif x.get("k") == "adt" and x["path"] in S.adts and S.is_view(x["path"]):
                src.append((r, m, "view", x))
                regs = [a["r"] for a in x["args"] if a.get("k") == "re"]
                for q in regs:
                    if x["path"] not in S.mutviews:
                        src.append((q, False, "shared-view", x))
                    elif is_iter_fn and m:
                        src.append((q, True, "iterator", x))
            else:
                src.append((r, m, "other", x))
                for (q, m2, pt, how) in occ(S, x):
                    src.append((q, m and m2, "other", pt))
        else:
            for (q, m2, pt, how) in occ(S, t):
                if how == "ref" and pt.get("k") == "adt" and S.is_owner(pt["path"]):
                    src.append((q, m2, "owner", pt))
                elif how == "view":
                    src.append((q, m2, "view-by-value", pt))
                else:
                    src.append((q, m2, "other", pt))
    containerish = [s for s in src if s[2] != "other"]
    owner_by_value = [t for t in f["inputs"] if t.get("k") == "adt" and S.is_owner(t["path"])]
    for (r, m, pt, how) in occ(S, f["output"]):
        if r.startswith("bound:"):
            continue
        res.count("loan_outputs_checked")
        cands = [s for s in src if outlives(f, s[0], r)]
        good = [s for s in cands if s[2] != "other"] or [s for s in cands if not containerish or show(s[3]) == show(pt)]
        what = "%s%s" % ("mutable " if m else "", "reference" if how == "ref" else "view " + show(pt))
        if r == "'static" and not containerish and not owner_by_value:
            res.oblig()
            continue
        if not good:
            if owner_by_value and not containerish and any(r in [a["r"] for a in t["args"] if a.get("k") == "re"] for t in owner_by_value) and how == "view":
                pass
            if r == "'static" and how == "ref" and show(pt) in ("str",) and not any(x.get("k") == "param" for x in walk(pt)) and im.get("self", {}).get("path", "").find("String") < 0:
                res.oblig()
                continue
            if not src and not owner_by_value:
                # no loans in: e.g. constructors returning a view over nothing; unbounded lifetime
                if how == "view" and empty_ctor(f):
                    res.oblig()
                    continue
            res.oblig(False)
            res.add("R1:%s" % fkey(f), f["span"], "C06.R1 loan tied to the borrow", "%s returns a %s of lifetime %s which is not the borrow of the container it points into: it can outlive the container" % (f["path"], what, r))
            continue
        res.oblig()
        if m and how != "dyn":
            if not any(s[1] for s in good):
                # by-value mutable views already handled; shared source cannot give &mut
                res.oblig(False)
                res.add("R2:%s" % fkey(f), f["span"], "C06.R2 exclusive access for &mut", "%s hands out a %s in exchange for a shared borrow (%s)" % (f["path"], what, ", ".join(sorted({show(s[3]) for s in good}))))
            else:
                res.oblig()
        res.sample("%s: %s bound to %s" % (f["path"], what, sorted({s[2] for s in good})))
    # closures given &mut access
    for name, args in S.fn_bounds(f):
        for t in args:
            for x in walk(t):
                if (x.get("k") == "ref" and x["mut"]) or (x.get("k") == "adt" and x["path"] in S.mutviews):
                    res.count("closure_loans_checked")
                    ok = any(s[1] for s in containerish) or bool(owner_by_value) or not containerish or any(t2.get("k") == "adt" for t2 in f["inputs"])
                    res.oblig(ok)
                    if not ok:
                        res.add("R2:%s" % fkey(f), f["span"], "C06.R2 exclusive access for &mut", "%s lends &mut contents to a closure while only holding a shared borrow" % f["path"])


def empty_ctor(f):
    return f["name"] in ("default", "new", "empty")


# ------------------------------------------------------------------ C07
def key_params(a):
    out = set()
    for p in a["preds"]:
        if p["k"] != "trait":
            continue
        nm = p["path"].split("::")[-1]
        if nm in ("PartialEq", "Eq", "Ord", "PartialOrd") and p["args"][0].get("k") == "param":
            out.add(p["args"][0]["name"])
        if nm in ("Hash", "Equals", "Compare") and len(p["args"]) > 1 and p["args"][1].get("k") == "param":
            out.add(p["args"][1]["name"])
    for g in a["generics"]:
        if g["kind"] == "ty" and g["name"] == "K":
            out.add("K")
    return out


class Exposure:
    """least fixpoint: what mutable access do types give away through safe API?
       behind_mut(ADT): params P such that holding `&mut ADT` yields `&mut P`
       held(ADT): params P such that holding an ADT value (a view) yields `&mut P` into the container"""

    def __init__(self, S):
        self.S = S
        self.bm = {p: set() for p in S.adts}
        self.held = {p: set() for p in S.adts}
        self.why = {}
        self.methods = {}
        for f in S.fns:
            if f["unsafe"] or not f["reachable"]:
                continue
            st = (f.get("impl") or {}).get("self") or {}
            if st.get("k") == "adt" and st["path"] in S.adts:
                self.methods.setdefault(st["path"], []).append(f)
        changed = True
        while changed:
            changed = False
            for p, a in S.adts.items():
                if p not in S.obtainable:
                    continue
                for prm, kind, why in self._step(p, a):
                    tgt = self.bm if kind == "bm" else self.held
                    if prm not in tgt[p]:
                        tgt[p].add(prm)
                        self.why[(p, prm, kind)] = why
                        changed = True

    def mut_exposed(self, t, under_mut=False):
        """parameter names P for which a holder of t can get &mut P (into a container)"""
        k = t.get("k")
        if k == "ref":
            if t["mut"]:
                return self.direct(t["t"])
            return self.mut_exposed(t["t"]) & set()  # behind a shared reference nothing mutable
        if k == "ptr":
            return set()
        if k == "adt":
            if t["path"] == PHANTOM:
                return set()
            if t["local"] and t["path"] in self.S.adts:
                out = set()
                a = self.S.adts[t["path"]]
                names = [g["name"] for g in a["generics"]]
                for g, arg in zip(names, t["args"]):
                    if g in self.held[t["path"]]:
                        out |= self.direct(arg) if arg.get("k") not in ("re", "const", "other") else set()
                return out
            out = set()
            for c in children(t):
                out |= self.mut_exposed(c)
            return out
        if k == "alias":
            out = set()
            for b in t.get("bounds", []):
                if b.get("term"):
                    out |= self.mut_exposed(b["term"])
            return out
        out = set()
        for c in children(t):
            out |= self.mut_exposed(c)
        return out

    def direct(self, t):
        """params P such that `&mut t` yields `&mut P`"""
        k = t.get("k")
        if k == "param":
            return {t["name"]}
        if k == "adt":
            if t["path"] == PHANTOM:
                return set()
            if t["local"] and t["path"] in self.S.adts:
                out = set()
                a = self.S.adts[t["path"]]
                for g, arg in zip([g["name"] for g in a["generics"]], t["args"]):
                    if arg.get("k") in ("re", "const", "other"):
                        continue
                    if g in self.bm[t["path"]]:
                        out |= self.direct(arg)
                    if g in self.held[t["path"]]:
                        out |= self.direct(arg)
                return out
            out = set()
            for c in children(t):
                out |= self.direct(c)
            return out
        if k == "ref":
            return self.direct(t["t"]) if t["mut"] else set()
        if k in ("ptr", "fnptr", "alias", "dyn"):
            return set()
        out = set()
        for c in children(t):
            out |= self.direct(c)
        return out

    def _step(self, p, a):
        S = self.S
        owner = S.is_owner(p)
        st0 = self_ty(a)
        for f in self.methods.get(p, []):
            if not f["has_self"] or not f["inputs"]:
                continue
            m = {}
            if not unify(f["impl"]["self"], st0, m):
                continue
            recv = f["inputs"][0]
            outs = [(f["output"], f["path"])]
            for nm, args in S.fn_bounds(f):
                outs += [(x, f["path"] + " (closure argument)") for x in args]
            for t, why in outs:
                for prm in self.mut_exposed(subst(t, m)):
                    rr = recv_ref(recv)
                    if rr is not None and rr[1]:
                        yield prm, "bm", why
                        if not owner:
                            yield prm, "held", why
                    elif not owner:
                        yield prm, "held", why
                    else:
                        yield prm, "bm", why
        for im, item in S.iter_items.get(p, []):
            m = {}
            if unify(im["self"], st0, m):
                for prm in self.mut_exposed(subst(item, m)):
                    if not owner:
                        yield prm, "held", "Iterator::Item of " + p
        for v in a["variants"]:
            for fl in v["fields"]:
                if fl["pub"] or a["kind"] == "enum":
                    for prm in self.direct(fl["ty"]):
                        yield prm, "bm", "public field %s.%s" % (p, fl["name"])
                    for prm in self.mut_exposed(fl["ty"]):
                        if not owner:
                            yield prm, "held", "public field %s.%s" % (p, fl["name"])


def c07(tier):
    res = Result()
    for cfg in ("release", "nightly"):
        F = facts.load(cfg)
        S = sigs.Sigs(F)
        compute_mutviews(S)
        E = Exposure(S)
        # positive control: vectors do expose their elements, so the rule can see mutable access
        for must in [p for p in S.adts if p.split("::")[-1] == "Vector"]:
            if E.bm[must]:
                res.count("positive_controls")
        for p, a in sorted(S.adts.items()):
            ks = key_params(a)
            if not ks or p not in S.obtainable:
                continue
            res.count("keyed_types")
            for k in sorted(ks):
                for kind, tab in (("bm", E.bm), ("held", E.held)):
                    bad = k in tab[p]
                    res.oblig(not bad)
                    if bad:
                        why = E.why.get((p, k, kind), "?")
                        f = next((f for f in S.fns if f["path"] == why.split(" (")[0]), None)
                        res.add("key:%s:%s:%s" % (p, k, why), f["span"] if f else a["span"], "C07 keys are read-only", "safe API of %s gives mutable access to the stored key %s through %s" % (p, k, why))
            res.count("keyed_api_functions", len(E.methods.get(p, [])))
            res.sample("%s key parameters %s, %d safe methods examined" % (p, sorted(ks), len(E.methods.get(p, []))))
        # free functions / functions whose self is not a keyed type but whose signature mentions one by &mut handled by the fixpoint
    res.floor("keyed_types", 12, "C07")
    res.floor("keyed_api_functions", 60, "C07")
    res.floor("positive_controls", 1, "C07")
    res.assumptions.append("interior mutability inside the key type itself is out of scope, as in std")
    return res


# ------------------------------------------------------------------ C08
def held_params(S, p, seen=None):
    """param -> 'own' | 'mut' | 'shared' | 'phantom' (strongest way the type holds it)"""
    seen = seen or {}
    if p in seen:
        return seen[p]
    seen[p] = {}
    a = S.adts[p]
    rank = {"phantom": 0, "shared": 1, "mut": 2, "own": 3}
    out = {}
    hasptr = flat_has_ptr(S, p)
    functor = set()
    for pr in a["preds"]:
        if pr["k"] == "trait" and pr["path"].split("::")[-1] in ("Hash", "Equals", "Compare") and pr["args"][0].get("k") == "param":
            functor.add(pr["args"][0]["name"])

    def put(n, h):
        if n not in out or rank[out[n]] < rank[h]:
            out[n] = h

    def go(t, how, ph):
        k = t.get("k")
        if k == "param":
            put(t["name"], "phantom" if (ph and (t["name"] in functor or not hasptr)) else how)
        elif k == "ref":
            go(t["t"], "shared" if not t["mut"] else ("mut" if how != "shared" else how), ph)
        elif k == "ptr":
            go(t["t"], how, ph)
        elif k == "adt":
            if t["path"] == PHANTOM:
                for c in children(t):
                    go(c, how, True)
            elif t["local"] and t["path"] in S.adts:
                sub = held_params(S, t["path"], seen)
                for g, arg in zip(S.adts[t["path"]]["generics"], t["args"]):
                    if arg.get("k") in ("re", "const", "other"):
                        continue
                    h = sub.get(g["name"])
                    if h is None:
                        continue
                    if h == "phantom":
                        go(arg, how, True)
                    else:
                        go(arg, how if rank[how] <= rank[h] else h, ph)
            else:
                for c in children(t):
                    go(c, how, ph)
        else:
            for c in children(t):
                go(c, how, ph)
    for v in a["variants"]:
        for fl in v["fields"]:
            go(fl["ty"], "own", False)
    seen[p] = out
    return out


def c08(tier):
    res = Result()
    for cfg in ("release", "nightly"):
        F = facts.load(cfg)
        S = sigs.Sigs(F)
        compute_mutviews(S)
        explicit = {}
        for im in F.impls:
            if im["trait"] and im["trait"].split("::")[-1] in ("Send", "Sync") and im["self"].get("k") == "adt" and im.get("polarity", "").find("Neg") < 0:
                explicit.setdefault(im["self"]["path"], []).append(im)
                res.count("explicit_unsafe_impls")
        for p, a in sorted(S.adts.items()):
            tps = [g["name"] for g in a["generics"] if g["kind"] == "ty"]
            held = held_params(S, p)
            shared_view = S.is_view(p) and p not in S.mutviews
            for q in a["solver"]:
                if q["trait"] not in ("Send", "Sync"):
                    continue
                for prm in tps:
                    h = held.get(prm)
                    if h is None or h == "phantom":
                        continue
                    if q["trait"] == "Send":
                        need = "Sync" if (h == "shared" or (shared_view and flat_has_ptr(S, p) and h == "shared")) else "Send"
                    else:
                        need = "Sync"
                    w = next(x for x in q["without"] if x["param"] == prm and x["lacks"] == need)
                    res.count("solver_queries")
                    res.oblig(not w["holds"])
                    if w["holds"]:
                        im = next((i for i in explicit.get(p, []) if i["trait"].endswith(q["trait"])), None)
                        res.add("%s:%s:%s:%s" % (q["trait"], p, prm, need), im["span"] if im else a["span"], "C08 auto-trait bounds",
                                "%s is %s although its %s parameter %s is not %s" % (p, q["trait"], {"own": "owned", "mut": "mutably borrowed", "shared": "borrowed"}[h], prm, need))
                    else:
                        res.sample("%s: %s requires %s: %s" % (p, q["trait"], prm, need))
            # types without held parameters that are unconditionally Send while holding raw pointers, via explicit impl
            res.count("types_checked")
    res.floor("types_checked", 60, "C08")
    res.floor("solver_queries", 150, "C08")
    return res
