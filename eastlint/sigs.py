"""Signature model: structured types, alias resolution, 'what can a client obtain' fixpoint."""

PHANTOM = "std::marker::PhantomData"


def walk(t):
    yield t
    for c in children(t):
        yield from walk(c)


def children(t):
    k = t.get("k")
    if k in ("adt",):
        return [x for x in t["args"] if x.get("k") not in ("re", "const", "other")]
    if k in ("ref", "ptr", "slice", "array"):
        return [t["t"]]
    if k in ("tuple", "fnptr"):
        return t["ts"]
    if k == "alias":
        out = [x for x in t["args"] if x.get("k") not in ("re", "const", "other")]
        for b in t.get("bounds", []):
            out += [x for x in b.get("args", []) if x.get("k") not in ("re", "const", "other")][1:]
            if b.get("term"):
                out.append(b["term"])
        return out
    if k == "closure":
        return t.get("upvars", [])
    return []


def subst(t, m):
    """m: param/region name -> type/region"""
    k = t.get("k")
    if k == "param":
        return m.get(t["name"], t)
    if k == "re":
        return dict(t, r=m.get(t["r"], t["r"])) if isinstance(m.get(t["r"], t["r"]), str) else t
    if k == "adt":
        return dict(t, args=[subst(x, m) for x in t["args"]])
    if k == "ref":
        r = m.get(t["r"], t["r"])
        return dict(t, r=r if isinstance(r, str) else t["r"], t=subst(t["t"], m))
    if k in ("ptr", "slice", "array"):
        return dict(t, t=subst(t["t"], m))
    if k in ("tuple", "fnptr"):
        return dict(t, ts=[subst(x, m) for x in t["ts"]])
    if k == "alias":
        r = dict(t, args=[subst(x, m) for x in t["args"]])
        if "bounds" in t:
            r["bounds"] = [dict(b, args=[subst(x, m) for x in b.get("args", [])], **({"term": subst(b["term"], m)} if b.get("term") else {})) for b in t["bounds"]]
        return r
    return t


def unify(p, t, m):
    """match impl pattern p (params free) against t"""
    if p.get("k") == "param":
        if p["name"] in m:
            return show(m[p["name"]]) == show(t)
        m[p["name"]] = t
        return True
    if p.get("k") != t.get("k"):
        return False
    k = p["k"]
    if k == "re":
        m.setdefault(p["r"], t["r"])
        return True
    if k == "adt":
        return p["path"] == t["path"] and all(unify(a, b, m) for a, b in zip(p["args"], t["args"]))
    if k == "ref":
        m.setdefault(p["r"], t["r"])
        return p["mut"] == t["mut"] and unify(p["t"], t["t"], m)
    if k == "ptr":
        return p["mut"] == t["mut"] and unify(p["t"], t["t"], m)
    if k in ("slice", "array"):
        return unify(p["t"], t["t"], m)
    if k == "tuple":
        return len(p["ts"]) == len(t["ts"]) and all(unify(a, b, m) for a, b in zip(p["ts"], t["ts"]))
    return p.get("s") == t.get("s")


def show(t):
    k = t.get("k")
    if k == "param":
        return t["name"]
    if k == "adt":
        a = [show(x) for x in t["args"] if x.get("k") != "re"]
        return t["path"] + ("<%s>" % ",".join(a) if a else "")
    if k == "ref":
        return "&" + ("mut " if t["mut"] else "") + show(t["t"])
    if k == "ptr":
        return "*" + ("mut " if t["mut"] else "const ") + show(t["t"])
    if k == "slice":
        return "[%s]" % show(t["t"])
    if k == "array":
        return "[%s;%s]" % (show(t["t"]), t["n"])
    if k == "tuple":
        return "(%s)" % ",".join(show(x) for x in t["ts"])
    if k == "alias":
        return "<%s>::%s" % (show(t["args"][0]) if t["args"] else "", t["path"])
    return t.get("s", k)


class Sigs:
    def __init__(self, F):
        self.F = F
        self.adts = F.adts
        self.alloc_traits = {t["path"] for t in F.raw["traits"] if t["path"].split("::")[-1] in ("Allocator",)}
        self._mentions_alloc()
        self.fns = []
        for f in F.fns:
            g = dict(f)
            g["inputs"] = [self.norm(x, f) for x in f["inputs"]]
            g["output"] = self.norm(f["output"], f)
            self.fns.append(g)
        self.owner_cache = {}
        self.iter_items = {}
        for im in F.impls:
            if im["trait"] == "std::iter::Iterator" and im["self"].get("k") == "adt":
                for it in im["items"]:
                    if it["name"] == "Item" and "ty" in it:
                        self.iter_items.setdefault(im["self"]["path"], []).append((im, it["ty"]))
        self._obtainable()

    def _mentions_alloc(self):
        pass

    # ---- alias normalisation
    def norm(self, t, f, depth=0):
        if depth > 8:
            return t
        k = t.get("k")
        if k == "alias" and t.get("kind") == "AssocTy":
            base = self.norm(t["args"][0], f, depth + 1) if t["args"] else None
            trait, _, name = t["path"].rpartition("::")
            if base is not None:
                for im in self.F.impls:
                    if im["trait"] == trait:
                        m = {}
                        if unify(im["self"], base, m):
                            for it in im["items"]:
                                if it["name"] == name and "ty" in it:
                                    return self.norm(subst(it["ty"], m), f, depth + 1)
            return t
        if k == "adt":
            return dict(t, args=[self.norm(x, f, depth) for x in t["args"]])
        if k in ("ref", "ptr", "slice", "array"):
            return dict(t, t=self.norm(t["t"], f, depth))
        if k in ("tuple",):
            return dict(t, ts=[self.norm(x, f, depth) for x in t["ts"]])
        return t

    # ---- type classes
    def alloc_params(self, adt):
        out = set()
        for p in adt["preds"]:
            if p["k"] == "trait" and p["path"] in self.alloc_traits and p["args"] and p["args"][0].get("k") == "param":
                out.add(p["args"][0]["name"])
        return out

    def is_owner(self, path, depth=0):
        """holds an allocator value (by value, through local fields)"""
        if path in self.owner_cache:
            return self.owner_cache[path]
        self.owner_cache[path] = False
        adt = self.adts.get(path)
        if not adt:
            return False
        ap = self.alloc_params(adt)

        def holds(t):
            k = t.get("k")
            if k == "param":
                return t["name"] in ap
            if k == "adt":
                if t["path"] == PHANTOM:
                    return False
                if t["local"]:
                    return self.is_owner(t["path"])
                return any(holds(x) for x in t["args"] if x.get("k") not in ("re", "const", "other"))
            if k in ("array", "slice"):
                return holds(t["t"])
            if k == "tuple":
                return any(holds(x) for x in t["ts"])
            return False
        r = any(holds(fl["ty"]) for v in adt["variants"] for fl in v["fields"])
        self.owner_cache[path] = r
        return r

    def lifetimes(self, path):
        return [g["name"] for g in self.adts[path]["generics"] if g["kind"] == "lt"]

    def is_view(self, path):
        return path in self.adts and bool(self.lifetimes(path)) and not self.is_owner(path)

    def fn_bounds(self, f):
        """closure-typed parameters: [(param name, [arg types], region-bound?)]"""
        out = []
        for p in f["preds"]:
            if p["k"] == "trait" and p["path"].split("::")[-1] in ("Fn", "FnMut", "FnOnce"):
                if p["args"] and p["args"][0].get("k") == "param" and len(p["args"]) > 1:
                    a = p["args"][1]
                    out.append((p["args"][0]["name"], [self.norm(x, f) for x in (a["ts"] if a.get("k") == "tuple" else [a])]))
        for x in f["inputs"]:
            for y in walk(x):
                if y.get("k") == "fnptr":
                    out.append(("fnptr", y["ts"][:-1]))
        return out

    # ---- obtainable fixpoint
    def _obtainable(self):
        ob = set()
        for p, a in self.adts.items():
            if a["exported"] and (self.is_owner(p) or all(fl["pub"] for v in a["variants"] for fl in v["fields"])):
                ob.add(p)
        self.obtainable = ob
        changed = True
        while changed:
            changed = False
            for f in self.fns:
                if not self.callable(f):
                    continue
                outs = [f["output"]]
                for _, args in self.fn_bounds(f):
                    outs += args
                for o in outs:
                    if self._add(o):
                        changed = True
            for p in list(ob):
                a = self.adts[p]
                for v in a["variants"]:
                    for fl in v["fields"]:
                        if (fl["pub"] or a["kind"] == "enum") and a["reachable"] and self._add(fl["ty"]):
                            changed = True
                for im, t in self.iter_items.get(p, []):
                    if self._add(t):
                        changed = True

    def _add(self, t):
        ch = False
        for x in self._values(t):
            if x.get("k") == "adt" and x["local"] and x["path"] in self.adts and x["path"] not in self.obtainable:
                self.obtainable.add(x["path"])
                ch = True
        return ch

    def _values(self, t):
        """types a holder of t can get at by value or reference (not through raw pointers)"""
        yield t
        if t.get("k") == "ptr":
            return
        if t.get("k") == "adt" and t["path"] == PHANTOM:
            return
        if t.get("k") == "adt" and t["local"] and t["path"] in self.adts:
            return  # its own API says what it exposes
        for c in children(t):
            yield from self._values(c)

    def callable(self, f):
        """can a client call it (safe or not)?"""
        if not f["reachable"]:
            return False
        im = f.get("impl") or {}
        if "in_trait" in im:
            return False
        for x in f["inputs"]:
            for y in self._values(x):
                if y.get("k") == "adt" and y["local"] and y["path"] in self.adts and y["path"] not in self.obtainable:
                    return False
        st = im.get("self")
        if st and st.get("k") == "adt" and st["local"] and not st["path"] in self.obtainable and f["has_self"]:
            return False
        if st and st.get("k") == "adt" and st["local"] and not f["has_self"] and st["path"] in self.adts and not self.adts[st["path"]]["exported"]:
            # associated function of a type the client cannot name
            return False
        return True

    def safe_callable(self, f):
        return not f["unsafe"] and self.callable(f)
