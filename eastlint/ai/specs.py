"""What the operations promise: the contents of the containers before an operation and after it, and its
result, are compared with what a plain sequence or map would give.

The contents are read from the abstract state: a sequence is a list of runs of elements (the bounds of a run
are polynomials), a table is the list of its entries per bucket (explicit instances only)."""
import re
from .poly import P, con, ZERO, ONE, witness
from .core import U, UNIT, Dead, Undecided, PanicEx

WRAPPERS = ("hash_map::", "hash_set::", "queue::", "map::", "set::", "fixed_list::", "fixed_map::", "fixed_vector::")
VIEWS = {}


def view(*paths):
    def d(f):
        for p in paths:
            VIEWS[p] = f
        return f
    return d


def is_ptr(v):
    return isinstance(v, tuple) and len(v) == 4 and v[0] == "p"


# ---------------------------------------------------------------------- values
def deref(E, v, n=0):
    """the value behind the references in v"""
    if isinstance(v, P) or n > 8:
        return v
    if is_ptr(v):
        if v[3] is not None:
            return v
        q = E.asptr(v)
        if q[1] is None:
            return q
        return deref(E, E.load(q[1], q[2]), n + 1)
    if v[0] == "s":
        return ("s", tuple(deref(E, x, n + 1) for x in v[1]))
    if v[0] == "e":
        return ("e", v[1], tuple(deref(E, x, n + 1) for x in v[2]))
    return v


def flat(v):
    if isinstance(v, tuple) and v and v[0] == "s":
        return [y for x in v[1] for y in flat(x)]
    return [v]


def same(E, a, b):
    if isinstance(a, P) or isinstance(b, P):
        return isinstance(a, P) and isinstance(b, P) and E.is_eq(a - b)
    if a[0] == "y" and b[0] == "y":
        return a[1] == b[1] and E.is_eq(a[2] - b[2])
    if a[0] == "s" and b[0] == "y":
        a, b = b, a
    if a[0] == "y" and b[0] == "s":
        return all(same(E, E.field(a, i), x) for i, x in enumerate(b[1]))
    if a[0] == "s" and b[0] == "s":
        return len(a[1]) == len(b[1]) and all(same(E, x, y) for x, y in zip(a[1], b[1]))
    if a[0] == "e" and b[0] == "e":
        return a[1] == b[1] and all(same(E, x, y) for x, y in zip(a[2], b[2]))
    return a == b


def option(E, r):
    """(present, payload) of an Option"""
    if isinstance(r, tuple) and r[0] == "e":
        return r[1] == 1, (r[2][0] if r[2] else UNIT)
    if is_ptr(r):
        return E.asptr(r)[1] is not None, r
    return None, None


# ---------------------------------------------------------------------- contents
@view("internal::hash_table::HashTable")
def table(E, tid, v, base=None, path=()):
    from .shapes import HashTable
    H = HashTable()
    names, fs, node = H.parts(E, tid)
    f = v[1]
    p = E.asptr(f[names["bucket_array"]])
    ec = f[names["element_count"]]
    if p[1] is None:
        return None
    if p[1][0] == "G":
        return ("table", ONE, ((),), ec)
    arr = E.st.mem.get(p[1])
    bc = f[names["bucket_count"]]
    if arr is None or arr[0] != "a" or bc.const() is None:
        return ("table", bc, None, ec)
    return ("table", bc, slots(E, arr[1], 0, int(bc.const())), ec)


def slots(E, segs, a, b):
    out = []
    for i in range(a, b):
        c = E.elem(segs, con(i))
        if not is_ptr(c):
            return None
        out.append(nodes(E, c))
        if out[-1] is None:
            return None
    return tuple(out)


def nodes(E, ptr):
    from .shapes import HashTable
    out = []
    sv = E.fwd
    for k, x in HashTable().walk_slot(E, ptr, "table"):
        if k == "ch":
            segs, _, _, meta = E.chain(x)
            n = segs[-1][1].const() if segs else 0
            if n is None:
                return None
            vals = [E.elem(segs, con(i)) for i in range(int(n))]
        else:
            ni, nv = E.node_of(x)
            vals = [nv]
        for c in vals:
            out.append((E.field(c, 0), E.field(c, 1)))
    return tuple(out)


@view("internal::hash_table::iter::RawIter")
def bucketiter(E, tid, v, base=None, path=()):
    from .shapes import BucketIter
    names, fs = BucketIter().parts(E, tid)
    start, i, n = v[1][names["bucket_iter"]][1]
    p = v[1][names["node_ptr"]]
    if i.const() is None or n.const() is None or not is_ptr(p):
        return None
    q = E.asptr(start)
    first = nodes(E, p)
    if i.const() >= n.const():
        rest = ()
    else:
        if q[1] is None:
            return None
        at = q[2][-1][1].const() if q[2] and q[2][-1][0] == "i" else 0
        if at is None or len(q[2]) > 1:
            return None
        arr = E.load(q[1], ())
        if arr[0] != "a":
            return None
        rest = slots(E, arr[1], int(at + i.const()), int(at + n.const()))
    if first is None or rest is None:
        return None
    return ("seq", tuple(first) + tuple(x for s in rest for x in s))


def contents(E, tid, v, base=None, path=()):
    """view of the container a value is or wraps"""
    T = E.T
    tid = T.strip(tid)
    t = T[tid]
    if t["k"] != "adt" or isinstance(v, P):
        return None
    if t["path"] in VIEWS and v[0] == "s":
        r = VIEWS[t["path"]](E, tid, v, base, path)
        return r and tuple(tuple(x) if isinstance(x, list) else x for x in r)
    if t.get("local") and t["kind"] == "struct" and v[0] == "s":
        for i, f in enumerate(T.fields(tid)):
            if i < len(v[1]) and isinstance(v[1][i], tuple) and T[T.strip(f)]["k"] == "adt":
                r = contents(E, f, v[1][i], base, path + (("f", i),))
                if r is not None:
                    return r
    return None


# ---------------------------------------------------------------------- rules
class Bad(Exception):
    pass


class Op:
    """one operation at one exit"""
    def __init__(self, E, root, rett):
        self.E, self.root, self.rett = E, root, rett
        st = E.st
        self.ret = st.misc.get("ret", UNIT)
        self.args = st.misc["args"]
        self.self_ = self.args[0][0] if self.args else None
        self.pre = st.misc.get(("pre", self.self_))
        self.name = root["name"]
        p = root["path"].split(" via ")[0].lstrip("<")
        self.fam = next((f for x, f in FAMILIES if p.startswith(x)), None)
        self.wrapper = p.startswith(WRAPPERS) or " via " in root["path"]

    def post(self):
        b, tid, _ = self.args[0]
        return contents(self.E, tid, self.E.st.mem[b], b)

    def bad(self, tags, msg):
        E = self.E
        if not E.st.exact or "doubt" in E.st.flags:
            E.note("doubtful %s: %s" % (tags, msg))
            raise Dead()
        tags = list(tags)
        if self.wrapper and "C25" not in tags:
            tags.append("C25")
        for t in tags:
            E.report(t, msg)
        raise Dead()

    def arg(self, i):
        """value of the i-th argument"""
        b = ("R", "a%d" % i)
        if b in self.E.st.mem:
            return ("y", "a%d" % i, ZERO, self.E.st.oty.get(b))
        return ("y", "a%d" % i, ZERO, None)

    def arg_is(self, i, v):
        return isinstance(v, tuple) and v[0] == "y" and v[1] == "a%d" % i and self.E.is_eq(v[2])

    # ------------------------------------------------ tables
    def find(self, view, key=("a1", ZERO)):
        """the entry of the key, from the comparisons made with the table's own functor"""
        E = self.E
        bc = view[1]
        h = P.atom(("hash", key))
        un = False
        for i, b in enumerate(view[2]):
            if b and not E.is_eq(bc - 1):
                r = P.atom(("rem", h, bc))
                if E.ent(r - i - 1) or E.ent(con(i) - r - 1):
                    continue
            for ent in b:
                kv = E.vid(ent[0])
                a = [x for q, x in E.st.opq.items() if q[0] == "rel" and q[1] == "equals" and {q[3], q[4]} == {kv, key}]
                if a and a[0]:
                    return ent
                un = un or not a
        if un:
            self.bad(("C16",), "the operation is decided without comparing the key with every node of its bucket by the table's equality")
        return None

    def pairs(self, view):
        return [p for b in view[2] for p in b]

    def expect_pairs(self, want, tags=("C31",)):
        v = self.post()
        if v is None or v[2] is None:
            return
        have = self.pairs(v)
        rest = list(have)
        if isset(self):
            want = [(k, None) for k, x in want]
        for k, x in want:
            m = [p for p in rest if (k is None or same(self.E, p[0], k)) and (x is None or same(self.E, p[1], x))]
            if not m:
                self.bad(tags, "an entry that must be there is missing after %s" % self.name)
            rest.remove(m[0])
        if rest:
            self.bad(tags, "an entry that must not be there is found after %s" % self.name)

    def result_of(self, found, what):
        """an Option that is present exactly for a found entry and shows parts of it"""
        E = self.E
        has, pay = option(E, self.ret)
        if has is None:
            return
        tags = ("C16", "C31") if self.fam == "table" else ("C31",)
        if has != (found is not None):
            self.bad(tags, "%s %s" % (self.name, "finds a key that is not there" if has else "does not find a key that is there"))
        if has:
            self.shows(pay, found, what, tags)

    def shows(self, pay, found, what, tags=("C31",)):
        lv = [x for x in flat(deref(self.E, pay)) if x != U]
        want = [found[j] for j in what if found[j] != UNIT]
        got = [x for x in lv]
        if len(got) != len(want) or not all(same(self.E, x, y) for x, y in zip(got, want)):
            self.bad(tags, "%s gives a key or value of another entry" % self.name)

    def boolean(self, want, tags):
        r = self.ret
        if isinstance(r, P) or r[0] in ("b", "bo"):
            if self.E.truth(r) != want:
                self.bad(tags, "%s gives %s where %s is right" % (self.name, "false" if want else "true", "true" if want else "false"))


def pre(E, root):
    st = E.st
    E.fwd = {}
    for base, tid, own in st.misc.get("args", ()):
        if tid is None:
            continue
        try:
            v = contents(E, tid, st.mem[base], base)
        except (Undecided, Dead):
            v = None
        if v is not None:
            st.misc[("pre", base)] = v
    if root["name"].startswith("into_compat"):
        tid = E.I[root["id"]]["body"]["locals"][1]
        st.misc["want"] = contents(E, tid, st.misc["vals"][0])


FAMILIES = (("hash_map::HashMap", "table"), ("hash_set::HashSet", "table"), ("internal::hash_table::HashTable", "table"),
            ("internal::hash_table::iter::", "tableiter"), ("hash_set::iter::Iter", "tableiter"),
            ("internal::hash_table::entry::Entry", "tableentry"), ("hash_map::entry::Entry", "tableentry"))
FAMILIES += (("internal::rb_tree::RBTree", "tree"), ("map::Map", "tree"), ("set::Set", "tree"), ("internal::rb_tree::iter::", "treeiter"))
OPS = {}


def op(fam, *names):
    def d(f):
        for n in names:
            OPS[(fam, n)] = f
        return f
    return d


def post(E, root, rett):
    if "compat" in root:
        from . import compat
        return compat.post(E, root, rett)
    if any(k in root for k in ("drop", "ctor", "move", "dealloc", "trip")):
        return
    o = Op(E, root, rett)
    if E.st.unw:
        if E.st.misc.get("cause") == "range" and o.fam in SEQ + ("seqiter", "table", "tableiter", "tree", "treeiter") and not (o.name in ("insert", "remove") and o.fam in ("vec", "list", "text")):
            if E.st.exact and "doubt" not in E.st.flags and witness(list(E.st.facts)) is not None:
                o.bad(("C31",) if "t" in o.fam[:1] else ("C30",), "%s panics because an index it computes does not fit" % o.name)
        if E.st.misc.get("cause") in ("unwrap", "panic") and o.name in CALM and (o.fam, o.name) != ("tree", "remove_entry") and o.fam in SEQ + ("seqiter", "table", "tableiter", "tree", "treeiter", "vmap"):
            if E.st.exact and "doubt" not in E.st.flags and witness(list(E.st.facts)) is not None:
                o.bad(("C30",) if o.fam in SEQ + ("seqiter",) else ("C31",), "%s panics by itself" % o.name)
        return
    f = OPS.get((o.fam, o.name))
    if f is None:
        return
    for t in PROMISES.get(o.fam, ("C30",)) + (("C25",) if o.wrapper else ()):
        E.ob(t)
    f(o)


PROMISES = {"table": ("C16", "C31"), "tableiter": ("C31",), "tableentry": ("C24",), "vmap": ("C23", "C31"), "vmapvacant": ("C23", "C24", "C31"),
            "less": ("C23", "C31"), "greater": ("C31",), "equal": ("C16",), "tree": ("C31",), "treeiter": ("C31", "C33")}


# operations that neither allocate nor reject an argument
CALM = ("is_empty", "len", "capacity", "clear", "get", "get_mut", "contains_key", "front", "front_mut", "back", "back_mut", "peek", "peek_mut",
        "pop", "pop_front", "pop_back", "iter", "iter_mut", "next", "next_back", "as_slice", "as_slice_mut", "deref", "deref_mut", "as_ref", "remove_entry")


def isset(o):
    return "hash_set::" in o.root["path"]


@op("table", "contains_key")
def _(o):
    if o.pre is None or o.pre[2] is None:
        return
    o.boolean(o.find(o.pre) is not None, ("C16", "C31"))
    o.expect_pairs(o.pairs(o.pre))


@op("table", "get", "get_mut")
def _(o):
    if o.pre is None or o.pre[2] is None:
        return
    f = o.find(o.pre)
    what = (0,) if isset(o) else (1,) if "hash_map" in o.root["path"] or o.name == "get_mut" else (0, 1)
    o.result_of(f, what)
    o.expect_pairs(o.pairs(o.pre))


@op("table", "insert")
def _(o):
    if o.pre is None or o.pre[2] is None:
        return
    f = o.find(o.pre)
    val = None if isset(o) else o.arg(2)
    if isset(o):
        o.boolean(f is None, ("C16", "C31"))
    else:
        o.result_of(f, (1,))
    ps = o.pairs(o.pre)
    if f is None:
        o.expect_pairs(ps + [(o.arg(1), val)])
    else:
        o.expect_pairs([p for p in ps if p is not f] + [(None, val)])


@op("table", "remove", "remove_entry")
def _(o):
    if o.pre is None or o.pre[2] is None:
        return
    f = o.find(o.pre)
    what = (0,) if isset(o) else (1,) if o.name == "remove" else (0, 1)
    o.result_of(f, what)
    o.expect_pairs([p for p in o.pairs(o.pre) if p is not f])


@op("table", "entry")
def _(o):
    if o.pre is None or o.pre[2] is None:
        return
    E = o.E
    f = o.find(o.pre)
    r = o.ret
    while r[0] == "s" and len(r[1]) == 1:
        r = r[1][0]
    if r[0] != "e":
        return
    from .shapes import TableEntry
    t = [i for i, t in enumerate(E.F.types) if t["k"] == "adt" and t.get("path") == "internal::hash_table::entry::Entry"][0]
    n, vs = TableEntry().variants(E, t)
    if (r[1] == n["Occupied"]) != (f is not None):
        o.bad(("C24", "C16"), "the entry of a key is %s although the key is %s" % ("vacant" if f else "occupied", "present" if f else "absent"))
    if f is not None:
        lv = deref(E, r[2][0])
        if not (same(E, E.field(lv, 0), f[0]) and same(E, E.field(lv, 1), f[1])):
            o.bad(("C24", "C16"), "the occupied entry is that of another key")
    o.expect_pairs(o.pairs(o.pre))


@op("table", "clear")
def _(o):
    o.expect_pairs([])
    v = o.post()
    if v is not None and not o.E.is_eq(v[3]):
        o.bad(("C15",), "the count is not zero after clear")


@op("table", "len")
def _(o):
    if o.pre is not None and isinstance(o.ret, P) and not o.E.is_eq(o.ret - o.pre[3]):
        o.bad(("C31", "C15"), "len differs from the number of entries")


@op("table", "is_empty")
def _(o):
    if o.pre is not None:
        o.boolean(o.E.eqz(o.pre[3]), ("C31",))


@op("table", "new", "default")
def _(o):
    v = contents(o.E, o.rett, o.ret)
    if v is not None and (v[2] is None or o.pairs(v)):
        o.bad(("C31",), "a new table is not empty")


@op("table", "from", "from_iter")
def _(o):
    E = o.E
    if not E.small:
        return
    v = contents(E, o.rett, o.ret)
    if v is None or v[2] is None:
        return

    def equal(x, y):
        return next((r for q, r in E.st.opq.items() if q[0] == "rel" and q[1] in ("equals", "eq") and {q[3], q[4]} == {x, y}), None)
    try:
        filled(o, o.pairs(v), equal)
    except Unknown:
        E.note("table of %s not compared" % o.name)


@op("table", "iter", "iter_mut")
def _(o):
    if o.pre is None or o.pre[2] is None:
        return
    v = contents(o.E, o.rett, o.ret)
    if v is None:
        return
    rest = list(v[1])
    for p in o.pairs(o.pre):
        m = [q for q in rest if same(o.E, p[0], q[0]) and same(o.E, p[1], q[1])]
        if not m:
            o.bad(("C31",), "an entry is not visited by %s" % o.name)
        rest.remove(m[0])
    if rest:
        o.bad(("C31",), "%s visits an entry twice" % o.name)
    o.expect_pairs(o.pairs(o.pre))


@op("tableiter", "next")
def _(o):
    if o.pre is None:
        return
    E = o.E
    has, pay = option(E, o.ret)
    if has is None:
        return
    if has != bool(o.pre[1]):
        o.bad(("C31",), "the iterator %s" % ("yields an entry after the last" if has else "stops before the last entry"))
    v = o.post()
    want = o.pre[1][1:]
    if has:
        o.shows(pay, o.pre[1][0], (0,) if isset(o) else (0, 1))
    if v is not None and not (len(v[1]) == len(want) and all(same(E, a[0], b[0]) for a, b in zip(v[1], want))):
        o.bad(("C31",), "the iterator does not go on with the next entry")


@op("tableiter", "clone")
def _(o):
    v = contents(o.E, o.rett, o.ret)
    if o.pre is None or v is None:
        return
    if not (len(v[1]) == len(o.pre[1]) and all(same(o.E, a[0], b[0]) for a, b in zip(v[1], o.pre[1]))):
        o.bad(("C31",), "the cloned iterator visits other entries")


def calls(o, base="a1"):
    return [e for e in o.E.st.events if e[0] == "call" and isinstance(e[2], tuple) and e[2][0] == base]


@op("tableentry", "and_modify")
def _(o):
    k = o.E.st.misc.get("entry")
    c = calls(o)
    if k == "Vacant" and c:
        o.bad(("C24",), "the modifying callback runs although the key is absent")
    if k == "Occupied" and len(c) != 1:
        o.bad(("C24",), "the modifying callback of a present key runs %d times" % len(c))
    if k == "Occupied" and o.self_:
        v = c[0][3][0] if len(c[0]) > 3 and c[0][3] else None
        if isinstance(v, tuple) and v[0] == "p" and v[1] and v[1][0] == "R" and v[1][1] == "deref" and o.self_[1] != "deref":
            o.bad(("C24",), "the modifying callback is not given the entry's own value")
    r = o.ret
    while r[0] == "s" and len(r[1]) == 1:
        r = r[1][0]
    if r[0] == "e" and k is not None:
        from .shapes import TableEntry
        t = [i for i, t in enumerate(o.E.F.types) if t["k"] == "adt" and t.get("path") == "internal::hash_table::entry::Entry"][0]
        n, _ = TableEntry().variants(o.E, t)
        if r[1] != n[k]:
            o.bad(("C24",), "and_modify gives back an entry in another state")


@op("tableentry", "or_insert", "or_insert_with")
def _(o):
    E = o.E
    k = E.st.misc.get("entry")
    c = calls(o)
    if k is None or E.st.events and ("loop",) in E.st.events:
        return
    got = deref(E, o.ret)
    if k == "Occupied":
        if c:
            o.bad(("C24",), "the default-producing callback runs although the key is present")
        if got[0] != "y" or not str(flatname(got[1])).startswith("a0"):
            o.bad(("C24",), "a present value is replaced by the default")
        return
    if o.name == "or_insert_with" and len(c) != 1:
        o.bad(("C24",), "the default-producing callback of an absent key runs %d times" % len(c))
    want = ("a1", "ret")
    if got[0] == "y" and flatname(got[1]) not in want:
        o.bad(("C24",), "the entry of an absent key does not hold the default")
    if o.pre is not None and o.pre[2] is not None:
        key = E.st.misc.get(("absent", o.self_[1][0] if isinstance(o.self_, tuple) and isinstance(o.self_[1], tuple) else None))
        v = o.post()
        if v is not None and v[2] is not None and len(o.pairs(v)) != len(o.pairs(o.pre)) + 1:
            o.bad(("C24",), "the default of an absent key is not inserted")


def flatname(s):
    while isinstance(s, tuple) and s:
        s = s[0]
    return s


# ====================================================================== sequences
class Unknown(Exception):
    pass


def rebase(segs):
    """[(length, content)] of consecutive segments"""
    return [(hi - lo, c) for lo, hi, c in segs]


def total(runs):
    n = ZERO
    for ln, _ in runs:
        n = n + ln
    return n


def asegs(runs):
    out, z = [], ZERO
    for ln, c in runs:
        out.append((z, z + ln, c))
        z = z + ln
    return tuple(out)


def part(E, runs, a, b):
    return rebase(E.cut(asegs(runs), a, b))


def slice_runs(E, p, el=None):
    """runs of a slice reference"""
    if p[3] is None:
        raise Unknown()
    q = E.asptr(p)
    if q[1] is None:
        return []
    t = E.typeof_base(q[1])
    if isinstance(t, tuple):
        el = t[1]
    pth = E.adjust(q[1], q[2], el) if el is not None else q[2]
    if not pth or pth[-1][0] != "i":
        raise Unknown()
    arr = E.load(q[1], pth[:-1])
    if arr[0] != "a":
        raise Unknown()
    if E.eqz(p[3]):
        return []
    return rebase(E.cut(arr[1], pth[-1][1], pth[-1][1] + p[3]))


@view("vector::Vector", "vector::into_iter::IntoIter")
def vec_view(E, tid, v, base=None, path=()):
    from . import sem
    sh = sem.SHAPES[E.T[E.T.strip(tid)]["path"]]
    fs, ptrs, alloc, el = sh.parts(E, E.T.strip(tid))
    if any(not is_ptr(E.asptr(v[1][i])) for i in ptrs):
        return None
    pb, p0, p1, pc = sh.elems_range(E, v, ptrs)
    if p0[1] is None or p0[1] not in E.st.mem or p1[1] != p0[1]:
        return ("runs", []) if p0[1] is None else None
    def idx(q):
        pth = E.adjust(q[1], q[2], el)
        if not pth or pth[-1][0] != "i":
            raise Undecided("position")
        return pth[:-1], pth[-1][1]
    (pp, a), (_, b) = idx(p0), idx(p1)
    arr = E.load(p0[1], pp)
    if arr[0] != "a":
        return None
    return ("runs", rebase(E.cut(arr[1], a, b)))


def ring_runs(E, L, start, sent, skip=None):
    out = []
    for k, x in L.ring(E, sent, "list", False, start=start):
        if k == "ch":
            segs = E.chain(x)[0]
            out += rebase(segs)
        else:
            ni, nv = E.node_of(x)
            c = E.content_of(ni, nv)
            if c is None:
                raise Undecided("node")
            out.append((ONE, c))
    return out


@view("list::List")
def list_view(E, tid, v, base=None, path=()):
    from .shapes import List
    if base is None:
        return None
    L = List()
    fs, li, ci, ai, node = L.parts(E, tid)
    return ("runs", ring_runs(E, L, None, ("p", base, path + (("f", li),), None)))


@view("list::iter::Iter", "list::iter::IterMut")
def list_iter_view(E, tid, v, base=None, path=()):
    from .shapes import ListIter
    L = ListIter()
    fs, si, ci, ni, node = L.parts(E, tid)
    sent = E.asptr(v[1][si])
    cur = E.asptr(v[1][ci])
    l = E.link_at(cur, "next")
    if l is None:
        return None
    out = []
    for k, x in L.follow(E, l[0], sent, cur, "iterator"):
        if k == "ch":
            out += rebase(E.chain(x)[0])
        else:
            i, nv = E.node_of(x)
            out.append((ONE, E.content_of(i, nv)))
    return ("runs", out)


@view("deque::Deque")
def deque_view(E, tid, v, base=None, path=()):
    from .shapes import Deque
    return ("runs", Deque().runs(E, tid, v))


@view("deque::iter::RawIter")
def deque_iter_view(E, tid, v, base=None, path=()):
    from .shapes import DequeIter
    return ("runs", DequeIter().runs(E, tid, v))


class Seq:
    """comparison of runs"""
    def __init__(self, o, tags=("C30",)):
        self.o, self.E, self.tags = o, o.E, tags

    def eq(self, p, msg):
        E = self.E
        if E.is_eq(p):
            return
        tags = list(self.tags) + (["C25"] if self.o.wrapper and "C25" not in self.tags else [])
        f, dead = E.st.facts, False
        for t in tags:
            E.st.facts = f
            try:
                E.check_eq(p, t, msg)
            except Dead:
                dead = True
        if dead:
            raise Dead()

    def bad(self, msg):
        self.o.bad(self.tags, msg)

    def value(self, c):
        return self.E.content_at(c, ZERO)

    def content(self, a, b, msg):
        """the contents are the same element(s)"""
        for c in (a, b):
            if c[0] == "u":
                self.bad(msg)
            if c[0] not in ("q", "v"):
                raise Unknown()
        if a[0] == "q" and b[0] == "q":
            if a[1] != b[1]:
                self.bad(msg)
            self.eq(a[2] - b[2], msg)
            return
        self.val(self.value(a), self.value(b), msg)

    def val(self, x, y, msg):
        E = self.E
        if same(E, x, y):
            return
        if isinstance(x, P) and isinstance(y, P):
            return self.eq(x - y, msg)
        if isinstance(x, P) or isinstance(y, P):
            raise Unknown()
        if x[0] == "y" and y[0] == "y" and x[1] == y[1]:
            return self.eq(x[2] - y[2], msg)
        if x[0] == "o" or y[0] == "o":
            raise Unknown()
        self.bad(msg)

    def runs(self, A, B, msg):
        E = self.E
        A, B = list(A), list(B)
        for _ in range(60):
            while A and E.eqz(A[0][0]):
                A.pop(0)
            while B and E.eqz(B[0][0]):
                B.pop(0)
            if not A and not B:
                return
            if not A or not B:
                # the rest is not empty on this path
                self.bad(msg)
            (la, ca), (lb, cb) = A[0], B[0]
            if E.ge(la - lb):
                if E.eqz(la - lb):
                    A.pop(0)
                else:
                    A[0] = (la - lb, self.later(ca, lb))
                B.pop(0)
            else:
                B[0] = (lb - la, self.later(cb, la))
                A.pop(0)
            self.content(ca, cb, msg)
        raise Unknown()

    def later(self, c, n):
        return (c[0], c[1], c[2] + n, c[3]) if c[0] == "q" else c


def seqop(fam, *names):
    """an operation on sequences: f(o, q, pre) with the runs before"""
    def d(f):
        def g(o):
            if o.pre is None or o.pre[0] != "runs":
                return
            try:
                f(o, Seq(o), o.pre[1])
            except Unknown:
                o.E.note("sequence of %s not compared" % o.name)
        for n in names:
            OPS[(fam, n)] = g
        return f
    return d


def after(o):
    v = o.post()
    if v is None or v[0] != "runs":
        raise Unknown()
    return v[1]


def retruns(o):
    v = contents(o.E, o.rett, o.ret)
    if v is None or v[0] != "runs":
        raise Unknown()
    return v[1]


def argc(o, i):
    """content of one element: the i-th argument"""
    return o.E.to_content(o.arg(i))


def argv(o, i):
    """integer argument"""
    v = o.E.st.misc.get("vals", ())
    return v[i] if i < len(v) else None


def end_ref(o, q, pre, at_back):
    """an optional reference to (or value of) the first or last element"""
    E = o.E
    has, pay = option(E, o.ret)
    if has is None:
        raise Unknown()
    n = total(pre)
    side = "last" if at_back else "first"
    if has:
        q.eq(ZERO if not E.eqz(n) else ONE, "%s gives an element of an empty container" % o.name)
        i = n - 1 if at_back else ZERO
        q.val(deref(E, E.elem(asegs(pre), i)), deref(E, pay), "%s does not give the %s element" % (o.name, side))
    else:
        if not E.eqz(n):
            q.bad("%s gives nothing although there are elements" % o.name)


def kept(o, q, pre):
    q.runs(after(o), pre, "%s changes the elements or their order" % o.name)


SEQ = ("vec", "list", "deque", "queue", "text")


def back_name(o):
    return o.name in ("back", "back_mut", "pop_back", "next_back") or o.name == "pop" and o.fam != "queue"


for _f in SEQ:
    @seqop(_f, "front", "front_mut", "back", "back_mut", "top")
    def _(o, q, pre):
        end_ref(o, q, pre, back_name(o))
        kept(o, q, pre)

    @seqop(_f, "pop", "pop_back", "pop_front")
    def _(o, q, pre):
        b = back_name(o)
        end_ref(o, q, pre, b)
        n = total(pre)
        has, _x = option(o.E, o.ret)
        want = [] if not has else part(o.E, pre, ZERO, n - 1) if b else part(o.E, pre, ONE, n)
        q.runs(after(o), want, "%s leaves other elements than the rest in their order" % o.name)

    @seqop(_f, "push", "push_back")
    def _(o, q, pre):
        q.runs(after(o), list(pre) + [(ONE, argc(o, 1))], "%s does not add the element behind the last one" % o.name)

    @seqop(_f, "push_front")
    def _(o, q, pre):
        q.runs(after(o), [(ONE, argc(o, 1))] + list(pre), "%s does not add the element before the first one" % o.name)

    @seqop(_f, "clear")
    def _(o, q, pre):
        q.runs(after(o), [], "%s leaves elements" % o.name)

    @seqop(_f, "len", "size")
    def _(o, q, pre):
        if isinstance(o.ret, P):
            q.eq(o.ret - total(pre), "%s differs from the number of elements" % o.name)
        kept(o, q, pre)

    @seqop(_f, "is_empty", "empty")
    def _(o, q, pre):
        o.boolean(o.E.eqz(total(pre)), q.tags)
        kept(o, q, pre)

    @seqop(_f, "iter", "iter_mut", "into_iter", "into_inner")
    def _(o, q, pre):
        q.runs(retruns(o), pre, "%s does not visit exactly the elements in their order" % o.name)

    @seqop(_f, "as_slice", "as_slice_mut", "deref", "deref_mut", "as_ref", "as_bytes", "as_str")
    def _(o, q, pre):
        if not is_ptr(o.ret):
            raise Unknown()
        if o.ret[3] is None:
            # a wrapper shows the container inside
            p = o.E.asptr(o.ret)
            v = p[1] is not None and contents(o.E, o.E.T[o.E.T.strip(o.rett)]["t"], o.E.load(p[1], p[2]), p[1], p[2])
            if not v or v[0] != "runs":
                raise Unknown()
            q.runs(v[1], pre, "%s does not show exactly the elements in their order" % o.name)
            return kept(o, q, pre)
        q.runs(slice_runs(o.E, o.ret), pre, "%s does not show exactly the elements in their order" % o.name)
        kept(o, q, pre)

    @seqop(_f, "reserve")
    def _(o, q, pre):
        kept(o, q, pre)

    @seqop(_f, "insert")
    def _(o, q, pre):
        i = argv(o, 1)
        if not isinstance(i, P):
            raise Unknown()
        n = total(pre)
        q.runs(after(o), part(o.E, pre, ZERO, i) + [(ONE, argc(o, 2))] + part(o.E, pre, i, n), "%s does not put the element at the index, the others in their order" % o.name)

    @seqop(_f, "remove")
    def _(o, q, pre):
        i = argv(o, 1)
        if not isinstance(i, P):
            raise Unknown()
        E = o.E
        n = total(pre)
        has, pay = option(E, o.ret)
        if has is None:
            raise Unknown()
        if not has:
            if E.ge(n - 1 - i):
                q.bad("%s gives nothing for an index in range" % o.name)
            return kept(o, q, pre)
        if not E.ge(n - 1 - i):
            q.bad("%s gives an element for an index out of range" % o.name)
        q.val(E.elem(asegs(pre), i), pay, "%s gives the element at another index" % o.name)
        q.runs(after(o), part(E, pre, ZERO, i) + part(E, pre, i + 1, n), "%s leaves other elements than the rest in their order" % o.name)


@seqop("vec", "is_full", "capacity")
def _(o, q, pre):
    kept(o, q, pre)


def orig(name):
    """the sequence a (possibly repeated) clone was made from"""
    while isinstance(name, tuple) and name and name[0] == "cl":
        name = name[2]
    if isinstance(name, tuple) and len(name) == 3 and name[1] == "f":
        return (orig(name[0]), "f", name[2])
    if isinstance(name, tuple) and len(name) == 2 and name[1] == "*":
        return orig(name[0])
    return name


def uncloned(c):
    if c[0] == "q":
        return ("q", orig(c[1])) + tuple(c[2:])
    if c[0] == "v":
        return ("v", unclonedv(c[1]))
    return c


def unclonedv(v):
    if isinstance(v, P):
        return v
    if v[0] == "y":
        return ("y", orig(v[1])) + tuple(v[2:])
    if v[0] == "s":
        return ("s", tuple(unclonedv(x) for x in v[1]))
    return v


def source(o, i):
    """(runs of the elements an argument brings, the argument was read to its end)"""
    E = o.E
    v = argv(o, i)
    if v is None:
        raise Unknown()
    if isinstance(v, tuple) and v[0] == "a":
        return rebase(v[1]), True
    if is_ptr(v):
        if v[3] is not None:
            return slice_runs(E, v), True
        q = E.asptr(v)
        w = E.load(q[1], q[2]) if q[1] is not None else None
        if w is None or w[0] != "a":
            raise Unknown()
        return rebase(w[1]), True
    if isinstance(v, tuple) and v[0] == "y":
        ks = [k for k in E.st.misc if isinstance(k, tuple) and k[0] in ("pos", "done")]
        its = set(k[1:] for k in ks)
        if len(its) != 1:
            raise Unknown()
        it = its.pop()
        n = E.st.misc.get(("pos",) + it, ZERO)
        return [(n, ("q", ("it",) + it, ZERO, None))], ("done",) + it in E.st.misc
    raise Unknown()


def clones(o, q, new, src, msg):
    """the new elements are the given ones, or clones of them, in their order"""
    q.runs([(n, uncloned(c)) for n, c in new], [(n, uncloned(c)) for n, c in src], msg)


@seqop("vec", "append")
def _(o, q, pre):
    added(o, q, pre)


@seqop("list", "extend")
def _(o, q, pre):
    added(o, q, pre)


@seqop("vec", "assign")
def _(o, q, pre):
    src, all_ = source(o, 1)
    clones(o, q, after(o), src, "assign does not leave exactly the given elements in their order")


def added(o, q, pre):
    src, all_ = source(o, 1)
    if not all_:
        q.bad("%s stops before the last of the elements it is given" % o.name)
    clones(o, q, after(o), list(pre) + src, "%s does not add exactly the given elements behind the others, in their order" % o.name)


for _f in ("vec", "deque", "queue", "list"):
    @op(_f, "from", "from_iter", "from_in")
    def _(o):
        q = Seq(o)
        try:
            new = retruns(o)
            src, all_ = source(o, 0)
            if not all_:
                q.bad("%s stops before the last of the elements it is given" % o.name)
            clones(o, q, new, src, "%s does not hold exactly the given elements in their order" % o.name)
        except Unknown:
            o.E.note("sequence of %s not compared" % o.name)

    @seqop(_f, "clone")
    def _(o, q, pre):
        clones(o, q, retruns(o), pre, "the clone does not hold clones of exactly the elements in their order")
        kept(o, q, pre)


for _f in SEQ:
    @op(_f, "new", "default", "with_capacity", "new_in")
    def _(o):
        v = contents(o.E, o.rett, o.ret)
        if v is not None and v[0] == "runs":
            Seq(o).runs(v[1], [], "a new container is not empty")


# strings: runs of bytes
def given_text(o, i):
    """the bytes of a `&str`, or of what a text argument shows"""
    E = o.E
    v = argv(o, i)
    if v is not None and is_ptr(v) and v[3] is not None:
        return slice_runs(E, v)
    ks = [x for x in E.st.mem if isinstance(x, tuple) and x[:2] == ("R", "asref") and x[2] == "a%d" % i]
    if len(ks) != 1:
        raise Unknown()
    return rebase(E.st.mem[ks[0]][1])


def encoded(o, i):
    E = o.E
    v = argv(o, i)
    if v is None:
        raise Unknown()
    return [(E.char_len(v), ("q", ("enc", E.char_id(v)), ZERO, E.u8))]


@seqop("text", "push")
def _(o, q, pre):
    q.runs(after(o), list(pre) + encoded(o, 1), "push does not add exactly the bytes of the character at the end")


@seqop("text", "insert")
def _(o, q, pre):
    i = argv(o, 1)
    if not isinstance(i, P):
        raise Unknown()
    q.runs(after(o), part(o.E, pre, ZERO, i) + encoded(o, 2) + part(o.E, pre, i, total(pre)), "insert does not put exactly the bytes of the character at the index")


def taken_char(o, q, pay, side, at, pre):
    """the character returned is the one at the position"""
    E = o.E
    c = E.char_id(pay)
    if c[0] != "ch" or len(pre) != 1 or pre[0][1][0] != "q":
        raise Unknown()
    s = pre[0][1]
    if c[2][0] != s[1] or c[1] != side:
        raise Unknown()
    q.eq(c[2][1] - s[2] - at, "%s gives a character at another position" % o.name)
    return E.char_len(pay)


@seqop("text", "pop")
def _(o, q, pre):
    E = o.E
    n = total(pre)
    has, pay = option(E, o.ret)
    if has is None:
        raise Unknown()
    if not has:
        if not E.eqz(n):
            q.bad("pop gives nothing although there are characters")
        return kept(o, q, pre)
    k = taken_char(o, q, pay, "last", n, pre)
    q.runs(after(o), part(E, pre, ZERO, n - k), "pop does not leave exactly the characters before the last")


@seqop("text", "remove")
def _(o, q, pre):
    E = o.E
    n = total(pre)
    i = argv(o, 1)
    has, pay = option(E, o.ret)
    if has is None or not isinstance(i, P):
        raise Unknown()
    if not has:
        if E.ge(n - 1 - i) and E.is_eq(i):
            q.bad("remove gives nothing for the first character")
        return kept(o, q, pre)
    k = taken_char(o, q, pay, "first", i, pre)
    q.runs(after(o), part(E, pre, ZERO, i) + part(E, pre, i + k, n), "remove does not leave exactly the other characters")


@seqop("text", "assign")
def _(o, q, pre):
    q.runs(after(o), given_text(o, 1), "assign does not leave exactly the given text")


@op("text", "from", "from_in", "from_str")
def _(o):
    E, q = o.E, Seq(o)
    try:
        tid, v = o.rett, o.ret
        if v[0] == "e":
            if v[1] != 0:
                q.bad("%s rejects a text" % o.name)
            tid, v = E.T.fields(E.T.strip(tid), 0)[0], v[2][0]
        r = contents(E, tid, v)
        if r is None or r[0] != "runs":
            raise Unknown()
        q.runs(r[1], given_text(o, 0), "%s does not hold exactly the given text" % o.name)
    except Unknown:
        E.note("text of %s not compared" % o.name)


@seqop("text", "clone")
def _(o, q, pre):
    clones(o, q, retruns(o), pre, "the clone does not hold exactly the text")
    kept(o, q, pre)


@seqop("text", "eq", "ne")
def _(o, q, pre):
    E = o.E
    r = o.ret
    other = E.st.misc.get(("pre", ("R", "a1")))
    if not other or other[0] != "runs":
        raise Unknown()

    def whole(key):
        a = [slice_runs(E, p) for p in key[1:3]]
        try:
            return all(len(x) == len(y) and all(E.is_eq(l - m) and c[:2] == d[:2] and (c[0] != "q" or E.is_eq(c[2] - d[2])) for (l, c), (m, d) in zip(x, y))
                       for x, y in zip(a, (pre, other[1])))
        except (TypeError, IndexError):
            return False
    if isinstance(r, tuple) and r[0] == "bo" and r[1][0] == "streq":
        if r[2] != (o.name == "ne"):
            q.bad("%s answers the opposite of the comparison of the texts" % o.name)
        x, y = (slice_runs(E, p) for p in r[1][1:3])
        q.runs(x, pre, "one side of the comparison is not the whole text")
        q.runs(y, other[1], "one side of the comparison is not the whole text")
        return
    if isinstance(r, P) and r.const() in (0, 1):
        yes = bool(r.const()) != (o.name == "ne")
        for k, v in E.st.opq.items():
            if isinstance(k, tuple) and k and k[0] == "streq" and whole(k):
                if bool(v) != yes:
                    q.bad("%s answers otherwise than the comparison of the texts" % o.name)
                return
        d = total(pre) - total(other[1])
        if E.ent(d - 1) or E.ent(-d - 1):
            if yes:
                q.bad("%s takes texts of different lengths for equal" % o.name)
            return
        if E.ent(total(pre) + total(other[1]) - 1) and E.is_eq(d):
            q.bad("%s decides without comparing the texts" % o.name)
        return
    raise Unknown()


# iterators over sequences
@seqop("seqiter", "next", "next_back")
def _(o, q, pre):
    E = o.E
    b = o.name == "next_back"
    end_ref(o, q, pre, b)
    n = total(pre)
    has, _x = option(E, o.ret)
    want = [] if not has else part(E, pre, ZERO, n - 1) if b else part(E, pre, ONE, n)
    q.runs(after(o), want, "the iterator does not go on with the remaining elements")


@seqop("seqiter", "size_hint", "len")
def _(o, q, pre):
    n = total(pre)
    if isinstance(o.ret, P):
        q.eq(o.ret - n, "%s differs from the number of elements left" % o.name)
    elif o.ret[0] == "s" and isinstance(o.ret[1][0], P):
        q.eq(o.ret[1][0] - n, "%s differs from the number of elements left" % o.name)
        has, hi = option(E := o.E, o.ret[1][1])
        if has and isinstance(hi, P):
            q.eq(hi - n, "%s differs from the number of elements left" % o.name)


@seqop("seqiter", "as_slice", "as_slice_mut")
def _(o, q, pre):
    q.runs(slice_runs(o.E, o.ret), pre, "%s does not show exactly the remaining elements" % o.name)


@seqop("seqiter", "is_empty")
def _(o, q, pre):
    o.boolean(o.E.eqz(total(pre)), q.tags)


FAMILIES = FAMILIES + (("vector::into_iter::", "seqiter"), ("vector::Vector", "vec"), ("string::String", "text"), ("list::iter::", "seqiter"), ("list::List", "list"),
                       ("deque::iter::IntoIter", "seqiter"), ("deque::iter::RawIter", "seqiter"), ("deque::iter::Iter", "seqiter"),
                       ("deque::iter::<impl std::iter::IntoIterator for deque", "deque"), ("deque::iter::<impl std::iter::IntoIterator for queue", "queue"),
                       ("deque::Deque", "deque"), ("queue::Queue", "queue"),
                       ("fixed_list::", "list"), ("fixed_vector::FixedVector", "vec"))


# ====================================================================== ordered vector maps
class VMap:
    """a vector of pairs on explicit instances; what is known about the keys are the comparisons made"""
    def __init__(self, o, pre):
        self.o, self.E = o, o.E
        self.pre = self.pairs(pre)

    def pairs(self, runs):
        out = []
        for ln, c in runs:
            n = ln.const()
            if n is None or c[0] not in ("q", "v"):
                raise Unknown()
            for i in range(int(n)):
                v = self.E.content_at(c, con(i))
                out.append((self.E.field(v, 0), self.E.field(v, 1)))
        return out

    def rel(self, name, x, y):
        """True, False or None: the outcome of the comparison of two keys on this path"""
        # a map with the default comparator compares by the keys' own order
        names = (name, "lt") if name == "compare" else (name,)
        for q, r in self.E.st.opq.items():
            if q[0] == "rel" and q[1] in names and (q[3], q[4]) == (x, y):
                return r
        return None

    def id(self, k):
        return self.E.vid(k)

    def equal(self, a, b):
        one, two = self.rel("compare", a, b), self.rel("compare", b, a)
        if one is True or two is True:
            return False
        if one is False and two is False:
            return True         # neither is smaller
        for x, y in ((a, b), (b, a)):
            r = self.rel("eq", x, y)
            if r is not None:
                return r
        return None

    def left(self, e, key):
        """entry e belongs before the key"""
        return self.rel("compare", e, key) is True or self.rel("compare", key, e) is False and self.equal(e, key) is False

    def right(self, e, key):
        return self.rel("compare", e, key) is False or self.rel("compare", key, e) is True

    def justified(self, i, key, what):
        p = self.pre
        if i > 0 and not self.left(self.id(p[i - 1][0]), key) or i < len(p) and not self.right(self.id(p[i][0]), key):
            self.o.bad(("C23", "C31"), "%s at a position that the map's comparator does not give for the key" % what)

    def same_list(self, got, want):
        return len(got) == len(want) and all(same(self.E, g[0], w[0]) and same(self.E, g[1], w[1]) for g, w in zip(got, want))

    def absent(self, key):
        """the key is not in the map: the entry at its position is another one"""
        p = self.pre
        n = len(p)
        if any(self.equal(self.id(k), key) for k, _ in p):
            self.o.bad(("C31",), "%s does not find a key that is there" % self.o.name)
        for i in range(n + 1):
            if (i == 0 or self.left(self.id(p[i - 1][0]), key)) and (i == n or self.right(self.id(p[i][0]), key)):
                if i == n or self.equal(self.id(p[i][0]), key) is False or self.rel("compare", key, self.id(p[i][0])) is True:
                    return
        if all(self.equal(self.id(k), key) is False for k, _ in p):
            return
        self.o.bad(("C31", "C23"), "%s decides that a key is absent without looking at the position the comparator gives for it" % self.o.name)

    def present(self, j, key):
        if self.equal(self.id(self.pre[j][0]), key) is not True:
            self.o.bad(("C31",), "%s takes an entry whose key was not found equal" % self.o.name)


KEY = ("a1", ZERO)


def mapop(*names):
    def d(f):
        def g(o):
            if not o.E.small or o.pre is None or o.pre[0] != "runs":
                return
            try:
                f(o, VMap(o, o.pre[1]))
            except Unknown:
                if o.E.small:
                    o.E.note("map of %s not compared" % o.name)
        for n in names:
            OPS[("vmap", n)] = g
        return f
    return d


def which(m, pay, parts):
    """index of the entry a payload shows"""
    E = m.E
    lv = [x for x in flat(deref(E, pay)) if x != U]
    if len(lv) == 1 and len(parts) == 2 and lv[0][0] == "y":
        lv = [E.field(lv[0], 0), E.field(lv[0], 1)]
    for j, p in enumerate(m.pre):
        want = [p[x] for x in parts]
        if len(lv) == len(want) and all(same(E, a, b) for a, b in zip(lv, want)):
            return j
    return None


@mapop("get", "get_mut", "contains_key")
def _(o, m):
    E = o.E
    if o.name == "contains_key":
        has = E.truth(o.ret)
        if has and not any(m.equal(m.id(k), KEY) for k, _ in m.pre):
            o.bad(("C31",), "contains_key finds a key that is not there")
    else:
        has, pay = option(E, o.ret)
        if has is None:
            raise Unknown()
        if has:
            j = which(m, pay, (1,))
            if j is None:
                o.bad(("C31",), "%s gives the value of no entry" % o.name)
            m.present(j, KEY)
    if not has:
        m.absent(KEY)
    if not m.same_list(m.pairs(after(o)), m.pre):
        o.bad(("C31", "C23"), "%s changes the entries" % o.name)


@mapop("insert")
def _(o, m):
    E = o.E
    has, pay = option(E, o.ret)
    if has is None:
        raise Unknown()
    got = m.pairs(after(o))
    new = o.arg(2)
    if has:
        j = which(m, pay, (1,))
        if j is None:
            o.bad(("C31",), "insert gives back the value of no entry")
        m.present(j, KEY)
        want = [(k, new if i == j else v) for i, (k, v) in enumerate(m.pre)]
        if not (len(got) == len(want) and all(same(E, g[1], w[1]) for g, w in zip(got, want))):
            o.bad(("C31", "C23"), "insert does not replace exactly the value of the entry with an equal key")
        return
    m.absent(KEY)
    pos = [i for i in range(len(m.pre) + 1) if m.same_list(got, m.pre[:i] + [(o.arg(1), new)] + m.pre[i:])]
    if not pos:
        o.bad(("C31", "C23"), "insert does not add exactly the new entry")
    m.justified(pos[0], KEY, "a new entry is placed")


@mapop("remove", "remove_entry")
def _(o, m):
    E = o.E
    has, pay = option(E, o.ret)
    if has is None:
        raise Unknown()
    got = m.pairs(after(o))
    if not has:
        m.absent(KEY)
        want = m.pre
    else:
        j = which(m, pay, (1,) if o.name == "remove" else (0, 1))
        if j is None:
            o.bad(("C31",), "%s gives back no entry of the map" % o.name)
        m.present(j, KEY)
        want = m.pre[:j] + m.pre[j + 1:]
    if not m.same_list(got, want):
        o.bad(("C31", "C23"), "%s leaves other entries than the rest in their order" % o.name)


@mapop("entry")
def _(o, m):
    E = o.E
    r = o.ret
    if r[0] != "e":
        raise Unknown()
    t = E.T[E.T.strip(o.rett)]
    vn = t["variants"][r[1]]["name"]
    ft = t["variants"][r[1]]["fields"][0][1]
    x = r[2][0]
    if vn == "Occupied":
        j = which(m, x, (0, 1))
        if j is None:
            o.bad(("C24", "C31"), "the occupied entry is none of the map")
        m.present(j, KEY)
    else:
        m.absent(KEY)
        fs = {f[0]: i for i, f in enumerate(E.T[E.T.strip(ft)]["variants"][0]["fields"])}
        if "key" not in fs or "lower_bound" not in fs:
            raise Unknown()
        if not same(E, x[1][fs["key"]], o.arg(1)):
            o.bad(("C24", "C31"), "the vacant entry is for another key")
        i = x[1][fs["lower_bound"]]
        if not isinstance(i, P) or i.const() is None:
            raise Unknown()
        if i.const() > len(m.pre):
            o.bad(("C23",), "the vacant entry is for a position behind the end")
        m.justified(int(i.const()), KEY, "the vacant entry is")
    if not m.same_list(m.pairs(after(o)), m.pre):
        o.bad(("C31", "C23"), "entry changes the entries")


@mapop("clear")
def _(o, m):
    if after(o):
        o.bad(("C31",), "clear leaves entries")


@mapop("len")
def _(o, m):
    if isinstance(o.ret, P) and not o.E.is_eq(o.ret - len(m.pre)):
        o.bad(("C31",), "len differs from the number of entries")


@mapop("is_empty")
def _(o, m):
    o.boolean(not m.pre, ("C31",))


@mapop("as_ref", "deref")
def _(o, m):
    if is_ptr(o.ret) and o.ret[3] is not None and not m.same_list(m.pairs(slice_runs(o.E, o.ret)), m.pre):
        o.bad(("C31",), "%s does not show exactly the entries in their order" % o.name)


def built(o):
    """a map built from a bunch of pairs is in the comparator's order"""
    v = contents(o.E, o.rett, o.ret)
    if not o.E.small or v is None or v[0] != "runs":
        return
    try:
        m = VMap(o, v[1])
        filled(o, m.pre, m.equal if o.name in ("from", "from_iter") else None, m)
    except Unknown:
        return
    p = m.pre
    for i in range(len(p) - 1):
        x, y = m.id(p[i][0]), m.id(p[i + 1][0])
        if not (m.left(x, y) or m.right(y, x)):
            o.bad(("C23", "C31"), "a map is filled without putting the entries at the positions its comparator gives")


def item(E, c):
    """(number of the source element, which part) of a key or value"""
    if not (isinstance(c, tuple) and c[0] == "y"):
        raise Unknown()
    n = orig(c[1])
    f = 0
    if isinstance(n, tuple) and len(n) == 3 and n[1] == "f":
        n, f = n[0], n[2] + 1
    return n, c[2], f


def filled(o, got, equal, m=None):
    """the entries are what inserting the given pairs one after the other leaves: the last value of every key"""
    E = o.E
    if equal is None:
        if got:
            o.bad(("C31",), "a new map is not empty")
        return
    src, all_ = source(o, 0)
    n = total(src).const()
    if n is None:
        # fixed by the loop that read it
        n = next((k for k in range(6) if E.ent(total(src) - k) and E.ent(con(k) - total(src))), None)
    if n is None:
        raise Unknown()
    if not all_:
        o.bad(("C31",), "%s stops before the last of the entries it is given" % o.name)
    items = [unclonedv(E.elem(asegs(src), con(i))) for i in range(int(n))]
    if any(x[0] != "y" for x in items):
        raise Unknown()

    def number(c, f):
        s, i, g = item(E, c)
        if g not in f:
            o.bad(("C31",), "a key or value is not that of a given entry")
        for j, x in enumerate(items):
            if x[1] == s and E.is_eq(x[2] - i):
                return j
        o.bad(("C31",), "an entry is none of those given")
    have = []
    for k, v in got:
        a = number(k, (0, 1))
        have.append((a, number(v, (2,)) if v != UNIT else a, E.vid(k)))
    key = lambda j: next((kid for a, b, kid in have if a == j), None)

    def eq(j, kid, a):
        """the key of source entry j was found equal to the key of an entry held"""
        name = kid[0]
        # the name of the key of entry j: as that of the key held, at another position
        return equal((name, items[j][2]), kid)
    for a, b, kid in have:
        if b < a or b > a and not eq(b, kid, a):
            o.bad(("C31",), "a key is given the value of another entry")
    for j in range(len(items)):
        if any(b == j for a, b, kid in have):
            continue
        own = [b for a, b, kid in have if (a == j or eq(j, kid, a))]
        if not own:
            o.bad(("C31",), "an entry that is given is missing")
        if max(own) < j and any(v != UNIT for k, v in got):
            o.bad(("C31",), "a key does not have the last value given for it")


for _n in ("from", "from_iter", "new", "default", "with_capacity", "new_in"):
    OPS[("vmap", _n)] = built


@op("vmapvacant", "insert")
def _(o):
    E = o.E
    pre = [(k[1], v) for k, v in E.st.misc.items() if isinstance(k, tuple) and k[0] == "pre" and v[0] == "runs"]
    if len(pre) != 1:
        return
    b, v = pre[0]
    tid = [t for x, t, _ in o.args if x == b][0]
    ent = argv(o, 0)
    t = E.T[E.T.strip(E.st.oty.get(o.self_))] if E.st.oty.get(o.self_) is not None else None
    fs = None
    for i, t in enumerate(E.F.types):
        if t["k"] == "adt" and t.get("path") == "vector_map::entry::VacantEntry":
            fs = {f[0]: n for n, f in enumerate(t["variants"][0]["fields"])}
    if ent is None or ent[0] != "s" or not fs or "lower_bound" not in fs or "key" not in fs:
        return
    lb, key = ent[1][fs["lower_bound"]], ent[1][fs["key"]]
    post = contents(E, tid, E.st.mem[b], b)
    q = Seq(o, ("C23", "C24", "C31"))
    try:
        n = total(v[1])
        new = part(E, post[1], lb, lb + 1)
        q.runs(part(E, post[1], ZERO, lb), part(E, v[1], ZERO, lb), "the entries before the position of a vacant entry change")
        q.runs(part(E, post[1], lb + 1, total(post[1])), part(E, v[1], lb, n), "the entries behind the position of a vacant entry change")
        x = E.elem(asegs(new), ZERO)
        q.val(E.field(x, 0), key, "the new entry does not hold the key of its vacant entry")
        q.val(E.field(x, 1), o.arg(1), "the new entry does not hold the given value")
        if is_ptr(o.ret):
            q.val(deref(E, o.ret), o.arg(1), "the reference to the new value shows another value")
    except Unknown:
        return


FAMILIES = FAMILIES + (("vector_map::VectorMap", "vmap"), ("vector_map::entry::VacantEntry", "vmapvacant"))


# ---------------------------------------------------------------------- functors
FAMILIES += (("compare::Less", "less"), ("compare::Greater", "greater"), ("equals::EqualTo", "equal"))


def functor(name, swap):
    def f(o):
        r = o.E.truth(o.ret)
        x, y = (("a1", ZERO), ("a0", ZERO)) if swap else (("a0", ZERO), ("a1", ZERO))
        rels = {(q[1], q[3], q[4]): v for q, v in o.E.st.opq.items() if q[0] == "rel"}
        if len(rels) != 1 and set(k[0] for k in rels) - {"lt", "eq"}:
            return
        if rels.get((name, x, y)) is not r and not (name == "eq" and rels.get((name, y, x)) is r):
            o.bad(("C16",) if name == "eq" else ("C31", "C23"), "the functor does not answer what its name says")
    return f


OPS[("less", "compare")] = functor("lt", False)
OPS[("greater", "compare")] = functor("lt", True)
OPS[("equal", "equals")] = functor("eq", False)


# ---------------------------------------------------------------------- trees
class Tree(VMap):
    def __init__(self, o, pre):
        self.o, self.E, self.pre = o, o.E, pre

    def right(self, e, key):
        return self.rel("compare", key, e) is True or self.rel("compare", e, key) is False and self.equal(e, key) is False

    def absent(self, key):
        ids = [self.id(k) for k, _ in self.pre]
        n = len(ids)
        if any(self.equal(k, key) for k in ids):
            self.o.bad(("C31",), "%s does not find a key that is there" % self.o.name)
        for i in range(n + 1):
            if (i == 0 or self.left(ids[i - 1], key)) and (i == n or self.right(ids[i], key)):
                return
        if n and all(self.equal(k, key) is False for k in ids):
            return
        self.o.bad(("C31",), "%s decides that a key is absent without looking where the comparator puts it" % self.o.name)

    def present(self, j, key):
        k = self.id(self.pre[j][0])
        if not (self.equal(k, key) is True or self.rel("compare", k, key) is False and self.rel("compare", key, k) is False):
            self.o.bad(("C31",), "%s takes an entry whose key was not found equivalent" % self.o.name)


def treeop(*names):
    def d(f):
        def g(o):
            if not o.E.small or o.pre is None or o.pre[0] != "tree":
                return
            try:
                f(o, Tree(o, o.pre[1]))
            except Unknown:
                pass
        for n in names:
            OPS[("tree", n)] = g
        return f
    return d


def unchanged(o, m):
    v = o.post()
    if v is not None and not m.same_list(v[1], m.pre):
        o.bad(("C31",), "%s changes the entries" % o.name)


@treeop("get", "get_mut", "contains_key")
def _(o, m):
    E = o.E
    if o.name == "contains_key":
        if E.truth(o.ret):
            ids = [m.id(k) for k, _ in m.pre]
            if not any(m.equal(k, KEY) is True or m.rel("compare", k, KEY) is False and m.rel("compare", KEY, k) is False for k in ids):
                o.bad(("C31",), "contains_key finds a key that is not there")
        else:
            m.absent(KEY)
    else:
        has, pay = option(E, o.ret)
        if has is None:
            raise Unknown()
        if has:
            j = which(m, pay, (1,))
            if j is None:
                o.bad(("C31",), "%s gives the value of no entry" % o.name)
            m.present(j, KEY)
        else:
            m.absent(KEY)
    unchanged(o, m)


@treeop("clear")
def _(o, m):
    v = o.post()
    if v is not None and v[1]:
        o.bad(("C31",), "clear leaves entries")


@treeop("len")
def _(o, m):
    if isinstance(o.ret, P) and not o.E.is_eq(o.ret - len(m.pre)):
        o.bad(("C31", "C15"), "len differs from the number of entries")
    unchanged(o, m)


@treeop("is_empty")
def _(o, m):
    o.boolean(not m.pre, ("C31",))
    unchanged(o, m)


def newtree(o):
    v = contents(o.E, o.rett, o.ret)
    if o.E.small and v is not None and v[0] == "tree" and v[1]:
        o.bad(("C31",), "a new tree is not empty")


for _n in ("new", "default", "with_allocator", "with_compare", "with_allocator_and_compare"):
    OPS[("tree", _n)] = newtree


@treeop("iter", "iter_mut")
def _(o, m):
    v = contents(o.E, o.rett, o.ret)
    if v is not None and v[1] is None:
        o.bad(("C31", "C33"), "the end that the iterator stops at is not the tree's own end")
    if v is not None and not m.same_list(v[1], m.pre):
        o.bad(("C31", "C33"), "%s does not start with the first entry" % o.name)
    unchanged(o, m)


@op("treeiter", "next")
def _(o):
    E = o.E
    if not E.small or o.pre is None or o.pre[0] != "seq":
        return
    has, pay = option(E, o.ret)
    if has is None:
        return
    want = o.pre[1]
    if has != bool(want):
        o.bad(("C33", "C31"), "the iterator %s" % ("yields an entry after the last" if has else "stops before the last entry"))
    if has:
        o.shows(pay, want[0], (0, 1), ("C33", "C31"))
    v = o.post()
    if v is None or not (len(v[1]) == len(want[1:]) and all(same(E, a[0], b[0]) for a, b in zip(v[1], want[1:]))):
        o.bad(("C33", "C31"), "the iterator does not go on with the next entry in order")
