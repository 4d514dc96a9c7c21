"""Iterators exchanged with C++: what a pair of C++ iterators denotes, and the two conversions against it (C34).

The C++ forms, as EASTL has them:
  hash table   (node, bucket of the node); the end is (sentinel, position behind the last bucket)
  deque        (current, begin and end of its subarray, position of the subarray)
A loop of the C++ side ends at the end iterator's node or current element."""
from .poly import con, ZERO
from .core import UNIT, U, Dead, Undecided
from .chains import is_ptr
from .tables import SENTINEL
from . import specs
from .specs import op, same, nodes, slots, Seq, Op, Unknown


def members(E, tid, want):
    fs = E.T[E.T.strip(tid)]["variants"][0]["fields"]
    names = {f[0]: i for i, f in enumerate(fs)}
    return names if all(w in names for w in want) else None


NODE = ("node_ptr", "bucket_ptr")
DEQ = ("current", "begin", "end", "current_array")
RAW = {"internal::hash_table::iter::RawIter": NODE, "deque::iter::RawIter": DEQ}


def raw(E, tid, path=()):
    """the iterator at the heart of a type"""
    T = E.T
    tid = T.strip(tid)
    t = T[tid]
    if t["k"] != "adt" or not t.get("local"):
        return None
    if t["path"] in RAW:
        return tid, path
    if t["kind"] != "struct":
        return None
    for i, f in enumerate(T.fields(tid)):
        r = raw(E, f, path + (i,))
        if r:
            return r
    return None


# ---------------------------------------------------------------- what a C++ pair denotes
def table_range(E, begin, end, names, bad):
    bn, bb = begin[1][names["node_ptr"]], begin[1][names["bucket_ptr"]]
    en, eb = end[1][names["node_ptr"]], end[1][names["bucket_ptr"]]
    if not all(is_ptr(x) for x in (bn, bb, en, eb)):
        bad("a position given to C++ is never written")
    bb, eb = E.asptr(bb), E.asptr(eb)
    if bb[1] is None or bb[1] != eb[1]:
        raise Undecided("positions of two arrays")
    arr = E.st.mem[bb[1]]
    at = []
    for q in (bb, eb):
        path = q[2]
        i = path[-1][1] if path and path[-1][0] == "i" else ZERO
        if len(path) > 1 or i.const() is None:
            raise Undecided("position in the buckets")
        at.append(int(i.const()))
    i, k = at
    n = int(E.st.misc["iterover"])
    if k != n:
        bad("the end given to C++ is not the position behind the last bucket")
    if E.asptr(en) != SENTINEL:
        bad("the end given to C++ is not the sentinel, so a C++ loop does not stop there")
    if i == k:
        if E.asptr(bn) != SENTINEL:
            bad("an iterator without elements left is not the end when given to C++")
        return ()
    if i < 0 or i > n:
        bad("the position given to C++ lies outside the buckets")
    if E.asptr(bn)[1] is None:
        bad("the position given to C++ has no node")
    here = nodes(E, bn)
    slot = nodes(E, E.elem(arr[1], con(i)))
    rest = slots(E, arr[1], i + 1, k)
    if here is None or slot is None or rest is None:
        raise Undecided("nodes of the buckets")
    m = len(slot) - len(here)
    if m < 0 or not all(same(E, x[0], y[0]) for x, y in zip(slot[m:], here)):
        bad("the bucket given to C++ is not the one the node is in")
    return tuple(here) + tuple(x for s in rest for x in s)


def deque_range(E, begin, end, names, tid, bad):
    from .shapes import DequeIter
    T = E.T
    fs = T[T.strip(tid)]["variants"][0]["fields"]
    pp = T[T.strip(fs[names["current_array"]][1])]["t"]
    el = T[T.strip(pp)]["t"]
    D = DequeIter()
    pos = []
    for it in (begin, end):
        f = [it[1][names[x]] for x in DEQ]
        if not all(is_ptr(x) for x in f):
            bad("a position given to C++ is never written")
        cur, lo, hi, arr = f
        ab, ai = D.idx(E, arr, pp)
        if ab is None or ai.const() is None:
            raise Undecided("position in the subarrays")
        q = E.asptr(E.elem(E.st.mem[ab][1], ai))
        s = q[1]
        if s is None:
            bad("the position given to C++ designates no subarray")
        n = E.st.blk[s]["n"]
        for x, want, what in ((lo, ZERO, "start"), (hi, n, "end")):
            xb, xi = D.idx(E, x, el)
            if xb != s:
                bad("the %s of the subarray given to C++ is that of another subarray" % what)
            if not E.eqz(xi - want):
                bad("the %s of the subarray given to C++ is wrong" % what)
        cb, ci = D.idx(E, cur, el)
        if cb != s:
            bad("the element given to C++ does not lie in the subarray given with it")
        pos.append((ab, int(ai.const()), ci))
    (ba, i, lo0), (ea, k, hi0) = pos
    if ba != ea:
        bad("the two positions given to C++ belong to different containers")
    out = []
    for j in range(i, k + 1):
        q = E.asptr(E.elem(E.st.mem[ba][1], con(j)))
        a = E.st.mem[q[1]]
        lo = lo0 if j == i else ZERO
        hi = hi0 if j == k else E.alen(a)
        out += [(h - l, c) for l, h, c in E.cut(a[1], lo, hi)]
    return ("runs", out)


def pairtype(E, tid):
    T = E.T
    t = T[T.strip(tid)]
    if t["k"] != "tuple":
        return None
    fs = T.fields(T.strip(tid))
    return T.strip(fs[0]) if len(fs) == 2 else None


@op("tableiter", "into_compat", "into_compat_mut")
def _(o):
    E = o.E
    E.ob("C34")
    ct = pairtype(E, o.rett)
    names = ct is not None and members(E, ct, NODE)
    if not names:
        return
    if E.st.misc.get("want") is None or o.ret[0] != "s":
        raise Undecided("iterator contents")
    def bad(msg):
        o.bad(("C34",), msg)
    got = table_range(E, o.ret[1][0], o.ret[1][1], names, bad)
    want = E.st.misc["want"][1]
    if len(got) != len(want) or not all(same(E, x[0], y[0]) for x, y in zip(got, want)):
        bad("the positions given to C++ do not enclose the entries left to visit")


@op("seqiter", "into_compat", "into_compat_mut")
def _(o):
    E = o.E
    E.ob("C34")
    ct = pairtype(E, o.rett)
    names = ct is not None and members(E, ct, DEQ)
    if not names:
        return
    if E.st.misc.get("want") is None or o.ret[0] != "s":
        raise Undecided("iterator contents")
    def bad(msg):
        o.bad(("C34",), msg)
    got = deque_range(E, o.ret[1][0], o.ret[1][1], names, ct, bad)
    try:
        Seq(o, ("C34",)).runs(got[1], E.st.misc["want"][1], "the positions given to C++ do not enclose the elements left to visit")
    except Unknown:
        pass


# ---------------------------------------------------------------- from a C++ pair
def run(E, root):
    """an iterator is made from the pair of C++ iterators that encloses the rest of a container"""
    from .sem import Skip
    T = E.T
    inst = E.I[root["compat"]]
    b = inst["body"]
    if not b:
        raise Skip("no body")
    if not E.small:
        E.instances = True
        raise Undecided("explicit instances only")
    out = T.strip(b["locals"][0])
    r = raw(E, out)
    ct = T.strip(b["locals"][1])
    names = r and members(E, ct, RAW[T[r[0]]["path"]])
    if not names or b["argc"] != 2 or T.strip(b["locals"][2]) != ct:
        raise Skip("iterator layout")
    table = RAW[T[r[0]]["path"]] is NODE
    def prep(st):
        v = E.make(r[0], "a0", True, None)
        E.fwd = {}
        view = specs.contents(E, r[0], v)
        if view is None:
            raise Undecided("iterator contents")
        st.misc["want"] = view
        n = len(T.fields(ct))
        rn = {f[0]: i for i, f in enumerate(T[r[0]]["variants"][0]["fields"])}
        x, y = [UNIT] * n, [UNIT] * n
        if table:
            start, k, m = v[1][rn["bucket_iter"]][1]
            p = v[1][rn["node_ptr"]]
            at = lambda i: ("p", start[1], (("i", i),), None)
            some = p[1] is not None
            for it, node, i in ((x, p if some else SENTINEL, k - 1 if some else m), (y, SENTINEL, m)):
                it[names["node_ptr"]] = node
                it[names["bucket_ptr"]] = at(i)
        else:
            sub = v[1][rn["subarray_size"]]
            for it, c, a in ((x, "current", "current_arr"), (y, "last", "last_arr")):
                arr = E.asptr(v[1][rn[a]])
                q = E.asptr(E.elem(st.mem[arr[1]][1], arr[2][-1][1]))
                it[names["current"]] = v[1][rn[c]]
                it[names["current_array"]] = arr
                it[names["begin"]] = ("p", q[1], (("i", ZERO),), None)
                it[names["end"]] = ("p", q[1], (("i", sub),), None)
        E.push(inst["id"], [("s", tuple(x)), ("s", tuple(y))], "ret")
        st.misc["args"] = ()
    return E.run_starts(E.begin(prep), root, b["locals"][0])


def post(E, root, rett):
    """the iterator made visits what the pair encloses"""
    if E.st.unw:
        return
    o = Op(E, root, rett)
    E.ob("C34")
    want = E.st.misc["want"]
    got = specs.contents(E, rett, E.st.misc.get("ret", UNIT))
    if got is None:
        raise Undecided("iterator contents")
    msg = "an iterator made from C++ positions does not visit exactly the elements between them"
    if want[0] == "seq":
        a, b = got[1], want[1]
        if len(a) != len(b) or not all(same(E, x[0], y[0]) for x, y in zip(a, b)):
            o.bad(("C34",), msg)
        return
    try:
        Seq(o, ("C34",)).runs(got[1], want[1], msg)
    except Unknown:
        pass
