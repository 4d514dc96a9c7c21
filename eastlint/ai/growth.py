"""C22: the bucket counts a hash table grows to.

The constant prime table is checked as a constant; the growth function is interpreted on a symbolic policy
and symbolic counts with the table search as one primitive, and the result of every path is compared with
what the property requires: structurally where the terms allow it, and refuted only by counts for which
the path is taken and the number it yields is wrong.  The table side (which counts are passed, what is done
with the answer) is checked on every path of the callers."""
import sys, time
from .. import facts, report
from . import sem, models
from .hashes import HashEngine, where
from .terms import Eval, Unknown, f32, float_models
from .poly import P, con, ZERO, ONE, _atom_name
from .core import U, UNIT, NULL, Dead, Fork, PanicEx, Undecided, St


class PolicyEngine(HashEngine):
    """floats are terms, the searched table is one symbolic lookup"""

    def __init__(self, F):
        super().__init__(F)
        self.tables = {}

    def find_model(self, path, fn, argtids):
        if path in ("<[T] as superslice::Ext>::lower_bound", "std::slice::<impl [T]>::partition_point", "<[T] as superslice::Ext>::upper_bound"):
            return search
        return super().find_model(path, fn, argtids)

    def enter_hook(self, i, inst, args, dl, desttid):
        return False

    def elem(self, segs, idx, what="read"):
        key = self.table(segs)
        if key is not None and idx.const() is None:
            n = con(len(self.tables[key]))
            if not self.ge(n - 1 - idx):
                raise Dead()
            return P.atom(("tbl", key, idx))
        return super().elem(segs, idx, what)

    def table(self, segs):
        """the name of a constant array"""
        vals = []
        for lo, hi, c in segs:
            if c[0] != "v" or not isinstance(c[1], P) or c[1].const() is None or (hi - lo).const() is None:
                return None
            vals += [c[1].const()] * (hi - lo).const()
        if len(vals) < 8:
            return None
        key = "table of %d, %d..%d" % (len(vals), vals[0], vals[-1])
        while key in self.tables and self.tables[key] != vals:
            key += "'"
        self.tables[key] = vals
        return key


def search(E, a, at, fn, dl, dt):
    """a binary search of a constant table"""
    p = E.asptr(a[0])
    segs = E.load(p[1], p[2][:-1])
    if segs[0] != "a":
        raise Undecided("search of something else")
    key = E.table(segs[1])
    lo, n = p[2][-1][1].const(), p[3].const()
    if key is None or lo is None or n is None:
        raise Undecided("search of something else")
    name = E.callee_path.split("::")[-1]
    if name == "partition_point":
        x, op = closure_cmp(E, a, at)
    else:
        x, op = deref(E, a[1]), {"lower_bound": "lt", "upper_bound": "le"}[name]
    j = P.atom(("lb", key, lo, n, op, x))
    E.fact(con(n) - j)
    return j


def deref(E, v):
    while isinstance(v, tuple) and v[0] == "p":
        v = E.load(v[1], v[2])
    return E.asint(v)


def closure_cmp(E, a, at):
    """the bound a partition_point closure |e| *e < x compares with"""
    c = a[1]
    if isinstance(c, tuple) and c[0] == "p":
        c = E.load(c[1], c[2])
    t = E.T[E.T.strip(at[1])]
    if t["k"] != "closure" or t.get("inst") is None or c[0] != "s" or len(c[1]) != 1:
        raise Undecided("closure of a search")
    b = E.I[t["inst"]]["body"]
    ops = [s[2] for bl in b["blocks"] for s in bl[0] if s and s[0] == "=" and isinstance(s[2], list) and s[2][0] == "bin"]
    ops = [o[1] for o in ops]
    if ops not in (["Lt"], ["Le"]):
        raise Undecided("closure of a search")
    return deref(E, c[1][0]), {"Lt": "lt", "Le": "le"}[ops[0]]


def prime(n):
    if n < 2:
        return False
    if n % 2 == 0:
        return n == 2
    i = 3
    while i * i <= n:
        if n % i == 0:
            return False
        i += 2
    return True


TOL = 1e-6


def samples(table):
    """counts a table can be in: [(load, growth, buckets, elements, added, next resize)]"""
    out = []
    up = lambda x: min((1 << 32) - 1, -int(-x // 1))
    for L, G in ((1.0, 2.0), (0.5, 2.0), (2.0, 2.0), (1.0, 3.0), (4.0, 1.5)):
        for add in (1, 7, 1000):
            out.append((L, G, 1, 0, add, 0))
        for b in table[:-1]:
            nr = up(f32(f32(float(b)) * L))
            for add in (1, 2, 50):
                for ec in {max(0, nr - add), max(0, nr - add - 1), nr, nr + 1 if nr < 1000 else nr + nr // 1000, max(0, nr // 2)}:
                    if 0 <= ec and ec + add < 1 << 32 and nr < (1 << 32) - 1:
                        out.append((L, G, b, ec, add, nr))
            # a policy whose threshold lags behind
            if b < 1 << 31:
                out.append((L, G, b, int(b * L) // 2, 1, 0))
    return out


def paths(F):
    """(engine, final states, field names, function id, why not)"""
    rid = next((i["id"] for i in F.insts if i["path"].endswith("PrimeRehashPolicy::get_rehash_required") and i.get("body")), None)
    if rid is None:
        return None, [], [], None, "the growth function get_rehash_required was not found"
    E = PolicyEngine(F)
    E.maxtime = time.time() + 120
    b = E.I[rid]["body"]
    root = {"id": rid, "path": E.I[rid]["path"], "name": "get_rehash_required"}
    E.root, E.findings, E.notes, E.steps = root, [], {}, 0
    pt = E.T[E.T.strip(b["locals"][1])]["t"]
    names = [f[0] for f in E.T[E.T.strip(pt)]["variants"][0]["fields"]]
    ftypes = E.T.fields(E.T.strip(pt))

    def prep(st):
        base = ("R", "policy")
        E.st.oty[base] = pt
        vals = []
        for nm, ft in zip(names, ftypes):
            if E.T[E.T.strip(ft)]["k"] == "float":
                vals.append(("o", ("float", nm)))
            elif E.T[E.T.strip(ft)]["k"] == "int":
                p = P.atom(nm)
                E.fact(con((1 << 32) - 1) - p)
                vals.append(p)
            else:
                vals.append(UNIT)
        E.st.mem[base] = ("s", tuple(vals))
        args = [P.atom(x) for x in ("bucket_count", "element_count", "element_add")]
        for x in args:
            E.fact(con((1 << 32) - 1) - x)
        E.push(rid, [("p", base, (), None)] + args, "ret")
        st.misc["args"] = ()
    try:
        fin = []
        for s in E.begin(prep):
            fin += E.explore([s])[2]
    except Undecided as e:
        return E, [], names, rid, "get_rehash_required: %s" % e
    return E, fin, names, rid, None


def policy(F):
    """(findings, proved lines, notes, counts)"""
    finds, lines, notes = [], [], []
    n = {"paths": 0, "states": 0, "tables": 0, "table_entries": 0}
    E, fin, names, rid, why = paths(F)
    if rid is None:
        return [("floor", why)], [], [], n, None
    if why:
        return [], [], [why], n, rid
    for t in E.tables.values():
        n["tables"] += 1
        n["table_entries"] += len(t)
        for x, y in zip(t, t[1:]):
            if x > y or x == y and y != t[-1]:
                finds.append(("table", "the table is not ascending at %d, %d" % (x, y)))
        for x in t:
            if not prime(x):
                finds.append(("table", "the table contains %d, which is not prime" % x))
        if len(t) < 2 or t[-1] != t[-2]:
            finds.append(("table", "the table does not end in a duplicated largest prime"))
    if not E.tables:
        finds.append(("table", "growth does not consult a constant table of primes"))
        return finds, lines, notes, n, rid
    n["paths"] = len(fin)
    primes = set(x for t in E.tables.values() for x in t)
    big = max(primes)
    nri = names.index("next_resize") if "next_resize" in names else None
    # structure
    for s in fin:
        if s.unw:
            continue
        r = s.misc.get("ret", UNIT)
        if r[0] == "e" and r[1] == 1:
            ok = structural(r[2][0], s)
            (lines if ok else notes).append("a path yields %s" % ("the first table entry not below a bound that dominates both the need and the grown count" if ok else "a term that is only examined on explicit counts"))
    table = next(iter(E.tables.values()))
    lost = 0
    seen = set()
    for L, G, bc, ec, add, nr in samples(table):
        env = {"bucket_count": bc, "element_count": ec, "element_add": add, ("float", "max_load_factor"): L, ("float", "growth_factor"): G, "next_resize": nr}
        ev = Eval(E.tables, env)
        hit = []
        for s in fin:
            try:
                if ev.taken(s):
                    hit.append(s)
            except (Unknown, ZeroDivisionError):
                hit = None
                break
        if hit is None or len(hit) != 1:
            lost += 1
            continue
        n["states"] += 1
        s = hit[0]
        what = "with %d buckets, %d elements and %d more" % (bc, ec, add)
        need = (ec + add) / L
        grown = G * (0 if bc == 1 else bc)
        # like the library it mirrors, the growth function drops the fraction of a bucket a load factor other than 1 asks for
        slack = 0 if (L, G) == (1.0, 2.0) else 1
        def bad(k, m):
            if k not in seen:
                seen.add(k)
                finds.append((k, m))
        if s.unw:
            bad("panic", "growth panics %s" % what)
            continue
        r = s.misc.get("ret", UNIT)
        try:
            after = ev.num(E_asint(E, s, E_field(s, nri))) if nri is not None else None
            x = ev.num(E_asint(E, s, r[2][0])) if r[0] == "e" and r[1] == 1 else None
        except (Unknown, Undecided, ZeroDivisionError):
            lost += 1
            n["states"] -= 1
            continue
        if x is not None:
            if x not in primes:
                bad("prime", "the new bucket count %d is not taken from the table %s" % (x, what))
            if x * (1 + TOL) + slack < need and x != big:
                bad("need", "the new bucket count %d is too small %s" % (x, what))
            if x * (1 + TOL) + slack < grown and x != big:
                bad("grown", "the new bucket count %d is less than the grown previous count %s" % (x, what))
            if after is not None and after > x * L * (1 + TOL) + 1:
                bad("threshold", "the next growth is put off until %d elements in %d buckets %s" % (after, x, what))
        else:
            if ec + add > nr and (bc == 1 or need > bc * (1 + TOL) + 1) and bc != big:
                bad("none", "no growth although the elements do not fit %s" % what)
            if after is not None and after != nr and after > bc * L * (1 + TOL) + 1:
                bad("threshold", "the next growth is put off until %d elements in %d buckets %s" % (after, bc, what))
    if lost:
        notes.append("%d explicit counts could not be followed" % lost)
    return finds, lines, notes, n, rid


def E_field(s, i):
    v = s.mem[("R", "policy")]
    return v[1][i]


def E_asint(E, s, v):
    E.st = s
    return E.asint(v)


def structural(x, s):
    """is x the table entry at the lower bound of a float that dominates need/load and growth*buckets?"""
    def single(p):
        if isinstance(p, P) and p.c == 0 and len(p.t) == 1:
            (m, k), = p.t
            if k == 1 and len(m) == 1:
                return _atom_name[m[0]]
        return None
    a = single(x)
    if not (isinstance(a, tuple) and a[0] == "tbl"):
        return False
    j = single(a[2])
    if not (isinstance(j, tuple) and j[0] == "lb" and j[4] == "lt"):
        return False
    k = single(j[5])
    if not (isinstance(k, tuple) and k[0] == "f2i"):
        return False
    low = set()

    def below(v):
        if v in low:
            return
        low.add(v)
        if v[1][0] == "fmax":
            below(v[1][1])
            below(v[1][2])
        for c, b in s.opq.items():
            if c[0] == "fcmp" and c[1] in ("Gt", "Ge", "Lt", "Le"):
                big, small = (c[2], c[3]) if (c[1] in ("Gt", "Ge")) == b else (c[3], c[2])
                if big == v:
                    below(small)
    below(k[2])
    ec = P.atom("element_count") + P.atom("element_add")
    def is_need(v):
        return v[1][0] == "Div" and v[1][1][1][0] == "i2f" and v[1][2] == ("o", ("float", "max_load_factor")) and (v[1][1][1][1] == ec or v[1][1][1][1] == P.atom(("wrap", 32, ec)))
    def is_grown(v):
        if v[1][0] != "Mul":
            return False
        for p, q in ((v[1][1], v[1][2]), (v[1][2], v[1][1])):
            if p == ("o", ("float", "growth_factor")) and q[1][0] == "i2f" and (q[1][1] == P.atom("bucket_count") or q[1][1] == ZERO):
                return True
        return False
    return any(map(is_need, low)) and any(map(is_grown, low))


def default_policies(F):
    """[(function id, {field: value})] of the policy a new table starts with"""
    out = []
    for i in F.insts:
        if not (i["path"].endswith("Default>::default") and i["path"].lstrip("<").startswith("internal::hash_table::rehash_policy::PrimeRehashPolicy") and i.get("body")):
            continue
        E = PolicyEngine(F)
        E.maxtime = time.time() + 20
        E.root, E.findings, E.notes, E.steps = {"id": i["id"], "path": i["path"], "name": "default"}, [], {}, 0
        tid = i["body"]["locals"][0]
        names = [f[0] for f in E.T[E.T.strip(tid)]["variants"][0]["fields"]]

        def prep(st):
            E.push(i["id"], [], "ret")
            st.misc["args"] = ()
        try:
            fin = []
            for s in E.begin(prep):
                fin += E.explore([s])[2]
        except Undecided:
            continue
        for s in fin:
            v = s.misc.get("ret", UNIT)
            if v[0] != "s" or s.unw:
                continue
            vals = {}
            for nm, x in zip(names, v[1]):
                try:
                    vals[nm] = Eval({}, {}).flo(x) if isinstance(x, tuple) and x[0] == "o" else Eval({}, {}).num(x) if isinstance(x, P) else None
                except Unknown:
                    pass
            out.append((i["id"], vals))
    return out


def defaults(F):
    out = []
    pol = default_policies(F)
    for i, vals in pol:
        l, g, r = vals.get("max_load_factor"), vals.get("growth_factor"), vals.get("next_resize")
        if l is not None and not 0 < l <= 1:
            out.append((i, "a new table holds up to %g elements per bucket before it grows" % l))
        if g is not None and not g > 1:
            out.append((i, "a new table grows by a factor of %g" % g))
        if r:
            out.append((i, "a new table does not grow before %d elements" % r))
    return out, len(pol)


def c22(tier):
    from . import checks
    F = facts.load()

    def scope(r):
        p = r["path"].lstrip("<")
        return p.startswith(("internal::hash_table::HashTable", "internal::hash_table::entry"))
    res = checks.engine("C22", tier, ("C22",), scope, 10)
    finds, lines, notes, n, rid = policy(F)
    for k, m in finds:
        res.add("C22:%s" % k if k != "panic" else "C22:panic", where(F, rid) if rid is not None else "-", "growth policy", m)
    d, nd = defaults(F)
    for i, m in d:
        res.add("C22:default:%s" % m, where(F, i), "growth policy", m)
    for k, v in n.items():
        res.count("policy_" + k, v)
    res.count("default_policies", nd)
    for l in sorted(set(lines)):
        res.sample(l)
    res.oblig(True, len(lines) + n["table_entries"] + nd)
    for x in notes:
        res.oblig(False)
    res.notes += notes
    res.assumptions += ["the tree of float operations is compared structurally; where that fails, the path's result is examined on explicit counts along the whole prime table",
                        "fractions of a bucket are dropped for load factors other than 1, as in the library this mirrors"]
    return res


# ---------------------------------------------------------------- C32: the figures of the C++ library
def reference(table, L, G, bc, ec, add, nr):
    """(new bucket count or None, new threshold) of eastl::prime_rehash_policy::GetRehashRequired"""
    sat = lambda x: max(0, min((1 << 32) - 1, int(x))) if x == x else 0
    import math
    if ec + add > nr:
        b = 0 if bc == 1 else bc
        need = f32(f32(float(ec + add)) / L)
        if need > f32(float(b)):
            need = max(need, f32(G * f32(float(b))))
            k = sat(need)
            p = next((x for x in table[:-1] if x >= k), table[-1])
            return p, sat(math.ceil(f32(f32(float(p)) * L)))
        return None, sat(math.ceil(f32(f32(float(b)) * L)))
    return None, nr


def growth_figures(F, res):
    from .expected import PRIMES
    E, fin, names, rid, why = paths(F)
    at = where(F, rid) if rid is not None else "-"
    if rid is None:
        res.add("floor:policy", "-", "floor", why)
        return
    if why:
        res.notes.append(why)
        return
    for t in E.tables.values():
        res.count("table_entries", len(t))
        for i, (x, y) in enumerate(zip(t, PRIMES)):
            if x != y:
                res.add("C32:table", at, "growth figures", "entry %d of the prime table is %d, not %d" % (i, x, y))
                break
        else:
            if len(t) != len(PRIMES):
                res.add("C32:table", at, "growth figures", "the prime table has %d entries, not %d" % (len(t), len(PRIMES)))
            else:
                res.oblig(True, len(t))
    if not E.tables:
        res.notes.append("no constant prime table found")
        return
    nri = names.index("next_resize") if "next_resize" in names else None
    lost = 0
    for L, G, bc, ec, add, nr in samples(PRIMES):
        env = {"bucket_count": bc, "element_count": ec, "element_add": add, ("float", "max_load_factor"): L, ("float", "growth_factor"): G, "next_resize": nr}
        ev = Eval(E.tables, env)
        try:
            hit = [s for s in fin if ev.taken(s)]
            if len(hit) != 1:
                raise Unknown("paths")
            s = hit[0]
            if s.unw:
                raise Unknown("panic")
            r = s.misc.get("ret", UNIT)
            x = ev.num(E_asint(E, s, r[2][0])) if r[0] == "e" and r[1] == 1 else None
            after = ev.num(E_asint(E, s, E_field(s, nri))) if nri is not None else None
        except (Unknown, Undecided, ZeroDivisionError, OverflowError):
            lost += 1
            continue
        res.count("growth_states")
        rx, rn = reference(PRIMES, L, G, bc, ec, add, nr)
        what = "with load %g, growth %g, %d buckets, %d elements, %d more and threshold %d" % (L, G, bc, ec, add, nr)
        if x != rx:
            res.add("C32:buckets", at, "growth figures", "%s new buckets instead of %s %s" % (x, rx, what))
        elif after is not None and after != rn:
            res.add("C32:threshold", at, "growth figures", "threshold %d instead of %d %s" % (after, rn, what))
    if lost:
        res.notes.append("%d explicit counts could not be followed" % lost)
    else:
        res.oblig(True, len(fin))
    for i, m in default_figures(F):
        res.add("C32:default:%s" % m, where(F, i), "growth figures", m)


def default_figures(F):
    out = []
    for i, vals in default_policies(F):
        for nm, want in (("max_load_factor", 1.0), ("growth_factor", 2.0), ("next_resize", 0)):
            if vals.get(nm) is not None and vals[nm] != want:
                out.append((i, "a new policy's %s is %g, not %g" % (nm, vals[nm], want)))
    return out


def c32(tier):
    from . import hashes
    F = facts.load()
    res = report.Result()
    hashes.figures(F, res)
    growth_figures(F, res)
    from . import checks
    def scope(r):
        return r["path"].lstrip("<").startswith(("deque::", "queue::")) or r.get("adt", "").startswith(("deque::", "queue::"))
    checks.engine("C32", tier, None, scope, 10, res)
    res.floor("implementations", 12, "C32")
    res.assumptions += ["the reference is a transcription of the C++ library's hash functions, prime table and growth function (expected.py and reference())",
                        "texts are partitioned by length (up to seventeen symbolic bytes), integers and floats into the values at which the result term is evaluated when it is not literally the expected one",
                        "float keys: non-negative and in range, where the C++ conversion is defined"]
    return res


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    t0 = time.time()
    for x in policy(facts.load()):
        print(x)
    print("%.1fs" % (time.time() - t0))
