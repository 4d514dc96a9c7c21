"""C21: what the default hashes depend on.

Every implementation of Hash for DefaultHash is interpreted on symbolic keys and its result, a term over
the key's value, is examined: no address may occur in it, the two zeros of a float must give one result,
and all string-like keys must give one result for one text (texts of up to seventeen symbolic bytes)."""
import re, time
from .. import facts, report
from ..mir import norm_path
from . import sem, models
from .poly import P, con, ZERO, ONE, _atom_name
from .terms import Eval, Unknown, deep, value, taken, float_models
from .core import U, UNIT, NULL, Dead, Fork, PanicEx, Undecided, St

LENGTHS = (0, 1, 2, 3, 4, 7, 8, 9, 17)
# texts whose encoding and characters differ, followed with their actual bytes
TEXTS = ("", "a", "\u00e9", "\u20acx", "a\U0001f600b", "Stra\u00dfe", "\x7f", "abcdefghijklmnopqrst")

M2 = {}
FM = float_models()


def model(*names):
    def d(f):
        for n in names:
            M2[n] = f
        return f
    return d


@model("std::ffi::CStr::from_ptr", "std::ffi::c_str::CStr::from_ptr")
def m_from_ptr(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    if p[1] != E.textbase or not p[2] or p[2][-1][1] != ZERO:
        raise Undecided("CStr::from_ptr of something else")
    return ("p", p[1], p[2], con(E.textlen + 1))


@model("std::ffi::CStr::to_bytes", "std::ffi::c_str::CStr::to_bytes")
def m_to_bytes(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    return ("p", p[1], p[2], p[3] - 1)


@model("std::ffi::CStr::to_bytes_with_nul", "std::ffi::c_str::CStr::to_bytes_with_nul")
def m_to_bytes_nul(E, a, at, fn, dl, dt):
    return E.asptr(a[0])


@model("std::ffi::CStr::count_bytes", "std::ffi::c_str::CStr::count_bytes")
def m_count(E, a, at, fn, dl, dt):
    return E.asptr(a[0])[3] - 1


@model("alloc::ffi::c_str::<impl std::ffi::CStr>::to_string_lossy", "std::string::String::from_utf8_lossy")
def m_lossy(E, a, at, fn, dl, dt):
    # the text is valid UTF-8: that is what makes it the same text as that of the other key types
    p = E.asptr(a[0])
    return ("e", 0, (("p", p[1], p[2], p[3] - 1 if "lossy" in E.callee_path and "CStr" in E.callee_path else p[3]),))


@model("<std::borrow::Cow<'_, T> as std::convert::AsRef<T>>::as_ref", "<std::borrow::Cow<'_, B> as std::ops::Deref>::deref")
def m_cow(E, a, at, fn, dl, dt):
    r = E.asptr(a[0])
    v = E.load(r[1], r[2])
    if v[0] == "e" and v[1] == 0:
        return v[2][0]
    raise Undecided("owned Cow")


@model("std::ffi::CStr::to_str", "std::ffi::c_str::CStr::to_str")
def m_to_str(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    return ("e", 0, (("p", p[1], p[2], p[3] - 1),))


@model("std::str::from_utf8", "std::str::converts::from_utf8")
def m_from_utf8(E, a, at, fn, dl, dt):
    return ("e", 0, (a[0],))


@model("std::ptr::const_ptr::<impl *const T>::addr", "std::ptr::mut_ptr::<impl *mut T>::addr", "std::ptr::const_ptr::<impl *const T>::expose_provenance")
def m_addr(E, a, at, fn, dl, dt):
    return E.addr(E.asptr(a[0]))


def _bits(E, a, at, fn, dl, dt):
    return E.fbits(a[0])


for _t in ("f32", "f64"):
    for _p in ("std::%s::<impl %s>::to_bits" % (_t, _t), "std::num::<impl %s>::to_bits" % _t, "std::%s::<impl %s>::to_bits" % ("num", _t)):
        M2[_p] = _bits


@model("std::str::<impl str>::chars", "std::str::<impl str>::char_indices")
def m_chars(E, a, at, fn, dl, dt):
    p = E.asptr(a[0])
    return ("o", ("chars", p, ZERO, p[3], "indices" in E.callee_path))


@model("<std::str::Chars<'a> as std::iter::Iterator>::next", "<std::str::CharIndices<'a> as std::iter::Iterator>::next")
def m_chars_next(E, a, at, fn, dl, dt):
    r = E.asptr(a[0])
    v = E.load(r[1], r[2])
    if v[0] != "o" or v[1][0] != "chars":
        raise Undecided("characters of something else")
    _, p, i, n, idx = v[1]
    if i == n:
        return models.NONE
    def byte(k):
        path = p[2][:-1] + (("i", p[2][-1][1] + i + k),)
        return E.asint(E.load(p[1], path))
    b0 = byte(0)
    if b0.const() is None:
        k, c = 1, b0                    # symbolic bytes are ASCII
    else:
        x = b0.const()
        k = 1 if x < 0x80 else 2 if x < 0xe0 else 3 if x < 0xf0 else 4
        c = con(ord(bytes(byte(j).const() for j in range(k)).decode()))
    E.store(r[1], r[2], ("o", ("chars", p, i + k, n, idx)))
    return models.some(("s", (i, c)) if idx else c)


@model("<I as std::iter::IntoIterator>::into_iter")
def m_into_iter(E, a, at, fn, dl, dt):
    return a[0]


class HashEngine(sem.Sem):
    """no functional models of text: bytes are terms"""
    fzero = None

    def __init__(self, F):
        super().__init__(F)
        self.narrowing = False
        self.small = True
        self.MAXTURNS = 24
        self.maxsteps = 60000
        self.textbase = None
        self.textlen = 0

    def find_model(self, path, fn, argtids):
        if path in M2:
            return M2[path]
        if path in FM:
            return FM[path]
        if "Chars" in path or path.endswith("<impl str>::chars") or "char::" in path:
            return None         # characters are decoded from the bytes
        return super().find_model(path, fn, argtids)

    def wrap_hi(self, z, mx, bits, op):
        if bits < 64:
            c = z.const()
            if c is not None:
                return con(c % (1 << bits))
            return P.atom(("wrap", bits, z))
        return super().wrap_hi(z, mx, bits, op)

    def fbits(self, v):
        if isinstance(v, tuple) and v[0] == "o" and v[1][0] == "fz":
            return con(v[1][2])
        return P.atom(("fbits", v))

    # floats: +0.0 and -0.0 are followed as such
    def cast(self, f, kind, op, tid):
        if kind in ("FloatToInt", "FloatToFloat", "Transmute"):
            v, src = self.operand(f, op), self.optype(f, op)
            if isinstance(v, tuple) and v[0] == "o" and src is not None and self.T[self.T.strip(src)]["k"] == "float":
                z = v[1][0] == "fz"
                if kind == "FloatToInt" and z:
                    return ZERO
                if kind == "Transmute":
                    return self.fbits(v)
                if kind == "FloatToFloat" and z:
                    return self.fconst(v[1][1], tid)
                t = self.T[self.T.strip(tid)]
                if kind == "FloatToInt":
                    r = P.atom(("f2i", t["bits"], v))
                    self.fact(con((1 << t["bits"]) - 1) - r)
                    return r
                if kind == "FloatToFloat":
                    return ("o", ("f2f", v, t["s"]))
        if kind == "IntToFloat":
            return ("o", ("i2f", self.asint(self.operand(f, op)), self.T[self.T.strip(tid)]["s"]))
        if kind == "IntToInt":
            src = self.optype(f, op)
            t = self.T[self.T.strip(src)] if src is not None else {}
            d = self.T[self.T.strip(tid)]
            if t.get("k") == "int" and t.get("signed") and d["k"] == "int":
                v = self.asint(self.operand(f, op))
                c = v.const()
                if c is not None:
                    c = (c + (1 << t["bits"] - 1)) % (1 << t["bits"]) - (1 << t["bits"] - 1)
                    c %= 1 << d["bits"]
                    return con(c - (1 << d["bits"]) if d.get("signed") and c >= 1 << d["bits"] - 1 else c)
                if not self.ent(v) or self.maybe(v - (1 << t["bits"] - 1)):
                    r = P.atom(("sext", t["bits"], d["bits"], v))
                    self.fact(con((1 << d["bits"]) - 1) - r)
                    return r
        return super().cast(f, kind, op, tid)

    def asint(self, v):
        if isinstance(v, tuple) and v[0] == "o" and v[1][0] == "fz":
            return con(v[1][2])
        return super().asint(v)

    def utf8_formed(self, p):
        pass        # decided by C11

    def adjust(self, base, path, want):
        if base is not None and base == self.textbase:
            return path
        if base == ("R", "key") and not path and self.T[self.T.strip(self.st.oty[base])]["k"] == "float" and self.T[self.T.strip(want)]["k"] == "int" and self.T[self.T.strip(want)]["size"] == self.T[self.T.strip(self.st.oty[base])]["size"]:
            return path
        return super().adjust(base, path, want)

    def binop(self, op, a, b, tid, f=None, r=None):
        def z(v):
            if not isinstance(v, tuple) or v[0] != "o":
                return None
            return v[1][1] if v[1][0] == "fz" else (1 if v[1][1] == 0 else -1 if v[1][1] in (1 << 31, 1 << 63) else 2) if v[1][0] == "f" else None
        if tid is not None and self.T[self.T.strip(tid)]["k"] == "float":
            x, y = z(a), z(b)
            if x is not None and y is not None and op in ("Eq", "Ne", "Add"):
                if op in ("Eq", "Ne"):
                    if 2 in (x, y) and x == y:
                        return super().binop(op, a, b, tid, f, r)
                    eq = 2 not in (x, y)
                    return ONE if eq == (op == "Eq") else ZERO
                if abs(x) == 1 and abs(y) == 1:
                    return self.fconst(1 if 1 in (x, y) else -1, tid)
        return super().binop(op, a, b, tid, f, r)

    def fconst(self, sign, tid):
        return ("o", ("fz", sign, 0 if sign > 0 else 1 << (self.T[self.T.strip(tid)]["size"] * 8 - 1)))


class Hashes:
    def __init__(self, F):
        self.F = F
        self.dead = []

    def roots(self):
        return [r for r in self.F.roots if r["name"] == "hash" and "DefaultHash" in r["path"] and r["id"] is not None and "Hash<" in r["path"]]

    def run(self, rid, build):
        """[(facts, result term)] of the function from the states `build` makes; and what stopped it"""
        E = HashEngine(self.F)
        E.maxtime = time.time() + 25
        b = E.I[rid]["body"]
        root = {"id": rid, "path": E.I[rid]["path"], "name": "hash"}
        E.root, E.findings, E.notes, E.steps = root, [], {}, 0
        def prep(st):
            v = build(E, b["locals"][1])
            E.push(rid, [v], "ret")
            st.misc["args"] = ()
        out = []
        starts = E.begin(prep)
        for s in starts:
            try:
                _, _, fin = E.explore([s])
            except Undecided as e:
                return None, str(e), E
            for f in fin:
                if not f.unw:
                    out.append((f, f.misc.get("ret", UNIT)))
        return out, None, E

    # the kinds of key
    def texty(self, T, tid):
        """how the key type holds text: None if it does not"""
        t = T[T.strip(tid)]
        if t["k"] == "str":
            return "str"
        if t["k"] in ("ref", "ptr"):
            u = T[T.strip(t["t"])]
            if u["k"] == "str":
                return "ref"
            if t["k"] == "ptr" and u["k"] == "int" and u["bits"] == 8:
                return "cstr"
        if t["k"] == "adt" and t["path"] == "string::String":
            return "string"
        return None

    def key(self, kind, bts, empty=None):
        """builder of a reference to a key of that kind with the given bytes"""
        n = len(bts)
        def build(E, reft):
            T = E.T
            pt = T[T.strip(reft)]["t"]
            E.textbase, E.textlen = ("R", "text"), n
            base = E.textbase
            segs = [(con(i), con(i + 1), ("v", x)) for i, x in enumerate(bts)]
            for x in bts:
                E.fact(con(127 if x.const() is None else 255) - x)
                E.fact(x - 1)
            if kind == "str":
                E.st.oty[base] = ("arr", E.u8)
                E.st.mem[base] = ("a", tuple(segs))
                return ("p", base, (("i", ZERO),), con(n))
            if kind == "ref":
                E.st.oty[base] = ("arr", E.u8)
                E.st.mem[base] = ("a", tuple(segs))
                outer = ("R", "key")
                E.st.oty[outer] = pt
                E.st.mem[outer] = ("p", base, (("i", ZERO),), con(n))
                return ("p", outer, (), None)
            if kind == "cstr":
                E.st.oty[base] = ("arr", T[T.strip(pt)]["t"])
                E.st.mem[base] = ("a", tuple(segs) + ((con(n), con(n + 1), ("v", ZERO)),))
                outer = ("R", "key")
                E.st.oty[outer] = pt
                E.st.mem[outer] = ("p", base, (("i", ZERO),), None)
                return ("p", outer, (), None)
            # a string: begin, end, capacity over a buffer with a terminator and spare room
            outer = ("R", "key")
            E.st.oty[outer] = pt
            E.st.mem[outer] = U
            sh = sem.Vec()
            vt = T.strip(T.fields(T.strip(pt))[0])
            fs, ptrs, alloc, el = sh.parts(E, vt)
            vals = [UNIT] * len(fs)
            for i in alloc:
                vals[i] = E.make(fs[i], ("a", "f", i), True, None)
            if empty:
                for i in ptrs:
                    vals[i] = NULL
            else:
                b = ("B", "text")
                c = con(n + 3)
                E.st.blk[b] = {"bytes": c + 1, "n": c + 1, "align": ONE, "alloc": sh.alloc_root(E, vals[alloc[0]]), "kind": "heap"}
                E.st.oty[b] = ("arr", E.u8)
                E.st.mem[b] = ("a", tuple(segs) + ((con(n), con(n + 1), ("v", ZERO)), (con(n + 1), c + 1, U)))
                sh.ptrvals(E, vals, ptrs, b, con(n), c)
            E.st.mem[outer] = ("s", (("s", tuple(vals)),))
            return ("p", outer, (), None)
        return build

    def scalar(self, make):
        def build(E, reft):
            pt = E.T[E.T.strip(reft)]["t"]
            base = ("R", "key")
            E.st.oty[base] = pt
            E.st.mem[base] = make(E, pt)
            return ("p", base, (), None)
        return build


def analyse(F):
    """(findings [(fn path, message)], report lines, undecided lines, counts)"""
    H = Hashes(F)
    finds, lines, und = [], [], []
    n = {"implementations": 0, "terms": 0, "comparisons": 0}
    texts = {}
    for r in H.roots():
        rid = r["id"]
        E0 = HashEngine(F)
        body = E0.I[rid]["body"]
        if not body:
            continue
        n["implementations"] += 1
        T = E0.T
        kt = T[T.strip(body["locals"][1])]["t"]
        kind = H.texty(T, kt)
        t = T[T.strip(kt)]
        path = r["path"]
        if kind:
            texts[path] = (rid, kind)
            continue
        runs = []
        if t["k"] == "float":
            runs = [("zero", lambda E, pt, s=s: E.fconst(s, pt)) for s in (1, -1)] + [("any", lambda E, pt: ("o", ("float", "key")))]
        elif t["k"] == "int":
            def mk(E, pt):
                p = P.atom("key")
                E.fact(con((1 << t["bits"]) - 1) - p)
                return p
            runs = [("any", mk)]
        elif t["k"] == "bool":
            runs = [("any", lambda E, pt: ZERO), ("any", lambda E, pt: ONE)]
        else:
            und.append("%s: keys of type %s" % (path, t.get("s")))
            continue
        zeros = []
        for what, mk in runs:
            res, why, E = H.run(rid, H.scalar(mk))
            if res is None:
                if not (what == "any" and t["k"] == "float"):
                    und.append("%s: %s" % (path, why))
                continue
            for st, v in res:
                n["terms"] += 1
                E.st = st
                try:
                    v = E.asint(v)
                except Undecided as e:
                    und.append("%s: %s" % (path, e))
                    continue
                if what == "zero":
                    zeros.append(v)
                ats = deep(v, set())
                if any(isinstance(a, tuple) and a[0] == "addr" for a in ats):
                    finds.append((path, "the hash depends on the address of the key"))
        if len(zeros) == 2:
            n["comparisons"] += 1
            if all(z.const() is not None for z in zeros) and zeros[0].const() != zeros[1].const():
                finds.append((path, "0.0 and -0.0 compare equal and hash to %d and %d" % tuple(z.const() for z in zeros)))
            elif zeros[0] == zeros[1]:
                lines.append("%s: one result for 0.0 and -0.0" % path)
        elif not any(path == f for f, _ in finds):
            lines.append("%s: a term over the value alone" % path)
    # string-like keys
    def results(bts):
        got = {}
        for path, (rid, kind) in texts.items():
            for empty in (False, True) if kind == "string" and not bts else (False,):
                res, why, E = H.run(rid, H.key(kind, bts, empty))
                if res is None:
                    und.append("%s, %d bytes: %s" % (path, len(bts), why))
                    continue
                vs = []
                for st, v in res:
                    E.st = st
                    try:
                        vs.append(E.asint(v))
                    except Undecided as e:
                        und.append("%s: %s" % (path, e))
                n["terms"] += len(vs)
                if len(vs) == 1:
                    got[(path, empty)] = vs[0]
                elif vs:
                    und.append("%s, %d bytes: %d results" % (path, len(bts), len(vs)))
                for v in vs:
                    if any(isinstance(a, tuple) and a[0] == "addr" for a in deep(v, set())):
                        finds.append((path, "the hash depends on an address"))
        return got
    def compare(got, name, env=None):
        ref = next((p for p in got if texts[p[0]][1] == "str"), None) or next(iter(got), None)
        for p in got:
            if p == ref:
                continue
            n["comparisons"] += 1
            a, b = got[ref], got[p]
            if a == b:
                continue
            try:
                x, y = value(a, env or {}), value(b, env or {})
            except (Unknown, ZeroDivisionError) as e:
                und.append("%s: not comparable for %s: %s" % (p[0], name, str(e)[:80]))
                continue
            if x != y:
                finds.append((p[0], "hashes the same text to another value than %s%s" % (ref[0], " when the string owns no buffer" if p[1] else "")))
            else:
                und.append("%s: another term than %s for %s, the same for the bytes tried" % (p[0], ref[0], name))
    lo = len(und)
    for k in LENGTHS:
        bts = [P.atom(("byte", i), 1) for i in range(k)]
        got = results(bts)
        env = {("byte", i): (97 + 5 * i) % 120 + 1 for i in range(k)}
        compare(got, "%d symbolic bytes" % k, env)
    for s in TEXTS:
        compare(results([con(x) for x in s.encode()]), repr(s))
    if texts and len(und) == lo:
        lines.append("%d string-like key types: one term for every text of %s symbolic bytes" % (len(texts), ", ".join(map(str, LENGTHS))))
    n["text_keys"] = len(texts)
    return sorted(set(finds)), lines, und, n



def fnv1(bts):
    r = 2166136261
    for b in bts:
        r = r * 16777619 % (1 << 32) ^ b
    return r


def figures(F, res):
    """C32: the value of every default hash against the one the C++ library computes"""
    H = Hashes(F)
    INT = lambda b, s: sorted({0, 1, 2, 3, 5, 100, 127, 128, 200, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 0xdeadbeef, 0x0123456789abcdef} & set(range(1 << b) if b < 32 else [x for x in (0, 1, 2, 3, 5, 100, 127, 128, 200, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 0xdeadbeef, 0x0123456789abcdef) if x < 1 << b]))
    for r in H.roots():
        rid, path = r["id"], r["path"]
        E0 = HashEngine(F)
        body = E0.I[rid]["body"]
        if not body:
            continue
        res.count("implementations")
        T = E0.T
        kt = T[T.strip(body["locals"][1])]["t"]
        kind = H.texty(T, kt)
        t = T[T.strip(kt)]
        at = where(F, rid)

        def check(out, why, E, want, samples, name):
            """every path's term on the values that take it"""
            if out is None:
                res.notes.append("%s: %s" % (path, why))
                res.oblig(False)
                return
            done = False
            for env, key in samples:
                vals = []
                for st, v in out:
                    E.st = st
                    try:
                        x = E.asint(v)
                        if any(isinstance(a, tuple) and a[0] == "addr" for a in deep(x, set())):
                            res.add("C32:%s" % path, at, "hash value", "the hash depends on an address")
                            return
                        if taken(st, env):
                            vals.append(value(x, env) % (1 << 64))
                    except (Unknown, Undecided, ZeroDivisionError):
                        pass
                if len(vals) != 1:
                    continue
                done = True
                res.count("values")
                if vals[0] != want(env) % (1 << 64):
                    res.add("C32:%s" % path, at, "hash value", "%s hashes to %d, in the C++ library to %d" % (key, vals[0], want(env) % (1 << 64)))
                    return
            res.oblig(done)
            if not done:
                res.notes.append("%s, %s: no term to compare" % (path, name))
        if kind:
            for k in LENGTHS:
                out, why, E = H.run(rid, H.key(kind, [P.atom(("byte", i), 1) for i in range(k)]))
                envs = [{("byte", i): (a + m * i) % 127 + 1 for i in range(k)} for a, m in ((96, 5), (31, 1), (7, 77))]
                check(out, why, E, lambda e, k=k: fnv1([e[("byte", i)] for i in range(k)]), [(e, "a text of %d bytes" % k) for e in envs], "%d bytes" % k)
            for s in TEXTS:
                out, why, E = H.run(rid, H.key(kind, [con(x) for x in s.encode()]))
                check(out, why, E, lambda e, s=s: fnv1(s.encode()), [({}, repr(s))], repr(s))
        elif t["k"] == "int":
            b, sg = t["bits"], t.get("signed")
            def mk(E, pt):
                p = P.atom("key")
                E.fact(con((1 << b) - 1) - p)
                return p - (1 << b - 1) if sg else p
            out, why, E = H.run(rid, H.scalar(mk))
            off = 1 << b - 1 if sg else 0
            check(out, why, E, lambda e: e["key"] - off, [({"key": x}, str(x - off)) for x in INT(b, sg)], "integers")
        elif t["k"] == "bool":
            for x in (0, 1):
                out, why, E = H.run(rid, H.scalar(lambda E, pt: con(x)))
                check(out, why, E, lambda e: x, [({}, str(bool(x)).lower())], "bool")
        elif t["k"] == "float":
            out, why, E = H.run(rid, H.scalar(lambda E, pt: ("o", ("float", "key"))))
            check(out, why, E, lambda e: int(e[("float", "key")]), [({("float", "key"): x, (("float", "key"), "wide"): t.get("size") == 8}, repr(x)) for x in (0.0, 0.5, 1.0, 1.5, 2.75, 1000.25, 16777216.0, 3e9, 1e15)], "floats")


STATEFUL = re.compile(r"sync::atomic::Atomic\w*.*::(load|swap|fetch_\w+|compare_\w+)$|cell::(Cell|RefCell|UnsafeCell|OnceCell|LazyCell)<?.*::(get|get_mut|borrow|borrow_mut|take|replace|with|update|get_or_init)$|thread::local::LocalKey.*::(with|get|try_with|take|replace)$"
                      r"|(RandomState|BuildHasher\w*)|time::(Instant|SystemTime).*::now$|thread::current$|std::env::|process::id$|sync::(\w+::)*(Mutex|RwLock|OnceLock|LazyLock).*::(lock|read|write|get|get_or_init|force)$")


def reach(F, rid):
    """bodies a function can run"""
    from ..rules_graph import call_edges
    from ..mir import Mir
    M = Mir(F)
    seen, todo = set(), [rid]
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        todo += [c for c, _, _, _ in call_edges(M, M.insts[i])]
    return [M.insts[i] for i in seen]


def statics(x, out):
    if isinstance(x, dict):
        if "static" in x and (x.get("mutable") or x.get("interior")):
            out.append(x["static"])
        for v in x.values():
            statics(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            statics(v, out)
    return out


def stateful(F, H):
    """places in the code below a hash implementation that read state outside the key"""
    out = []
    for r in H.roots():
        for inst in reach(F, r["id"]):
            b = inst.get("body")
            if not b:
                continue
            for stmts, term, clean in b["blocks"]:
                for s in statics(stmts, []) + statics(term, []):
                    out.append((r["path"], inst["path"], "reads the mutable static %s" % s))
                if term and term[0] == "call" and isinstance(term[1], dict) and term[1].get("fn"):
                    fn = term[1]["fn"]
                    p = norm_path(fn.get("rpath") or fn["path"])
                    if STATEFUL.search(p):
                        out.append((r["path"], inst["path"], "calls %s" % p))
    return sorted(set(out))


def c21(tier):
    F = facts.load()
    res = report.Result()
    H = Hashes(F)
    roots = {r["path"]: r for r in H.roots()}
    finds, lines, und, n = analyse(F)
    for k, v in n.items():
        res.count(k, v)
    for path, msg in finds:
        res.add("C21:%s:%s" % (path, msg), roots[path].get("where") or where(F, roots[path]["id"]), "value-only", msg)
    st = stateful(F, H)
    for path, fn, msg in st:
        res.add("C21:%s:%s" % (path, msg), where(F, roots[path]["id"]), "no state", "%s %s" % (fn, msg))
    for r in roots.values():
        res.count("bodies_searched_for_state", len(reach(F, r["id"])))
    res.oblig(True, n["implementations"] + n["comparisons"] - len(finds))
    for l in lines:
        res.sample(l)
    res.notes += und
    res.floor("implementations", 12, "C21")
    res.floor("text_keys", 2, "C21")
    res.assumptions += ["texts are partitioned by length (up to seventeen symbolic bytes) and a few texts beyond ASCII are followed exactly",
                        "the C string behind a pointer key is valid UTF-8 and does not change while it is a key"]
    return res


def where(F, rid):
    i = next(i for i in F.insts if i["id"] == rid)
    return i.get("span") or "-"


if __name__ == "__main__":
    import sys
    sys.setrecursionlimit(20000)
    t0 = time.time()
    f, l, u, n = analyse(facts.load())
    for x in f: print("FINDING", x)
    for x in l: print("  ", x)
    for x in u: print("  und", x)
    print(n, "%.1fs" % (time.time() - t0))
