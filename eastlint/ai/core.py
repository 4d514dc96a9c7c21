"""Abstract interpreter over the instantiated MIR: symbolic sizes, segment-wise array contents,
token ledger, inductive loop states.  Values are immutable nested tuples with polynomials as leaves.

 int            P
 bool           P 0/1 | ('b','ge'|'eq'|'ne',P) | ('bo',key,neg)
 struct/tuple   ('s',(v..))          enum  ('e',variant,(v..))
 pointer        ('p',base,path,meta) base None: an address that is no object (null when path[0]==0)
 array          ('a',((lo,hi,content)..))   content ('u',) | ('v',val) | ('q',seq,off,tid)
 token          ('y',seq,idx,tid)    an abstract element: the idx-th of a named sequence
 opaque         ('o',term)           uninitialised ('u',)
"""
import re, time
from .poly import P, con, ZERO, ONE, entails, infeasible, witness, subst_any, atoms_any, atom_id, USIZE_MAX, ISIZE_MAX, _atom_name

U = ("u",)
UNIT = ("s", ())
NULL = ("p", None, (ZERO,), None)


class Fork(Exception):
    def __init__(self, n):
        self.n = n


class Dead(Exception):
    pass


class PanicEx(Exception):
    pass


class Undecided(Exception):
    pass


class Budget(Undecided):
    pass


class GenFail(Exception):
    pass


class St:
    __slots__ = ("mem", "oty", "blk", "facts", "opq", "frames", "acq", "disp", "misc", "events", "unw", "exact", "ctr", "flags", "dec")

    def __init__(self):
        self.mem = {}
        self.oty = {}
        self.blk = {}
        self.facts = ()
        self.opq = {}
        self.frames = []
        self.acq = {}
        self.disp = {}
        self.misc = {}
        self.events = ()
        self.unw = False
        self.exact = True
        self.ctr = 0
        self.flags = frozenset()
        self.dec = ()

    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.oty = dict(self.oty)
        s.blk = dict(self.blk)
        s.facts = self.facts
        s.opq = dict(self.opq)
        s.frames = [list(f) for f in self.frames]
        s.acq = dict(self.acq)
        s.disp = dict(self.disp)
        s.misc = dict(self.misc)
        s.events = self.events
        s.unw = self.unw
        s.exact = self.exact
        s.ctr = self.ctr
        s.flags = self.flags
        s.dec = self.dec
        return s


# frame: [uid, inst id | 'glue', bb | actions, unwind, dest(base,path)|None, resume?]
UID, INST, BB, UNW, DEST, RES = range(6)

TRANSPARENT = {"std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::cell::UnsafeCell", "std::cell::Cell", "std::ptr::NonNull",
               "std::mem::MaybeDangling", "std::mem::maybe_dangling::MaybeDangling", "std::num::Wrapping", "core::mem::MaybeDangling"}


class Types:
    def __init__(self, F):
        self.T = F.types
        self.kc = {}
        self.sc = {}
        self.by_key = {}

    def __getitem__(self, i):
        return self.T[i]

    def strip(self, tid):
        r = self.sc.get(tid)
        if r is None:
            r = tid
            while True:
                t = self.T[r]
                if t["k"] == "adt" and t["path"] in TRANSPARENT:
                    f = [x[1] for v in t["variants"] for x in v["fields"]]
                    f = [x for x in f if not (self.T[x]["k"] == "tuple" and not self.T[x]["ts"])]
                    if t["path"].endswith("NonNull"):
                        break
                    if not f:
                        break
                    r = f[0]
                else:
                    break
            self.sc[tid] = r
        return r

    def transparent(self, tid):
        t = self.T[tid]
        return t["k"] == "adt" and t["path"] in TRANSPARENT and not t["path"].endswith("NonNull")

    def key(self, tid):
        if isinstance(tid, tuple):
            return tid
        k = self.kc.get(tid)
        if k is None:
            s = self.T[self.strip(tid)]["s"]
            s = re.sub(r"for<'[a-z_, ']*> ", "", s)
            s = re.sub(r"'[a-z_0-9]+(, | )?", "", s).replace("<>", "")
            k = self.kc[tid] = s
        return k

    def same(self, a, b):
        return a == b or self.key(a) == self.key(b)

    def find(self, pred):
        return [i for i, t in enumerate(self.T) if pred(t)]

    def fields(self, tid, variant=0):
        t = self.T[tid]
        k = t["k"]
        if k == "tuple":
            return t["ts"]
        if k == "adt" and t["variants"]:
            return [f[1] for f in t["variants"][variant]["fields"]]
        if k == "closure":
            return t["upvars"]
        return []

    def size(self, tid):
        t = self.T[tid]
        if t.get("size") is not None:
            return con(t["size"])
        return P.atom(("S", self.key(tid)), 1)

    def align(self, tid):
        t = self.T[tid]
        if t.get("align") is not None:
            return con(t["align"])
        return P.atom(("AL", self.key(tid)), 1)


class Engine:
    MAXDEPTH = 60
    MAXSTATES = 6000
    small = False          # explicit small instances instead of arbitrary ones; loops unwound
    instances = False      # some shape has such instances
    maxtime = 0
    partial = None

    def __init__(self, F):
        self.F = F
        self.T = Types(F)
        self.I = {i["id"]: i for i in F.insts}
        self.cfg = {}
        self.findings = []
        self.notes = {}
        self.models = {}
        self.stat = {"blocks": 0, "states": 0, "loops": 0, "weaken": 0, "checks": 0, "proved": 0, "unproved": 0}
        self.steps = 0
        self.maxsteps = 40000
        self.kcache = {}
        self.branches = 0

    # ------------------------------------------------------------------ choice and logic
    def choose(self, n):
        if self.ci < len(self.ch):
            r = self.ch[self.ci]
            self.ci += 1
            return r
        raise Fork(n)

    def fresh(self, name, lo=0):
        self.st.ctr += 1
        return P.atom((name, "%d" % self.st.ctr), lo)

    def ent(self, p):
        return entails(self.st.facts, p)

    def fact(self, p):
        if not p.t:
            if p.c < 0:
                raise Dead()
            return
        if p not in self.st.facts:
            self.st.facts = self.st.facts + (p,)

    def ge(self, p):
        """branch on p >= 0"""
        if not p.t:
            return p.c >= 0
        if self.ent(p):
            return True
        n = -p - 1
        if self.ent(n):
            return False
        if self.addresses(p):
            return self.ge(p)
        if self.choose(2) == 0:
            self.fact(p)
            return True
        self.fact(n)
        return False

    def addresses(self, p):
        """two addresses of different objects are compared as numbers: what is known of where objects lie"""
        at = {}
        for m, k in p.t:
            if len(m) == 1:
                n = _atom_name[m[0]]
                if isinstance(n, tuple) and n[0] == "addr" and n[2] == ():
                    at[n[1]] = P.atom(n, 1)
        if len(at) != 2:
            return False
        (x, ax), (y, ay) = sorted(at.items(), key=str)
        if self.st.misc.get(("placed", x, y)):
            return False
        self.st.misc[("placed", x, y)] = True
        for b, ab, mem, am in ((x, ax, y, ay), (y, ay, x, ax)):
            if self.st.misc.get(("incell", b)) == mem:
                room = self.room(mem)
                self.fact(ab - am)
                if room is not None:
                    self.fact(am + room - ab - self.room(b))
                return True
        rx, ry = self.room(x), self.room(y)
        if rx is None or ry is None:
            return False
        if self.choose(2) == 0:
            self.fact(ay - ax - rx)
        else:
            self.fact(ax - ay - ry)
        return True

    def room(self, base):
        """how many bytes an object takes"""
        b = self.st.blk.get(base)
        if b is not None and b.get("bytes") is not None:
            return b["bytes"]
        t = self.st.oty.get(base)
        n = self.array_len(base, ())
        if isinstance(t, tuple) and n is not None:
            return n * self.T.size(self.T.strip(t[1]))
        if t is None or isinstance(t, tuple):
            return None
        return self.T.size(self.T.strip(t))

    def maybe(self, p):
        """a check asks whether p >= 0 is possible: in a state that over-approximates only a certain yes counts"""
        if self.st.exact or not p.t or self.ent(p):
            return self.ge(p)
        if not self.ent(-p - 1):
            self.stat["unproved"] += 1
            self.fact(-p - 1)
        return False

    def gef(self, p):
        """branch on where an index falls; an undecided branch in an over-approximating state makes the path doubtful"""
        if not self.st.exact and p.t and not self.ent(p) and not self.ent(-p - 1):
            r = self.ge(p)
            self.st.flags = self.st.flags | {"doubt"}
            return r
        return self.ge(p)

    def eqz(self, p):
        if not p.t:
            return p.c == 0
        a, b = self.ent(p), self.ent(-p)
        if a and b:
            return True
        if self.ent(p - 1) or self.ent(-p - 1):
            return False
        if self.addresses(p):
            return self.eqz(p)
        opts = [("eq", None)]
        if a:
            opts.append(("gt", p - 1))
        elif b:
            opts.append(("lt", -p - 1))
        else:
            opts += [("gt", p - 1), ("lt", -p - 1)]
        i = self.choose(len(opts))
        if i == 0:
            self.fact(p)
            self.fact(-p)
            return True
        self.fact(opts[i][1])
        return False

    def is_eq(self, p):
        """entailed p == 0 (no branching)"""
        if not p.t:
            return p.c == 0
        return self.ent(p) and self.ent(-p)

    def le(self, a, b):
        return self.ent(b - a)

    # ------------------------------------------------------------------ findings
    def where(self):
        for f in reversed(self.st.frames):
            if f[INST] == "glue":
                continue
            i = self.I[f[INST]]
            if i["local"]:
                return "%s:%s" % (i["span"][0], getattr(self, "line", None) or i["span"][1]), i["path"]
        if "drop" in self.root:
            return self.root["path"], self.root["path"]
        i = self.I[self.root["id"] % 10000]
        return "%s:%s" % tuple(i["span"]), i["path"]

    def report(self, tag, msg):
        st = self.st
        if "doubt" in st.flags or (not st.exact and witness(list(st.facts)) is None):
            self.stat["unproved"] += 1
            self.note("doubtful %s: %s" % (tag, msg))
            return
        tags = {tag}
        if st.unw and tag in ("C02", "C03", "C04", "C12", "C15", "C17", "C18", "C20"):
            tags.add("C05")
        if "wrap" in st.flags and tag in ("C01", "C12", "C14", "C04"):
            tags.add("C13")
        if "already dropped or moved out" in msg or "used after it was given back" in msg or "twice" in msg:
            tags.add("C04")
        if "twice" in msg and tag == "C02":
            tags.discard("C04")
        if "made" in st.misc and tag == "C12":
            tags.add("C20")
        if "used as an element" in msg:
            tags.add("C04")
        if tag == "C04" and "without a live element" in msg:
            tags.add("C12")
        if "capacity recorded" in msg:
            tags.add("C12")
        w, fn = self.where()
        if "C12" in tags and "NullTerminatorAllocator" in str(fn):
            tags.add("C10")         # the terminator itself does not fit the storage
        for t in sorted(tags):
            self.findings.append((t, w, fn, msg, self.root["path"]))

    def ob(self, tag):
        k = "ob:" + tag
        self.stat[k] = self.stat.get(k, 0) + 1
        if self.st.unw:
            self.stat["ob:C05"] = self.stat.get("ob:C05", 0) + 1

    def violate(self, tag, msg):
        self.report(tag, msg)
        raise Dead()

    def check(self, p, tag, msg):
        """obligation p >= 0"""
        self.stat["checks"] += 1
        self.ob(tag)
        if self.ent(p):
            self.stat["proved"] += 1
            return
        if self.ent(-p - 1):
            self.violate(tag, msg)
        if self.st.exact:
            w = witness(list(self.st.facts) + [-p - 1])
            if w is not None:
                # continue on the good side as well
                self.report(tag, msg + self.show(w, p))
                self.fact(p)
                return
        self.stat["unproved"] += 1
        self.note("unproved obligation %s: %s [%s]" % (tag, msg, p))
        self.fact(p)

    def check_eq(self, p, tag, msg):
        self.check(p, tag, msg)
        self.check(-p, tag, msg)

    def show(self, w, p):
        names = []
        for a in sorted(p.atoms()):
            n = _atom_name[a]
            names.append("%s=%s" % (P.atom(n), w.get(a, 0)))
        return " (e.g. %s)" % ", ".join(names) if names else ""

    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    # ------------------------------------------------------------------ types of places
    def typeof_base(self, base):
        k = base[0]
        if k == "L":
            for f in self.st.frames:
                if f[UID] == base[1]:
                    return self.body_of(f)["locals"][base[2]]
            return None
        return self.st.oty.get(base)

    def step_type(self, t, e):
        if t is None:
            return None
        if isinstance(t, tuple):
            return t[1] if e[0] == "i" else None
        t = self.T.strip(t)
        ty = self.T[t]
        if e[0] == "f":
            fs = self.T.fields(t)
            return fs[e[1]] if e[1] < len(fs) else None
        if e[0] == "v":
            return self.T.fields(t, e[1])[e[2]]
        if e[0] == "i":
            if ty["k"] in ("array", "slice"):
                return ty["t"]
            if ty["k"] == "str":
                return self.u8
        return None

    def typeof(self, base, path):
        t = self.typeof_base(base)
        for e in path:
            t = self.step_type(t, e)
        return t

    def adjust(self, base, path, want):
        """the location of a `want` at the address (base,path)"""
        T = self.T
        if base is None:
            return path
        wk = T[T.strip(want)]
        if wk["k"] in ("slice", "str", "dyn") or wk["k"] == "tuple" and not wk["ts"]:
            return path
        if base[0] == "B" and self.st.oty.get(base) is None:
            if base not in self.st.blk:
                self.violate("C02", "a block is used after it was given back")
            self.type_block(base, want)
        cur = self.typeof(base, path)
        if cur is None:
            return path
        p, c = path, cur
        for _ in range(6):
            if not isinstance(c, tuple) and T.same(c, want):
                return p
            if isinstance(c, tuple) or T[T.strip(c)]["k"] == "array":
                p = p + (("i", ZERO),)
            else:
                fs = T.fields(T.strip(c)) if T[T.strip(c)]["k"] in ("adt", "tuple") and T[T.strip(c)].get("kind", "struct") == "struct" else []
                if not fs:
                    break
                p = p + (("f", self.first_field(T.strip(c))),)
            c = self.typeof(base, p)
            if c is None:
                break
        p = path
        while p and (p[-1][0] == "f" and p[-1][1] == 0 or p[-1][0] == "i" and self.is_eq(p[-1][1])):
            p = p[:-1]
            c = self.typeof(base, p)
            if c is not None and not isinstance(c, tuple) and T.same(c, want):
                return p
        return self.punned(base, path, want, cur)

    def punned(self, base, path, want, cur):
        T = self.T
        self.not_a_node(base, path, want, cur)
        if not isinstance(cur, tuple):
            a, b = T[T.strip(cur)], T[T.strip(want)]
            if a["k"] in ("ptr", "ref", "fnptr", "other") and b["k"] in ("ptr", "ref", "fnptr", "other"):
                return path
            if a["k"] == "int" and b["k"] == "int" and a["bits"] == b["bits"]:
                return path
            if a["k"] == "int" and b["k"] in ("ptr",) and a["bits"] == 64 or b["k"] == "int" and a["k"] == "ptr":
                return path
            if a["k"] == "adt" and b["k"] == "adt" and a["path"] == b["path"]:
                return path
            # same layout: structs whose first fields agree in number
            if a["k"] == "adt" and b["k"] == "adt" and a["kind"] == b["kind"] == "struct" and len(T.fields(T.strip(cur))) == len(T.fields(T.strip(want))):
                return path
            if a["k"] in ("ptr", "ref") and b["k"] == "adt" and b["kind"] == "struct":
                return path
        raise Undecided("storage of type %s accessed as %s" % (cur if isinstance(cur, tuple) else T.key(cur), T.key(want)))

    def not_a_node(self, base, path, want, cur):
        pass

    def first_field(self, tid):
        fs = self.T.fields(tid)
        for i, f in enumerate(fs):
            if self.T[f].get("size") != 0:
                return i
        return 0

    def type_block(self, base, tid):
        st = self.st
        b = st.blk[base]
        tid = self.T.strip(tid)
        if self.T[tid]["k"] == "tuple" and not self.T[tid]["ts"]:
            return
        st.oty[base] = ("arr", tid)
        S = self.T.size(tid)
        n = b["bytes"].divexact(S)
        if n is None:
            n = self.quot(b["bytes"], S)
        st.blk[base] = dict(b, n=n)
        st.mem[base] = ("a", ((ZERO, n, U),))

    def quot(self, p, S):
        """floor(p / S)"""
        if p.const() is not None and S.const():
            return con(p.const() // S.const())
        q = P.atom(("div", p, S))
        self.fact(p - q * S)
        self.fact(q * S + S - 1 - p)
        return q

    # ------------------------------------------------------------------ memory
    def obj(self, base):
        st = self.st
        v = st.mem.get(base)
        if v is not None:
            return v
        if base[0] == "L":
            for f in st.frames:
                if f[UID] == base[1]:
                    return U
            self.violate("C06", "use of a reference into the frame of a function that has returned")
        if base[0] == "B":
            if base in st.blk:
                return U
            self.violate("C02", "a block is used after it was given back to its allocator")
        raise Undecided("unknown object %r" % (base,))

    def alen(self, v):
        return v[1][-1][1] if v[1] else ZERO

    def field(self, v, i, tid=None, variant=None):
        k = v[0]
        if k == "s":
            return v[1][i] if i < len(v[1]) else U
        if k == "e":
            return v[2][i] if i < len(v[2]) else U
        if k == "y":
            ft = self.T.fields(self.T.strip(v[3]), variant or 0)
            t = ft[i] if i < len(ft) else v[3]
            return self.mk_tok((v[1], "f", i), v[2], t)
        if k == "u":
            return U
        if k == "o":
            return ("o", (v[1], "f", i))
        raise Undecided("field of %s" % (k,))

    def mk_tok(self, seq, idx, tid):
        return ("y", seq, idx, tid)

    def elem(self, segs, idx, what="read"):
        """content value at idx"""
        n = segs[-1][1] if segs else ZERO
        self.check(n - 1 - idx, "C12", "element %s beyond the end of its storage" % what)
        self.check(idx, "C12", "element %s before the start of its storage" % what)
        for j, (lo, hi, c) in enumerate(segs):
            if j == len(segs) - 1 or self.gef(hi - 1 - idx):
                return self.content_at(c, idx - lo)
        raise Dead()

    def content_at(self, c, rel):
        k = c[0]
        if k == "u":
            return U
        if k == "v":
            return c[1]
        if k == "q":
            return ("y", c[1], c[2] + rel, c[3])
        if k == "j":
            raise Undecided("forgotten contents are looked at")
        raise Undecided("content")

    def to_content(self, v):
        if isinstance(v, P):
            return ("v", v)
        if v[0] == "y":
            return ("q", v[1], v[2], v[3])
        if v[0] == "u":
            return U
        v2 = self.contract(v)
        if v2[0] == "y":
            return ("q", v2[1], v2[2], v2[3])
        return ("v", v)

    def contract(self, v):
        """('s', sibling tokens) -> the composite token"""
        if v[0] == "s" and v[1]:
            f = v[1][0]
            if f[0] == "y" and isinstance(f[1], tuple) and len(f[1]) == 3 and f[1][1] == "f" and f[1][2] == 0:
                par = f[1][0]
                ct = self.T.find_parent.get((par if isinstance(par, str) else None)) if hasattr(self.T, "find_parent") else None
                for j, x in enumerate(v[1]):
                    if x[0] != "y" or x[1] != (par, "f", j) or x[2] != f[2]:
                        return v
                tid = self.comp_tid(par, [x[3] for x in v[1]])
                if tid is not None:
                    return ("y", par, f[2], tid)
        return v

    def comp_tid(self, par, tids):
        want = [self.T.key(t) for t in tids]
        key = ("comp",) + tuple(want)
        if key not in self.kcache:
            r = None
            for i, t in enumerate(self.T.T):
                if t["k"] == "tuple" and [self.T.key(x) for x in t["ts"]] == want:
                    r = i
                    break
            self.kcache[key] = r
        return self.kcache[key]

    def split(self, segs, x):
        """cut the segment list at x -> (left, right)"""
        left = []
        for j, (lo, hi, c) in enumerate(segs):
            if lo == x:
                return tuple(left), tuple(segs[j:])
            if hi == x or self.gef(x - hi):
                left.append((lo, hi, c))
                continue
            # lo <= x < hi
            if self.is_eq(x - lo):
                r = [(x, hi, c)] + list(segs[j + 1:])
                return tuple(left), tuple(r)
            left.append((lo, x, c))
            return tuple(left), tuple([(x, hi, self.shift(c, x - lo))] + list(segs[j + 1:]))
        return tuple(left), ()

    def shift(self, c, d):
        if c[0] == "q":
            return ("q", c[1], c[2] + d, c[3])
        return c

    def cut(self, segs, a, b):
        _, r = self.split(segs, a)
        m, _ = self.split(r, b)
        return m

    def norm(self, segs):
        out = []
        for lo, hi, c in segs:
            if lo == hi:
                continue
            if out:
                plo, phi, pc = out[-1]
                if c == U and pc == U:
                    out[-1] = (plo, hi, U)
                    continue
                if c[0] == "q" and pc[0] == "q" and c[1] == pc[1] and self.is_eq(pc[2] + (phi - plo) - c[2]):
                    out[-1] = (plo, hi, pc)
                    continue
                if c[0] == "v" and pc == c:
                    out[-1] = (plo, hi, c)
                    continue
            out.append((lo, hi, c))
        return tuple(out)

    def put(self, segs, a, b, new):
        """replace [a,b) by the segments `new` (already at absolute positions)"""
        l, r = self.split(segs, a)
        _, r2 = self.split(r, b)
        # bounds at the seams
        return self.norm(tuple(l) + tuple(new) + tuple(r2))

    def load(self, base, path):
        if base is None:
            if path and self.is_null_addr(path[0]):
                self.violate("C14", "a null pointer is dereferenced")
            self.violate("C04", "a dangling (never allocated) pointer is dereferenced")
        v = self.obj(base)
        return self.walk(v, path, base)

    def is_null_addr(self, p):
        return p == 0 or "allocfail" in self.st.flags

    def walk(self, v, path, base=None):
        for n, e in enumerate(path):
            k = e[0]
            if k == "f":
                v = self.field(v, e[1])
            elif k == "v":
                if v[0] == "e":
                    if v[1] != e[1]:
                        self.violate("C04", "payload of an enum variant that is not the current one is used")
                    v = v[2][e[2]] if e[2] < len(v[2]) else U
                else:
                    v = self.field(v, e[2], variant=e[1])
            elif k == "i":
                if v[0] == "u":
                    n_ = self.array_len(base, path[:n]) if base else None
                    if n_ is None:
                        return U
                    v = ("a", ((ZERO, n_, U),))
                if v[0] == "y":
                    v = self.expand_array(v)
                if v[0] != "a":
                    if e[1] == 0:
                        continue
                    raise Undecided("index into %s" % v[0])
                v = self.elem(v[1], e[1])
        return v

    def expand_array(self, v):
        t = self.T[self.T.strip(v[3])]
        if t["k"] != "array":
            raise Undecided("index into token")
        return ("a", ((ZERO, self.nconst(t["n"]), ("q", (v[1], "arr", v[2]), ZERO, t["t"])),))

    def array_len(self, base, path):
        t = self.typeof(base, path)
        if t is None:
            return None
        if isinstance(t, tuple):
            if base in self.st.blk:
                return self.st.blk[base]["n"]
            v = self.st.mem.get(base)
            return self.alen(v) if v is not None and not path and v[0] == "a" else None
        t = self.T[self.T.strip(t)]
        if t["k"] == "array":
            return self.nconst(t["n"])
        return None

    def nconst(self, n):
        if isinstance(n, int) or (isinstance(n, str) and n.isdigit()):
            return con(int(n))
        return P.atom(("N", str(n)))

    def store(self, base, path, val):
        if base is None:
            self.violate("C14" if path and self.is_null_addr(path[0]) else "C04", "a write through a %s pointer" % ("null" if path and path[0] == 0 else "dangling"))
        if base[0] in ("C", "G"):
            if base[0] == "G":
                self.violate("C17", "the shared static %s is written to" % (base[1],))
        if not path:
            if base[0] != "L":
                self.obj(base)
            self.st.mem[base] = val
            return
        v = self.obj(base)
        self.st.mem[base] = self.upd(v, path, 0, val, base)

    def upd(self, v, path, n, val, base):
        if n == len(path):
            return val
        e = path[n]
        if v[0] == "u" or (v[0] == "y" and e[0] in ("f", "v")) or (v[0] == "o" and e[0] == "f"):
            v = self.expand(v, base, path[:n], e)
        k = e[0]
        if k == "f":
            if v[0] == "e":
                fs = list(v[2])
                while len(fs) <= e[1]:
                    fs.append(U)
                fs[e[1]] = self.upd(fs[e[1]], path, n + 1, val, base)
                return ("e", v[1], tuple(fs))
            if v[0] != "s":
                raise Undecided("field store into %s" % v[0])
            fs = list(v[1])
            while len(fs) <= e[1]:
                fs.append(U)
            fs[e[1]] = self.upd(fs[e[1]], path, n + 1, val, base)
            return ("s", tuple(fs))
        if k == "v":
            if v[0] == "e" and v[1] == e[1]:
                fs = list(v[2])
            else:
                fs = []
            while len(fs) <= e[2]:
                fs.append(U)
            fs[e[2]] = self.upd(fs[e[2]], path, n + 1, val, base)
            return ("e", e[1], tuple(fs))
        if k == "i":
            if v[0] == "y":
                v = self.expand_array(v)
            if v[0] != "a":
                raise Undecided("indexed store into %s" % v[0])
            if n + 1 == len(path):
                nv = val
                ln = self.alen(v)
                self.check(ln - 1 - e[1], "C12", "an element is written beyond the end of its storage")
                self.check(e[1], "C12", "an element is written before the start of its storage")
            else:
                nv = self.upd(self.elem(v[1], e[1]), path, n + 1, val, base)
            return ("a", self.put(v[1], e[1], e[1] + 1, ((e[1], e[1] + 1, self.to_content(nv)),)))
        raise Undecided("store")

    def expand(self, v, base, path, e):
        t = self.typeof(base, path)
        if t is None:
            if e[0] == "f":
                return ("s", ())
            raise Undecided("expansion of untyped storage")
        if isinstance(t, tuple):
            return ("a", ((ZERO, self.st.blk[base]["n"], U),))
        t = self.T.strip(t)
        ty = self.T[t]
        if ty["k"] == "array":
            return ("a", ((ZERO, self.nconst(ty["n"]), U),))
        if e[0] == "v":
            return ("e", e[1], tuple(self.field(v, i, variant=e[1]) for i in range(len(self.T.fields(t, e[1])))))
        fs = self.T.fields(t)
        return ("s", tuple(self.field(v, i) for i in range(max(len(fs), e[1] + 1))))

    # ------------------------------------------------------------------ ledger
    def leaves(self, seq, tid):
        """ownership leaves of a token of this type"""
        t = self.T[self.T.strip(tid)]
        if not t.get("needs_drop"):
            return []
        if t["k"] == "tuple":
            out = []
            for i, x in enumerate(t["ts"]):
                out += self.leaves((seq, "f", i), x)
            return out
        if t["k"] == "adt" and t["kind"] == "struct" and not t.get("drop"):
            out = []
            for i, x in enumerate(self.T.fields(self.T.strip(tid))):
                out += self.leaves((seq, "f", i), x)
            return out
        return [seq]

    def add_iv(self, ivs, lo, hi):
        ivs = list(ivs)
        for i, (a, b) in enumerate(ivs):
            if b == lo or self.is_eq(b - lo):
                nlo, nhi = a, hi
                ivs.pop(i)
                return self.add_iv(ivs, nlo, nhi) if ivs else ((nlo, nhi),)
            if a == hi or self.is_eq(a - hi):
                nlo, nhi = lo, b
                ivs.pop(i)
                return self.add_iv(ivs, nlo, nhi) if ivs else ((nlo, nhi),)
        return tuple(ivs) + ((lo, hi),)

    def acquire(self, seq, tid, lo, hi):
        for s in self.leaves(seq, tid):
            self.st.acq[s] = self.add_iv(self.st.acq.get(s, ()), lo, hi)

    def dispose(self, seq, tid, lo, hi, why="dropped"):
        if lo == hi:
            return
        self.ob("C03")
        for s in self.leaves(seq, tid):
            if s not in self.st.acq and not self.empty(lo, hi):
                self.violate("C03", "an element that is only borrowed is %s" % why)
            for a, b in self.st.disp.get(s, ()):
                if self.disjoint(a, b, lo, hi):
                    continue
                self.violate("C03", "an element is %s after it was already dropped or moved out" % why)
            self.st.disp[s] = self.add_iv(self.st.disp.get(s, ()), lo, hi)

    def empty(self, lo, hi):
        return not self.maybe(hi - lo - 1)

    def disjoint(self, a, b, lo, hi):
        """branching test that [a,b) and [lo,hi) do not overlap"""
        if self.ent(lo - b) or self.ent(a - hi):
            return True
        if self.empty(lo, hi) or self.empty(a, b):
            return True
        if not self.st.exact and not (self.ent(b - lo - 1) and self.ent(hi - a - 1)):
            self.stat["unproved"] += 1
            return True
        return self.ge(lo - b) or self.ge(a - hi)

    def alive(self, v, how):
        """the token is looked at"""
        self.ob("C04")
        if v[0] == "u":
            self.violate("C04", "storage without a live element is %s" % how)
        if v[0] == "s" or v[0] == "e":
            for x in v[-1]:
                if isinstance(x, tuple) and x[0] in ("y", "s", "e"):
                    self.alive(x, how)
            return
        if v[0] != "y":
            return
        for s in self.leaves(v[1], v[3]):
            for a, b in self.st.disp.get(s, ()):
                if not self.disjoint(a, b, v[2], v[2] + 1):
                    self.violate("C03", "an element that was already dropped or moved out is %s" % how)

    # ------------------------------------------------------------------ scalar views
    def asint(self, v):
        if isinstance(v, P):
            return v
        k = v[0]
        if k == "u":
            self.violate("C04", "an uninitialised value is used")
        if k == "y":
            return P.atom(("el", v[1], v[2]))
        if k in ("b", "bo"):
            return ONE if self.truth(v) else ZERO
        if k == "o":
            return P.atom(("oi", v[1]))
        if k == "p":
            return self.addr(v)
        if k in ("s",) and len(v[1]) == 1:
            return self.asint(v[1][0])
        if k == "e" and not v[2]:
            return con(v[1])
        raise Undecided("integer from %s" % k)

    def addr(self, v):
        if v[1] is None:
            return v[2][0]
        path = v[2]
        if path and path[-1][0] == "i":
            t = self.typeof(v[1], path)
            S = self.T.size(self.T.strip(t)) if t is not None and not isinstance(t, tuple) else ONE
            a = P.atom(("addr", v[1], path[:-1]), 1)
            n = self.array_len(v[1], path[:-1])
            if n is not None:
                self.fact(con(USIZE_MAX) - a - n * S)
                if t is not None and not isinstance(t, tuple) and self.ent(n - 1):
                    self.fact(con(USIZE_MAX) - a - self.T.align(self.T.strip(t)))
            return a + path[-1][1] * S
        a = P.atom(("addr", v[1], path), 1)
        t = self.typeof(v[1], path)
        if t is not None and not isinstance(t, tuple) and self.T[self.T.strip(t)]["k"] == "array":
            et = self.T[self.T.strip(t)]["t"]
            n = self.nconst(self.T[self.T.strip(t)]["n"])
            S = self.T.size(self.T.strip(et))
            if n is not None:
                self.fact(con(USIZE_MAX) - a - n * S)
                if self.ent(n - 1):
                    self.fact(con(USIZE_MAX) - a - self.T.align(self.T.strip(et)))
        return a

    def truth(self, v):
        """branch on a boolean value"""
        if isinstance(v, P):
            c = v.const()
            if c is not None:
                return c != 0
            return not self.eqz(v)
        k = v[0]
        if k == "b":
            if v[1] == "ge":
                return self.ge(v[2])
            if v[1] == "eq":
                return self.eqz(v[2])
            return not self.eqz(v[2])
        if k == "bo":
            key, neg = v[1], v[2]
            r = self.st.opq.get(key)
            if r is None:
                r = self.choose(2) == 0
                self.st.opq[key] = r
                self.on_opaque(key, r)
            return r != neg
        if k == "u":
            self.violate("C04", "a branch on an uninitialised value")
        if k in ("y", "o"):
            return self.truth(("bo", ("tok",) + tuple(v[1:]), False))
        raise Undecided("truth of %s" % k)

    def on_opaque(self, key, r):
        pass

    def bnot(self, v):
        if isinstance(v, P):
            c = v.const()
            if c is not None:
                return ZERO if c else ONE
            return ("b", "eq", v)
        if v[0] == "b":
            if v[1] == "ge":
                return ("b", "ge", -v[2] - 1)
            return ("b", "ne" if v[1] == "eq" else "eq", v[2])
        if v[0] == "bo":
            return ("bo", v[1], not v[2])
        return ("bo", ("tok",) + tuple(v[1:]), True)

    def mkb(self, op, p):
        if not p.t:
            r = p.c >= 0 if op == "ge" else (p.c == 0) == (op == "eq")
            return ONE if r else ZERO
        return ("b", op, p)

    # ------------------------------------------------------------------ bodies, frames
    def body_of(self, f):
        if f[INST] == "glue":
            return {"locals": []}
        if isinstance(f[INST], tuple):
            return self.kbodies[f[INST]]
        return self.I[f[INST]]["body"]

    def push(self, inst, args, dest):
        st = self.st
        if len(st.frames) > self.MAXDEPTH:
            raise Undecided("call depth")
        n = sum(1 for f in st.frames if f[INST] == inst)
        if n >= (3 if not getattr(self, "small", False) else 12):
            raise Undecided("recursion through %s" % (self.I[inst]["path"] if not isinstance(inst, tuple) else "const"))
        st.ctr += 1
        uid = st.ctr
        fr = [uid, inst, 0, "continue", dest, False]
        st.frames.append(fr)
        b = self.body_of(fr)
        if b is None:
            raise Undecided("no body for %s" % self.I[inst]["path"])
        for i, a in enumerate(args):
            st.mem[("L", uid, i + 1)] = a
        return fr

    def pop(self):
        st = self.st
        f = st.frames.pop()
        uid = f[UID]
        if f[INST] != "glue":
            nl = len(self.body_of(f)["locals"]) if not (isinstance(f[INST], tuple)) else 0
            for i in range(nl):
                st.mem.pop(("L", uid, i), None)
        return f

    def glue(self, actions, resume=False):
        st = self.st
        st.ctr += 1
        st.frames.append([st.ctr, "glue", tuple(actions), "continue", None, resume])

    def do_return(self):
        st = self.st
        f = st.frames[-1]
        v = st.mem.get(("L", f[UID], 0), U)
        if v == U:
            t = self.body_of(f)["locals"][0]
            if self.T[t].get("size") == 0:
                v = UNIT
        self.pop()
        if f[DEST] is not None:
            if f[DEST] == "ret":
                st.misc["ret"] = v
            else:
                self.store(f[DEST][0], f[DEST][1], v)

    def unwind(self):
        """propagate a panic from the top frame"""
        st = self.st
        st.unw = True
        while st.frames:
            f = st.frames[-1]
            if f[INST] == "glue":
                if f[BB]:
                    if f[RES]:
                        raise Dead()          # panic while dropping during a panic: abort
                    f[RES] = True
                    return
                self.pop()
                continue
            u = f[UNW]
            if isinstance(u, int):
                f[BB] = u
                return
            if u == "continue":
                self.pop()
                continue
            raise Dead()
        st.misc["ret"] = U

    # ------------------------------------------------------------------ places and operands
    def place(self, f, pl):
        """-> (base, path, meta, tid)"""
        base, path, meta = ("L", f[UID], pl[0]), (), None
        tid = self.body_of(f)["locals"][pl[0]]
        variant = None
        for pr in pl[1:]:
            if pr == "*":
                v = self.load(base, path)
                t = self.T[self.T.strip(tid)]
                if t["k"] in ("ref", "ptr"):
                    tid = t["t"]
                elif t["k"] == "adt" and t["args"]:
                    tid = t["args"][0]
                else:
                    raise Undecided("deref of %s" % t["k"])
                v = self.asptr(v)
                base, meta = v[1], v[3]
                if base is None:
                    path = v[2]
                else:
                    path = self.adjust(base, v[2], tid)
                variant = None
            elif pr[0] == "d":
                variant = pr[1]
            elif pr[0] == "f":
                if self.T.transparent(tid):
                    tid = pr[2]
                else:
                    t = self.T[tid]
                    if t["k"] == "adt" and t["kind"] == "enum":
                        path = path + (("v", variant or 0, pr[1]),)
                    elif t["k"] == "adt" and t["kind"] == "union":
                        raise Undecided("union field of %s" % t["path"])
                    else:
                        path = path + (("f", pr[1]),)
                    tid = pr[2]
                if base is None and path and isinstance(path[0], P) and len(path) > 1:
                    if self.is_null_addr(path[0]):
                        self.violate("C14", "a null pointer is dereferenced")
                    self.violate("C04", "a dangling pointer is dereferenced")
                variant = None
                meta = None if not self.unsized_tail(tid) else meta
            elif pr[0] in ("i", "ci"):
                t = self.T[self.T.strip(tid)]
                if pr[0] == "i":
                    idx = self.asint(self.load(("L", f[UID], pr[1]), ()))
                elif pr[2]:
                    ln = meta if meta is not None else self.nconst(t["n"])
                    idx = ln - pr[1]
                else:
                    idx = con(pr[1])
                if t["k"] == "slice":
                    self.check(meta - 1 - idx, "C12", "a slice is indexed out of range")
                    if path and path[-1][0] == "i":
                        path = path[:-1] + (("i", path[-1][1] + idx),)
                    elif base is None:
                        self.violate("C14" if self.is_null_addr(path[0]) else "C04", "an element of a null or dangling slice is used")
                    else:
                        path = path + (("i", idx),)
                    meta = None
                else:
                    path = path + (("i", idx),)
                tid = t["t"]
            elif pr[0] == "ss" and pr[3] and self.T[self.T.strip(tid)]["k"] == "slice" and meta is not None:
                self.check(meta - pr[1] - pr[2], "C12", "a slice is split out of range")
                if path and path[-1][0] == "i":
                    path = path[:-1] + (("i", path[-1][1] + pr[1]),)
                elif base is not None:
                    path = path + (("i", con(pr[1])),)
                meta = meta - pr[1] - pr[2]
            else:
                raise Undecided("projection %r" % (pr,))
        return base, path, meta, tid

    def unsized_tail(self, tid):
        return not self.T[tid].get("sized", True)

    def asptr(self, v):
        if v[0] == "p":
            return v
        if v[0] == "u":
            self.violate("C04", "an uninitialised pointer is used")
        if isinstance(v, P):
            raise Undecided("pointer from integer")
        if v[0] == "s" and len([x for x in v[1] if x != UNIT]) == 1:
            return self.asptr([x for x in v[1] if x != UNIT][0])
        if v[0] == "e" and v[1] == 1 and len(v[2]) == 1:
            return self.asptr(v[2][0])
        if v[0] == "y":
            return self.tokptr(v)
        raise Undecided("pointer from %s" % v[0])

    def tokptr(self, v):
        """a reference-typed token: it refers to a borrowed opaque object named after it"""
        t = self.T[self.T.strip(v[3])]
        if t["k"] not in ("ref", "ptr"):
            raise Undecided("pointer from token of type %s" % t["s"])
        base = ("R", "deref", v[1], v[2])
        if base not in self.st.mem:
            self.st.oty[base] = t["t"]
            self.st.mem[base] = ("y", (v[1], "*"), v[2], t["t"])
        return ("p", base, (), None)

    def operand(self, f, op):
        k = op[0]
        if k in ("copy", "move"):
            b, p, m, t = self.place(f, op[1])
            return self.load(b, p)
        if k == "const":
            return self.const(op[1])
        if k == "rtcheck":
            return ZERO
        raise Undecided("operand %r" % (op,))

    def optype(self, f, op):
        if op[0] in ("copy", "move"):
            t = self.body_of(f)["locals"][op[1][0]]
            variant = None
            for pr in op[1][1:]:
                if pr == "*":
                    tt = self.T[self.T.strip(t)]
                    t = tt["t"] if "t" in tt else (tt.get("args") or [t])[0]
                elif pr[0] == "f":
                    t = pr[2]
                elif pr[0] in ("i", "ci"):
                    t = self.T[self.T.strip(t)].get("t", t)
            return t
        if op[0] == "const":
            return op[1].get("ty")
        return None

    def const(self, k):
        T = self.T
        ty = T[k["ty"]] if "ty" in k else {}
        if "bits" in k:
            v = int(k["bits"])
            if ty.get("k") == "int" and ty.get("signed") and v >= 1 << (ty["bits"] - 1):
                v -= 1 << ty["bits"]
            if ty.get("k") == "float":
                return ("o", ("f", v, ty["s"]))
            if ty.get("k") in ("ptr", "ref"):
                return ("p", None, (con(v),), None)
            if ty.get("k") == "adt" and ty["kind"] == "enum":
                for i, vr in enumerate(ty["variants"]):
                    if (vr["discr"] - v) % (1 << 8 * (ty.get("size") or 16)) == 0:
                        return ("e", i, ())
            if ty.get("k") == "adt":
                return ("s", (con(v),))
            return con(v)
        if k.get("zst"):
            if ty.get("k") == "array":
                return ("a", ())
            if ty.get("k") == "adt" and ty["kind"] == "struct":
                return ("s", tuple(UNIT for _ in T.fields(k["ty"])))
            return UNIT
        if "slen" in k:
            base = ("C", k["c"])
            if base not in self.st.mem:
                self.st.mem[base] = ("a", ((ZERO, con(k["slen"]), ("q", ("lit", k["c"]), ZERO, self.u8)),))
                self.st.oty[base] = ("arr", self.u8)
            return ("p", base, (("i", ZERO),), con(k["slen"]))
        for key in ("pbody", "cbody"):
            if key in k:
                return self.eval_const(k, key)
        if "static" in k:
            return self.static(k)
        if ty.get("k") == "int":
            return P.atom(("N", str(k.get("c"))))
        h = self.const_hook(k)
        if h is not None:
            return h
        return ("o", ("const", k.get("c")))

    def const_hook(self, k):
        return None

    def static(self, k):
        base = ("G", str(k["static"]))
        if base not in self.st.mem:
            raise Undecided("static %s" % (k["static"],))
        return ("p", base, (), None)

    def eval_const(self, k, key):
        """value of a promoted or constant body (straight-line)"""
        ck = (k.get("c"), id(k[key]))
        hit = self.kcache.get(ck)
        if hit is None:
            st = self.st
            saved = getattr(self, "line", None)
            branches = self.branches
            depth = len(st.frames)
            inst = ("const", id(k[key]))
            self.kbodies[inst] = k[key]
            before = set(st.mem)
            res = ("K", id(k[key]))
            st.oty[res] = k[key]["locals"][0]
            st.mem[res] = U
            self.push(inst, [], (res, ()))
            n = 0
            while len(st.frames) > depth:
                n += 1
                if n > 400:
                    raise Undecided("constant body")
                self.run_block()
            self.line = saved
            objs = {b: st.mem[b] for b in st.mem if b not in before}
            hit = (st.mem[res], objs, {b: st.oty[b] for b in objs if b in st.oty})
            # locals of the constant body become static objects
            ren = {}
            for b in list(objs):
                if b[0] == "L":
                    ren[b] = ("C", "k", id(k[key]), b[2])
            def rn(x):
                if isinstance(x, tuple):
                    if x in ren:
                        return ren[x]
                    return tuple(rn(y) for y in x)
                return x
            v, o, ot = hit
            o2 = {ren.get(b, b): rn(x) for b, x in o.items()}
            ot2 = {ren.get(b, b): t for b, t in ot.items()}
            for b in ren:
                ot2[ren[b]] = k[key]["locals"][b[2]]
                st.mem.pop(b, None)
            hit = (rn(v), o2, ot2)
            if self.branches == branches:
                # the value does not depend on what is known on this path
                self.kcache[ck] = hit
        v, o, ot = hit
        for b, x in o.items():
            self.st.mem.setdefault(b, x)
        for b, t in ot.items():
            self.st.oty.setdefault(b, t)
        return v

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, f, r, desttid):
        k = r[0]
        T = self.T
        if k == "use":
            return self.operand(f, r[1])
        if k in ("ref", "raw"):
            b, p, m, t = self.place(f, r[2])
            if b is not None and m is None and T[T.strip(t)]["k"] in ("slice", "str"):
                raise Undecided("slice without length")
            if k == "ref" and b is None and not (self.T[t].get("size") == 0) and not (m is not None and self.is_eq(m)):
                if self.is_null_addr(p[0]):
                    self.violate("C14", "a reference to null is formed")
            if b is not None and b[0] == "B" and b not in self.st.blk:
                self.violate("C02", "a reference into a block that was given back is formed")
            return ("p", b, p, m)
        if k == "cast":
            return self.cast(f, r[1], r[2], r[3])
        if k == "bin":
            return self.binop(r[1], self.operand(f, r[2]), self.operand(f, r[3]), self.optype(f, r[2]), f, r)
        if k == "un":
            v = self.operand(f, r[2])
            if r[1] == "Not":
                t = T[self.optype(f, r[2])] if self.optype(f, r[2]) is not None else {"k": "bool"}
                if t["k"] == "bool":
                    return self.bnot(v)
                a = self.asint(v)
                if t["k"] == "int" and not t["signed"]:
                    return con((1 << t["bits"]) - 1) - a
                return -a - 1
            if r[1] == "PtrMetadata":
                v = self.asptr(v)
                return v[3] if v[3] is not None else UNIT
            if r[1] == "Neg":
                if v[0] == "o" if not isinstance(v, P) else False:
                    return ("o", ("neg", v))
                return -self.asint(v)
            raise Undecided("unary %s" % r[1])
        if k == "discr":
            b, p, m, t = self.place(f, r[1])
            return self.discr(b, p, t)
        if k == "agg":
            vs = tuple(self.operand(f, o) for o in r[2])
            kd = r[1]
            if kd[0] == "array":
                segs = []
                for i, v in enumerate(vs):
                    segs.append((con(i), con(i + 1), self.to_content(v)))
                return ("a", self.norm(tuple(segs)))
            if kd[0] == "tuple":
                return ("s", vs)
            if kd[0] == "closure":
                return ("s", vs)
            if kd[0] == "rawptr":
                p = self.asptr(vs[0])
                return ("p", p[1], p[2], self.asint(vs[1]) if vs[1] != UNIT else None)
            if kd[0] == "adt":
                t = T[kd[1]]
                if t["path"] in TRANSPARENT and not t["path"].endswith("NonNull"):
                    if t["kind"] == "union" and len(kd) > 3 and kd[3] == 0:
                        return U
                    return [v for v in vs][0] if len(vs) == 1 else ("s", vs)
                if t["kind"] == "enum":
                    return ("e", kd[2], vs)
                return ("s", vs)
            raise Undecided("aggregate %r" % (kd,))
        if k == "repeat":
            n = self.nconst(r[2])
            return ("a", ((ZERO, n, self.to_content(self.operand(f, r[1]))),))
        raise Undecided("rvalue %s" % k)

    def discr(self, b, p, t):
        v = self.load(b, p)
        ty = self.T[self.T.strip(t)]
        if ty["k"] == "adt" and ty["kind"] == "enum":
            if v[0] == "y":
                v = self.split_enum(b, p, v, self.T.strip(t))
            if v[0] in ("u", "s") and ty.get("size") == 0:
                # one inhabited variant only
                for i, vr in enumerate(ty["variants"]):
                    if not any(self.T[x[1]]["k"] == "never" or self.T[x[1]].get("uninhabited") for x in vr["fields"]):
                        return con(vr["discr"])
            if v[0] == "u":
                self.violate("C04", "an uninitialised value is inspected")
            if v[0] == "p":
                # niche Option<&T>
                return ZERO if v[1] is None else ONE
            if v[0] == "b":
                # Ordering held as comparison
                raise Undecided("discriminant of comparison")
            if v[0] == "ord":
                return self.ordering(v)
            if v[0] == "e":
                return con(ty["variants"][v[1]]["discr"])
        raise Undecided("discriminant of %s" % (v[0],))

    def ordering(self, v):
        a = v[1]
        if self.eqz(a):
            return ZERO
        return ONE if self.ge(a) else con(-1)

    def split_enum(self, b, p, v, t):
        """case split an opaque enum token"""
        n = len(self.T[t]["variants"])
        key = ("variant", v[1], v[2])
        r = self.st.opq.get(key)
        if r is None:
            r = self.choose(n)
            self.st.opq[key] = r
        nv = ("e", r, tuple(self.field(v, i, variant=r) for i in range(len(self.T.fields(t, r)))))
        self.store(b, p, nv)
        return nv

    def cast(self, f, kind, op, tid):
        v = self.operand(f, op)
        T = self.T
        src = self.optype(f, op)
        if kind == "PtrToPtr":
            v = self.asptr(v)
            st_, dt = T[T.strip(src)], T[T.strip(tid)]
            if v[3] is not None and T[dt["t"]].get("sized", True):
                return ("p", v[1], v[2], None)
            return v
        if kind.startswith("PointerCoercion"):
            if "Unsize" in kind:
                st_ = T[T.strip(src)]
                if st_["k"] in ("ref", "ptr"):
                    el = T[T.strip(st_["t"])]
                    if el["k"] == "array":
                        v = self.asptr(v)
                        if v[1] is None:
                            return ("p", v[1], v[2], self.nconst(el["n"]))
                        return ("p", v[1], v[2] + (("i", ZERO),), self.nconst(el["n"]))
                return v
            return v
        if kind == "Transmute":
            return self.transmute(v, src, tid)
        if kind == "IntToInt":
            if isinstance(v, tuple) and v[0] in ("e",):
                t0 = T[T.strip(src)]
                c, d = t0["variants"][v[1]]["discr"], T[T.strip(tid)]
                return con(c + (1 << d["bits"]) if c < 0 and d["k"] == "int" and not d.get("signed") else c)
            if isinstance(v, tuple) and v[0] == "y" and T[tid]["k"] == T[src]["k"] and T[tid].get("size") == T[src].get("size"):
                return v
            a = self.asint(v)
            d = T[T.strip(tid)]
            s = T[T.strip(src)]
            if d["k"] == "int" and (s.get("size") or 8) > d["bits"] // 8:
                c = a.const()
                if c is not None:
                    return con(c % (1 << d["bits"]))
                if self.ent(con((1 << d["bits"]) - 1) - a) and self.ent(a):
                    return a
                if self.narrowing and not any(isinstance(x, tuple) and x and x[0] not in ("a0", "a1") for x in a.names()) and self.ge(con((1 << d["bits"]) - 1) - a):
                    return a
                r = P.atom(("trunc", d["bits"], a))
                self.fact(con((1 << d["bits"]) - 1) - r)
                return r
            return a
        if kind in ("IntToFloat", "FloatToInt", "FloatToFloat"):
            if kind == "FloatToInt":
                r = P.atom(("f2i", v[1] if isinstance(v, tuple) and v[0] == "o" else v))
                return r
            return ("o", (kind, v, T[tid]["s"]))
        if kind == "PointerExposeProvenance":
            return self.addr(self.asptr(v))
        if kind == "PointerWithExposedProvenance":
            return self.int2ptr(self.asint(v))
        if kind in ("FnPtrToPtr",):
            return v
        raise Undecided("cast %s" % kind)

    def align_down(self, x, mask, mx):
        """x & !(A-1) for an alignment A"""
        A = con(mx) + 1 - mask
        cand = None
        for m, k in x.t:
            if k == 1 and len(m) == 1 and isinstance(_atom_name[m[0]], tuple) and _atom_name[m[0]][0] == "addr":
                cand = _atom_name[m[0]]
        if cand is None:
            return None
        t = self.typeof(cand[1], cand[2])
        et = t[1] if isinstance(t, tuple) else (self.T[self.T.strip(t)].get("t", t) if t is not None else None)
        if et is None:
            return None
        et = self.T.strip(et)
        if self.T.align(et) != A:
            return None
        rest = x - P.atom(cand, 1)
        S = self.T.size(et)
        low = rest - (A - 1)
        for slack in (low, rest):
            # an aligned address, possibly with A-1 added to it
            if slack == 0 or slack.divexact(S) is not None:
                return P.atom(cand, 1) + slack
        return None

    def low_bit(self, op, u, w, mx):
        """the lowest bit of the address of an object known to be aligned carries a flag"""
        c = w.const()
        if c is None or c not in (0, 1, mx - 1):
            return None
        for m, k in u.t:
            if k == 1 and len(m) == 1:
                n = _atom_name[m[0]]
                if isinstance(n, tuple) and n[0] == "addr" and self.st.misc.get(("even", n[1])):
                    bit = (u - P.atom(n, 1)).const()
                    if bit in (0, 1):
                        if op == "BitAnd":
                            return con(0) if c == 0 else con(bit) if c == 1 else u - bit
                        return u if c == 0 else u - bit + 1 if c == 1 else None
        return None

    def int2ptr(self, a):
        c = a.const()
        if c is not None:
            return ("p", None, (a,), None)
        for m, k in a.t:
            if k == 1 and len(m) == 1:
                n = _atom_name[m[0]]
                if isinstance(n, tuple) and n[0] == "addr":
                    rest = a - P.atom(n, 1)
                    base, path = n[1], n[2]
                    t = self.typeof(base, path)
                    if rest == 0:
                        return ("p", base, path, None)
                    if rest == 1 and self.st.misc.get(("even", base)):
                        return ("p", None, (a,), None)
                    et = t[1] if isinstance(t, tuple) else (self.T[self.T.strip(t)].get("t") if t is not None else None)
                    if et is not None:
                        q = rest.divexact(self.T.size(self.T.strip(et)))
                        if q is not None:
                            return ("p", base, path + (("i", q),), None)
                        q = self.explicit_index(rest, self.T.size(self.T.strip(et)))
                        if q is not None:
                            return ("p", base, path + (("i", q),), None)
        raise Undecided("integer to pointer %s" % (a,))

    def explicit_index(self, rest, size):
        """an offset in elements of a known size, for one length of the buffer it is counted in"""
        if not self.instances:
            return None
        w = next((c for c in (2, 3, 4, 5, 8, 12, 16, 24) if self.is_eq(size - c)), None)
        ns = [m for m, k in rest.t if m]
        if w is None or len(ns) != 1 or len(ns[0]) != 1:
            return None
        n = P.atom(_atom_name[ns[0][0]])
        if not self.eqz(n - 3):
            raise Dead()
        c = (rest - n * dict(rest.t)[ns[0]]).const()
        if c is None:
            return None
        c = c + 3 * dict(rest.t)[ns[0]]
        return con(int(c) // w) if c % w == 0 else None

    def transmute(self, v, src, tid):
        T = self.T
        s, d = T[T.strip(src)], T[T.strip(tid)]
        sp = s["k"] in ("ptr", "ref", "fnptr") or (s["k"] == "adt" and s["path"].endswith("NonNull"))
        dp = d["k"] in ("ptr", "ref", "fnptr") or (d["k"] == "adt" and d["path"].endswith("NonNull"))
        if sp and dp:
            return v
        if T.same(src, tid):
            return v
        if isinstance(v, P) and d["k"] == "int":
            return v
        if isinstance(v, P) and dp:
            return self.int2ptr(v)
        if sp and d["k"] == "int":
            return self.addr(self.asptr(v))
        if s["k"] == "adt" and s["kind"] == "struct" and dp and v[0] == "s":
            return self.asptr(v)
        if d["k"] == "adt" and sp and d["kind"] == "struct":
            return ("s", (v,)) if len(T.fields(T.strip(tid))) == 1 else v
        if s["k"] == "adt" and d["k"] == "adt" and v[0] in ("s", "u"):
            return v
        if s["k"] == "other" or d["k"] == "other":
            return v
        if s["k"] == "int" and d["k"] == "adt" and d["kind"] == "enum":
            if d["path"].endswith("option::Option") and len(d["variants"][1]["fields"]) == 1:
                if self.eqz(self.asint(v)):
                    return ("e", 0, ())
                return ("e", 1, (self.wrapped(self.asint(v), d["variants"][1]["fields"][0][1]),))
            c = self.asint(v).const()
            if c is not None:
                for i, vr in enumerate(d["variants"]):
                    if (vr["discr"] - c) % (1 << 8 * (d.get("size") or 16)) == 0:
                        return ("e", i, ())
            raise Undecided("integer to enum")
        if s["k"] == "array" and d["k"] == "array":
            return v
        if d["k"] == "int" and s["k"] == "adt":
            x = v
            if x[0] == "e" and s["path"].endswith("option::Option"):
                x = x[2][0] if x[1] == 1 else ZERO
            while not isinstance(x, P) and x[0] == "s" and len(x[1]) == 1:
                x = x[1][0]
            if isinstance(x, P):
                return x
        return ("o", ("transmute", v))

    def wrapped(self, x, tid):
        """an integer inside single-field structs"""
        t = self.T[self.T.strip(tid)]
        if t["k"] == "adt" and t["kind"] == "struct":
            fs = self.T.fields(self.T.strip(tid))
            return ("s", (self.wrapped(x, fs[0]),) + tuple(UNIT for _ in fs[1:]))
        return x

    def ptr_index(self, p, t):
        """location of p as an element of an array of t: (base, prefix, idx)"""
        path = self.adjust(p[1], p[2], t)
        if path and path[-1][0] == "i":
            return p[1], path[:-1], path[-1][1]
        return p[1], path, None

    def ptr_diff(self, a, b):
        """symbolic difference in elements when both point into the same array; None otherwise"""
        if a[1] != b[1] or a[1] is None:
            return None
        pa, pb = a[2], b[2]
        if pa == pb:
            return ZERO
        if pa and pb and pa[-1][0] == "i" and pb[-1][0] == "i" and pa[:-1] == pb[:-1]:
            return pa[-1][1] - pb[-1][1]
        # array start
        if pa and pa[-1][0] == "i" and pa[:-1] == pb:
            return pa[-1][1]
        if pb and pb[-1][0] == "i" and pb[:-1] == pa:
            return -pb[-1][1]
        return None

    def ptr_eq(self, a, b):
        if a[1] is None and b[1] is None:
            return self.mkb("eq", a[2][0] - b[2][0])
        if a[1] is None or b[1] is None:
            return ZERO
        if a[1] != b[1]:
            return self.ptr_eq_bases(a, b)
        d = self.ptr_diff(a, b)
        if d is not None:
            return self.mkb("eq", d)
        pa, pb = self.canon_path(a), self.canon_path(b)
        if pa == pb:
            return ONE
        # different fields: never equal unless one is a prefix of the other
        n = min(len(pa), len(pb))
        for i in range(n):
            if pa[i] != pb[i]:
                if pa[i][0] == "i" and pb[i][0] == "i":
                    if self.is_eq(pa[i][1] - pb[i][1]):
                        continue
                    if pa[i + 1:] == pb[i + 1:]:
                        return self.mkb("eq", pa[i][1] - pb[i][1])
                    return ZERO
                return ZERO
        return ZERO if pa[n:] or pb[n:] else ONE

    def canon_path(self, p):
        path = p[2]
        while path and (path[-1][0] == "f" and path[-1][1] == 0 or path[-1][0] == "i" and path[-1][1] == 0):
            path = path[:-1]
        return path

    def ptr_eq_bases(self, a, b):
        """pointers into different objects: one-past-the-end of one may equal the start of another only in theory"""
        return ZERO

    def ptr_lt(self, a, b):
        d = self.ptr_diff(a, b)
        if d is not None:
            return self.mkb("ge", -d - 1)
        if a[1] is None and b[1] is None:
            return self.mkb("ge", b[2][0] - a[2][0] - 1)
        if a[1] is None and a[2][0] == 0:
            return ONE
        if b[1] is None and b[2][0] == 0:
            return ZERO
        for x, y, lt in ((a, b, True), (b, a, False)):
            mem = self.st.misc.get(("incell", x[1]))
            if mem is not None and y[1] == mem:
                # x is a node inside the memory y points into
                n = self.array_len(mem, ())
                i = y[2][-1][1] if y[2] and y[2][-1][0] == "i" else ZERO
                if self.is_eq(i):
                    return ZERO if lt else ("bo", ("firstcell", x[1]), True)
                if n is not None and self.is_eq(i - n):
                    return ONE if lt else ZERO
                return ("bo", ("ptrlt", a, b), False)
        if a[1] is not None and b[1] is not None and a[1] != b[1]:
            # different objects: one order for all their addresses, except that one may start where the other ends
            if str(a[1]) < str(b[1]):
                key, neg = ("ord", a[1], b[1]), False
            else:
                key, neg = ("ord", b[1], a[1]), True
            less = self.truth(("bo", key, neg))
            if less and self.past_end(a) and self.at_start(b):
                return ("bo", ("apart", a[1], b[1]), False)
            return ONE if less else ZERO
        return ("bo", ("ptrlt", a, b), False)

    def past_end(self, p):
        path = p[2]
        if path and path[-1][0] == "i":
            n = self.array_len(p[1], path[:-1])
            return n is not None and self.is_eq(path[-1][1] - n)
        return False

    def at_start(self, p):
        return self.canon_path(p) == ()

    def binop(self, op, a, b, tid, f=None, r=None):
        T = self.T
        t = T[T.strip(tid)] if tid is not None else {"k": "int", "signed": False, "bits": 64}
        if op == "Offset":
            return self.ptr_add(self.asptr(a), self.asint(b), t["t"])
        if t["k"] in ("ptr", "ref", "fnptr"):
            a, b = self.asptr(a), self.asptr(b)
            if op == "Eq":
                return self.ptr_eq(a, b)
            if op == "Ne":
                return self.bnot(self.ptr_eq(a, b))
            if op == "Lt":
                return self.ptr_lt(a, b)
            if op == "Gt":
                return self.ptr_lt(b, a)
            if op == "Le":
                return self.bnot(self.ptr_lt(b, a))
            if op == "Ge":
                return self.bnot(self.ptr_lt(a, b))
            raise Undecided("pointer %s" % op)
        if t["k"] == "float":
            if op in ("Lt", "Gt", "Le", "Ge", "Eq", "Ne"):
                return ("bo", ("fcmp", op, a, b), False)
            return ("o", (op, a, b))
        if t["k"] == "bool":
            if op == "BitAnd":
                return ONE if self.truth(a) and self.truth(b) else ZERO
            if op == "BitOr":
                return ONE if self.truth(a) or self.truth(b) else ZERO
            if op in ("Eq", "Ne", "BitXor"):
                r = self.truth(a) == self.truth(b)
                return ONE if r == (op == "Eq") else ZERO
        if t["k"] == "tuple" and op in ("Eq",):
            return ONE
        if isinstance(a, tuple) and a[0] == "u" or isinstance(b, tuple) and b[0] == "u":
            self.violate("C04", "an uninitialised value is used")
        if isinstance(a, tuple) and isinstance(b, tuple) and a == b and op in ("Eq", "Ne"):
            return ONE if op == "Eq" else ZERO
        x, y = self.asint(a), self.asint(b)
        if op == "Eq":
            return self.mkb("eq", x - y)
        if op == "Ne":
            return self.mkb("ne", x - y)
        if op == "Lt":
            return self.mkb("ge", y - x - 1)
        if op == "Le":
            return self.mkb("ge", y - x)
        if op == "Gt":
            return self.mkb("ge", x - y - 1)
        if op == "Ge":
            return self.mkb("ge", x - y)
        if op == "Cmp":
            if self.eqz(x - y):
                return ("e", 1, ())
            return ("e", 2, ()) if self.ge(x - y) else ("e", 0, ())
        bits = t.get("bits", 64)
        signed = t.get("signed", False)
        mx = (1 << bits) - 1 if not signed else (1 << (bits - 1)) - 1
        if op in ("Add", "AddUnchecked"):
            return self.wrap_hi(x + y, mx, bits, op)
        if op in ("Sub", "SubUnchecked"):
            z = x - y
            if signed or self.ent(z):
                return z
            if op == "SubUnchecked":
                return z
            if self.ge(z):
                return z
            self.flag("wrap")
            return z + (1 << bits)
        if op in ("Mul", "MulUnchecked"):
            self.sizes(x, y)
            return self.wrap_hi(x * y, mx, bits, op)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            z = x + y if op[0] == "A" else x - y if op[0] == "S" else x * y
            if op[0] == "M":
                self.sizes(x, y)
            if op[0] == "S":
                if self.ge(z):
                    return ("s", (z, ZERO))
                return ("s", (z + (1 << bits), ONE))
            if self.ge(con(mx) - z):
                return ("s", (z, ZERO))
            return ("s", (self.fresh("ovf"), ONE))
        if op == "Div":
            c = y.const()
            if c is not None and c != 0:
                q = x.divexact(y)
                if q is not None:
                    return q
                return self.quot(x, y)
            q = x.divexact(y)
            if q is not None:
                return q
            return self.quot(x, y)
        if op == "Rem":
            return self.rem(x, y)
        cx, cy = x.const(), y.const()
        if cx is not None and cy is not None:
            if op == "BitAnd":
                return con(cx & cy)
            if op == "BitOr":
                return con(cx | cy)
            if op == "BitXor":
                return con(cx ^ cy)
            if op in ("Shl", "ShlUnchecked"):
                return con((cx << cy) & ((1 << bits) - 1))
            if op in ("Shr", "ShrUnchecked"):
                return con(cx >> cy)
        if op in ("BitAnd", "BitOr"):
            for u, w in ((x, y), (y, x)):
                r = self.low_bit(op, u, w, mx)
                if r is not None:
                    return r
        if op == "BitAnd":
            for u, w in ((x, y), (y, x)):
                r = self.align_down(u, w, mx)
                if r is not None:
                    return r
        if op in ("Shl", "ShlUnchecked") and cy is not None and bits == 64:
            return self.wrap_hi(x * (1 << cy), mx, bits, op)
        if op in ("Shr", "ShrUnchecked") and cy is not None:
            return self.quot(x, con(1 << cy))
        return P.atom((op, x, y))

    def flag(self, s):
        self.st.flags = self.st.flags | {s}

    def rem(self, x, y):
        if x.const() is not None and y.const():
            return con(x.const() % y.const())
        r = P.atom(("rem", x, y))
        self.fact(y - 1 - r)
        return r

    def sizes(self, *ps):
        """no type is larger than the address space allows"""
        for p in ps:
            for a in p.atoms():
                n = _atom_name[a]
                if isinstance(n, tuple) and n[0] == "S":
                    self.fact(con(ISIZE_MAX) - P.atom(n, 1))

    def wrap_hi(self, z, mx, bits, op):
        if bits < 64:
            # counters below 32 bits of range are assumed not to wrap; hash arithmetic stays opaque
            c = z.const()
            if c is not None:
                return con(c % (1 << bits))
            if op in ("Mul", "Shl"):
                return P.atom(("w" + op, z))
            return z
        if z.c <= mx and not z.t:
            return z
        if self.ent(con(mx) - z):
            return z
        if op.startswith("Add") and any(k == 1 and len(m) == 1 and isinstance(_atom_name[m[0]], tuple) and _atom_name[m[0]][0] == "addr" for m, k in z.t):
            return z        # addresses do not wrap around
        if any(len(m) > 1 for m, _ in z.t) and op == "Mul" and getattr(self, "opaque_mul", False):
            return P.atom(("wmul", z))
        if self.ge(con(mx) - z):
            return z
        self.flag("wrap")
        if not any(len(m) > 1 for m, _ in z.t) and op == "Add":
            return z - (1 << bits)
        w = self.fresh("wrapped")
        self.fact(con(mx) - w)
        return w

    def ptr_add(self, p, n, t):
        if p[1] is None:
            S = self.T.size(t)
            if n == 0:
                return p
            return ("p", None, (p[2][0] + n * S,), p[3])
        if p[2] and p[2][-1][0] == "i" and self.T.size(t) == 1:
            et = self.typeof(p[1], p[2])
            if et is not None and not isinstance(et, tuple):
                S = self.T.size(self.T.strip(et))
                q = n.divexact(S) if not S == 1 else None
                if q is not None:
                    # bytewise steps over whole elements
                    return ("p", p[1], p[2][:-1] + (("i", p[2][-1][1] + q),), p[3])
        path = self.adjust(p[1], p[2], t)
        if path and path[-1][0] == "i":
            np = path[:-1] + (("i", path[-1][1] + n),)
        else:
            if n == 0:
                return p
            tt = self.typeof(p[1], path)
            if tt is not None and not isinstance(tt, tuple) and self.T.same(tt, t):
                # pointer arithmetic on a single object
                return ("p", p[1], path + (("past", n),), p[3]) if not self.is_eq(n) else p
            np = path + (("i", n),)
        return ("p", p[1], np, p[3])

    # ------------------------------------------------------------------ block execution
    def run_block(self):
        st = self.st
        self.stat["blocks"] += 1
        f = st.frames[-1]
        if f[INST] == "glue":
            return self.run_glue(f)
        b = self.body_of(f)
        bb = f[BB]
        if bb is None:
            raise Dead()
        stmts, term, cleanup = b["blocks"][bb]
        for s in stmts:
            k = s[0]
            if k == "=":
                self.line = s[3] if len(s) > 3 else None
                dt = self.optype(f, ["copy", s[1]])
                v = self.rvalue(f, s[2], dt)
                db, dp, dm, _ = self.place(f, s[1])
                self.store(db, dp, v)
            elif k == "dead" or k == "live":
                st.mem.pop(("L", f[UID], s[1]), None)
            elif k == "setd":
                db, dp, dm, t = self.place(f, s[1])
                v = self.load(db, dp)
                self.store(db, dp, ("e", s[2], v[2] if v[0] == "e" else ()))
            elif k == "assume":
                if not self.truth(self.operand(f, s[1])):
                    raise Dead()
            elif k == "cno":
                self.line = s[-1]
                src, dst = self.operand(f, s[1]), self.operand(f, s[2])
                n = self.asint(self.operand(f, s[3]))
                t = self.T[self.T.strip(self.optype(f, s[1]))]["t"]
                self.memcpy(src, dst, n, t)
            else:
                raise Undecided("statement %s" % k)
        self.terminator(f, term)

    def terminator(self, f, t):
        st = self.st
        if t is None:
            raise Undecided("no terminator")
        k = t[0]
        if k == "goto":
            f[BB] = t[1]
        elif k == "switch":
            v = self.operand(f, t[1])
            ty = self.T[t[4]] if len(t) > 4 and t[4] is not None else {"k": "int"}
            if not (isinstance(v, P) and v.const() is not None):
                self.branches += 1
            if ty["k"] == "bool" or (isinstance(v, tuple) and v[0] in ("b", "bo")):
                r = self.truth(v)
                tgt = t[3]
                for val, bb in t[2]:
                    if (int(val) != 0) == r:
                        tgt = bb
                f[BB] = tgt
            else:
                x = self.asint(v)
                for val, bb in t[2]:
                    val = int(val)
                    if ty.get("signed") and val >= 1 << (ty["bits"] - 1):
                        val -= 1 << ty["bits"]
                    if x.const() is not None and x.const() < 0 and val > 0 and not ty.get("signed"):
                        val -= 1 << (8 * (ty.get("size") or 8))
                    if self.eqz(x - val):
                        f[BB] = bb
                        return
                f[BB] = t[3]
        elif k == "return":
            self.do_return()
        elif k == "resume":
            self.pop()
            self.unwind()
        elif k in ("unreachable", "abort"):
            raise Dead()
        elif k == "drop":
            self.line = t[5] if len(t) > 5 else None
            b, p, m, tid = self.place(f, t[1])
            f[BB] = t[3]
            f[UNW] = t[4]
            if self.T[t[2]].get("needs_drop", True):
                self.glue([("drop", b, p, m, t[2])], resume=False)
        elif k == "call":
            self.call(f, t)
        elif k == "assert":
            self.line = t[-1]
            c = self.truth(self.operand(f, t[1]))
            exp = t[2] if isinstance(t[2], bool) else bool(int(t[2]))
            if c == exp:
                f[BB] = t[4]
            else:
                f[UNW] = t[5]
                self.bounds_panic(t[3])
                raise PanicEx()
        else:
            raise Undecided("terminator %s" % k)

    def bounds_panic(self, msg):
        if "BoundsCheck" in str(msg) or "bounds" in str(msg):
            self.range_panic()

    def range_panic(self):
        """an index or a range does not fit a slice"""
        if not self.st.unw:
            self.st.misc["cause"] = "range"
        raise PanicEx()

    # ------------------------------------------------------------------ calls
    def call(self, f, t):
        st = self.st
        _, kf, ops, dest, target, unw, line = t[:7]
        argtids, desttid = t[7], t[8]
        self.line = line
        args = [self.operand(f, o) for o in ops]
        f[UNW] = unw
        f[BB] = target
        if dest is None:
            dl = None
        else:
            db, dp, dm, _ = self.place(f, dest)
            dl = (db, dp)
        if isinstance(kf, list) and kf and kf[0] in ("copy", "move"):
            raise Undecided("call through a pointer")
        if isinstance(kf, list) and kf[0] == "const":
            kf = kf[1]
        fn = kf.get("fn") if isinstance(kf, dict) else None
        if fn is None:
            raise Undecided("indirect call")
        self.invoke(fn, args, argtids, dl, desttid)

    def norm_path(self, p):
        return (p or "").replace("moveit::slot::__macro::", "")

    def invoke(self, fn, args, argtids, dl, desttid):
        path = self.norm_path(fn.get("rpath") or fn["path"]).replace("core::", "std::", 1) if False else self.norm_path(fn.get("rpath") or fn["path"])
        if path.startswith("core::"):
            path = "std::" + path[6:]
        self.callee = fn
        self.callee_path = path
        self.desttid = desttid
        m = self.find_model(path, fn, argtids)
        if m is not None:
            v = m(self, args, argtids, fn, dl, desttid)
            if v is not NotImplemented:
                if v is not None and dl is not None:
                    self.store(dl[0], dl[1], v)
                return
        kind = str(fn.get("rkind") or "")
        if kind.startswith("Shim(FnPtr"):
            ct = self.T[fn["targs"][0]]
            sub = ct.get("callee")
            if sub is None:
                raise Undecided("fn pointer shim")
            tup = args[1]
            inner = list(tup[1]) if tup[0] == "s" else [tup]
            return self.invoke(sub, inner, [None] * len(inner), dl, desttid)
        if fn.get("ctor") is not None or kind == "ctor":
            return self.ctor(fn, args, dl, desttid)
        if kind.startswith("Shim(Clone"):
            return self.clone_shim(fn, args, argtids, dl, desttid)
        i = fn.get("inst")
        if i is None or self.I[i]["body"] is None:
            raise Undecided("unmodelled callee %s" % path)
        inst = self.I[i]
        n = inst["body"]["argc"]
        if inst["body"].get("spread") is not None and len(args) != n:
            pass
        if inst.get("closure") and (len(args) != n or fn["path"].split("::")[-1] in ("call", "call_mut", "call_once")):
            tup = args[1] if len(args) > 1 else UNIT
            args = [args[0]] + list(tup[1] if tup[0] == "s" else [self.field(tup, j) for j in range(n - 1)])
        if len(args) != n:
            raise Undecided("arity of %s" % path)
        # closure called by value through FnOnce whose body takes a reference
        if inst.get("closure") and args:
            pt = self.T[inst["body"]["locals"][1]]
            if pt["k"] == "ref" and args[0][0] != "p":
                self.st.ctr += 1
                tmp = ("R", "clo", self.st.ctr)
                self.st.mem[tmp] = args[0]
                self.st.oty[tmp] = pt["t"]
                args = [("p", tmp, (), None)] + args[1:]
            elif pt["k"] != "ref" and args[0][0] == "p":
                args = [self.load(args[0][1], args[0][2])] + args[1:]
        if self.enter_hook(i, inst, args, dl, desttid):
            return
        self.push(i, args, dl)

    def enter_hook(self, i, inst, args, dl, desttid):
        return False

    def clone_shim(self, fn, args, argtids, dl, desttid):
        p = self.asptr(args[0])
        v = self.load(p[1], p[2])
        if v[0] == "s":
            outs = []
            for i, x in enumerate(v[1]):
                outs.append(self.clone_val(x))
            if dl is not None:
                self.store(dl[0], dl[1], ("s", tuple(outs)))
            return
        raise Undecided("clone shim")

    def ctor(self, fn, args, dl, desttid):
        t = self.T[self.T.strip(desttid)]
        c = fn.get("ctor")
        vi = c if isinstance(c, int) else 0
        if t["k"] == "adt" and t["kind"] == "enum":
            if not isinstance(c, int):
                nm = fn["path"].split("::")[-1]
                for i, v in enumerate(t["variants"]):
                    if v["name"] == nm:
                        vi = i
            v = ("e", vi, tuple(args))
        else:
            v = ("s", tuple(args))
        if dl is not None:
            self.store(dl[0], dl[1], v)

    def find_model(self, path, fn, argtids):
        m = self.models.get(path)
        if m is None and "core::" in path:
            path = path.replace("core::", "std::")
            m = self.models.get(path)
        general = self.norm_path(fn["path"]).replace("core::", "std::")
        if m is None and fn.get("trait") and (fn.get("inst") is None or self.I[fn["inst"]]["body"] is None) and path == general:
            # code the user supplies; an implementation that is known but has neither body nor model stays undecided
            m = self.models.get(general)
            if m is None:
                m = self.models.get("trait " + fn["trait"].split("::")[-1].split("<")[0] + "::" + fn["path"].split("::")[-1])
        return m

    # user code: may panic
    def user(self, what):
        if self.st.unw:
            return
        if self.choose(2) == 1:
            self.st.dec = self.st.dec + ("%s panics" % what,)
            raise PanicEx()

    # ------------------------------------------------------------------ drops
    def run_glue(self, f):
        if not f[BB]:
            res = f[RES]
            self.pop()
            if res:
                self.unwind()
            return
        a = f[BB][0]
        f[BB] = f[BB][1:]
        self.drop_one(f, a)

    def drop_one(self, f, a):
        T = self.T
        st = self.st
        if a[0] == "call":
            self.push(a[1], a[2], None)
            return
        _, b, p, m, tid = a
        tid = T.strip(tid) if not T.transparent(tid) else tid
        t = T[tid]
        if not t.get("needs_drop", True):
            return
        k = t["k"]
        if k in ("param", "alias"):
            v = self.load(b, p)
            if v[0] == "u":
                self.violate("C04", "storage without a live element is dropped")
            if v[0] != "y":
                raise Undecided("drop of %s" % v[0])
            self.dispose(v[1], v[3], v[2], v[2] + 1)
            self.event("drop", v)
            self.user("drop of an element")
            return
        if k in ("slice", "array"):
            n = m if k == "slice" else self.nconst(t["n"])
            if k == "slice":
                if b is None:
                    if self.is_eq(n):
                        return
                    self.check(-n, "C14", "elements behind a null pointer are dropped")
                    return
                lo = p[-1][1]
                pre = p[:-1]
            else:
                lo, pre = ZERO, p
            self.drop_range(b, pre, lo, lo + n, t["t"])
            return
        v = self.load(b, p)
        if v[0] == "u":
            self.violate("C04", "storage without a live value is dropped")
        if v[0] == "y":
            ls = self.leaves(v[1], tid)
            self.dispose(v[1], v[3], v[2], v[2] + 1)
            self.event("drop", v)
            if ls:
                self.user("drop of an element")
            return
        acts = []
        if isinstance(t.get("drop"), int):
            acts.append(("call", t["drop"], [("p", b, p, None)]))
        h = self.drop_hook(tid, b, p, v)
        if h is not None:
            acts += h
        elif k == "adt" and t["kind"] == "enum":
            if v[0] != "e":
                raise Undecided("drop of enum %s" % v[0])
            for i, ft in enumerate(T.fields(tid, v[1])):
                if T[ft].get("needs_drop", True):
                    acts.append(("drop", b, p + (("v", v[1], i),), None, ft))
        elif k == "adt" and t["kind"] == "union":
            return
        elif k in ("adt", "tuple", "closure"):
            for i, ft in enumerate(T.fields(tid)):
                if T[ft].get("needs_drop", True):
                    acts.append(("drop", b, p + (("f", i),), None, ft))
        else:
            raise Undecided("drop of %s" % k)
        f[BB] = tuple(acts) + tuple(f[BB])

    def drop_hook(self, tid, b, p, v):
        """drop glue for std types kept as opaque structures"""
        t = self.T[tid]
        if t["k"] == "adt" and t["path"].endswith("moveit::MoveRef"):
            x = [a for a in t["args"] if isinstance(a, int)][-1]
            for i, ft in enumerate(self.T.fields(tid)):
                if self.T[ft]["k"] == "ref":
                    q = self.asptr(self.load(b, p + (("f", i),)))
                    return [("drop", q[1], q[2], q[3], x)]
        if t["k"] == "adt" and not isinstance(t.get("drop"), int) and t.get("drop") is not None and not t["path"].endswith("array::IntoIter"):
            raise Undecided("drop of %s" % t["s"])
        if t["k"] == "adt" and t["path"].endswith("array::IntoIter"):
            # ('s',(arr,start,end))
            et = t["args"][0]
            if v[0] != "s":
                raise Undecided("drop of array iterator")
            self.drop_segs(self.cut(v[1][0][1], v[1][1], v[1][2]), et)
            self.user("drop of an element")
            return []
        if t["k"] == "adt" and t["path"].endswith("vec::IntoIter") or t["k"] == "adt" and t["path"].endswith("vec::Vec"):
            raise Undecided("std Vec")
        return None

    def event(self, *a):
        pass

    def drop_range(self, b, pre, lo, hi, et):
        if self.is_eq(hi - lo) or not self.T[et].get("needs_drop", True):
            return
        arr = self.load(b, pre)
        if arr[0] == "u":
            if not self.maybe(hi - lo - 1):
                return
            self.violate("C04", "uninitialised storage is dropped")
        if arr[0] == "y":
            arr = self.expand_array(arr)
        n = self.alen(arr)
        self.check(n - hi, "C12", "elements beyond the end of the storage are dropped")
        self.check(hi - lo, "C12", "a reversed range of elements is dropped")
        segs = self.cut(arr[1], lo, hi)
        self.drop_segs(segs, et)
        self.user("drop of an element")

    def drop_segs(self, segs, et):
        for a, c, ct in segs:
            if ct[0] == "q":
                self.dispose(ct[1], ct[3], ct[2], ct[2] + (c - a))
            elif ct[0] == "u":
                if self.maybe(c - a - 1):
                    self.violate("C04", "storage without a live element is dropped")
            elif ct[0] == "v":
                self.drop_plain(ct[1])
            else:
                raise Undecided("drop of content")

    def drop_plain(self, v):
        if v[0] == "y":
            self.dispose(v[1], v[3], v[2], v[2] + 1)
        elif v[0] == "s":
            for x in v[1]:
                self.drop_plain(x)
        elif v[0] == "e":
            for x in v[2]:
                self.drop_plain(x)
        elif v[0] == "u":
            self.violate("C04", "storage without a live element is dropped")

    # ------------------------------------------------------------------ bulk copies
    def memcpy(self, src, dst, n, t, move=True):
        if self.is_eq(n):
            return
        src, dst = self.asptr(src), self.asptr(dst)
        if src[1] is None or dst[1] is None:
            if not self.ge(n - 1):
                return
            if (src[1] is None and self.is_null_addr(src[2][0])) or (dst[1] is None and self.is_null_addr(dst[2][0])):
                self.violate("C14", "memory is copied through a null pointer")
            self.violate("C04", "memory is copied through a dangling pointer")
        sb, sp, si = self.ptr_index(src, t)
        db, dp, di = self.ptr_index(dst, t)
        if si is None or di is None:
            if self.is_eq(n - 1):
                v = self.load(sb, sp if si is None else sp + (("i", si),))
                self.store(db, dp if di is None else dp + (("i", di),), v)
                return
            if not self.ge(n - 1):
                return
            raise Undecided("bulk copy on a single object")
        sa = self.load(sb, sp)
        if sa[0] == "u":
            sa = ("a", ((ZERO, self.array_len(sb, sp), U),))
        da = self.load(db, dp)
        if da[0] == "u":
            da = ("a", ((ZERO, self.array_len(db, dp), U),))
        if sa[0] == "y":
            sa = self.expand_array(sa)
        if da[0] == "y":
            da = self.expand_array(da)
        self.check(n, "C12", "a copy with a negative length")
        self.check(si, "C12", "a copy reads before the start of the storage")
        self.check(di, "C12", "a copy writes before the start of the storage")
        self.check(self.alen(sa) - si - n, "C12", "a copy reads beyond the end of the storage")
        self.check(self.alen(da) - di - n, "C12", "a copy writes beyond the end of the storage")
        segs = self.cut(sa[1], si, si + n)
        d = di - si
        new = tuple((lo + d, hi + d, c) for lo, hi, c in segs)
        self.store(db, dp, ("a", self.put(da[1], di, di + n, new)))

    # ------------------------------------------------------------------ user values
    def clone_val(self, v):
        """one clone of a value; ownership of the copy is recorded"""
        if isinstance(v, P):
            return v
        k = v[0]
        if k in ("p", "o", "b", "bo"):
            return v
        if k == "s":
            return ("s", tuple(self.clone_val(x) for x in v[1]))
        if k == "u":
            self.violate("C04", "storage without a live element is cloned")
        if k != "y":
            raise Undecided("clone of %s" % k)
        self.alive(v, "cloned")
        t = self.T[self.T.strip(v[3])]
        if t["k"] in ("int", "bool", "char", "ref", "ptr", "float"):
            return v
        g = 0
        while True:
            seq = ("cl", g, v[1])
            clash = False
            for s in self.leaves(seq, v[3]) or [seq]:
                for a, b in self.st.acq.get(s, ()):
                    if not (self.ent(v[2] - b) or self.ent(a - v[2] - 1)):
                        clash = True
            if not clash:
                break
            g += 1
        self.acquire(seq, v[3], v[2], v[2] + 1)
        return ("y", seq, v[2], v[3])

    def clone_content(self, c, n):
        """clones of a run of n elements"""
        if c[0] == "u":
            self.violate("C04", "storage without a live element is cloned")
        if c[0] == "v":
            return ("v", self.clone_val(c[1])) if self.is_eq(n - 1) else c
        t = self.T[self.T.strip(c[3])]
        if t["k"] in ("int", "bool", "char", "ref", "ptr", "float"):
            return c
        g = 0
        while True:
            seq = ("cl", g, c[1])
            if all(self.ent(c[2] - b) or self.ent(a - c[2] - n) for s in self.leaves(seq, c[3]) for a, b in self.st.acq.get(s, ())):
                break
            g += 1
        self.acquire(seq, c[3], c[2], c[2] + n)
        return ("q", seq, c[2], c[3])

    def before_free(self, b):
        pass

    def on_lower_bound(self, p, f, j):
        pass

    # ------------------------------------------------------------------ exploration
    def step(self, st0):
        out = []
        todo = [()]
        while todo:
            ch = todo.pop()
            st = st0.copy()
            self.st = st
            self.ch = ch
            self.ci = 0
            self.steps += 1
            nf = len(self.findings)
            if self.steps > self.maxsteps or self.small and time.time() > self.maxtime:
                raise Budget("step budget")
            try:
                self.run_block()
                out.append(st)
            except Fork as e:
                del self.findings[nf:]
                for i in reversed(range(e.n)):
                    todo.append(ch + (i,))
            except PanicEx:
                try:
                    self.unwind()
                    out.append(st)
                except Dead:
                    pass
            except Dead:
                pass
            except Budget:
                raise
            except Undecided as e:
                # explicit instances are followed one by one: the others still count
                if not self.small:
                    raise
                self.partial = e
        return out
