"""What the entry points promise: symbolic arguments for every public function, container shapes
(made for arguments, matched at exit), and the exit obligations."""
from .poly import P, con, ZERO, ONE, entails, USIZE_MAX, ISIZE_MAX, _atom_name, atom_id, subst_any, atoms_any
from .core import U, UNIT, NULL, St, Dead, PanicEx, Undecided, Fork, UID, INST, BB
from .tables import SlotEngine
from . import models, specs

SHAPES = {}


def ptrs_in(v):
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == "p":
            yield v
            return
        for x in v:
            yield from ptrs_in(x)


def shape(*paths):
    def d(c):
        for p in paths:
            SHAPES[p] = c()
        return c
    return d


class Skip(Exception):
    pass


class Sem(SlotEngine):
    def __init__(self, F):
        super().__init__(F)
        self.models = models.M
        self.kbodies = {}
        self.narrowing = True
        u8 = [i for i, t in enumerate(F.types) if t["k"] == "int" and t["bits"] == 8 and not t["signed"]]
        self.u8 = u8[0]
        self.usize = [i for i, t in enumerate(F.types) if t["s"] == "usize"][0]

    # ------------------------------------------------------------ hooks of the models
    def alive_ref(self, v):
        if isinstance(v, P):
            return
        if v[0] == "a":
            return
        self.alive(v, "read")

    def slice_formed(self, segs, a, b, t):
        """a slice value over [a,b): every element must be live"""
        if a == b:
            return
        if self.T[self.T.strip(t)]["k"] == "adt" and self.T.transparent(t):
            return
        tt = self.T[t]
        if tt["k"] == "ptr" or tt["k"] == "adt" and tt["path"].endswith("MaybeUninit"):
            return
        for lo, hi, c in self.cut(segs, a, b):
            if c[0] == "u" and self.maybe(hi - lo - 1):
                self.violate("C04", "a slice over storage without live elements is formed")

    def utf8_formed(self, p):
        if p[1] is None or not p[2] or p[2][-1][0] != "i":
            return
        arr = self.load(p[1], p[2][:-1])
        if arr[0] == "a":
            i = p[2][-1][1]
            self.text_ok(self.cut(arr[1], i, i + p[3]), "a str is formed")

    def char_id(self, v):
        if isinstance(v, P):
            c = v.const()
            if c is not None:
                return ("const", c)
            return ("p", v)
        return v[1] if v[0] == "o" else tuple(v[1:3])

    def char_len(self, v):
        cid = self.char_id(v)
        if cid[0] == "const":
            c = cid[1]
            return con(1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4)
        l = P.atom(("len8", cid), 1)
        self.fact(con(4) - l)
        return l

    def text_at(self, arr, pos, back=False):
        """(seq, position in seq) of a byte position"""
        for j, (lo, hi, c) in enumerate(arr[1]):
            if c[0] == "q":
                if not back and self.ent(pos - lo) and self.ent(hi - 1 - pos):
                    return c[1], c[2] + pos - lo
                if back and self.ent(pos - 1 - lo) and self.ent(hi - pos):
                    return c[1], c[2] + pos - lo
        return None

    def text_name(self, arr, pos, back):
        r = self.text_at(arr, pos, back)
        if r is None:
            raise Undecided("character of unknown text")
        return r

    def boundary(self, arr, pos):
        r = self.text_at(arr, pos) or self.text_at(arr, pos, True)
        if r is not None:
            self.st.opq[("cb", r[0], r[1])] = True

    def is_boundary(self, arr, pos):
        r = self.text_at(arr, pos) or self.text_at(arr, pos, True)
        if r is None:
            return ("bo", ("cb?", pos), False)
        return ("bo", ("cb", r[0], r[1]), False)

    def seq_len(self, seq):
        return self.st.misc.get(("slen", seq))

    def is_cut(self, seq, pos):
        """is position pos of the text a character boundary?"""
        if self.is_eq(pos):
            return True
        if isinstance(seq, tuple) and seq[0] == "enc":
            cid = seq[1]
            l = con(1 if cid[1] < 0x80 else 2 if cid[1] < 0x800 else 3 if cid[1] < 0x10000 else 4) if cid[0] == "const" else P.atom(("len8", cid), 1)
            return self.is_eq(pos - l)
        n = self.seq_len(seq)
        if n is not None and self.is_eq(pos - n):
            return True
        for k, v in self.st.opq.items():
            if k[0] == "cb" and k[1] == seq and v and self.is_eq(k[2] - pos):
                return True
        return False

    def text_ok(self, segs, what):
        self.ob("C11")
        for lo, hi, c in segs:
            if lo == hi or self.ent(lo - hi):
                continue
            if c[0] == "u":
                if self.maybe(hi - lo - 1):
                    self.violate("C04", "%s over uninitialised bytes" % what)
                continue
            if c[0] == "q":
                seq = c[1]
                if isinstance(seq, tuple) and (seq[0] in ("lit", "enc", "str", "text")):
                    a, b = c[2], c[2] + (hi - lo)
                    if not (self.is_cut(seq, a) and self.is_cut(seq, b)):
                        if not self.maybe(hi - lo - 1):
                            continue
                        self.violate("C11", "%s whose bytes are cut inside a character" % what)
                    continue
                self.violate("C11", "%s from bytes that are no text" % what)
            if c[0] == "v":
                v = c[1]
                if isinstance(v, P) and self.ent(con(127) - v) and self.ent(v):
                    continue
                self.violate("C11", "%s from bytes that are no text" % what)

    def give(self, v):
        """passed by value to user code"""
        if isinstance(v, P):
            return
        if v[0] == "y":
            self.alive(v, "handed to user code")
            self.dispose(v[1], v[3], v[2], v[2] + 1, "handed to user code")
        elif v[0] == "u":
            self.violate("C04", "an uninitialised value is handed to user code")
        elif v[0] in ("s", "e"):
            for x in v[-1]:
                self.give(x)

    def result(self, name, dt):
        key = ("cnt", name)
        n = self.st.misc.get(key, ZERO)
        self.st.misc[key] = n + 1
        t = self.T[self.T.strip(dt)]
        if t["k"] in ("int", "char"):
            return P.atom(("ret", name, n))
        if t.get("needs_drop"):
            self.acquire(("ret", name), dt, n, n + 1)
        return ("y", ("ret", name), n, dt)

    def vid(self, v):
        if isinstance(v, P):
            return v
        if v[0] == "y":
            return (v[1], v[2])
        return v

    def user_rel(self, name, fn, a, vs, dt):
        tk = tuple(self.T.key(t) for t in fn["targs"] if isinstance(t, int))[:1]
        t = self.T[self.T.strip(dt)]
        x, y = self.vid(vs[0]), self.vid(vs[1])
        if t["k"] != "bool":
            raise Undecided("ordering result")
        neg = False
        n = name
        if name in ("compare", "equals"):
            who = fn["targs"][0]
            tk = (self.T.key(who),)
        elif self.keyed():
            self.ob("C31")
            self.report("C31", "keys are compared with `%s` instead of the container's own functor" % name)
        if name == "gt":
            n, x, y = "lt", y, x
        if name == "ne":
            n, neg = "eq", True
        return ("bo", ("rel", n, tk, x, y), neg)

    def keyed(self):
        """an operation of a container whose keys are told apart by a functor that may be any"""
        from .checks import MAP, head
        if not head(self.root["path"]).startswith(MAP):
            return False
        fixed = ("hash::", "equals::", "compare::")
        for f in self.st.frames:
            if isinstance(f[INST], int) and head(self.I[f[INST]]["path"]).startswith(fixed):
                return False
        # a container whose functors are named is told apart by those
        b = self.I[self.root["id"] % 10000]["body"]
        return not (b and any(self.named(t, fixed, 4) for t in b["locals"][:b["argc"] + 1]))

    def named(self, tid, fixed, depth):
        t = self.T[self.T.strip(tid)]
        if depth and t["k"] in ("ref", "ptr"):
            return self.named(t["t"], fixed, depth)
        if t["k"] != "adt" or not depth:
            return False
        if t.get("local") and str(t["path"]).startswith(fixed):
            return True
        return any(self.named(a, fixed, depth - 1) for a in t.get("args", ()) if isinstance(a, int))

    def user_hash(self, a, k):
        v = self.vid(k)
        r = P.atom(("hash", v))
        self.fact(con(USIZE_MAX) - r)
        return r

    def on_callback(self, fn, a, args):
        self.st.events = self.st.events + (("call", fn["path"].split("::")[-1], self.cb_name(a[0]), tuple(self.vid(x) if not isinstance(x, tuple) or x[0] == "y" else x for x in args)),)

    def cb_name(self, v):
        if isinstance(v, tuple) and v[0] == "p":
            v = self.load(v[1], v[2])
        if isinstance(v, tuple) and v[0] == "y":
            return (v[1], v[2])
        return "?"

    def on_alloc(self, bytes_):
        pass

    def on_free(self, b):
        pass

    def fixedbuf(self, b, path):
        return b[0] == "R"

    # ------------------------------------------------------------ calls decided elsewhere
    def enter_hook(self, i, inst, args, dl, desttid):
        p = inst["path"]
        if p.endswith("get_rehash_required"):
            return self.rehash_policy(inst, args, dl)
        if "fixed_pool" in p and ("allocate_raw_aligned" in p):
            r = self.asptr(args[0])
            v = self.load(r[1], r[2])
            if v[0] == "y":
                # a pool somebody else is analysed with: an allocator like any other
                if p.endswith("deallocate_raw_aligned"):
                    models.release(self, args[1], self.asint(args[2]), self.asint(args[3]), models.alloc_id(self, args[0]))
                    out = UNIT
                else:
                    out = models.new_block(self, self.asint(args[1]), self.asint(args[2]), models.alloc_id(self, args[0]))
                if dl is not None:
                    self.store(dl[0], dl[1], out)
                return True
        return False

    # ------------------------------------------------------------ folding of containers at loop heads
    def active(self, path):
        m = path.rsplit("::", 1)[0] + "::"
        for f in self.st.frames:
            if isinstance(f[INST], int):
                p = self.I[f[INST]]["path"].lstrip("<")
                if p.startswith(m):
                    return True
        return False

    def places(self, st):
        out = []
        for k, v in st.mem.items():
            t = self.typeof_base(k)
            if isinstance(t, int) and isinstance(v, tuple) and v[0] == "s":
                self.walk_places(k, (), t, v, out)
        return out

    def walk_places(self, base, path, tid, v, out):
        T = self.T
        tid = T.strip(tid)
        t = T[tid]
        if t["k"] == "adt" and v[0] == "s":
            sh = SHAPES.get(t["path"])
            if sh is not None and getattr(sh, "istext", False):
                if self.active(t["path"]) and self.level < 2:
                    self.walk_places(base, path + (("f", 0),), T.fields(tid)[0], v[1][0], out)
                return
            if sh is not None and hasattr(sh, "refold") and not self.active(t["path"]):
                out.append((sh, base, path, tid, v))
                return
            if t["kind"] == "struct" and t["local"]:
                for i, ft in enumerate(T.fields(tid)):
                    if i < len(v[1]) and isinstance(v[1][i], tuple):
                        self.walk_places(base, path + (("f", i),), ft, v[1][i], out)

    def foldable(self, st):
        self.st = st
        return bool(self.places(st)) or bool(self.bucket_arrays())

    def fold(self, s):
        for sh, base, path, tid, v in self.places(s):
            nf = len(self.findings)
            sv = (getattr(self, "held", None), getattr(self, "ownblk", None), getattr(self, "checkrefs", None))
            self.held, self.ownblk, self.checkrefs = [], set(), []
            try:
                sh.refold(self, base, path, tid, v, self.level)
            finally:
                del self.findings[nf:]
                self.held, self.ownblk, self.checkrefs = sv
        self.fold_tables(s)

    def refold_store(self, base, path, ptrs, nv):
        def upd(v, path):
            if not path:
                l = list(v[1])
                for i, x in zip(ptrs, nv):
                    l[i] = x
                return ("s", tuple(l))
            l = list(v[1])
            l[path[0][1]] = upd(l[path[0][1]], path[1:])
            return ("s", tuple(l))
        self.st.mem[base] = upd(self.st.mem[base], path)

    def havoc(self, names):
        """the atoms of these names stand for new unknowns; what they stood for gets another name"""
        st = self.st
        m = {}
        for n in names:
            a = atom_id(n, 1 if n[1] == "cap" else 0)
            self.gctr = getattr(self, "gctr", 0) + 1
            m[a] = P.atom("w%d" % self.gctr)
        new = {next(iter(p.atoms())) for p in m.values()}
        for d in ("mem", "acq", "disp", "misc", "opq"):
            o = getattr(st, d)
            setattr(st, d, {subst_any(k, m): subst_any(v, m) for k, v in o.items()})
        st.blk = {b: {k: subst_any(v, m) for k, v in x.items()} for b, x in st.blk.items()}
        st.events = subst_any(st.events, m)
        st.frames = [list(subst_any(tuple(tuple(x) if isinstance(x, list) else x for x in f), m)) for f in st.frames]
        used = set()
        for d in (st.mem, st.acq, st.disp, st.misc, st.blk):
            for k, v in d.items():
                atoms_any(k, used)
                atoms_any(tuple(v.values()) if isinstance(v, dict) else v, used)
        nf = []
        for f in st.facts:
            f = f.subst(m)
            if f.t and (f.atoms() & new) - used:
                continue
            if f.t and f not in nf:
                nf.append(f)
        st.facts = tuple(nf)
        def inner(k):
            s = set()
            atoms_any(k, s)
            return s
        st.opq = {k: v for k, v in st.opq.items() if k[0] != "rel" and not ((inner(k) & new) - used)}

    def consume_held(self, held):
        """tokens of a folded container become part of its family"""
        st = self.st
        for s, lo, hi, w in held:
            if lo == hi:
                continue
            st.disp[s] = self.add_iv(st.disp.get(s, ()), lo, hi)
        for s in list(st.acq):
            a, d = st.acq.get(s), st.disp.get(s)
            if s not in self.keeptok and a is not None and d is not None and len(a) == len(d) == 1 and self.is_eq(a[0][0] - d[0][0]) and self.is_eq(a[0][1] - d[0][1]):
                del st.acq[s]
                del st.disp[s]

    # ------------------------------------------------------------ arguments
    def mktok(self, name, tid, own=True):
        if own:
            self.acquire(name, tid, ZERO, ONE)
        return ("y", name, ZERO, tid)

    def make(self, tid, name, own=True, loc=None):
        """a symbolic value of the type"""
        T = self.T
        t = T[T.strip(tid)] if not T.transparent(tid) else T[T.strip(tid)]
        tid = T.strip(tid)
        k = t["k"]
        if k == "int":
            p = P.atom(name)
            if t.get("signed"):
                raise Skip("signed argument")
            self.fact(con((1 << t["bits"]) - 1) - p)
            return p
        if k == "bool":
            return ("bo", ("arg", name), False)
        if k == "char":
            return ("o", ("charg", name))
        if k == "float":
            return ("o", ("float", name))
        if k in ("param", "alias"):
            return self.mktok(name, tid, own)
        if k in ("ref",):
            return self.make_ref(t["t"], name, own and t.get("mut"))
        if k == "ptr":
            return ("y", name, ZERO, tid)
        if k == "tuple":
            return ("s", tuple(self.make(x, (name, "f", i), own) for i, x in enumerate(t["ts"])))
        if k == "array":
            n = self.nconst(t["n"])
            self.fact(con(ISIZE_MAX) - n)
            if own:
                self.acquire((name, "arr"), t["t"], ZERO, n)
            return ("a", ((ZERO, n, ("q", (name, "arr"), ZERO, t["t"])),))
        if k == "closure":
            raise Skip("closure")
        if k == "adt":
            sh = SHAPES.get(t["path"])
            if sh is not None:
                return sh.make(self, tid, name, own, loc)
            if t.get("phantom"):
                return UNIT
            if t["kind"] == "struct" and (t["local"]):
                return ("s", tuple(self.make(x, (name, "f", i), own, loc + (("f", i),) if loc else None) for i, x in enumerate(T.fields(tid))))
            if t["kind"] == "enum":
                return self.mktok(name, tid, own) if t.get("needs_drop") else ("y", name, ZERO, tid)
            raise Skip("argument of type %s" % t["s"])
        raise Skip("argument of type %s" % t["s"])

    def make_inner(self, outer, ref, name):
        """a reference to the part of `outer` it dereferences to"""
        T = self.T
        want = T[T.strip(ref)]["t"]
        base = ("R", name)
        self.st.oty[base] = outer
        self.st.mem[base] = U
        self.st.mem[base] = self.make(outer, name, True, (base,))
        self.args.append((base, outer, True))
        for i, ft in enumerate(T.fields(T.strip(outer))):
            if T.same(ft, want):
                return ("p", base, (("f", i),), None)
        raise Skip("dereferences to no field of its own")

    def make_ref(self, pt, name, own):
        T = self.T
        t = T[T.strip(pt)]
        base = ("R", name)
        if t["k"] in ("slice", "str"):
            el = t["t"] if t["k"] == "slice" else self.u8
            n = P.atom((name, "len"))
            self.fact(con(ISIZE_MAX) - n)
            self.fact(con(ISIZE_MAX) - n * T.size(el)) if T.size(el).const() is None else None
            seq = ("text", name) if t["k"] == "str" else name
            if t["k"] == "str":
                self.st.misc[("slen", seq)] = n
            if own:
                self.acquire(seq, el, ZERO, n)
            self.st.mem[base] = ("a", ((ZERO, n, ("q", seq, ZERO, el)),))
            self.st.oty[base] = ("arr", el)
            self.args.append((base, None, own))
            return ("p", base, (("i", ZERO),), n)
        self.st.oty[base] = pt
        self.st.mem[base] = U
        own = own or (t["k"] == "adt" and (t["path"] in SHAPES or t["local"]))
        v = self.make(pt, name, own, (base,))
        self.st.mem[base] = v
        self.args.append((base, pt, own))
        return ("p", base, (), None)

    # ------------------------------------------------------------ running one entry point
    def run_root(self, root, setup=None):
        """explore one public function from every state its contract admits"""
        self.root = root
        self.findings = []
        self.notes = {}
        self.steps = 0
        starts = []
        todo = [()]
        if "drop" in root:
            return self.run_drop(root)
        if "ctor" in root:
            return self.run_ctor(root)
        if "move" in root:
            return self.run_move(root)
        if "dealloc" in root:
            return self.run_dealloc(root)
        if "trip" in root:
            return self.run_trip(root)
        if "compat" in root:
            from . import compat
            return compat.run(self, root)
        inst = self.I[root["id"]]
        if not inst["body"]:
            raise Skip("no body")
        while todo:
            ch = todo.pop()
            self.st = st = St()
            self.ch, self.ci = ch, 0
            self.args = []
            self.line = None
            try:
                self.setup_statics()
                b = inst["body"]
                vals = []
                for i in range(b["argc"]):
                    if i == 0 and "outer" in root:
                        vals.append(self.make_inner(root["outer"], b["locals"][1], "a0"))
                        continue
                    vals.append(self.make(b["locals"][i + 1], "a%d" % i, True))
                if setup:
                    setup(self, vals)
                self.push(root["id"], vals, "ret")
                st.misc["args"] = tuple(self.args)
                st.misc["vals"] = tuple(vals)
                specs.pre(self, root)
                starts.append(st)
            except Fork as e:
                for i in range(e.n):
                    todo.append(ch + (i,))
            except Dead:
                pass
        return self.run_starts(starts, root, inst["body"]["locals"][0])

    def run_starts(self, starts, root, rett):
        finals = []
        why = None
        for s in starts:
            try:
                _, _, f = self.explore([s])
            except Undecided as e:
                if not self.small:
                    raise
                why = e
                continue
            finals += f
        if why is not None:
            # the other instances still count
            for s in finals:
                try:
                    self.finish(s, root, rett)
                except Undecided:
                    pass
            raise why
        n = 0
        for s in finals:
            try:
                n += self.finish(s, root, rett)
            except Undecided as e:
                if not self.small:
                    raise
                self.partial = e
        if self.partial is not None:
            raise self.partial
        return n

    def begin(self, prep):
        """all initial states `prep` can make"""
        starts, todo = [], [()]
        while todo:
            ch = todo.pop()
            self.st = st = St()
            self.ch, self.ci = ch, 0
            self.args = []
            self.line = None
            try:
                self.setup_statics()
                prep(st)
                starts.append(st)
            except Fork as e:
                for i in range(e.n):
                    todo.append(ch + (i,))
            except Dead:
                pass
        return starts

    def run_ctor(self, root):
        """the maker is called and what it returns is run on fresh storage"""
        c = root["ctor"]
        mk = self.I[c["maker"]]
        nw = self.I[c["new"]]
        if not mk["body"] or not nw["body"]:
            raise Skip("no body")
        def prep(st):
            vals = [self.make(mk["body"]["locals"][i + 1], "a%d" % i, True) for i in range(mk["body"]["argc"])]
            self.push(mk["id"], vals, "ret")
            st.misc["args"] = ()
        starts = self.begin(prep)
        finals = []
        why = None
        for s in starts:
            try:
                _, _, f = self.explore([s])
            except Undecided as e:
                if not self.small:
                    raise
                why = e
                continue
            finals += f
        if why is not None:
            # the other instances still count
            for s in finals:
                try:
                    self.finish(s, root, rett)
                except Undecided:
                    pass
            raise why
        n = 0
        second = []
        base = ("R", "made")
        for s in finals:
            if s.unw:
                n += self.finish(s, root, None)
                continue
            self.st = s = s.copy()
            v = s.misc.pop("ret", UNIT)
            s.oty[base] = c["made"]
            s.mem[base] = U
            s.misc["made"] = (base, c["made"])
            self.size_facts(c["made"])
            self.push(nw["id"], [v, ("s", (("p", base, (), None),))], "ret")
            second.append(s)
        return n + self.run_starts(second, root, None)

    def size_facts(self, tid):
        """objects fit the address space; in-place buffers have room for at least one element"""
        T = self.T
        for f in T.fields(T.strip(tid)):
            t = T[T.strip(f)]
            if t["k"] == "array":
                n = self.nconst(t["n"])
                self.fact(n - 1)
                self.fact(con(ISIZE_MAX) - n)
                self.fact(con(ISIZE_MAX) - n * T.size(T.strip(t["t"])))

    def run_move(self, root):
        inst = self.I[root["move"]]
        b = inst["body"]
        if not b:
            raise Skip("no body")
        T = self.T
        src = T[T.strip(b["locals"][1])]["args"][-1]      # MoveRef<X>
        x = [a for a in T[T.strip(src)]["args"] if isinstance(a, int)][-1]
        def prep(st):
            ob = ("R", "a0")
            st.oty[ob] = x
            st.mem[ob] = U
            st.mem[ob] = self.make(x, "a0", True, (ob,))
            fl = ("R", "flag")
            st.mem[fl] = ("s", (("s", (ONE,)),))
            base = ("R", "made")
            st.oty[base] = x
            st.mem[base] = U
            st.misc["made"] = (base, x)
            st.misc["args"] = ()
            mr = [U] * len(T.fields(T.strip(src)))
            for i, f in enumerate(T.fields(T.strip(src))):
                mr[i] = ("p", ob, (), None) if T[f]["k"] == "ref" else ("s", (("p", fl, (), None),))
            self.push(inst["id"], [("s", (("s", tuple(mr)),)), ("s", (("p", base, (), None),))], "ret")
        return self.run_starts(self.begin(prep), root, None)

    def run_dealloc(self, root):
        """an allocator of the crate is handed back storage it gave out: a cell of its own memory or a block
        of the allocator behind it"""
        inst = self.I[root["dealloc"]]
        b = inst["body"]
        if not b:
            raise Skip("no body")
        T = self.T
        tid = T.strip(T[T.strip(b["locals"][1])]["t"])
        def prep(st):
            base = ("R", "a0")
            st.oty[base] = tid
            st.mem[base] = U
            v = self.make(tid, "a0", True, (base,))
            ptrs = [i for i, f in enumerate(T.fields(tid)) if T[T.strip(f)]["k"] == "ptr"]
            pools = [k[1] for k in st.misc if k[0] == "pool"]
            own = None
            inner = [f for f in T.fields(tid) if T[T.strip(f)]["k"] in ("param", "alias")]
            node = [a for a in T[tid]["args"] if isinstance(a, int)][0]
            size, align = T.size(node), T.align(node)
            if "fixed_pool" not in root["path"]:
                if len(ptrs) != 1 or len(inner) != 1:
                    raise Skip("allocator layout")
                buf = ("R", "buffer")
                n = P.atom(("buffer", "n"), 1)
                self.fact(con(ISIZE_MAX) - n)
                st.oty[buf] = ("arr", self.u8)
                st.mem[buf] = ("a", ((ZERO, n, U),))
                own = ("p", buf, (("i", ZERO),), None)
                l = list(v[1])
                l[ptrs[0]] = own
                v = ("s", tuple(l))
                size, align = P.atom("bytes", 1), P.atom("align", 1)
                self.fact(con(ISIZE_MAX) - size)
            elif pools:
                cell = ("B", "cell")
                st.blk[cell] = {"bytes": size, "n": ONE, "align": align, "alloc": ("pool", pools[0]), "kind": "pool"}
                link = [f for f in range(len(self.F.types)) if self.T[f]["k"] == "adt" and self.T[f].get("path") == "fixed_pool::Link"]
                st.oty[cell] = ("arr", link[0])
                st.mem[cell] = ("a", ((ZERO, ONE, U),))
                st.misc[("incell", cell)] = pools[0]
                own = ("p", cell, (), None)
            st.mem[base] = v
            k = self.choose(2)
            if k == 0:
                if own is None:
                    raise Dead()
                p = own
            else:
                if not inner:
                    raise Dead()
                ob = ("B", "overflow")
                st.blk[ob] = {"bytes": size, "align": align, "alloc": self.inner_alloc(v, tid), "kind": "heap"}
                p = ("p", ob, (), None)
                st.blk.pop(("B", "cell"), None)
            self.push(inst["id"], [("p", base, (), None), p, size, align], "ret")
            st.misc["args"] = ((base, tid, True),)
        return self.run_starts(self.begin(prep), root, None)

    def run_trip(self, root):
        """storage is requested and, when there is some, given back with the arguments it was requested with"""
        ask, give = [self.I[i] for i in root["trip"]]
        if not ask["body"] or not give["body"]:
            raise Skip("no body")
        ls, gl = ask["body"]["locals"], give["body"]["locals"]
        if give["body"]["argc"] != ask["body"]["argc"] + 1:
            raise Skip("signatures")
        def prep(st):
            vals = [self.make(ls[i + 1], "a%d" % i, True) for i in range(ask["body"]["argc"])]
            self.fact(vals[1] - 1)
            self.push(ask["id"], vals, "ret")
            st.misc["args"] = tuple(self.args)
            st.misc["vals"] = tuple(vals)
        n = 0
        second = []
        for s in self.begin(prep):
            for f in self.explore([s])[2]:
                if f.unw:
                    n += self.finish(f, root, None)
                    continue
                self.st = f = f.copy()
                p = f.misc.pop("ret", UNIT)
                if p[0] != "p":
                    raise Undecided("result of a request")
                if p[1] is None:
                    n += self.finish(f, root, None)
                    continue
                vals = f.misc["vals"]
                self.push(give["id"], [vals[0], p] + list(vals[1:]), "ret")
                second.append(f)
        return n + self.run_starts(second, root, None)

    def inner_alloc(self, v, tid):
        for i, f in enumerate(self.T.fields(tid)):
            if self.T[self.T.strip(f)]["k"] in ("param", "alias"):
                return models.alloc_root(v[1][i])
        raise Skip("allocator layout")

    def run_drop(self, root):
        """a value in any state the invariant admits goes out of scope"""
        tid = root["drop"]
        starts, todo = [], [()]
        while todo:
            ch = todo.pop()
            self.st = st = St()
            self.ch, self.ci = ch, 0
            self.args = []
            self.line = None
            try:
                self.setup_statics()
                base = ("R", "a0")
                st.oty[base] = tid
                st.mem[base] = U
                st.mem[base] = self.make(tid, "a0", True, (base,))
                st.misc["args"] = tuple(self.args)
                self.glue([("drop", base, (), None, tid)])
                starts.append(st)
            except Fork as e:
                for i in range(e.n):
                    todo.append(ch + (i,))
            except Dead:
                pass
        return self.run_starts(starts, root, None)

    def setup_statics(self):
        pass

    def finish(self, s0, root, rett):
        todo = [()]
        n = 0
        while todo:
            ch = todo.pop()
            self.st = s0.copy()
            self.ch, self.ci = ch, 0
            self.line = None
            nf = len(self.findings)
            try:
                self.at_exit(root, rett)
                n += 1
            except Fork as e:
                del self.findings[nf:]
                for i in range(e.n):
                    todo.append(ch + (i,))
            except (Dead, PanicEx):
                n += 1
        return n

    # ------------------------------------------------------------ exit obligations
    def at_exit(self, root, rett):
        st = self.st
        self.held = []
        self.ownblk = set()
        self.checkrefs = []
        self.heldch = set()
        self.fwd = {}
        for base, tid, own in st.misc["args"]:
            if tid is None:
                v = st.mem[base]
                if own:
                    for lo, hi, c in v[1]:
                        self.hold_content(lo, hi, c, st.oty[base][1])
                continue
            self.match(tid, st.mem[base], base, (), own, "argument")
        if not st.unw and rett is not None:
            self.match(rett, st.misc.get("ret", UNIT), None, None, True, "result")
        if not st.unw and "made" in st.misc:
            base, tid = st.misc["made"]
            self.match(tid, st.mem[base], base, (), True, "constructed container")
        self.ob("C02")
        if not st.unw:
            self.leftover()
            for b, k in st.blk.items():
                if b not in self.ownblk and k["kind"] == "heap":
                    self.report("C02", "a block obtained from the allocator is neither held by a container nor given back")
        self.ledger()
        for p, t in self.checkrefs:
            self.ref_ok(p, t)
        for b in st.misc:
            if isinstance(b, tuple) and b[0] == "incell" and b[1] in st.blk and b[1] not in self.ownblk:
                self.report("C20", "a node given back to the pool is lost")
        self.raw_bytes(root, rett)
        self.post(root, rett)

    def raw_bytes(self, root, rett):
        """safe code never gets at a string's bytes but through `str`"""
        b = root.get("id", 0) < 10000 and self.I[root["id"]]["body"]
        if not b or rett is None or root.get("unsafe") or not b["argc"] or not root.get("pub"):
            return
        T = self.T
        t = T[T.strip(b["locals"][1])]
        if t["k"] not in ("ref", "ptr"):
            return
        a = T[T.strip(t["t"])]
        if a["k"] != "adt" or not SHAPES.get(a["path"]) or not getattr(SHAPES[a["path"]], "istext", False):
            return
        self.ob("C11")
        if self.writable(rett, 4):
            self.report("C11", "safe code is handed the bytes of a string to write them")

    def writable(self, tid, depth):
        t = self.T[self.T.strip(tid)]
        if t["k"] in ("ref",) and t.get("mut"):
            e = self.T[self.T.strip(t["t"])]
            if e["k"] == "slice" or e["k"] == "array":
                e = self.T[self.T.strip(e["t"])]
            elif e["k"] == "adt" and e.get("local") and e.get("args") and str(e["path"]).startswith("vector::"):
                e = self.T[self.T.strip([x for x in e["args"] if isinstance(x, int)][0])]
            return e["k"] == "int" and e["bits"] == 8
        if t["k"] == "adt" and depth:
            return any(self.writable(x, depth - 1) for x in t.get("args", ()) if isinstance(x, int))
        return False

    def post(self, root, rett):
        specs.post(self, root, rett)

    def hold(self, seq, tid, lo, hi, what):
        for s in self.leaves(seq, tid):
            self.held.append((s, lo, hi, what))

    def hold_content(self, lo, hi, c, tid, what="container"):
        if c[0] == "q":
            self.hold(c[1], c[3], c[2], c[2] + (hi - lo), what)
        elif c[0] == "v":
            self.match(tid, c[1], None, None, True, what)
        elif c[0] == "u":
            if self.T[tid].get("size") == 0:
                return
            if self.maybe(hi - lo - 1):
                self.violate("C04", "the %s counts a slot that holds no live element" % what)

    def match(self, tid, v, base, path, own, what):
        T = self.T
        tid = T.strip(tid)
        t = T[tid]
        k = t["k"]
        if k == "adt" and t["path"] in SHAPES:
            return SHAPES[t["path"]].match(self, tid, v, base, path, own, what)
        if not isinstance(v, P) and v[0] == "y":
            if own and t.get("needs_drop", True):
                self.hold(v[1], v[3], v[2], v[2] + 1, what)
            return
        if k in ("param", "alias"):
            if isinstance(v, tuple) and v[0] == "u":
                self.violate("C04", "the %s holds no live value" % what)
            return
        if k == "ref":
            if isinstance(v, tuple) and v[0] == "p":
                self.checkrefs.append((v, t["t"]))
            return
        if k == "ptr" and what == "result" and isinstance(v, tuple) and v[0] == "p" and v[1] is not None:
            v = self.asptr(v)
            if v[1] is not None and v[1][0] == "B":
                if v[1] in self.ownblk and "fixed_pool" in self.root["path"]:
                    self.violate("C20", "the pool hands out a node that stays on its free list")
                self.ownblk.add(v[1])
            if v[1] is not None and ("pool", v[1]) in self.st.misc:
                self.handed_out(v)
            return
        if k in ("ptr", "int", "bool", "char", "float", "fnptr", "fndef", "other", "never", "str"):
            return
        if k == "tuple" or k == "closure" or (k == "adt" and t["kind"] == "struct"):
            if v[0] == "u":
                if t.get("size") == 0 or not T.fields(tid):
                    return
                if t.get("needs_drop"):
                    self.violate("C04", "the %s is left uninitialised" % what)
                return
            if k == "adt" and not t["local"]:
                if t["path"].endswith("array::IntoIter"):
                    for lo, hi, c in self.cut(v[1][0][1], v[1][1], v[1][2]):
                        self.hold_content(lo, hi, c, t["args"][0], what)
                return
            for i, ft in enumerate(T.fields(tid)):
                self.match(ft, self.field(v, i), base, path + (("f", i),) if path is not None else None, own, what)
            return
        if k == "adt" and t["kind"] == "enum":
            if v[0] == "e":
                fs = T.fields(tid, v[1])
                for i, ft in enumerate(fs):
                    self.match(ft, v[2][i] if i < len(v[2]) else U, base, path + (("v", v[1], i),) if path is not None else None, own, what)
            elif v[0] == "u" and t.get("needs_drop"):
                self.violate("C04", "the %s is left uninitialised" % what)
            elif v[0] == "p":
                self.checkrefs.append((v, None)) if v[1] is not None else None
            return
        if k == "array":
            if v[0] == "a" and own:
                for lo, hi, c in v[1]:
                    self.hold_content(lo, hi, c, t["t"], what)
            return

    def handed_out(self, v):
        """a fresh cell leaves the pool: it must lie among the cells the pool counts as used from now on"""
        path = v[2]
        if len(path) != 1 or path[0][0] != "i":
            self.violate("C20", "the pool hands out an address that is no node")
        i = path[0][1]
        name, cap = self.st.misc[("pool", v[1])]
        used = P.atom((name, "used"))
        self.check(i - used, "C20", "the pool hands out a node that was handed out before")
        self.check(cap - 1 - i, "C20", "the pool hands out a node beyond its memory")
        for base, tid, own in self.st.misc["args"]:
            for q in ptrs_in(self.st.mem[base]):
                if q[1] == v[1] and len(q[2]) == 1 and q[2][0][0] == "i":
                    j = q[2][0][1]
                    if self.is_eq(j - used) and self.is_eq(i - used):
                        self.violate("C20", "the pool hands out a node that it still counts as fresh")

    def ref_ok(self, p, t):
        """a returned reference designates live storage"""
        p = self.asptr(p)
        if p[1] is None:
            if p[3] is not None and self.ent(-p[3]):
                return
            if t is not None and self.T[t].get("size") == 0:
                return
            if p[3] is not None and self.is_eq(p[3]):
                return
            self.violate("C04", "a returned reference designates no object")
        if p[3] is not None:
            if not p[2] or p[2][-1][0] != "i":
                return
            arr = self.load(p[1], p[2][:-1])
            if arr[0] == "a":
                i = p[2][-1][1]
                for lo, hi, c in self.cut(arr[1], i, i + p[3]):
                    if c[0] == "u" and self.maybe(hi - lo - 1):
                        self.violate("C04", "a returned slice covers storage without live elements")
                    if c[0] == "q":
                        for s in self.leaves(c[1], c[3]):
                            for a, b in self.st.disp.get(s, ()):
                                if not self.disjoint(a, b, c[2], c[2] + (hi - lo)):
                                    self.violate("C03", "a returned slice covers dropped elements")
                if t is not None and self.T[self.T.strip(t)]["k"] == "str":
                    self.text_ok(self.cut(arr[1], i, i + p[3]), "a returned str")
            return
        v = self.load(p[1], p[2])
        if isinstance(v, tuple) and v[0] == "u" and (t is None or self.T[t].get("size") != 0) and self.T[t]["k"] != "adt" if t is not None else False:
            self.violate("C04", "a returned reference designates a slot without a live element")
        self.alive_ref(v)

    def ledger(self):
        st = self.st
        by = {}
        for s, lo, hi, w in self.held:
            by.setdefault(s, []).append((lo, hi, w))
        for s, ivs in st.disp.items():
            for lo, hi in ivs:
                by.setdefault(s, []).append((lo, hi, "disposed"))
        for s in set(by) | set(st.acq):
            acq = st.acq.get(s)
            if acq is None:
                for lo, hi, w in by[s]:
                    if not self.empty(lo, hi):
                        self.violate("C03", "a container or result holds an element it does not own")
                continue
            pieces = list(by.get(s, []))
            for lo, hi in acq:
                self.partition(s, lo, hi, pieces)
            for lo, hi, w in pieces:
                if not self.empty(lo, hi):
                    self.violate("C03", "an element is %s twice" % ("dropped or stored" if w == "disposed" else "stored or dropped"))

    def partition(self, s, lo, hi, pieces):
        cur = lo
        self.ob("C03")
        for _ in range(40):
            if self.is_eq(hi - cur):
                return
            nxt = None
            for p in pieces:
                if p[0] == cur or self.is_eq(p[0] - cur):
                    nxt = p
                    break
            if nxt is None:
                # empty remainder?
                if not self.maybe(hi - cur - 1):
                    return
                for p in list(pieces):
                    if self.ent(p[1] - p[0] - 1) is False and self.empty(p[0], p[1]):
                        pieces.remove(p)
                for p in pieces:
                    if self.eqz(p[0] - cur):
                        nxt = p
                        break
            if nxt is None:
                over = [p for p in pieces if self.ent(cur - p[0] - 1) and self.ent(p[1] - lo - 1)]
                if over:
                    self.violate("C03", "an element is dropped or handed out twice (%s)" % self.sname(s))
                if self.st.unw:
                    # a panic may leak; jump to the next piece
                    later = [p for p in pieces if self.ent(p[0] - cur)]
                    if not later:
                        return
                    first = [p for p in later if all(q is p or self.ent(q[0] - p[0]) for q in later)]
                    if not first:
                        raise Undecided("partition order")
                    cur = first[0][0]
                    continue
                self.violate("C03", "an element is neither kept, handed out nor dropped (%s)" % self.sname(s))
            pieces.remove(nxt)
            if not self.empty(nxt[0], nxt[1]):
                cur = nxt[1]
        raise Undecided("partition")

    def sname(self, s):
        while isinstance(s, tuple):
            if s and s[0] == "cl":
                return "clone of " + self.sname(s[2])
            s = s[0]
        return str(s)


# ====================================================================== shapes
class Vec:
    """begin/end/capacity pointers over one block"""
    text = False

    def parts(self, E, tid):
        fs = E.T.fields(tid)
        ptrs = [i for i, f in enumerate(fs) if E.T[f]["k"] == "ptr"]
        alloc = [i for i, f in enumerate(fs) if E.T[f]["k"] != "ptr" and not E.T[f].get("phantom")]
        el = E.T[fs[ptrs[0]]]["t"]
        return fs, ptrs, alloc, el

    def extra(self, E, at):
        t = E.T[at]
        return 1 if t["k"] == "adt" and t["path"].endswith("NullTerminatorAllocator") else 0

    def alloc_root(self, E, v):
        while isinstance(v, tuple) and v[0] == "s":
            c = [x for x in v[1] if isinstance(x, tuple) and x[0] in ("y", "s") and x != UNIT]
            if not c:
                return ("none",)
            v = c[0]
        return models.alloc_root(v) if isinstance(v, tuple) and v[0] == "y" else ("none",)

    def make(self, E, tid, name, own, loc, text=False):
        fs, ptrs, alloc, el = self.parts(E, tid)
        vals = [UNIT] * len(fs)
        av = None
        for i in alloc:
            vals[i] = E.make(fs[i], (name, "f", i), True, None)
        at = fs[alloc[0]]
        n, c = P.atom((name, "n")), P.atom((name, "cap"), 1)
        if E.small and not text:
            n = con(E.choose(4))
            c = n + E.choose(2) * 2 + (0 if n.c else 1)
        else:
            E.instances = E.instances or "vector_map" in E.root["path"]
        if not (E.small and n.c) and E.choose(2) == 1:
            for i in ptrs:
                vals[i] = NULL
            return ("s", tuple(vals))
        x = self.extra(E, at)
        E.fact(c - n)
        S = E.T.size(el)
        E.fact(con(ISIZE_MAX) - (c + x) * S)
        E.fact(con(ISIZE_MAX) - c - x)
        b = ("B", name)
        E.st.blk[b] = {"bytes": (c + x) * S, "n": c + x, "align": E.T.align(el), "alloc": self.alloc_root(E, vals[alloc[0]]), "kind": "heap"}
        E.st.oty[b] = ("arr", E.T.strip(el))
        seq = (name, "el") if not text else ("text", name)
        segs = [(ZERO, n, ("q", seq, ZERO, el))]
        if text:
            E.st.misc[("slen", seq)] = n
            segs.append((n, n + 1, ("v", ZERO)))
            segs.append((n + 1, c + x, U))
        else:
            segs.append((n, c + x, U))
        E.st.mem[b] = ("a", tuple(segs))
        E.acquire(seq, el, ZERO, n)
        self.ptrvals(E, vals, ptrs, b, n, c)
        return ("s", tuple(vals))

    def ptrvals(self, E, vals, ptrs, b, n, c):
        for i, idx in zip(ptrs, (ZERO, n, c)):
            vals[i] = ("p", b, (("i", idx),), None)

    def elems_range(self, E, v, ptrs):
        """(begin, first live, end live, capacity) as pointers"""
        p = [E.asptr(v[1][i]) for i in ptrs]
        return p[0], p[0], p[1], p[2]

    def match(self, E, tid, v, base, path, own, what, text=False, buf=None):
        fs, ptrs, alloc, el = self.parts(E, tid)
        if v[0] == "u":
            E.violate("C04", "the %s is left uninitialised" % what)
        if v[0] == "y":
            return
        for i in alloc:
            E.match(fs[i], v[1][i], None, None, own, what)
        for i in ptrs:
            if v[1][i][0] == "u":
                E.violate("C04", "a pointer of the %s is left uninitialised" % what)
        pb, p0, p1, pc = self.elems_range(E, v, ptrs)
        at = fs[alloc[0]]
        x = self.extra(E, at)
        if pb[1] is None:
            for q in (p0, p1, pc):
                if q[1] is not None or not E.is_eq(q[2][0] - pb[2][0]):
                    if q[1] is None:
                        E.check_eq(q[2][0] - pb[2][0], "C14", "the %s records storage starting at null" % what)
                    else:
                        E.violate("C12", "the pointers of the %s do not belong to one block" % what)
            if not E.is_eq(pb[2][0]):
                E.violate("C02", "the %s records an address that is no block" % what)
            return
        for q in (p0, p1, pc):
            if q[1] != pb[1]:
                E.violate("C12", "the pointers of the %s do not belong to one block" % what)
        bt = E.T.strip(el)
        def idx(q):
            pth = E.adjust(q[1], q[2], el)
            if pth and pth[-1][0] == "i":
                return pth[:-1], pth[-1][1]
            raise Undecided("vector pointer")
        if pb[1] not in E.st.blk:
            if pb[1][0] == "B":
                E.violate("C02", "the %s keeps a block that was given back" % what)
            if buf is None:
                E.violate("C20" if pb[1][0] in ("R", "L") else "C02", "the %s keeps storage that is not its own" % what)
            return self.match_fixed(E, v, el, pb, p1, pc, idx, buf, what, own)
        pre, ib = idx(pb)
        _, i0 = idx(p0)
        _, i1 = idx(p1)
        _, ic = idx(pc)
        blk = E.st.blk[pb[1]]
        if pb[1] in E.ownblk:
            E.violate("C02", "two containers keep the same block")
        E.ownblk.add(pb[1])
        E.check_eq(ib, "C02", "the %s does not keep the start of its block" % what)
        E.check_eq(blk["n"] - x - ic, "C01", "the capacity recorded by the %s differs from the block it holds" % what)
        E.check(i0, "C12", "the %s starts before its block" % what)
        E.check(i1 - i0, "C12", "the %s ends before it starts" % what)
        E.check(ic - i1, "C12", "the %s records more elements than its capacity" % what)
        arr = E.load(pb[1], pre)
        ra = self.alloc_root(E, v[1][alloc[0]])
        if ra != ("none",) and blk["alloc"] != ra and blk["alloc"] != ("sys",):
            E.violate("C02", "the %s holds a block of a different allocator" % what)
        for lo, hi, c in E.cut(arr[1], i0, i1):
            E.hold_content(lo, hi, c, el, what)
        if text:
            E.text_ok(E.cut(arr[1], ZERO, i1), "the string")
            E.check(blk["n"] - i1 - 1, "C10", "no room is left for the terminator of the string")
            z = E.elem(arr[1], i1)
            self.zero(E, z)

    def zero(self, E, z):
        E.ob("C10")
        if isinstance(z, P):
            if not E.is_eq(z):
                E.violate("C10", "the byte after the last character is not zero")
        elif z[0] == "u":
            E.violate("C10", "the byte after the last character is not written")
        elif z[0] == "y":
            E.violate("C10", "the byte after the last character is not zero")

    def refold(self, E, base, path, tid, v, level, text=False):
        fs, ptrs, alloc, el = self.parts(E, tid)
        if any(v[1][i][0] == "u" for i in ptrs):
            return
        pb, p0, p1, pc = self.elems_range(E, v, ptrs)
        if pb[1] is None or pb[1] not in E.st.blk or not (pb[1] == p0[1] == p1[1] == pc[1]):
            return
        pts = [E.adjust(q[1], q[2], el) for q in (pb, p0, p1, pc)]
        if any(len(x) != 1 or x[0][0] != "i" for x in pts):
            return
        ib, i0, i1, ic = [x[0][1] for x in pts]
        if not (E.is_eq(ib) and E.is_eq(i0)):
            return
        arr = E.load(pb[1], ())
        if arr[0] != "a":
            return
        n = E.alen(arr)
        live = E.cut(arr[1], ZERO, i1)
        if level == 1 and not text:
            rest = E.cut(arr[1], i1, n)
            if any(c[0] != "u" for _, _, c in rest):
                E.st.mem[pb[1]] = ("a", tuple(live) + ((i1, n, ("j",)),))
            return
        if text:
            return
        for lo, hi, c in live:
            if c[0] not in ("q", "v"):
                if c[0] == "u" and E.is_eq(hi - lo):
                    continue
                raise Undecided("folding a container with unusual contents")
            E.hold_content(lo, hi, c, el)
        E.consume_held(E.held)
        fam = ("fam", base, path)
        st = E.st
        blk = st.blk[pb[1]]
        x = blk["n"] - ic
        if x.const() is None or not E.is_eq(blk["bytes"] - blk["n"] * E.T.size(el)):
            raise Undecided("folding a container that does not match its block")
        E.havoc([(fam, "n"), (fam, "cap")])
        c, k = P.atom((fam, "n")), P.atom((fam, "cap"), 1)
        E.fact(k - c)
        E.fact(con(ISIZE_MAX) - (k + x) * E.T.size(el))
        E.fact(con(ISIZE_MAX) - k - x)
        st.exact = False
        st.blk[pb[1]] = dict(blk, n=k + x, bytes=(k + x) * E.T.size(el))
        E.acquire(fam, el, ZERO, c)
        st.mem[pb[1]] = ("a", ((ZERO, c, ("q", fam, ZERO, el)), (c, k + x, U)))
        fs, ptrs, alloc, el = self.parts(E, tid)
        vals = list(st.mem[base][1]) if not path else None
        nv = [("p", q[1], (("i", i),), None) for q, i in zip((pb, p1, pc), (ZERO, c, k))]
        E.refold_store(base, path, ptrs, nv)

    def match_fixed(self, E, v, el, pb, p1, pc, idx, buf, what, own):
        base, path, n = buf
        pre, ib = idx(pb)
        if pb[1] != base or pre != path:
            E.violate("C20", "the %s points into a buffer that is not its own" % what)
        _, i1 = idx(p1)
        _, ic = idx(pc)
        E.check_eq(ib, "C20", "the %s does not start at the start of its own buffer" % what)
        E.check_eq(ic - n, "C20", "the capacity of the %s is not that of its own buffer" % what)
        E.check(i1, "C12", "the %s ends before it starts" % what)
        E.check(ic - i1, "C12", "the %s records more elements than its capacity" % what)
        arr = E.load(pb[1], pre)
        if arr[0] == "u":
            arr = ("a", ((ZERO, n, U),))
        for lo, hi, c in E.cut(arr[1], ZERO, i1):
            E.hold_content(lo, hi, c, el, what)


@shape("vector::Vector")
class Vector(Vec):
    pass


@shape("vector::into_iter::IntoIter")
class IntoIter(Vec):
    """begin, capacity, front and back cursor"""
    def ptrvals(self, E, vals, ptrs, b, n, c):
        lo = P.atom((b[1], "front"))
        E.fact(n - lo)
        for i, idx in zip(ptrs, (ZERO, c, lo, n)):
            vals[i] = ("p", b, (("i", idx),), None)
        # the elements before the cursor were handed out
        for s in list(E.st.acq):
            if s == (b[1], "el") or (isinstance(s, tuple) and s[0] == (b[1], "el")):
                E.st.acq[s] = ((lo, n),)
        arr = E.st.mem[b]
        E.st.mem[b] = ("a", E.put(arr[1], ZERO, lo, ((ZERO, lo, U),)))

    def elems_range(self, E, v, ptrs):
        p = [E.asptr(v[1][i]) for i in ptrs]
        return p[0], p[2], p[3], p[1]


@shape("fixed_vector::FixedVector")
class FixedVector(Vec):
    """a vector that starts in the buffer beside it; `pool_begin` of its allocator is that buffer"""
    def split(self, E, tid):
        fs = E.T.fields(tid)
        v = b = None
        for i, f in enumerate(fs):
            t = E.T[E.T.strip(f)]
            if t["k"] == "adt" and t["path"] in SHAPES:
                v = i
            elif t["k"] == "array":
                b = i
        if v is None or b is None:
            raise Skip("fixed vector without a vector and a buffer")
        return fs, v, b

    def refold(self, *args):
        """its vector designates the buffer beside it or a block: left as it is"""

    def pool(self, E, at):
        """field of the vector's allocator that names the fixed buffer"""
        fs = E.T.fields(E.T.strip(at))
        p = [i for i, f in enumerate(fs) if E.T[f]["k"] == "ptr"]
        if len(p) != 1:
            raise Skip("allocator of the fixed vector")
        return p[0]

    def make(self, E, tid, name, own, loc):
        fs, vi, bi = self.split(E, tid)
        if loc is None:
            loc = (("R", name),)
        base, path = loc[0], tuple(loc[1:])
        vt = E.T.strip(fs[vi])
        vfs, ptrs, alloc, el = self.parts(E, vt)
        N = E.nconst(E.T[E.T.strip(fs[bi])]["n"])
        E.fact(N - 1)
        E.fact(con(ISIZE_MAX) - N)
        E.fact(con(ISIZE_MAX) - N * E.T.size(el))
        out = [E.make(f, (name, "f", i), own, None) if i not in (vi, bi) else None for i, f in enumerate(fs)]
        start = ("p", base, path + (("f", bi), ("i", ZERO)), None)
        pi = self.pool(E, vfs[alloc[0]])
        seq = (name, "el")
        if E.choose(2) == 0:
            n = P.atom((name, "n"))
            E.fact(N - n)
            vals = [UNIT] * len(vfs)
            for i in alloc:
                vals[i] = E.make(vfs[i], ((name, "v"), "f", i), True, None)
            for i, x in zip(ptrs, (ZERO, n, N)):
                vals[i] = ("p", base, path + (("f", bi), ("i", x)), None)
            E.acquire(seq, el, ZERO, n)
            out[bi] = ("a", ((ZERO, n, ("q", seq, ZERO, el)), (n, N, U)))
        else:
            vals = list(Vec.make(self, E, vt, (name, "v"), own, None)[1])
            out[bi] = ("a", ((ZERO, N, U),))
        a = list(vals[alloc[0]][1])
        a[pi] = start
        vals[alloc[0]] = ("s", tuple(a))
        out[vi] = ("s", tuple(vals))
        return ("s", tuple(out))

    def match(self, E, tid, v, base, path, own, what):
        fs, vi, bi = self.split(E, tid)
        if v[0] == "u":
            E.violate("C04", "the %s is left uninitialised" % what)
        if v[0] == "y" or base is None:
            return
        vt = E.T.strip(fs[vi])
        vfs, ptrs, alloc, el = self.parts(E, vt)
        N = E.nconst(E.T[E.T.strip(fs[bi])]["n"])
        here = (base, path + (("f", bi),), N)
        pi = self.pool(E, vfs[alloc[0]])
        av = v[1][vi][1][alloc[0]]
        E.ob("C20")
        if av[0] == "s":
            q = E.asptr(av[1][pi])
            if q[1] is None and not E.is_eq(q[2][0]):
                E.violate("C20", "the allocator of the %s does not know its own buffer" % what)
            if q[1] is not None:
                qp = E.canon_path(q)
                if q[1] != base or tuple(qp[:len(here[1])]) != tuple(here[1]):
                    E.violate("C20", "the allocator of the %s refers to a buffer that is not its own" % what)
                r = qp[len(here[1]):]
                if r and r[0][0] == "i" and not E.is_eq(r[0][1]):
                    E.violate("C20", "the allocator of the %s does not refer to the start of its own buffer" % what)
            pb = E.asptr(v[1][vi][1][ptrs[0]])
            if pb[1] is not None and pb[1] == base and q[1] is None:
                E.violate("C20", "the allocator of the %s does not know its own buffer" % what)
        Vec.match(self, E, vt, v[1][vi], base, path + (("f", vi),), own, what, buf=here)


@shape("string::String")
class Str:
    istext = True

    def make(self, E, tid, name, own, loc):
        f = E.T.fields(tid)
        return ("s", (Vec().make(E, E.T.strip(f[0]), name, own, loc, text=True),))

    def match(self, E, tid, v, base, path, own, what):
        f = E.T.fields(tid)
        if v[0] == "u":
            E.violate("C04", "the %s is left uninitialised" % what)
        if v[0] == "y":
            return
        return Vec().match(E, E.T.strip(f[0]), v[1][0], base, path, own, what, text=True)
