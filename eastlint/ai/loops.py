"""Loop heads: inductive states found by generalising two consecutive iterations, verified by one more."""
from .poly import _atom_name, _atom_lo, P, con, ZERO, ONE, entails, subst_any, atoms_any, atom_id
from .core import Engine, Fork, Dead, Undecided, GenFail, PanicEx, U, UID, INST, BB, UNW, DEST, RES
from ..mir import succs as _succs


def succs(term):
    k = term[0]
    if k == "goto":
        return [term[1]]
    if k == "switch":
        out = [b for _, b in term[2]]
        if isinstance(term[3], int):
            out.append(term[3])
        return out
    if k == "drop":
        return [x for x in (term[3], term[4]) if isinstance(x, int) and not isinstance(x, bool)]
    if k == "call":
        return [x for x in (term[4], term[5]) if isinstance(x, int) and not isinstance(x, bool)]
    if k == "assert":
        return [x for x in (term[4], term[5]) if isinstance(x, int) and not isinstance(x, bool)]
    return []


IMAX = con((1 << 63) - 1)


def atom_name(a):
    return _atom_name[a]


def atom_lo(a):
    return _atom_lo[a]


class Cfg:
    def __init__(self, body):
        n = len(body["blocks"])
        self.succ = [succs(b[1]) if b[1] else [] for b in body["blocks"]]
        self.pred = [[] for _ in range(n)]
        for i, ss in enumerate(self.succ):
            for s in ss:
                self.pred[s].append(i)
        # dominators
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        idx = {b: i for i, b in enumerate(order)}
        dom = {b: None for b in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in self.pred[b] if p in idx and dom[p] is not None]
                if not ps:
                    continue
                d = set.intersection(*ps) | {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if dom[b] and s in dom[b]:
                    body_ = {s, b}
                    w = [b]
                    while w:
                        x = w.pop()
                        if x == s:
                            continue
                        for p in self.pred[x]:
                            if p not in body_ and p in idx:
                                body_.add(p)
                                w.append(p)
                    self.loops.setdefault(s, set()).update(body_)
        self.live = self.liveness(body)

    def liveness(self, body):
        n = len(body["blocks"])
        addr = set()
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]

        def pl_uses(pl, out):
            out.add(pl[0])
            for pr in pl[1:]:
                if isinstance(pr, list) and pr[0] == "i":
                    out.add(pr[1])

        def op_uses(op, out):
            if op[0] in ("copy", "move"):
                pl_uses(op[1], out)

        for i, (ss, t, c) in enumerate(body["blocks"]):
            u, d = use[i], dfn[i]

            def see(s):
                for x in s:
                    if x not in d:
                        u.add(x)
            for s in ss:
                o = set()
                if s[0] == "=":
                    r = s[2]
                    k = r[0]
                    if k in ("use",):
                        op_uses(r[1], o)
                    elif k in ("ref", "raw"):
                        pl_uses(r[2], o)
                        if "*" not in r[2][1:]:
                            addr.add(r[2][0])
                    elif k == "cast":
                        op_uses(r[2], o)
                    elif k == "bin":
                        op_uses(r[2], o)
                        op_uses(r[3], o)
                    elif k == "un":
                        op_uses(r[2], o)
                    elif k == "discr":
                        pl_uses(r[1], o)
                    elif k == "agg":
                        for x in r[2]:
                            op_uses(x, o)
                    elif k == "repeat":
                        op_uses(r[1], o)
                    see(o)
                    if len(s[1]) == 1:
                        d.add(s[1][0])
                    else:
                        o2 = set()
                        pl_uses(s[1], o2)
                        see(o2)
                elif s[0] in ("dead", "live"):
                    d.add(s[1])
                elif s[0] == "setd":
                    see({s[1][0]})
                elif s[0] == "assume":
                    op_uses(s[1], o)
                    see(o)
                elif s[0] == "cno":
                    for x in s[1:4]:
                        op_uses(x, o)
                    see(o)
            if t:
                o = set()
                if t[0] == "switch":
                    op_uses(t[1], o)
                elif t[0] == "drop":
                    pl_uses(t[1], o)
                elif t[0] == "assert":
                    op_uses(t[1], o)
                elif t[0] == "return":
                    o.add(0)
                elif t[0] == "call":
                    for x in t[2]:
                        op_uses(x, o)
                    if t[3] is not None and len(t[3]) > 1:
                        pl_uses(t[3], o)
                see(o)
        live = [set(x) for x in use]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                x = set(use[i])
                for s in self.succ[i]:
                    x |= live[s]
                x = use[i] | (x - dfn[i])
                if x != live[i]:
                    live[i] = x
                    ch = True
        self.addr = addr
        return live


class LoopEngine(Engine):
    MAXWEAK = 20
    MAXTURNS = 7
    small = False

    DEBUG = False

    def dbg(self, *a):
        if self.DEBUG:
            print("   ", *a)

    def cfgof(self, f):
        inst = f[INST]
        c = self.cfg.get(inst)
        if c is None:
            c = self.cfg[inst] = Cfg(self.body_of(f))
        return c

    def explore(self, states, ctx=None):
        """run to the end; with ctx=(uid, head, body): until back at the head or out of the loop"""
        backs, exits, finals = [], [], []
        work = list(states)
        first = True
        while work:
            st = work.pop()
            while True:
                if not st.frames:
                    (exits if ctx else finals).append(st)
                    break
                f = st.frames[-1]
                if f[INST] != "glue" and not isinstance(f[INST], tuple) and isinstance(f[BB], int):
                    if ctx is not None and f[UID] == ctx[0]:
                        if f[BB] == ctx[1] and st.misc.get("looptag") != ctx[3]:
                            backs.append(st)
                            break
                        if f[BB] not in ctx[2]:
                            exits.append(st)
                            break
                    elif ctx is not None and not any(x[UID] == ctx[0] for x in st.frames):
                        exits.append(st)
                        break
                    cf = self.cfgof(f)
                    if f[BB] in cf.loops and not (ctx is not None and f[UID] == ctx[0] and f[BB] == ctx[1]):
                        if not self.small:
                            work += self.loop(st)
                            break
                        # explicit instances: loops are unwound, runs that turn more often are given up
                        k = ("turns", f[UID], f[BB])
                        st = st.copy()
                        turns, forks = st.misc.get(k, (0, -1))
                        # turns that follow from the explicit values alone are not counted
                        now = st.misc.get("forks", 0)
                        if now != forks:
                            turns += 1
                        st.misc[k] = (turns, now)
                        if turns > self.MAXTURNS:
                            break
                elif ctx is not None and not any(x[UID] == ctx[0] for x in st.frames):
                    exits.append(st)
                    break
                if ctx is not None and st.misc.get("looptag") == ctx[3]:
                    st = st.copy()
                    st.misc.pop("looptag")
                nx = self.step(st)
                self.stat["states"] += 1
                if len(nx) == 1:
                    st = nx[0]
                    continue
                if self.small:
                    for s in nx:
                        s.misc["forks"] = s.misc.get("forks", 0) + 1
                work += nx
                break
            if len(work) + len(exits) + len(finals) > self.MAXSTATES:
                raise Undecided("too many states")
        return backs, exits, finals

    # one iteration from a state at the head
    def iterate(self, st, ctx):
        self.tagc = getattr(self, "tagc", 0) + 1
        s = st.copy()
        s.misc["looptag"] = self.tagc
        b, e, _ = self.explore([s], ctx[:3] + (self.tagc,))
        return b, e

    def tidy(self, st):
        """drop what is dead at the head: locals not live, objects nothing refers to"""
        s = st.copy()
        roots = []
        for n, f in enumerate(s.frames):
            if f[INST] == "glue":
                roots.append(f[BB])
                continue
            cf = self.cfgof(f)
            top = n == len(s.frames) - 1
            if top:
                live = cf.live[f[BB]] if f[BB] is not None else set()
            else:
                live = set(cf.live[f[BB]]) if isinstance(f[BB], int) else set()
                if isinstance(f[UNW], int):
                    live |= cf.live[f[UNW]]
            nl = len(self.body_of(f)["locals"])
            for i in range(nl):
                k = ("L", f[UID], i)
                if k in s.mem and i not in live and i not in cf.addr:
                    del s.mem[k]
            if f[DEST] is not None and f[DEST] != "ret":
                roots.append(("p",) + tuple(f[DEST]) + (None,))
        # reachability of blocks and anonymous objects
        seen = set()
        todo = [k for k in s.mem if k[0] in ("L", "R", "C", "K", "G") and not (k[0] == "R" and k[1] == "clo")]
        vals = [s.mem[k] for k in todo] + roots + list(s.misc.values())

        def refs(v, out):
            if isinstance(v, tuple):
                if len(v) == 4 and v[0] == "p" and isinstance(v[1], tuple):
                    out.add(v[1])
                for x in v:
                    if isinstance(x, tuple):
                        refs(x, out)
        out = set()
        for v in vals:
            refs(v, out)
        w = list(out)
        while w:
            b = w.pop()
            if b in seen:
                continue
            seen.add(b)
            if b in s.mem:
                o = set()
                refs(s.mem[b], o)
                w += [x for x in o if x not in seen]
        for k in list(s.mem):
            if k[0] == "R" and k[1] == "clo" and k not in seen:
                del s.mem[k]
        self.st = s
        if self.level:
            ch, ci = self.ch, self.ci
            self.ch, self.ci = (), 0
            try:
                self.fold(s)
            except (Fork, Dead, GenFail) as e:
                raise Undecided("folding: %s" % (e,))
            finally:
                self.ch, self.ci = ch, ci
        return s

    keep = keeptok = frozenset()

    def atoms_of(self, s):
        out = set()
        for f in s.facts:
            atoms_any(f, out)
        for d in (s.mem, s.acq, s.disp, s.misc):
            for v in d.values():
                atoms_any(v, out)
        for b in s.blk.values():
            for v in b.values():
                atoms_any(v, out)
        return out

    def normalise(self, s):
        """replace atoms the facts equate with something simpler"""
        for _ in range(8):
            fs = set(s.facts)
            hit = None
            for f in s.facts:
                if len(f.t) > 3 or -f not in fs:
                    continue
                best = None
                for m, k in f.t:
                    if len(m) != 1 or abs(k) != 1:
                        continue
                    a = m[0]
                    if a in self.keep or any(a in m2 for m2, _ in f.t if m2 != m):
                        continue
                    nm = atom_name(a)
                    if not (isinstance(nm, str) and nm[:1] in "wk" and nm[1:].isdigit() or isinstance(nm, tuple) and len(nm) == 2 and
                            (isinstance(nm[1], str) and nm[1].isdigit() or nm[1] in ("n", "cap", "len", "front"))):
                        continue        # may be mentioned again by name
                    # f = k*a + r == 0  ->  a = -r/k
                    r = f - P((((a,), k),), 0)
                    r = -r if k == 1 else r
                    ins = set()
                    atoms_any(r, ins)
                    if a in ins:
                        continue
                    if best is None or a > best[0]:
                        best = (a, r)
                if best:
                    hit = best
                    break
            if hit is None:
                return
            a, r = hit
            m = {a: r}
            lo = r - atom_lo(a)
            nf = []
            for f in list(s.facts) + [lo]:
                f = f.subst(m)
                if f.t and f not in nf:
                    nf.append(f)
            s.facts = tuple(nf)
            for d in ("mem", "acq", "disp", "misc", "opq"):
                o = getattr(s, d)
                setattr(s, d, {subst_any(k, m): subst_any(v, m) for k, v in o.items()})
            s.blk = {subst_any(b, m): {k: subst_any(v, m) for k, v in x.items()} for b, x in s.blk.items()}
            s.oty = {subst_any(k, m): v for k, v in s.oty.items()}
            s.events = subst_any(s.events, m)
            s.frames = [list(subst_any(tuple(tuple(x) if isinstance(x, list) else x for x in f), m)) for f in s.frames]

    def fold(self, s):
        pass

    # ------------------------------------------------------------------ generalisation
    level = 0

    def loop(self, st):
        self.stat["loops"] += 1
        saved = self.level
        nf = len(self.findings)
        try:
            self.level = 2
            if self.foldable(st):
                order = (2, 0, 1)
            else:
                self.level = 1
                order = (0, 1) if self.foldable(st) else (0,)
            order = self.loop_order(st) or order
            for lv in order:
                self.level = lv
                try:
                    return self.loop_at(st)
                except Undecided as e:
                    del self.findings[nf:]
                    self.dbg("level", lv, e)
                    if lv == order[-1]:
                        raise
        finally:
            self.level = saved

    def foldable(self, st):
        return False

    def loop_order(self, st):
        return None

    def loop_at(self, st):
        f = st.frames[-1]
        uid, head = f[UID], f[BB]
        cf = self.cfgof(f)
        ctx = (uid, head, cf.loops[head])
        s0 = self.tidy(st)
        self.normalise(s0)
        backs, exits = self.iterate(s0, ctx)
        out_exits = list(exits)
        if not backs:
            return out_exits
        if len(backs) > 40:
            raise Undecided("loop body has too many continuations")
        return out_exits + self.from_pair(s0, backs, ctx, 0)

    def dedupe(self, backs):
        out = []
        for b in backs:
            b = self.tidy(b)
            dup = False
            for x in out:
                if self.state_key(x) == self.state_key(b):
                    dup = True
            if not dup:
                out.append(b)
        return out

    def state_key(self, s):
        return (tuple(sorted(((repr(k), v) for k, v in s.mem.items()), key=lambda x: x[0])), frozenset(s.facts), tuple(map(tuple, s.frames)),
                tuple(sorted((repr(k), v) for k, v in s.acq.items())), tuple(sorted((repr(k), v) for k, v in s.disp.items())))

    def from_pair(self, s0, backs, ctx, depth, covered=None):
        """backs: states reached at the head one iteration after s0.  Cover each by an inductive state."""
        out = []
        if self.loop_order(s0):
            self.keep, self.keeptok = self.atoms_of(s0), set(s0.acq)
        todo = self.dedupe(backs)
        if self.loop_order(s0):
            # the most general ones first
            todo.sort(key=lambda b: -self.openness(b))
        self.keep, self.keeptok = frozenset(), frozenset()
        covered = [] if covered is None else covered
        failed = []
        rest = todo
        again = False
        while rest:
          todo, rest = rest, []
          for s1 in todo:
            if any(self.covers(g, s1) for g in covered):
                continue
            if again:
                failed.append(s1)
                continue
            nf = len(self.findings)
            g, ex = self.try_gen(s0, s1, ctx)
            if g is not None:
                covered.append(g)
                out += ex
                continue
            del self.findings[nf:]
            rest.append(s1)
          if again:
            break
          again = True
        for s1 in failed:
            if any(self.covers(g, s1) for g in covered):
                continue
            if depth >= 3:
                raise Undecided("no inductive state for the loop at %s bb%d: %s" % (self.I[s0.frames[-1][INST]]["path"], ctx[1], getattr(self, "why", "")))
            self.normalise(s1)
            b2, e2 = self.iterate(s1, ctx)
            out += e2
            if b2:
                out += self.from_pair(s1, b2, ctx, depth + 1, covered)
        return out

    def openness(self, s):
        out = set()
        for k, v in s.mem.items():
            atoms_any(v, out)
        return len(out)

    def covers(self, g, s):
        G, k, fresh, cands = g
        try:
            r = self.match_state(G, k, fresh, cands, s, None)
            if r is not None:
                self.dbg("not covered", r)
            return r is None
        except (GenFail, Dead) as e:
            self.dbg("not covered", e)
            return False

    def try_gen(self, s1, s2, ctx):
        forced = {}
        dropped = set()
        self.gctr = getattr(self, "gctr", 0) + 1
        names = {"k": self.gctr}
        for attempt in range(self.MAXWEAK):
            nf = len(self.findings)
            self.stat["weaken"] += 1
            try:
                gen = Gen(self, s1, s2, forced, dropped, names)
                G = gen.build()
            except GenFail as e:
                self.why = "generalise: %s" % (e,)
                self.dbg("gen", ctx[1], self.why)
                del self.findings[nf:]
                return None, None
            try:
                backs, exits = self.iterate(G, ctx)
            except Undecided:
                del self.findings[nf:]
                raise
            bad = None
            gkeep = self.atoms_of(G) if self.loop_order(G) else None
            todo = [(b, 0) for b in backs]
            while todo:
                b, d = todo.pop(0)
                if gkeep is not None:
                    self.keep, self.keeptok = gkeep, set(G.acq)
                b = self.tidy(b)
                self.keep, self.keeptok = frozenset(), frozenset()
                try:
                    if d < 2 and self.loop_order(G) and self.differs(G, b):
                        bad = ("fail", "shape")
                    else:
                        bad = self.match_state(G, gen.k, gen.fresh, gen.cands, b, gen)
                except GenFail as e:
                    self.why = "match: %s" % (e,)
                    self.dbg("match", ctx[1], self.why)
                    bad = ("fail", e)
                except Dead:
                    bad = None
                if bad is not None and bad[1] == "shape":
                    # the last turn: a state of another shape, from which the loop is left (or resumes)
                    b2, e2 = self.iterate(b, ctx)
                    todo += [(x, d + 1) for x in b2]
                    exits = exits + e2
                    bad = None
                if bad is not None:
                    break
            if bad is None:
                return (G, gen.k, gen.fresh, gen.cands), exits
            del self.findings[nf:]
            self.dbg("weaken", ctx[1], bad)
            if bad[0] == "leaf":
                forced[bad[1]] = forced.get(bad[1], 0) + 1
            elif bad[0] == "leaf2":
                forced[bad[1]] = 2
            elif bad[0] == "fact":
                dropped |= bad[1]
            elif bad[0] == "flag":
                names["flags"] = names.get("flags", frozenset()) | bad[1]
            else:
                return None, None
        self.why = "too many weakenings"
        return None, None

    def differs(self, G, s):
        """a local is of another variant, or null where the other is not"""
        def d(x, y):
            if not isinstance(x, tuple) or not isinstance(y, tuple) or len(x) != len(y) or not x:
                return isinstance(x, tuple) and isinstance(y, tuple) and bool(x) and bool(y) and x[0] == y[0] == "e" and x[1] != y[1]
            if x[0] == y[0] == "e" and x[1] != y[1]:
                return True
            if x[0] == y[0] == "p" and len(x) == 4:
                return (x[1] is None) != (y[1] is None)
            if x[0] == "a":
                return False
            return any(d(p, q) for p, q in zip(x, y))
        return any(k[0] == "L" and k in s.mem and d(v, s.mem[k]) for k, v in G.mem.items())

    def match_state(self, G, k, fresh, cands, s, gen):
        """None when s (one iteration later) is an instance of G, else what to weaken"""
        self.st = s
        self.ch, self.ci = (), 0
        m = Matcher(self, G, s, k, fresh, gen)
        r = m.run()
        if r is not None:
            return r
        bind = m.bind
        bad = set()
        for c in cands:
            p = subst_any(c, bind)
            if not entails(s.facts, p):
                bad.add(c)
        if bad:
            return ("fact", bad)
        return None


class Gen:
    def __init__(self, E, s1, s2, forced, dropped, names):
        self.E, self.s1, self.s2 = E, s1, s2
        self.forced, self.dropped = forced, dropped
        self.names = names
        self.k = P.atom("k%d" % names["k"])
        self.kid = atom_id("k%d" % names["k"])
        self.pairs = {}          # (a,b) -> P
        self.fresh = []          # list of (atom P, a, b)
        self.bmap = {}           # block of s1 -> (block of s2, name in G)
        self.cmap = {}           # the same for runs of nodes
        self.cq = []
        self.rmap = {}
        self.cands = []
        self.inexact = False

    def leaf(self, a, b):
        E = self.E
        r = self.pairs.get((a, b))
        if r is not None:
            return r
        if a == b and a.t:
            for x, fa, fb in self.fresh:
                if fa == fb and fa.t:
                    q = a.divexact(fa)
                    if q is not None and self.stable(q) and self.forced.get((a, b), 0) < 2:
                        r = q * x
                        self.pairs[(a, b)] = r
                        return r
        if a == b and (a, b) not in self.forced:
            return a
        d = b - a
        if (a, b) not in self.forced and d.const() is not None:
            r = a + d * self.k
            self.pairs[(a, b)] = r
            return r
        for x, fa, fb in reversed(self.fresh) if self.forced.get((a, b), 0) < 2 else ():
            da, db = a - fa, b - fb
            if da == db and self.stable(da) and (fa != fb or da.const() is not None):
                r = x + da
                self.pairs[(a, b)] = r
                return r
            df = fb - fa
            q = (b - a).divexact(df) if df.t or df.c else None
            if q is not None and self.stable(q):
                e = a - q * fa
                if e == b - q * fb and self.stable(e):
                    r = q * x + e
                    self.pairs[(a, b)] = r
                    return r
        if (a, b) not in self.forced and self.stable(d):
            sg = {k > 0 for _, k in d.t}
            if len(sg) > 1:
                raise GenFail("no common increment: %s / %s" % (a, b))
            r = a + d * self.k
            self.pairs[(a, b)] = r
            return r
        n = self.names.get((a, b))
        if n is None:
            E.gctr += 1
            n = self.names[(a, b)] = E.gctr
        x = P.atom("w%d" % n)
        self.fresh.append((x, a, b))
        self.pairs[(a, b)] = x
        self.inexact = True
        return x

    def stable(self, d):
        """the increment only mentions quantities fixed before the iteration"""
        ats = set()
        atoms_any(d, ats)
        return ats <= self.old

    def anti(self, a, b, ctx=""):
        if isinstance(a, P) and isinstance(b, P):
            return self.leaf(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a == b and not self.forced and not hasref(a):
                return a
            if a and a[0] == "p" and len(a) == 4 and b and b[0] == "p" and len(b) == 4:
                return ("p", self.base(a[1], b[1]), self.anti(a[2], b[2], ctx), self.anti_meta(a[3], b[3], ctx))
            if len(a) == len(b) == 2 and a[0] == b[0] == "a" and isinstance(a[1], tuple) and isinstance(b[1], tuple) and (a[1] or b[1]):
                x, y = self.align(a[1], b[1])
                return ("a", tuple(self.anti(p, q, ctx) for p, q in zip(x, y)))
            if len(a) != len(b):
                raise GenFail("shape %s: %s / %s" % (ctx, short(a), short(b)))
            return tuple(self.anti(x, y, ctx) for x, y in zip(a, b))
        if a == b:
            return a
        raise GenFail("%s: %s / %s" % (ctx, short(a), short(b)))

    def align(self, xs, ys):
        """pair up the segments of two contents; a segment without counterpart meets an empty one"""
        if len(xs) == len(ys) and all(seg_like(x[2], y[2]) for x, y in zip(xs, ys)):
            return xs, ys
        n, m = len(xs), len(ys)
        best = {}
        for i in range(n, -1, -1):
            for j in range(m, -1, -1):
                if i == n and j == m:
                    best[i, j] = (0, None)
                    continue
                c = []
                if i < n and j < m and seg_like(xs[i][2], ys[j][2]):
                    c.append((best[i + 1, j + 1][0], 0))
                if i < n:
                    c.append((best[i + 1, j][0] + 1, 1))
                if j < m:
                    c.append((best[i, j + 1][0] + 1, 2))
                best[i, j] = min(c)
        ox, oy = [], []
        i = j = 0
        while i < n or j < m:
            k = best[i, j][1]
            if k == 0:
                ox.append(xs[i])
                oy.append(ys[j])
                i, j = i + 1, j + 1
            elif k == 1:
                e = ys[j][0] if j < m else (ys[-1][1] if ys else ZERO)
                ox.append(xs[i])
                oy.append((e, e, vacant(xs[i][2])))
                i += 1
            else:
                e = xs[i][0] if i < n else (xs[-1][1] if xs else ZERO)
                ox.append((e, e, vacant(ys[j][2])))
                oy.append(ys[j])
                j += 1
        return tuple(ox), tuple(oy)

    def anti_meta(self, a, b, ctx):
        if a is None and b is None:
            return None
        if a is None or b is None:
            raise GenFail("meta")
        return self.anti(a, b, ctx)

    def base(self, a, b):
        if a == b and (a is None or a[0] not in ("B", "CH")):
            return a
        if a is None or b is None:
            raise GenFail("null / non-null pointer")
        if a[0] == b[0] == "CH":
            if a[2] != b[2]:
                raise GenFail("ends of a run of nodes")
            return ("CH", self.chbase(a[1], b[1]), a[2])
        if a[0] != "B" or b[0] != "B":
            if a[0] == b[0] == "R" and len(a) == len(b):
                return self.rbase(a, b)
            raise GenFail("pointers into different objects %s %s" % (a, b))
        r = self.bmap.get(a)
        if r is not None:
            if r[0] != b:
                raise GenFail("block correspondence")
            return r[1]
        if any(x[0] == b for x in self.bmap.values()):
            raise GenFail("block correspondence")
        if a == b:
            g = a
        else:
            self.E.gctr += 1
            g = ("B", "g%d" % self.E.gctr)
        self.bmap[a] = (b, g)
        self.queue.append((a, b, g))
        return g

    def chbase(self, a, b):
        r = self.cmap.get(a)
        if r is not None:
            if r[0] != b:
                raise GenFail("run of nodes correspondence")
            return r[1]
        if any(x[0] == b for x in self.cmap.values()):
            raise GenFail("run of nodes correspondence")
        if a == b:
            g = a
        else:
            self.E.gctr += 1
            g = "g%d" % self.E.gctr
        self.cmap[a] = (b, g)
        self.cq.append((a, b, g))
        return g

    def rbase(self, a, b):
        r = self.rmap.get(a)
        if r is None:
            g = self.anti(a, b, "object")
            self.rmap[a] = g
            self.rq.append((a, b, g))
            return g
        return r

    def build(self):
        E, s1, s2 = self.E, self.s1, self.s2
        self.queue, self.rq = [], []
        self.old = set()
        for f in s1.facts:
            atoms_any(f, self.old)
        for v in s1.mem.values():
            atoms_any(v, self.old)
        for b in s1.blk.values():
            atoms_any(b["bytes"], self.old)
            atoms_any(b.get("n"), self.old)
        G = s1.copy()
        if len(s1.frames) != len(s2.frames):
            raise GenFail("frames")
        for x, y in zip(s1.frames, s2.frames):
            if x[UID] != y[UID] or (x[INST] != "glue" and x[BB] != y[BB]) or (x[INST] == "glue" and x[BB] != y[BB]) or x[UNW] != y[UNW]:
                raise GenFail("frames differ")
        if s1.unw != s2.unw:
            raise GenFail("unwinding differs")
        mem = {}
        for k in s1.mem:
            if k[0] in ("B", "CH"):
                continue
            if k not in s2.mem:
                if k[0] == "L":
                    raise GenFail("local %s missing" % (k,)) if False else None
                    continue
                if k[0] == "R":
                    continue
                continue
            mem[k] = self.anti(s1.mem[k], s2.mem[k], repr(k))
        for k in s2.mem:
            if k not in s1.mem and k[0] == "L":
                pass
        oty = {k: t for k, t in s1.oty.items() if k[0] != "B"}
        blk = {}
        self.drain(mem, oty, blk)
        for k in list(s1.mem):
            if k[0] == "CH" and k[1] not in self.cmap:
                if k in s2.mem and not any(x[0] == k[1] for x in self.cmap.values()):
                    self.chbase(k[1], k[1])
                    self.drain(mem, oty, blk)
                else:
                    raise GenFail("run of nodes %s disappears" % (k,))
        for k in s2.mem:
            if k[0] == "CH" and not any(x[0] == k[1] for x in self.cmap.values()):
                raise GenFail("run of nodes %s appears" % (k,))
        # blocks nothing refers to
        for a in s1.blk:
            if a not in self.bmap:
                if a in s2.blk and not any(x[0] == a for x in self.bmap.values()):
                    self.bmap[a] = (a, a)
                    self.do_block(a, a, a, mem, oty, blk)
                    self.drain(mem, oty, blk)
                else:
                    raise GenFail("block %s disappears" % (a,))
        tgt = {x[0] for x in self.bmap.values()}
        for b in s2.blk:
            if b not in tgt:
                raise GenFail("block %s appears" % (b,))
        G.mem, G.oty, G.blk = mem, oty, blk
        G.acq = self.dic(s1.acq, s2.acq, "acq")
        G.disp = self.dic(s1.disp, s2.disp, "disp")
        G.misc = self.dic(s1.misc, s2.misc, "misc")
        G.opq = {k: v for k, v in s1.opq.items() if s2.opq.get(k) == v}
        # opaque facts established in both iterations, generalised
        ev = s1.events
        G.events = s1.events if s1.events == s2.events else s1.events + (("loop",),)
        G.flags = s1.flags | s2.flags | self.names.get("flags", frozenset())
        G.ctr = max(s1.ctr, s2.ctr)
        G.exact = s1.exact and s2.exact and not self.inexact
        G.dec = s1.dec + ("loop",) if s1.dec[-1:] != ("loop",) else s1.dec
        G.facts = s1.facts
        self.candidates(G)
        for c in self.cands:
            if c not in G.facts:
                G.facts = G.facts + (c,)
        return G

    def drain(self, mem, oty, blk):
        s1, s2 = self.s1, self.s2
        while self.queue or self.rq or self.cq:
            if self.cq:
                a, b, g = self.cq.pop()
                a, b = ("CH", a), ("CH", b)
                if (a in s1.mem) != (b in s2.mem):
                    raise GenFail("run of nodes")
                if a in s1.mem:
                    mem[("CH", g)] = self.anti(s1.mem[a], s2.mem[b], "nodes")
                continue
            if self.rq:
                a, b, g = self.rq.pop()
                if a in s1.mem and b in s2.mem:
                    mem[g] = self.anti(s1.mem[a], s2.mem[b], repr(g))
                    oty[g] = s1.oty.get(a)
                continue
            a, b, g = self.queue.pop()
            la, lb = a in s1.blk, b in s2.blk
            if la != lb:
                raise GenFail("block liveness")
            if not la:
                continue
            self.do_block(a, b, g, mem, oty, blk)

    def dic(self, a, b, what):
        out = {}
        for k in set(a) | set(b):
            if k == "looptag":
                continue
            x, y = a.get(k), b.get(k)
            if x is None or y is None:
                if x is None and what == "misc" and isinstance(y, P):
                    x = ZERO
                else:
                    raise GenFail("%s %s only on one side" % (what, short(k)))
            out[k] = self.anti(x, y, what + repr(k))
        return out

    def do_block(self, a, b, g, mem, oty, blk):
        E, s1, s2 = self.E, self.s1, self.s2
        A, B = s1.blk[a], s2.blk[b]
        nb = dict(A)
        for f in sorted(A, key=lambda f: f == "bytes"):
            if f == "alloc" or f == "kind":
                nb[f] = self.anti(A[f], B.get(f), "block alloc")
            elif isinstance(A[f], P):
                if f not in B:
                    raise GenFail("block fields")
                nb[f] = self.anti(A[f], B[f], "block " + f)
            elif A[f] != B.get(f):
                raise GenFail("block %s" % f)
        if s1.oty.get(a) != s2.oty.get(b):
            raise GenFail("block type")
        blk[g] = nb
        if a in s1.oty:
            oty[g] = s1.oty[a]
        if a in s1.mem:
            if b not in s2.mem:
                raise GenFail("block content")
            mem[g] = self.anti(pad(s1.mem[a]), pad(s2.mem[b]), "block")

    def candidates(self, G):
        s1, s2 = self.s1, self.s2
        var = {}
        for (a, b), g in self.pairs.items():
            var.setdefault(g, (a, b))
        fixed = {}
        top = s1.frames[-1][UID]

        def ps(v, out, depth=0):
            if isinstance(v, P):
                if v.t and len(v.t) <= 4:
                    out[v] = None
                elif not v.t and 2 <= v.c <= 4096:
                    lens[v] = None
            elif isinstance(v, tuple) and depth < 8:
                for x in v:
                    ps(x, out, depth + 1)
        allp, lens = {}, {}
        for k, v in G.mem.items():
            if k[0] in ("L", "B", "R", "CH"):
                ps(v, allp)
        for b in G.blk.values():
            for f in b.values():
                ps(f, allp)
        for f in s1.facts:
            if len(f.t) == 1 and abs(f.t[0][1]) == 1:
                pass
        kid = self.kid
        fids = {next(iter(x[0].atoms())) for x in self.fresh}
        fix = [p for p in allp if not (p.atoms() & fids) and kid not in p.atoms()][:40] + list(lens)[:8]
        cands = []
        items = list(var.items())[:24]
        # every varying pair against fixed values and against each other
        seen = set()
        for i, (g, (a, b)) in enumerate(items):
            others = [(o, o, o) for o in fix] + [(g2, a2, b2) for g2, (a2, b2) in items[i + 1:]] + [(ZERO, ZERO, ZERO), (ONE, ONE, ONE), (IMAX, IMAX, IMAX)]
            for og, oa, ob in others:
                for c, ca, cb in ((g - og, a - oa, b - ob), (og - g, oa - a, ob - b)):
                    if c in seen or c in self.dropped or not c.t:
                        continue
                    seen.add(c)
                    if not (c.atoms() & fids) and kid not in c.atoms():
                        continue
                    from .poly import lower
                    l = lower(c)
                    if l is not None and l >= 0:
                        continue
                    if entails(s1.facts, ca) and entails(s2.facts, cb):
                        for d in (2, 1):
                            if entails(s1.facts, ca - d) and entails(s2.facts, cb - d) and (c - d) not in self.dropped:
                                cands.append(c - d)
                                break
                        else:
                            cands.append(c)
        self.cands = cands


_hasref = {}


def hasref(x):
    """does the value mention a block or a run of nodes?"""
    if not isinstance(x, tuple):
        return False
    if len(x) == 4 and x[0] == "p" and isinstance(x[1], tuple) and x[1][0] in ("B", "CH"):
        return True
    return any(hasref(y) for y in x if isinstance(y, tuple))


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + "..."


def pad(v):
    """array contents always end in a (possibly empty) unwritten part"""
    if isinstance(v, tuple) and len(v) == 2 and v[0] == "a" and v[1] and v[1][-1][2][0] not in ("u", "j"):
        e = v[1][-1][1]
        return ("a", v[1] + ((e, e, U),))
    return v


def seg_like(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "q":
        return len(a) == len(b) and (a[1] == b[1] or (isinstance(a[1], tuple) and isinstance(b[1], tuple) and len(a[1]) == len(b[1]) and a[1][0] == b[1][0]))
    return True


def vacant(c):
    """the content of an empty segment like this one"""
    return c[:2] + (ZERO,) if c[0] == "h" else c


class Matcher:
    def __init__(self, E, G, s, k, fresh, gen):
        self.E, self.G, self.s, self.gen = E, G, s, gen
        self.kid = next(iter(k.atoms()))
        self.fids = {next(iter(x[0].atoms())): x for x in fresh}
        self.bind = {self.kid: k + 1} if gen is not None else {}
        if gen is None:
            self.bind = {}
            self.free_k = k
        else:
            self.free_k = None
        self.bmap = {}
        self.cmap = {}
        self.inv = {}
        if gen is not None:
            for (a, b), g in gen.pairs.items():
                self.inv.setdefault(g, (a, b))

    def leaf(self, g, p):
        ats = set()
        atoms_any(g, ats)
        un = [a for a in ats if (a in self.fids or (self.free_k is not None and a == self.kid)) and a not in self.bind]
        if un:
            a = un[0]
            cf = [k for m, k in g.t if m == (a,)]
            if len(un) == 1 and cf and cf[0] in (1, -1) and sum(1 for m, _ in g.t if a in m) == 1:
                rest = g - P((((a,), cf[0]),), 0)
                self.bind[a] = (p - subst_any(rest, self.bind)) * con(cf[0])
                if not entails(self.s.facts, self.bind[a]):
                    raise GenFail("binding may be negative")
                return None
            raise GenFail("unbound")
        gp = subst_any(g, self.bind)
        d = gp - p
        if not d.t and d.c == 0:
            return None
        if entails(self.s.facts, d) and entails(self.s.facts, -d):
            return None
        if g in self.inv and not (set(g.atoms()) & set(self.fids)):
            return ("leaf", self.inv[g])
        if g in self.inv and not (len(g.t) == 1 and g.c == 0 and g.t[0][1] == 1 and len(g.t[0][0]) == 1) and self.gen.forced.get(self.inv[g], 0) < 2:
            return ("leaf2", self.inv[g])
        if self.gen is not None and not (ats & set(self.fids)):
            # an equal-in-both leaf that changes now
            return ("leaf", (g, g)) if (g, g) not in self.gen.forced else ("fail", "leaf")
        raise GenFail("leaf %s is %s" % (g, p))

    def m(self, g, v, ctx=""):
        if isinstance(g, P):
            if not isinstance(v, P):
                raise GenFail("%s: integer against %s" % (ctx, short(v)))
            return self.leaf(g, v)
        if isinstance(g, tuple):
            if not isinstance(v, tuple):
                raise GenFail("%s: shape %s / %s" % (ctx, short(g), short(v)))
            if len(g) == 2 and len(v) == 2 and g[0] == "a" and v[0] == "a" and isinstance(g[1], tuple) and isinstance(v[1], tuple):
                return self.segs(g[1], v[1], ctx)
            if len(g) != len(v):
                raise GenFail("%s: shape %s / %s" % (ctx, short(g), short(v)))
            if len(g) == 4 and g[0] == "p" and v[0] == "p":
                r = self.base(g[1], v[1], ctx)
                if r:
                    return r
                return self.m(g[2], v[2], ctx) or self.m(g[3], v[3], ctx)
            if g == v and not self.varies(g):
                return None
            for x, y in zip(g, v):
                r = self.m(x, y, ctx)
                if r:
                    return r
            return None
        if g != v:
            raise GenFail("%s: %s / %s" % (ctx, short(g), short(v)))
        return None

    def segs(self, gs, vs, ctx):
        """contents of an array: segments of G that are empty now have no counterpart"""
        i = j = 0
        while i < len(gs) or j < len(vs):
            if i < len(gs) and j < len(vs) and self.like(gs[i][2], vs[j][2]):
                if not (self.null(gs[i]) and len(gs) - i > len(vs) - j):
                    r = self.m(gs[i], vs[j], ctx)
                    if r:
                        return r
                    i += 1
                    j += 1
                    continue
            if i < len(gs) and (self.null(gs[i]) or self.gen is None and self.empties(gs[i])):
                i += 1
                continue
            if j < len(vs) and entails(self.s.facts, vs[j][0] - vs[j][1]) and (vs[j][2][0] != "h" or entails(self.s.facts, -vs[j][2][2])):
                j += 1
                continue
            self.E.dbg("segments", gs, vs, self.bind, self.s.facts)
            raise GenFail("%s: segments %s / %s" % (ctx, short(gs), short(vs)))
        return None

    def like(self, a, b):
        return seg_like(a, b)

    def null(self, seg):
        d = seg[1] - seg[0]
        if seg[2][0] == "h":
            ats = set()
            atoms_any(seg[2][2], ats)
            if any((a in self.fids or (self.free_k is not None and a == self.kid)) and a not in self.bind for a in ats):
                return False
            if not entails(self.s.facts, -subst_any(seg[2][2], self.bind)):
                return False
        ats = set()
        atoms_any(d, ats)
        if any((a in self.fids or (self.free_k is not None and a == self.kid)) and a not in self.bind for a in ats):
            return False
        d = subst_any(d, self.bind)
        return entails(self.s.facts, -d)

    def empties(self, seg):
        """choose the one open quantity so that the segment is empty"""
        for d in [seg[1] - seg[0]] + ([seg[2][2]] if seg[2][0] == "h" else []):
            ats = set()
            atoms_any(d, ats)
            un = [a for a in ats if (a in self.fids or a == self.kid) and a not in self.bind]
            if len(un) == 1 and sum(1 for m, _ in d.t if un[0] in m) == 1:
                for c in (1, -1):
                    if ((un[0],), c) in d.t:
                        rest = subst_any(d - P((((un[0],), c),), 0), self.bind)
                        self.bind[un[0]] = -rest if c == 1 else rest
                        if not entails(self.s.facts, self.bind[un[0]]):
                            raise GenFail("binding may be negative")
        return self.null(seg)

    def varies(self, g):
        ats = set()
        atoms_any(g, ats)
        return bool(ats & (set(self.fids) | {self.kid})) or self.hasblk(g)

    def hasblk(self, g):
        return hasref(g)

    def base(self, g, v, ctx):
        if g is None or v is None:
            if g is v:
                return None
            raise GenFail("%s: null / non-null" % ctx)
        if g[0] == "CH" and v[0] == "CH":
            if g[2] != v[2]:
                raise GenFail("ends of a run of nodes")
            if g[1] in self.cmap:
                if self.cmap[g[1]] != v[1]:
                    raise GenFail("run of nodes correspondence")
                return None
            if v[1] in self.cmap.values():
                raise GenFail("run of nodes correspondence")
            self.cmap[g[1]] = v[1]
            self.q.append((("CH", g[1]), ("CH", v[1])))
            return None
        if g[0] == "B" and v[0] == "B":
            if g in self.bmap:
                if self.bmap[g] != v:
                    raise GenFail("block correspondence")
                return None
            if v in self.bmap.values():
                raise GenFail("block correspondence")
            self.bmap[g] = v
            self.q.append((g, v))
            return None
        if g == v:
            return None
        if g[0] == v[0] == "R" and len(g) == len(v):
            r = self.m(g, v, "object")
            if r:
                return r
            self.q.append((g, v))
            return None
        raise GenFail("%s: base %s / %s" % (ctx, g, v))

    def run(self):
        G, s = self.G, self.s
        self.q = []
        if len(G.frames) != len(s.frames):
            raise GenFail("frames")
        for x, y in zip(G.frames, s.frames):
            if x[UID] != y[UID] or (x[BB] != y[BB]):
                raise GenFail("frames")
        if G.unw != s.unw:
            raise GenFail("unw")
        pend = []
        keys = [k for k in G.mem if k[0] not in ("B", "CH")]
        # simple integers first: they bind the fresh atoms
        def order(k):
            v = G.mem[k]
            return 0 if isinstance(v, P) else 1
        todo = sorted(keys, key=order)
        items = []
        for k in todo:
            if k not in s.mem:
                if k[0] == "L":
                    if G.mem[k] != U:
                        raise GenFail("local %s missing" % (k,))
                elif k[0] == "R":
                    if not self.varies(("x",) + k):
                        raise GenFail("object missing")
                continue
            if k[0] == "R" and self.varies(("x",) + k):
                continue
            items.append((G.mem[k], s.mem[k], repr(k)))
        for n in range(2):
            later = []
            for g, v, c in items:
                try:
                    r = self.m(g, v, c)
                except GenFail as e:
                    if str(e) == "unbound" and n == 0:
                        later.append((g, v, c))
                        continue
                    raise
                if r:
                    return r
            items = later
        r = self.drain()
        if r:
            return r
        for k in G.mem:
            if k[0] == "CH" and k[1] not in self.cmap:
                if k in s.mem and k[1] not in self.cmap.values():
                    self.cmap[k[1]] = k[1]
                    self.q.append((k, k))
                    r = self.drain()
                    if r:
                        return r
                else:
                    raise GenFail("run of nodes unmatched")
        for k in s.mem:
            if k[0] == "CH" and k[1] not in self.cmap.values():
                raise GenFail("new run of nodes")
        for g in G.blk:
            if g not in self.bmap:
                if g in s.blk and g not in self.bmap.values():
                    self.bmap[g] = g
                    r = self.blockm(g, g) or self.drain()
                    if r:
                        return r
                else:
                    raise GenFail("block unmatched")
        for b in s.blk:
            if b not in self.bmap.values():
                raise GenFail("new block")
        return self.rest()

    def drain(self):
        G, s = self.G, self.s
        while self.q:
            g, v = self.q.pop()
            if g[0] == "CH":
                if (g in G.mem) != (v in s.mem):
                    raise GenFail("run of nodes")
                if g in G.mem:
                    r = self.m(G.mem[g], s.mem[v], "nodes")
                    if r:
                        return r
                continue
            if g[0] == "R":
                if g in G.mem and v in s.mem:
                    r = self.m(G.mem[g], s.mem[v], "obj")
                    if r:
                        return r
                continue
            if (g in G.blk) != (v in s.blk):
                raise GenFail("block liveness")
            if g not in G.blk:
                continue
            r = self.blockm(g, v)
            if r:
                return r
        return None

    def rest(self):
        G, s = self.G, self.s
        for d1, d2, w in ((G.acq, s.acq, "acq"), (G.disp, s.disp, "disp"), (G.misc, s.misc, "misc")):
            for k in set(d1) | set(d2):
                if k == "looptag":
                    continue
                if k not in d1 or k not in d2:
                    raise GenFail("%s %s" % (w, short(k)))
                r = self.m(d1[k], d2[k], w + repr(k))
                if r:
                    return r
        for k, v in G.opq.items():
            if s.opq.get(k) != v:
                raise GenFail("opaque fact")
        if not s.exact and G.exact:
            G.exact = False
        if s.flags - G.flags:
            return ("flag", s.flags - G.flags)
        return None

    def blockm(self, g, v):
        A, B = self.G.blk[g], self.s.blk[v]
        for f in A:
            if isinstance(A[f], (P, tuple)):
                if f not in B:
                    raise GenFail("block")
                r = self.m(A[f], B[f], "block " + f)
                if r:
                    return r
            elif A[f] != B.get(f):
                raise GenFail("block %s" % f)
        if g in self.G.mem:
            if v not in self.s.mem:
                raise GenFail("block content")
            return self.m(self.G.mem[g], self.s.mem[v], "block")
        return None
