"""Linked nodes: a run of n linked nodes is one object; looking at either end peels a node off it.

 st.mem[("CH",cid)] = ("s", (("a",segs), left, right, ("ch", node type, allocator)))
 its ends are the pointers ('p', ("CH",cid,"f"), (), None) and ('p', ("CH",cid,"b"), (), None);
 `left` precedes the first node (None for singly linked runs), `right` follows the last."""
from .poly import P, con, ZERO, ONE
from .core import U, UNIT, NULL, Dead, Undecided
from .loops import LoopEngine

ABSENT = ("none",)


def isch(v):
    return isinstance(v, tuple) and len(v) == 4 and v[0] == "p" and isinstance(v[1], tuple) and v[1][0] == "CH"


def front(cid):
    return ("p", ("CH", cid, "f"), (), None)


def back(cid):
    return ("p", ("CH", cid, "b"), (), None)


def is_ptr(v):
    return isinstance(v, tuple) and len(v) == 4 and v[0] == "p"


def repl(x, m):
    """replace pointers (keyed by base) by pointers"""
    if isinstance(x, tuple):
        if len(x) == 4 and x[0] == "p" and x[1] in m:
            return m[x[1]]
        for i, y in enumerate(x):
            if isinstance(y, tuple):
                z = repl(y, m)
                if z is not y:
                    return x[:i] + (z,) + tuple(repl(w, m) if isinstance(w, tuple) else w for w in x[i + 1:])
        return x
    return x


def contains(x, base):
    if isinstance(x, tuple):
        if x == base:
            return True
        return any(contains(y, base) for y in x if isinstance(y, tuple))
    return False


class ChainEngine(LoopEngine):
    # ------------------------------------------------------------ node types
    def nodeinfo(self, tid):
        """{next, prev: paths; content: field indices; el: content type} of a node type, or None"""
        c = self.kcache.get(("node", tid))
        if c is None:
            c = self.kcache[("node", tid)] = self.mknode(tid) or ABSENT
        return None if c is ABSENT else c

    def mknode(self, tid):
        T = self.T
        t = T[T.strip(tid)]
        if t["k"] != "adt" or not t.get("local") or t["kind"] != "struct":
            return None
        fs = t["variants"][0]["fields"]
        nxt = prv = None
        link = set()
        for i, f in enumerate(fs):
            ft = T[T.strip(f[1])]
            if f[0] == "next" and ft["k"] == "ptr" and T.same(ft["t"], tid):
                nxt = (("f", i),)
                link.add(i)
            if ft["k"] == "adt" and ft.get("local") and ft["kind"] == "struct":
                names = [x[0] for x in ft["variants"][0]["fields"]]
                if sorted(names) == ["next", "prev"] and all(T[T.strip(x[1])]["k"] == "ptr" for x in ft["variants"][0]["fields"]):
                    nxt = (("f", i), ("f", names.index("next")))
                    prv = (("f", i), ("f", names.index("prev")))
                    link.add(i)
        if nxt is None:
            return None
        content = [i for i in range(len(fs)) if i not in link]
        el = fs[content[0]][1] if len(content) == 1 else T.strip(tid)
        return {"tid": T.strip(tid), "next": nxt, "prev": prv, "content": content, "el": el, "n": len(fs), "link": link}

    def baselink(self, tid):
        """(next index, prev index) of a bare pair of links"""
        T = self.T
        t = T[T.strip(tid)]
        if t["k"] == "adt" and t.get("local") and t["kind"] == "struct":
            names = [x[0] for x in t["variants"][0]["fields"]]
            if sorted(names) == ["next", "prev"] and all(T[T.strip(x[1])]["k"] == "ptr" for x in t["variants"][0]["fields"]):
                return names.index("next"), names.index("prev")
        return None

    def not_a_node(self, base, path, want, cur):
        """a bare pair of links is used as if it were a node with contents"""
        if isinstance(cur, tuple) or base[0] not in ("R", "L"):
            return
        q = tuple(path)
        for _ in range(3):
            t = self.typeof(base, q)
            if t is not None and not isinstance(t, tuple) and self.baselink(t) is not None:
                ni = self.nodeinfo(want)
                if (ni is not None and ni["prev"] is not None) or self.T[self.T.strip(want)]["k"] in ("param", "alias"):
                    self.violate("C12", "the sentinel of a list is used as an element")
                return
            if not q:
                return
            q = q[:-1]

    # ------------------------------------------------------------ chains
    def new_chain(self, segs, left, right, meta, cid=None):
        st = self.st
        if cid is None:
            st.ctr += 1
            cid = "c%d" % st.ctr
        st.mem[("CH", cid)] = ("s", (("a", tuple(segs)), left if left is not None else ABSENT, right, meta))
        return cid

    def chain(self, cid):
        c = self.st.mem[("CH", cid)][1]
        return c[0][1], (None if c[1] == ABSENT else c[1]), c[2], c[3]

    def set_chain(self, cid, segs, left, right, meta):
        self.st.mem[("CH", cid)] = ("s", (("a", tuple(segs)), left if left is not None else ABSENT, right, meta))

    def chlen(self, cid):
        s = self.chain(cid)[0]
        return s[-1][1] if s else ZERO

    def everywhere(self, m):
        st = self.st
        for k, v in list(st.mem.items()):
            z = repl(v, m)
            if z is not v:
                st.mem[k] = z
        for k, v in list(st.misc.items()):
            z = repl(v, m)
            if z is not v:
                st.misc[k] = z
        for f in st.frames:
            if f[0] is not None and f[1] == "glue":
                f[2] = repl(f[2], m)
        self.fwd.update(m)

    fwd = {}

    def force(self, base):
        """the node at this end of a chain, or what lies beyond when the chain is empty"""
        st = self.st
        for _ in range(12):
            key = ("CH", base[1])
            if key not in st.mem:
                p = self.fwd.get(base)
                if p is None:
                    raise Undecided("lost chain")
            else:
                segs, left, right, meta = self.chain(base[1])
                n = segs[-1][1] if segs else ZERO
                if self.eqz(n):
                    del st.mem[key]
                    m = {("CH", base[1], "f"): right}
                    if left is not None:
                        m[("CH", base[1], "b")] = left
                    self.everywhere(m)
                    p = self.fwd[base]
                else:
                    p = self.peel(base[1], base[2], segs, left, right, meta, n)
            if not isch(p):
                return p
            base = p[1]
        raise Undecided("chain of chains")

    def peel(self, cid, end, segs, left, right, meta, n):
        st = self.st
        ni = self.nodeinfo(meta[1])
        i = ZERO if end == "f" else n - 1
        # the content of the node
        c = None
        for j, (lo, hi, ct) in enumerate(segs):
            if j == len(segs) - 1 or self.ge(hi - 1 - i):
                c = self.content_at(ct, i - lo)
                break
        rest = self.cut(segs, ONE, n) if end == "f" else self.cut(segs, ZERO, n - 1)
        if end == "f":
            rest = tuple((lo - 1, hi - 1, x) for lo, hi, x in rest)
        rest = self.norm(rest)
        st.ctr += 1
        b = ("B", "nd%d" % st.ctr)
        ptr = ("p", b, (), None)
        S = self.T.size(ni["tid"])
        st.blk[b] = {"bytes": S, "n": ONE, "align": self.T.align(ni["tid"]), "alloc": meta[2], "kind": meta[3]}
        st.oty[b] = ("arr", ni["tid"])
        m = {("CH", cid, end): ptr}
        self.everywhere(m)
        segs_, left, right, meta = self.chain(cid)
        st.mem[b] = U
        if end == "f":
            v = self.node_value(ni, c, front(cid), left)
            self.set_chain(cid, rest, ptr if left is not None else None, right, meta)
        else:
            v = self.node_value(ni, c, right, back(cid))
            self.set_chain(cid, rest, left, ptr, meta)
        st.mem[b] = ("a", ((ZERO, ONE, ("v", v)),))
        return ptr

    def node_value(self, ni, c, nxt, prv):
        fs = [U] * ni["n"]
        if len(ni["content"]) == 1:
            fs[ni["content"][0]] = c
        else:
            for i in ni["content"]:
                fs[i] = self.field(c, i)
        v = ("s", tuple(fs))
        v = self.setpath(v, ni["next"], nxt)
        if ni["prev"] is not None:
            v = self.setpath(v, ni["prev"], prv)
        return v

    def setpath(self, v, path, x):
        if not path:
            return x
        l = list(v[1]) if v[0] == "s" else []
        i = path[0][1]
        while len(l) <= i:
            l.append(U)
        l[i] = self.setpath(l[i], path[1:], x)
        return ("s", tuple(l))

    def getpath(self, v, path):
        for e in path:
            if not (isinstance(v, tuple) and v[0] == "s") or e[1] >= len(v[1]):
                return U
            v = v[1][e[1]]
        return v

    def asptr(self, v):
        v = super().asptr(v)
        if v[1] is not None and v[1][0] == "CH":
            return self.force(v[1])
        return v

    def run_block(self):
        self.fwd = {}
        return super().run_block()

    def discr(self, b, p, t):
        v = self.load(b, p)
        if isch(v):
            self.force(v[1])
        return super().discr(b, p, t)

    # ------------------------------------------------------------ what a pointer to a node leads to
    def node_of(self, b):
        """(nodeinfo, struct value) when the block holds one fully written node"""
        st = self.st
        oty = st.oty.get(b)
        if b not in st.blk or not isinstance(oty, tuple) or oty[0] != "arr":
            return None
        ni = self.nodeinfo(oty[1])
        if ni is None:
            return None
        v = st.mem.get(b)
        if not v or v[0] != "a":
            return None
        sg = [x for x in v[1] if x[0] != x[1]]
        if len(sg) != 1 or sg[0][2][0] != "v":
            return None
        v = sg[0][2][1]
        if v[0] != "s":
            return None
        return ni, v

    def set_node(self, b, v):
        self.st.mem[b] = ("a", ((ZERO, ONE, ("v", v)),))

    def link_at(self, p, which):
        """raw value of the next / prev link of what p designates: ('ok', value, setter) or None"""
        st = self.st
        if not is_ptr(p) or p[1] is None:
            return None
        b = p[1]
        if b[0] == "CH":
            if ("CH", b[1]) not in st.mem:
                return None
            segs, left, right, meta = self.chain(b[1])
            if which == "next" and b[2] == "b":
                return right, lambda x: self.set_chain(b[1], *(self.chain(b[1])[:2] + (x,) + self.chain(b[1])[3:]))
            if which == "prev" and b[2] == "f" and left is not None:
                return left, lambda x: self.set_chain(b[1], *(self.chain(b[1])[:1] + (x,) + self.chain(b[1])[2:]))
            return None
        if self.canon_path(p) != () and not self.at_base(p):
            return None
        if b[0] == "B":
            nv = self.node_of(b)
            if nv is None:
                return None
            ni, v = nv
            path = ni[which]
            if path is None:
                return None
            return self.getpath(v, path), lambda x: self.set_node(b, self.setpath(self.node_of(b)[1], path, x))
        # a bare pair of links inside another object
        loc = self.sentinel_path(p)
        if loc is None:
            return None
        path, (ni_, pi_) = loc
        i = ni_ if which == "next" else pi_
        if b not in st.mem:
            return None
        try:
            v = self.getpath(st.mem[b], path)
        except Exception:
            return None
        if v[0] != "s":
            return None
        def setter(x):
            cur = self.getpath(st.mem[b], path)
            l = list(cur[1])
            l[i] = x
            st.mem[b] = self.setpath(st.mem[b], path, ("s", tuple(l))) if path else ("s", tuple(l))
        return v[1][i], setter

    def at_base(self, p):
        return p[1][0] in ("R", "L") and self.sentinel_path(p) is not None

    def sentinel_path(self, p):
        """path of the pair of links p designates"""
        path = p[2]
        t = self.typeof_base(p[1])
        if t is None or isinstance(t, tuple):
            return None
        for e in path:
            if e[0] != "f":
                return None
            t = self.step_type(t, e)
            if t is None:
                return None
        for _ in range(6):
            bl = self.baselink(t)
            if bl is not None:
                return path, bl
            tt = self.T[self.T.strip(t)]
            if tt["k"] != "adt" or tt["kind"] != "struct" or not self.T.fields(self.T.strip(t)):
                return None
            path = path + (("f", 0),)
            t = self.T.fields(self.T.strip(t))[0]
        return None

    def same_node(self, a, b):
        if not is_ptr(a) or not is_ptr(b):
            return False
        if a[1] is None or b[1] is None:
            return a[1] is None and b[1] is None and a[2] == b[2]
        if a[1] != b[1]:
            return False
        if a[1][0] in ("CH",):
            return True
        if self.canon_path(a) == self.canon_path(b):
            return True
        x, y = self.sentinel_path(a), self.sentinel_path(b)
        return x is not None and y is not None and x[0] == y[0]

    # ------------------------------------------------------------ folding at loop heads
    def refcounts(self, bases):
        """how often each of these bases occurs in the state"""
        cnt = {b: 0 for b in bases}
        st = self.st

        def walk(x):
            if x in cnt:
                cnt[x] += 1
                return
            for y in x:
                if isinstance(y, tuple):
                    walk(y)
        for v in st.mem.values():
            if isinstance(v, tuple):
                walk(v)
        for v in st.misc.values():
            if isinstance(v, tuple):
                walk(v)
        for f in st.frames:
            for x in f:
                if isinstance(x, tuple):
                    walk(x)
        return cnt

    def tidy(self, st):
        s = super().tidy(st)
        self.st = s
        ch, ci = self.ch, self.ci
        self.ch, self.ci = (), 0
        self.fwd = {}
        from .core import Fork, GenFail
        try:
            self.fold_chains()
        except (Fork, Dead, GenFail) as e:
            raise Undecided("folding of nodes: %s" % (e,))
        finally:
            self.ch, self.ci = ch, ci
        return s

    def node_blocks(self):
        return [b for b in self.st.blk if b[0] == "B" and isinstance(self.st.oty.get(b), tuple) and self.node_of(b) is not None]

    def sentinels(self):
        """pointers to every bare pair of links in a live object"""
        out = []
        st = self.st
        for k, v in st.mem.items():
            if k[0] not in ("R", "L") or not isinstance(v, tuple) or v[0] != "s":
                continue
            t = self.typeof_base(k)
            if isinstance(t, int):
                self.find_links(k, (), t, v, out)
        return out

    def find_links(self, base, path, tid, v, out):
        T = self.T
        tid = T.strip(tid)
        t = T[tid]
        if t["k"] != "adt" or t["kind"] != "struct" or not t.get("local") or v[0] != "s":
            return
        if self.baselink(tid) is not None:
            out.append(("p", base, path, None))
            return
        for i, ft in enumerate(T.fields(tid)):
            if i < len(v[1]) and isinstance(v[1][i], tuple):
                self.find_links(base, path + (("f", i),), ft, v[1][i], out)

    def fold_chains(self):
        st = self.st
        nodes = self.node_blocks()
        if not nodes and not any(k[0] == "CH" for k in st.mem):
            if not self.sentinels():
                return
        changed = True
        while changed:
            changed = False
            nodes = self.node_blocks()
            cnt = self.refcounts(nodes)
            for b in nodes:
                if self.absorb(b, cnt[b]):
                    changed = True
                    break
            if changed:
                continue
            if self.merge():
                changed = True
        # an empty run wherever two nodes meet directly
        for p in [("p", b, (), None) for b in self.node_blocks()] + self.sentinels():
            self.open_gap(p)

    def content_of(self, ni, v):
        """content segment of a node, or None when part of it is not live"""
        if len(ni["content"]) == 1:
            c = v[1][ni["content"][0]] if ni["content"][0] < len(v[1]) else U
            if not isinstance(c, P) and c[0] == "u":
                return None
            return self.to_content(c)
        par = idx = None
        for i in ni["content"]:
            x = v[1][i] if i < len(v[1]) else U
            if isinstance(x, P):
                return ("v", ("s", tuple(UNIT if j in ni["link"] else y for j, y in enumerate(v[1]))))
            if x[0] == "u" and self.T[self.T.fields(ni["tid"])[i]].get("size") != 0:
                return None
            if x[0] == "y" and isinstance(x[1], tuple) and len(x[1]) == 3 and x[1][1] == "f" and x[1][2] == i:
                if par is None:
                    par, idx = x[1][0], x[2]
                    continue
                if par == x[1][0] and idx == x[2]:
                    continue
            elif x == UNIT or (self.T[self.T.fields(ni["tid"])[i]].get("size") == 0):
                continue
            par = False
            break
        if par:
            return ("q", par, idx, ni["tid"])
        return ("v", ("s", tuple(UNIT if j in ni["link"] else y for j, y in enumerate(v[1]))))

    def absorb(self, b, cnt):
        st = self.st
        ni, v = self.node_of(b)
        c = self.content_of(ni, v)
        if c is None:
            return False
        ptr = ("p", b, (), None)
        nxt = self.getpath(v, ni["next"])
        if not is_ptr(nxt):
            return False
        blk = st.blk[b]
        meta = ("ch", ni["tid"], blk["alloc"], blk["kind"])
        if not self.is_eq(blk["bytes"] - self.T.size(ni["tid"])) or blk["align"] != self.T.align(ni["tid"]):
            return False
        if ni["prev"] is not None:
            prv = self.getpath(v, ni["prev"])
            if not is_ptr(prv) or cnt != 2:
                return False
            l, r = self.link_at(prv, "next"), self.link_at(nxt, "prev")
            if l is None or r is None or not self.same_node(l[0], ptr) or not self.same_node(r[0], ptr):
                return False
            cid = self.new_chain(((ZERO, ONE, c),), prv, nxt, meta)
            l[1](front(cid))
            r[1](back(cid))
        else:
            if cnt != 1 or contains(nxt, b) or self.referenced_oddly(b):
                return False
            cid = self.new_chain(((ZERO, ONE, c),), None, nxt, meta)
            self.everywhere({b: front(cid)})
        for k in (st.mem, st.blk, st.oty):
            k.pop(b, None)
        return True

    def referenced_oddly(self, b):
        """the single reference to the node is a local variable, not a link"""
        st = self.st
        for k, v in st.mem.items():
            if k[0] in ("L", "R") and k[0] == "L" and contains(v, b):
                return True
        for f in st.frames:
            if any(contains(x, b) for x in f if isinstance(x, tuple)):
                return True
        return any(contains(x, b) for x in st.misc.values() if isinstance(x, tuple))

    def merge(self):
        st = self.st
        cids = [k[1] for k in st.mem if k[0] == "CH"]
        cnt = self.refcounts([("CH", c, e) for c in cids for e in "fb"])
        for a in cids:
            segs, left, right, meta = self.chain(a)
            if not isch(right) or right[1][2] != "f":
                continue
            c = right[1][1]
            if c == a or ("CH", c) not in st.mem:
                continue
            segs2, left2, right2, meta2 = self.chain(c)
            if meta != meta2 or (left is None) != (left2 is None):
                continue
            if cnt[("CH", c, "f")] != 1:
                continue
            if left is not None and (not self.same_node(left2, back(a)) or cnt[("CH", a, "b")] != 1):
                continue
            n = segs[-1][1] if segs else ZERO
            new = self.norm(tuple(segs) + tuple((lo + n, hi + n, x) for lo, hi, x in segs2))
            self.set_chain(a, new, left, right2, meta)
            del st.mem[("CH", c)]
            if left is not None:
                self.everywhere({("CH", c, "b"): back(a)})
            return True
        return False

    def open_gap(self, p):
        l = self.link_at(p, "next")
        if l is None or isch(l[0]) or not is_ptr(l[0]):
            return
        nxt = l[0]
        st = self.st
        # the kind of node that belongs here
        meta = None
        for q in (p, nxt):
            if q[1] is not None and q[1][0] == "B":
                nv = self.node_of(q[1])
                if nv is not None:
                    meta = ("ch", nv[0]["tid"], st.blk[q[1]]["alloc"], st.blk[q[1]]["kind"])
                    double = nv[0]["prev"] is not None
                    break
        if meta is None:
            m = self.ring_meta(p)
            if m is None:
                return
            meta, double = m, True
        if double:
            if nxt[1] is None:
                return
            r = self.link_at(nxt, "prev")
            if r is None or not self.same_node(r[0], p):
                return
            cid = self.new_chain((), p, nxt, meta)
            l[1](front(cid))
            self.link_at(nxt, "prev")[1](back(cid))
        else:
            cid = self.new_chain((), None, nxt, meta)
            l[1](front(cid))

    def ring_meta(self, p):
        """node type and allocator of the ring whose (empty) sentinel this is"""
        return self.st.misc.get(("ring", p[1]))

    # ------------------------------------------------------------ exits
    def leftover(self):
        """chains no container was found to hold"""
        for k, v in list(self.st.mem.items()):
            if k[0] != "CH" or k[1] in self.heldch:
                continue
            segs, left, right, meta = self.chain(k[1])
            n = segs[-1][1] if segs else ZERO
            if meta[3] == "heap" and self.maybe(n - 1):
                self.report("C02", "nodes obtained from the allocator are neither held by a container nor given back")
                return
            if meta[3] == "pool" and "drop" not in self.root and self.maybe(n - 1):
                self.report("C20", "nodes on the free list of the pool are lost")
                return
