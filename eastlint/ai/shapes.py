"""Shapes of the linked containers."""
from .poly import P, con, ZERO, ONE, ISIZE_MAX
from .core import U, UNIT, NULL, Dead, Undecided
from .chains import front, back, isch, is_ptr
from .sem import shape, Skip, Vec, SHAPES
from .tables import SENTINEL

U32 = (1 << 32) - 1


def node_type(E, path, args):
    """the node type a container with these arguments links"""
    key = ("nodetype", path, tuple(E.T.key(a) for a in args))
    if key not in E.kcache:
        E.kcache[key] = None
        for i, t in enumerate(E.F.types):
            if t["k"] == "adt" and t.get("path") == path and len(t["args"]) == len(args) and all(
                    isinstance(x, int) and E.T.same(x, y) for x, y in zip(t["args"], args)):
                E.kcache[key] = i
                break
    n = E.kcache[key]
    if n is None:
        raise Skip("no node type %s" % path)
    return n


class Ring:
    """a ring of doubly linked nodes closed by a sentinel"""
    def walk(self, E, start, sent, what, own):
        """nodes from `start` (a raw link value) up to the sentinel: [(kind, id)], checking symmetry"""
        out = []
        prev = sent
        cur = start
        seen = set()
        for _ in range(60):
            if not is_ptr(cur):
                E.violate("C18", "a link of the %s is never written" % what)
            if E.same_node(cur, sent):
                l = E.link_at(sent, "prev")
                if l is None or not E.same_node(l[0], prev):
                    return None if self.retry(E, out, l and l[0]) else E.violate("C18", "the last node of the %s is not the sentinel's predecessor" % what)
                return out
            if isch(cur):
                if ("CH", cur[1][1]) not in E.st.mem:
                    cur = E.fwd[cur[1]]
                    continue
                if cur[1][2] != "f":
                    return None if self.retry(E, out + [("ch", cur[1][1])], None) else E.violate("C18", "a link of the %s enters a run of nodes at its end" % what)
                segs, left, right, meta = E.chain(cur[1][1])
                if left is None or not E.same_node(left, prev):
                    if self.retry(E, out + [("ch", cur[1][1])], left):
                        return None
                    E.violate("C18", "a node of the %s does not name its predecessor" % what)
                if cur[1][1] in seen:
                    E.violate("C18", "the ring of the %s does not return to the sentinel" % what)
                seen.add(cur[1][1])
                out.append(("ch", cur[1][1]))
                prev, cur = back(cur[1][1]), right
                continue
            b = cur[1]
            if b is None:
                E.violate("C18", "a link of the %s is null" % what)
            if b in seen:
                E.violate("C18", "the ring of the %s does not return to the sentinel" % what)
            if b[0] != "B" or b not in E.st.blk:
                E.violate("C02" if b[0] == "B" else "C18", "a link of the %s refers to %s" % (what, "a node that was given back" if b[0] == "B" else "something that is no node"))
            nv = E.node_of(b)
            if nv is None:
                E.violate("C18", "a node of the %s is not written" % what)
            ni, v = nv
            p = E.getpath(v, ni["prev"])
            if not is_ptr(p) or not E.same_node(p, prev):
                if self.retry(E, out, p):
                    return None
                E.violate("C18", "a node of the %s does not name its predecessor" % what)
            seen.add(b)
            out.append(("nd", b))
            prev, cur = ("p", b, (), None), E.getpath(v, ni["next"])
        E.violate("C18", "the ring of the %s does not return to the sentinel" % what)

    def retry(self, E, out, other):
        """a mismatch may be due to a run that is empty: decide that and start over"""
        cids = [c for k, c in out if k == "ch"]
        if is_ptr(other) and isch(other):
            cids.append(other[1][1])
        for c in cids:
            if ("CH", c) in E.st.mem and not E.ent(E.chlen(c) - 1):
                if E.eqz(E.chlen(c)):
                    E.force(front(c)[1])
                return True
        return False

    def ring(self, E, sent, what, own, start=None):
        while True:
            s = start
            if s is None:
                l = E.link_at(sent, "next")
                if l is None:
                    E.violate("C18", "the sentinel of the %s is not linked" % what)
                s = l[0]
            r = self.walk(E, s, sent, what, own)
            if r is not None:
                return r

    def count(self, E, nodes):
        n = ZERO
        for k, x in nodes:
            n = n + (E.chlen(x) if k == "ch" else 1)
        return n


@shape("list::List")
class List(Ring):
    def parts(self, E, tid):
        T = E.T
        t = T[T.strip(tid)]
        fs = t["variants"][0]["fields"]
        names = {f[0]: i for i, f in enumerate(fs)}
        link = cnt = alloc = None
        for i, f in enumerate(fs):
            ft = T[T.strip(f[1])]
            if E.baselink(T.strip(f[1])) is not None:
                link = i
            elif ft["k"] == "int":
                cnt = i
            elif not ft.get("phantom"):
                alloc = i
        if link is None or cnt is None or alloc is None:
            raise Skip("list layout")
        node = node_type(E, "list::node::ListNode", [t["args"][0]])
        return [f[1] for f in fs], link, cnt, alloc, node

    def links(self, E, tid, nxt, prv):
        ni, pi = E.baselink(E.T.strip(tid))
        l = [U, U]
        l[ni], l[pi] = nxt, prv
        return ("s", tuple(l))

    def make(self, E, tid, name, own, loc):
        if loc is None:
            raise Skip("a list that is not in place")
        fs, li, ci, ai, node = self.parts(E, tid)
        base, path = loc[0], tuple(loc[1:])
        vals = [UNIT] * len(fs)
        vals[ai] = E.make(fs[ai], (name, "f", ai), True, loc + (("f", ai),))
        n = P.atom((name, "n"))
        E.fact(con(U32) - n)
        el = E.nodeinfo(node)["el"]
        root = Vec().alloc_root(E, vals[ai])
        meta = ("ch", E.T.strip(node), root, "heap")
        sent = ("p", base, path + (("f", li),), None)
        seq = (name, "el")
        E.acquire(seq, el, ZERO, n)
        cid = E.new_chain(((ZERO, n, ("q", seq, ZERO, el)),), sent, sent, meta, cid=name)
        vals[li] = self.links(E, fs[li], front(cid), back(cid))
        vals[ci] = n
        E.st.misc[("ring", base)] = meta
        return ("s", tuple(vals))

    def match(self, E, tid, v, base, path, own, what):
        fs, li, ci, ai, node = self.parts(E, tid)
        if v[0] == "u":
            E.violate("C04", "the %s is left uninitialised" % what)
        if v[0] == "y" or base is None:
            return
        ni = E.nodeinfo(node)
        el = ni["el"]
        E.match(fs[ai], v[1][ai], base, path + (("f", ai),), own, what)
        root = Vec().alloc_root(E, v[1][ai])
        E.ob("C18")
        E.ob("C15")
        sent = ("p", base, path + (("f", li),), None)
        nodes = self.ring(E, sent, what, own)
        v = E.load(base, path)
        cnt = v[1][ci]
        if not isinstance(cnt, P):
            E.violate("C15", "the element count of the %s is never written" % what)
        for k, x in nodes:
            if k == "ch":
                segs, left, right, meta = E.chain(x)
                if x in E.heldch:
                    E.violate("C02", "two containers hold the same nodes")
                E.heldch.add(x)
                a = meta[2]
                for lo, hi, c in segs:
                    E.hold_content(lo, hi, c, el, what)
            else:
                if x in E.ownblk:
                    E.violate("C02", "two containers hold the same node")
                E.ownblk.add(x)
                blk = E.st.blk[x]
                a = blk["alloc"]
                E.check_eq(blk["bytes"] - E.T.size(ni["tid"]), "C01", "a node of the %s does not have the size of its block" % what)
                nv = E.node_of(x)[1]
                c = E.content_of(ni, nv)
                if c is None:
                    E.violate("C04", "the %s keeps a node without a live element" % what)
                E.hold_content(ZERO, ONE, c, el, what)
            if root != ("none",) and a != root and a != ("sys",):
                E.violate("C02", "the %s holds a node of a different allocator" % what)
        E.check_eq(cnt - self.count(E, nodes), "C15", "the element count of the %s differs from the number of its nodes" % what)


@shape("list::iter::Iter", "list::iter::IterMut")
class ListIter(Ring):
    """somewhere in a borrowed ring: `len` nodes follow the current one"""
    def parts(self, E, tid):
        T = E.T
        t = T[T.strip(tid)]
        fs = t["variants"][0]["fields"]
        ptrs = [i for i, f in enumerate(fs) if T[T.strip(f[1])]["k"] == "ptr"]
        cnt = [i for i, f in enumerate(fs) if T[T.strip(f[1])]["k"] == "int"]
        names = [f[0] for f in fs]
        if len(ptrs) != 2 or len(cnt) != 1:
            raise Skip("iterator layout")
        s = [i for i in ptrs if "sentinel" in names[i]]
        c = [i for i in ptrs if i not in s]
        if len(s) != 1:
            raise Skip("iterator layout")
        el = [a for a in t["args"] if isinstance(a, int)][0]
        node = node_type(E, "list::node::ListNode", [el])
        return [f[1] for f in fs], s[0], c[0], cnt[0], node

    def make(self, E, tid, name, own, loc):
        fs, si, ci, ni, node = self.parts(E, tid)
        T = E.T
        info = E.nodeinfo(node)
        base = ("R", name, "ring")
        lt = T.strip(T[T.strip(fs[si])]["t"])
        E.st.oty[base] = lt
        sent = ("p", base, (), None)
        meta = ("ch", info["tid"], ("borrowed",), "ext")
        el = info["el"]
        b = P.atom((name, "b"))
        E.fact(con(U32) - b)
        vals = [UNIT] * len(fs)
        vals[si] = sent
        vals[ni] = b
        bi = E.baselink(lt)
        l = [U, U]
        if E.choose(2) == 0:
            cid = E.new_chain(((ZERO, b, ("q", (name, "el"), ZERO, el)),), sent, sent, meta, cid=name)
            l[bi[0]], l[bi[1]] = front(cid), back(cid)
            vals[ci] = sent
        else:
            a = P.atom((name, "a"))
            E.fact(con(U32) - a)
            nd = ("B", (name, "cur"))
            ptr = ("p", nd, (), None)
            ca = E.new_chain(((ZERO, a, ("q", (name, "before"), ZERO, el)),), sent, ptr, meta, cid=(name, "a"))
            cb = E.new_chain(((ZERO, b, ("q", (name, "el"), ZERO, el)),), ptr, sent, meta, cid=(name, "b"))
            E.st.blk[nd] = {"bytes": T.size(info["tid"]), "n": ONE, "align": T.align(info["tid"]), "alloc": ("borrowed",), "kind": "ext"}
            E.st.oty[nd] = ("arr", info["tid"])
            c = E.content_at(("q", (name, "cur"), ZERO, el), ZERO)
            E.st.mem[nd] = ("a", ((ZERO, ONE, ("v", E.node_value(info, c, front(cb), back(ca)))),))
            l[bi[0]], l[bi[1]] = front(ca), back(cb)
            vals[ci] = ptr
        E.st.mem[base] = ("s", tuple(l))
        E.st.misc[("ring", base)] = meta
        return ("s", tuple(vals))

    def match(self, E, tid, v, base, path, own, what):
        fs, si, ci, ni, node = self.parts(E, tid)
        if v[0] in ("u", "y"):
            return
        if any(v[1][i][0] == "u" for i in (si, ci) if isinstance(v[1][i], tuple)):
            E.violate("C04", "the %s is left uninitialised" % what)
        E.ob("C15")
        E.ob("C12")
        sent = E.asptr(v[1][si])
        while True:
            cur = E.asptr(v[1][ci])
            l = E.link_at(cur, "next")
            if l is None:
                E.violate("C12", "the iterator does not designate a node of its list")
            r = self.follow(E, l[0], sent, cur, what)
            if r is not None:
                break
        E.check_eq(v[1][ni] - self.count(E, r), "C15", "the remaining length of the iterator differs from the number of nodes that follow")

    def follow(self, E, start, sent, at, what):
        out, cur, prev, seen = [], start, at, set()
        for _ in range(60):
            if is_ptr(cur) and E.same_node(cur, sent):
                return out
            if not is_ptr(cur) or cur[1] is None:
                E.violate("C12", "the iterator does not arrive at the end of its list")
            if isch(cur):
                if ("CH", cur[1][1]) not in E.st.mem:
                    cur = E.fwd[cur[1]]
                    continue
                out.append(("ch", cur[1][1]))
                cur = E.chain(cur[1][1])[2]
                continue
            nv = E.node_of(cur[1])
            if nv is None or cur[1] in seen:
                E.violate("C12", "the iterator does not arrive at the end of its list")
            seen.add(cur[1])
            out.append(("nd", cur[1]))
            cur = E.getpath(nv[1], nv[0]["next"])
        E.violate("C12", "the iterator does not arrive at the end of its list")


# ====================================================================== pools
def is_pool_root(E):
    return "fixed_pool" in E.root["path"]


def struct_parts(E, tid):
    """field index by kind of a pool: (names, pointer fields, pool field)"""
    t = E.T[E.T.strip(tid)]
    fs = t["variants"][0]["fields"]
    return {f[0]: i for i, f in enumerate(fs)}, [f[1] for f in fs]


class Own:
    """values of the shared pieces: whose cells a pool lists"""


@shape("fixed_pool::FixedPool")
class FixedPool:
    """cells [0,used) of the memory were handed out or are on the free list, [used,cap) are fresh.
    Elsewhere a pool is just some allocator."""
    def fields(self, E, tid):
        names, fs = struct_parts(E, tid)
        for n in ("head", "next", "capacity"):
            if n not in names:
                raise Skip("pool layout")
        link = E.T.strip(E.T[E.T.strip(fs[names["head"]])]["t"])
        node = [a for a in E.T[E.T.strip(tid)]["args"] if isinstance(a, int)][0]
        return names, fs, link, node

    def make(self, E, tid, name, own, loc):
        if not is_pool_root(E):
            return E.mktok(name, tid, own)
        names, fs, link, node = self.fields(E, tid)
        vals = [UNIT] * len(fs)
        if E.choose(2) == 1:
            for n in ("head", "next", "capacity"):
                vals[names[n]] = NULL
            return ("s", tuple(vals))
        mem = ("R", name, "mem")
        used, cap, m = P.atom((name, "used")), P.atom((name, "cells"), 1), P.atom((name, "free"))
        E.fact(cap - used)
        E.fact(used - m)
        E.fact(con(ISIZE_MAX) - cap)
        E.fact(con(ISIZE_MAX) - cap * E.T.size(node))
        E.fact(E.T.size(node) - E.T.size(link))
        E.st.oty[mem] = ("arr", node)
        E.st.mem[mem] = ("a", ((ZERO, cap, U),))
        E.st.misc[("pool", mem)] = (name, cap)
        cid = E.new_chain(((ZERO, m, ("v", ("s", (UNIT,)))),), None, NULL, ("ch", link, ("pool", mem), "pool"), cid=name)
        vals[names["head"]] = front(cid)
        vals[names["next"]] = ("p", mem, (("i", used),), None)
        vals[names["capacity"]] = ("p", mem, (("i", cap),), None)
        return ("s", tuple(vals))

    def match(self, E, tid, v, base, path, own, what, within=None):
        if v[0] == "y":
            if own and E.T[E.T.strip(tid)].get("needs_drop"):
                E.hold(v[1], v[3], v[2], v[2] + 1, what)
            return
        if v[0] == "u":
            E.violate("C04", "the %s is left uninitialised" % what)
        names, fs, link, node = self.fields(E, tid)
        for n in ("head", "next", "capacity"):
            x = v[1][names[n]]
            if isinstance(x, tuple) and x[0] == "u":
                E.violate("C04", "a pointer of the %s is left uninitialised" % what)
        E.ob("C20")
        cap = E.asptr(v[1][names["capacity"]])
        nxt = E.asptr(v[1][names["next"]])
        mem = cap[1]
        if nxt[1] != mem:
            E.violate("C20", "the next fresh node of the %s lies outside its memory" % what)
        if mem is None:
            if not (E.is_eq(nxt[2][0]) and E.is_eq(cap[2][0])):
                E.violate("C20", "the %s refers to memory that is no object" % what)
        else:
            def idx(p):
                q = E.adjust(p[1], p[2], node)
                return (q[:-1], q[-1][1]) if q and q[-1][0] == "i" else (q, None)
            pre, ic = idx(cap)
            prn, i1 = idx(nxt)
            if ic is None or i1 is None or pre != prn:
                E.violate("C20", "the %s does not cut its memory into nodes" % what)
            n = E.array_len(mem, pre)
            if n is None:
                from .core import Undecided
                raise Undecided("memory of the pool")
            E.check(n - ic, "C20", "the %s hands out nodes beyond the end of its memory" % what)
            E.check(ic - i1, "C20", "the next fresh node of the %s lies beyond its capacity" % what)
            E.check(i1, "C20", "the next fresh node of the %s lies before its memory" % what)
            if within is not None and (mem != within[0] or tuple(pre) != tuple(within[1])):
                E.violate("C20", "the %s refers to a buffer that is not its own" % what)
            if within is not None and within[2]:
                E.check_eq(i1, "C20", "the %s does not start at the start of its own buffer" % what)
                E.check_eq(ic - n, "C20", "the capacity of the %s is not that of its own buffer" % what)
        # the free list
        cur = v[1][names["head"]]
        for _ in range(20):
            if isch(cur):
                if ("CH", cur[1][1]) not in E.st.mem:
                    cur = E.fwd[cur[1]]
                    continue
                E.heldch.add(cur[1][1])
                if E.chain(cur[1][1])[3][3] != "pool":
                    E.violate("C20", "the free list of the %s holds nodes from elsewhere" % what)
                cur = E.chain(cur[1][1])[2]
                continue
            cur = E.asptr(cur)
            if cur[1] is None:
                if not E.is_eq(cur[2][0]):
                    E.violate("C20", "the free list of the %s ends in an address that is no node" % what)
                return
            blk = E.st.blk.get(cur[1])
            if blk is None or blk["kind"] != "pool":
                E.violate("C20", "the free list of the %s holds a node from elsewhere" % what)
            if cur[1] in E.ownblk:
                E.violate("C20", "the free list of the %s holds a node twice" % what)
            E.ownblk.add(cur[1])
            nv = self.link_of(E, cur[1])
            if nv is None or not is_ptr(nv):
                E.violate("C20", "a node on the free list of the %s is not linked" % what)
            cur = nv
        E.violate("C20", "the free list of the %s does not end" % what)

    def link_of(self, E, b):
        v = E.st.mem.get(b)
        if not v or v[0] != "a" or not v[1] or v[1][0][2][0] != "v":
            return None
        v = v[1][0][2][1]
        while isinstance(v, tuple) and v[0] == "s" and v[1]:
            v = v[1][0]
        return v


@shape("fixed_pool::with_overflow::FixedPoolWithOverflow")
class PoolWithOverflow:
    def parts(self, E, tid):
        names, fs = struct_parts(E, tid)
        pool = [i for i, f in enumerate(fs) if E.T[E.T.strip(f)].get("path") == "fixed_pool::FixedPool"]
        ptr = [i for i, f in enumerate(fs) if E.T[E.T.strip(f)]["k"] == "ptr"]
        if len(pool) != 1 or len(ptr) != 1:
            raise Skip("pool layout")
        return fs, pool[0], ptr[0]

    def make(self, E, tid, name, own, loc):
        if not is_pool_root(E):
            return E.mktok(name, tid, own)
        fs, pi, bi = self.parts(E, tid)
        vals = [E.make(f, (name, "f", i), own, None) if i != bi else None for i, f in enumerate(fs)]
        cap = [x for x in vals[pi][1] if is_ptr(x) and x[1] is not None and x[1][0] == "R"]
        vals[bi] = ("p", cap[0][1], (("i", ZERO),), None) if cap else NULL
        return ("s", tuple(vals))

    def match(self, E, tid, v, base, path, own, what, within=None):
        if v[0] == "y":
            if own:
                E.hold(v[1], v[3], v[2], v[2] + 1, what)
            return
        if v[0] == "u":
            E.violate("C04", "the %s is left uninitialised" % what)
        fs, pi, bi = self.parts(E, tid)
        for i, f in enumerate(fs):
            if i != bi and i != pi:
                E.match(f, v[1][i], None, None, own, what)
        FixedPool().match(E, fs[pi], v[1][pi], None, None, own, what, within)
        b = E.asptr(v[1][bi])
        names, _ = struct_parts(E, fs[pi])
        cap = E.asptr(v[1][pi][1][names["capacity"]])
        if b[1] != cap[1]:
            E.violate("C20", "the %s does not know where its own memory begins" % what)
        if b[1] is not None:
            q = E.canon_path(b)
            want = E.canon_path(("p", cap[1], E.adjust(cap[1], cap[2], FixedPool().fields(E, fs[pi])[3])[:-1], None))
            if q != want:
                E.violate("C20", "the %s does not know where its own memory begins" % what)


class FixedNodes:
    """a linked container whose allocator is a pool over the buffer beside it"""
    def split(self, E, tid):
        fs = E.T.fields(tid)
        b = [i for i, f in enumerate(fs) if E.T[E.T.strip(f)]["k"] == "array"]
        c = [i for i, f in enumerate(fs) if E.T[E.T.strip(f)]["k"] == "adt" and not E.T.transparent(f) and not E.T[E.T.strip(f)].get("phantom")
             and E.T[E.T.strip(f)].get("path") in ("list::List", "map::Map")]
        if len(b) != 1 or len(c) != 1:
            raise Skip("fixed container layout")
        return fs, c[0], b[0]

    def make(self, E, tid, name, own, loc):
        fs, ci, bi = self.split(E, tid)
        if loc is None:
            raise Skip("a fixed container that is not in place")
        vals = [U] * len(fs)
        vals[ci] = E.make(fs[ci], (name, "f", ci), own, tuple(loc) + (("f", ci),))
        for i, f in enumerate(fs):
            if i != ci and E.T[E.T.strip(f)].get("phantom"):
                vals[i] = UNIT
        N = E.nconst(E.T[E.T.strip(fs[bi])]["n"])
        vals[bi] = ("a", ((ZERO, N, U),))
        return ("s", tuple(vals))

    def match(self, E, tid, v, base, path, own, what):
        fs, ci, bi = self.split(E, tid)
        if v[0] == "u":
            E.violate("C04", "the %s is left uninitialised" % what)
        if v[0] == "y" or base is None:
            return
        E.match(fs[ci], v[1][ci], base, path + (("f", ci),), own, what)
        self.pool(E, fs[ci], E.load(base, path + (("f", ci),)), base, path, bi, what)

    def pool(self, E, tid, v, base, path, bi, what):
        """the allocator inside the container must be set up over the buffer"""
        T = E.T
        t = T[T.strip(tid)]
        if v[0] != "s":
            return
        for i, f in enumerate(T.fields(T.strip(tid))):
            ft = T[T.strip(f)]
            if i >= len(v[1]) or not isinstance(v[1][i], tuple):
                continue
            x = v[1][i]
            n = t["variants"][0]["fields"][i][0]
            if n == "allocator":
                fresh = "made" in E.st.misc
                here = (base, path + (("f", bi),), fresh)
                E.ob("C20")
                if ft.get("path") == "fixed_pool::with_overflow::FixedPoolWithOverflow" and x[0] == "s":
                    PoolWithOverflow().match(E, T.strip(f), x, None, None, False, what, here)
                    names, fs2 = struct_parts(E, T.strip(f))
                    if E.asptr(x[1][PoolWithOverflow().parts(E, T.strip(f))[2]])[1] is None:
                        E.violate("C20", "the pool of the %s is not set up over its own buffer" % what)
                elif x[0] == "y" and fresh:
                    r = E.st.misc.get(("poolinit", models_alloc_root(x)))
                    if r is None:
                        E.violate("C20", "the pool of the %s is not set up over its own buffer" % what)
                    q = E.canon_path(r)
                    if r[1] != base or tuple(q) != tuple(here[1]):
                        E.violate("C20", "the pool of the %s is set up over a buffer that is not its own" % what)
                    N = E.array_len(base, here[1])
                    S = T.size(T.strip(T[T.strip(E.typeof(base, here[1]))]["t"]))
                    E.check_eq(r[3] - N * S, "C20", "the pool of the %s is not set up over all of its own buffer" % what)
            elif ft["k"] == "adt" and ft["kind"] == "struct" and ft.get("local"):
                self.pool(E, f, x, base, path, bi, what)


def models_alloc_root(x):
    from . import models
    return models.alloc_root(x)


@shape("fixed_list::FixedList", "fixed_map::FixedMapImpl")
class FixedList(FixedNodes):
    pass


# ====================================================================== hash tables
class Buckets:
    def walk_slot(self, E, v, what):
        """nodes of one bucket: [(kind, id)]"""
        out, cur, seen = [], v, set()
        for _ in range(60):
            if not is_ptr(cur):
                E.violate("C04", "a bucket of the %s is never written" % what)
            if cur[1] is None:
                if cur[2][0] == 0:
                    return out
                E.violate("C17", "a list of nodes of the %s ends in an address that is no node" % what)
            if isch(cur):
                if ("CH", cur[1][1]) not in E.st.mem:
                    cur = E.fwd[cur[1]]
                    continue
                if cur[1] in seen:
                    E.violate("C03", "a list of nodes of the %s does not end" % what)
                seen.add(cur[1])
                out.append(("ch", cur[1][1]))
                cur = E.chain(cur[1][1])[2]
                continue
            b = cur[1]
            if b in seen:
                E.violate("C03", "a list of nodes of the %s does not end" % what)
            if b[0] != "B" or b not in E.st.blk:
                E.violate("C02", "a bucket of the %s refers to a node that was given back" % what)
            nv = E.node_of(b)
            if nv is None:
                E.violate("C04", "a node of the %s is not written" % what)
            seen.add(b)
            out.append(("nd", b))
            cur = E.getpath(nv[1], nv[0]["next"])
        E.violate("C03", "a list of nodes of the %s does not end" % what)

    def hold_nodes(self, E, nodes, node, root, what, idx=None, mod=None):
        el = node
        n = ZERO
        for k, x in nodes:
            if k == "ch":
                if x in E.heldch:
                    E.violate("C02", "two buckets hold the same nodes")
                E.heldch.add(x)
                segs, left, right, meta = E.chain(x)
                a = meta[2]
            else:
                if x in E.ownblk:
                    E.violate("C02", "two buckets hold the same node")
                E.ownblk.add(x)
                blk = E.st.blk[x]
                a = blk["alloc"]
                ni, v = E.node_of(x)
                E.check_eq(blk["bytes"] - E.T.size(ni["tid"]), "C01", "a node of the %s does not have the size of its block" % what)
                c = E.content_of(ni, v)
                if c is None:
                    E.violate("C04", "the %s keeps a node without a live key and value" % what)
                segs = ((ZERO, ONE, c),)
            for lo, hi, c in segs:
                E.hold_content(lo, hi, c, el, what)
            if root != ("none",) and a != root and a != ("sys",) and not E.empty(ZERO, segs[-1][1] if segs else ZERO):
                E.violate("C02", "the %s holds a node of a different allocator" % what)
            if idx is not None:
                self.placed(E, E.misplaced(idx, mod, segs, el), what)
            n = n + (segs[-1][1] if segs else ZERO)
        return n

    def placed(self, E, fault, what):
        if E.st.unw:
            # growth that the hash functor broke off leaves nodes linked behind others: they can be lost, but are dropped once
            return
        E.ob("C16")
        if fault == ("misplaced",):
            E.violate("C16", "a node of the %s is not in the bucket of its key's hash" % what)
        elif fault:
            E.note("unproved obligation C16: the bucket of a node")


@shape("internal::hash_table::HashTable")
class HashTable(Buckets):
    def parts(self, E, tid):
        t = E.T[E.T.strip(tid)]
        fs = t["variants"][0]["fields"]
        names = {f[0]: i for i, f in enumerate(fs)}
        for n in ("bucket_array", "bucket_count", "element_count", "rehash_policy", "allocator"):
            if n not in names:
                raise Skip("hash table layout")
        node = E.T.strip(E.T[E.T.strip(E.T[E.T.strip(fs[names["bucket_array"]][1])]["t"])]["t"])
        return names, [f[1] for f in fs], node

    def next_resize(self, E, tid):
        fs = E.T[E.T.strip(tid)]["variants"][0]["fields"]
        i = [j for j, f in enumerate(fs) if f[0] == "next_resize"]
        return i[0] if i else None

    def empty_array(self, E):
        for s in E.F.raw.get("statics", ()):
            if s["path"].startswith("internal::hash_table") and s["ty"].startswith("[usize;"):
                return E.static({"static": s["path"]})
        return None

    def make(self, E, tid, name, own, loc):
        names, fs, node = self.parts(E, tid)
        T = E.T
        vals = [E.make(f, (name, "f", i), True, loc + (("f", i),) if loc else None) if i != names["bucket_array"] else U for i, f in enumerate(fs)]
        empty = self.empty_array(E)
        nr = self.next_resize(E, fs[names["rehash_policy"]])
        if empty is not None and E.choose(2) == 0:
            vals[names["bucket_array"]] = ("p", empty[1], (("i", ZERO),), None)
            vals[names["bucket_count"]] = ONE
            vals[names["element_count"]] = ZERO
            if nr is not None:
                l = list(vals[names["rehash_policy"]][1])
                l[nr] = ZERO
                vals[names["rehash_policy"]] = ("s", tuple(l))
            return ("s", tuple(vals))
        E.instances = True
        few = None
        if E.small:
            # an operation that neither adds nor takes nodes is looked at with longer chains too
            look = E.root.get("name") in ("get", "get_mut", "contains_key", "iter", "iter_mut", "find")
            # and one that adds a node, on its own and at the end of a run, with growth that stops half way through
            grow = E.root.get("name") == "insert"
            few = ((2, 1), (0, 1), (0, 0), (1, 2) if grow else (3, 0))[E.choose(4 if look or grow else 3)]
            bc, n = con(len(few)), con(sum(few))
        else:
            bc = P.atom((name, "bc"), 2)
            n = P.atom((name, "n"))
            E.fact(con(4294967291) - bc)
            E.fact(con(U32 - 1) - n)
        root = Vec().alloc_root(E, vals[names["allocator"]])
        b = ("B", (name, "buckets"))
        slot = T[T.strip(fs[names["bucket_array"]])]["t"]
        kind = ("hk", node, root, "heap", ())
        E.st.blk[b] = {"bytes": (bc + 1) * T.size(slot), "n": bc + 1, "align": T.align(slot), "alloc": root, "kind": "heap"}
        E.st.oty[b] = ("arr", T.strip(slot))
        if few is None:
            E.st.mem[b] = ("a", ((ZERO, bc, ("h", kind, n)), (bc, bc + 1, ("v", SENTINEL))))
        else:
            segs = []
            for i, m in enumerate(few):
                key = ("bk", "%s%d" % (name, i) if isinstance(name, str) else "t%d" % E.bump())
                c = NULL
                if m:
                    E.acquire(key, node, ZERO, con(m))
                    E.st.misc[("slot", key)] = (con(i), bc, ())
                    c = front(E.new_chain(((ZERO, con(m), ("q", key, ZERO, node)),), None, NULL, ("ch", node, root, "heap"), cid="k" + key[1]))
                segs.append((con(i), con(i + 1), ("v", c)))
            E.st.mem[b] = ("a", tuple(segs) + ((bc, bc + 1, ("v", SENTINEL)),))
        ptr = ("p", b, (("i", ZERO),), None)
        vals[names["bucket_array"]] = ptr
        vals[names["bucket_count"]] = bc
        vals[names["element_count"]] = n
        E.st.misc[("tabarr", name)] = ptr
        E.st.misc["tab0"] = E.st.misc.get("tab0", ()) + (bc,)
        return ("s", tuple(vals))

    def grown(self, E, bc, nr, what):
        """the bucket count at exit is the one the table had, or the one the growth policy last gave"""
        E.ob("C22")
        last = E.st.misc.get("grow", ())[-1:]
        for prime, new in last:
            if prime is not None and (not E.st.unw or E.is_eq(bc - prime)):
                E.check_eq(bc - prime, "C22", "the %s has another number of buckets than the growth policy asked for" % what)
                return
            if prime is not None and nr is not None and E.is_eq(nr - new):
                E.violate("C22", "the growth threshold of the %s belongs to a bucket count it does not have" % what)
        old = E.st.misc.get("tab0", ())
        if not last and len(old) == 1:
            E.check_eq(bc - old[0], "C22", "the bucket count of the %s changes without asking the growth policy" % what)

    def match(self, E, tid, v, base, path, own, what):
        names, fs, node = self.parts(E, tid)
        if v[0] == "u":
            E.violate("C04", "the %s is left uninitialised" % what)
        if v[0] == "y":
            return
        f = v[1]
        E.match(fs[names["allocator"]], f[names["allocator"]], base, path + (("f", names["allocator"]),) if path is not None else None, own, what)
        root = Vec().alloc_root(E, f[names["allocator"]])
        bc, ec = f[names["bucket_count"]], f[names["element_count"]]
        if not isinstance(bc, P) or not isinstance(ec, P):
            E.violate("C15", "the counts of the %s are never written" % what)
        p = E.asptr(f[names["bucket_array"]])
        E.ob("C17")
        E.ob("C15")
        if p[1] is None:
            E.violate("C17", "the %s has no bucket array" % what)
        if p[1][0] == "G":
            empty = self.empty_array(E)
            if empty is None or p[1] != empty[1] or not (p[2] in ((), (("i", ZERO),))):
                E.violate("C17", "the %s uses a static that is no bucket array" % what)
            E.check_eq(bc - 1, "C17", "the %s claims more than the one bucket of the shared empty array" % what)
            E.check_eq(ec, "C15", "the %s without buckets of its own counts elements" % what)
            nr = self.next_resize(E, fs[names["rehash_policy"]])
            pol = f[names["rehash_policy"]]
            if nr is not None and pol[0] == "s" and isinstance(pol[1][nr], P):
                E.check_eq(pol[1][nr], "C17", "the %s still uses the shared empty array but will not grow on the next insertion" % what)
            return
        b = p[1]
        if b[0] != "B" or b not in E.st.blk:
            E.violate("C02", "the %s uses a bucket array that was given back" % what)
        blk = E.st.blk[b]
        if b in E.ownblk:
            E.violate("C02", "two tables use the same bucket array")
        E.ownblk.add(b)
        if blk["alloc"] != root and root != ("none",):
            E.violate("C02", "the bucket array of the %s is from a different allocator" % what)
        if p[2] and not (len(p[2]) == 1 and p[2][0][0] == "i" and E.is_eq(p[2][0][1])):
            E.violate("C02", "the %s does not refer to the start of its bucket array" % what)
        if "n" not in blk:
            return
        E.check_eq(blk["bytes"] - (bc + 1) * E.T.size(E.st.oty[b][1]), "C17", "the bucket array of the %s is not its bucket count and one entry long" % what)
        E.check(bc - 2, "C17", "the %s has an array of its own of fewer than two buckets" % what)
        nr = self.next_resize(E, fs[names["rehash_policy"]])
        pol = f[names["rehash_policy"]]
        self.grown(E, bc, pol[1][nr] if nr is not None and pol[0] == "s" and isinstance(pol[1][nr], P) else None, what)
        arr = E.st.mem[b]
        segs = arr[1] if arr[0] == "a" else ()
        if not segs:
            E.violate("C04", "the bucket array of the %s is never written" % what)
        self.sentinel(E, segs, bc, what)
        total = ZERO
        while True:
            segs = E.st.mem[b][1]
            chs = len([k for k in E.st.mem if k[0] == "CH"])
            total, again = ZERO, False
            for lo, hi, c in segs:
                if E.ent(lo - hi):
                    if c[0] == "h":
                        E.vanish(c[2])
                    continue
                if E.is_eq(lo - bc):
                    continue
                if c[0] == "h":
                    if c[1][2] != root and root != ("none",) and E.maybe(c[2] - 1):
                        E.violate("C02", "the %s holds nodes of a different allocator" % what)
                    self.placed(E, c[1][4], what)
                    total = total + c[2]
                elif c == ("v", NULL):
                    continue
                elif c[0] == "j":
                    if E.st.unw:
                        raise Dead()
                    from .core import Undecided
                    raise Undecided("a bucket names a node linked elsewhere")
                elif c[0] == "u":
                    if E.maybe(hi - lo - 1):
                        E.violate("C17", "buckets of the %s are never set to null" % what)
                elif c[0] == "v" and is_ptr(c[1]):
                    if c[1] == SENTINEL:
                        E.violate("C17", "the end sentinel lies among the buckets of the %s" % what)
                    nodes = self.walk_slot(E, c[1], what)
                    total = total + self.hold_nodes(E, nodes, node, root, what, lo, bc)
                else:
                    return
            if not again:
                break
        if E.st.unw and "cause" not in E.st.misc:
            # a hash function that panics during a rehash loses (leaks) the nodes moved so far
            E.check(ec - total, "C15", "the element count of the %s is less than the number of its nodes" % what)
        else:
            E.check_eq(ec - total, "C15", "the element count of the %s differs from the number of its nodes" % what)

    def sentinel(self, E, segs, bc, what):
        segs = [x for x in segs if not E.ent(x[0] - x[1])]
        if not segs:
            return
        lo, hi, c = segs[-1]
        if c == ("v", SENTINEL) and E.is_eq(lo - bc):
            return
        if c[0] in ("v", "u", "h") and E.ent(hi - bc - 1):
            E.violate("C17", "the last entry of the bucket array of the %s is not the end sentinel" % what)


@shape("internal::hash_table::entry::VacantEntry")
class VacantEntry:
    """the entry of a key that is not in the table: the table, the bucket the key belongs to, the key"""
    def parts(self, E, tid):
        fs = E.T[E.T.strip(tid)]["variants"][0]["fields"]
        names = {f[0]: i for i, f in enumerate(fs)}
        for n in ("table", "target_bucket", "key"):
            if n not in names:
                raise Skip("hash table entry layout")
        return names, [f[1] for f in fs]

    def make(self, E, tid, name, own, loc):
        names, fs = self.parts(E, tid)
        vals = [None] * len(fs)
        for i, f in enumerate(fs):
            if i == names["table"]:
                tt = E.T.strip(E.T[f]["t"])
                vals[i] = E.make_ref(tt, (name, "table"), True)
            elif i != names["target_bucket"]:
                vals[i] = E.make(f, (name, "f", i), True)
        tab = SHAPES["internal::hash_table::HashTable"]
        tn, _, _ = tab.parts(E, tt)
        tv = E.load(vals[names["table"]][1], ())
        arr, bc = tv[1][tn["bucket_array"]], tv[1][tn["bucket_count"]]
        key = vals[names["key"]]
        h = E.user_hash(None, key)
        if E.is_eq(bc - 1):
            j = ZERO
        elif bc.const() is not None:
            k = E.choose(int(bc.const()))
            j = P.atom(("rem", h, bc))
            E.fact(j - k)
            E.fact(con(k) - j)
            j = con(k)
        else:
            j = E.rem(h, bc)
        vals[names["target_bucket"]] = ("p", arr[1], (("i", j),), None)
        E.st.misc[("absent", name)] = (("R", (name, "table")), E.vid(key))
        return ("s", tuple(vals))

    def match(self, E, tid, v, base, path, own, what):
        names, fs = self.parts(E, tid)
        if v[0] != "s":
            return
        for i, f in enumerate(fs):
            if i not in (names["table"], names["target_bucket"]):
                E.match(f, v[1][i], base, path + (("f", i),) if path is not None else None, own, what)
        tp = E.asptr(v[1][names["table"]])
        bp = E.asptr(v[1][names["target_bucket"]])
        tab = SHAPES["internal::hash_table::HashTable"]
        tn, _, _ = tab.parts(E, E.T.strip(E.T[fs[names["table"]]]["t"]))
        tv = E.load(tp[1], tp[2])
        if tv[0] != "s":
            return
        arr, bc = E.asptr(tv[1][tn["bucket_array"]]), tv[1][tn["bucket_count"]]
        E.ob("C16")
        if bp[1] != arr[1]:
            E.violate("C16", "the entry of a new key names a bucket that is not the table's")
        j = bp[2][0][1] if bp[2] and bp[2][0][0] == "i" else ZERO
        if E.is_eq(bc - 1):
            E.check_eq(j, "C16", "the entry of a new key does not name the bucket of the key's hash")
            return
        r = E.rem(P.atom(("hash", E.vid(v[1][names["key"]]))), bc)
        E.check_eq(j - r, "C16", "the entry of a new key does not name the bucket of the key's hash")


@shape("internal::hash_table::entry::Entry")
class TableEntry:
    def variants(self, E, tid):
        vs = E.T[E.T.strip(tid)]["variants"]
        n = {x["name"]: i for i, x in enumerate(vs)}
        if sorted(n) != ["Occupied", "Vacant"]:
            raise Skip("hash table entry layout")
        return n, vs

    def make(self, E, tid, name, own, loc):
        n, vs = self.variants(E, tid)
        k = ("Occupied", "Vacant")[E.choose(2)]
        E.st.misc["entry"] = k
        f = vs[n[k]]["fields"]
        if len(f) != 1:
            raise Skip("hash table entry layout")
        return ("e", n[k], (E.make(f[0][1], (name, k), True),))

    def match(self, E, tid, v, base, path, own, what):
        n, vs = self.variants(E, tid)
        if v[0] != "e":
            return
        E.match(vs[v[1]]["fields"][0][1], v[2][0], None, None, own, what)


@shape("std::slice::Iter")
class SliceIter:
    """over the buckets of a table (explicit instances)"""
    def make(self, E, tid, name, own, loc):
        T = E.T
        args = [a for a in T[T.strip(tid)]["args"] if isinstance(a, int)]
        pt = T[T.strip(args[-1])]
        node = T.strip(pt["t"]) if pt["k"] == "ptr" else None
        if node is None or E.nodeinfo(node) is None:
            raise Skip("argument of type %s" % T[T.strip(tid)]["s"])
        if not E.small:
            E.instances = True
            raise Undecided("explicit instances only")
        b = ("A", "buckets")
        if b not in E.st.mem:
            few = ((2, 0, 1), (0, 2), (0, 0), ())[E.choose(4)]
            segs = []
            for i, m in enumerate(few):
                c = NULL
                if m:
                    key = ("bk", "it%d" % i)
                    E.st.misc[("slot", key)] = (con(i), con(len(few)), ())
                    c = front(E.new_chain(((ZERO, con(m), ("q", key, ZERO, node)),), None, NULL, ("ch", node, ("none",), "ext"), cid="k" + key[1]))
                segs.append((con(i), con(i + 1), ("v", c)))
            # behind the buckets lies the sentinel
            segs.append((con(len(few)), con(len(few) + 1), ("v", SENTINEL)))
            E.st.oty[b] = ("arr", args[-1])
            E.st.mem[b] = ("a", tuple(segs))
            E.st.misc["iterover"] = len(few)
        return ("s", (("p", b, (("i", ZERO),), None), ZERO, con(E.st.misc["iterover"])))

    def match(self, E, tid, v, base, path, own, what):
        pass


@shape("internal::hash_table::iter::RawIter")
class BucketIter:
    """the rest of a bucket's nodes, then the buckets behind it"""
    def parts(self, E, tid):
        fs = E.T[E.T.strip(tid)]["variants"][0]["fields"]
        names = {f[0]: i for i, f in enumerate(fs)}
        if sorted(names) != ["bucket_iter", "node_ptr"]:
            raise Skip("hash table iterator layout")
        return names, [f[1] for f in fs]

    def make(self, E, tid, name, own, loc):
        names, fs = self.parts(E, tid)
        it = E.make(fs[names["bucket_iter"]], name, own, loc)
        start, _, n = it[1]
        n = n.const()
        arr = E.st.mem[start[1]][1]
        # the first bucket not looked at yet; the node pointer is in the bucket before it
        k = E.choose(int(n) + 1)
        ptr = NULL
        if k:
            c = arr[k - 1][2][1]
            if not isch(c):
                if k < n:
                    raise Dead()
            else:
                ptr = c
                if E.choose(2) == 1:
                    # one further on
                    E.force(c[1])
                    nv = E.node_of(E.fwd[c[1]][1])
                    ptr = E.getpath(nv[1], nv[0]["next"])
                    if not is_ptr(ptr) or isch(ptr) and E.eqz(E.chlen(ptr[1][1])) or ptr == NULL:
                        raise Dead()
        elif n:
            raise Dead()
        vals = [None, None]
        vals[names["bucket_iter"]] = ("s", (start, con(k), con(n)))
        vals[names["node_ptr"]] = ptr
        return ("s", tuple(vals))

    def match(self, E, tid, v, base, path, own, what):
        pass


def subarray_size(S):
    """number of elements per subarray for an element size (the rule of the C++ library)"""
    return 64 if S <= 4 else 32 if S <= 8 else 16 if S <= 16 else 8 if S <= 32 else 4


class Subarrays:
    """explicit arrays of pointers to subarrays; the offsets of the first and the last element stay symbolic
    unless the operation walks over the elements"""
    FREE = ("push_back", "push_front", "pop_back", "pop_front", "back", "back_mut", "front", "front_mut", "is_empty", "iter", "iter_mut",
            "len", "next", "next_back", "push", "pop", "top", "into_inner", "into_iter", "into_compat", "into_compat_mut", "rev")
    WHERE = ((8, 3, 3), (8, 0, 0), (8, 7, 7), (8, 3, 4), (8, 0, 1), (8, 6, 7), (8, 0, 7), (8, 0, 6), (8, 1, 7), (8, 0, 3), (8, 4, 7), (8, 2, 4), (18, 9, 17))
    FEW = ((8, 3, 3, 0, 0), (8, 3, 3, 1, 2), (8, 3, 3, 0, 3), (8, 3, 4, 3, 1), (8, 3, 4, 2, 3), (8, 3, 4, 3, 0), (8, 3, 5, 3, 1), (18, 4, 5, 3, 2))

    def build(self, E, name, pp, el, own, root, kind):
        T = E.T
        S = T.size(el)
        if E.root["name"] in self.FREE:
            p, bi, ei = self.WHERE[E.choose(len(self.WHERE))]
            if S.const() is None:
                sub = (4, 64)[E.choose(2)]
            else:
                sub = subarray_size(int(S.const()))
            bo, eo = P.atom((name, "bo")), P.atom((name, "eo"))
            E.fact(con(sub - 1) - bo)
            E.fact(con(sub - 1) - eo)
            if bi == ei:
                E.fact(eo - bo)
        else:
            p, bi, ei, bo, eo = self.FEW[E.choose(len(self.FEW))]
            sub = 4
            bo, eo = con(bo), con(eo)
            if S.const() is not None:
                raise Skip("deque of a type of known size")
        if S.const() is None:
            E.fact(S - 33 if sub == 4 else con(4) - S)
            E.fact(S - 1)
            E.fact(con(ISIZE_MAX) - S * sub)
        ptrs = ("B", (name, "ptrs"))
        E.st.blk[ptrs] = {"bytes": con(8 * p), "n": con(p), "align": con(8), "alloc": root, "kind": kind}
        E.st.oty[ptrs] = ("arr", T.strip(pp))
        segs = []
        if bi:
            segs.append((ZERO, con(bi), U))
        seq = (name, "el")
        off = ZERO
        for k in range(bi, ei + 1):
            b = ("B", (name, "sub%d" % k))
            E.st.blk[b] = {"bytes": S * sub, "n": con(sub), "align": T.align(el), "alloc": root, "kind": kind}
            E.st.oty[b] = ("arr", T.strip(el))
            lo = bo if k == bi else ZERO
            hi = eo if k == ei else con(sub)
            E.st.mem[b] = ("a", tuple(x for x in ((ZERO, lo, U), (lo, hi, ("q", seq, off, el)), (hi, con(sub), U)) if x[0] != x[1]))
            off = off + hi - lo
            segs.append((con(k), con(k + 1), ("v", ("p", b, (("i", ZERO),), None))))
        if ei + 1 < p:
            segs.append((con(ei + 1), con(p), U))
        E.st.mem[ptrs] = ("a", tuple(segs))
        if own:
            E.acquire(seq, el, ZERO, off)
        def at(k, i):
            return ("p", ("B", (name, "sub%d" % k)), (("i", i if isinstance(i, P) else con(i)),), None)
        def slot(k):
            return ("p", ptrs, (("i", con(k)),), None)
        return p, bi, ei, bo, eo, sub, at, slot

    def idx(self, E, q, el):
        q = E.asptr(q)
        if q[1] is None:
            return q
        pth = E.adjust(q[1], q[2], el)
        if len(pth) == 1 and pth[-1][0] == "i":
            return q[1], pth[-1][1]
        raise Undecided("deque pointer")


@shape("deque::Deque")
class Deque(Subarrays):
    def parts(self, E, tid):
        T = E.T
        fs = T[T.strip(tid)]["variants"][0]["fields"]
        names = {f[0]: i for i, f in enumerate(fs)}
        for n in ("ptr_array", "ptr_array_size", "begin_it", "end_it", "allocator"):
            if n not in names:
                raise Skip("deque layout")
        it = T[T.strip(fs[names["begin_it"]][1])]["variants"][0]["fields"]
        itn = {f[0]: i for i, f in enumerate(it)}
        for n in ("current", "begin", "end", "current_array"):
            if n not in itn:
                raise Skip("deque layout")
        pp = T[T.strip(fs[names["ptr_array"]][1])]["t"]
        return names, [f[1] for f in fs], itn, len(it), pp, T[T.strip(pp)]["t"]

    def make(self, E, tid, name, own, loc):
        if not E.small:
            E.instances = True
            raise Undecided("explicit instances only")
        names, fs, itn, n, pp, el = self.parts(E, tid)
        vals = [UNIT] * len(fs)
        vals[names["allocator"]] = E.make(fs[names["allocator"]], (name, "f", names["allocator"]), True, None)
        root = Vec().alloc_root(E, vals[names["allocator"]])
        p, bi, ei, bo, eo, sub, at, slot = self.build(E, name, pp, el, True, root, "heap")
        def it(k, i):
            v = [UNIT] * n
            v[itn["current"]] = at(k, i)
            v[itn["begin"]] = at(k, 0)
            v[itn["end"]] = at(k, sub)
            v[itn["current_array"]] = slot(k)
            return ("s", tuple(v))
        vals[names["ptr_array"]] = slot(0)
        vals[names["ptr_array_size"]] = con(p)
        vals[names["begin_it"]] = it(bi, bo)
        vals[names["end_it"]] = it(ei, eo)
        return ("s", tuple(vals))

    def runs(self, E, tid, v, check=None, what="deque"):
        """the runs of live elements in order"""
        names, fs, itn, n, pp, el = self.parts(E, tid)
        f = v[1]
        b, e = f[names["begin_it"]][1], f[names["end_it"]][1]
        cb, bi = self.idx(E, b[itn["current_array"]], pp)
        ce, ei = self.idx(E, e[itn["current_array"]], pp)
        sb, bo = self.idx(E, b[itn["current"]], el)
        se, eo = self.idx(E, e[itn["current"]], el)
        arr = E.st.mem[cb]
        out = []
        i, k = bi.const(), ei.const()
        if i is None or k is None:
            raise Undecided("deque position")
        for j in range(int(i), int(k) + 1):
            q = E.asptr(E.elem(arr[1], con(j)))
            a = E.st.mem[q[1]]
            lo = bo if j == i else ZERO
            hi = eo if j == k else E.alen(a)
            if check:
                check(j, q, lo, hi, a)
            out += [(h - l, c) for l, h, c in E.cut(a[1], lo, hi)]
        return out

    def match(self, E, tid, v, base, path, own, what):
        names, fs, itn, n, pp, el = self.parts(E, tid)
        if v[0] == "u":
            E.violate("C04", "the %s is left uninitialised" % what)
        if v[0] == "y":
            return
        f = v[1]
        E.match(fs[names["allocator"]], f[names["allocator"]], None, None, own, what)
        root = Vec().alloc_root(E, f[names["allocator"]])
        p = E.asptr(f[names["ptr_array"]])
        if p[1] is None:
            E.violate("C14", "the %s records a null array of subarrays" % what)
        if p[1] not in E.st.blk:
            E.violate("C02", "the %s keeps an array of subarrays that was given back" % what)
        blk = E.st.blk[p[1]]
        if p[1] in E.ownblk:
            E.violate("C02", "two containers keep the same block")
        E.ownblk.add(p[1])
        if blk["alloc"] != root and root != ("none",):
            E.violate("C02", "the %s holds a block of a different allocator" % what)
        pb, pi = self.idx(E, p, pp)
        E.check_eq(pi, "C02", "the %s does not keep the start of its array of subarrays" % what)
        size = f[names["ptr_array_size"]]
        if not isinstance(size, P):
            E.violate("C04", "the size of the array of subarrays of the %s is never written" % what)
        E.check_eq(blk["bytes"] - size * 8, "C01", "the size recorded for the array of subarrays of the %s differs from its block" % what)
        pos = {}
        for nm in ("begin_it", "end_it"):
            it = f[names[nm]]
            if it[0] != "s":
                E.violate("C04", "an end of the %s is never written" % what)
            it = it[1]
            for x in ("current", "begin", "end", "current_array"):
                if not is_ptr(E.asptr(it[itn[x]])) or E.asptr(it[itn[x]])[1] is None:
                    E.violate("C14", "an end of the %s designates no subarray" % what)
            c, i = self.idx(E, it[itn["current_array"]], pp)
            if c != pb:
                E.violate("C12", "an end of the %s lies outside its array of subarrays" % what)
            E.check(i, "C12", "an end of the %s lies before its array of subarrays" % what)
            E.check(size - 1 - i, "C12", "an end of the %s lies behind its array of subarrays" % what)
            slot = E.elem(E.st.mem[pb][1], i)
            if not is_ptr(slot):
                E.violate("C04", "an end of the %s designates a subarray that is never allocated" % what)
            s, _ = self.idx(E, slot, el)
            s0, i0 = self.idx(E, it[itn["begin"]], el)
            s1, i1 = self.idx(E, it[itn["end"]], el)
            s2, i2 = self.idx(E, it[itn["current"]], el)
            if s not in E.st.blk:
                E.violate("C02", "the %s keeps a subarray that was given back" % what)
            if not (s == s0 == s1 == s2):
                E.violate("C12", "the pointers of an end of the %s do not belong to its subarray" % what)
            E.check_eq(i0, "C12", "the start of an end of the %s is not the start of its subarray" % what)
            E.check_eq(i1 - E.st.blk[s]["n"], "C12", "the end of an end of the %s is not the end of its subarray" % what)
            E.check(i2, "C12", "an end of the %s lies before its subarray" % what)
            E.check(i1 - 1 - i2, "C12", "an end of the %s lies behind its subarray" % what)
            pos[nm] = (i, i2)
            # the C++ library computes the same number from the element size
            lim = {64: (1, 4), 32: (5, 8), 16: (9, 16), 8: (17, 32), 4: (33, None)}.get(E.st.blk[s]["n"].const())
            msg = "the %s does not keep as many elements per subarray as the C++ library" % what
            if lim is None:
                if E.st.blk[s]["n"].const() is not None:
                    E.violate("C32", msg)
            else:
                S = E.T.size(el)
                E.check(S - lim[0], "C32", msg)
                if lim[1]:
                    E.check(con(lim[1]) - S, "C32", msg)
        (bi, bo), (ei, eo) = pos["begin_it"], pos["end_it"]
        E.check(ei - bi, "C12", "the %s ends before it starts" % what)
        if E.is_eq(ei - bi):
            E.check(eo - bo, "C12", "the %s ends before it starts" % what)
        S = E.T.size(el)
        def one(j, q, lo, hi, a):
            if q[1] is None or q[1] not in E.st.blk:
                E.violate("C02" if q[1] is not None else "C04", "the %s keeps a subarray that is not there" % what)
            k = E.st.blk[q[1]]
            if q[1] in E.ownblk:
                E.violate("C02", "the %s keeps a subarray twice" % what)
            E.ownblk.add(q[1])
            if k["alloc"] != root and root != ("none",):
                E.violate("C02", "the %s holds a subarray of a different allocator" % what)
            sub = 4 if E.ent(S - 33) else 64 if E.ent(con(4) - S) else None
            if sub is not None:
                E.check_eq(k["bytes"] - S * sub, "C01", "a subarray of the %s does not have the size it is released with" % what)
        runs = self.runs(E, tid, v, one, what)
        z = ZERO
        for ln, c in runs:
            E.hold_content(z, z + ln, c, el, what)
            z = z + ln


@shape("deque::iter::RawIter")
class DequeIter(Subarrays):
    def parts(self, E, tid):
        T = E.T
        fs = T[T.strip(tid)]["variants"][0]["fields"]
        names = {f[0]: i for i, f in enumerate(fs)}
        for n in ("current", "current_arr", "last", "last_arr", "subarray_size"):
            if n not in names:
                raise Skip("deque iterator layout")
        pp = T[T.strip(fs[names["current_arr"]][1])]["t"]
        return names, fs, pp, T[T.strip(pp)]["t"]

    def make(self, E, tid, name, own, loc):
        if not E.small:
            E.instances = True
            raise Undecided("explicit instances only")
        names, fs, pp, el = self.parts(E, tid)
        p, bi, ei, bo, eo, sub, at, slot = self.build(E, name, pp, el, False, ("none",), "ext")
        v = [UNIT] * len(fs)
        v[names["current"]] = at(bi, bo)
        v[names["current_arr"]] = slot(bi)
        v[names["last"]] = at(ei, eo)
        v[names["last_arr"]] = slot(ei)
        v[names["subarray_size"]] = con(sub)
        return ("s", tuple(v))

    def runs(self, E, tid, v):
        names, fs, pp, el = self.parts(E, tid)
        f = v[1]
        cb, bi = self.idx(E, f[names["current_arr"]], pp)
        ce, ei = self.idx(E, f[names["last_arr"]], pp)
        sb, bo = self.idx(E, f[names["current"]], el)
        se, eo = self.idx(E, f[names["last"]], el)
        i, k = bi.const(), ei.const()
        if cb is None or i is None or k is None:
            raise Undecided("deque position")
        out = []
        for j in range(int(i), int(k) + 1):
            q = E.asptr(E.elem(E.st.mem[cb][1], con(j)))
            a = E.st.mem[q[1]]
            lo = bo if j == i else ZERO
            hi = eo if j == k else E.alen(a)
            out += [(h - l, c) for l, h, c in E.cut(a[1], lo, hi)]
        return out

    def match(self, E, tid, v, base, path, own, what):
        names, fs, pp, el = self.parts(E, tid)
        if v[0] != "s":
            return
        f = v[1]
        for c, a, w in (("current", "current_arr", "front"), ("last", "last_arr", "back")):
            ab, ai = self.idx(E, f[names[a]], pp)
            sb, si = self.idx(E, f[names[c]], el)
            if ab is None or sb is None:
                return
            E.check(ai, "C12", "the %s of the iterator lies before the array of subarrays" % w)
            E.check(E.st.blk[ab]["n"] - 1 - ai, "C12", "the %s of the iterator lies behind the array of subarrays" % w)
            slot = E.elem(E.st.mem[ab][1], ai)
            if not is_ptr(slot):
                E.violate("C04", "the %s of the iterator designates a subarray that is never allocated" % w)
            if E.asptr(slot)[1] != sb:
                E.violate("C12", "the %s of the iterator does not lie in its subarray" % w)
            E.check(si, "C12", "the %s of the iterator lies before its subarray" % w)
            E.check(E.st.blk[sb]["n"] - 1 - si, "C12", "the %s of the iterator lies behind its subarray" % w)
