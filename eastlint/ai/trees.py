"""Shapes of the balanced tree: small explicit instances, every one a valid red-black tree."""
from .poly import P, con, ZERO, ONE
from .core import U, UNIT, NULL, Dead, Undecided
from .chains import is_ptr
from .sem import shape, Skip, Vec
from .specs import view

L = (None, None)
# (left, right) of the nodes; colours do not matter to the code looked at here
TREES = (L, (L, None), (None, L), (L, L), ((L, None), L), ((None, L), L), (L, (L, None)), (L, (None, L)), ((L, L), L), (L, (L, L)))
# looked at by the iterators only: long climbs and descents
TALL = TREES + (((L, L), (L, L)), ((L, (L, L)), (L, L)), ((L, L), ((L, L), L)))


def members(E, tid, want):
    fs = E.T[E.T.strip(tid)]["variants"][0]["fields"]
    names = {f[0]: i for i, f in enumerate(fs)}
    for n in want:
        if n not in names:
            raise Skip("tree layout")
    return names, [f[1] for f in fs]


class Nodes:
    def nodeparts(self, E, node):
        T = E.T
        names, fs = members(E, node, ("right", "left", "parent", "pair"))
        pc = T.strip(fs[names["parent"]])
        raw = [i for i, f in enumerate(T.fields(pc)) if T[T.strip(f)]["k"] == "int"]
        if len(raw) != 1:
            raise Skip("tree layout")
        return names, fs, len(T.fields(pc)), raw[0]

    def node_of(self, E, ptrtid):
        T = E.T
        return T.strip(T[T.strip(ptrtid)]["t"])

    def build(self, E, name, node, tree, root, own, kind, anchor):
        """the nodes of one instance: pointers to them in order, the pointer to the root, the element sequence"""
        T = E.T
        names, fs, npc, raw = self.nodeparts(E, node)
        pair = T.strip(fs[names["pair"]])
        seq = (name, "el")
        order, vals = [], {}

        def at(k):
            return ("p", ("B", (name, "node%s" % k)), (("i", ZERO),), None)

        def go(t, key, up):
            left, right = t
            me = at(key)
            b = me[1]
            E.st.blk[b] = {"bytes": T.size(node), "n": ONE, "align": T.align(node), "alloc": root, "kind": kind}
            E.st.oty[b] = ("arr", node)
            E.st.mem[b] = ("a", ((ZERO, ONE, U),))
            E.st.misc[("even", b)] = True
            lp = go(left, key + "l", me) if left else NULL
            i = len(order)
            order.append(me)
            rp = go(right, key + "r", me) if right else NULL
            pc = [UNIT] * npc
            color = len(key) % 2
            pc[raw] = (E.addr(up) if up[1] is not None else ZERO) + color
            v = [UNIT] * len(fs)
            v[names["left"]], v[names["right"]], v[names["parent"]] = lp, rp, ("s", tuple(pc))
            v[names["pair"]] = E.content_at(("q", seq, con(i), pair), ZERO)
            E.st.mem[b] = ("a", ((ZERO, ONE, ("v", ("s", tuple(v)))),))
            return me

        r = go(tree, "t", anchor)
        if own:
            E.acquire(seq, pair, ZERO, con(len(order)))
        return order, r

    def target(self, E, p, node):
        """the node a pointer designates: its block, or the anchor, or None"""
        p = E.asptr(p)
        if p[1] is None:
            return None
        return p[1], tuple(x for x in p[2] if x != ("i", ZERO))

    def inorder(self, E, ptr, node, check=None, depth=0):
        """the nodes under `ptr` in order"""
        names, fs, npc, raw = self.nodeparts(E, node)
        p = E.asptr(ptr)
        if p[1] is None:
            return []
        if depth > 8:
            raise Undecided("tree depth")
        if check:
            check(p)
        if p[1][0] != "B" or p[1] not in E.st.blk:
            raise Undecided("tree node")
        v = E.load(p[1], p[2] if p[2] else (("i", ZERO),))
        if v[0] != "s":
            raise Undecided("tree node")
        f = v[1]
        return (self.inorder(E, f[names["left"]], node, check, depth + 1) + [(p[1], f[names["pair"]])]
                + self.inorder(E, f[names["right"]], node, check, depth + 1))

    def up(self, E, b, node):
        """where the parent link of a node points"""
        names, fs, npc, raw = self.nodeparts(E, node)
        v = E.st.mem[b]
        v = E.load(b, (("i", ZERO),)) if v[0] == "a" else v
        x = v[1][names["parent"]][1][raw]
        return v, x


@shape("internal::rb_tree::node::Node")
class Node(Nodes):
    def make(self, E, tid, name, own, loc):
        raise Skip("a tree node by itself")

    def match(self, E, tid, v, base, path, own, what):
        if v[0] != "s":
            return
        names, fs = members(E, tid, ("pair",))
        E.match(fs[names["pair"]], v[1][names["pair"]], None, None, own, what)


@shape("internal::rb_tree::RBTree")
class Tree(Nodes):
    def parts(self, E, tid):
        names, fs = members(E, tid, ("begin", "end", "parent", "size", "allocator"))
        return names, fs, self.node_of(E, fs[names["parent"]])

    def make(self, E, tid, name, own, loc):
        if not E.small:
            E.instances = True
            raise Undecided("explicit instances only")
        names, fs, node = self.parts(E, tid)
        links = ("begin", "end", "parent", "size")
        vals = [U if n in links else E.make(fs[names[n]], (name, "f", names[n]), True, None) for n in sorted(names, key=names.get)]
        root = Vec().alloc_root(E, vals[names["allocator"]])
        k = E.choose(len(TREES) + 2)
        here = lambda f: ("p", loc[0], tuple(loc[1:]) + (("f", names[f]),), None)
        if k >= len(TREES):
            # empty: as the crate makes it, or as the C++ library does
            e = NULL if k == len(TREES) or not loc else here("begin")
            vals[names["begin"]] = vals[names["end"]] = e
            vals[names["parent"]] = NULL
            vals[names["size"]] = ZERO
            return ("s", tuple(vals))
        if loc:
            E.st.misc[("even", loc[0])] = True
        anchor = here("begin") if loc else NULL
        order, r = self.build(E, name, node, TREES[k], root, True, "heap", anchor)
        vals[names["begin"]], vals[names["end"]], vals[names["parent"]] = order[0], order[-1], r
        vals[names["size"]] = con(len(order))
        return ("s", tuple(vals))

    def match(self, E, tid, v, base, path, own, what):
        names, fs, node = self.parts(E, tid)
        if v[0] == "u":
            E.violate("C04", "the %s is left uninitialised" % what)
        if v[0] == "y":
            return
        f = v[1]
        for n, i in names.items():
            if n not in ("begin", "end", "parent", "size"):
                E.match(fs[i], f[i], None, None, own, what)
        root = Vec().alloc_root(E, f[names["allocator"]])
        size = f[names["size"]]
        if not isinstance(size, P):
            E.violate("C15", "the count of the %s is never written" % what)

        def check(p):
            b = p[1]
            if b[0] != "B" or b not in E.st.blk:
                E.violate("C02", "the %s keeps a node that was given back" % what)
            if b in E.ownblk:
                E.violate("C02", "a node is reached twice in the %s" % what)
            E.ownblk.add(b)
            if E.st.blk[b]["alloc"] != root and root != ("none",):
                E.violate("C02", "the %s holds a node of a different allocator" % what)

        if not is_ptr(E.asptr(f[names["parent"]])):
            E.violate("C04", "the root link of the %s is never written" % what)
        ns = self.inorder(E, f[names["parent"]], node, check)
        E.check_eq(size - len(ns), "C15", "the count of the %s differs from the number of nodes linked" % what)
        for nm, want in (("begin", 0), ("end", -1)):
            q = E.asptr(f[names[nm]])
            if not is_ptr(q):
                E.violate("C04", "an end of the %s is never written" % what)
            if q[1] is not None and q[1][0] == "B" and q[1] not in E.st.blk:
                E.violate("C02", "the %s keeps a node that was given back" % what)
            if ns and q[1] != ns[want][0]:
                E.violate("C31", "the %s of the %s is not its %s node" % (nm, what, "first" if want == 0 else "last"))
            if not ns and q[1] is not None and q[1][0] == "B":
                E.violate("C31", "the %s of the empty %s designates a node" % (nm, what))
        pair = self.nodeparts(E, node)
        for b, pv in ns:
            E.hold_content(ZERO, ONE, E.to_content(pv), pair[1][pair[0]["pair"]], what)


class TreeIterBase(Nodes):
    def parts(self, E, tid):
        names, fs = members(E, tid, ("node", "anchor"))
        return names, fs, self.node_of(E, fs[names["node"]])


@shape("internal::rb_tree::iter::Iter", "internal::rb_tree::iter::IterMut")
class TreeIter(TreeIterBase):
    def make(self, E, tid, name, own, loc):
        if not E.small:
            E.instances = True
            raise Undecided("explicit instances only")
        T = E.T
        names, fs, node = self.parts(E, tid)
        nn, nf, npc, raw = self.nodeparts(E, node)
        b = ("R", (name, "anchor"))
        anchor = ("p", b, (), None)
        E.st.oty[b] = node
        E.st.misc[("even", b)] = True
        v = [UNIT] * len(nf)
        v[nn["pair"]] = U
        pc = [UNIT] * npc
        k = E.choose(len(TALL) + 2)
        here = anchor
        if k >= len(TALL):
            x = NULL if k == len(TALL) else anchor
            v[nn["right"]] = v[nn["left"]] = x
            pc[raw] = ZERO
            here = x
        else:
            order, r = self.build(E, name, node, TALL[k], ("none",), False, "ext", anchor)
            v[nn["right"]], v[nn["left"]] = order[0], order[-1]
            pc[raw] = E.addr(r)
            i = E.choose(len(order) + 1)
            here = order[i] if i < len(order) else anchor
        v[nn["parent"]] = ("s", tuple(pc))
        E.st.mem[b] = ("s", tuple(v))
        f = [UNIT] * len(fs)
        f[names["node"]] = here
        f[names["anchor"]] = anchor
        return ("s", tuple(f))

    def match(self, E, tid, v, base, path, own, what):
        names, fs, node = self.parts(E, tid)
        if v[0] != "s":
            return
        for n in ("node", "anchor"):
            q = E.asptr(v[1][names[n]])
            if q[1] is not None and q[1][0] == "B" and q[1] not in E.st.blk:
                E.violate("C06", "the %s of the iterator was given back" % n)


@view("internal::rb_tree::RBTree")
def tree(E, tid, v, base=None, path=()):
    names, fs, node = Tree().parts(E, tid)
    ns = Tree().inorder(E, v[1][names["parent"]], node)
    return ("tree", tuple((E.field(x, 0), E.field(x, 1)) for _, x in ns), v[1][names["size"]])


@view("internal::rb_tree::iter::Iter", "internal::rb_tree::iter::IterMut")
def treeiter(E, tid, v, base=None, path=()):
    """the entries from the position of the iterator to the end, by the shape of the tree"""
    I = TreeIter()
    names, fs, node = I.parts(E, tid)
    nn, nf, npc, raw = I.nodeparts(E, node)
    a, at = I.target(E, v[1][names["anchor"]], node), I.target(E, v[1][names["node"]], node)
    if a is None:
        return None
    if at is None or at == a:
        return ("seq", ())
    if a[1] == ():
        x = E.load(a[0], ())
        r = x[1][nn["parent"]][1][raw]
        r = E.int2ptr(r) if isinstance(r, P) else r
    else:
        # the anchor inside a tree
        t = E.st.oty.get(a[0])
        x, tt = E.load(a[0], a[1][:-1]), E.typeof(a[0], a[1][:-1])
        tn, _, _ = Tree().parts(E, tt)
        if a[1][-1] != ("f", tn["begin"]):
            return ("seq", None)
        r = x[1][tn["parent"]]
    ns = I.inorder(E, r, node)
    for i, (b, p) in enumerate(ns):
        if b == at[0]:
            return ("seq", tuple((E.field(y, 0), E.field(y, 1)) for _, y in ns[i:]))
    return None
