"""Bucket arrays of hash tables.

A run of entries nothing is known about individually is one segment of content ("h", kind, total): each entry heads a
list of nodes (possibly none), `total` nodes altogether.  Reading or writing one entry singles it out.
kind = ("hk", node type, allocator, "heap"|"ext", fault): `fault` is () or says that some node is known to sit in the wrong bucket."""
from .poly import P, con, ZERO, ONE, ISIZE_MAX, _atom_name, _atom_lo, atoms_any, lower
from .core import U, UNIT, NULL, Dead, Undecided, INST, UID
from .chains import ChainEngine, front, back, isch, is_ptr, contains

MAXWORD = (1 << 64) - 1
SENTINEL = ("p", None, (con(MAXWORD),), None)
JUNK = ("j",)


def soup(c):
    return c[0] == "h"


def is_null(v):
    return is_ptr(v) and v[1] is None and v[2][0] == 0


class SlotEngine(ChainEngine):
    # ------------------------------------------------------------ statics
    def static(self, k):
        name = str(k["static"])
        base = ("G", name)
        if base not in self.st.mem:
            for s in self.F.raw.get("statics", ()):
                if s["path"] == name and s["ty"].startswith("[usize;") and s.get("bytes"):
                    bs = s["bytes"]
                    ws = [sum(b << (8 * j) for j, b in enumerate(bs[i:i + 8])) for i in range(0, len(bs), 8)]
                    self.st.mem[base] = ("a", tuple((con(i), con(i + 1), ("v", con(w))) for i, w in enumerate(ws)))
                    ts = [i for i, t in enumerate(self.F.types) if t["s"] == s["ty"]]
                    self.st.oty[base] = ts[0] if ts else ("arr", self.usize)
        return super().static(k)

    def asptr(self, v):
        if isinstance(v, P) and v.const() is not None:
            return ("p", None, (v,), None)
        return super().asptr(v)

    # ------------------------------------------------------------ singling out entries
    def content_at(self, c, rel):
        if c[0] == "h":
            return c
        return super().content_at(c, rel)

    def norm(self, segs):
        if any(c[0] == "h" for _, _, c in segs):
            out = []
            for lo, hi, c in segs:
                if c[0] == "h" and (lo == hi or self.ent(lo - hi)):
                    self.fact(-c[2])
                    if lo != hi:
                        out.append((lo, hi, c))
                    continue
                if out and c[0] == "h" and out[-1][2][0] == "h" and out[-1][2][1] == c[1]:
                    out[-1] = (out[-1][0], hi, ("h", c[1], out[-1][2][2] + c[2]))
                    continue
                out.append((lo, hi, c))
            segs = tuple(out)
        return super().norm(segs)

    def shift(self, c, d):
        if c[0] == "h":
            raise Undecided("a run of buckets is split")
        return super().shift(c, d)

    def slot_of(self, base, path):
        """segment list the address of one entry of a bucket array lies in"""
        if base is None or not path or path[-1][0] != "i":
            return None
        v = self.st.mem.get(base)
        if v is None or v[0] != "a" or len(path) != 1:
            return None
        if not any(c[0] == "h" for _, _, c in v[1]):
            return None
        return v[1]

    def load(self, base, path):
        if self.slot_of(base, path) is not None:
            self.single(base, path)
        return super().load(base, path)

    def store(self, base, path, val):
        if self.slot_of(base, path) is not None:
            self.single(base, path)
        return super().store(base, path, val)

    def single(self, base, path):
        segs = self.slot_of(base, path)
        idx = path[-1][1]
        n = segs[-1][1]
        self.check(n - 1 - idx, "C12", "a bucket beyond the end of the bucket array is used")
        self.check(idx, "C12", "a bucket before the start of the bucket array is used")
        for j, (lo, hi, c) in enumerate(segs):
            if j == len(segs) - 1 or self.gef(hi - 1 - idx):
                break
        if c[0] != "h":
            return
        kind, tot = c[1], c[2]
        new = []
        left = ZERO
        if not self.is_eq(idx - lo):
            left = self.fresh("hl")
            new.append((lo, idx, ("h", kind, left)))
        single = self.is_eq(hi - idx - 1)
        if single:
            m = tot - left
            self.fact(m)
        else:
            m = self.fresh("hm")
        name = ("bk", "%d" % self.st.ctr) if not single else ("bk", "s%d" % self.bump())
        right = tot - left - m
        self.fact(right)
        el = kind[1]
        if kind[3] == "heap":
            self.acquire(name, el, ZERO, m)
        self.st.misc[("slot", name)] = (idx, self.modulus(base), kind[4])
        cid = self.new_chain(((ZERO, m, ("q", name, ZERO, el)),), None, NULL, ("ch", el, kind[2], kind[3]), cid="k" + name[1])
        new.append((idx, idx + 1, ("v", front(cid))))
        if not single:
            new.append((idx + 1, hi, ("h", kind, right)))
        self.st.mem[base] = ("a", self.norm(tuple(segs[:j]) + tuple(new) + tuple(segs[j + 1:])))

    def bump(self):
        self.st.ctr += 1
        return self.st.ctr

    def modulus(self, base):
        """number of buckets an array stands for (its last entry is the sentinel)"""
        if base in self.st.blk:
            return self.st.blk[base].get("n", ZERO) - 1
        return self.st.misc.get(("modulus", base), ZERO)

    # ------------------------------------------------------------ folding
    def bucket_arrays(self):
        out = []
        for b, v in self.st.mem.items():
            if b[0] not in ("B", "R") or not isinstance(v, tuple) or v[0] != "a":
                continue
            t = self.st.oty.get(b)
            if not isinstance(t, tuple) or t[0] != "arr":
                continue
            p = self.T[self.T.strip(t[1])]
            if p["k"] == "ptr" and self.is_table_node(p["t"]):
                out.append(b)
        return out

    def is_table_node(self, tid):
        t = self.T[self.T.strip(tid)]
        if t["k"] != "adt" or "hash_table" not in t.get("path", ""):
            return False
        ni = self.nodeinfo(self.T.strip(tid))
        return ni is not None and ni["prev"] is None and len(ni["content"]) > 1

    def loop_order(self, st):
        self.st = st
        return (1, 2) if self.bucket_arrays() else None

    def fold_tables(self, s):
        self.st = s
        arrs = self.bucket_arrays()
        if not arrs:
            return
        for b in arrs:
            self.junk_stale(b)
        self.fold_chains()
        for b in arrs:
            self.fold_slots(b)
        self.normalise(s)
        self.spent_tokens()
        self.forget_slots()
        self.project(s)

    def project(self, s):
        """facts about quantities nothing mentions any more: only what they imply for the others is kept"""
        live = set(self.keep)
        for d in (s.mem, s.acq, s.disp, s.misc, s.blk):
            for k, v in d.items():
                atoms_any(k, live)
                atoms_any(v, live)
        for f in s.frames:
            atoms_any(tuple(x for x in f if not isinstance(x, list)), live)
        atoms_any(tuple(s.events), live)
        facts = list(s.facts)
        dead = set()
        for f in facts:
            dead |= f.atoms()
        dead -= live
        for a in sorted(dead):
            use = [f for f in facts if a in f.atoms()]
            if any(m != (a,) and a in m or m == (a,) and abs(k) != 1 for f in use for m, k in f.t):
                continue
            low = [f for f in use if ((a,), 1) in f.t] + [P((((a,), 1),), -_atom_lo[a])]
            up = [f for f in use if ((a,), -1) in f.t]
            if len(low) * len(up) > 24:
                continue
            rest = [f for f in facts if f not in use]
            for x in low:
                for y in up:
                    z = x + y
                    if not z.t:
                        if z.c < 0:
                            raise Dead()
                        continue
                    lz = lower(z)
                    if z not in rest and not (lz is not None and lz >= 0):
                        rest.append(z)
            facts = rest
        if len(facts) != len(s.facts):
            s.facts = tuple(facts)

    def slots(self, b):
        v = self.st.mem[b]
        return [(j, lo, hi, c) for j, (lo, hi, c) in enumerate(v[1]) if c[0] == "v" and is_ptr(c[1]) and c[1][1] is not None and self.is_eq(hi - lo - 1)]

    def set_slot(self, b, j, c):
        v = self.st.mem[b]
        lo, hi, _ = v[1][j]
        self.st.mem[b] = ("a", tuple(v[1][:j]) + ((lo, hi, c),) + tuple(v[1][j + 1:]))

    def own_array(self, b):
        """the array a table argument came with"""
        return any(isinstance(k, tuple) and k[0] == "tabarr" and isinstance(x, tuple) and x[1] == b for k, x in self.st.misc.items())

    def junk_stale(self, b):
        """an entry of the table's own array still naming a node that was linked elsewhere"""
        if not self.own_array(b):
            return
        for j, lo, hi, c in self.slots(b):
            p = c[1]
            gap = []
            while isch(p) and p[1][2] == "f" and ("CH", p[1][1]) in self.st.mem:
                segs, left, right, meta = self.chain(p[1][1])
                if self.refcounts([p[1]])[p[1]] != 1 or segs and not self.ent(-segs[-1][1]):
                    break
                gap.append(("CH", p[1][1]))
                p = right
            if not is_ptr(p) or p[1] is None or p[1][0] != "B":
                continue
            n = self.refcounts([p[1]])[p[1]]
            if n >= 2 and self.linked_elsewhere(p[1], b, gap):
                self.set_slot(b, j, JUNK)
                for k in gap:
                    del self.st.mem[k]

    def linked_elsewhere(self, node, b, gap):
        for o in self.bucket_arrays():
            if o != b and contains(self.st.mem[o], node):
                return True
        for o in self.node_blocks():
            if o != node and contains(self.st.mem[o], node):
                return True
        return any(k[0] == "CH" and k not in gap and contains(v, node) for k, v in self.st.mem.items() if isinstance(v, tuple))

    def fold_slots(self, b):
        st = self.st
        for j, lo, hi, c in self.slots(b):
            p = c[1]
            if p[1][0] != "CH":
                if self.tail_gap(b, j, p):
                    continue
                continue
            cid = p[1][1]
            segs, left, right, meta = self.chain(cid)
            if not is_null(right) or p[1][2] != "f":
                continue
            cnt = self.refcounts([("CH", cid, e) for e in "fb"])
            if cnt[("CH", cid, "f")] != 1 or cnt[("CH", cid, "b")]:
                continue
            fault = self.misplaced(lo, self.modulus(b), segs, meta[1])
            n = segs[-1][1] if segs else ZERO
            saved = getattr(self, "held", None)
            self.held = []
            for slo, shi, ct in segs:
                self.hold_content(slo, shi, ct, meta[1], "bucket")
            if meta[3] == "heap":
                self.consume_held(self.held)
            self.held = saved
            del st.mem[("CH", cid)]
            self.set_slot(b, j, ("h", ("hk", meta[1], meta[2], meta[3], fault), n))
        v = st.mem[b]
        segs = self.norm(v[1])
        # the sentinel's place by its usual name
        last = segs[-1][1] - 1 if segs else ZERO
        for j in range(len(segs) - 1):
            e = segs[j][1]
            if e != last and segs[j + 1][0] == e and self.is_eq(e - last):
                segs = segs[:j] + ((segs[j][0], last, segs[j][2]), (last, segs[j + 1][1], segs[j + 1][2])) + segs[j + 2:]
        own = self.own_array(b)
        # entries scattered among null ones: forget which are null
        for _ in range(4):
            i = [j for j, (_, _, c) in enumerate(segs) if c[0] == "h"]
            if not i:
                break
            j = i[0]
            lo = segs[j][0]
            pre = j > 0 and segs[j - 1][2] == ("v", NULL)
            post = j + 1 < len(segs) and segs[j + 1][2] == ("v", NULL)
            if pre and post or len(i) > 1 or (pre or post) and not own:
                kinds = [segs[x][2][1] for x in i]
                if any(k[:4] != kinds[0][:4] for k in kinds):
                    break
                fault = [k[4] for k in kinds if k[4]]
                kind = kinds[0][:4] + (fault[0] if fault else (),)
                segs = tuple((lo, hi, ("h", kind, c[2] if c[0] == "h" else ZERO) if c[0] == "h" or c == ("v", NULL) else c) for lo, hi, c in segs)
                segs = self.norm(segs)
                st.exact = False
            break
        st.mem[b] = ("a", segs)

    def tail_gap(self, b, j, p):
        """an empty run between an entry and the node it names"""
        nv = self.node_of(p[1])
        if nv is None:
            return False
        blk = self.st.blk[p[1]]
        meta = ("ch", nv[0]["tid"], blk["alloc"], blk["kind"])
        cid = self.new_chain((), None, p, meta)
        self.set_slot(b, j, ("v", front(cid)))
        return True

    def key_hash(self, c, i):
        """(hash of the key of the i-th node, place it was found in) of node content c"""
        if c[0] == "q":
            key = ((c[1], "f", 0), c[2] + i)
            return P.atom(("hash", key)), self.st.misc.get(("slot", c[1]))
        if c[0] == "v" and c[1][0] == "s":
            k = c[1][1][0]
            found = None
            if isinstance(k, tuple) and k[0] == "y" and isinstance(k[1], tuple):
                found = self.st.misc.get(("slot", k[1][0]))
            return P.atom(("hash", self.vid(k))), found
        return None, None

    def misplaced(self, idx, mod, segs, tid):
        """() when every node of the list belongs into bucket idx of mod, else what is wrong"""
        for lo, hi, c in segs:
            if self.ent(lo - hi):
                continue
            h, found = self.key_hash(c, ZERO)
            if found is not None:
                if found[2]:
                    return found[2]
                if self.is_eq(found[0] - idx) and self.is_eq(found[1] - mod):
                    continue
            if not self.is_eq(hi - lo - 1) or h is None:
                return ("unknown",) if not self.understood(idx) else ("misplaced",)
            r = P.atom(("rem", h, mod))
            if self.is_eq(idx - r):
                continue
            return ("misplaced",) if self.understood(idx) and self.understood(mod) else ("unknown",)
        return ()

    def understood(self, p):
        """made of sizes, hashes and remainders only"""
        for a in p.atoms():
            n = _atom_name[a]
            if isinstance(n, tuple) and n and n[0] in ("f2i", "trunc", "?"):
                return False
        return True

    def spent_tokens(self):
        """tokens of buckets that turned out empty or were used up"""
        st = self.st
        self.consume_held([])
        for k in [k for k in st.acq if k[0] and isinstance(k[0], tuple) and k[0][:1] == ("bk",)]:
            if k not in self.keeptok and all(self.ent(lo - hi) for lo, hi in st.acq[k]) and all(self.ent(lo - hi) for lo, hi in st.disp.get(k, ())):
                del st.acq[k]
                st.disp.pop(k, None)

    def forget_slots(self):
        st = self.st
        for k in [k for k in st.misc if isinstance(k, tuple) and k[0] == "slot"]:
            name = k[1]
            if not any(t[0] == name for t in self.keeptok) and not self.mentioned(name):
                del st.misc[k]

    def mentioned(self, name):
        st = self.st

        def has(x):
            if isinstance(x, tuple):
                return x == name or any(has(y) for y in x if isinstance(y, tuple))
            return False
        for k, v in st.mem.items():
            if has(v):
                return True
        for d in (st.acq, st.disp):
            for k in d:
                if has(k):
                    return True
        for k, v in st.misc.items():
            if k != ("slot", name) and (has(k) or has(v)):
                return True
        return False

    def vanish(self, n):
        """no entries, so no nodes"""
        if self.ent(n - 1):
            raise Dead()
        self.fact(-n)

    # ------------------------------------------------------------ giving an array back
    def before_free(self, b):
        v = self.st.mem.get(b)
        if v is None or v[0] != "a":
            return
        for lo, hi, c in v[1]:
            if c[0] == "h":
                if self.ent(lo - hi):
                    self.vanish(c[2])
                if c[1][3] == "heap" and self.maybe(c[2] - 1):
                    self.report("C02", "a bucket array is given back while its buckets still hold nodes")
                    raise Dead()
        super().before_free(b)

    # ------------------------------------------------------------ the growth policy (decided by C22)
    def rehash_policy(self, inst, args, dl):
        """Some(p), p a prime from the table, or None; one bucket always has to grow"""
        r = self.asptr(args[0])
        t = self.T[self.T.strip(inst["body"]["locals"][1])]["t"]
        names = [f[0] for f in self.T[self.T.strip(t)]["variants"][0]["fields"]]
        if "next_resize" not in names:
            return False
        path = r[2] + (("f", names.index("next_resize")),)
        bc, ec, add = [self.asint(x) for x in args[1:4]]
        nr = self.asint(self.load(r[1], path))
        self.asked(bc, ec, add)
        prime = new = None
        if self.ge(ec + add - nr - 1):
            new = self.fresh("nr")
            self.fact(con((1 << 32) - 1) - new)
            self.store(r[1], path, new)
            if self.eqz(bc - 1) or self.choose(2) == 0:
                if self.small:
                    p = con(3)
                else:
                    p = self.fresh("prime", 2)
                    self.fact(con(4294967291) - p)
                out = ("e", 1, (p,))
                prime = p
            else:
                out = ("e", 0, ())
        else:
            out = ("e", 0, ())
        self.st.misc["grow"] = self.st.misc.get("grow", ()) + ((prime, new),)
        if dl is not None:
            self.store(dl[0], dl[1], out)
        return True

    def asked(self, bc, ec, add):
        """the counts the growth policy is asked about are those of the table"""
        self.ob("C22")
        for f in reversed(self.st.frames):
            b = self.body_of(f)
            for i in range(1, b["argc"] + 1):
                t = self.T[self.T.strip(b["locals"][i])]
                if t["k"] not in ("ref", "ptr"):
                    continue
                tt = self.T[self.T.strip(t["t"])]
                if tt["k"] != "adt" or tt["path"] != "internal::hash_table::HashTable":
                    continue
                r = self.load(("L", f[UID], i), ())
                if not isinstance(r, tuple) or r[0] != "p" or r[1] is None:
                    return
                v = self.load(r[1], r[2])
                if v[0] != "s":
                    return
                names = {x[0]: j for j, x in enumerate(tt["variants"][0]["fields"])}
                if "bucket_count" not in names or "element_count" not in names:
                    return
                self.check_eq(bc - self.asint(v[1][names["bucket_count"]]), "C22", "growth is decided for another bucket count than the table's")
                self.check_eq(ec - self.asint(v[1][names["element_count"]]), "C22", "growth is decided for another element count than the table's")
                self.check(add - 1, "C22", "growth is decided for no additional element")
                return
