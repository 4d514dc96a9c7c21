"""C09: C layout of the binary-compatible types.

Oracle: layouts/expected.json, the field sequence of the EASTL counterparts (64-bit), written down
per type as an ordered list of C members; the expected offsets are *computed* from it with the C
layout algorithm for every stand-in instantiation, and compared with what rustc computes."""
import json, os
from . import facts, sigs
from .sigs import walk, PHANTOM
from .report import Result

TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "expected_layouts.json")


def align_up(x, a):
    return (x + a - 1) // a * a


class CLayout:
    """C struct layout over the expected member table"""

    def __init__(self, table, env):
        self.t, self.env = table, env

    def member(self, m):
        """-> (size, align, [(relative name, off, size)])"""
        k = m["t"]
        if k == "ptr":
            return 8, 8, [("", 0, 8)]
        if k == "unit":
            return 0, 1, []
        if k in ("u8", "i8", "bool"):
            return 1, 1, [("", 0, 1)]
        if k in ("u16", "i16"):
            return 2, 2, [("", 0, 2)]
        if k in ("u32", "i32", "f32"):
            return 4, 4, [("", 0, 4)]
        if k in ("u64", "i64", "usize", "isize"):
            return 8, 8, [("", 0, 8)]
        if k.startswith("param:"):
            name = k[6:]
            s, a, l = self.env[name]
            return s, a, l
        if k == "pair":
            return self.fields([dict(m["a"], n="0"), dict(m["b"], n="1")])
        if k == "array":
            s, a, _ = self.member(m["of"])
            return s * 3, a, [("", 0, s * 3)]
        if k == "fixedbuf":
            s, a, _ = self.member(m["of"])
            n = s * 3 + (s - 1 if a > 1 else 0)
            return n, 1, [("", 0, n)]
        if k == "opaque":
            s, a, _ = self.member(m["of"])
            return s, a, [("", 0, s)]
        if k.startswith("adt:"):
            env = {p: self.member(v) for p, v in (m.get("env") or {}).items()}
            return CLayout(self.t, env).fields(self.t[k[4:]]["fields"])
        raise KeyError(k)

    def fields(self, ms):
        off, al, leaves = 0, 1, []
        for m in ms:
            s, a, l = self.member(m)
            off = align_up(off, a)
            for n, o, z in l:
                leaves.append((m["n"] + ("." + n if n else ""), off + o, z))
            off += s
            al = max(al, a)
        return align_up(off, al), al, leaves


def standin_env(F, adt, lay):
    """param -> (size, align) for this instantiation, from the recorded stand-ins"""
    size = {"u8": (1, 1), "u16": (2, 2), "u32": (4, 4), "u64": (8, 8), "[u16; 5]": (10, 2), "[u64; 3]": (24, 8)}
    env = {}
    used = {p["param"]: size[p["ty"]] for p in lay["params"]}
    for g in adt["generics"]:
        if g["kind"] != "ty":
            continue
        env[g["name"]] = used.get(g["name"], (1, 1) if lay["alloc"] == 0 else (4, 4))
    return env


def base_name(n):
    return n.split(".")[-1]


def leaf_sig(lay):
    return [(x.get("name", "").lstrip("."), x["off"], x["size"]) for x in lay["leaves"] if x.get("size")]


def compute_expected(F, table, adt, lay, entry):
    env = standin_env(F, adt, lay)
    # map expected parameter positions to the current parameter names
    tps = [g["name"] for g in adt["generics"] if g["kind"] == "ty"]
    penv = {p: env[c] + ([("", 0, env[c][0])],) for p, c in zip(entry["params"], tps)}
    return CLayout(table, penv).fields(entry["fields"])


def c09(tier):
    res = Result()
    table = json.load(open(TABLE))
    for cfg in ("release", "nightly"):
        F = facts.load(cfg)
        S = sigs.Sigs(F)
        found = {}
        for name, entry in table.items():
            if entry.get("cfg") and entry["cfg"] != cfg:
                continue
            a = F.adts.get(name)
            if a is None:
                c = [x for x in F.adts if x.split("::")[-1] == name.split("::")[-1] and x.split("::")[0] == name.split("::")[0]]
                c = [x for x in c if x not in table]
                a = F.adts[c[0]] if len(c) == 1 else None
            if a is None:
                res.notes.append("%s: not found in the current source (%s)" % (name, cfg))
                continue
            found[name] = a
        res.count("binary_compatible_types", len(found))
        for name, a in sorted(found.items()):
            entry = table[name]
            if entry.get("kind") == "enum":
                ds = [(v["name"], v["discr"]) for v in a["variants"]]
                lay = [l for l in F.raw["layouts"] if l["adt"] == a["path"]]
                ok = a["repr_c"] or "int: Some" in a["repr"]
                ok2 = all(l["size"] == entry["size"] for l in lay)
                names = [d[0] for d in ds]
                ok3 = names == entry["variants"] or set(names) != set(entry["variants"])
                res.oblig(ok and ok2 and ok3)
                if not (ok and ok2 and ok3):
                    res.add("enum:" + name, a["span"], "C09 enum representation", "%s: variants %s, sizes %s, repr %s; expected %s of %d bytes" % (name, ds, sorted({l["size"] for l in lay}), "C" if a["repr_c"] else "Rust", entry["variants"], entry["size"]))
                continue
            nz = [f for v in a["variants"] for f in v["fields"] if f["ty"].get("path") != PHANTOM]
            crepr = a["repr_c"] or (a["repr_transparent"] and len(nz) <= 1)
            res.oblig(crepr)
            if not crepr:
                res.add("repr:" + name, a["span"], "C09 C representation", "%s has no #[repr(C)]: the compiler may place its fields anywhere" % name)
            if a["repr_packed"] or a["repr_align"]:
                res.add("repr:" + name, a["span"], "C09 C representation", "%s is packed or over-aligned" % name)
            tps = [g["name"] for g in a["generics"] if g["kind"] == "ty"]
            if len(tps) != len(entry["params"]):
                res.notes.append("%s: type parameters changed (%s), offsets not compared" % (name, tps))
                continue
            for lay in F.raw["layouts"]:
                if lay["adt"] != a["path"]:
                    continue
                es, ea, el = compute_expected(F, table, a, lay, entry)
                got = leaf_sig(lay)
                el = [x for x in el if x[2]]
                res.count("layouts_compared")
                ok = [(o, s) for _, o, s in got] == [(o, s) for _, o, s in el] and es == lay["size"] and ea == lay["align"]
                gn, en = [n for n, _, _ in got], [n for n, _, _ in el]
                order = True
                if sorted(gn) == sorted(en) and gn != en:
                    order = False
                gb, eb = [base_name(n) for n in gn], [base_name(n) for n in en]
                if len(set(gb)) == len(gb) and sorted(gb) == sorted(eb) and gb != eb:
                    order = False
                res.oblig(ok)
                res.oblig(order)
                if not ok:
                    diff = next(((g, e) for g, e in zip(got + [("-", -1, 0)], el + [("-", -1, 0)]) if g[1:] != e[1:]), None)
                    res.add("layout:" + name, a["span"], "C09 field offsets", "%s with %s: size %d align %d, EASTL counterpart has size %d align %d%s" % (
                        name, lay["stand_in"], lay["size"], lay["align"], es, ea, "; first difference: %s at %s(+%s), expected %s at %s(+%s)" % (diff[0] + diff[1]) if diff else ""))
                elif not order:
                    res.add("order:" + name, a["span"], "C09 field order", "%s: fields are in the order %s, its EASTL counterpart has %s" % (name, gn, en))
                else:
                    res.sample("%s %s: %d leaves, %d bytes" % (name, lay["stand_in"], len(got), es))
    res.floor("binary_compatible_types", 30, "C09")
    res.floor("layouts_compared", 300, "C09")
    res.assumptions.append("rustc keeps the field order of two-element tuples (used for key/value pairs); the offsets of the pairs are compared on every stand-in instantiation of this run")
    res.assumptions.append("x86-64 layout")
    return res
