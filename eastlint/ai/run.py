"""Runs the interpreter over the entry points in parallel."""
import multiprocessing, sys, time, traceback
from .. import facts
from . import sem, shapes, trees, compat
from .core import Undecided, Dead, Fork, GenFail


def one(args):
    cfg, rid = args
    E = sem.Sem(G["F"])
    root = G["roots"][rid]
    t0 = time.time()
    status, why, n = "ok", "", 0
    try:
        if explicit(root):
            E.instances = True
            raise Undecided("explicit instances only")
        n = E.run_root(root)
    except sem.Skip as e:
        status, why = "skip", str(e)
    except Undecided as e:
        status, why = "undecided", str(e)
    except RecursionError:
        status, why = "undecided", "recursion"
    except Exception as e:
        status, why = "error", " | ".join(traceback.format_exc().strip().split("\n")[-5:])
    findings, notes, stat = E.findings, E.notes, E.stat
    if status == "undecided" or status == "ok" and (E.instances or root["path"].lstrip("<").startswith("vector_map::") and root["name"] in ("from", "from_iter")):
        # a second look at small explicit instances, whose runs are followed exactly
        E2 = sem.Sem(G["F"])
        E2.small = True
        E2.maxsteps = 400000 if root["name"] == "from_iter" and "hash" in root["path"] else 60000
        E2.maxtime = time.time() + 25
        if root["name"] == "from_iter":
            E2.MAXTURNS = 7 if "deque" in root["path"] or "queue" in root["path"] else 4 if "vector_map" in root["path"] else 3 if "hash" in root["path"] else 2
        elif root["name"] == "from" and "vector_map" in root["path"]:
            E2.MAXTURNS = 4
        try:
            m = E2.run_root(root)
        except (sem.Skip, Undecided, RecursionError) as e:
            m = -1
            stat["instances_partial"] = 1
            if SHOW:
                notes["instances: %s" % e] = 1
        except Exception as e:
            m = -1
            notes["instances: %s" % " | ".join(traceback.format_exc().strip().split("\n")[-5:])] = 1
        findings = findings + [f for f in E2.findings if f not in findings]
        if m > 0:
            stat["instance_exits"] = m
            if why != "explicit instances only":
                for k, v in E2.stat.items():
                    if k.startswith("ob:"):
                        stat[k] = stat.get(k, 0) + v
            if why == "explicit instances only":
                status, why, n = "instances", "", m
                for k, v in E2.stat.items():
                    stat[k] = v
                for k, v in E2.notes.items():
                    notes[k] = v
    return rid, status, why, n, findings, notes, stat, time.time() - t0


def explicit(root):
    """entry points that are only looked at on explicit instances"""
    p = root["path"].lstrip("<")
    if root["name"] == "from_iter":
        # the loop around a whole insertion; the insertion itself is analysed by itself
        return p.startswith(("internal::hash_table::", "internal::rb_tree::", "hash_map::", "hash_set::", "deque::", "queue::", "map::", "set::"))
    # the table underneath is analysed by itself in full generality
    return p.startswith(("hash_map::", "hash_set::")) and root["name"] in ("insert", "or_insert", "or_insert_with")


SHOW = False


G = {}


def roots_of(F):
    out = []
    for r in F.roots:
        if not r["pub"] or r["unsafe"] and not (r["name"] in ("iter", "iter_mut") and r["path"].startswith(("internal::rb_tree::", "map::", "set::"))):
            continue
        if r["name"] == "fmt" or "ops::Drop>::drop" in r["path"]:
            continue
        out.append(r)
    return out + drop_roots(F) + ctor_roots(F)


def ctor_roots(F):
    """in-place constructors: the `New` a public function returns is run; and moves of pinned values"""
    rr = {r["id"]: r for r in F.roots}
    out = []
    for c in F.ctors:
        r = rr[c["maker"]]
        if r["pub"]:
            out.append(dict(r, id=20000 + c["maker"], ctor=c, unsafe=False, path="construction by " + r["path"]))
    for r in F.roots:
        if r["name"] == "deallocate_raw_aligned" and ("fixed_pool" in r["path"] or "FixedVectorAllocator" in r["path"]):
            out.append(dict(r, id=30000 + r["id"], dealloc=r["id"], unsafe=False, path="release by " + r["path"]))
    ways = {r["path"]: r for r in F.roots if r["path"].rsplit("::", 2)[-2].rstrip(">").endswith("Allocator")}
    for p, r in ways.items():
        g = ways.get(p.rsplit("::", 1)[0] + "::de" + r["name"])
        if g and "fixed_pool" not in p:
            out.append(dict(r, id=50000 + r["id"], trip=(r["id"], g["id"]), unsafe=False, path="request and release by " + p.rsplit("::", 1)[0] + "::{%s, %s}" % (r["name"], g["name"])))
    for r in F.roots:
        if r["pub"] and r["name"].startswith("from_compat"):
            out.append(dict(r, id=40000 + r["id"], compat=r["id"], unsafe=False, path="exchange by " + r["path"]))
    for r in F.roots:
        if r["name"] == "move_new" and "MoveNew" in r["path"]:
            out.append(dict(r, id=20000 + r["id"], move=r["id"], unsafe=False, path="move by " + r["path"]))
    return out


def drop_roots(F):
    """one pseudo entry point per container type: a value of it goes out of scope"""
    out, seen = [], set()
    for i, t in enumerate(F.types):
        if t["k"] != "adt" or not t.get("local") or not t.get("needs_drop") or t["kind"] == "enum" or t["path"] in seen:
            continue
        if not all(not isinstance(a, int) or F.types[a]["k"] in ("param", "float", "int") for a in t["args"]):
            continue
        seen.add(t["path"])
        out.append({"id": 10000 + i, "drop": i, "path": "drop of " + t["path"], "name": "drop", "unsafe": False, "pub": True, "adt": t["path"]})
    return out


def run(F, ids=None, jobs=8):
    G["F"] = F
    rs = roots_of(F)
    G["roots"] = {r["id"]: r for r in F.roots + drop_roots(F) + ctor_roots(F)}
    ids = ids or [r["id"] for r in rs]
    sys.setrecursionlimit(20000)
    if jobs == 1 or len(ids) == 1:
        return [one(("release", i)) for i in ids]
    with multiprocessing.get_context("fork").Pool(jobs) as p:
        return list(p.imap_unordered(one, [("release", i) for i in ids], chunksize=1))


if __name__ == "__main__":
    F = facts.load()
    a = sys.argv[1:]
    if "-d" in a:
        sem.Sem.DEBUG = True
        a.remove("-d")
    SHOW = True
    ids = []
    for x in a:
        if "-" in x and x[0].isdigit():
            lo, hi = x.split("-")
            ids += range(int(lo), int(hi) + 1)
        elif x.isdigit():
            ids.append(int(x))
    t0 = time.time()
    if "-p" in a:
        pre = tuple(a[a.index("-p") + 1].split(","))
        pre += tuple("<" + x for x in pre)
        ids += [r["id"] for r in roots_of(F) if r["path"].replace("construction by ", "").replace("move by ", "").replace("release by ", "").replace("exchange by ", "").startswith(pre) or r.get("adt", "").startswith(pre)]
    rr = {r["id"]: r for r in F.roots + drop_roots(F) + ctor_roots(F)}
    if "ctor" in a:
        ids += [r["id"] for r in ctor_roots(F)]
    if "drop" in a:
        ids += [r["id"] for r in drop_roots(F)]
    ids = [i for i in ids if rr[i]["name"] != "fmt" and "ops::Drop>::drop" not in rr[i]["path"] and (rr[i]["pub"] or len(ids) < 4)] if ids else None
    res = run(F, ids)
    res.sort()
    tot = {}
    for rid, status, why, n, fs, notes, stat, dt in res:
        tot[status] = tot.get(status, 0) + 1
        print("%4d %-9s %4d exits %5.1fs %s %s" % (rid, status, n, dt, G["roots"][rid]["path"], why if status != "ok" else ""))
        for f in sorted(set(fs)):
            print("        FINDING", f)
        for k, v in notes.items():
            print("        note", v, k)
    print(tot, "%.1fs" % (time.time() - t0))
