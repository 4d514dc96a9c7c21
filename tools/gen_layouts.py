#!/usr/bin/env python3
"""Writes eastlint/expected_layouts.json from the structured field types of the current tree.
Run by hand, once, after comparing every row with the EASTL headers' member order; the checks only read the file."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from eastlint import facts, sigs
out = {}
def conv(F, t):
    k = t["k"]
    if k in ("ptr", "ref"): return {"t": "ptr"}
    if k == "param": return {"t": "param:" + t["name"]}
    if k == "prim": return {"t": t["s"]}
    if k == "array": return {"t": "array", "of": conv(F, t["t"])}
    if k == "tuple" and not t["ts"]: return {"t": "unit"}
    if k == "tuple" and len(t["ts"]) == 2:
        return {"t": "pair", "a": conv(F, t["ts"][0]), "b": conv(F, t["ts"][1])}
    if k == "adt":
        if t["path"] == sigs.PHANTOM: return None
        if t["path"].endswith("MaybeUninit"): return {"t": "opaque", "of": conv(F, t["args"][-1])}
        if t["local"]:
            a = F.adts[t["path"]]
            env = {}
            for g, x in zip(a["generics"], t["args"]):
                if g["kind"] == "ty": env[g["name"]] = conv(F, x)
            return {"t": "adt:" + t["path"], "env": env}
    raise Exception(str(t))
for cfg in ("release", "nightly"):
    F = facts.load(cfg)
    for p, a in F.adts.items():
        if p in out: continue
        if not (a["repr_c"] or p in ("string::String", "set::Set", "string::null_terminator_allocator::NullTerminatorAllocator", "fixed_pool::Link")): continue
        if a["kind"] == "enum":
            out[p] = {"kind": "enum", "variants": [v["name"] for v in a["variants"]], "size": 4, "params": []}
            continue
        fs = []
        for f in a["variants"][0]["fields"]:
            c = conv(F, f["ty"])
            if c: fs.append(dict(c, n=f["name"]))
        if p == "fixed_list::conformant::FixedList":
            # EASTL: char mBuffer[nodeCount * nodeSize + (nodeSize - 1)]
            fs[1] = {"t": "fixedbuf", "of": {"t": "adt:list::node::ListNode", "env": {"T": {"t": "param:T"}}}, "n": "buffer"}
        out[p] = {"params": [g["name"] for g in a["generics"] if g["kind"] == "ty"], "fields": fs}
        if cfg == "nightly": out[p]["cfg"] = "nightly"
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "eastlint", "expected_layouts.json"), "w"), indent=1)
