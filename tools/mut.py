#!/usr/bin/env python3
"""tools/mut.py MUTANTS PREFIXES [name...]: apply each mutant to a scratch copy and show what the interpreter reports.
MUTANTS: blocks '## name tags' then '@@@@ file\\nold\\n====\\nnew'; tags 'QUIET' = nothing may be reported"""
import os, re, subprocess, sys
from multiprocessing.pool import ThreadPool
txt = open(sys.argv[1]).read()
pre = sys.argv[2]
only = [x for x in sys.argv[3:] if x != "-v"]

def one(job):
    n, name, prop, body = job
    R = "/tmp/mutrepo%d" % n
    W = "/tmp/mutwork%d" % n
    os.makedirs(R, exist_ok=True)
    os.makedirs(W, exist_ok=True)
    env = dict(os.environ, EASTL_REPO=R, EASTL_WORK=W)
    subprocess.run("rsync -a --delete --exclude target --exclude .git /repo/ %s/ 2>/dev/null || (rm -rf %s/src && cp -r /repo/src /repo/Cargo.* %s/)" % (R, R, R), shell=True, check=True)
    for blk in re.split(r"^@@@@ ", body, flags=re.M)[1:]:
        f, _, rest = blk.partition("\n")
        old, new = rest.split("\n====\n") if "\n====\n" in rest else (rest[:rest.index("\n====")], "")
        new = new.rstrip("\n")
        p = os.path.join(R, f.strip())
        s = open(p).read()
        if s.count(old) < 1:
            return "%s PATTERN NOT FOUND in %s" % (name, f)
        open(p, "w").write(s.replace(old, new, 1))
    if pre == "own" and "QUIET" not in prop:
        pre1 = "check:" + prop
    else:
        pre1 = pre
    if pre1.startswith("check:"):
        # a whole check; run from a copy, as it rewrites its evidence
        V = "/tmp/mutverif%d" % n
        subprocess.run("mkdir -p %s && rsync -a --delete --exclude .git --exclude evidence --exclude target --exclude seeded /verif/ %s/ 2>/dev/null || (rm -rf %s && mkdir -p %s && cp -r /verif/* %s/)" % (V, V, V, V, V), shell=True, check=True)
        for c in pre1[6:].split(","):
            r = subprocess.run([sys.executable, "-m", "eastlint.check", c], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if "VIOLATION" in r.stdout:
                break
        tags = set(re.findall(r"^VIOLATION property=(C\d+)", r.stdout, re.M))
        want = set(prop.split(","))
        good = (not tags and r.returncode == 0 if "QUIET" in want else want & tags)
        txt = r.stdout.strip().split("\n")
        return "\n".join(["%-28s %-8s %s %s" % (name, prop, "OK  " if good else "MISS", " ".join(sorted(tags)))] + (["      " + l[:300] for l in txt] if not good or "-v" in sys.argv else []))
    if pre == "refac":
        # everything: one run of all roots, and the checks which do not use it
        V = "/tmp/mutverif%d" % n
        subprocess.run("mkdir -p %s && rsync -a --delete --exclude .git --exclude evidence --exclude target --exclude seeded /verif/ %s/ 2>/dev/null || (rm -rf %s && mkdir -p %s && cp -r /verif/* %s/)" % (V, V, V, V, V), shell=True, check=True)
        out = []
        c = subprocess.run("cargo check -q --offline 2>&1 | grep -A6 ^error | head -20", shell=True, cwd=R, stdout=subprocess.PIPE, text=True, env=dict(env, CARGO_TARGET_DIR="/tmp/mutcargo"))
        out += c.stdout.split("\n")[:12] if c.stdout.strip() else []
        r = subprocess.run([sys.executable, "-m", "eastlint.ai.run"], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ls = r.stdout.strip().split("\n")
        out += [l for l in ls if "FINDING" in l or "undecided" in l or "rror" in l] + ls[-1:]
        for pid in "C06 C07 C08 C09 C19 C21 C26 C22 C32 C33".split():
            r = subprocess.run([sys.executable, "-m", "eastlint.check", pid], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode or "VIOLATION" in r.stdout:
                out += ["%s rc=%d" % (pid, r.returncode)] + r.stdout.strip().split("\n")[-6:]
        return name + "\n" + "\n".join("      " + l.strip()[:400] for l in out)
    r = subprocess.run([sys.executable, "-m", "eastlint.ai.run", "-p", pre], cwd="/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    tags = set(re.findall(r"FINDING \('(C\d+)'", r.stdout))
    want = set(prop.split(","))
    good = (not tags if "QUIET" in want else want & tags)
    out = ["%-28s %-8s %s %s" % (name, prop, "OK  " if good else "MISS", " ".join(sorted(tags)))]
    last = r.stdout.strip().split("\n")[-1]
    if not last.startswith("{"):
        out.append(r.stdout[-600:])
    if not good or "-v" in sys.argv:
        for l in r.stdout.split("\n"):
            if "FINDING" in l or "undecided" in l or "error" in l:
                out.append("       " + l.strip()[:330])
    return "\n".join(out)


jobs = []
for b in re.split(r"^## ", txt, flags=re.M)[1:]:
    head, _, body = b.partition("\n")
    name, prop = head.split()[:2]
    if only and name not in only:
        continue
    jobs.append((name, prop, body))
import queue
slots = queue.Queue()
for i in range(4):
    slots.put(i)


def go(j):
    n = slots.get()
    try:
        return one((n,) + j)
    finally:
        slots.put(n)


for x in ThreadPool(4).imap(go, jobs):
    print(x, flush=True)
