"""Runs the rustc driver (/verif/driver) over /repo's current source and loads the
facts it prints.  Nothing of /repo is executed: `cargo check` is the only build step."""
import fcntl, hashlib, json, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EASTL_REPO", "/repo")
WORK = os.environ.get("EASTL_WORK", os.path.join(VERIF, ".work"))
DRIVER = os.path.join(VERIF, "driver")
DRIVER_BIN = os.path.join(DRIVER, "target", "debug", "eastl-facts")


class FactsError(Exception):
    pass


def _tree_hash(root, exts):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def _env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTC", "RUSTUP_TOOLCHAIN",
              "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise FactsError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def build_driver():
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = _tree_hash(DRIVER, (".rs", ".toml"))
        stamp = os.path.join(WORK, "driver.stamp")
        if os.path.exists(DRIVER_BIN) and os.path.exists(stamp) and open(stamp).read() == h:
            return
        _run(["cargo", "+nightly", "build", "--offline"], cwd=DRIVER, env=_env())
        with open(stamp, "w") as f:
            f.write(h)


CONFIGS = {
    # name: (features, rustflags)
    "release": ([], "-Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=off -Awarnings -Zalways-encode-mir"),
    "nightly": (["nightly"], "-Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=off -Awarnings -Zalways-encode-mir"),
}


def extract(cfg="release"):
    """Fact base of the current tree; re-extracted whenever any source byte differs."""
    build_driver()
    feats, flags = CONFIGS[cfg]
    key = hashlib.sha256((_tree_hash(REPO, (".rs", ".toml", ".lock")) + cfg + flags + _tree_hash(DRIVER, (".rs", ".toml"))).encode()).hexdigest()
    out = os.path.join(WORK, "facts-%s.json" % cfg)
    stamp = out + ".key"
    with open(os.path.join(WORK, "lock-" + cfg), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not (os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key):
            for p in (out, stamp):
                if os.path.exists(p):
                    os.remove(p)
            env = _env()
            sysroot = _run(["rustc", "+nightly", "--print", "sysroot"], env=env).strip()
            env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib") + ":" + env.get("LD_LIBRARY_PATH", "")
            env.update(FACTS_CRATE="eastl_rs", FACTS_OUT=out, FACTS_BODIES="1",
                       RUSTC_WORKSPACE_WRAPPER=DRIVER_BIN, RUSTFLAGS=flags)
            tgt = os.path.join(WORK, "tgt-" + cfg)
            # cargo's freshness cache would skip the wrapper on a warm target directory
            subprocess.run("rm -rf %s/debug/.fingerprint/eastl-rs-* %s/debug/build/eastl-rs %s/debug/incremental" % (tgt, tgt, tgt), shell=True)
            lock = os.path.join(REPO, "Cargo.lock")
            had = os.path.exists(lock)
            cmd = ["cargo", "+nightly", "check", "--lib", "--offline", "--target-dir", tgt]
            if feats:
                cmd += ["--features", ",".join(feats)]
            _run(cmd, cwd=REPO, env=env)
            if not had and os.path.exists(lock):
                os.remove(lock)
            if not os.path.exists(out):
                raise FactsError("the driver produced no facts (wrapper skipped?)")
            with open(stamp, "w") as f:
                f.write(key)
        with open(out) as f:
            return json.load(f)


class Facts:
    def __init__(self, cfg="release"):
        self.cfg = cfg
        self.raw = extract(cfg)
        self.adts = {a["path"]: a for a in self.raw["adts"]}
        self.fns = self.raw["fns"]
        self.impls = self.raw["impls"]
        self.types = self.raw["types"]
        self.insts = self.raw["insts"]
        self.roots = self.raw["roots"]
        self.ctors = self.raw.get("ctors", [])
        if len(self.adts) < 20 or len(self.fns) < 150:
            raise FactsError("fact base too small: %d types, %d functions" % (len(self.adts), len(self.fns)))


_cache = {}


def load(cfg="release"):
    if cfg not in _cache:
        _cache[cfg] = Facts(cfg)
    return _cache[cfg]
