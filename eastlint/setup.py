"""Builds the rustc driver and warms the fact base for every configuration."""
from . import facts
facts.build_driver()
for c in facts.CONFIGS:
    f = facts.load(c)
    print(c, "types=%d functions=%d instances=%d" % (len(f.adts), len(f.fns), len(f.insts)))
