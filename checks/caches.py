"""Reused caches: either every cache that is handed back holds no contents, or contents do not matter."""
from .base import *
from . import file as F, lookup as L, walk as W

GROUPS = ((("dir::sharded_lookup::Cache", "buffer"), (L.resolve, L.lookup_continue)),
          ((F.CACHE, "inner"), (F.visit_continue, W.walk_root) + tuple(W.NESTED) + (W.walk_file,)))


def emptied(x):
    """a cache that is handed back holds no contents"""
    if x.path.kind == "panic":
        return
    l = x.lab
    C, adt, field = l.memo["cache"]
    for i, a in enumerate(l.lastargs):
        if not isinstance(a, tuple) or a[1] is not C:
            continue
        out = x.outs[i]
        if out is C or not x.some(out):
            x.good()
            continue
        x.holds(Eq(Len(l.field(unopt(out), adt, field)), Int(0)), "cache that is handed back holds contents")


def made(l, adt, field):
    """functions that make a cache out of other values"""
    for b in list(l.eng.bodies.values()):
        if b.types[b.j["locals"][0]].get("adt") != adt or b.argc > 1 or not b.local:
            continue
        paths = l.run(b.path, [Sym("arg%d" % i) for i in range(b.argc)])
        l.check(b.path, paths, lambda x: x.path.kind == "panic" or x.holds(Eq(Len(l.field(x.val, adt, field)), Int(0)), "cache that is made holds contents"))


def group(l, cache, users):
    undecided = len(l.undecided)
    stats = {k: v for k, v in l.stats.items() if k != "functions"}
    l.override = emptied
    try:
        for fn in users:
            fn(l)
        l.override = None
        made(l, *cache)
    finally:
        l.override = None
    if not l.pending and len(l.undecided) == undecided:
        return
    # some cache may hold contents: no result may depend on them
    del l.undecided[undecided:]
    l.pending.clear()
    l.stats.update(stats)
    l.memo["any cache"] = l.every = True
    try:
        for fn in users:
            fn(l)
        l.flush()
    finally:
        l.memo["any cache"] = l.every = False


@spec_of("P14")
def caches(l):
    for cache, users in GROUPS:
        group(l, cache, users)
