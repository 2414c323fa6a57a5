"""P39: options and their defaults. P40: owned copies."""
from .base import *
from . import adder as A, file as F, lookup as L, tree as T_
from .access import shows

P = ("P39",)
BUILDER, COLLECTOR = A.ADDER + "Builder", "file::adder::Collector"
MAX, FACTOR, LIMIT = 256 * 1024, 174, 512 * 1024


def default(l, path):
    """the body of a type's Default implementation"""
    bs = l.eng.impls.get(("core::default::Default", "default", path)) or ()
    if len(bs) != 1:
        raise Missing("default of " + path)
    return bs[0]


def factor(l, v):
    return l.field(Fld(v, (0, 0)), A.BALANCED, "branching_factor")


def parts(l, adt, v):
    return [l.field(v, adt, n) for n in ("chunker", "collector")]


def states(l, what, path, args, rule, facts=()):
    def each(x):
        if x.path.kind == "panic":
            return x.fail("%s ends in a panic" % what, props=P)
        rule(x)
    l.check(path if isinstance(path, str) else path.path, l.run(path, args, facts=facts), each)


def is_chunker(l, x, c, n, what):
    x.eq(Fld(c, (0, 0)), Int(n), what, props=P)


@spec_of("P39")
def importer_defaults(l):
    def chunker(x):
        is_chunker(l, x, x.val, MAX, "chunk size by default")

    def balanced(x):
        x.eq(l.field(x.val, A.BALANCED, "branching_factor"), Int(FACTOR), "branching factor by default", props=P)

    def collector(x):
        x.eq(factor(l, x.val), Int(FACTOR), "branching factor by default", props=P)
    states(l, "the default chunker", default(l, A.CHUNKER), [], chunker)
    states(l, "the default collector", default(l, A.BALANCED), [], balanced)
    states(l, "the default collector", default(l, COLLECTOR), [], collector)

    def both(adt):
        def rule(x):
            c, k = parts(l, adt, x.val)
            is_chunker(l, x, c, MAX, "chunk size by default")
            x.eq(factor(l, k), Int(FACTOR), "branching factor by default", props=P)
        return rule
    states(l, "a default importer", default(l, A.ADDER), [], both(A.ADDER))
    states(l, "a default builder of importers", default(l, BUILDER), [], both(BUILDER))
    states(l, "a default builder of importers", A.ADDER + "::builder", [], both(BUILDER))


@spec_of("P39")
def importer_options(l):
    c, k, n, m = Sym("chunker"), Sym("collector"), Sym("new"), Sym("factor")
    b = l.struct(BUILDER, chunker=c, collector=k)

    def with_chunker(x):
        c2, k2 = parts(l, BUILDER, x.val)
        x.eq(c2, n, "chunker that was set", props=P)
        x.eq(k2, k, "collector when a chunker is set", props=P)

    def with_collector(x):
        c2, k2 = parts(l, BUILDER, x.val)
        x.eq(c2, c, "chunker when a collector is set", props=P)
        if k2 is k:
            x.fail("the collector that was set is dropped", props=P)
        elif any(y is n for y in subterms(k2)):
            x.good()
        else:
            x.open("collector that was set", show(k2, 4)[:200])

    def built(x):
        c2, k2 = parts(l, A.ADDER, x.val)
        x.eq(c2, c, "chunker of a new importer", props=P)
        x.eq(factor(l, k2), factor(l, k), "branching factor of a new importer", props=P)
    states(l, "setting the chunker", BUILDER + "::with_chunker", [b, n], with_chunker)
    states(l, "setting the collector", BUILDER + "::with_collector", [b, n], with_collector)
    states(l, "making an importer", BUILDER + "::build", [b], built)

    def balanced(x):
        x.eq(l.field(x.val, A.BALANCED, "branching_factor"), m, "branching factor that was set", props=P)
    states(l, "setting the branching factor", A.BALANCED + "::with_branching_factor", [m], balanced, facts=[(Lt(Int(0), m), 1)])
    path = "<%s as core::convert::From<%s>>::from" % (COLLECTOR, A.BALANCED)
    if l.has_fn(path):
        states(l, "making a collector", path, [n], lambda x: x.eq(factor(l, x.val), l.field(n, A.BALANCED, "branching_factor"), "branching factor of a collector", props=P))
    a = Sym("importer")
    shows(l, A.ADDER + "::size_hint", [a], A.Adder(l, a).max, "amount of input an importer works with best", P)


@spec_of("P39")
def tree_options(l):
    def defaults(x):
        x.eq(l.field(x.val, T_.OPTS, "block_size_limit"), Some(Int(LIMIT)), "limit by default", props=P)
        x.eq(l.field(x.val, T_.OPTS, "wrap_with_directory"), FALSE, "wrapping by default", props=P)
    states(l, "the default options", default(l, T_.OPTS), [], defaults)

    def tree(x):
        x.val, v = l.field(x.val, T_.TREE, "opts"), x.val
        try:
            defaults(x)
        finally:
            x.val = v
    states(l, "a default tree", default(l, T_.TREE), [], tree)
    o, n = Sym("options"), Sym("limit")
    states(l, "a tree", T_.TREE + "::new", [o], lambda x: x.eq(l.field(x.val, T_.TREE, "opts"), o, "options of a new tree", props=P))
    lim, wrap = [l.field(o, T_.OPTS, f) for f in ("block_size_limit", "wrap_with_directory")]

    def opts(x, a, b, what):
        x.eq(l.field(x.outs[0], T_.OPTS, "block_size_limit"), a, "limit when %s is set" % what, props=P)
        x.eq(l.field(x.outs[0], T_.OPTS, "wrap_with_directory"), b, "wrapping when %s is set" % what, props=P)
    states(l, "setting a limit", T_.OPTS + "::block_size_limit", [("mut", o), n], lambda x: opts(x, n, wrap, "a limit"))
    states(l, "setting wrapping", T_.OPTS + "::wrap_with_directory", [("mut", o)], lambda x: opts(x, lim, TRUE, "wrapping"))
    b = Sym("builder")

    def start(x):
        s = T_.State(l, x.val)
        o = l.field(b, T_.TREE, "opts")
        x.eq(s.limit, l.field(o, T_.OPTS, "block_size_limit"), "limit on the size of blocks", props=P)
        x.eq(s.wrap, l.field(o, T_.OPTS, "wrap_with_directory"), "wrapping in a directory", props=P)
    states(l, "building a tree", T_.TREE + "::build", [b], start)


@spec_of("P39")
def visit_options(l):
    R = Sym("requested")
    shows(l, F.IDLE + "::with_target_range", [l.struct(F.IDLE, range=Sym("range")), R], l.struct(F.IDLE, range=Some(R)), "range that is requested", P)
    shows(l, "<%s as core::default::Default>::default" % F.IDLE, [], l.struct(F.IDLE, range=NONE), "range before one is requested", P)
