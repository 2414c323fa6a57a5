"""Vocabulary of the analysed crate, and the registry of properties."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))

from engine import spec, vf, models, conc          # noqa: E402
from engine import terms as T                      # noqa: E402
from engine.terms import *                         # noqa: E402,F403
from engine.spec import Missing, Infeasible, Lab   # noqa: E402,F401

NODE, LINK = "pb::merkledag::PBNode", "pb::merkledag::PBLink"
DATA, TIME = "pb::unixfs::Data", "pb::unixfs::UnixTime"
UTYPE = "pb::unixfs::mod_Data::DataType"
OPT, RES = models.OPT, models.RES
U64 = (1 << 64) - 1

SPECS = []


def spec_of(*props):
    """register a group of obligations that decides (parts of) the named properties"""
    def deco(fn):
        SPECS.append((fn.__name__, props, fn))
        return fn
    return deco


def Some(x):
    return Adt(OPT, 1, [x], "Some")


NONE = models.NONE
Ok, Err = models.Ok, models.Err


class Voc:
    """terms of the crate's data, by the names in its source"""

    def __init__(self, lab):
        self.l = lab

    def node(self, block):
        return mk("msg", NODE, block)

    def node_ok(self, block):
        return mk("bool", "parses", NODE, block)

    def node_err(self, block):
        return mk("perr", NODE, block)

    def links(self, node):
        return self.l.field(node, NODE, "Links")

    def payload(self, node):
        return self.l.field(node, NODE, "Data")

    def data(self, raw):
        return mk("msg", DATA, raw)

    def data_ok(self, raw):
        return mk("bool", "parses", DATA, raw)

    def data_err(self, raw):
        return mk("perr", DATA, raw)

    def d(self, data, name):
        return self.l.field(data, DATA, name)

    def name(self, link):
        return self.l.field(link, LINK, "Name")

    def hash(self, link):
        return self.l.field(link, LINK, "Hash")

    def type_is(self, data, name):
        for v in self.l.eng.variants(UTYPE):
            if v["name"] == name:
                return Eq(drange(Discr(self.d(data, "Type")), UTYPE), Int(v["discr"]))
        raise Missing("node type " + name)


def text(x, opt):
    """the content of an optional text or byte field, empty if absent"""
    return unopt(opt) if x.some(opt) else EMPTY


def unopt(o):
    return Fld(o, (1, 0))


class Case:
    """what the flat view of a block is"""

    def __init__(self, kind, node=None, data=None, err=None):
        self.kind, self.node, self.data, self.err = kind, node, data, err


def flat(x, v, block):
    if not x.test(v.node_ok(block)):
        return Case("nodag", err=v.node_err(block))
    node = v.node(block)
    pl = v.payload(node)
    if not x.some(pl):
        return Case("nodata", node=node)
    raw = unopt(pl)
    if x.test(Eq(Len(raw), Int(0))):
        return Case("nodata", node=node)
    if not x.test(v.data_ok(raw)):
        return Case("badfs", node=node, err=v.data_err(raw))
    return Case("ok", node=node, data=v.data(raw))


# ---------------------------------------------------------------- quantified terms
class Oracle:
    """decides the conditions of a stated per-element rule, enumerating its cases"""

    def __init__(self, st, script, todo):
        self.st, self.script, self.todo, self.pos, self.conds = st, script, todo, 0, []

    def test(self, t):
        if t.op == "not":
            return not self.test(t.a[0])
        if t.op == "and":
            return all(self.test(y) for y in t.a)
        e = self.st.ev(t)
        if e is not None:
            return bool(e)
        if self.pos < len(self.script):
            v = self.script[self.pos]
        else:
            v = 1
            s2 = self.st.copy()
            if s2.assume(t, 0):
                self.todo.append(self.script[:self.pos] + (0,))
            self.script = self.script[:self.pos] + (1,)
        self.pos += 1
        if not self.st.assume(t, v):
            raise Infeasible()
        return bool(v)

    def some(self, v):
        if v.op == "adt":
            return v.a[1] == 1
        return self.test(IsSome(v))


def diagram(fn, base=None, default=FALSE):
    """canonical decision diagram of fn(oracle) -> term, on top of the facts of base"""
    todo, conjs = [()], []
    n = 0
    facts0 = base.facts if base is not None else {}
    while todo:
        script = todo.pop()
        n += 1
        if n > 5000:
            raise Exception("too many cases in a stated rule")
        st = vf.State({}, dict(facts0))
        o = Oracle(st, script, todo)
        try:
            leaf = fn(o)
        except Infeasible:
            continue
        new = {t: f for t, f in st.facts.items() if facts0.get(t) != f and not vf.junk(t)}
        conjs.append((new, leaf))
    return dd_build(conjs, default)


def lev(*ts):
    return max([level(t) for t in ts], default=-1) + 1


def bind(op, drv, fn, init=Int(0), bound=ALL, base=None, extra=(), given=None):
    """binder over the positions of the sequences drv; fn(oracle, i) gives the leaf at position i; given(oracle, i), if stated,
    is known to hold at every position"""
    if given is not None:
        def fn(o, i, fn=fn):
            return fn(o, i) if given(o, i) else dd_default(op)
    if not isinstance(drv, tuple):
        drv = (drv,)
    # the level of a binder is above those of its body: probe, then build
    k = lev(*drv, init, *extra)
    for _ in range(4):
        dd = diagram(lambda o: fn(o, Iv(k)), base, dd_default(op))
        if given is not None and dd.op == "dd":
            ls = set(x for x in dd_leaves(dd) if x is not dd_default(op))
            if len(ls) == 1 and dd is diagram(lambda o: next(iter(ls)) if given(o, Iv(k)) else dd_default(op), base, dd_default(op)):
                dd, = ls
        need = level(dd) + 1
        if need <= k or not any(t.op in BIND for t in subterms(dd)):
            break
        k = need
    return mkbind(op, drv, init, bound, dd, k)


def once(x, key, fn):
    """a stated term that does not depend on the path, on top of the facts given for the whole analysis"""
    m = x.lab.once
    k = (x.where, x.lab.nrun) + key
    r = m.get(k)
    if r is None:
        r = m[k] = fn(x.lab.base)
    return x.canon(r)


def forall(x, seq, fn, **kw):
    """fn holds for every element"""
    return x.canon(bind("allc", seq, lambda o, i: Int(1 if fn(o, At(seq, i), i) else 0), **kw))


def first(x, seq, fn, **kw):
    """position of the first element for which fn holds"""
    return x.canon(bind("first", seq, lambda o, i: Int(1 if not fn(o, At(seq, i), i) else 0), **kw))


def cache_facts(l, C, adt, field):
    """a cache, if there is one, holds an emptied buffer (which the check of the caches establishes)"""
    l.memo["cache"] = (C, adt, field)
    return [] if l.memo.get("any cache") else [(Len(l.field(unopt(C), adt, field)), 0)]
