"""The file importer: P01, P02 (files), P28, P29.

Loops in which blocks are made are looked at one turn at a time, from any state they may be in."""
from .base import *
from .codec import FLAT, Enc, VB, node_with, rename, wire
from .effects import callees
from engine.spec import Path

ADDER, ALINK, CHUNKER = "file::adder::FileAdder", "file::adder::Link", "file::adder::Chunker"
BALANCED = "file::adder::BalancedCollector"
NODEKIND = "File"


def cid_of(l, block):
    """the version 1 dag-pb sha2-256 address of a block"""
    code = "multihash::multihash_impl::Code"
    i = [j for j, v in enumerate(l.eng.variants(code)) if v["name"] == "Sha2_256"]
    if not i:
        raise Missing("hash function")
    return mk("cidv1", Int(0x70), mk("digest", Adt(code, i[0], [], "Sha2_256"), block))


def message(l, kind, **fields):
    """a UnixFS message of the given type, with nothing but the given fields"""
    none = {f[0]: NONE for f in l.eng.variants(DATA)[0]["fields"]}
    i = [j for j, y in enumerate(l.eng.variants(UTYPE)) if y["name"] == kind]
    if not i:
        raise Missing("type " + kind)
    return l.struct(DATA, **{**none, "blocksizes": EMPTY, "Type": Adt(UTYPE, i[0], [], kind), **fields})


def node_bytes(x, links, data):
    return Cat(*[f[1] for f in node_with(x, links, data)])


# ---------------------------------------------------------------- loops that make blocks
def block_loops(l, does=lambda f: f["name"] == "digest"):
    """predicate: a loop in which something is hashed"""
    e, memo = l.eng, {}

    def hashes(f):
        if does(f):
            return True
        k = f.get("body")
        if k not in memo:
            memo[k] = False
            b = e.bodies.get(k)
            memo[k] = b is not None and any(hashes(g) for g in callees(b.j))
        return memo[k]
    loops = {}

    def pred(body, h, blocks):
        k = (body.key, h)
        if k not in loops:
            loops[k] = any(hashes(f) for i in blocks for f in callees(body.blocks[i]))
        return loops[k]
    return pred


def turns(l, path, args, **kw):
    """(paths, turns): the paths of a function and the turns of its loops that make blocks"""
    e = l.eng
    e.stepfn, e.steprecs = block_loops(l), []
    e.no_overflow = True
    try:
        paths = l.run(path, args, **kw)
        recs = e.steprecs
    finally:
        e.stepfn, e.steprecs = None, []
        e.no_overflow = False
    names, states = {}, []
    for n, (p, info, backs) in enumerate(recs):
        for i, t in enumerate(info.phis):
            names[t] = Sym("%s%d_%d" % (info.what(i) if hasattr(info, "what") else "state", n, i))
    for p in paths:
        p.st = vf.State({}, vf.Facts(rename(p.st.facts, names)))
        if p.val is not None:
            p.val = subst(p.val, names)
        p.outs = [None if o is None else subst(o, names) for o in p.outs]
    out = []
    for p, info, backs in recs:
        for b in backs:
            old = [names[t] for t in info.phis]
            new = [subst(e.read_loc(b, *loc), names) for loc in info.locs]
            out.append(Turn(p, old, [subst(t, names) for t in info.inits], new, vf.State({}, vf.Facts(rename(b.facts, names)))))
    return paths, out, recs, names


class Turn(Path):
    def __init__(self, where, old, init, new, st):
        Path.__init__(self, "turn", st, None, [])
        self.fn, self.old, self.init, self.new = where, old, init, new


def added(t, i):
    """what a turn appends to the sequence at place i, or None"""
    new, old = t.new[i], t.old[i]
    if new.op == "cat" and new.a[0] is old:
        return list(new.a[1:])
    return None


def handed_out(t):
    """(place, [(cid, block)]) of what a turn hands out"""
    for i in range(len(t.old)):
        ps = added(t, i)
        es = ps and [e for p in ps if p.op == "seq" for e in p.a]
        if es and all(e.op == "tup" and len(e.a) == 2 and (e.a[0].op == "cidv1" or contains(e.a[1], lambda y: y.op == "vb")) for e in es):
            yield i, es


def emissions(ts):
    """the state in which the loops collect what they hand out"""
    made = set(t.old[i] for t in ts for i, _ in handed_out(t))
    for _ in range(3):
        made |= set(t.old[i] for t in ts for i, v in enumerate(t.new) if v in made)
    return made


def ranges(t, term):
    """parts of lists of the state that a term goes through"""
    out = []
    for y in subterms(term):
        if y.op in BIND:
            for d in y.a[0]:
                b = d
                while b.op in ("sub", "fm") and isV(b.a[0]):
                    b = b.a[0]
                if b in t.old and d not in out and d.op in ("sub", "sym"):
                    out.append(d)
    return out


def child(l, link, name):
    return l.field(link, ALINK, name)


def pblink(l, o, link):
    c = child(l, link, "target")
    h = wire.cid_bytes(c, o.test(Eq(wire.cid_version(c), Int(0))))
    return l.struct(LINK, Hash=Some(h), Name=Some(EMPTY), Tsize=Some(child(l, link, "total_size")))


def total(x, l, seq, name):
    return x.canon(bind("fsum", seq, lambda o, i: child(l, At(seq, i), name)))


def encoded_message(block):
    """the message at the end of a block"""
    p = block.a[-1] if block.op == "cat" else block
    return p.a[0] if p.op == "enc" else None


def link_block(x, l, seq):
    data = message(l, NODEKIND, filesize=Some(total(x, l, seq, "file_size")),
                   blocksizes=x.canon(bind("fm", seq, lambda o, i: Seq(child(l, At(seq, i), "file_size")))))

    def link(o, i):
        e = Enc(pblink(l, o, At(seq, i)))
        return Cat(VB(Int(18)), VB(Len(e)), e)
    return node_bytes(x, x.canon(bind("fm", seq, link)), data)


def cid_terms(t):
    return set(y for y in subterms(t) if y.op.startswith("cid") or y.op == "digest")


def blocks_in(t):
    """pairs of an address and a block"""
    return [y for y in subterms(t) if y.op == "tup" and len(y.a) == 2 and y.a[0].op == "cidv1" and contains(y.a[1], lambda z: z.op == "vb")]


class Level:
    """how the loop over one level keeps its place: what is still pending, where it goes on, where it wrote last"""

    def __init__(self, pending, place, written):
        self.pending, self.place, self.written = pending, place, written


def roles(l, t, seq):
    """(list the children are a part of, first, end)"""
    if seq.op == "sub":
        return seq.a
    return seq, Int(0), Len(seq)


def filling(l, x, t, bf, finishing, seq, new, levels):
    """the children of a link block: how many, which ones, and what is left"""
    base, i, j = roles(l, t, seq)
    count = Len(seq)
    if finishing:
        x.holds(Not(Lt(bf, count)), "links of a link block", props=("P38",))
        if not x.same(count, bf):
            x.holds(Or(Eq(count, bf), Eq(j, Len(base))), "links of a link block that is not full", props=("P38",))
    else:
        x.eq(count, bf, "links of a link block", props=("P38",))
    x.eq(child(l, new, "depth"), Add(child(l, At(base, i), "depth"), Int(1)), "level of a link block", props=("P38",))
    if base not in t.old:
        return x.open("pending links", "not part of the state")
    after = t.new[t.old.index(base)]
    if not (after.op == "upd" and after.a[0] is base and after.a[1][0] == "idx" and x.settle(after.a[2]) is new):
        return x.open("pending links", "kept in another way: " + show(after, 4)[:200])
    idx = after.a[1][1]
    places = [q for q in t.old if q is not base and contains(i, lambda y: y is q)]
    places = [q for q in places if not isopt(t, q) and not any(contains(r, lambda y: y is q) for r in places if r is not q)]
    if len(places) != 1:
        return x.open("pending links", "place in the list is kept in another way")
    x.eq(t.new[t.old.index(places[0])], j, "place where the links go on", props=("P38",))
    # the one that goes on with where the last was written
    written = [q for q, n in zip(t.old, t.new) if n.op == "adt" and n.a[3] == "Some" and len(n.a[2]) == 1 and (x.same(n.a[2][0], idx) or n.a[2][0].op in ("lin", "int") and isopt(t, q))]
    if not written:
        # not noted in this turn, but used in it
        written = [q for q in t.old if isopt(t, q) and t.init[t.old.index(q)] is NONE and x.same(idx, Add(Fld(q, (1, 0)), Int(1)))]
    if len(written) != 1:
        return x.open("pending links", "place of the last link is kept in another way")
    q = written[0]
    x.eq(t.init[t.old.index(q)], NONE, "place of the last link block when a level begins", props=("P38",))
    x.eq(t.new[t.old.index(q)], Some(idx), "place of the last link block", props=("P38",))
    if x.test(IsSome(q)):
        x.eq(idx, Add(Fld(q, (1, 0)), Int(1)), "place of a link block", props=("P38",))
    else:
        x.eq(idx, i, "place of the first link block", props=("P38",))
    levels[base] = Level(base, places[0], q)


def isopt(t, q):
    i, n = t.init[t.old.index(q)], t.new[t.old.index(q)]
    return i.op == "adt" or n.op == "adt"


def compacted(l, x, got, levels):
    """what is left of the pending links after a level"""
    ps = [v for v in levels.values() if contains(got, lambda y: y is v.pending)]
    if len(ps) != 1:
        return
    v = ps[0]
    if not x.test(IsSome(v.written)):
        return x.eq(got, v.pending, "links left when none was linked to", props=("P38",))
    end = Add(Fld(v.written, (1, 0)), Int(1))
    head = SubSeq(v.pending, Int(0), end)
    if got.op == "cat" and len(got.a) == 2 and got.a[1].op == "sub" and got.a[1].a[0] is v.pending:
        k = got.a[1].a[1]
        rest = SubSeq(v.pending, v.place, Len(v.pending))
        nxt = [y for y in subterms(k) if y.op == "first" and y.a[0] == (rest,)]
        want = Cat(head, SubSeq(v.pending, Add(v.place, nxt[0]) if nxt else v.place, Len(v.pending)))
        return x.eq(got, want, "links left", props=("P38",))
    if x.st.ev(Lt(end, Len(v.pending))) == 0:
        return x.eq(got, v.pending, "links left of a level", props=("P38",))
    return x.eq(got, head, "links left of a level", props=("P38",))


def turn_rule(l, made, finishing=False, bf=None, levels=None):
    def rule(x):
        t = x.path
        out = dict(handed_out(t))
        for i, v in enumerate(t.old):
            if i in out or v not in made:
                continue
            es = [e for e in blocks_in(t.new[i]) if e not in blocks_in(v)]
            if es:
                # handed out, but not after what was handed out before
                x.eq(t.new[i], Cat(v, Seq(*es)), "order of the link blocks", props=("P02",))
            elif t.new[i] is v and not out:
                for k in links_in(t.new, t.old):
                    if contains(child(l, k, "target"), lambda y: y.op == "digest" and contains(y, lambda z: z.op == "enc")):
                        x.fail("a link block is linked to but not handed out", props=("P02",))
        for i, es in out.items():
            for e in es:
                cid, block = [x.settle(y) for y in e.a]
                x.eq(cid, cid_of(l, block), "address of a link block", props=("P01",))
                wants = [(r, link_block(x, l, r)) for r in ranges(t, block)]
                hit = [r for r, w in wants if x.same(block, w)]
                if not wants:
                    x.open("bytes of a link block", "its children are not a part of a list: " + show(block, 5)[:300])
                    continue
                if not hit:
                    x.eq(block, wants[0][1], "bytes of a link block", props=("P29",))
                    if cid_terms(block) != cid_terms(wants[0][1]):
                        x.eq(block, wants[0][1], "addresses in a link block", props=("P01",))
                else:
                    x.good()
                seq = (hit or [wants[0][0]])[0]
                for new in links_in(t.new, t.old):
                    new = x.settle(new)
                    x.eq(child(l, new, "target"), cid, "address by which a link block is linked to", props=("P01",))
                    x.eq(child(l, new, "file_size"), total(x, l, seq, "file_size"), "file size of a link block", props=("P29",))
                    x.eq(child(l, new, "total_size"), Add(total(x, l, seq, "total_size"), Len(block)), "total size of a link block", props=("P29",))
                    if hit and bf is not None:
                        filling(l, x, t, bf, finishing, seq, new, levels)
    return rule


def level_rule(l, levels):
    """turns that make nothing themselves: those over the levels"""
    def rule(x):
        t = x.path
        if list(handed_out(t)):
            return
        for new in t.new:
            if new not in t.old:
                compacted(l, x, new, levels)
    return rule


def links_in(terms, but=()):
    out = []
    for v in terms:
        if v not in but:
            out += [y for y in subterms(v) if y.op == "adt" and y.a[0] == ALINK and y not in out]
    return out


# ---------------------------------------------------------------- leaves
def entries(l, recs, names, emitted):
    """links to leaves, as they are when the loops begin"""
    for where, info, _ in recs:
        new = links_in([subst(t, names) for t in info.inits])
        if not new:
            continue
        p = Path("entry", vf.State({}, vf.Facts(rename(info.st0.facts, names))), None, [])

        def rule(x):
            for k in new:
                target = child(l, k, "target")
                bs = [y.a[1] for y in subterms(target) if y.op == "digest" and (y.a[1].op == "cat" or y.a[1].op == "enc")]
                if len(bs) != 1:
                    x.open("link to a leaf", "no address of a block: " + show(target, 5)[:200])
                    continue
                b = bs[0]
                x.eq(target, cid_of(l, b), "address by which a leaf is linked to", props=("P01",))
                if b not in emitted:
                    x.open("link to a leaf", "not to a block that is handed out: " + show(b, 5)[:200])
                x.eq(child(l, k, "total_size"), Len(b), "total size of a leaf", props=("P29",))
                m = encoded_message(b)
                if m is None or m.op != "adt":
                    x.open("link to a leaf", "no message in " + show(b, 5)[:200])
                    continue
                x.eq(child(l, k, "file_size"), Len(text(x, l.field(m, DATA, "Data"))), "file size of a leaf", props=("P29",))
        l.check(where, [p], rule)


def leaf_rule(x, l, item, whole):
    """what is handed out first is the leaf of the given bytes"""
    if item.op != "tup":
        return x.open("leaf", "what is handed out is not known: " + show(item, 4)[:200])
    cid, block = item.a
    x.eq(cid, cid_of(l, block), "address of a leaf", props=("P01",))
    want = message(l, NODEKIND, Data=NONE if x.test(Eq(Len(whole), Int(0))) else Some(whole), filesize=Some(Len(whole)))
    m = encoded_message(block)
    if m is not None and m.op == "adt":
        x.eq(text(x, l.field(m, DATA, "Data")), whole, "content of a leaf", props=("P28",))
    else:
        x.eq(block, node_bytes(x, EMPTY, want), "bytes of a leaf", props=("P28",))
    x.eq(block, node_bytes(x, EMPTY, want), "bytes of a leaf", props=("P29",))


class Adder:
    def __init__(self, l, v):
        self.buffer, self.links, self.chunker = [l.field(v, ADDER, n) for n in ("block_buffer", "unflushed_links", "chunker")]
        self.max = Fld(self.chunker, (0, 0))
        self.branching = l.field(Fld(l.field(v, ADDER, "collector"), (0, 0)), BALANCED, "branching_factor")


class Out:
    """what a call hands out: perhaps a leaf, then the link blocks"""

    def __init__(self, x, got, made):
        ps = list(got.a) if got.op == "cat" else [] if got is EMPTY else [got]
        self.leaf = ps[0].a[0] if ps and ps[0].op == "seq" and ps[0].a else None
        rest = ps[1:] if self.leaf is not None else ps
        if self.leaf is not None and len(ps[0].a) > 1:
            rest = [Seq(*ps[0].a[1:])] + rest
        self.links = None
        if not rest:
            x.good()
        elif len(rest) == 1 and rest[0] in made:
            self.links = rest[0]
            x.good()
        elif len(rest) == 2 and rest[0] in made and rest[1].op == "seq" and len(rest[1].a) == 1 and self.leaf is None:
            # the leaf comes after the link blocks
            self.leaf, self.links = rest[1].a[0], rest[0]
            x.eq(got, Cat(rest[1], rest[0]), "order of the blocks", props=("P02",))
        elif len(rest) == 1 and rest[0].op == "rev" and rest[0].a[0] in made:
            x.eq(rest[0], rest[0].a[0], "order of the link blocks", props=("P02",))
        else:
            x.open("blocks handed out", show(got, 4)[:200])


def leaves_of(paths):
    """blocks that are handed out on some path, outside of the loops"""
    return set(y.a[1] for p in paths if p.val is not None for y in subterms(p.val) if y.op == "tup" and len(y.a) == 2)


@spec_of("P01", "P02", "P28", "P29", "P38")
def push(l):
    a, inp = Sym("adder"), Sym("input")
    A = Adder(l, a)
    path = ADDER + "::push"
    paths, ts, recs, names = turns(l, path, [("mut", a), inp], facts=[(Lt(Len(A.buffer), A.max), 1)], collect=((0, 0),))
    made = emissions(ts)

    def rule(x):
        if x.path.kind == "panic":
            return
        got, n = Fld(x.val, (0, 0)), Fld(x.val, (0, 1))
        after = Adder(l, x.outs[0])
        if not x.test(Not(Lt(Len(inp), n))):
            return x.fail("more is reported as consumed than was pushed", props=("P28",))
        whole = Cat(A.buffer, SubSeq(inp, Int(0), n))
        if x.test(Lt(Len(whole), A.max)):
            x.eq(got, EMPTY, "blocks before a chunk is complete", props=("P28",))
            x.eq(after.buffer, whole, "buffer after a push", props=("P28",))
            if x.test(Lt(Int(0), Len(inp))):
                x.holds(Lt(Int(0), n), "taking something of the input", props=("P28",))
            return
        x.eq(Len(whole), A.max, "length of a chunk", props=("P28",))
        o = Out(x, got, made)
        if o.leaf is None:
            return x.eq(got, Seq(mk("tup", cid_of(l, EMPTY), EMPTY)), "blocks when a chunk is complete", props=("P28",))
        leaf_rule(x, l, o.leaf, whole)
        x.eq(after.buffer, EMPTY, "buffer after a leaf", props=("P28",))
    l.check(path, paths, rule)
    levels = {}
    l.check(path, ts, turn_rule(l, made, False, A.branching, levels))
    l.check(path, ts, level_rule(l, levels))

    def left(x):
        if x.path.kind != "panic":
            compacted(l, x, Adder(l, x.outs[0]).links, levels)
    l.check(path, paths, left)
    entries(l, recs, names, leaves_of(paths))


@spec_of("P01", "P02", "P28", "P29", "P38")
def finish(l):
    a = Sym("adder")
    A = Adder(l, a)
    path = ADDER + "::finish"
    paths, ts, recs, names = turns(l, path, [a], collect=())
    made = emissions(ts)
    # the list of links that goes with what a loop hands out
    pending = {}
    for _, info, _ in recs:
        for p, t in zip(info.phis, info.inits):
            if contains(t, lambda y: y is A.links) and not contains(t, lambda y: y.op == "phi"):
                pending.update({names[q]: names[p] for q in info.phis if names[q] in made})

    def rule(x):
        if x.path.kind == "panic":
            return
        o = Out(x, x.val, made)
        if o.links in pending:
            # a link block is in no list any more when another one links to it: the last one handed out is the one that is left
            x.holds(Eq(Len(pending[o.links]), Int(1)), "a single link is left when finishing", props=("P02",))
        if x.test(And(Eq(Len(A.buffer), Int(0)), Lt(Int(0), Len(A.links)))):
            if o.leaf is not None:
                x.fail("a leaf without content", props=("P28",))
        elif o.leaf is None:
            x.eq(x.val, Seq(mk("tup", cid_of(l, EMPTY), EMPTY)), "blocks when finishing", props=("P28",))
        else:
            leaf_rule(x, l, o.leaf, A.buffer)
    l.check(path, paths, rule)
    levels = {}
    l.check(path, ts, turn_rule(l, made, True, A.branching, levels))
    l.check(path, ts, level_rule(l, levels))
    entries(l, recs, names, leaves_of(paths))


@spec_of("P28")
def begin(l):
    """a new importer has nothing buffered"""
    def rule(x):
        if x.path.kind != "panic":
            n = Adder(l, x.val)
            x.eq(n.buffer, EMPTY, "buffer of a new importer", props=("P28",))
            x.eq(n.links, EMPTY, "links of a new importer", props=("P28",))
    b = Sym("builder")
    l.check(ADDER + "Builder::build", l.run(ADDER + "Builder::build", [b]), rule)
    for d in l.eng.impls.get(("core::default::Default", "default", ADDER)) or ():
        l.check(d.path, l.run(d, []), rule)
