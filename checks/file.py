"""Visiting a file: acceptance of blocks, content, links and their ranges."""
from .base import *
from .lookup import bad_cid, unexpected_type, cidok

FAIL, FERR = "file::FileReadFailed", "file::FileError"
VISIT, IDLE, TRAV, ENDING = "file::visit::FileVisit", "file::visit::IdleFileVisit", "file::reader::Traversal", "file::reader::Ending"
RANGE, META = "core::ops::range::Range", "Metadata"
CACHE = "file::visit::Cache"


def rng(a, b):
    return Adt(RANGE, 0, [a, b])


def start_of(r):
    return Fld(r, (0, 0))


def end_of(r):
    return Fld(r, (0, 1))


def metadata(x, v, d):
    """the metadata a UnixFS message states"""
    t = v.d(d, "mtime")
    if x.some(t):
        ut = unopt(t)
        nanos = x.lab.field(ut, TIME, "FractionalNanoseconds")
        mt = Some(mk("tup", x.lab.field(ut, TIME, "Seconds"), unopt(nanos) if x.some(nanos) else Int(0)))
    else:
        mt = NONE
    return x.lab.struct(META, mode=v.d(d, "mode"), mtime=mt)


def payload(x, v, d):
    return text(x, v.d(d, "Data"))


def file_size(x, v, c, data):
    fs = v.d(c.data, "filesize")
    return unopt(fs) if x.some(fs) else Len(data)


def selected(o, R, s, e):
    """the range s..e overlaps or touches the requested one"""
    if not o.some(R):
        return True
    r = unopt(R)
    ts, te = start_of(r), end_of(r)
    return not (o.test(Lt(te, s)) or o.test(Lt(e, ts)) or o.test(Lt(te, ts)) or o.test(Lt(e, s)))


def cut(x, data, s, e, R):
    """the part of the content at s..e that is requested"""
    if not x.some(R):
        return data
    r = unopt(R)
    ts, te = start_of(r), end_of(r)
    n = Len(data)
    lo = Int(0) if x.test(Lt(ts, s)) else Sub(ts, s)
    if x.test(Lt(te, s)) or x.test(Lt(e, s)):
        return EMPTY
    hi = Sub(e, s) if x.test(Lt(e, te)) else Sub(te, s)
    if x.test(Lt(n, hi)):
        hi = n
    if not x.test(Lt(lo, hi)):
        return EMPTY
    return SubSeq(data, lo, hi)


def link_ranges(v, c, offset):
    """(links, sequence positions) -> range of the link at position i"""
    links, sizes = v.links(c.node), v.d(c.data, "blocksizes")

    def at(o, i):
        k = level(i) if i.op != "iv" else i.a[0]
        before = mkbind("fsum", (sizes,), Int(0), mk("upto", i), At(sizes, Iv(0)), 0)
        s = Sat(Add(offset, before))
        e = Sat(Add(offset, Add(before, At(sizes, i))))
        return s, e
    return links, sizes, at


def block_faults(x, v, c, offset, root):
    """the reasons to reject a block of a file: (condition, error)"""
    l, d = x.lab, c.data
    links, sizes, data, fs = v.links(c.node), v.d(d, "blocksizes"), v.d(d, "Data"), v.d(d, "filesize")
    err = lambda name, *a: l.adt(FAIL, "File", l.adt(FERR, name, *a))
    nolinks = lambda: x.test(Eq(Len(links), Int(0)))
    out = []
    if not root:
        out.append((lambda: x.some(v.d(d, "mode")) or x.some(v.d(d, "mtime")), lambda: err("NonRootDefinesMetadata", metadata(x, v, d)), "metadata below the root"))
    out += [
        (lambda: not x.test(v.type_is(d, "File")) and not x.test(v.type_is(d, "Raw")), lambda: l.adt(FAIL, "UnexpectedType", unexpected_type(x, v, d)), "block that is no file"),
        (lambda: not x.test(Eq(Len(links), Len(sizes))), lambda: err("LinksAndBlocksizesMismatch"), "links and blocksizes do not match"),
        (lambda: nolinks() and not x.test(Eq(Len(payload(x, v, d)), Int(0))) is True and x.some(fs) and not x.test(Eq(unopt(fs), Int(0))),
         lambda: err("NoLinksNoContent"), "size without links and content"),
        (lambda: x.some(v.d(d, "hashType")) or x.some(v.d(d, "fanout")),
         lambda: err("UnexpectedRawOrFileProperties", v.d(d, "hashType"), v.d(d, "fanout")), "hash type or fanout on a file"),
        (lambda: not nolinks() and not x.some(fs), lambda: err("IntermediateNodeWithoutFileSize"), "links without a filesize"),
        (lambda: x.test(Lt(Int(U64), Add(offset, file_size(x, v, c, payload(x, v, d))))), lambda: err("TreeExpandsOnLinks"), "range beyond the addressable one"),
    ]
    out[-4] = (lambda: nolinks() and x.test(Eq(Len(payload(x, v, d)), Int(0))) and x.some(fs) and not x.test(Eq(unopt(fs), Int(0))),) + out[-4][1:]
    return out


def order_of(l, path, me, Q, item):
    """how the pending links are kept: the announced first one is at the front or at the back of the sequence"""
    ps = [p for p in l.run(path, [me], facts=[(Lt(Int(0), Len(Q)), 1)]) if p.kind == "ret"]
    n = {"front": 0, "back": 0}
    for p in ps:
        f = Fld(p.val, (0, 0))
        st = p.st
        if spec.same(st, f, item(At(Q, Int(0)))):
            n["front"] += 1
        elif spec.same(st, f, item(At(Q, Sub(Len(Q), Int(1))))):
            n["back"] += 1
    if not any(n.values()):
        raise Missing("order of the pending links of " + path)
    return max(n, key=lambda k: n[k])


class Pending:
    """sequence of pending links, in the order in which they are announced"""

    def __init__(self, order, Q):
        n = Len(Q)
        if order == "front":
            self.first, self.rest = At(Q, Int(0)), SubSeq(Q, Int(1), n)
        else:
            self.first, self.rest = At(Q, Sub(n, Int(1))), SubSeq(Q, Int(0), Sub(n, Int(1)))
        self.order = order

    def as_asked(self, kept):
        """links as kept, in the order in which they are asked for"""
        return kept if self.order == "front" else Rev(kept)

    def before(self, new, rest):
        """new ones, in order, followed by the rest (as kept)"""
        return Cat(new, rest) if self.order == "front" else Cat(rest, Rev(new))


def visit_order(l):
    return order_of(l, VISIT + "::pending_links", l.struct(VISIT, pending=Sym("Q"), range=Sym("R"), state=Sym("S")), Sym("Q"), lambda e: Fld(e, (0, 0)))


def range_facts(R):
    return [(Lt(end_of(unopt(R)), start_of(unopt(R))), 0)]


def content_rule(x, v, c, offset, s, e, R, kept, order, size, meta, got):
    """stated result for an accepted block; kept: the links still pending, as kept; got: (bytes, next visit)"""
    l = x.lab
    links, sizes, at = link_ranges(v, c, offset)
    data = payload(x, v, c.data)
    bytes_, nxt = got
    own = file_size(x, v, c, data)
    if x.test(Eq(Len(links), Int(0))):
        new = EMPTY
        kind = "leaf"
        x.eq(bytes_, cut(x, data, s, e if e is not None else Len(data), R), "bytes of a leaf", props=("P20",))
        ending = l.adt(ENDING, "Chunk", Add(offset, own))
    else:
        kind = "link block"

        def bad(o, k, i):
            return selected(o, R, *at(o, i)) and not o.test(cidok(text(o, v.hash(k))))

        def queued(o, i):
            if not selected(o, R, *at(o, i)):
                return EMPTY
            h = text(o, v.hash(At(links, i)))
            return Seq(mk("tup", mk("cidof", h), rng(*at(o, i)))) if o.test(cidok(h)) else EMPTY
        new = once(x, ("queued",), lambda base: bind("fm", (links, sizes), queued, base=base, given=lambda o, i: not bad(o, At(links, i), i)))
        x.eq(bytes_, EMPTY, "bytes of a link block", props=("P20",))
        ending = l.adt(ENDING, "TreeCoverage", Add(offset, own))
    pending = order.before(new, kept)
    props = ("P15", "P20", "P21")
    if x.test(Eq(Len(pending), Int(0))):
        return x.eq(nxt, NONE, "no links are pending after a " + kind, props=props + ("P33",))
    if nxt.op == "adt" and nxt.a[1] == 0:
        return x.eq(nxt, Some(Sym("a visit")), "links are pending after a " + kind, props=props)
    w = unopt(nxt)
    x.holds(IsSome(nxt), "links are pending after a " + kind, props=props)
    x.eq(l.field(w, VISIT, "pending"), pending, "pending links after a " + kind, props=props)
    x.eq(l.field(w, VISIT, "range"), R, "requested range after a " + kind, props=("P20",))
    st = l.field(w, VISIT, "state")
    x.eq(l.field(st, TRAV, "last_ending"), ending, "end of the last block after a " + kind, props=("P11",))
    x.eq(l.field(st, TRAV, "last_offset"), offset, "start of the last block after a " + kind, props=("P11",))
    x.eq(l.field(st, TRAV, "file_size"), size, "total size after a " + kind, props=("P22",))
    x.eq(l.field(st, TRAV, "metadata"), meta, "metadata after a " + kind, props=("P22",))


def bad_link(x, v, c, offset, R):
    """the error of the first selected link without a cid, or None"""
    links, sizes, at = link_ranges(v, c, offset)
    if x.test(Eq(Len(links), Int(0))):
        return None

    def good(o, i):
        return not selected(o, R, *at(o, i)) or o.test(cidok(text(o, v.hash(At(links, i)))))
    if x.test(once(x, ("all good",), lambda base: bind("allc", (links, sizes), lambda o, i: Int(1 if good(o, i) else 0), base=base))):
        return None
    i = once(x, ("first bad",), lambda base: bind("first", (links, sizes), lambda o, i: Int(1 if good(o, i) else 0), base=base))
    return x.lab.adt(FAIL, "InvalidCid", bad_cid(x, v, i, At(links, i)))


def read_error(x, c):
    return x.lab.adt(FAIL, "Read", NONE if c.kind == "nodata" else Some(c.err))


def start_rule(x, v, c, R, order, got, size_of, meta_of):
    """stated result of the first step of a visit; True if the block is accepted"""
    if x.path.kind == "panic":
        x.fail("starting a visit ends in a panic: %s" % (x.path.panic,), props=("P33",))
        return False
    if c.kind != "ok":
        x.rejected([(None, read_error(x, c))], "unreadable block", props=("P10",), eprops=("P31",))
        return False
    faults = block_faults(x, v, c, Int(0), True)
    if x.faulty(faults, ("P10",), ("P31",)):
        return
    e = bad_link(x, v, c, Int(0), R)
    if e is not None:
        x.rejected([(None, e)] , "link without a cid", props=("P21",), eprops=("P31",))
        return False
    if not x.accepted("well-formed block", props=("P10", "P21", "P31")):
        return
    val = x.unwrap_ok(x.val)
    data = payload(x, v, c.data)
    size, meta = file_size(x, v, c, data), metadata(x, v, c.data)
    x.eq(size_of(val), size, "size of the file", props=("P22",))
    x.eq(meta_of(val), meta, "metadata of the file", props=("P22",))
    content_rule(x, v, c, Int(0), Int(0), None, R, EMPTY, order, size, meta, got(val))
    return True


@spec_of("P10", "P15", "P20", "P21", "P22", "P31", "P33")
def visit_start(l):
    v = Voc(l)
    B, R = Sym("block"), Sym("range")
    order = Pending(visit_order(l), Sym("Q"))
    paths = l.run(IDLE + "::start", [l.struct(IDLE, range=R), B], facts=range_facts(R))

    def rule(x):
        start_rule(x, v, flat(x, v, B) if x.path.kind != "panic" else None, R, order, lambda val: (Fld(val, (0, 0)), Fld(val, (0, 3))),
                   lambda val: Fld(val, (0, 1)), lambda val: Fld(val, (0, 2)))
    l.check(IDLE + "::start", paths, rule)


def continue_rule(x, v, B, E, O, Z, M, R, order, got):
    """stated result of a later step of a visit; True if the block is accepted"""
    l = x.lab
    r = Fld(order.first, (0, 1))
    s, e = start_of(r), end_of(r)
    wrong = lambda name: l.adt(FAIL, "File", l.adt(FERR, name))

    def later():
        """the reasons that apply to the block itself"""
        c = flat(x, v, B)
        if c.kind != "ok":
            return [(lambda: True, lambda: read_error(x, c), "")]
        return block_faults(x, v, c, s, False)
    if x.path.kind == "panic":
        x.fail("continuing a visit ends in a panic: %s" % (x.path.panic,), props=("P33",))
        return False
    if x.variant(E, ENDING) == "Chunk":
        end = Fld(E, (variant_index(l, ENDING, "Chunk"), 0))
        faults = [(lambda: not x.test(Eq(s, end)), lambda: wrong("TreeJumpsBetweenLinks"), "link that does not start where the leaf ended")]
    else:
        end = Fld(E, (variant_index(l, ENDING, "TreeCoverage"), 0))
        faults = [
            (lambda: not x.test(Lt(O, s)) and x.test(Lt(end, e)), lambda: wrong("TreeExpandsOnLinks"), "link that expands the tree"),
            (lambda: x.test(Lt(s, end)) and x.test(Lt(end, e)), lambda: wrong("TreeOverlapsBetweenLinks"), "link that overlaps the end of the node"),
            (lambda: x.test(Lt(s, O)), lambda: wrong("EarlierLink"), "link that starts before the node"),
        ]
    c = None
    if x.faulty(faults, ("P11",), ("P31",), more=later):
        return
    c = flat(x, v, B)
    if c.kind != "ok":
        x.rejected([(None, read_error(x, c))], "unreadable block", props=("P10",), eprops=("P31",))
        return False
    if x.faulty(block_faults(x, v, c, s, False), ("P10",), ("P31",)):
        return
    bad = bad_link(x, v, c, s, R)
    if bad is not None:
        x.rejected([(None, bad)], "link without a cid", props=("P21",), eprops=("P31",))
        return False
    if not x.accepted("well-formed block", props=("P10", "P11", "P21", "P31")):
        return
    val = x.unwrap_ok(x.val)
    content_rule(x, v, c, s, s, e, R, order.rest, order, Z, M, got(val))
    return True


@spec_of("P10", "P11", "P15", "P20", "P21", "P22", "P31", "P33")
def visit_continue(l):
    v = Voc(l)
    B, R, Q, C = Sym("block"), Sym("range"), Sym("Q"), Sym("cache")
    E, O, Z, M = Sym("ending"), Sym("offset"), Sym("size"), Sym("metadata")
    order = Pending(visit_order(l), Q)
    me = l.struct(VISIT, pending=Q, range=R, state=l.struct(TRAV, last_ending=E, last_offset=O, file_size=Z, metadata=M))
    r = Fld(order.first, (0, 1))
    s, e = start_of(r), end_of(r)
    facts = range_facts(R) + [(Lt(Int(0), Len(Q)), 1), (Lt(e, s), 0)] + cache_facts(l, C, CACHE, "inner")
    paths = l.run(VISIT + "::continue_walk", [me, B, ("mut", C)], facts=facts)
    l.check(VISIT + "::continue_walk", paths,
            lambda x: continue_rule(x, v, B, E, O, Z, M, R, order, lambda val: (Fld(val, (0, 0)), Fld(val, (0, 1)))))


def variant_index(l, path, name):
    for i, vv in enumerate(l.eng.variants(path)):
        if vv["name"] == name:
            return i
    raise Missing("variant %s of %s" % (name, path))
