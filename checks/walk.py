"""Walking over a tree."""
from .base import *
from .lookup import bad_cid, unexpected_type, cidok, dir_unsupported, shard_unsupported
from . import file as F
from .file import VISIT, TRAV, FAIL, Pending

WALKER, ENTRY, KIND, CONT, SEG, ERR = ("walk::Walker", "walk::InnerEntry", "walk::InnerKind", "walk::ContinuedWalk", "walk::FileSegment", "walk::Error")
# what the shared rules about files decide when they are met through the walker
PMAP = {"P20": ("P19",), "P21": ("P17",), "P22": ("P16", "P22")}


def walk_order(l):
    """the end of the pending links from which a step takes the one that comes next"""
    o = l.memo.get("walk_order")
    if o is None:
        Q = Sym("Q")
        ent = l.struct(ENTRY, cid=Sym("old cid"), kind=l.adt(KIND, "Symlink"), path=Sym("path"), metadata=Sym("old metadata"), depth=Int(1))
        me = l.struct(WALKER, current=Some(ent), next=Some(mk("tup", Sym("cid"), Sym("name"), Sym("depth"))), pending=Q, should_continue=TRUE)
        ends = {Some(At(Q, Int(0))): "front", Some(At(Q, Sub(Len(Q), Int(1)))): "back"}
        ps = l.run(WALKER + "::next", [("mut", me), Sym("block"), ("mut", Sym("cache"))], facts=[(Lt(Int(0), Len(Q)), 1)])
        orders = {ends[n] for n in (l.field(p.outs[0], WALKER, "next") for p in ps if p.kind == "ret") if n in ends}
        if len(orders) != 1:
            raise Missing("order of the pending links of the walker")
        o = l.memo["walk_order"] = orders.pop()
    return o


def slash(s):
    return mk("bool", "contains", s, Bytes("2f"))


def valid_name(o, s):
    return not o.test(Eq(Len(s), Int(0))) and not o.test(Eq(s, Bytes("2e"))) and not o.test(Eq(s, Bytes("2e2e"))) and not o.test(slash(s))


def dir_name(o, v, link):
    """the entry name of a link of a directory, or None"""
    n = v.name(link)
    if not o.some(n) or not valid_name(o, unopt(n)):
        return None
    return unopt(n)


def shard_name(o, v, link):
    """(is a sub-shard, entry name) of a link of a shard, or None"""
    n = v.name(link)
    if not o.some(n):
        return None
    n = unopt(n)
    if o.test(Eq(Len(n), Int(2))):
        return True, EMPTY
    if o.test(Lt(Len(n), Int(2))) or not o.test(mk("bool", "charb", n, Int(2))):
        return None
    s = SubSeq(n, Int(2), Len(n))
    return (False, s) if valid_name(o, s) else None


def parse_errors(x, c):
    l = x.lab
    if c.kind == "nodag":
        return [l.adt(ERR, "DagPbParsingFailed", c.err)]
    if c.kind == "nodata":
        return [l.adt(ERR, "EmptyDagPbNode")]
    return [l.adt(ERR, "UnixFsParsingFailed", c.err)]


def walk_errors(l, e):
    """the errors of the walk that name an error of the file visit"""
    name = e.a[3]
    if name == "Read":
        c = e.a[2][0]
        if c.a[3] == "None":
            return [l.adt(ERR, "EmptyDagPbNode")]
        return [l.adt(ERR, "DagPbParsingFailed", unopt(c)), l.adt(ERR, "UnixFsParsingFailed", unopt(c))]
    return [l.adt(ERR, name, *e.a[2])]


class Outcome:
    """the parts of a step's result"""

    def __init__(self, l, x):
        self.l, self.x = l, x
        self.me = x.outs[0]
        self.go = l.field(self.me, WALKER, "should_continue")

    def failed(self):
        """nothing continues after an error"""
        self.x.eq(self.go, FALSE, "a walk does not continue after an error", props=("P17",))

    def entry(self):
        return unopt(self.l.field(self.me, WALKER, "current"))

    def describes(self, item, cid, path, meta, what, nth=0):
        """item: fields of the yielded item from the CID on"""
        x, l = self.x, self.l
        parts = [("CID", cid, "cid"), ("path", path, "path"), ("metadata", meta, "metadata")]
        e = self.entry()
        x.holds(IsSome(l.field(self.me, WALKER, "current")), "current entry after a " + what, props=("P16",))
        for (name, want, field), got in zip(parts, item):
            x.eq(got, want, "%s of a %s" % (name, what), props=("P16",))
            x.eq(l.field(e, ENTRY, field), want, "%s kept for a %s" % (name, what), props=("P16",))

    def schedules(self, order, Q, new, what, ongoing=False):
        x, l = self.x, self.l
        nxt, rest = l.field(self.me, WALKER, "next"), l.field(self.me, WALKER, "pending")
        props = ("P15", "P17", "P18")
        if not x.test(Eq(Len(new), Int(0))):
            first, kept = At(new, Int(0)), order.before(SubSeq(new, Int(1), Len(new)), Q)
        elif not x.test(Eq(Len(Q), Int(0))):
            q = Pending(order.order, Q)
            first, kept = q.first, q.rest
        else:
            x.eq(nxt, NONE, "nothing is left to walk after a " + what, props=props)
            x.eq(self.go, Int(1 if ongoing else 0), "the walk's end after a " + what, props=("P17",))
            return
        x.eq(nxt, Some(first), "next entry after a " + what, props=props)
        x.eq(rest, kept, "pending entries after a " + what, props=props)
        x.eq(self.go, TRUE, "the walk goes on after a " + what, props=("P17",))


def walk_rule(l, x, v, B, order, Q, cid, name, depth, root, base_path, fresh):
    """stated result of a step that is not in the middle of a file"""
    r = Outcome(l, x)
    if x.path.kind == "panic":
        unnamed = not root and not fresh and flat(x, v, B)
        refused = unnamed and unnamed.kind == "ok" and not x.test(v.type_is(unnamed.data, "HAMTShard"))
        return x.fail("walking a block ends in a panic: %s" % (x.path.panic,), props=("P33", "P18") if refused else ("P33",))
    if x.val.op != "adt" or x.val.a[3] == "Err":
        r.failed()
    c = flat(x, v, B)
    if c.kind != "ok":
        return x.rejected([(None, e) for e in parse_errors(x, c)], "unreadable block", props=("P31",), eprops=("P31",))
    d = c.data
    T_ = lambda n: x.test(v.type_is(d, n))
    is_shard = T_("HAMTShard")
    if not root and not fresh and not is_shard:
        return x.rejected([(None, l.adt(ERR, "UnexpectedType", unexpected_type(x, v, d)))], "unnamed link to something else than a shard", props=("P18",), eprops=("P31",))
    links = v.links(c.node)
    nlinks = Len(links)
    meta = F.metadata(x, v, d)
    path = Cat(base_path, Seq(name)) if fresh else base_path

    def scheduled(nm):
        """(obligations on failure, sequence of new entries)"""
        def ok(o, i):
            k = At(links, i)
            return o.test(cidok(text(o, v.hash(k)))) and nm(o, k) is not None

        def entry(o, i):
            k = At(links, i)
            h = text(o, v.hash(k))
            n = nm(o, k) if o.test(cidok(h)) else None
            return EMPTY if n is None else Seq(mk("tup", mk("cidof", h), n[1], n[0]))
        if not x.test(once(x, ("all good", nm.__name__), lambda base: bind("allc", links, lambda o, i: Int(1 if ok(o, i) else 0), base=base))):
            errs = []
            for seq, pos in ((Rev(links), lambda i: Sub(Sub(nlinks, Int(1)), i)), (links, lambda i: i)):
                def make(base, seq=seq, pos=pos):
                    return bind("first", seq, lambda o, i: Int(1 if ok(o, pos(i)) else 0), base=base)
                errs.append((pos, make))
            out = []
            for n, (pos, make) in enumerate(errs):
                i = pos(once(x, ("first bad", nm.__name__, n), make))
                k = At(links, i)

                def err(i=i, k=k):
                    if x.test(cidok(text(x, v.hash(k)))):
                        return l.adt(ERR, "InvalidLinkName", i, text(x, v.name(k)))
                    return l.adt(ERR, "InvalidCid", bad_cid(x, v, i, k))
                out.append(err)
            x.result_is(False, "link that cannot be walked", props=("P18", "P17", "P31"))
            if x.skip(("P31",)):
                return None
            e = out[0]()
            if not x.same(x.val, Err(e)) and x.same(x.val, Err(out[1]())):
                x.good()
                return None
            x.eq(x.val, Err(e), "error for a link that cannot be walked", props=("P31",))
            return None
        return once(x, ("entries", nm.__name__), lambda base: bind("fm", links, entry, base=base, given=ok))

    if T_("Directory"):
        bad = dir_unsupported(x, v, d)
        if bad is not None:
            return x.rejected([(None, l.adt(ERR, "UnsupportedDirectory", bad))], "directory with unsupported properties", props=("P08",), eprops=("P08", "P31"))

        def dir_entry(o, k):
            n = dir_name(o, v, k)
            return None if n is None else (Add(depth, Int(1)), n)
        new = scheduled(dir_entry)
        if new is None or not x.accepted("supported directory", props=("P08", "P17", "P31")):
            return
        item = x.unwrap_ok(x.val)
        what = "root directory" if root else "directory"
        x.eq(Discr(item), Discr(l.adt(CONT, "RootDirectory" if root else "Directory", UNIT, UNIT, UNIT)), "kind of item for a " + what, props=("P16",))
        r.describes(item_fields(l, item), cid, path, meta, what)
        r.schedules(order, Q, new, what)
        kept_depth(l, x, r, depth, what)
    elif is_shard:
        bad = shard_unsupported(x, v, d)
        if bad is not None:
            return x.rejected([(None, l.adt(ERR, "UnsupportedHAMTShard", bad))], "shard with unsupported properties", props=("P09",), eprops=("P09", "P31"))

        def shard_entry(o, k):
            n = shard_name(o, v, k)
            return None if n is None else (depth if n[0] else Add(depth, Int(1)), n[1])
        new = scheduled(shard_entry)
        if new is None or not x.accepted("supported shard", props=("P09", "P17", "P31")):
            return
        item = x.unwrap_ok(x.val)
        what = "root shard" if root else "shard" if fresh else "sub-shard"
        x.eq(Discr(item), Discr(l.adt(CONT, "RootDirectory", UNIT, UNIT, UNIT) if root or fresh else l.adt(CONT, "Bucket", UNIT, UNIT)), "kind of item for a " + what, props=("P16",))
        if root or fresh:
            r.describes(item_fields(l, item), cid, path, meta, what)
        else:
            r.describes(item_fields(l, item)[:2], cid, path, meta, what)
        r.schedules(order, Q, new, what)
        kept_depth(l, x, r, depth, what)
    elif T_("File") or T_("Raw"):
        x.pmap, x.emap = PMAP, lambda e: walk_errors(l, e)

        def got(val):
            e = unopt(l.field(r.me, WALKER, "current"))
            k = l.field(e, ENTRY, "kind")
            return item_field(l, val, 0, SEG, "bytes"), kind_file(l, k, 0)
        ok = F.start_rule(x, v, c, NONE, visit_order(l), got, lambda val: item_field(l, val, 4), lambda val: item_field(l, val, 3))
        x.pmap = x.emap = None
        if not ok:
            return
        item = x.unwrap_ok(x.val)
        segment(l, x, r, item, True)
        r.describes(item_fields(l, item)[1:], cid, path, meta, "file")
        kept_depth(l, x, r, depth, "file")
        e = r.entry()
        step = kind_file(l, l.field(e, ENTRY, "kind"), 0)
        x.eq(kind_file(l, l.field(e, ENTRY, "kind"), 1), F.file_size(x, v, c, F.payload(x, v, d)), "size kept for a file", props=("P16", "P22"))
        r.schedules(order, Q, EMPTY, "file", ongoing=step.op == "adt" and step.a[1] == 1 or step.op != "adt" and x.some(step))
    elif T_("Symlink"):
        if not x.accepted("symlink", props=("P30", "P31")):
            return
        item = x.unwrap_ok(x.val)
        x.eq(Discr(item), Discr(l.adt(CONT, "Symlink", UNIT, UNIT, UNIT, UNIT)), "kind of item for a symlink", props=("P16", "P30"))
        fs = item_fields(l, item)
        x.eq(fs[0], F.payload(x, v, d), "target of a symlink", props=("P30",))
        r.describes(fs[1:], cid, path, meta, "symlink")
        r.schedules(order, Q, EMPTY, "symlink")
        kept_depth(l, x, r, depth, "symlink")
    else:
        x.rejected([(None, l.adt(ERR, "UnsupportedType", unexpected_type(x, v, d)))], "node of unsupported type", props=("P31",), eprops=("P31",))


def kept_depth(l, x, r, depth, what):
    x.eq(l.field(r.entry(), ENTRY, "depth"), depth, "depth kept for a " + what, props=("P16", "P17", "P33"))


def kind_file(l, k, n):
    return Fld(k, (F.variant_index(l, KIND, "File"), n))


def item_fields(l, item):
    if item.op != "adt":
        raise Missing("kind of a yielded item")
    return list(item.a[2])


def item_field(l, item, n, adt=None, name=None):
    f = item_fields(l, item)[n]
    return f if adt is None else l.field(f, adt, name)


def segment(l, x, r, item, is_first):
    s = item_fields(l, item)[0]
    k = l.field(r.entry(), ENTRY, "kind")
    x.eq(Discr(k), Discr(l.adt(KIND, "File", UNIT, UNIT)), "kind kept for a file", props=("P16", "P19"))
    step = kind_file(l, k, 0)
    x.eq(l.field(s, SEG, "first_block"), Int(int(is_first)), "segment flagged as first", props=("P19",))
    x.eq(l.field(s, SEG, "last_block"), Not(IsSome(step)), "segment flagged as last", props=("P19",))


def visit_order(l):
    o = l.memo.get("visit_order")
    if o is None:
        o = l.memo["visit_order"] = F.visit_order(l)
    return Pending(o, Sym("Q"))


def empty_cache(l, C):
    return cache_facts(l, C, F.CACHE, "inner")


ALLP = ("P08", "P09", "P10", "P15", "P16", "P17", "P18", "P19", "P22", "P30", "P31", "P33")


@spec_of(*ALLP)
def walk_root(l):
    """the first block of a walk"""
    v = Voc(l)
    B, K = Sym("block"), Sym("cache")
    cid, name = Sym("cid"), Sym("name")
    order = Pending(walk_order(l), Sym("Q"))
    visit_order(l)
    for empty in (False, True):
        dd = Int(1 if empty else 2)
        me = l.struct(WALKER, current=NONE, next=Some(mk("tup", cid, EMPTY if empty else name, dd)), pending=EMPTY, should_continue=TRUE)
        facts = [] if empty else [(Eq(Len(name), Int(0)), 0)]
        paths = l.run(WALKER + "::next", [("mut", me), B, ("mut", K)], facts=facts + empty_cache(l, K))
        l.check(WALKER + "::next (root)", paths,
                lambda x: walk_rule(l, x, v, B, order, EMPTY, cid, EMPTY if empty else name, dd, True, EMPTY, not empty))


def nested(l, kind, what):
    v = Voc(l)
    B, K, Q = Sym("block"), Sym("cache"), Sym("Q")
    cid, name, depth, P = Sym("cid"), Sym("name"), Sym("depth"), Sym("path")
    E = Add(Len(P), Int(1))
    order = Pending(walk_order(l), Q)
    visit_order(l)
    ent = l.struct(ENTRY, cid=Sym("old cid"), kind=kind, path=P, metadata=Sym("old metadata"), depth=E)
    me = l.struct(WALKER, current=Some(ent), next=Some(mk("tup", cid, name, depth)), pending=Q, should_continue=TRUE)
    for fresh in (True, False):
        facts = [(Lt(Int(1 if fresh else 0), depth), 1), (Lt(depth, Int(1 << 32)), 1), (Lt(Len(P), Int(1 << 32)), 1), (Eq(Len(name), Int(0)), int(not fresh)),
                 (Lt(Add(E, Int(1)) if fresh else E, depth), 0)] + empty_cache(l, K)
        paths = l.run(WALKER + "::next", [("mut", me), B, ("mut", K)], facts=facts)
        base = SubSeq(P, Int(0), Sub(depth, Int(2 if fresh else 1)))
        l.check(WALKER + "::next (%s)" % what, paths,
                lambda x: walk_rule(l, x, v, B, order, Q, cid, name, depth, False, base, fresh))


def nested_kind(n, args=0):
    def fn(l):
        nested(l, l.adt(KIND, n, *([NONE, Sym("old size")] if args else [])), "after " + n)
    fn.__name__ = "walk_after_" + n
    return spec_of(*ALLP)(fn)


NESTED = []
for n, a in (("RootDirectory", 0), ("BucketAtRoot", 0), ("RootBucket", 0), ("Bucket", 0), ("Directory", 0), ("File", 1), ("Symlink", 0)):
    NESTED.append(nested_kind(n, a))


@spec_of("P10", "P11", "P15", "P16", "P17", "P19", "P22", "P31", "P33")
def walk_file(l):
    """a later block of a file"""
    v = Voc(l)
    B, K, Q, VQ = Sym("block"), Sym("cache"), Sym("pending"), Sym("Q")
    E, O, Z, M = Sym("ending"), Sym("offset"), Sym("size"), Sym("metadata")
    cid, P, meta, size, nxt = Sym("cid"), Sym("path"), Sym("entry metadata"), Sym("entry size"), Sym("next")
    order = visit_order(l)
    visit = l.struct(VISIT, pending=VQ, range=NONE, state=l.struct(TRAV, last_ending=E, last_offset=O, file_size=Z, metadata=M))
    ent = l.struct(ENTRY, cid=cid, kind=l.adt(KIND, "File", Some(visit), size), path=P, metadata=meta, depth=Add(Len(P), Int(1)))
    me = l.struct(WALKER, current=Some(ent), next=nxt, pending=Q, should_continue=TRUE)
    r = Fld(order.first, (0, 1))
    s, e = F.start_of(r), F.end_of(r)
    paths = l.run(WALKER + "::next", [("mut", me), B, ("mut", K)], facts=[(Lt(Int(0), Len(VQ)), 1), (Lt(e, s), 0)] + empty_cache(l, K))

    def rule(x):
        r = Outcome(l, x)
        if x.path.kind != "panic" and (x.val.op != "adt" or x.val.a[3] == "Err"):
            r.failed()
        x.pmap, x.emap = PMAP, lambda e: walk_errors(l, e)

        def got(val):
            e = unopt(l.field(r.me, WALKER, "current"))
            return item_field(l, val, 0, SEG, "bytes"), kind_file(l, l.field(e, ENTRY, "kind"), 0)
        ok = F.continue_rule(x, v, B, E, O, Z, M, NONE, order, got)
        x.pmap = x.emap = None
        if not ok:
            return
        item = x.unwrap_ok(x.val)
        segment(l, x, r, item, False)
        fs = item_fields(l, item)
        r.describes(fs[1:], cid, P, meta, "later block of a file")
        x.eq(fs[4], size, "size of a later block of a file", props=("P16", "P22"))
        en = r.entry()
        x.eq(kind_file(l, l.field(en, ENTRY, "kind"), 1), size, "size kept for a later block of a file", props=("P16", "P22"))
        kept_depth(l, x, r, Add(Len(P), Int(1)), "later block of a file")
        x.eq(l.field(r.me, WALKER, "next"), nxt, "next entry after a later block of a file", props=("P15", "P17"))
        x.eq(l.field(r.me, WALKER, "pending"), Q, "pending entries after a later block of a file", props=("P15", "P17"))
        step = kind_file(l, l.field(en, ENTRY, "kind"), 0)
        more = step.op == "adt" and step.a[1] == 1 or step.op != "adt" and x.some(step)
        x.eq(r.go, TRUE if more or x.some(nxt) else FALSE, "the walk goes on after a later block of a file", props=("P17",))
    l.check(WALKER + "::next (in a file)", paths, rule)
