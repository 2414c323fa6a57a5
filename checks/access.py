"""What users read off states and results: accessors, and the announced links."""
from .base import *
from . import file as F, lookup as L, walk as W


def shows(l, path, args, want, what, props, facts=(), pick=None):
    """the function returns the stated value"""
    paths = l.run(path, args, facts=facts)

    def rule(x):
        if x.path.kind == "panic":
            return x.fail("%s ends in a panic: %s" % (what, x.path.panic), props=props)
        x.eq(x.val if pick is None else pick(x), want(x) if callable(want) else want, what, props=props)
    l.check(path, paths, rule)


@spec_of("P22")
def visit_shows(l):
    Z, M = Sym("size"), Sym("metadata")
    me = l.struct(F.VISIT, pending=Sym("Q"), range=Sym("R"), state=l.struct(F.TRAV, last_ending=Sym("E"), last_offset=Sym("O"), file_size=Z, metadata=M))
    shows(l, F.VISIT + "::file_size", [me], Z, "size a visit shows", ("P22",))
    shows(l, "<%s as core::convert::AsRef<Metadata>>::as_ref" % F.VISIT, [me], M, "metadata a visit shows", ("P22",))


@spec_of("P20")
def range_set(l):
    R = Sym("requested")
    if not l.has_fn(F.IDLE + "::with_target_range"):
        raise Missing("with_target_range")
    shows(l, F.IDLE + "::with_target_range", [l.struct(F.IDLE, range=Sym("range")), R], l.struct(F.IDLE, range=Some(R)), "range that is requested", ("P20",))
    shows(l, "<%s as core::default::Default>::default" % F.IDLE, [], l.struct(F.IDLE, range=NONE), "range before one is requested", ("P20",))


@spec_of("P19")
def segment_shows(l):
    b, f, e = Sym("bytes"), Sym("first"), Sym("last")
    me = l.struct(W.SEG, bytes=b, first_block=f, last_block=e)
    shows(l, W.SEG + "::is_first", [me], f, "first flag a segment shows", ("P19",))
    shows(l, W.SEG + "::is_last", [me], e, "last flag a segment shows", ("P19",))
    shows(l, W.SEG + "::as_bytes", [me], b, "bytes a segment shows", ("P19",))
    shows(l, "<%s<'_> as core::convert::AsRef<[u8]>>::as_ref" % W.SEG, [me], b, "bytes a segment shows", ("P19",))


@spec_of("P23")
def metadata_shows(l):
    v = Voc(l)
    m, t = Sym("mode"), Sym("mtime")
    me = l.struct("Metadata", mode=m, mtime=t)
    shows(l, "Metadata::mode", [me], m, "mode that is shown", ("P23",))
    shows(l, "Metadata::mtime", [me], t, "modification time that is shown", ("P23",))
    d = Sym("message")
    shows(l, "<Metadata as core::convert::From<&'a pb::unixfs::Data<'_>>>::from", [d], lambda x: F.metadata(x, v, d), "metadata of a message", ("P23",))


@spec_of("P31")
def types_show(l):
    t = Sym("type")
    me = Adt("UnexpectedNodeType", 0, [t])
    vs = {v["name"]: v["discr"] for v in l.eng.variants(UTYPE)}

    def dirs(x):
        return TRUE if x.test(Eq(t, Int(vs["Directory"]))) or x.test(Eq(t, Int(vs["HAMTShard"]))) else FALSE
    shows(l, "UnexpectedNodeType::is_directory", [me], dirs, "type shown as a directory", ("P31",))
    shows(l, "UnexpectedNodeType::is_file", [me], lambda x: TRUE if x.test(Eq(t, Int(vs["File"]))) else FALSE, "type shown as a file", ("P31",))
    e = Sym("error")
    shows(l, L.LOOKERR + "::into_resolve_error", [e], l.adt(L.RESERR, "Lookup", e), "error of a lookup as one of resolving", ("P31",))


@spec_of("P13")
def lookup_owned(l):
    q, n = Sym("links"), Sym("needle")
    me = l.struct(L.LOOKUP, links=q, needle=n)
    shows(l, L.LOOKUP + "::with_owned_needle", [me], me, "lookup with an owned name", ("P13",))


def announces(l, path, me, first, rest, what, facts=()):
    """the first link, and the others in the order in which they are asked for"""
    shows(l, path, [me], first, "announced link of a " + what, ("P15",), facts=facts, pick=lambda x: Fld(x.val, (0, 0)))
    paths = l.run(path, [me], facts=facts, collect=((0, 1),))

    def rule(x):
        if x.path.kind == "panic":
            return x.fail("announcing the links of a %s ends in a panic: %s" % (what, x.path.panic), props=("P33",))
        x.eq(Fld(x.val, (0, 1)), rest, "further links announced by a " + what, props=("P42",))
    l.check(path + " (further links)", paths, rule)


def links_of(entries, n=0):
    return bind("fm", (entries,), lambda o, i: Seq(Fld(At(entries, i), (0, n))))


@spec_of("P15", "P33", "P42")
def lookup_pending(l):
    q, n = Sym("queue"), Sym("needle")
    me = l.struct(L.LOOKUP, links=q, needle=n)
    order = F.Pending(L.queue_order(l), q)
    announces(l, L.LOOKUP + "::pending_links", me, order.first, order.as_asked(order.rest), "lookup", [(Lt(Int(0), Len(q)), 1)])


@spec_of("P15", "P33", "P42")
def visit_pending(l):
    q = Sym("Q")
    order = F.Pending(F.visit_order(l), q)
    me = l.struct(F.VISIT, pending=q, range=Sym("R"), state=Sym("S"))
    announces(l, F.VISIT + "::pending_links", me, Fld(order.first, (0, 0)), links_of(order.as_asked(order.rest)), "visit", [(Lt(Int(0), Len(q)), 1)])


@spec_of("P15", "P33", "P42")
def walk_pending(l):
    VQ, Q, nx = Sym("Q"), Sym("pending"), mk("tup", Sym("cid"), Sym("name"), Sym("depth"))
    order = F.Pending(F.visit_order(l), VQ)
    later = links_of(F.Pending(W.walk_order(l), Q).as_asked(Q))
    visit = l.struct(F.VISIT, pending=VQ, range=Sym("R"), state=Sym("S"))
    kinds = [None] + [l.adt(W.KIND, n) for n in ("RootDirectory", "BucketAtRoot", "RootBucket", "Bucket", "Directory", "Symlink")]
    kinds += [l.adt(W.KIND, "File", NONE, Sym("size")), l.adt(W.KIND, "File", Some(visit), Sym("size"))]
    for k in kinds:
        cur = NONE if k is None else Some(l.struct(W.ENTRY, cid=Sym("old cid"), kind=k, path=Sym("path"), metadata=Sym("old metadata"), depth=Sym("old depth")))
        infile = k is not None and k.a[3] == "File" and k.a[2][0] is not NONE
        for nxt in ([Some(nx), NONE] if infile else [Some(nx)]):
            me = l.struct(W.WALKER, current=cur, next=nxt, pending=Q, should_continue=TRUE)
            rest = Cat(links_of(order.as_asked(order.rest)), Seq(nx.a[0]) if nxt is not NONE else EMPTY, later) if infile else later
            announces(l, W.WALKER + "::pending_links", me, Fld(order.first, (0, 0)) if infile else nx.a[0], rest, "walk", [(Lt(Int(0), Len(VQ)), 1)])


@spec_of("P16", "P17")
def walk_start(l):
    cid, name = Sym("cid"), Sym("name")
    paths = l.run(W.WALKER + "::new", [cid, name])

    def rule(x):
        if x.path.kind == "panic":
            return x.fail("starting a walk ends in a panic", props=("P17",))
        d = Int(1) if x.test(Eq(Len(name), Int(0))) else Int(2)
        x.eq(x.val, l.struct(W.WALKER, current=NONE, next=Some(mk("tup", cid, name, d)), pending=EMPTY, should_continue=TRUE), "walk that starts", props=("P16", "P17"))
    l.check(W.WALKER + "::new", paths, rule)
    go = Sym("go")
    me = l.struct(W.WALKER, current=Sym("current"), next=Sym("next"), pending=Sym("pending"), should_continue=go)
    shows(l, W.WALKER + "::should_continue", [me], go, "end a walk shows", ("P17",))


@spec_of("P43")
def causes(l):
    """the error that an error was made from"""
    e, c = Sym("parse error"), Sym("cid error")
    link = l.struct("InvalidCidInLink", nth=Sym("nth"), hash=Sym("hash"), name=Sym("name"), source=c, hidden=UNIT)
    read, none = Some(e), NONE

    def source(t, v, want, what):
        shows(l, "<%s as core::error::Error>::source" % t, [v], want, "source of " + what, ("P43",))
    source("InvalidCidInLink", link, Some(c), "an invalid link")
    source(F.FAIL, l.adt(F.FAIL, "Read", read), Some(e), "a file that could not be read")
    source(F.FAIL, l.adt(F.FAIL, "InvalidCid", link), Some(link), "a file with an invalid link")
    source(F.FAIL, l.adt(F.FAIL, "Read", none), NONE, "a file without data")
    source(L.LOOKERR, l.adt(L.LOOKERR, "Read", read), Some(e), "a bucket that could not be read")
    source(L.LOOKERR, l.adt(L.LOOKERR, "Read", none), NONE, "a bucket without data")
    source(L.RESERR, l.adt(L.RESERR, "Read", e), Some(e), "a directory that could not be read")
    source(L.RESERR, l.adt(L.RESERR, "Lookup", l.adt(L.LOOKERR, "Read", read)), Some(e), "a lookup that could not be read")
    source(L.RESERR, l.adt(L.RESERR, "Lookup", l.adt(L.LOOKERR, "Read", none)), NONE, "a lookup without data")
