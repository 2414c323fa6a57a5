"""Resolving names: plain directories and sharded directories."""
from .base import *

DIRERR = "dir::directory::UnexpectedDirectoryProperties"
RESERR, LOOKERR, SHARDERR = "dir::ResolveError", "dir::sharded_lookup::LookupError", "dir::sharded_lookup::ShardError"
MAYBE, MULTI = "dir::MaybeResolved", "dir::MultipleMatchingLinks"
BADCID = "InvalidCidInLink"
LOOKUP = "dir::sharded_lookup::ShardedLookup"


def bad_cid(x, v, i, link):
    """the error for the link at position i"""
    h = text(x, v.hash(link))
    return x.lab.struct(BADCID, nth=i, hash=h, name=text(x, v.name(link)), source=mk("ciderr", h), hidden=UNIT)


def dir_unsupported(x, v, d):
    """the rejection of a plain directory, or None if it is one the library supports"""
    data = v.d(d, "Data")
    if x.some(v.d(d, "filesize")) or not x.test(Eq(Len(v.d(d, "blocksizes")), Int(0))) or x.some(v.d(d, "hashType")) \
            or x.some(v.d(d, "fanout")) or x.some(data) and not x.test(Eq(Len(unopt(data)), Int(0))):
        return x.lab.struct(DIRERR, filesize=v.d(d, "filesize"), blocksizes=v.d(d, "blocksizes"), hash_type=v.d(d, "hashType"),
                            fanout=v.d(d, "fanout"), data=data)
    return None


def shard_unsupported(x, v, d):
    fan, ht = v.d(d, "fanout"), v.d(d, "hashType")
    if not (x.some(fan) and x.test(Eq(unopt(fan), Int(256))) and x.some(ht) and x.test(Eq(unopt(ht), Int(34)))):
        return x.lab.adt(SHARDERR, "UnsupportedProperties", ht, fan)
    if x.some(v.d(d, "filesize")) or not x.test(Eq(Len(v.d(d, "blocksizes")), Int(0))):
        return x.lab.adt(SHARDERR, "UnexpectedProperties", v.d(d, "filesize"), v.d(d, "blocksizes"))
    return None


def unexpected_type(x, v, d):
    return x.lab.struct("UnexpectedNodeType", **{}) if False else Adt("UnexpectedNodeType", 0, [Discr(v.d(d, "Type"))])


def resolved(x, what):
    return Ok(what)


@spec_of("P08", "P09", "P12", "P13", "P31", "P33")
def resolve(l):
    v = Voc(l)
    queue_order(l)
    B, N, C = Sym("block"), Sym("needle"), Sym("cache")
    paths = l.run("dir::resolve", [B, N, ("mut", C)], facts=empty_cache(l, C))

    def rule(x):
        if x.path.kind == "panic":
            return x.fail("resolving a name ends in a panic: %s" % (x.path.panic,), props=("P33",))
        c = flat(x, v, B)
        lerr = lambda e: Err(l.adt(RESERR, "Lookup", e))
        if c.kind == "nodag":
            return x.eq(x.val, Err(l.adt(RESERR, "Read", c.err)), "block that is no dag-pb node", props=("P31",))
        if c.kind == "ok":
            if x.test(v.type_is(c.data, "HAMTShard")):
                return shard_rule(x, v, c, N, EMPTY, lerr)
            if not x.test(v.type_is(c.data, "Directory")):
                return x.eq(x.val, Err(l.adt(RESERR, "UnexpectedType", unexpected_type(x, v, c.data))), "block that is no directory", props=("P12", "P31"))
            e = dir_unsupported(x, v, c.data)
            if e is not None:
                return x.eq(x.val, Err(l.adt(RESERR, "UnexpectedDirProperties", e)), "directory with unsupported properties", props=("P08", "P31"))
        links = v.links(c.node)

        def matches(o, link, i):
            return o.test(Eq(N, text(o, v.name(link))))

        def differs(o, link, i):
            return not matches(o, link, i)
        props = ("P12",) + (("P08",) if c.kind == "ok" else ())
        if x.test(forall(x, links, differs)):
            return x.eq(x.val, Ok(l.adt(MAYBE, "NotFound")), "name that no link has", props=props)
        i = first(x, links, matches)
        link = At(links, i)
        h = text(x, v.hash(link))
        if not x.test(cidok(h)):
            return x.eq(x.val, lerr(l.adt(LOOKERR, "InvalidCid", bad_cid(x, v, i, link))), "matching link without a cid", props=("P12", "P31"))
        nxt = Add(i, Int(1))
        if x.test(forall(x, links, differs, init=nxt)):
            return x.eq(x.val, Ok(l.adt(MAYBE, "Found", mk("cidof", h))), "name that one link has", props=props)
        j = first(x, links, matches, init=nxt)
        l2 = At(links, j)
        h2 = text(x, v.hash(l2))
        fst = mk("tup", i, mk("cidof", h))
        if x.test(cidok(h2)):
            e = l.adt(MULTI, "Two", fst, mk("tup", j, mk("cidof", h2)))
        else:
            e = l.adt(MULTI, "OneValid", fst, bad_cid(x, v, j, l2))
        return x.eq(x.val, lerr(l.adt(LOOKERR, "Multiple", e)), "name that several links have", props=("P12", "P31"))
    l.check("dir::resolve", paths, rule)


def queue_order(l):
    """the end of the queue which holds the announced shard"""
    o = l.memo.get("queue_order")
    if o is None:
        from .file import order_of
        Q = Sym("queue")
        o = l.memo["queue_order"] = order_of(l, LOOKUP + "::pending_links", l.struct(LOOKUP, links=Q, needle=Sym("needle")), Q, lambda e: e)
    return o


def cidok(h):
    return FALSE if h is EMPTY else mk("bool", "cidok", h)


def shard_match(o, v, link, needle):
    """the link is named by the two character prefix and the name"""
    n = v.name(link)
    if not o.some(n):
        return False
    n = unopt(n)
    return o.test(Lt(Int(2), Len(n))) and o.test(mk("bool", "charb", n, Int(2))) and o.test(Eq(needle, SubSeq(n, Int(2), Len(n))))


def shard_bucket(o, v, link):
    n = v.name(link)
    return o.some(n) and o.test(Eq(Len(unopt(n)), Int(2)))


def shard_rule(x, v, c, needle, queue, wrap):
    """stated result of looking at one shard with the given queue of shards left"""
    l = x.lab
    e = shard_unsupported(x, v, c.data)
    if e is not None:
        return x.eq(x.val, wrap(l.adt(LOOKERR, "Shard", e)), "shard with unsupported properties", props=("P09", "P31"))
    links = v.links(c.node)

    def badbucket(o, link, i):
        return shard_bucket(o, v, link) and not o.test(cidok(text(o, v.hash(link))))

    def stops(o, link, i):
        return shard_match(o, v, link, needle) or badbucket(o, link, i)

    def queued(o, i):
        link = At(links, i)
        if not shard_bucket(o, v, link):
            return EMPTY
        h = text(o, v.hash(link))
        return Seq(mk("cidof", h)) if o.test(cidok(h)) else EMPTY

    fst = None
    start = Int(0)
    for turn in (0, 1):
        if x.test(forall(x, links, lambda o, k, i: not stops(o, k, i), init=start)):
            break
        i = first(x, links, stops, init=start)
        link = At(links, i)
        h = text(x, v.hash(link))
        if shard_bucket(x, v, link):
            return x.eq(x.val, wrap(l.adt(LOOKERR, "InvalidCid", bad_cid(x, v, i, link))), "sub-shard link without a cid", props=("P13", "P31"))
        if fst is not None:
            if x.test(cidok(h)):
                e = l.adt(MULTI, "Two", fst, mk("tup", i, mk("cidof", h)))
            else:
                e = l.adt(MULTI, "OneValid", fst, bad_cid(x, v, i, link))
            return x.eq(x.val, wrap(l.adt(LOOKERR, "Multiple", e)), "second match in the shard", props=("P13", "P31"))
        if not x.test(cidok(h)):
            return x.eq(x.val, wrap(l.adt(LOOKERR, "InvalidCid", bad_cid(x, v, i, link))), "matching link without a cid", props=("P13", "P31"))
        fst = mk("tup", i, mk("cidof", h))
        start = Add(i, Int(1))
    props = ("P13", "P09")
    if fst is not None:
        return x.eq(x.val, Ok(l.adt(MAYBE, "Found", fst.a[1])), "shard with one match", props=props)
    new = x.canon(bind("fm", links, queued))
    q = Cat(queue, new) if queue_order(l) == "front" else Cat(Rev(new), queue)
    if x.test(Eq(Len(q), Int(0))):
        return x.eq(x.val, Ok(l.adt(MAYBE, "NotFound")), "no match and no shards left", props=props)
    x.eq(x.val, Ok(l.adt(MAYBE, "NeedToLoadMore", l.struct(LOOKUP, links=q, needle=needle))), "no match but shards left", props=props)


def empty_cache(l, c):
    return cache_facts(l, c, "dir::sharded_lookup::Cache", "buffer")


@spec_of("P09", "P13", "P15", "P31", "P33")
def lookup_continue(l):
    v = Voc(l)
    B, C, Q, N = Sym("block"), Sym("cache"), Sym("queue"), Sym("needle")
    me = l.struct(LOOKUP, links=Q, needle=N)
    queue_order(l)
    paths = l.run("dir::sharded_lookup::ShardedLookup::continue_walk", [me, B, ("mut", C)], facts=[(Lt(Int(0), Len(Q)), 1)] + empty_cache(l, C))
    n = Len(Q)
    rest = SubSeq(Q, Int(1), n) if queue_order(l) == "front" else SubSeq(Q, Int(0), Sub(n, Int(1)))
    where = "dir::sharded_lookup::ShardedLookup::continue_walk"

    def rule(x):
        if x.path.kind == "panic":
            return x.fail("continuing a lookup ends in a panic: %s" % (x.path.panic,), props=("P33",))
        c = flat(x, v, B)
        if c.kind in ("nodag", "badfs", "nodata"):
            e = NONE if c.kind == "nodata" else Some(c.err)
            return x.eq(x.val, Err(l.adt(LOOKERR, "Read", e)), "unreadable shard", props=("P31",))
        if not x.test(v.type_is(c.data, "HAMTShard")):
            return x.eq(x.val, Err(l.adt(LOOKERR, "UnexpectedBucketType", unexpected_type(x, v, c.data))), "block that is no shard", props=("P09", "P31"))
        return shard_rule(x, v, c, N, rest, lambda e: Err(e))
    l.check(where, paths, rule)
