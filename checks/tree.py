"""The tree builder: P01, P02, P23 (directories), P26, P27.

Directories are made by working through a list of things to do, taken from its end.  One turn is looked at, from any state."""
import re
from .base import *
from .effects import finding
from .adder import block_loops, cid_of, encoded_message, message, node_bytes
from .codec import Enc, built_link, rename
from engine.models import MapGet
from engine.spec import Path

B = "dir::builder::"
ITER, TODO, DIR, ENTRY, STORE = B + "iter::PostOrderIterator", B + "iter::Visited", B + "dir_builder::DirBuilder", B + "Entry", B + "iter::LeafStorage"
TNODE, LEAF, NLEAF, OPTS = B + "iter::TreeNode", B + "Leaf", B + "NamedLeaf", B + "TreeOptions"
ERR, META, TREE = B + "TreeConstructionFailed", "Metadata", B + "buffered::BufferingTreeBuilder"
ABSENT = mk("absent")


def variant(l, path, name, /, **fields):
    """a value of a variant, by the names of its fields"""
    vs = [v for v in l.eng.variants(path) if v["name"] == name]
    if not vs or set(f[0] for f in vs[0]["fields"]) != set(fields):
        raise Missing("variant %s of %s" % (name, path))
    return l.adt(path, name, *[fields[f[0]] for f in vs[0]["fields"]])


class State:
    """the parts of the iterator a turn depends on"""

    def __init__(self, l, v):
        self.todo, self.lists = [l.field(v, ITER, n) for n in ("pending", "persisted_cids")]
        o = l.field(v, ITER, "opts")
        self.limit, self.wrap = l.field(o, OPTS, "block_size_limit"), l.field(o, OPTS, "wrap_with_directory")
        self.v = v


def one_turn(l, path, it, facts=()):
    """(state before, paths that end the call, turns that go on)"""
    e = l.eng
    body, seen = l.fn(path), []

    def pred(b, h, blocks):
        if b is body and not seen:
            seen.append(h)
        return b is body and h == seen[0]
    e.stepfn, e.steprecs, e.no_overflow = pred, [], True
    try:
        paths = l.run(path, [("mut", it)], facts=facts)
        recs = e.steprecs
    finally:
        e.stepfn, e.steprecs, e.no_overflow = None, [], False
    if len(recs) != 1:
        raise Missing("the loop of " + path)
    _, info, backs = recs[0]
    root = l.roots[0]
    s = info.st0.copy()
    for loc, t in zip(info.locs, info.phis):
        if loc[0] == root:
            e.write_loc(s, loc[0], loc[1], t)
    names = {t: Sym("state%d" % i) for i, t in enumerate(info.phis)}
    before = subst(e.read_loc(s, root, ()), names)
    inits = dict(zip((names[t] for t in info.phis), info.inits))

    def renamed(kind, facts, val, out, panic=None):
        return Path(kind, vf.State({}, vf.Facts(rename(facts, names))), val if val is None else subst(val, names), [subst(out, names)], panic)
    ends = [renamed(p.kind, p.st.facts, p.val, p.outs[0], p.panic) for p in paths]
    goes = [renamed("turn", b.facts, None, e.snapshot(b, e.read_loc(b, root, ()))) for b in backs]
    return before, ends, goes, inits


def settled(l, before, ends, goes, start):
    """lists of the state that are empty at the beginning and after every turn, if they were before: they are always empty"""
    fs = [i for i, f in enumerate(l.eng.variants(ITER)[0]["fields"]) if Fld(before, (0, i)).op == "sym" and Fld(start, (0, i)) is EMPTY]
    while fs:
        m = {Fld(before, (0, i)): EMPTY for i in fs}
        bad = [i for i in fs if any(subst(Fld(p.outs[0], (0, i)), m) is not EMPTY for p in goes)]
        if not bad:
            break
        fs = [i for i in fs if i not in bad]
    if not fs:
        return before, ends, goes
    m = {Fld(before, (0, i)): EMPTY for i in fs}

    def put(ps):
        out = []
        for p in ps:
            f = vf.State({}, vf.Facts())
            if all(put_fact(f, subst(t, m), r) for t, r in p.st.facts.items()):
                q = Path(p.kind, f, None if p.val is None else subst(p.val, m), [subst(o, m) for o in p.outs], p.panic)
                out.append(q)
        return out
    return subst(before, m), put(ends), put(goes)


def put_fact(st, t, r):
    if t.op == "int":
        return r[0] <= t.a[0] <= r[1]
    if t in st.facts or r[0] != r[1] or t.op not in ("lt", "eq", "bool", "has", "allc"):
        return st.narrow(t, r[0], r[1])
    return st.assume(t, r[0])


def listed(l, x, entries):
    """what is known of a directory's links before its subdirectories are done"""
    def one(o, i):
        k, v = [Fld(At(entries, i), (0, j)) for j in (0, 1)]
        if o.test(is_dir(l, v)):
            return Seq(NONE)
        leaf = l.field(v, ENTRY, l_first(l, ENTRY, "Leaf"), "Leaf")
        return Seq(Some(Adt(NLEAF, 0, [k, l.field(leaf, LEAF, "link"), l.field(leaf, LEAF, "total_size")])))
    return x.canon(bind("fm", entries, one))


def l_first(l, path, name):
    vs = [v for v in l.eng.variants(path) if v["name"] == name]
    if not vs or len(vs[0]["fields"]) != 1:
        raise Missing("variant %s of %s" % (name, path))
    return vs[0]["fields"][0][0]


def is_dir(l, v):
    for y in l.eng.variants(ENTRY):
        if y["name"] == "Directory":
            return Eq(drange(Discr(v), ENTRY), Int(y["discr"]))
    raise Missing("directories")


def children(l, x, entries, depth):
    def one(o, i):
        k, v = [Fld(At(entries, i), (0, j)) for j in (0, 1)]
        if not o.test(is_dir(l, v)):
            return EMPTY
        d = l.field(v, ENTRY, l_first(l, ENTRY, "Directory"), "Directory")
        return Seq(variant(l, TODO, "Descent", node=d, name=k, depth=Add(depth, Int(1)), index=i))
    return x.canon(bind("fm", entries, one))


def queued(x, new, below):
    """(what was put on a list first, the rest that was put there)"""
    if new.op != "cat" or new.a[0] is not below or len(new.a) < 2 or new.a[1].op != "seq":
        if new.op != "seq" or not x.same(below, EMPTY):
            return None
        new = mk("cat", below, new)
    rest = Cat(*([Seq(*new.a[1].a[1:])] if len(new.a[1].a) > 1 else []), *new.a[2:])
    return new.a[1].a[0], rest.a[0] if rest.op == "rev" else rest


def mode_and_time(l, x, m):
    """the fields of the message that state a directory's metadata"""
    if m is None:
        return dict(mode=NONE, mtime=NONE)
    t = l.field(m, META, "mtime")
    if not x.some(t):
        return dict(mode=l.field(m, META, "mode"), mtime=NONE)
    s, n = [Fld(unopt(t), (0, i)) for i in (0, 1)]
    nano = NONE if x.test(Eq(n, Int(0))) else Some(n)
    return dict(mode=l.field(m, META, "mode"), mtime=Some(l.struct(TIME, Seconds=s, FractionalNanoseconds=nano)))


def links_of(x, l, ls):
    return x.canon(bind("fm", ls, lambda o, i: built_link(o, unopt(At(ls, i))) if o.some(At(ls, i)) else EMPTY))


def stored(l, x, s, where):
    """(the list, the lists that are left, is it one of its own)"""
    if x.variant(where, STORE) == "Direct":
        return l.field(where, STORE, l_first(l, STORE, "Direct"), "Direct"), s.lists
    k = l.field(where, STORE, l_first(l, STORE, "Stashed"), "Stashed")
    return MapGet(s.lists, k), SetFld(s.lists, ("key", k), ABSENT)


def rendered(l, x, s, item, name):
    """obligations for a directory that is handed out, or refused; (cid, total size) if handed out"""
    ls, rest = stored(l, x, s, l.field(item, TODO, "leaves", name))
    meta = l.field(item, TODO, "metadata", name) if name == "Post" else None
    mt = mode_and_time(l, x, meta)
    want = x.settle(node_bytes(x, links_of(x, l, ls), message(l, "Directory", **mt)))
    size = Len(want)
    after = State(l, x.outs[0])
    x.settle_facts()
    big = x.some(s.limit) and x.test(Lt(unopt(s.limit), size))
    v = x.val
    if v.op != "adt" or v.a[3] != "Some":
        x.fail("nothing is handed out for a directory that is to be made", props=("P02", "P26"))
        return None
    r = v.a[2][0]
    if big:
        x.eq(x.settle(r), Err(l.adt(ERR, "TooLargeBlock", size)), "a directory above the limit", props=("P27",))
        x.eq(after.todo, EMPTY, "directories to be made after one is refused", props=("P27",))
        return None
    if r.op == "adt" and r.a[3] == "Err":
        x.fail("a directory within the limit is refused", props=("P27",))
        return None
    n = r.a[2][0] if r.op == "adt" else Fld(r, (0, 0))
    block, cid, total = [x.settle(l.field(n, TNODE, f)) for f in ("block", "cid", "total_size")]
    x.eq(cid, cid_of(l, block), "address of a directory", props=("P01",))
    m = encoded_message(block)
    if m is not None and m.op == "adt":
        for f in ("mode", "mtime"):
            x.eq(l.field(m, DATA, f), mt[f], "%s of a directory" % f, props=("P23",))
        for f in l.eng.variants(DATA)[0]["fields"]:
            f = f[0]
            if f not in mt:
                x.eq(l.field(m, DATA, f), l.field(message(l, "Directory"), DATA, f), "%s of a directory" % f, props=("P26",))
        x.eq(block, subst(want, {Enc(message(l, "Directory", **mt)): Enc(m)}), "links in a directory", props=("P26",))
    else:
        x.eq(block, want, "bytes of a directory", props=("P26", "P23"))
    sizes = x.canon(bind("fsum", ls, lambda o, i: Fld(unopt(At(ls, i)), (0, 2)) if o.some(At(ls, i)) else Int(0)))
    x.eq(total, x.settle(Add(Len(block), sizes)), "total size of a directory", props=("P26",))
    return block, cid, total, rest


def is_panic(x):
    return x.path.kind == "panic"


@spec_of("P26")
def sorted_entries(l):
    """entries are kept in the order of the bytes of their names"""
    ty = l.dumps[0]["types"]
    for t in ty:
        if t.get("adt") == DIR and t.get("variants"):
            fs = dict(t["variants"][0]["fields"])
            if "nodes" not in fs:
                raise Missing("entries of a directory")
            s = ty[fs["nodes"]]["str"]
            l.stats["obligations"] += 1
            if re.search(r"hash::map::HashMap|HashSet|IndexMap", s):
                return finding(l, DIR, "order of the entries", "the entries of a directory are kept in a %s, which does not keep them sorted by name" % s)
            m = re.match(r"alloc::collections::btree::map::BTreeMap<([^,]*),", s)
            if m and m.group(1) not in ("alloc::string::String", "&str", "alloc::vec::Vec<u8>") and m.group(1) in l.eng.adts:
                return l.undecided.append((DIR, "order of the entries", "names are kept as " + m.group(1)))
            l.stats["proved"] += 1
            return
    raise Missing("directories")


@spec_of("P01", "P02", "P23", "P26", "P27")
def tree(l):
    it, root, opts = Sym("it"), Sym("root"), Sym("opts")
    path = ITER + "::next_borrowed"
    start = tree_start(l)
    before, ends, goes, inits = one_turn(l, path, it)
    before, ends, goes = settled(l, before, ends, goes, start)
    s = State(l, before)

    def rule(x):
        if is_panic(x):
            return
        after = State(l, x.outs[0])
        ends = x.path.kind == "ret"
        if x.test(Eq(Len(s.todo), Int(0))):
            if ends:
                return x.eq(x.val, NONE, "result when nothing is left to do", props=("P02", "P26"))
            return x.fail("goes on when nothing is left to do", props=("P02",))
        n = Sub(Len(s.todo), Int(1))
        item, below = At(s.todo, n), SubSeq(s.todo, Int(0), n)
        kind = x.variant(item, TODO)
        if kind in ("DescentRoot", "Descent"):
            if ends:
                return x.fail("a directory is handed out before its subdirectories", props=("P02",))
            deep = kind == "Descent"
            node = l.field(item, TODO, "node" if deep else l_first(l, TODO, kind), kind)
            entries = mk("mapseq", l.field(node, DIR, "nodes"))
            depth = l.field(item, TODO, "depth", kind) if deep else Int(0)
            kids = children(l, x, entries, depth)
            ls = listed(l, x, entries)
            new = after.todo
            # the directory itself comes below its subdirectories
            q = queued(x, new, below)
            if q is None or q[0].op != "adt" or q[0].a[3] != ("Post" if deep else "PostRoot"):
                return x.eq(new, Cat(below, kids), "what is left to do on the way down", props=("P02", "P26"))
            post, rest = q
            x.eq(rest, kids, "subdirectories to be made before their directory", props=("P02", "P26"))
            where = l.field(post, TODO, "leaves", post.a[3])
            if where.op != "adt":
                return x.open("place of the links of a directory", show(where, 4)[:200])
            if where.a[3] == "Direct":
                x.eq(where.a[2][0], ls, "links of a directory without subdirectories", props=("P26",))
                x.eq(kids, EMPTY, "subdirectories of a directory that does not keep a list for them", props=("P26",))
                x.eq(after.lists, s.lists, "lists of links", props=("P26",))
            else:
                k = l.field(node, DIR, "id")
                x.eq(where.a[2][0], k, "list kept for subdirectories", props=("P26",))
                x.eq(after.lists, SetFld(s.lists, ("key", k), ls), "list of links kept for subdirectories", props=("P26",))
            if deep:
                for f in ("name", "index"):
                    x.eq(l.field(post, TODO, f, "Post"), l.field(item, TODO, f, kind), "%s of a directory" % f, props=("P26",))
                x.eq(l.field(post, TODO, "parent_id", "Post"), unopt(l.field(node, DIR, "parent_id")), "parent of a directory", props=("P26",))
                x.eq(l.field(post, TODO, "metadata", "Post"), l.field(node, DIR, "metadata"), "metadata of a directory", props=("P23",))
            return
        if kind == "PostRoot" and not x.test(s.wrap):
            # only the entries of the root are wanted
            if ends:
                return x.eq(x.val, NONE, "result for a root that is not to be made", props=("P26",))
            return x.eq(after.todo, below, "what is left to do after the root", props=("P26",))
        if not ends:
            return x.fail("a directory that is due is not handed out", props=("P02", "P26"))
        r = rendered(l, x, s, item, kind)
        if r is None:
            return
        block, cid, total, rest = r
        x.eq(after.todo, below, "what is left to do after a directory", props=("P02",))
        if kind == "Post":
            pid, i = l.field(item, TODO, "parent_id", kind), l.field(item, TODO, "index", kind)
            old = MapGet(rest, pid)
            mine = Adt(NLEAF, 0, [l.field(item, TODO, "name", kind), cid, total])
            lists = x.settle(after.lists)
            x.eq(lists, SetFld(rest, ("key", pid), SetFld(old, ("idx", i), Some(mine))), "links of the parent of a directory", props=("P26",))
            got = At(MapGet(lists, pid), i)
            if got.op == "adt" and got.a[3] == "Some":
                x.eq(Fld(got.a[2][0], (0, 1)), cid, "address by which a directory is linked to", props=("P01",))
    l.check(path, ends, rule)
    l.check(path, goes, rule)


def tree_start(l):
    """what a new iterator has to do"""
    b = Sym("builder")
    path = TREE + "::build"
    ps = [p for p in l.run(path, [b]) if p.kind == "ret"]
    if not ps:
        raise Missing("trees")

    def rule(x):
        s = State(l, x.val)
        x.eq(s.todo, Seq(l.adt(TODO, "DescentRoot", l.field(b, TREE, "root_builder"))), "what is to be done at first", props=("P02", "P26"))
        o = l.field(b, TREE, "opts")
        x.eq(s.limit, l.field(o, OPTS, "block_size_limit"), "limit on the size of blocks", props=("P27",))
        x.eq(s.wrap, l.field(o, OPTS, "wrap_with_directory"), "wrapping in a directory", props=("P26",))
    l.check(path, ps, rule)
    return ps[0].val


@spec_of("P25", "P26", "P27")
def options(l):
    o = Sym("options")
    lim, wrap = [l.field(o, OPTS, n) for n in ("block_size_limit", "wrap_with_directory")]
    n = Sym("limit")

    def limit(x):
        if not is_panic(x):
            x.eq(l.field(x.outs[0], OPTS, "block_size_limit"), n, "limit that was set", props=("P27",))
            x.eq(l.field(x.outs[0], OPTS, "wrap_with_directory"), wrap, "wrapping when a limit is set", props=("P25", "P26"))

    def wrapping(x):
        if not is_panic(x):
            x.eq(l.field(x.outs[0], OPTS, "block_size_limit"), lim, "limit when wrapping is set", props=("P27",))
            x.eq(l.field(x.outs[0], OPTS, "wrap_with_directory"), TRUE, "wrapping that was set", props=("P25", "P26"))
    l.check(OPTS + "::block_size_limit", l.run(OPTS + "::block_size_limit", [("mut", o), n]), limit)
    l.check(OPTS + "::wrap_with_directory", l.run(OPTS + "::wrap_with_directory", [("mut", o)]), wrapping)


# ---------------------------------------------------------------- adding to the tree
FAIL = B + "TreeBuildingFailed"


def walks(l, path, args):
    """(ends, turns): paths that end a call and turns that go on; .way tells which turn of the loop they belong to, and .before and
    .after the directory that is looked at, .counter and .counter2 the numbers for new directories, .to the way to the next directory"""
    e = l.eng
    e.stepfn, e.steprecs, e.no_overflow = block_loops(l, lambda f: "btree::map" in (f.get("path") or f["decl"])), [], True
    try:
        paths = l.run(path, args)
        recs = e.steprecs
    finally:
        e.stepfn, e.steprecs, e.no_overflow = None, [], False
    root = l.roots[0]
    by = {}
    goes = []
    for n, (_, info, backs) in enumerate(recs):
        if not backs:
            continue            # ends in its first turn: the state is the one at the beginning
        cur = [i for i, t in enumerate(info.inits) if t.op == "mref"]
        if len(cur) != 1:
            raise Missing("the directory that is looked at")
        pos = [i for i, t in enumerate(info.inits) if t is Int(0) and all(e.read_loc(b, *info.locs[i]) is Add(info.phis[i], Int(1)) for b in backs)]
        if not pos:
            raise Missing("the position in the path")
        names = {t: Sym("at%d" % n if i in pos else "dir%d" % n if i == cur[0] else "state%d_%d" % (n, i)) for i, t in enumerate(info.phis)}
        s = info.st0.copy()
        for loc, t in zip(info.locs, info.phis):
            if loc[0] == root:
                e.write_loc(s, loc[0], loc[1], t)
        self0 = subst(e.snapshot(s, e.read_loc(s, root, ())), names)
        k = ("cur", info.lid, cur[0])
        by[k] = (names, self0, names[info.phis[pos[0]]], names[info.phis[cur[0]]])
        for b in backs:
            p = Path("turn", vf.State({}, vf.Facts(rename(b.facts, names))), None, [subst(e.snapshot(b, e.read_loc(b, root, ())), names)])
            to = e.read_loc(b, *info.locs[cur[0]])
            p.focus = {k: subst(e.snapshot(b, b.mem[k]), names)}
            p.to = tuple((c[0], subst(c[1], names)) if isV(c[1]) else c for c in to.a[1]) if to.op == "mref" and to.a[0] == k else None
            goes.append(p)
    ends = []
    for p in paths:
        ks = [k for k in p.focus if k in by]
        if ks:
            names = by[ks[0]][0]
            q = Path(p.kind, vf.State({}, vf.Facts(rename(p.st.facts, names))), None if p.val is None else subst(p.val, names),
                     [None if o is None else subst(o, names) for o in p.outs], p.panic)
            q.focus = {ks[0]: subst(p.focus[ks[0]], names)}
            p = q
        p.to = None
        ends.append(p)
    if not by:
        raise Missing("the loop over the segments of a path")
    for p in ends + goes:
        p.way, p.self0, p.first = Int(0), args[0][1], True
        p.before, p.after = [l.field(v, TREE, "root_builder") if v is not None else None for v in (p.self0, p.outs[0])]
        for k, after in p.focus.items():
            if k in by:
                _, self0, at, before = by[k]
                p.way, p.self0, p.before, p.after, p.first = at, self0, before, after, False
    return ends, goes


def adding(l, name, args, new):
    """new(x, nodes, k, fresh, path): (error or None, the directory's entries afterwards) of adding under k"""
    tb, path = Sym("tree"), Sym("path")
    fn = TREE + "::" + name
    ends, goes = walks(l, fn, [("mut", tb), path] + args)
    sl = Int(ord("/"))
    S = mk("split", path, Bytes("2f"))
    for p in ends + goes:
        if not p.first and not any(y.op == "split" for f in p.st.facts for y in subterms(f)):
            raise Missing("the segments of the path")

    def error(name):
        return Err(l.adt(FAIL, name, path))

    def rooted(x):
        t, w = Eq(At(path, Int(0)), sl), x.path.way
        if w is Int(0) and x.path.first:
            return x.test(t)
        # later segments are looked at when the first one was not empty
        yes = x.test(Eq(w, Int(0))) and x.test(Eq(Len(At(S, w)), Int(0)))
        if yes and not x.test(Lt(Add(w, Int(1)), Len(S))) or x.test(t) != yes and x.test(Eq(w, Int(0))):
            raise Infeasible()
        return yes

    def flaws(x):
        """errors that name a flaw of the path"""
        out = []
        full = x.test(Lt(Int(0), Len(path)))
        if full and x.test(Eq(At(path, Sub(Len(path), Int(1))), sl)):
            out.append("PathEndsInSlash")
        if x.test(mk("bool", "contains", path, Bytes("2f2f"))):
            out.append("RepeatSlashesInPath")
        # a path that begins with a slash has an empty first segment, and another one after it
        if full and rooted(x):
            out.append("RootedPath")
        return out

    def rule(x):
        if is_panic(x):
            return
        p = x.path
        if not p.first:
            if not x.test(Lt(p.way, Len(S))):
                return
            if not x.test(Lt(Int(0), Len(path))) and (x.test(Lt(Int(0), p.way)) or x.test(Lt(Add(p.way, Int(1)), Len(S)))
                                                      or x.test(Lt(Int(0), Len(At(S, p.way))))):
                return      # the empty path has one segment, which is empty
        fl = flaws(x)
        if fl:
            if p.kind != "ret":
                return x.fail("a malformed path is not rejected at once", props=("P24",))
            if not any(x.same(x.val, error(f)) for f in fl):
                x.eq(x.val, error(fl[0]), "result for a malformed path", props=("P24",))
            else:
                x.good()
        if p.first and fl:
            for f in ("root_builder", "counter", "opts"):
                x.eq(l.field(x.outs[0], TREE, f), l.field(tb, TREE, f), "%s after a malformed path" % f, props=("P24",))
            return
        before, after = p.before, p.after
        if fl:
            return x.eq(after, before, "directory after a malformed path", props=("P24",))
        self1 = x.outs[0]
        c0, c1 = [l.field(v, TREE, "counter") for v in (p.self0, self1)]
        wrap = l.field(l.field(p.self0, TREE, "opts"), OPTS, "wrap_with_directory")
        nodes = l.field(before, DIR, "nodes")
        k = At(S, p.way)
        last = not x.test(Lt(Add(p.way, Int(1)), Len(S)))
        has = x.test(models.Has(nodes, k))
        full = x.test(Eq(p.way, Int(0))) and not x.test(wrap) and x.test(Lt(Int(0), mk("maplen", nodes)))
        x.holds(Not(Lt(c1, c0)), "numbers of directories grow", props=("P26",))

        def with_nodes(v):
            return SetFld(before, (0, [f[0] for f in l.eng.variants(DIR)[0]["fields"]].index("nodes")), v)

        def rejected(errs, what):
            if p.kind != "ret":
                return x.fail(what + " is accepted", props=("P25",))
            if errs and any(x.same(x.val, e) for e in errs):
                x.good()
            else:
                x.eq(x.val, errs[0], "result for " + what, props=("P25",))
            x.eq(after, before, "directory after " + what, props=("P25",))
        old = MapGet(nodes, k)
        isdir = has and x.test(is_dir(l, old))
        full_err = Err(l.adt(FAIL, "TooManyRootLevelEntries"))
        if full and not has:
            return rejected([full_err], "a second entry at the top level")
        if not last:
            if has and not isdir:
                return rejected([error("LeafAsDirectory")], "a link used as a directory")
            if p.kind != "turn":
                return x.fail("a path is not followed to its end", props=("P25", "P26"))
            want_to = (field_key(l, DIR, "nodes"), ("key", k), (variant_index(l, ENTRY, "Directory"), 0))
            if p.to is None:
                return x.open("way to the next directory", "not known")
            tell(x, p.to == want_to, "the next directory on the way is not the one of that name", props=("P26",))
            if has:
                return x.eq(after, before, "a directory that is only passed", props=("P25", "P26"))
            return fresh_entry(x, before, after, nodes, k, c0, c1, with_nodes, NO_META)
        if p.kind != "ret":
            return x.fail("goes on after the end of the path", props=("P25", "P26"))
        new(x, p, before, after, nodes, k, old, has, isdir, full, rejected, error, full_err, with_nodes, c0, c1)

    def fresh_entry(x, before, after, nodes, k, c0, c1, with_nodes, meta):
        e = MapGet(l.field(after, DIR, "nodes"), k)
        d = e.a[2][0] if e.op == "adt" and e.a[3] == "Directory" else None
        if d is None:
            return x.eq(l.field(after, DIR, "nodes"), SetFld(nodes, ("key", k), mk("newdir")), "a new directory", props=("P26",))
        i = l.field(d, DIR, "id")
        x.holds(And(Not(Lt(i, c0)), Lt(i, c1)), "number of a new directory is its own", props=("P26",))
        want = l.struct(DIR, nodes=l.field(d, DIR, "nodes"), metadata=l.field(d, DIR, "metadata"), parent_id=Some(l.field(before, DIR, "id")), id=i)
        empty = l.field(d, DIR, "nodes")
        if empty.op == "map0":
            x.good()
        else:
            x.eq(mk("maplen", empty), Int(0), "entries of a new directory", props=("P26",))
        x.eq(l.field(d, DIR, "metadata"), meta(l), "metadata of a new directory", props=("P23",))
        x.eq(after, with_nodes(SetFld(nodes, ("key", k), l.adt(ENTRY, "Directory", want))), "directory with a new one in it", props=("P26",))
    adding.fresh = fresh_entry
    l.check(fn, ends, rule)
    l.check(fn, goes, rule)


def NO_META(l):
    return l.struct(META, mode=NONE, mtime=NONE)


def field_key(l, adt, name):
    return (0, [f[0] for f in l.eng.variants(adt)[0]["fields"]].index(name))


def variant_index(l, adt, name):
    return [v["name"] for v in l.eng.variants(adt)].index(name)


def tell(x, good, what, props):
    return x.good() if good else x.fail(what, props=props)


@spec_of("P24", "P25", "P26")
def put_link(l):
    cid, size = Sym("target"), Sym("size")

    def new(x, p, before, after, nodes, k, old, has, isdir, full, rejected, error, full_err, with_nodes, c0, c1):
        if has:
            return rejected([error("DuplicatePath")] + ([full_err] if full else []), "a name that is taken")
        x.eq(x.val, Ok(UNIT), "result of adding a link", props=("P24", "P25", "P26"))
        leaf = l.adt(ENTRY, "Leaf", l.struct(LEAF, link=cid, total_size=size))
        x.eq(after, with_nodes(SetFld(nodes, ("key", k), leaf)), "directory with a new link", props=("P26",))
    adding(l, "put_link", [cid, size], new)


@spec_of("P23", "P24", "P25", "P26")
def set_metadata(l):
    meta = Sym("metadata")

    def new(x, p, before, after, nodes, k, old, has, isdir, full, rejected, error, full_err, with_nodes, c0, c1):
        if has and not isdir:
            return rejected([error("LeafAsDirectory")] + ([full_err] if full else []), "metadata for a link")
        if full and x.same(x.val, full_err):
            # the directory at the top of the tree, without wrapping
            return x.eq(after, before, "directory after metadata is rejected", props=("P25",))
        x.eq(x.val, Ok(UNIT), "result of setting metadata", props=("P24", "P25", "P26"))
        if has:
            d = Fld(old, (variant_index(l, ENTRY, "Directory"), 0))
            key = (field_key(l, DIR, "nodes"), ("key", k), (variant_index(l, ENTRY, "Directory"), 0), field_key(l, DIR, "metadata"))
            got = after
            for c in key:
                got = Fld(got, c)
            x.eq(got, meta, "metadata of a directory", props=("P23",))

            def put(v, i):
                return meta if i == len(key) else SetFld(v, key[i], put(Fld(v, key[i]), i + 1))
            return x.eq(after, put(before, 0), "directory after metadata is set in it", props=("P25", "P26"))
        adding.fresh(x, before, after, nodes, k, c0, c1, with_nodes, lambda l: meta)
    adding(l, "set_metadata", [meta], new)


@spec_of("P25", "P26")
def new_tree(l):
    """a new tree has nothing in it"""
    o = Sym("options")
    path = TREE + "::new"

    def rule(x):
        if is_panic(x):
            return
        r = l.field(x.val, TREE, "root_builder")
        nodes = l.field(r, DIR, "nodes")
        if nodes.op != "map0":
            x.eq(mk("maplen", nodes), Int(0), "entries of a new tree", props=("P26",))
        x.holds(Lt(l.field(r, DIR, "id"), l.field(x.val, TREE, "counter")), "number of the root is its own", props=("P26",))
        x.eq(l.field(x.val, TREE, "opts"), o, "options of a new tree", props=("P25", "P26"))
    l.check(path, l.run(path, [o]), rule)
