"""P40: owned copies. P41: the path a directory is handed out with."""
from .base import *
from . import tree as T
from .access import shows
from .codec import rename
from engine.spec import Path

UPDATE = "update_full_path"
OWNED = T.B + "iter::OwnedTreeNode"


# ------------------------------------------------------------ owned copies

@spec_of("P40")
def owned_nodes(l):
    fs = ("path", "cid", "total_size", "block")
    vs = {f: Sym(f) for f in fs}
    shows(l, T.TNODE + "::<'_>::into_owned" if l.has_fn(T.TNODE + "::<'_>::into_owned") else T.TNODE + "::into_owned",
          [l.struct(T.TNODE, **vs)], l.struct(OWNED, **vs), "owned copy of a directory", ("P40",))


@spec_of("P40")
def by_value(l):
    """going over the tree by value hands out copies of what going over it by reference does"""
    path = "<%s as core::iter::traits::iterator::Iterator>::next" % T.ITER
    inner = l.fn(T.ITER + "::next_borrowed")
    it = Sym("it")
    ps = l.run(path, [("mut", it)], opaque=lambda b: b.key == inner.key)

    step, left = Sym("step"), Sym("state after the step")
    out = []
    for p in ps:
        cs = calls(p, "next_borrowed")
        r, m = [[t for t in cs if t.op == o] for o in ("ap", "mut")]
        if len(r) != 1 or len(m) > 1 or r[0].a[1:] != (it,):
            l.undecided.append((path, "the step by reference", "%d calls" % len(r)))
            continue
        names = {r[0]: step}
        if m:
            names[m[0]] = left
        out.append(named(p, names))

    def rule(x):
        if x.path.kind == "panic":
            return x.fail("a directory that is handed out by reference is not handed out by value", props=("P40",))
        x.eq(x.outs[0], left, "state after a step by value", props=("P40",))
        if not x.some(step):
            return x.eq(x.val, NONE, "result when nothing is left", props=("P40",))
        u = unopt(step)
        if x.test(Eq(drange(Discr(u), RES), Int(1))):
            return x.eq(x.val, Some(Err(Fld(u, (1, 0)))), "error when going over the tree by value", props=("P40",))
        n = Fld(u, (0, 0))
        x.eq(x.val, Some(Ok(l.struct(OWNED, **{f: l.field(n, T.TNODE, f) for f in ("path", "cid", "total_size", "block")}))), "directory handed out by value", props=("P40",))
    l.check(path, out, rule)


# ------------------------------------------------------------ paths of directories

def named(p, names):
    """a path with the results of a call as values of their own"""
    st = vf.State({}, vf.Facts())
    for t, r in p.st.facts.items():
        T.put_fact(st, subst(t, names), r)
    return Path(p.kind, st, p.val if p.val is None else subst(p.val, names), [None if o is None else subst(o, names) for o in p.outs], p.panic)


def calls(p, name):
    vs = [p.val] + list(p.outs) + list(p.st.facts)
    return {t for v in vs if v is not None for t in subterms(v) if t.op in ("ap", "mut") and str(t.a[0]).split("::")[-1] == name}


def update_body(l):
    bs = [b for b in l.eng.bodies.values() if b.path.startswith(T.B) and b.path.split("::")[-1] == UPDATE]
    if len(bs) != 1:
        raise Missing(UPDATE)
    return bs[0]


def roles(l, b):
    """what the parameters of the function are: ((role, ...) or role) by type"""
    ty = b.types

    def one(t):
        t = ty[t]
        if t["k"] == "ref" and t.get("mut"):
            s = ty[t["to"]]["str"] if "to" in t else t["str"]
            return "P" if "String" in s else "D" if "usize" in s else None
        if t["k"] == "tuple":
            return tuple(one(f) for f in t["fields"])
        return "depth" if t["str"] == "usize" else "name" if "Option<&" in t["str"] and "str>" in t["str"] else None
    rs = [one(b.j["locals"][i + 1]) for i in range(b.argc)]
    flat = [r for x in rs for r in (x if isinstance(x, tuple) else (x,))]
    if sorted(map(str, flat)) != sorted(("P", "D", "name", "depth")):
        raise Missing("parameters of " + b.path)
    return rs


@spec_of("P41")
def path_turns(l):
    """one step of making the path of the next directory from that of the last one"""
    b = update_body(l)
    e = l.eng
    at = {"P": Sym("path"), "D": Sym("segments"), "name": Sym("name"), "depth": Sym("depth")}
    args, where, n = [], {}, 0
    for r in roles(l, b):
        if isinstance(r, tuple):
            if any(y not in ("P", "D") for y in r):
                raise Missing("parameters of " + b.path)
            args.append(("muts",) + tuple(at[y] for y in r))
            n += 1
            for y in r:
                where[y], n = n, n + 1
        else:
            where[r] = n
            args.append(("mut", at[r]) if r in ("P", "D") else at[r])
            n += 1
    name, depth = at["name"], at["depth"]
    seen = []

    def pred(bb, h, blocks):
        if bb is b and not seen:
            seen.append(h)
        return bb is b and h == seen[0]
    e.stepfn, e.steprecs, e.no_overflow = pred, [], True
    try:
        # a name comes with every depth but the topmost
        ps = []
        for some in (0, 1):
            seen.clear()
            facts = [(drange(Discr(name), OPT), some), (Lt(Int(0), depth), some)]
            k = len(e.steprecs)
            ps += [(p, k) for p in l.run(b.path, args, facts=facts)]
            roots = list(l.roots)
            for rec in e.steprecs[k:]:
                rec[1].myroots = roots
        recs = e.steprecs
    finally:
        e.stepfn, e.steprecs, e.no_overflow = None, [], False
    names = {}
    for _, info, _ in recs:
        mine = {info.myroots[where["P"]]: at["P"], info.myroots[where["D"]]: at["D"]}
        for loc, t in zip(info.locs, info.phis):
            if loc[1] != () or loc[0] not in mine:
                raise Missing("state of the loop of " + b.path)
            names[t] = mine[loc[0]]

    def renamed(kind, facts, val, outs, panic=None):
        return Path(kind, vf.State({}, vf.Facts(rename(facts, names))), val, outs, panic)
    every = []
    for p, _ in ps:
        every.append(renamed(p.kind, p.st.facts, None, [subst(p.outs[where[k]], names) for k in ("P", "D")], p.panic))
    for _, info, backs in recs:
        for q in backs:
            every.append(renamed("turn", q.facts, None, [subst(e.snapshot(q, e.read_loc(q, info.myroots[where[k]], ())), names) for k in ("P", "D")]))
    P, D, nm = at["P"], at["D"], unopt(name)

    def rule(x):
        p1, d1 = x.outs

        def ends(p, d, what):
            if x.path.kind == "turn":
                return x.fail("goes on making the path of " + what, props=("P41",))
            x.eq(p1, p, "path of " + what, props=("P41",))
            x.eq(d1, d, "number of segments of the path of " + what, props=("P41",))
        if x.test(Lt(depth, Int(2))):
            if x.path.kind == "panic":
                return x.fail("no path is made for a directory at the top", props=("P41",))
            if not x.some(name):
                return ends(EMPTY, Int(0), "the root")
            return ends(nm, Int(1), "a directory at the top")
        # what holds of the path that was made last: it has as many segments as it is deep, none of them empty
        if x.test(Eq(Len(P), Int(0))) or x.test(Eq(D, Int(0))):
            return
        if x.test(Lt(D, depth)):
            if not x.test(Eq(Add(D, Int(1)), depth)):
                return
            if x.path.kind == "panic":
                return x.fail("no path is made for a directory below the last one", props=("P41",))
            return ends(Cat(P, Bytes("2f"), nm), depth, "a directory below the last one")
        if x.test(x.canon(models.lacks(P, 0x2f))):
            return
        i = x.canon(models.byte_pos(P, 0x2f, True))
        if x.path.kind == "panic":
            if "charboundary" in str(x.path.panic):
                # a slash is a whole character
                return
            return x.fail("no path is made for a directory beside or above the last one", props=("P41",))
        if x.path.kind == "turn":
            x.eq(p1, SubSeq(P, Int(0), i), "path without its last segment", props=("P41",))
            return x.eq(d1, Sub(D, Int(1)), "number of segments of a path without its last segment", props=("P41",))
        # the directory whose path was made last
        if not x.test(Eq(D, depth)):
            return x.fail("the path of a directory deeper in the tree is kept", props=("P41",))
        x.eq(SubSeq(P, Add(i, Int(1)), Len(P)), nm, "last segment of a path that is kept", props=("P41",))
        ends(P, D, "the directory that was on the way")
    l.check(b.path, every, rule)


@spec_of("P41")
def node_paths(l):
    """every directory is handed out with the path made from its own name and depth"""
    b = update_body(l)
    flat = [r for x in roles(l, b) for r in (x if isinstance(x, tuple) else (x,))]
    path = T.ITER + "::next_borrowed"
    e = l.eng
    old = e.opaque_fn
    e.opaque_fn = lambda y: y.key == b.key
    try:
        before, ends, goes, inits = T.one_turn(l, path, Sym("it"))
    finally:
        e.opaque_fn = old
    before, ends, goes = T.settled(l, before, ends, goes, T.tree_start(l))
    P, D = l.field(before, T.ITER, "full_path"), l.field(before, T.ITER, "old_depth")
    made = {}

    def apart(p):
        ns = {}
        for t in calls(p, UPDATE):
            ns[t] = Sym("made%d" % len(made))
            made[ns[t]] = t
        return named(p, ns)
    ends, goes = [apart(p) for p in ends], [apart(p) for p in goes]
    todo = l.field(before, T.ITER, "pending")
    wrap = l.field(l.field(before, T.ITER, "opts"), T.OPTS, "wrap_with_directory")

    def rule(x):
        if x.path.kind == "panic" or x.test(Eq(Len(todo), Int(0))):
            return
        item = At(todo, Sub(Len(todo), Int(1)))
        kind = x.variant(item, T.TODO)
        deep = kind in ("Descent", "Post")
        want = {"P": P, "D": D, "name": Some(l.field(item, T.TODO, "name", kind)) if deep else NONE,
                "depth": l.field(item, T.TODO, "depth", kind) if deep else Int(0)}
        got = l.field(x.outs[0], T.ITER, "full_path")
        v = x.val
        if kind == "PostRoot" and not x.test(wrap):
            return
        if got is P:
            if kind == "DescentRoot":
                return x.good()
            return x.fail("the path of the last directory is kept", props=("P41",))
        if got is EMPTY and not deep:
            return x.good()
        of = [y for y in subterms(got) if y in made]
        if len(of) != 1:
            return x.open("the path of a directory", show(got, 4)[:200])
        got, call = of[0], made[of[0]]
        x.eq(l.field(x.outs[0], T.ITER, "full_path"), got, "path of a directory", props=("P41",))
        vals = [y for a in call.a[2:] for y in (a.a if a.op == "tup" else (a,))]
        if len(vals) != len(flat):
            return x.open("what the path is made from", show(call, 4)[:200])
        for r, y in zip(flat, vals):
            x.eq(y, want[r], {"P": "path that is changed", "D": "number of segments of the path that is changed",
                              "name": "name at the end of the path of a directory", "depth": "depth of a directory"}[r], props=("P41",))
        if x.path.kind == "turn":
            new = l.field(x.outs[0], T.ITER, "pending")
            q = T.queued(x, new, SubSeq(todo, Int(0), Sub(Len(todo), Int(1))))
            if q is None or q[0].op != "adt" or q[0].a[3] != ("Post" if deep else "PostRoot"):
                return x.open("the directory that is to be made", show(new, 4)[:200])
            node = l.field(item, T.TODO, "node" if deep else T.l_first(l, T.TODO, kind), kind)
            x.eq(q[1], T.children(l, x, mk("mapseq", l.field(node, T.DIR, "nodes")), want["depth"]), "names and depths of subdirectories", props=("P41",))
            if deep:
                for f in ("name", "depth"):
                    x.eq(l.field(q[0], T.TODO, f, "Post"), l.field(item, T.TODO, f, kind), "%s of a directory after its subdirectories" % f, props=("P41",))
            return
        if v.op == "adt" and v.a[3] == "Some" and v.a[2][0].op == "adt" and v.a[2][0].a[3] == "Ok":
            n = v.a[2][0].a[2][0]
            x.eq(l.field(n, T.TNODE, "path"), got, "path a directory is handed out with", props=("P41",))
    l.check(path, ends, rule)
    l.check(path, goes, rule)


@spec_of("P41")
def path_at_first(l):
    path = T.TREE + "::build"

    def rule(x):
        if x.path.kind == "panic":
            return
        x.eq(l.field(x.val, T.ITER, "full_path"), EMPTY, "path at first", props=("P41",))
        x.eq(l.field(x.val, T.ITER, "old_depth"), Int(0), "number of segments of the path at first", props=("P41",))
    l.check(path, l.run(path, [Sym("builder")]), rule)
