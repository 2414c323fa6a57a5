"""Messages on the wire: what is read, what is written, and the sizes computed ahead."""
import re
from .base import *
from engine import wire
from engine.wire import VB, LE, Enc

READ, WRITE = "quick_protobuf::message::MessageRead", "quick_protobuf::message::MessageWrite"
HOME = {"PBLink": LINK, "PBNode": NODE, "Data": DATA, "UnixTime": TIME, "Metadata": "pb::unixfs::Metadata"}
# links come before the data, which is not the order of their numbers
ORDER = {"PBNode": ["Links", "Data"]}
WIRE = {"uint32": 0, "uint64": 0, "int32": 0, "int64": 0, "bytes": 2, "string": 2, "fixed32": 5, "fixed64": 1}
KIND = {"uint32": "varint32", "int32": "varint32", "uint64": "varint64", "int64": "varint64", "bytes": "bytes", "string": "string",
        "fixed32": "fixed32", "fixed64": "fixed64"}


class Field:
    def __init__(self, label, type, name, num):
        self.label, self.type, self.name, self.num = label, type, name, num


def schema():
    """messages and enumerations of the schema files"""
    repo = os.environ.get("VERIF_REPO", "/repo")
    msgs, enums = {}, {}
    for f in ("merkledag", "unixfs"):
        p = os.path.join(repo, "src/pb/%s.proto" % f)
        if not os.path.exists(p):
            raise Missing("schema " + f)
        s = re.sub(r"//[^\n]*", "", open(p).read())
        for m in re.finditer(r"enum\s+(\w+)\s*\{([^}]*)\}", s):
            enums[m.group(1)] = {n: int(v) for n, v in re.findall(r"(\w+)\s*=\s*(\d+)", m.group(2))}
        s = re.sub(r"enum\s+\w+\s*\{[^}]*\}", "", s)
        for m in re.finditer(r"message\s+(\w+)\s*\{([^}]*)\}", s):
            msgs[m.group(1)] = [Field(a, t, n, int(v)) for a, t, n, v in
                                re.findall(r"(optional|required|repeated)\s+(\w+)\s+(\w+)\s*=\s*(\d+)", m.group(2))]
    return msgs, enums


def wiretype(f, enums):
    return 0 if f.type in enums else WIRE.get(f.type, 2)


def tag(f, enums):
    return Int(f.num << 3 | wiretype(f, enums))


def impl(l, trait, name, adt):
    bs = l.eng.impls.get((trait, name, adt))
    if not bs:
        raise Missing("%s of %s" % (name, adt))
    return bs[0].path


def each(l, fn):
    msgs, enums = schema()
    for m, fs in msgs.items():
        if m in HOME and HOME[m] in l.eng.adts:
            fn(m, HOME[m], fs, enums)
        elif m != "Metadata":
            raise Missing("message " + m)


# ---------------------------------------------------------------- reading
def enumerated(x, enums, t, num):
    """the variant a number stands for; None if the schema does not say"""
    for name, n in enums[t].items():
        if x.test(Eq(num, Int(n))):
            for i, v in enumerate(x.eng.variants(UTYPE)):
                if v["name"] == name:
                    return Adt(UTYPE, i, [], name)
            raise Missing("node type " + name)
    return None


def read_one(l, m, adt, fs, enums):
    path = impl(l, READ, "from_reader", adt)
    R0, B = Sym("reader"), Sym("bytes")
    l.eng.stepping = [path]
    try:
        paths = l.run(path, [("mut", R0), B])
        step = l.eng.stepping[2:]
    finally:
        l.eng.stepping = None
    if len(step) != 1 or step[0] is None:
        raise Missing("loop of the reader of " + m)
    info, backs = step[0]
    at = [i for i, v in enumerate(info.inits) if v is R0]
    if len(at) != 1:
        raise Missing("state of the reader of " + m)
    # any state of the loop
    names = {t: Sym("reader" if i == at[0] else "state%d" % i) for i, t in enumerate(info.phis)}
    phis = [names[t] for t in info.phis]
    R = phis[at[0]]
    # the message while it is being read: what is handed back at the end
    paths = [Path0(State0(rename(p.st.facts, names)), subst(p.val, names), p) if p.val is not None else p for p in paths]
    shapes = list(dict.fromkeys(p.val.a[2][0] for p in paths if p.kind == "ret" and p.val.op == "adt" and p.val.a[3] == "Ok"))
    if len(shapes) != 1:
        raise Missing("result of the reader of " + m)
    M = shapes[0]
    start = subst(M, dict(zip(phis, info.inits)))
    for f in fs:
        if f.label == "required":
            continue
        want = EMPTY if f.label == "repeated" else NONE
        l.check(path, [Path0(State0(info.hfacts), l.field(start, adt, f.name))],
                lambda x, want=want: x.eq(x.val, want, "%s before anything is read" % f.name, props=("P03",)))

    def rule(x, nexts):
        if x.path.kind == "panic":
            return x.fail("reading %s ends in a panic: %s" % (m, x.path.panic), props=("P03",))
        if x.test(mk("bool", "eof", R)):
            if nexts is not None:
                return x.fail("reading %s goes on after its end" % m, props=("P03",))
            return x.eq(x.val, Ok(M), "what is read of " + m, props=("P03",))

        def step(kind, r, *more):
            src = (kind, r, B) + more
            if x.test(mk("bool", "reads", *src)):
                return mk("rdval", *src), mk("rdnext", *src)
            if nexts is not None:
                x.fail("reading %s goes on after an error" % m, props=("P03", "P31"))
            else:
                x.eq(x.val, Err(mk("rderr", *src)), "error of reading %s" % m, props=("P03", "P31"))
            return None, None

        def goes_on(now, r):
            if nexts is None:
                return x.fail("reading %s ends early" % m, props=("P03",))
            new = subst(M, dict(zip(phis, nexts)))
            for g in fs:
                old = l.field(M, adt, g.name)
                want = now.get(g.name, old)
                if want is not None:
                    x.eq(l.field(new, adt, g.name), want, "%s of %s while it is read" % (g.name, m), props=("P03",))
            x.eq(nexts[at[0]], r, "position in %s" % m, props=("P03",))
        t, r = step("varint32", R)
        if t is None:
            return
        for f in fs:
            if not x.test(Eq(t, tag(f, enums))):
                continue
            old = l.field(M, adt, f.name)
            kind = "varint32" if f.type in enums else KIND.get(f.type) or "message " + HOME[f.type]
            v, r = step(kind, r)
            if v is None:
                return
            if f.type in enums:
                v = enumerated(x, enums, f.type, v)
            new = v if f.label == "required" else Some(v) if f.label == "optional" else Cat(old, Seq(v))
            return goes_on({f.name: new}, r)
        v, r = step("unknown", r, t)
        if v is not None:
            goes_on({}, r)
    l.check(path, paths, lambda x: rule(x, None))
    l.stats["paths"] += len(backs)
    for s in backs:
        nexts = [subst(l.eng.snapshot(s, l.eng.read_loc(s, *loc)), names) for loc in info.locs]
        l.check(path, [Path0(State0(rename(s.facts, names)), mk("tup", *nexts))], lambda x: rule(x, nexts))


def State0(facts):
    return spec.State({}, vf.Facts(facts))


def Path0(st, val, like=None):
    return spec.Path(like.kind if like else "ret", st, val, [])


def rename(facts, names):
    return {subst(t, names): f for t, f in facts.items()}


@spec_of("P03", "P31")
def reading(l):
    each(l, lambda *a: read_one(l, *a))


@spec_of("P03")
def node_types(l):
    """numbers of the node types"""
    msgs, enums = schema()
    vs = l.eng.variants(UTYPE)
    nums = enums["DataType"]
    l.check(UTYPE, [Path0(State0({}), Int(0))], lambda x: [x.eq(Int(v["discr"]), Int(nums[v["name"]]), "number of the type " + v["name"], props=("P03",))
                                                       for v in vs if v["name"] in nums] +
            [x.fail("no type " + n, props=("P03",)) for n in nums if n not in [v["name"] for v in vs]])
    to = [b.path for b in l.eng.bodies.values() if b.j.get("trait") == "core::convert::From" and b.j["name"] == "from"
          and b.types[b.j["impl_self"]].get("k") == "int" and (b.types[b.j["locals"][1]] or {}).get("adt") == UTYPE]
    for p in to:
        for i, v in enumerate(vs):
            paths = l.run(p, [Adt(UTYPE, i, [], v["name"])])
            l.check(p, paths, lambda x: x.eq(x.val, Int(nums[v["name"]]), "number given for " + v["name"], props=("P03",)))
    frm = [b for b in l.eng.impls.get(("core::convert::From", "from", UTYPE)) or () if b.types[b.j["locals"][1]].get("k") == "int"]
    for b in frm:
        n = Sym("number")
        for k, name in sorted((k, n) for n, k in nums.items()):
            paths = l.run(b.path, [Int(k)])
            i = [j for j, v in enumerate(vs) if v["name"] == name]
            if i:
                l.check(b.path, paths, lambda x: x.eq(x.val, Adt(UTYPE, i[0], [], name), "type given for %d" % k, props=("P03",)))


# ---------------------------------------------------------------- writing
def one(f, v, enums):
    """a value, with its tag"""
    t = VB(tag(f, enums))
    if f.type in enums:
        return Cat(t, VB(drange(Discr(v), UTYPE)))
    if f.type in ("bytes", "string"):
        return Cat(t, VB(Len(v)), v)
    if f.type.startswith("fixed"):
        return Cat(t, LE(v, int(f.type[5:]) // 8))
    if f.type in WIRE:
        return Cat(t, VB(v))
    return Cat(t, VB(Len(Enc(v))), Enc(v))


def encoded(x, l, m, adt, fs, enums, v):
    """the fields that are present, in canonical order: [(name, bytes)]"""
    by = {f.name: f for f in fs}
    order = ORDER.get(m) or [f.name for f in sorted(fs, key=lambda f: f.num)]
    out = []
    for n in order:
        f = by[n]
        a = l.field(v, adt, n)
        if f.label == "required":
            out.append((n, one(f, a, enums)))
        elif f.label == "optional":
            if x.some(a):
                out.append((n, one(f, unopt(a), enums)))
        else:
            out.append((n, x.canon(bind("fm", a, lambda o, i: one(f, At(a, i), enums)))))
    return out


def parts(t):
    return list(t.a) if t.op == "cat" else [] if t is EMPTY else [t]


def parse(x, got, fields):
    """the order in which the fields appear; None if something else does"""
    todo, order = parts(got), []
    left = list(fields)
    while todo:
        for f in left:
            ps = parts(f[1])
            if ps and len(ps) <= len(todo) and all(x.same(a, b) for a, b in zip(todo, ps)):
                todo = todo[len(ps):]
                left.remove(f)
                order.append(f[0])
                break
        else:
            return None
    return None if any(parts(f[1]) and x.st.ev(Eq(Len(f[1]), Int(0))) != 1 for f in left) else order


def writes_fields(x, got, fields, what):
    want = Cat(*[f[1] for f in fields])
    if x.same(got, want):
        x.good()
        return
    order = parse(x, got, fields)
    if order is not None:
        x.good()
        x.eq(got, want, "order of the fields of " + what, props=("P06",))
    else:
        x.eq(got, want, "bytes written for " + what, props=("P04",))


def message(l, *a):
    l.eng.no_overflow = True        # lengths of what is in memory
    try:
        message1(l, *a)
    finally:
        l.eng.no_overflow = False


def message1(l, what, wpath, spath, v, fields, facts=()):
    ws = l.run(wpath, [v, ("writer",)], facts=facts)

    def wrule(x):
        if x.path.kind == "panic":
            return
        x.eq(x.val, Ok(UNIT), "result of writing " + what, props=("P04",))
        writes_fields(x, x.outs[1], fields(x), what)
    l.check(wpath, ws, wrule)
    ss = l.run(spath, [v], facts=facts)
    ws = [w for w in ws if w.kind == "ret" and not (w.val.op == "adt" and w.val.a[3] == "Err")]

    def srule(x):
        if x.path.kind == "panic":
            return
        st = x.st
        for w in ws:
            s = spec.assume_all(st, w.st.facts)
            if s is None or not spec.propagate(s):
                continue
            x.st = s
            x.eq(x.val, Len(w.outs[1]), "size computed for " + what, props=("P05",))
            x.st = st
    l.check(spath, ss, srule)


@spec_of("P04", "P05", "P06")
def writing(l):
    def go(m, adt, fs, enums):
        v = Sym(m)
        message(l, m, impl(l, WRITE, "write_message", adt), impl(l, WRITE, "get_size", adt), v, lambda x: encoded(x, l, m, adt, fs, enums, v))
    each(l, go)


FLAT = "pb::FlatUnixFs"


def node_with(x, links, data):
    """fields of a node with the given encoded links, and its data"""
    return [("Links", links), ("Data", Cat(VB(Int(10)), VB(Len(Enc(data))), Enc(data)))]


@spec_of("P04", "P05", "P06")
def flat_node(l):
    v = Sym("node")
    ls, d = l.field(v, FLAT, "links"), l.field(v, FLAT, "data")

    def fields(x):
        return node_with(x, x.canon(bind("fm", ls, lambda o, i: Cat(VB(Int(18)), VB(Len(Enc(At(ls, i)))), Enc(At(ls, i))))), d)
    message(l, FLAT, impl(l, WRITE, "write_message", FLAT), impl(l, WRITE, "get_size", FLAT), v, fields)


CUSTOM, LEAF = "dir::builder::custom_pb::CustomFlatUnixFs", "dir::builder::NamedLeaf"


def cid_bytes(o, c):
    return wire.cid_bytes(c, o.test(Eq(wire.cid_version(c), Int(0))))


def built_link(o, e):
    """the encoded link of an entry of a directory: name, target, total size"""
    name, c, size = [Fld(e, (0, i)) for i in range(3)]
    h = cid_bytes(o, c)
    b = Cat(VB(Int(10)), VB(Len(h)), h, VB(Int(18)), VB(Len(name)), name, VB(Int(24)), VB(size))
    return Cat(VB(Int(18)), VB(Len(b)), b)


@spec_of("P04", "P05", "P06")
def built_node(l):
    v = Sym("node")
    ls, d = l.field(v, CUSTOM, "links"), l.field(v, CUSTOM, "data")

    def fields(x):
        return node_with(x, x.canon(bind("fm", ls, lambda o, i: built_link(o, unopt(At(ls, i))) if o.some(At(ls, i)) else EMPTY)), d)
    message(l, "a directory", impl(l, WRITE, "write_message", CUSTOM), impl(l, WRITE, "get_size", CUSTOM), v, fields)


# ---------------------------------------------------------------- parsing, the view of the data
def only(l, path, args, rule, what, props, facts=()):
    def r(x):
        if x.path.kind == "panic":
            return x.fail("%s ends in a panic: %s" % (what, x.path.panic), props=props)
        rule(x)
    paths = l.run(path, args, facts=facts)
    l.check(path.path if isinstance(path, vf.Body) else path, paths, r)
    return paths


def conversions(l, adt, arg):
    """conversions from the given type of argument into a type"""
    out = []
    for b in l.eng.impls.get(("core::convert::TryFrom", "try_from", adt)) or ():
        t = b.types[b.j["locals"][1]]
        while t and t.get("k") == "ref":
            t = b.types[t["to"]]
        if t and (t.get("adt") or t.get("k")) == arg:
            out.append(b)
    if not out:
        raise Missing("conversion of %s to %s" % (arg, adt))
    return out


PF = "pb::ParsingFailed"


@spec_of("P03", "P31")
def parsing(l):
    v = Voc(l)
    b = Sym("bytes")
    ps = ("P03", "P31")

    def message(x, adt, raw, what):
        if x.test(mk("bool", "parses", adt, raw)):
            x.eq(x.val, Ok(mk("msg", adt, raw)), what + " that parses", props=ps)
        else:
            x.eq(x.val, Err(mk("perr", adt, raw)), what + " that does not parse", props=ps)
    for p in conversions(l, NODE, "slice"):
        only(l, p, [b], lambda x: message(x, NODE, b, "node"), "parsing a node", ps)
    for p in conversions(l, DATA, OPT):
        o = Sym("data")
        only(l, p, [o], lambda x: message(x, DATA, text(x, o), "message"), "parsing a message", ps)
    for p in conversions(l, DATA, NODE):
        n = Sym("node")
        only(l, p, [n], lambda x: message(x, DATA, text(x, v.payload(n)), "message"), "parsing the message of a node", ps)

    def flat_rule(x):
        c = flat(x, v, b)
        if c.kind == "ok":
            x.eq(x.val, Ok(l.struct(FLAT, links=v.links(c.node), data=c.data)), "node with a message", props=ps)
        elif c.kind == "nodag":
            x.eq(x.val, Err(l.adt(PF, "InvalidDagPb", c.err)), "block that is no node", props=ps)
        elif c.kind == "nodata":
            x.eq(x.val, Err(l.adt(PF, "NoData", c.node)), "node without data", props=ps)
        else:
            x.eq(x.val, Err(l.adt(PF, "InvalidUnixFs", c.err, c.node)), "node with other data", props=ps)
    for p in conversions(l, FLAT, "slice") + ([FLAT + "::<'a>::try_parse"] if l.has_fn(FLAT + "::<'a>::try_parse") else []):
        only(l, p, [b], flat_rule, "parsing a block", ps)


@spec_of("P32")
def data_view(l):
    v = Voc(l)
    b, other = Sym("block"), Sym("other")
    ps = ("P32",)

    def bad(x):
        if x.test(v.node_ok(b)):
            return False
        x.eq(x.val, Err(v.node_err(b)), "block that is no node", props=ps)
        return True

    def extract(x):
        if not bad(x):
            pl = v.payload(v.node(b))
            x.eq(x.val, Ok(Some(unopt(pl)) if x.some(pl) else NONE), "data of a block", props=ps)
    only(l, "dagpb::node_data", [b], extract, "extracting the data", ps)

    def wrapped(x):
        if not bad(x):
            x.accepted("a node", ps)
    # the data of a node lies within its block
    inside = [(Lt(Len(b), Len(unopt(v.payload(v.node(b))))), 0)]
    for p in only(l, "dagpb::wrap_node_data", [b], wrapped, "wrapping a block", ps, inside):
        if p.kind != "ret" or p.val.op != "adt" or p.val.a[3] != "Ok":
            continue
        w = p.val.a[2][0]

        def see(name, args, want, what):
            path = [y for y in ("dagpb::NodeData::" + name,) if l.has_fn(y)]
            if not path:
                path = [y for y in l.eng.impls.get(("core::cmp::PartialEq", name, "dagpb::NodeData")) or () if "<B>" in y.key]
            if not path:
                raise Missing(name + " of the wrapper")
            only(l, path[0], args, lambda x: x.eq(x.val, want(x), what, props=ps), what, ps, facts=dict(p.st.facts))
        pl = v.payload(v.node(b))
        see("node_data", [w], lambda x: text(x, pl), "data the wrapper shows")
        see("get_ref", [w], lambda x: b, "block the wrapper shows")
        see("into_inner", [w], lambda x: b, "block the wrapper gives back")
        see("eq", [w, other], lambda x: Eq(text(x, pl), other), "comparing with other bytes")


@spec_of("P30")
def symlinks(l):
    t, before = Sym("target"), Sym("before")
    none = {f[0]: NONE for f in l.eng.variants(DATA)[0]["fields"]}
    i = [j for j, y in enumerate(l.eng.variants(UTYPE)) if y["name"] == "Symlink"]
    if not i:
        raise Missing("type of symlinks")
    data = l.struct(DATA, **dict(none, blocksizes=EMPTY, Type=Adt(UTYPE, i[0], [], "Symlink"), Data=Some(t)))

    def rule(x):
        x.eq(x.outs[1], Cat(before, node_with(x, EMPTY, data)[1][1]), "block of a symlink", props=("P30",))
    only(l, "symlink::serialize_symlink_block", [t, ("mut", before)], rule, "writing a symlink", ("P30",))
