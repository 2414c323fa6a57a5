"""Models of the protocol buffer library: readers and writers."""
from .terms import *
from . import terms as T
from .models import MW, MR, reg, branch, Ok, Err, option, parse_ty, norm

WR = "quick_protobuf::writer::Writer::"
RD = "quick_protobuf::reader::BytesReader::"
M64 = (1 << 64) - 1
# messages of the schema files: their encoding is looked at once, when their writers are checked
SCHEMA = {"pb::merkledag::PBLink", "pb::merkledag::PBNode", "pb::unixfs::Data", "pb::unixfs::UnixTime", "pb::unixfs::Metadata"}


WIDE = ("u64", "i64", "usize", "isize")


def VB(x):
    """bytes of a varint"""
    while x.op == "sext" and x.a[1] in WIDE or x.op == "trunc" and x.a[1] in WIDE:
        x = x.a[0]
    if x.op == "int":
        n, out = x.a[0] & M64, ""
        while n > 0x7f:
            out += "%02x" % (n & 0x7f | 0x80)
            n >>= 7
        return Bytes(out + "%02x" % n)
    return mk("vb", x)


def LE(x, n):
    """bytes of a fixed size number"""
    if x.op == "int":
        return Bytes((x.a[0] & ((1 << 8 * n) - 1)).to_bytes(n, "little").hex())
    return mk("le", x, n)


T._RB["vb"] = lambda a: VB(a[0])
T._RB["le"] = lambda a: LE(*a)


def Enc(x):
    return mk("enc", x)


# ------------------------------------------------------------------ sizes
for _n in ("varint", "int32", "int64", "uint32", "uint64", "enum"):
    @reg("quick_protobuf::sizeofs::sizeof_" + _n)
    def m_sizeof(cx):
        return cx.ok(Len(VB(cx.val(0))))


@reg("quick_protobuf::sizeofs::sizeof_len")
def m_sizeof_len(cx):
    return cx.ok(Add(Len(VB(cx.val(0))), cx.val(0)))


@reg("quick_protobuf::sizeofs::sizeof_bool")
def m_sizeof_bool(cx):
    return cx.ok(Int(1))


def self_ty(cx, i=0):
    t = parse_ty(cx)
    if t is None:
        v = cx.val(i)
        if v.op == "adt":
            t = v.a[0]
    return t


@reg(MW + "get_size")
def m_get_size(cx):
    if self_ty(cx) not in SCHEMA:
        return NotImplemented
    return cx.ok(Len(Enc(cx.eng.snapshot(cx.st, cx.val(0)))))


# ------------------------------------------------------------------ writers
@reg("quick_protobuf::writer::Writer::new")
def m_writer_new(cx):
    return cx.ok(mk("writer", cx.args[0]))


@reg("quick_protobuf::writer::BytesWriter::new")
def m_bytes_writer(cx):
    return cx.ok(mk("bwriter", cx.args[0]))


def writer_target(cx, st, w):
    """(place, overwrite?) the writer appends to"""
    eng = cx.eng
    v = eng.deref(st, w)
    ow = False
    while True:
        if v.op == "writer":
            v = v.a[0]
        elif v.op == "bwriter":
            ow = True
            v = v.a[0]
        elif v.op == "mref":
            cur = eng.read_loc(st, v.a[0], v.a[1])
            if cur.op in ("mref", "writer", "bwriter"):
                v = cur
                continue
            return v, ow
        else:
            return None, ow


def put(cx, st, w, *xs):
    """results of writing the given bytes"""
    p, ow = writer_target(cx, st, w)
    if p is None or ow:
        return None
    cx.eng.write_loc(st, p.a[0], p.a[1], Cat(cx.eng.read_loc(st, p.a[0], p.a[1]), *xs))
    return [("ok", st, Ok(UNIT))]


def writes(name, fn):
    @reg(WR + name)
    def m(cx):
        r = put(cx, cx.st, cx.args[0], *fn(cx.val(1)))
        return NotImplemented if r is None else r


for _n in ("varint", "int32", "int64", "uint32", "uint64", "enum", "tag"):
    writes("write_" + _n, lambda x: (VB(x),))
for _n in ("fixed32", "sfixed32"):
    writes("write_" + _n, lambda x: (LE(x, 4),))
for _n in ("fixed64", "sfixed64"):
    writes("write_" + _n, lambda x: (LE(x, 8),))
for _n in ("bytes", "string"):
    writes("write_" + _n, lambda x: (VB(Len(x)), x))
for _n in ("sint32", "sint64"):
    writes("write_" + _n, lambda x: (mk("vb", mk("zigzag", x)),))
writes("write_u8", lambda x: (Bytes("%02x" % x.a[0]) if x.op == "int" else Seq(x),))


@reg(WR + "write_with_tag")
def m_with_tag(cx):
    if put(cx, cx.st, cx.args[0], VB(cx.val(1))) is None:
        return NotImplemented
    return cx.eng.call_value(cx.st, cx.args[2], [cx.args[0]], cx.fr, cx.line)


def body_of(cx, name, v, ty=None):
    """implementation of a method of the writing trait for a value"""
    if ty is None:
        d = cx.eng.deref(cx.st, v)
        if d.op == "adt":
            ty = d.a[0]
    l = cx.eng.impls.get(("quick_protobuf::message::MessageWrite", name, ty))
    if not l:
        return ty, None
    return ty, ([b for b in l if "<" in b.key] or l)[0]


def msg_ty(cx):
    for a in cx.c.get("args") or ():
        t = cx.f.types[a]
        while t and t.get("k") == "ref":
            t = cx.f.types[t["to"]]
        if t and t.get("adt") and t["adt"] not in ("alloc::vec::Vec", "quick_protobuf::writer::BytesWriter"):
            return t["adt"]
    return None


@reg(WR + "write_message")
def m_put_message(cx):
    """length, then the message"""
    ty, w = body_of(cx, "write_message", cx.args[1])
    if ty is None:
        ty, w = body_of(cx, "write_message", cx.args[1], msg_ty(cx))
    if ty is None:
        return NotImplemented
    if ty in SCHEMA:
        x = Enc(cx.eng.snapshot(cx.st, cx.val(1)))
        r = put(cx, cx.st, cx.args[0], VB(Len(x)), x)
        return NotImplemented if r is None else r
    _, g = body_of(cx, "get_size", cx.args[1], ty)
    if w is None or g is None:
        return NotImplemented
    out = []
    for r in cx.eng.inline(cx.st, g, [cx.args[1]], cx.fr, cx.line):
        if r[0] != "ok":
            out.append(r)
            continue
        if put(cx, r[1], cx.args[0], VB(r[2])) is None:
            return NotImplemented
        out += cx.eng.inline(r[1], w, [cx.args[1], cx.args[0]], cx.fr, cx.line)
    return out


@reg(MW + "write_message")
def m_write_message(cx):
    """the message alone"""
    p, ow = writer_target(cx, cx.st, cx.args[1])
    if p is None:
        return NotImplemented
    ty = self_ty(cx)
    if not ow:
        if ty not in SCHEMA:
            return NotImplemented
        r = put(cx, cx.st, cx.args[1], Enc(cx.eng.snapshot(cx.st, cx.val(0))))
        return NotImplemented if r is None else r
    # into a slice: fails if the slice is too short
    if ty in SCHEMA:
        rs = [("ok", cx.st, Enc(cx.eng.snapshot(cx.st, cx.val(0))))]
    else:
        _, w = body_of(cx, "write_message", cx.args[0], ty)
        if w is None:
            return NotImplemented
        rs = []
        n = cx.eng.newframe()
        tmp, wr = ("tmp", n), ("tmpw", n)
        cx.st.mem[tmp] = EMPTY
        cx.st.mem[wr] = mk("writer", mk("mref", tmp, ()))
        for r in cx.eng.inline(cx.st, w, [cx.args[0], mk("mref", wr, ())], cx.fr, cx.line):
            if r[0] == "ok":
                x = r[1].mem.pop(tmp)
                r[1].mem.pop(wr, None)
                if r[2].op != "adt" or r[2].a[3] != "Ok":
                    rs.append(("fail", r[1], r[2]))
                    continue
                rs.append(("ok", r[1], x))
            else:
                rs.append(r)
    out = []
    for r in rs:
        if r[0] == "fail":
            out.append(("ok",) + r[1:])
            continue
        if r[0] != "ok":
            out.append(r)
            continue
        cur = cx.eng.read_loc(r[1], p.a[0], p.a[1])
        for s, short in branch(r[1], Lt(Len(cur), Len(r[2]))):
            if short:
                out.append(("ok", s, Err(mk("werr", r[2]))))
            else:
                cx.eng.write_loc(s, p.a[0], p.a[1], Overwrite(cur, r[2]))
                out.append(("ok", s, Ok(UNIT)))
    return out


# ------------------------------------------------------------------ readers, step by step
def step(cx, kind, value=None):
    """one operation of the reader: its outcomes, the value it gives, and the reader after it"""
    r = cx.val(0)
    src = (kind, r) + tuple(cx.eng.snapshot(cx.st, a) for a in cx.args[1:])
    out = []
    for s, ok in branch(cx.st, mk("bool", "reads", *src)):
        x = cx.args[0]
        while x.op == "mref":
            cur = cx.eng.read_loc(s, x.a[0], x.a[1])
            if cur.op != "mref":
                cx.eng.write_loc(s, x.a[0], x.a[1], mk("rdnext", *src))
                break
            x = cur
        v = mk("rdval", *src)
        if not ok:
            out.append(("ok", s, Err(mk("rderr", *src))))
        elif value is None:
            out.append(("ok", s, Ok(v)))
        else:
            out += value(s, v)
    return out


KINDS = {"next_tag": "varint32", "read_varint32": "varint32", "read_uint32": "varint32", "read_int32": "varint32", "read_varint64": "varint64",
         "read_uint64": "varint64", "read_int64": "varint64", "read_fixed32": "fixed32", "read_sfixed32": "fixed32", "read_fixed64": "fixed64",
         "read_sfixed64": "fixed64", "read_sint32": "sint32", "read_sint64": "sint64", "read_bool": "bool", "read_bytes": "bytes",
         "read_string": "string", "read_unknown": "unknown", "read_u8": "u8"}
from . import vf        # noqa: E402
vf.ATOMS.add("rdval")


def reads(name, kind):
    @reg(RD + name)
    def m(cx):
        def val(s, v):
            if kind[:2] == "si":
                vf.SIGNED.add(v)
            elif kind == "unknown":
                v = UNIT
            return [("ok", s, Ok(v))]
        return step(cx, kind, val)


for _n, _k in KINDS.items():
    reads(_n, _k)


@reg(RD + "is_eof")
def m_eof(cx):
    return cx.ok(mk("bool", "eof", cx.val(0)))


@reg(RD + "read_enum")
def m_read_enum(cx):
    ty = msg_ty(cx)
    if ty is None:
        return NotImplemented
    l = cx.eng.impls.get(("core::convert::From", "from", ty))
    l = [b for b in l or () if b.types[b.j["locals"][1]].get("k") == "int"]
    if len(l) != 1:
        return NotImplemented

    def val(s, v):
        return [("ok", r[1], Ok(r[2])) if r[0] == "ok" else r for r in cx.eng.inline(s, l[0], [v], cx.fr, cx.line)]
    return step(cx, "varint32", val)


@reg(RD + "read_message")
def m_read_message(cx):
    ty = msg_ty(cx)
    return NotImplemented if ty is None else step(cx, "message " + ty)


# ------------------------------------------------------------------ content identifiers
VERSION = "cid::version::Version"


def cid_version(c):
    if c.op in ("cidv0", "cidv1"):
        return Int(int(c.op == "cidv1"))
    return Discr(c) if c.op == "adt" else drange(Discr(mk("cidversion", c)), VERSION)


def cid_bytes(c, v0):
    h = mk("mhbytes", cid_hash(c))
    return h if v0 else Cat(Bytes("01"), VB(cid_codec(c)), h)


def cid_hash(c):
    return c.a[-1] if c.op in ("cidv0", "cidv1") else mk("cidhash", c)


def cid_codec(c):
    return c.a[0] if c.op == "cidv1" else Int(0x70) if c.op == "cidv0" else mk("codec", c)


@reg("cid::cid::Cid::version")
def m_cid_version(cx):
    c = cx.val(0)
    v = c.op in ("cidv0", "cidv1") and int(c.op == "cidv1")
    return cx.ok(Adt(VERSION, v, [], "V%d" % v) if c.op in ("cidv0", "cidv1") else mk("cidversion", c))


@reg("cid::cid::Cid::codec")
def m_cid_codec(cx):
    return cx.ok(cid_codec(cx.val(0)))


@reg("cid::cid::Cid::hash")
def m_cid_hash(cx):
    return cx.ok(cid_hash(cx.val(0)))


@reg("multihash::multihash::MultihashGeneric::to_bytes", "multihash::multihash::Multihash::to_bytes")
def m_hash_bytes(cx):
    return cx.ok(mk("mhbytes", cx.val(0)))


@reg("cid::cid::Cid::to_bytes")
def m_cid_bytes(cx):
    c = cx.val(0)
    if c.op in ("cidv0", "cidv1"):
        return cx.ok(cid_bytes(c, c.op == "cidv0"))
    return [("ok", s, cid_bytes(c, v0)) for s, v0 in branch(cx.st, Eq(cid_version(c), Int(0)))]
