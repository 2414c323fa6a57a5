"""Models of the standard library and of the dependencies' parse/encode/hash boundary."""
import re
from .terms import *
from . import terms as T

MODELS = {}
OPT = "core::option::Option"
RES = "core::result::Result"
RUST = "rmodels::"      # bodies of the Rust loop models

_norm = {}


def norm(p):
    r = _norm.get(p)
    if r is not None:
        return r
    s, out, i, d = p, [], 0, 0
    while i < len(s):
        if d == 0 and s.startswith("::<", i):
            d = 1
            i += 3
            continue
        if d == 0 and s[i] == "<" and i == 0:
            out.append("<")
            i += 1
            continue
        if d:
            if s[i] == "<":
                d += 1
            elif s[i] == ">" and s[i - 1] != "-":
                d -= 1
            i += 1
            continue
        out.append(s[i])
        i += 1
    r = "".join(out)
    _norm[p] = r
    return r


def reg(*names):
    def w(f):
        for n in names:
            MODELS[n] = f
        return f
    return w


def find(cx):
    c = cx.c
    m = MODELS.get("=" + cx.name)
    if m:
        return m
    if "trait" in c:
        return MODELS.get(c["decl"])
    return MODELS.get(norm(cx.name))


def option(v):
    return Adt(OPT, 1, (v,), "Some")


NONE = Adt(OPT, 0, (), "None")


def Ok(v):
    return Adt(RES, 0, (v,), "Ok")


def Err(v):
    return Adt(RES, 1, (v,), "Err")


def branch(st, t):
    """[(state, truth)] over the feasible truth values of t"""
    e = st.ev(t)
    if e is not None:
        return [(st, bool(e))]
    out = []
    for val in (1, 0):
        for s in assume_split(st, t, val):
            out.append((s, bool(val)))
    return out


def assume_split(st, t, val):
    """disjoint states in which t == val, with atomic facts"""
    if t.op == "int":
        return [st.copy()] if t.a[0] == val else []
    if t.op == "not":
        return assume_split(st, t.a[0], 1 - val)
    if t.op == "and":
        if val:
            sts = [st]
            for x in t.a:
                sts = [z for y in sts for z in assume_split(y, x, 1)]
            return sts if sts != [st] else [st.copy()]
        out = []
        sts = [st]
        for x in t.a:
            out += [z for y in sts for z in assume_split(y, x, 0)]
            sts = [z for y in sts for z in assume_split(y, x, 1)]
        return out
    s = st.copy()
    return [s] if s.assume(t, val) else []


def is_byteseq(v):
    return v.op in ("bytes",) or v is EMPTY


# ------------------------------------------------------------------ sequences
def index_of(idx):
    """range bounds of an index operand: ('at', i) | (lo, hi|None)"""
    if idx.op == "adt":
        n = idx.a[0].split("::")[-1]
        f = idx.a[2]
        if n == "Range":
            return f[0], f[1]
        if n == "RangeFrom":
            return f[0], None
        if n == "RangeTo":
            return Int(0), f[0]
        if n == "RangeFull":
            return Int(0), None
        if n == "RangeToInclusive":
            return Int(0), Add(f[0], Int(1))
        if n == "RangeInclusive":
            return f[0], Add(f[1], Int(1))
    return None


def seq_index(cx, mut):
    a, idx = cx.val(0), cx.val(1)
    st = cx.st
    ity = cx.atys[1] if cx.atys else None
    r = index_of(idx)
    if r is None and idx.op == "adt":
        return NotImplemented
    if a.op in ("map", "map0", "upd") and r is None and False:
        return NotImplemented
    n = Len(a)
    out = []
    isstr = cx.atys is not None and strish(cx, cx.atys[0])
    if r is None:
        for s, ok in branch(st, Lt(idx, n)):
            if not ok:
                out.append(cx.panic(s, "index", a, idx))
            elif mut:
                p = cx.place(0)
                if p is None:
                    out.append(("ok", s, At(a, idx)))
                else:
                    out.append(("ok", s, mk("mref", p.a[0], p.a[1] + (("idx", idx),))))
            else:
                out.append(("ok", s, At(a, idx)))
        return out
    lo, hi = r
    hi2 = n if hi is None else hi
    for s, bad in branch(st, Lt(n, hi2)):
        if bad:
            out.append(cx.panic(s, "slice_end", a, lo, hi2))
            continue
        for s2, bad2 in branch(s, Lt(hi2, lo)):
            if bad2:
                out.append(cx.panic(s2, "slice_order", a, lo, hi2))
                continue
            sts = [s2]
            if isstr:
                for b in (lo, hi2):
                    nx = []
                    for s3 in sts:
                        for s4, ok in branch(s3, charb(a, b)):
                            if ok:
                                nx.append(s4)
                            else:
                                out.append(cx.panic(s4, "charboundary", a, b))
                    sts = nx
            for s3 in sts:
                if mut:
                    p = cx.place(0)
                    if p is not None:
                        if lo is Int(0) and hi is None:
                            out.append(("ok", s3, p))
                        else:
                            out.append(("ok", s3, mk("mref", p.a[0], p.a[1] + (("rng", lo, hi2),))))
                        continue
                out.append(("ok", s3, SubSeq(a, lo, hi2)))
    return out


def strish(cx, ty, d=0):
    while ty and ty.get("k") == "ref":
        ty = cx.fr.body.types[ty["to"]]
    return bool(ty) and (ty.get("k") == "str" or ty.get("adt", "").endswith("string::String"))


def charb(s, i):
    if i is Int(0) or i is Len(s) or is_byteseq(s) and all(True for _ in ()):
        if s.op == "bytes" and i.op == "int":
            b = bytes.fromhex(s.a[0])
            k = i.a[0]
            return Int(k == len(b) or k < len(b) and (b[k] & 0xc0) != 0x80)
        return TRUE
    if s.op == "sub":
        # boundaries of a substring are boundaries of the string
        return mk("bool", "charb", s.a[0], Add(s.a[1], i))
    return mk("bool", "charb", s, i)


@reg("core::ops::index::Index::index")
def m_index(cx):
    a = cx.val(0)
    aty = None
    if a.op == "adt" and cx.eng.impls.get(("core::ops::index::Index", "index", a.a[0])):
        return NotImplemented
    if cx.c.get("impl_self") is not None:
        t = cx.f.types[cx.c["impl_self"]]
        if t.get("adt", "").endswith("Map"):
            k = cx.val(1)
            out = []
            for s, has in branch(cx.st, Has(a, k)):
                out.append(("ok", s, MapGet(a, k)) if has else cx.panic(s, "mapindex", a, k))
            return out
    return seq_index(cx, False)


@reg("core::ops::index::IndexMut::index_mut")
def m_index_mut(cx):
    return seq_index(cx, True)


@reg("alloc::vec::Vec::new", "alloc::string::String::new", "alloc::vec::Vec::with_capacity", "alloc::string::String::with_capacity",
     "alloc::collections::vec_deque::VecDeque::new", "alloc::collections::vec_deque::VecDeque::with_capacity")
def m_newseq(cx):
    return cx.ok(EMPTY)


@reg("alloc::vec::Vec::len", "core::slice::len", "core::str::len", "alloc::string::String::len",
     "alloc::collections::vec_deque::VecDeque::len", "core::iter::traits::exact_size::ExactSizeIterator::len")
def m_len(cx):
    v = cx.val(0)
    if v.op in STRUCT_OPS:
        s = iter_seq(cx, v)
        if s is None:
            return NotImplemented
        return cx.ok(Len(s))
    return cx.ok(Len(v))


@reg("alloc::vec::Vec::is_empty", "core::slice::is_empty", "core::str::is_empty", "alloc::string::String::is_empty",
     "alloc::collections::vec_deque::VecDeque::is_empty")
def m_is_empty(cx):
    return cx.ok(Eq(Len(cx.val(0)), Int(0)))


@reg("alloc::vec::Vec::push", "alloc::collections::vec_deque::VecDeque::push_back")
def m_push(cx):
    v = cx.val(0)
    if not cx.set(0, Cat(v, Seq(cx.args[1]))):
        return NotImplemented
    return cx.ok(UNIT)


@reg("alloc::collections::vec_deque::VecDeque::push_front")
def m_push_front(cx):
    cx.set(0, Cat(Seq(cx.args[1]), cx.val(0)))
    return cx.ok(UNIT)


@reg("alloc::string::String::push")
def m_spush(cx):
    ch = cx.val(1)
    b = Bytes(chr(ch.a[0]).encode().hex()) if ch.op == "int" else mk("utf8", ch)
    cx.set(0, Cat(cx.val(0), b))
    return cx.ok(UNIT)


def splits_last(st, v):
    """[(state, None)] if empty, [(state, (init, last))] otherwise"""
    if v.op == "cat" and v.a[-1].op != "seq":
        last = v.a[-1]
        out = []
        for s, emp in branch(st, Eq(Len(last), Int(0))):
            if emp:
                out += splits_last(s, Cat(*v.a[:-1]))
            else:
                n = Len(last)
                out.append((s, (Cat(*(v.a[:-1] + (SubSeq(last, Int(0), Sub(n, Int(1))),))), At(last, Sub(n, Int(1))))))
        return out
    if v is EMPTY:
        return [(st, None)]
    if v.op == "cat":
        last = v.a[-1]
        return [(st, (Cat(*(v.a[:-1] + (mk("seq", *last.a[:-1]),))), last.a[-1]))]
    out = []
    n = Len(v)
    for s, emp in branch(st, Eq(n, Int(0))):
        if emp:
            out.append((s, None))
        else:
            out.append((s, (SubSeq(v, Int(0), Sub(n, Int(1))), At(v, Sub(n, Int(1))))))
    return out


def splits_first(st, v):
    out = []
    for s, r in splits_last(st, Rev(v)):
        out.append((s, None if r is None else (Rev(r[0]), r[1])))
    return out


@reg("alloc::vec::Vec::pop", "alloc::collections::vec_deque::VecDeque::pop_back")
def m_pop(cx):
    p = cx.place(0)
    v = cx.val(0)
    if p is None:
        return NotImplemented
    out = []
    for s, r in splits_last(cx.st, v):
        if r is None:
            cx.eng.write_loc(s, p.a[0], p.a[1], EMPTY)
            out.append(("ok", s, NONE))
        else:
            cx.eng.write_loc(s, p.a[0], p.a[1], r[0])
            out.append(("ok", s, option(r[1])))
    return out


@reg("alloc::collections::vec_deque::VecDeque::pop_front")
def m_pop_front(cx):
    p = cx.place(0)
    v = cx.val(0)
    if p is None:
        return NotImplemented
    out = []
    for s, r in splits_first(cx.st, v):
        if r is None:
            cx.eng.write_loc(s, p.a[0], p.a[1], EMPTY)
            out.append(("ok", s, NONE))
        else:
            cx.eng.write_loc(s, p.a[0], p.a[1], r[0])
            out.append(("ok", s, option(r[1])))
    return out


def opt_end(cx, f, mut=False):
    out = []
    v = cx.val(0)
    for s, r in f(cx.st, v):
        out.append(("ok", s, NONE if r is None else option(r[1])))
    return out


@reg("core::slice::first", "alloc::collections::vec_deque::VecDeque::front")
def m_first(cx):
    return opt_end(cx, splits_first)


@reg("core::slice::last", "alloc::collections::vec_deque::VecDeque::back")
def m_last(cx):
    return opt_end(cx, splits_last)


def end_mut(cx, last):
    p = cx.place(0)
    if p is None:
        return NotImplemented
    v = cx.val(0)
    n = Len(v)
    out = []
    for s, emp in branch(cx.st, Eq(n, Int(0))):
        if emp:
            out.append(("ok", s, NONE))
        else:
            out.append(("ok", s, option(mk("mref", p.a[0], p.a[1] + (("idx", Sub(n, Int(1)) if last else Int(0)),)))))
    return out


@reg("core::slice::last_mut", "alloc::collections::vec_deque::VecDeque::back_mut")
def m_last_mut(cx):
    return end_mut(cx, True)


@reg("core::slice::first_mut", "alloc::collections::vec_deque::VecDeque::front_mut")
def m_first_mut(cx):
    return end_mut(cx, False)


@reg("core::slice::split_first", "core::slice::split_last")
def m_split_first(cx):
    first = "first" in cx.name.split("::")[-1]
    out = []
    for s, r in (splits_first if first else splits_last)(cx.st, cx.val(0)):
        out.append(("ok", s, NONE if r is None else option(mk("tup", r[1], r[0]))))
    return out


@reg("core::slice::split_at", "core::str::split_at")
def m_split_at(cx):
    v, i = cx.val(0), cx.val(1)
    out = []
    n = Len(v)
    isstr = "str" in norm(cx.name)
    for s, bad in branch(cx.st, Not(And(Not(Lt(n, i)), charb(v, i))) if isstr else Lt(n, i)):
        if bad:
            out.append(cx.panic(s, "split_at", v, i))
        else:
            out.append(("ok", s, mk("tup", SubSeq(v, Int(0), i), SubSeq(v, i, n))))
    return out


@reg("core::slice::get", "core::str::get", "alloc::collections::vec_deque::VecDeque::get")
def m_get(cx):
    a, idx = cx.val(0), cx.val(1)
    r = index_of(idx)
    n = Len(a)
    out = []
    if r is None:
        for s, ok in branch(cx.st, Lt(idx, n)):
            out.append(("ok", s, option(At(a, idx)) if ok else NONE))
        return out
    lo, hi = r
    hi2 = n if hi is None else hi
    isstr = "str" in norm(cx.name)
    for s, bad in branch(cx.st, Lt(n, hi2)):
        if bad:
            out.append(("ok", s, NONE))
            continue
        for s2, bad2 in branch(s, Lt(hi2, lo)):
            if bad2:
                out.append(("ok", s2, NONE))
                continue
            sts = [s2]
            if isstr:
                for b in (lo, hi2):
                    nx = []
                    for s3 in sts:
                        for s4, ok in branch(s3, charb(a, b)):
                            if ok:
                                nx.append(s4)
                            else:
                                out.append(("ok", s4, NONE))
                    sts = nx
            for s3 in sts:
                out.append(("ok", s3, option(SubSeq(a, lo, hi2))))
    return out


@reg("core::str::is_char_boundary")
def m_charb(cx):
    s, i = cx.val(0), cx.val(1)
    return cx.ok(And(Not(Lt(Len(s), i)), charb(s, i)))


@reg("alloc::vec::Vec::clear", "alloc::string::String::clear", "alloc::collections::vec_deque::VecDeque::clear")
def m_clear(cx):
    cx.set(0, EMPTY)
    return cx.ok(UNIT)


@reg("alloc::vec::Vec::truncate", "alloc::string::String::truncate", "alloc::collections::vec_deque::VecDeque::truncate")
def m_truncate(cx):
    v, n = cx.val(0), cx.val(1)
    p = cx.place(0)
    out = []
    if v.op == "overwrite" and Len(v.a[1]) is n:
        cx.set(0, v.a[1])
        return cx.ok(UNIT)
    for s, longer in branch(cx.st, Lt(n, Len(v))):
        if longer:
            cx.eng.write_loc(s, p.a[0], p.a[1], SubSeq(v, Int(0), n))
        out.append(("ok", s, UNIT))
    return out


@reg("alloc::vec::Vec::extend_from_slice", "alloc::string::String::push_str")
def m_extend_slice(cx):
    cx.set(0, Cat(cx.val(0), cx.val(1)))
    return cx.ok(UNIT)


@reg("alloc::vec::Vec::append", "alloc::collections::vec_deque::VecDeque::append")
def m_append(cx):
    b = cx.val(1)
    cx.set(0, Cat(cx.val(0), b))
    cx.set(1, EMPTY)
    return cx.ok(UNIT)


@reg("alloc::vec::Vec::reserve", "alloc::string::String::reserve", "alloc::vec::Vec::shrink_to_fit", "alloc::vec::Vec::reserve_exact",
     "alloc::collections::vec_deque::VecDeque::reserve", "alloc::string::String::shrink_to_fit")
def m_reserve(cx):
    return cx.ok(UNIT)


@reg("alloc::vec::Vec::capacity", "alloc::string::String::capacity", "alloc::collections::vec_deque::VecDeque::capacity")
def m_capacity(cx):
    return cx.ok(mk("cap", cx.val(0)))


@reg("alloc::vec::Vec::resize")
def m_resize(cx):
    v, n, x = cx.val(0), cx.val(1), cx.val(2)
    p = cx.place(0)
    out = []
    for s, shorter in branch(cx.st, Lt(Len(v), n)):
        cx.eng.write_loc(s, p.a[0], p.a[1], Cat(v, mk("repeat", x, Sub(n, Len(v)))) if shorter else SubSeq(v, Int(0), n))
        out.append(("ok", s, UNIT))
    return out


@reg("core::slice::reverse")
def m_reverse(cx):
    a = cx.args[0]
    p = a
    while p.op == "mref":
        cur = cx.eng.read_loc(cx.st, p.a[0], p.a[1]) if not (p.a[1] and p.a[1][-1][0] == "rng") else None
        if cur is not None and cur.op == "mref":
            p = cur
            continue
        break
    if p.op != "mref":
        return NotImplemented
    cx.eng.write_loc(cx.st, p.a[0], p.a[1], Rev(cx.eng.read_loc(cx.st, p.a[0], p.a[1])))
    return cx.ok(UNIT)


@reg("alloc::collections::vec_deque::VecDeque::range")
def m_deque_range(cx):
    v = cx.val(0)
    r = index_of(cx.val(1))
    if r is None:
        return NotImplemented
    lo, hi = r
    n = Len(v)
    hi = n if hi is None else hi
    out = []
    for s, bad in branch(cx.st, Lt(n, hi)):
        if bad:
            out.append(cx.panic(s, "range", v, lo, hi))
            continue
        for s2, bad2 in branch(s, Lt(hi, lo)):
            out.append(cx.panic(s2, "range", v, lo, hi) if bad2 else ("ok", s2, mk("it_seq", SubSeq(v, lo, hi), Int(0))))
    return out


@reg("alloc::vec::Vec::drain", "alloc::collections::vec_deque::VecDeque::drain")
def m_drain(cx):
    v = cx.val(0)
    r = index_of(cx.val(1))
    if r is None:
        return NotImplemented
    lo, hi = r
    n = Len(v)
    hi = n if hi is None else hi
    out = []
    p = cx.place(0)
    for s, bad in branch(cx.st, Lt(n, hi)):
        if bad:
            out.append(cx.panic(s, "drain", v, lo, hi))
            continue
        for s2, bad2 in branch(s, Lt(hi, lo)):
            if bad2:
                out.append(cx.panic(s2, "drain", v, lo, hi))
                continue
            cx.eng.write_loc(s2, p.a[0], p.a[1], Cat(SubSeq(v, Int(0), lo), SubSeq(v, hi, n)))
            out.append(("ok", s2, mk("it_seq", SubSeq(v, lo, hi), Int(0))))
    return out


@reg("alloc::vec::Vec::split_off", "alloc::collections::vec_deque::VecDeque::split_off")
def m_split_off(cx):
    v, i = cx.val(0), cx.val(1)
    n = Len(v)
    p = cx.place(0)
    out = []
    for s, bad in branch(cx.st, Lt(n, i)):
        if bad:
            out.append(cx.panic(s, "split_off", v, i))
        else:
            cx.eng.write_loc(s, p.a[0], p.a[1], SubSeq(v, Int(0), i))
            out.append(("ok", s, SubSeq(v, i, n)))
    return out


@reg("alloc::vec::Vec::insert", "alloc::collections::vec_deque::VecDeque::insert")
def m_insert(cx):
    v, i, x = cx.val(0), cx.val(1), cx.args[2]
    n = Len(v)
    p = cx.place(0)
    out = []
    for s, bad in branch(cx.st, Lt(n, i)):
        if bad:
            out.append(cx.panic(s, "insert", v, i))
        else:
            cx.eng.write_loc(s, p.a[0], p.a[1], Cat(SubSeq(v, Int(0), i), Seq(x), SubSeq(v, i, n)))
            out.append(("ok", s, UNIT))
    return out


@reg("alloc::vec::Vec::remove", "alloc::collections::vec_deque::VecDeque::remove", "alloc::vec::Vec::swap_remove")
def m_remove(cx):
    v, i = cx.val(0), cx.val(1)
    n = Len(v)
    p = cx.place(0)
    if p is None:
        return NotImplemented
    queue = "vec_deque" in cx.name
    out = []
    for s, ok in branch(cx.st, Lt(i, n)):
        if not ok:
            out.append(("ok", s, NONE) if queue else cx.panic(s, "remove", v, i))
            continue
        for s2, last in branch(s, Eq(Add(i, Int(1)), n)) if cx.c["name"] == "swap_remove" else [(s, True)]:
            rest = SubSeq(v, Add(i, Int(1)), n) if last else Cat(Seq(At(v, Sub(n, Int(1)))), SubSeq(v, Add(i, Int(1)), Sub(n, Int(1))))
            cx.eng.write_loc(s2, p.a[0], p.a[1], Cat(SubSeq(v, Int(0), i), rest))
            out.append(("ok", s2, option(At(v, i)) if queue else At(v, i)))
    return out


@reg("core::slice::swap")
def m_sswap(cx):
    v, i, j = cx.val(0), cx.val(1), cx.val(2)
    n = Len(v)
    p = cx.place(0)
    if p is None:
        return NotImplemented
    out = []
    for s, ok in branch(cx.st, And(Lt(i, n), Lt(j, n))):
        if not ok:
            out.append(cx.panic(s, "swap", v, i, j))
            continue
        for s2, eq in branch(s, Eq(i, j)):
            if eq:
                out.append(("ok", s2, UNIT))
                continue
            for s3, lt in branch(s2, Lt(i, j)):
                a, b = (i, j) if lt else (j, i)
                w = Cat(SubSeq(v, Int(0), a), Seq(At(v, b)), SubSeq(v, Add(a, Int(1)), b), Seq(At(v, a)), SubSeq(v, Add(b, Int(1)), n))
                cx.eng.write_loc(s3, p.a[0], p.a[1], w)
                out.append(("ok", s3, UNIT))
    return out


@reg("core::slice::fill")
def m_fill(cx):
    cx.set(0, mk("repeat", cx.val(1), Len(cx.val(0))))
    return cx.ok(UNIT)


@reg("core::slice::copy_from_slice", "core::slice::clone_from_slice")
def m_copyfrom(cx):
    a, b = cx.val(0), cx.val(1)
    out = []
    for s, ok in branch(cx.st, Eq(Len(a), Len(b))):
        if not ok:
            out.append(cx.panic(s, "copy_from_slice", a, b))
            continue
        p = cx.place(0)
        if p is None:
            return NotImplemented
        cx.eng.write_loc(s, p.a[0], p.a[1], b)
        out.append(("ok", s, UNIT))
    return out


# views and copies are the value itself
@reg("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut",
     "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut",
     "alloc::vec::Vec::as_slice", "alloc::string::String::as_str", "core::str::as_bytes", "alloc::string::String::as_bytes",
     "alloc::vec::Vec::as_mut_slice", "alloc::string::String::into_bytes", "alloc::vec::Vec::into_boxed_slice",
     "alloc::string::String::into_boxed_str", "alloc::boxed::Box::new", "std::path::PathBuf::as_path", "alloc::slice::into_vec",
     "alloc::vec::Vec::leak", "core::slice::iter::Iter::as_slice", "core::pin::Pin::new")
def m_id(cx):
    name = cx.c["decl"]
    v = cx.args[0]
    if "trait" in cx.c:
        x = cx.val(0)
        b = local_impl(cx, x)
        if b is not None:
            return NotImplemented
        if cx.c.get("body") in cx.eng.bodies and cx.eng.bodies[cx.c["body"]].local:
            return NotImplemented
    if pathlike(cx, cx.dty) and namelike(cx, 0):
        return [("ok", s, p) for s, p in joined(cx.st, EMPTY, cx.val(0))]
    if v.op == "mref" and cx.dty and cx.dty.get("k") == "ref" and not cx.dty.get("mut"):
        return cx.ok(cx.val(0))
    return cx.ok(v)


def local_impl(cx, x):
    if x.op == "adt":
        l = cx.eng.impls.get((cx.c["trait"], cx.c["name"], x.a[0]))
        if l:
            return l[0]
    return None


@reg("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "alloc::slice::to_vec", "alloc::string::ToString::to_string",
     "alloc::borrow::Cow::into_owned", "core::option::Option::cloned", "core::option::Option::copied",
     "alloc::str::to_owned", "alloc::slice::to_owned", "std::path::Path::to_path_buf", "alloc::borrow::Cow::to_mut",
     "core::clone::Clone::clone_from")
def m_copy(cx):
    nm = cx.c["name"]
    if nm in ("to_mut", "clone_from"):
        return NotImplemented
    if nm == "to_string":
        t = cx.atys[0] if cx.atys else None
        while t and t.get("k") == "ref":
            t = cx.fr.body.types[t["to"]]
        if not (t and (t.get("k") == "str" or t.get("adt", "").endswith("::String") or t.get("adt", "").endswith("::Cow"))):
            return NotImplemented
    if "trait" in cx.c:
        b = cx.eng.bodies.get(cx.c.get("body"))
        if b is not None and b.local and not b.j.get("derived") and not b.j.get("root", "").startswith("derive"):
            return NotImplemented
    return cx.ok(cx.eng.snapshot(cx.st, cx.val(0)))


SEQTYPES = ("alloc::vec::Vec", "alloc::string::String", "alloc::boxed::Box", "alloc::borrow::Cow", "alloc::collections::vec_deque::VecDeque",
            "std::path::PathBuf")


@reg("core::convert::From::from", "core::convert::Into::into")
def m_from(cx):
    if cx.c["name"] == "into":
        # resolved through its body when the types are known
        v = cx.val(0)
        if cx.c.get("body") in cx.eng.bodies:
            return NotImplemented
        if pathlike(cx, cx.dty) and namelike(cx, 0):
            return [("ok", s, p) for s, p in joined(cx.st, EMPTY, v)]
        return cx.ok(cx.args[0])
    b = cx.eng.bodies.get(cx.c.get("body"))
    if b is not None and not cx.name.startswith("<T as core::convert::From<T>>"):
        return NotImplemented
    if cx.name.startswith("<T as core::convert::From<T>>"):
        return cx.ok(cx.args[0])
    if cx.dty and cx.dty.get("k") == "int":
        if cx.val(0).op in ("int",) or cx.atys and cx.atys[0].get("k") in ("int", "bool", "char"):
            return cx.ok(cx.val(0))
    if pathlike(cx, cx.dty):
        if namelike(cx, 0):
            return [("ok", s, p) for s, p in joined(cx.st, EMPTY, cx.val(0))]
        return cx.ok(cx.val(0)) if pathlike(cx, argty(cx, 0)) else NotImplemented
    if cx.dty and cx.dty.get("adt") in SEQTYPES:
        v = cx.val(0)
        return cx.ok(v)
    if cx.dty and cx.dty.get("adt") == OPT:
        return cx.ok(option(cx.args[0]))
    if cx.dty and cx.dty.get("k") in ("param", "alias"):
        return cx.ok(cx.args[0])
    return NotImplemented


@reg("core::convert::TryFrom::try_from", "core::convert::TryInto::try_into")
def m_try_from(cx):
    t = cx.dty
    if "cid::cid::Cid" in cx.name or (t and "cid::Cid" in t.get("str", "") and cx.c["name"] == "try_from"):
        v = cx.val(0)
        out = []
        for s, ok in branch(cx.st, FALSE if v is EMPTY else mk("bool", "cidok", v)):
            out.append(("ok", s, Ok(mk("cidof", v)) if ok else Err(mk("ciderr", v))))
        return out
    # integer conversions
    if t and t.get("adt") == RES and cx.atys and cx.atys[0].get("k") == "int" and cx.c.get("body") not in cx.eng.bodies:
        frm = cx.atys[0]
        m = re.search(r"for (\w+)>|as core::convert::TryFrom<", cx.name)
        to = None
        a = cx.c.get("args")
        if a:
            tt = cx.f.types[a[0]]
            if cx.c["name"] == "try_into" and len(a) > 1:
                tt = cx.f.types[a[1]]
            if tt and tt.get("k") == "int":
                to = tt
        if to:
            v = cx.val(0)
            if to["bits"] >= frm["bits"] and to["signed"] == frm["signed"]:
                return cx.ok(Ok(v))
            hi = (1 << (to["bits"] - (1 if to["signed"] else 0))) - 1
            out = []
            for s, big in branch(cx.st, Lt(Int(hi), v)):
                out.append(("ok", s, Err(mk("tryfromint")) if big else Ok(v)))
            return out
    return NotImplemented


@reg("cid::cid::Cid::new_v1")
def m_cid_v1(cx):
    return cx.ok(mk("cidv1", cx.val(0), cx.val(1)))


def old_hash(st, h):
    """[(state, whether the hash is the one of version 0)]"""
    if h.op == "digest" and h.a[0].op == "adt":
        return [(st, h.a[0].a[3] == "Sha2_256")]
    return branch(st, mk("bool", "oldhash", h))


@reg("cid::cid::Cid::new_v0")
def m_cid_v0(cx):
    h = cx.val(0)
    return [("ok", s, Ok(mk("cidv0", h)) if y else Err(mk("ciderr", h))) for s, y in old_hash(cx.st, h)]


@reg("cid::cid::Cid::new")
def m_cid_new(cx):
    v, codec, h = [cx.val(i) for i in range(3)]
    out = []
    for s, old in branch(cx.st, Eq(Discr(v), Int(0))):
        if not old:
            out.append(("ok", s, Ok(mk("cidv1", codec, h))))
            continue
        for s2, pb in branch(s, Eq(codec, Int(0x70))):
            if not pb:
                out.append(("ok", s2, Err(mk("ciderr", h))))
            else:
                out += [("ok", s3, Ok(mk("cidv0", h)) if y else Err(mk("ciderr", h))) for s3, y in old_hash(s2, h)]
    return out


@reg("multihash::multihash::MultihashDigest::digest")
def m_digest(cx):
    return cx.ok(mk("digest", cx.val(0), cx.val(1)))


@reg("core::error::Error::source", "core::error::Error::cause")
def m_source(cx):
    if cx.eng.bodies.get(cx.c.get("body")) is not None:
        return NotImplemented
    return cx.ok(mk("source", cx.val(0)))


@reg("core::default::Default::default")
def m_default(cx):
    t = cx.dty
    b = cx.eng.bodies.get(cx.c.get("body"))
    if b is not None:
        return NotImplemented
    v = default_of(cx.eng, t, cx.fr.body.types)
    if v is None:
        return NotImplemented
    return cx.ok(v)


def default_of(eng, t, types):
    if t is None:
        return None
    if t["k"] in ("int", "bool", "char"):
        return Int(0)
    if t["k"] in ("str", "slice"):
        return EMPTY
    if t["k"] == "ref":
        return default_of(eng, types[t["to"]], types)
    if t["k"] == "tuple":
        fs = [default_of(eng, types[x], types) for x in t["fields"]]
        return None if None in fs else mk("tup", *fs)
    a = t.get("adt", "")
    if a in SEQTYPES[:2] or a.endswith("VecDeque") or a.endswith("::Cow"):
        return EMPTY
    if a.endswith("BTreeMap") or a.endswith("HashMap"):
        return mk("map0")
    if a == OPT:
        return NONE
    if a.endswith("PathBuf"):
        return EMPTY
    return None


# ------------------------------------------------------------------ comparisons
@reg("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def m_eq(cx):
    b = cx.eng.bodies.get(cx.c.get("body"))
    nm = cx.c["name"]
    if b is not None and b.local and not b.j.get("derived"):
        return NotImplemented
    if b is None and "trait" in cx.c:
        d = cx.eng.dispatch(cx.st, cx.c, cx.args)
        if d is not None and d.local and not d.j.get("derived"):
            return NotImplemented
    x = cx.eng.snapshot(cx.st, cx.val(0))
    y = cx.eng.snapshot(cx.st, cx.val(1))
    e = Eq(x, y)
    return cx.ok(e if nm == "eq" else Not(e))


@reg("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def m_ord(cx):
    nm = cx.c["name"]
    x, y = cx.val(0), cx.val(1)
    for t in cx.atys or ():
        while t.get("k") == "ref":
            t = cx.fr.body.types[t["to"]]
        if t.get("k") not in ("int", "param", "char", "bool", "alias"):
            return NotImplemented
    r = {"lt": lambda: Lt(x, y), "gt": lambda: Lt(y, x), "le": lambda: Not(Lt(y, x)), "ge": lambda: Not(Lt(x, y))}[nm]()
    return cx.ok(r)


@reg("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def m_cmp(cx):
    x, y = cx.val(0), cx.val(1)
    out = []
    for t in cx.atys or ():
        while t.get("k") == "ref":
            t = cx.fr.body.types[t["to"]]
        if t.get("k") != "int":
            return NotImplemented
    def ordv(i):
        v = Adt("core::cmp::Ordering", i, (), ("Less", "Equal", "Greater")[i])
        return option(v) if cx.c["name"] == "partial_cmp" else v
    T.DISCR.setdefault("core::cmp::Ordering", {0: -1, 1: 0, 2: 1})
    for s, lt in branch(cx.st, Lt(x, y)):
        if lt:
            out.append(("ok", s, ordv(0)))
            continue
        for s2, eq in branch(s, Eq(x, y)):
            out.append(("ok", s2, ordv(1 if eq else 2)))
    return out


@reg("core::cmp::Ord::max", "core::cmp::Ord::min", "core::cmp::max", "core::cmp::min")
def m_minmax(cx):
    x, y = cx.val(0), cx.val(1)
    mx = cx.c["name"] == "max"
    out = []
    for s, lt in branch(cx.st, Lt(y, x)):
        out.append(("ok", s, x if lt == mx else y))
    return out


@reg("core::cmp::Ord::clamp")
def m_clamp(cx):
    x, lo, hi = cx.val(0), cx.val(1), cx.val(2)
    out = []
    for s, l in branch(cx.st, Lt(x, lo)):
        if l:
            out.append(("ok", s, lo))
            continue
        for s2, h in branch(s, Lt(hi, x)):
            out.append(("ok", s2, hi if h else x))
    return out


def bits_of(cx):
    m = re.search(r"impl (u|i)(\w+)>", cx.name)
    return (m.group(1) == "i", 64 if m.group(2) == "size" else int(m.group(2))) if m else (False, 64)


def arith(cx):
    signed, bits = bits_of(cx)
    x, y = cx.val(0), cx.val(1)
    op = cx.c["name"].split("_")[1].capitalize()
    if op not in ("Add", "Sub", "Mul"):
        return None
    r = {"Add": Add, "Sub": Sub, "Mul": Mul}[op](x, y)
    o = Ovf(op, x, y, bits, signed)
    lim = 0 if op == "Sub" else (1 << bits) - 1
    return r, o, (mk("saturated", r) if signed else Int(lim))


@reg("core::num::checked_add", "core::num::checked_sub", "core::num::checked_mul")
def m_checked(cx):
    r, ovf, _ = arith(cx)
    out = []
    for s, o in branch(cx.st, ovf):
        out.append(("ok", s, NONE if o else option(r)))
    return out


def intname(cx):
    signed, bits = bits_of(cx)
    return ("i" if signed else "u") + str(bits)


@reg("core::num::overflowing_add", "core::num::overflowing_sub", "core::num::overflowing_mul")
def m_overflowing(cx):
    r, ovf, _ = arith(cx)
    out = []
    for s, o in branch(cx.st, ovf):
        out.append(("ok", s, mk("tup", mk("wrapped", r, intname(cx)) if o else r, Int(o))))
    return out


@reg("core::num::saturating_add", "core::num::saturating_sub", "core::num::saturating_mul")
def m_saturating(cx):
    r, ovf, lim = arith(cx)
    signed, bits = bits_of(cx)
    if cx.c["name"] == "saturating_add" and not signed and cx.st.ev(ovf) is None:
        return cx.ok(Sat(r, (1 << bits) - 1))
    out = []
    for s, o in branch(cx.st, ovf):
        out.append(("ok", s, lim if o else r))
    return out


@reg("core::num::wrapping_add", "core::num::wrapping_sub", "core::num::wrapping_mul")
def m_wrapping(cx):
    r, ovf, lim = arith(cx)
    out = []
    for s, o in branch(cx.st, ovf):
        out.append(("ok", s, mk("wrapped", r, intname(cx)) if o else r))
    return out


@reg("core::num::unsigned_abs")
def m_unsigned_abs(cx):
    x = cx.val(0)
    return [("ok", s, Mul(Int(-1), x) if neg else x) for s, neg in branch(cx.st, Lt(x, Int(0)))]


@reg(RUST + "raw_add")
def m_rawadd(cx):
    return cx.ok(Add(cx.val(0), cx.val(1)))


@reg(RUST + "raw_sub")
def m_rawsub(cx):
    return cx.ok(Sub(cx.val(0), cx.val(1)))


# ------------------------------------------------------------------ strings
def pat(v):
    """pattern as bytes"""
    if v.op == "int":
        return Bytes(chr(v.a[0]).encode().hex())
    return v


def single(p):
    """the byte a pattern of a single byte is made of"""
    if p.op == "bytes" and len(p.a[0]) == 2:
        return int(p.a[0], 16)


def other_byte(t, c):
    """1 unless t is the byte c"""
    return mk("dd", t, tuple((lo, hi, Int(v)) for lo, hi, v in ((0, c - 1, 1), (c, c, 0), (c + 1, 255, 1)) if lo <= hi))


def lacks(s, c):
    """no byte of the text is c"""
    k = level(s) + 1
    return mkbind("allc", (s,), Int(0), ALL, other_byte(At(s, Iv(k)), c), k)


def byte_pos(s, c, last=False):
    """position of the first or last byte c of a text"""
    k = level(s) + 1
    if last:
        n = Sub(Len(s), Int(1))
        return Sub(n, mkbind("first", (Rev(s),), Int(0), ALL, other_byte(At(s, Sub(n, Iv(k))), c), k))
    return mkbind("first", (s,), Int(0), ALL, other_byte(At(s, Iv(k)), c), k)


def located(cx, last):
    """[(state, position or None)] of a pattern in a text"""
    s, p = cx.val(0), pat(cx.val(1))
    c, out = single(p), []
    if s.op == "bytes" and p.op == "bytes":
        i = (bytes.fromhex(s.a[0]).rfind if last else bytes.fromhex(s.a[0]).find)(bytes.fromhex(p.a[0]))
        return [(cx.st, None if i < 0 else Int(i))]
    if c is None:
        for st, ok in branch(cx.st, mk("bool", "contains", s, p)):
            out.append((st, mk("pos", "rfind" if last else "find", s, p) if ok else None))
        return out
    for st, ok in branch(cx.st, mk("bool", "contains", s, p)):
        if not ok:
            out.append((st, None))
            continue
        i = byte_pos(s, c, last)
        if st.assume(Lt(i, Len(s)), 1) and st.assume(Not(Lt(i, Int(0))), 1) and st.assume(Eq(At(s, i), Int(c)), 1):
            out.append((st, i))
    return out


@reg("core::str::contains")
def m_contains(cx):
    s, p = cx.val(0), cx.val(1)
    if p.op in ("clo", "fn"):
        return NotImplemented
    p = pat(p)
    if s.op == "bytes" and p.op == "bytes":
        return cx.ok(Int(bytes.fromhex(p.a[0]) in bytes.fromhex(s.a[0])))
    return cx.ok(mk("bool", "contains", s, p))


def byte_at_end(s, p, first):
    """starts_with / ends_with as comparisons"""
    p = pat(p)
    if p is EMPTY:
        return TRUE
    n = Len(p)
    l = Len(s)
    if first:
        parts = SubSeq(s, Int(0), n)
    else:
        parts = SubSeq(s, Sub(l, n), l)
    if p.op == "bytes" and n.op == "int" and n.a[0] == 1:
        e = Eq(At(s, Int(0) if first else Sub(l, Int(1))), At(p, Int(0)))
        return And(Not(Eq(l, Int(0))), e)
    return And(Not(Lt(l, n)), Eq(parts, p))


@reg("core::str::starts_with", "core::slice::starts_with")
def m_starts(cx):
    if cx.val(1).op in ("clo", "fn"):
        return NotImplemented
    return cx.ok(byte_at_end(cx.val(0), cx.val(1), True))


@reg("core::str::ends_with", "core::slice::ends_with")
def m_ends(cx):
    if cx.val(1).op in ("clo", "fn"):
        return NotImplemented
    return cx.ok(byte_at_end(cx.val(0), cx.val(1), False))


@reg("core::str::split")
def m_split(cx):
    if cx.val(1).op in ("clo", "fn"):
        return NotImplemented
    return cx.ok(mk("it_seq", mk("split", cx.val(0), pat(cx.val(1))), Int(0)))


@reg("core::str::strip_prefix", "core::str::strip_suffix")
def m_strip(cx):
    s, p = cx.val(0), pat(cx.val(1))
    first = cx.c["name"] == "strip_prefix"
    out = []
    l, n = Len(s), Len(p)
    for st, ok in branch(cx.st, byte_at_end(s, p, first)):
        out.append(("ok", st, option(SubSeq(s, n, l) if first else SubSeq(s, Int(0), Sub(l, n))) if ok else NONE))
    return out


@reg("core::str::rfind", "core::str::find")
def m_find(cx):
    if cx.val(1).op in ("clo", "fn"):
        return NotImplemented
    return [("ok", st, NONE if i is None else option(i)) for st, i in located(cx, cx.c["name"] == "rfind")]


@reg("core::str::split_once", "core::str::rsplit_once")
def m_split_once(cx):
    if cx.val(1).op in ("clo", "fn"):
        return NotImplemented
    s, p = cx.val(0), pat(cx.val(1))
    return [("ok", st, NONE if i is None else option(mk("tup", SubSeq(s, Int(0), i), SubSeq(s, Add(i, Len(p)), Len(s)))))
            for st, i in located(cx, cx.c["name"] == "rsplit_once")]


@reg("core::str::bytes")
def m_bytes(cx):
    return cx.ok(mk("it_seq", cx.val(0), Int(0)))


@reg("core::str::chars")
def m_chars(cx):
    return cx.ok(mk("it_seq", mk("chars", cx.val(0)), Int(0)))


# ------------------------------------------------------------------ paths
@reg("std::path::PathBuf::new")
def m_pnew(cx):
    return cx.ok(EMPTY)


def joined(st, p, name):
    """paths are sequences of their components; a name that is joined is one component or empty"""
    out = []
    e = st.ev(Eq(Len(name), Int(0)))
    for v in ((1, 0) if e is None else (e,)):
        s = st.copy()
        if s.assume(Eq(Len(name), Int(0)), v):
            out.append((s, p if v else Cat(p, Seq(name))))
    return out


@reg("std::path::PathBuf::push")
def m_ppush(cx):
    p = cx.place(0)
    if p is None or not (namelike(cx, 1) or pathlike(cx, argty(cx, 1))):
        return NotImplemented
    out = []
    for s, v in joined(cx.st, cx.val(0), cx.val(1)) if namelike(cx, 1) else [(cx.st, Cat(cx.val(0), cx.val(1)))]:
        cx.eng.write_loc(s, p.a[0], p.a[1], v)
        out.append(("ok", s, UNIT))
    return out


@reg("std::path::Path::new")
def m_path_of(cx):
    if namelike(cx, 0):
        return [("ok", s, p) for s, p in joined(cx.st, EMPTY, cx.val(0))]
    return cx.ok(cx.val(0)) if pathlike(cx, argty(cx, 0)) else NotImplemented


def argty(cx, i):
    return cx.atys[i] if cx.atys and len(cx.atys) > i else None


def pathlike(cx, t):
    """the type is a path"""
    while t and t["k"] in ("ref", "ptr"):
        t = cx.fr.body.types[t["to"]]
    return bool(t) and t.get("adt", "") in ("std::path::Path", "std::path::PathBuf")


def namelike(cx, i):
    """the argument is text (and not a path)"""
    t = argty(cx, i)
    while t and t["k"] in ("ref", "ptr"):
        t = cx.fr.body.types[t["to"]]
    return bool(t) and (t["k"] == "str" or t.get("adt", "").endswith("::String") or t.get("adt", "").endswith("::Cow"))


@reg("std::path::PathBuf::pop")
def m_ppop(cx):
    p = cx.place(0)
    if p is None:
        return NotImplemented
    out = []
    for s, r in splits_last(cx.st, cx.val(0)):
        cx.eng.write_loc(s, p.a[0], p.a[1], EMPTY if r is None else r[0])
        out.append(("ok", s, FALSE if r is None else TRUE))
    return out


@reg("std::path::Path::parent")
def m_pparent(cx):
    return [("ok", s, NONE if r is None else option(r[0])) for s, r in splits_last(cx.st, cx.val(0))]


@reg("std::path::Path::join")
def m_pjoin(cx):
    if not namelike(cx, 1):
        return cx.ok(Cat(cx.val(0), cx.val(1))) if pathlike(cx, argty(cx, 1)) else NotImplemented
    return [("ok", s, v) for s, v in joined(cx.st, cx.val(0), cx.val(1))]


@reg("std::path::Path::ancestors")
def m_pancestors(cx):
    return cx.ok(mk("it_seq", mk("ancestors", cx.val(0)), Int(0)))


@reg("std::path::Path::components", "std::path::Path::iter")
def m_pcomponents(cx):
    return cx.ok(mk("it_seq", cx.val(0), Int(0)))


# ------------------------------------------------------------------ mem / option helpers
@reg("core::mem::take")
def m_take(cx):
    p = cx.place(0)
    v = cx.val(0)
    d = default_of(cx.eng, cx.dty, cx.fr.body.types)
    if d is None and v.op == "adt":
        l = cx.eng.impls.get(("core::default::Default", "default", v.a[0]))
        if l:
            rs = cx.eng.inline(cx.st, l[0], [], cx.fr, cx.line)
            out = []
            for r in rs:
                if r[0] == "ok":
                    cx.eng.write_loc(r[1], p.a[0], p.a[1], r[2])
                    out.append(("ok", r[1], v))
                else:
                    out.append(r)
            return out
    if d is None or p is None:
        return NotImplemented
    cx.eng.write_loc(cx.st, p.a[0], p.a[1], d)
    return cx.ok(v)


@reg("core::mem::replace", "core::option::Option::replace")
def m_replace(cx):
    p = cx.place(0)
    v = cx.val(0)
    if p is None:
        return NotImplemented
    x = cx.args[1]
    cx.eng.write_loc(cx.st, p.a[0], p.a[1], option(x) if "option" in cx.name else x)
    return cx.ok(v)


@reg("core::mem::swap")
def m_swap(cx):
    p, q = cx.place(0), cx.place(1)
    a, b = cx.val(0), cx.val(1)
    cx.eng.write_loc(cx.st, p.a[0], p.a[1], b)
    cx.eng.write_loc(cx.st, q.a[0], q.a[1], a)
    return cx.ok(UNIT)


@reg("core::mem::drop", "core::mem::forget")
def m_drop(cx):
    return cx.ok(UNIT)


@reg("core::option::Option::take")
def m_otake(cx):
    p = cx.place(0)
    v = cx.val(0)
    if p is None:
        return NotImplemented
    cx.eng.write_loc(cx.st, p.a[0], p.a[1], NONE)
    return cx.ok(v)


@reg("core::option::Option::insert")
def m_oinsert(cx):
    p = cx.place(0)
    cx.eng.write_loc(cx.st, p.a[0], p.a[1], option(cx.args[1]))
    return cx.ok(mk("mref", p.a[0], p.a[1] + ((1, 0),)))


@reg("core::option::Option::as_mut", "core::option::Option::as_deref_mut")
def m_as_mut(cx):
    p = cx.place(0)
    if p is None:
        return NotImplemented
    v = cx.val(0)
    out = []
    for s, some in branch(cx.st, IsSome(v)):
        out.append(("ok", s, option(mk("mref", p.a[0], p.a[1] + ((1, 0),))) if some else NONE))
    return out


# ------------------------------------------------------------------ the vec! macro
@reg("alloc::boxed::Box::new_uninit")
def m_new_uninit(cx):
    r = ("tmp", cx.eng.newframe())
    cx.st.mem[r] = mk("uninit", r)
    return cx.ok(mk("newbox", mk("mref", r, ())))


@reg("alloc::boxed::box_assume_init_into_vec_unsafe")
def m_box_vec(cx):
    b = cx.args[0]
    if b.op != "newbox":
        return NotImplemented
    r = b.a[0]
    return cx.ok(Fld(Fld(cx.eng.read_loc(cx.st, r.a[0], r.a[1]), (0, 1)), (0, 0)))


# ------------------------------------------------------------------ maps
def Has(m, k):
    while True:
        if m.op == "map0":
            return FALSE
        if m.op == "upd" and m.a[1][0] == "key":
            if m.a[1][1] is k:
                return Int(m.a[2].op != "absent")
            m2 = m.a[0]
            e = Eq(m.a[1][1], k)
            if e.op == "int" and e.a[0] == 0:
                m = m2
                continue
            return mk("has", m, k)
        return mk("has", m, k)


def MapGet(m, k):
    while m.op == "upd" and m.a[1][0] == "key":
        if m.a[1][1] is k:
            return m.a[2]
        e = Eq(m.a[1][1], k)
        if e.op == "int" and e.a[0] == 0:
            m = m.a[0]
            continue
        break
    return mk("fld", m, ("key", k))


def map_has(st, m, k):
    return branch(st, Has(m, k))


@reg("alloc::collections::btree::map::BTreeMap::new", "std::collections::hash::map::HashMap::new")
def m_mapnew(cx):
    return cx.ok(mk("map0"))


@reg("alloc::collections::btree::map::BTreeMap::entry", "std::collections::hash::map::HashMap::entry")
def m_entry(cx):
    p = cx.place(0)
    m, k = cx.val(0), cx.val(1)
    if p is None:
        return NotImplemented
    en = cx.dty["adt"] if cx.dty else "alloc::collections::btree::map::entry::Entry"
    out = []
    vs = {v["name"]: i for i, v in enumerate(cx.dty["variants"])} if cx.dty and "variants" in cx.dty else {"Vacant": 0, "Occupied": 1}
    for s, has in map_has(cx.st, m, k):
        h = mk("mapent", p, k)
        n = "Occupied" if has else "Vacant"
        out.append(("ok", s, Adt(en, vs[n], (h,), n)))
    return out


def entparts(cx, i=0):
    v = cx.val(i)
    return (v.a[0], v.a[1]) if v.op == "mapent" else (None, None)


@reg("alloc::collections::btree::map::entry::OccupiedEntry::into_mut", "alloc::collections::btree::map::entry::OccupiedEntry::get_mut",
     "std::collections::hash::map::OccupiedEntry::into_mut", "std::collections::hash::map::OccupiedEntry::get_mut")
def m_into_mut(cx):
    p, k = entparts(cx)
    if p is None:
        return NotImplemented
    return cx.ok(mk("mref", p.a[0], p.a[1] + (("key", k),)))


@reg("alloc::collections::btree::map::entry::OccupiedEntry::get", "std::collections::hash::map::OccupiedEntry::get")
def m_oget(cx):
    p, k = entparts(cx)
    if p is None:
        return NotImplemented
    return cx.ok(MapGet(cx.eng.read_loc(cx.st, p.a[0], p.a[1]), k))


@reg("alloc::collections::btree::map::entry::OccupiedEntry::key", "alloc::collections::btree::map::entry::VacantEntry::key",
     "alloc::collections::btree::map::entry::VacantEntry::into_key")
def m_okey(cx):
    p, k = entparts(cx)
    return cx.ok(k) if p is not None else NotImplemented


@reg("alloc::collections::btree::map::entry::OccupiedEntry::insert")
def m_oins(cx):
    p, k = entparts(cx)
    if p is None:
        return NotImplemented
    m = cx.eng.read_loc(cx.st, p.a[0], p.a[1])
    old = MapGet(m, k)
    cx.eng.write_loc(cx.st, p.a[0], p.a[1] + (("key", k),), cx.args[1])
    return cx.ok(old)


@reg("alloc::collections::btree::map::entry::VacantEntry::insert", "std::collections::hash::map::VacantEntry::insert")
def m_vins(cx):
    p, k = entparts(cx)
    if p is None:
        return NotImplemented
    cx.eng.write_loc(cx.st, p.a[0], p.a[1] + (("key", k),), cx.args[1])
    return cx.ok(mk("mref", p.a[0], p.a[1] + (("key", k),)))


@reg("alloc::collections::btree::map::BTreeMap::insert", "std::collections::hash::map::HashMap::insert")
def m_mapinsert(cx):
    p = cx.place(0)
    m, k = cx.val(0), cx.val(1)
    out = []
    for s, has in map_has(cx.st, m, k):
        cx.eng.write_loc(s, p.a[0], p.a[1] + (("key", k),), cx.args[2])
        out.append(("ok", s, option(MapGet(m, k)) if has else NONE))
    return out


@reg("alloc::collections::btree::map::BTreeMap::remove", "std::collections::hash::map::HashMap::remove")
def m_mapremove(cx):
    p = cx.place(0)
    m, k = cx.val(0), cx.val(1)
    out = []
    for s, has in map_has(cx.st, m, k):
        if has:
            cx.eng.write_loc(s, p.a[0], p.a[1] + (("key", k),), mk("absent"))
        out.append(("ok", s, option(MapGet(m, k)) if has else NONE))
    return out


@reg("alloc::collections::btree::map::BTreeMap::get", "std::collections::hash::map::HashMap::get")
def m_mapget(cx):
    m, k = cx.val(0), cx.val(1)
    return [("ok", s, option(MapGet(m, k)) if has else NONE) for s, has in map_has(cx.st, m, k)]


@reg("alloc::collections::btree::map::BTreeMap::get_mut", "std::collections::hash::map::HashMap::get_mut")
def m_mapgetmut(cx):
    p = cx.place(0)
    m, k = cx.val(0), cx.val(1)
    return [("ok", s, option(mk("mref", p.a[0], p.a[1] + (("key", k),))) if has else NONE) for s, has in map_has(cx.st, m, k)]


@reg("alloc::collections::btree::map::BTreeMap::contains_key", "std::collections::hash::map::HashMap::contains_key")
def m_mapcontains(cx):
    return cx.ok(Has(cx.val(0), cx.val(1)))


def map_len(m):
    return mk("maplen", m) if m.op != "map0" else Int(0)


@reg("alloc::collections::btree::map::BTreeMap::len", "std::collections::hash::map::HashMap::len")
def m_maplen(cx):
    return cx.ok(map_len(cx.val(0)))


@reg("alloc::collections::btree::map::BTreeMap::is_empty", "std::collections::hash::map::HashMap::is_empty")
def m_mapempty(cx):
    return cx.ok(Eq(map_len(cx.val(0)), Int(0)))


# ------------------------------------------------------------------ iterators
@reg("core::slice::iter", "core::slice::iter::Iter::new", "alloc::collections::vec_deque::VecDeque::iter")
def m_iter(cx):
    return cx.ok(mk("it_seq", cx.val(0), Int(0)))


def map_iter(m):
    return mk("it_seq", mk("mapseq", m), Int(0))


@reg("alloc::collections::btree::map::BTreeMap::iter", "std::collections::hash::map::HashMap::iter",
     "alloc::collections::btree::map::BTreeMap::into_iter")
def m_mapiter(cx):
    return cx.ok(map_iter(cx.val(0)))


@reg("alloc::collections::btree::map::BTreeMap::keys", "std::collections::hash::map::HashMap::keys",
     "alloc::collections::btree::map::BTreeMap::into_keys", "std::collections::hash::map::HashMap::into_keys",
     "alloc::collections::btree::map::BTreeMap::values", "std::collections::hash::map::HashMap::values",
     "alloc::collections::btree::map::BTreeMap::into_values", "std::collections::hash::map::HashMap::into_values")
def m_mapkeys(cx):
    return cx.ok(mk("it_proj", map_iter(cx.val(0)), 0 if "keys" in cx.c["name"] else 1))


@reg("core::option::Option::iter")
def m_optiter(cx):
    return opt_iter(cx, cx.val(0))


def opt_iter(cx, v):
    out = []
    for s, some in branch(cx.st, IsSome(v)):
        out.append(("ok", s, mk("it_seq", Seq(Fld(v, (1, 0))) if some else EMPTY, Int(0))))
    return out


@reg("core::iter::traits::collect::IntoIterator::into_iter")
def m_into_iter(cx):
    v = cx.args[0]
    x = cx.val(0)
    if x.op in STRUCT_OPS:
        return cx.ok(v)
    t = cx.atys[0] if cx.atys else None
    mut = t and t.get("k") == "ref" and t.get("mut")
    while t and t.get("k") == "ref":
        t = cx.fr.body.types[t["to"]]
    if x.op == "adt":
        n = x.a[0]
        if n == "core::ops::range::Range":
            return cx.ok(mk("it_range", x.a[2][0], x.a[2][1]))
        if as_iter(x) is not x:
            return cx.ok(as_iter(x))
        if n == OPT:
            return opt_iter(cx, x)
        if cx.eng.impls.get(("core::iter::traits::iterator::Iterator", "next", n)):
            return cx.ok(v)
    if t and t.get("adt") == OPT:
        return opt_iter(cx, x)
    if t and t.get("adt", "").endswith("Map"):
        return cx.ok(map_iter(x))
    if mut and v.op == "mref":
        p = cx.place(0)
        if t and (t.get("adt") in SEQTYPES or t.get("k") in ("slice", "array")):
            return cx.ok(mk("it_mut", p, Int(0)))
        return cx.ok(v)
    if t and (t.get("adt") in SEQTYPES or t.get("k") in ("slice", "array")):
        return cx.ok(mk("it_seq", x, Int(0)))
    if t and t.get("adt", "").startswith(("core::iter", "core::slice", "alloc::vec")):
        return cx.ok(v)
    if t and t.get("k") in ("param", "alias"):
        return cx.ok(v)
    if x.op in ("seq", "bytes", "cat", "sub", "fm", "rev"):
        return cx.ok(mk("it_seq", x, Int(0)))
    return NotImplemented


@reg("core::slice::iter_mut", "alloc::collections::vec_deque::VecDeque::iter_mut")
def m_iter_mut(cx):
    p = cx.place(0)
    if p is None:
        return NotImplemented
    return cx.ok(mk("it_mut", p, Int(0)))


I = "core::iter::traits::iterator::Iterator::"


def as_iter(x):
    """iterators represented by plain values"""
    if x.op == "adt" and x.a[0] == "core::ops::range::Range":
        return mk("it_range", x.a[2][0], x.a[2][1])
    if x.op == "adt" and x.a[0] == "core::ops::range::RangeFrom":
        return mk("it_rfrom", x.a[2][0])
    if x.op == "adt" and x.a[0] == "core::ops::range::RangeInclusive":
        return mk("it_range", x.a[2][0], Add(x.a[2][1], Int(1)))
    return x


@reg(I + "map")
def m_itmap(cx):
    return cx.ok(mk("it_map", as_iter(cx.args[0]), cx.args[1]))


@reg(I + "filter")
def m_itfilter(cx):
    return cx.ok(mk("it_filter", as_iter(cx.args[0]), cx.args[1]))


@reg(I + "filter_map")
def m_itfm(cx):
    return cx.ok(mk("it_filter_map", as_iter(cx.args[0]), cx.args[1]))


@reg(I + "map_while")
def m_itmw(cx):
    return cx.ok(mk("it_map_while", as_iter(cx.args[0]), cx.args[1]))


@reg(I + "take_while")
def m_ittw(cx):
    return cx.ok(mk("it_take_while", as_iter(cx.args[0]), cx.args[1]))


@reg(I + "scan")
def m_itscan(cx):
    return cx.ok(mk("it_scan", as_iter(cx.args[0]), cx.args[1], cx.args[2]))


@reg(I + "flatten", I + "flat_map")
def m_itflat(cx):
    """over options (and results) only"""
    it = as_iter(cx.args[0])
    if cx.c["name"] == "flat_map":
        it = mk("it_map", it, cx.args[1])
    return cx.ok(mk("it_flatopt", it, TRUE))


@reg("core::slice::chunks")
def m_chunks(cx):
    return cx.ok(mk("it_chunks", cx.val(0), cx.val(1)))


@reg("core::slice::split")
def m_slsplit(cx):
    return cx.ok(mk("it_split", cx.val(0), cx.args[1]))


@reg("core::slice::contains", "alloc::collections::vec_deque::VecDeque::contains")
def m_slcontains(cx):
    return cx.eng.inline(cx.st, cx.eng.bodies[RUST + "contains"], list(cx.args), cx.fr, cx.line)


@reg("alloc::vec::Vec::retain", "alloc::collections::vec_deque::VecDeque::retain")
def m_retain(cx):
    return cx.eng.inline(cx.st, cx.eng.bodies[RUST + "retain"], list(cx.args), cx.fr, cx.line)


@reg(I + "skip_while")
def m_itsw(cx):
    """by a search for the first of the elements that are left"""
    eng = cx.eng
    r = ("tmp", eng.newframe())
    cx.st.mem[r] = as_iter(cx.args[0])
    out = []
    for x in eng.inline(cx.st, eng.bodies[RUST + "skip_while"], [mk("mref", r, ()), cx.args[1]], cx.fr, cx.line):
        if x[0] != "ok":
            out.append(x)
            continue
        it = x[1].mem.pop(r)
        for s, some in branch(x[1], IsSome(x[2])):
            out.append(("ok", s, mk("it_chain", mk("it_seq", Seq(Fld(x[2], (1, 0))), Int(0)), it) if some else mk("it_seq", EMPTY, Int(0))))
    return out


@reg(I + "inspect")
def m_itinsp(cx):
    return cx.ok(mk("it_inspect", as_iter(cx.args[0]), cx.args[1]))


@reg(I + "enumerate")
def m_itenum(cx):
    return cx.ok(mk("it_enum", as_iter(cx.args[0]), Int(0), 1))


@reg(I + "zip")
def m_itzip(cx):
    b = cx.args[1]
    x = cx.eng.deref(cx.st, b)
    t = cx.atys[1] if cx.atys else None
    if x.op not in STRUCT_OPS and x.op != "adt":
        b = mk("it_seq", x, Int(0))
    return cx.ok(mk("it_zip", as_iter(cx.args[0]), as_iter(b)))


@reg("core::iter::adapters::zip::zip")
def m_zip(cx):
    return m_itzip(cx)


@reg(I + "chain")
def m_itchain(cx):
    b = cx.args[1]
    x = cx.eng.deref(cx.st, b)
    if x.op == "adt" and x.a[0] == OPT:
        out = []
        for r in opt_iter(cx, x):
            out.append(("ok", r[1], mk("it_chain", as_iter(cx.args[0]), r[2])))
        return out
    if x.op not in STRUCT_OPS and x.op != "adt":
        b = mk("it_seq", x, Int(0))
    return cx.ok(mk("it_chain", as_iter(cx.args[0]), as_iter(b)))


@reg(I + "peekable")
def m_itpeek(cx):
    return cx.ok(mk("it_peek", as_iter(cx.args[0])))


@reg(I + "fuse", I + "by_ref", I + "cloned", I + "copied")
def m_itid(cx):
    return cx.ok(cx.args[0])


@reg(I + "take")
def m_ittake(cx):
    it, n = as_iter(cx.val(0)), cx.val(1)
    if it.op == "it_repeat":
        return cx.ok(mk("it_seq", mk("repeat", it.a[0], n), Int(0)))
    if it.op == "it_seq":
        out = []
        S, pos = it.a
        for s, lng in branch(cx.st, Lt(Add(pos, n), Len(S))):
            out.append(("ok", s, mk("it_seq", SubSeq(S, pos, Add(pos, n) if lng else Len(S)), Int(0))))
        return out
    return cx.ok(mk("it_take", it, n))


@reg(I + "skip")
def m_itskip(cx):
    it, n = as_iter(cx.val(0)), cx.val(1)

    def skip(st, it):
        if it.op == "it_seq":
            out = []
            S, pos = it.a
            for s, lng in branch(st, Lt(Len(S), Add(pos, n))):
                out.append((s, mk("it_seq", S, Len(S) if lng else Add(pos, n))))
            return out
        if it.op == "it_enum" and it.a[2] == 1:
            return [(s, mk("it_enum", x, Add(it.a[1], n), 1)) for s, x in skip(st, it.a[0])]
        if it.op == "it_map":
            return [(s, mk("it_map", x, it.a[1])) for s, x in skip(st, it.a[0])]
        if it.op == "it_range":
            return [(s, mk("it_range", Add(it.a[0], n), it.a[1])) for s in [st]]
        return None
    r = skip(cx.st, it)
    if r is None:
        return NotImplemented
    return [("ok", s, x) for s, x in r]


@reg("core::iter::sources::repeat::repeat")
def m_repeat(cx):
    return cx.ok(mk("it_repeat", cx.val(0)))


@reg("core::iter::sources::once::once")
def m_once(cx):
    return cx.ok(mk("it_seq", Seq(cx.args[0]), Int(0)))


@reg("core::iter::sources::empty::empty")
def m_iempty(cx):
    return cx.ok(mk("it_seq", EMPTY, Int(0)))


def rev_it(it):
    o = it.op
    if o == "it_seq":
        S, pos = it.a
        return mk("it_seq", Rev(SubSeq(S, pos, Len(S))), Int(0))
    if o in ("it_map", "it_filter", "it_filter_map", "it_inspect", "it_proj", "it_flatopt"):
        r = rev_it(it.a[0])
        return r and mk(o, r, it.a[1])
    if o == "it_enum":
        r = rev_it(it.a[0])
        n = it_len(it.a[0])
        if r is None or n is None or it.a[2] != 1:
            return None
        return mk("it_enum", r, Add(it.a[1], Sub(n, Int(1))), -1)
    if o == "it_range":
        return mk("it_seq", Rev(mk("rangeseq", it.a[0], it.a[1])), Int(0))
    if o == "it_chain":
        a, b = rev_it(it.a[0]), rev_it(it.a[1])
        return a and b and mk("it_chain", b, a)
    if o == "it_mut":
        return None
    return None


def it_len(it):
    o = it.op
    if o == "it_seq":
        return Sub(Len(it.a[0]), it.a[1])
    if o in ("it_map", "it_enum", "it_inspect", "it_proj"):
        return it_len(it.a[0])
    if o == "it_range":
        return Sub(it.a[1], it.a[0])
    if o == "it_chain":
        a, b = it_len(it.a[0]), it_len(it.a[1])
        return a and b and Add(a, b)
    return None


@reg(I + "rev")
def m_itrev(cx):
    it = as_iter(cx.val(0))
    r = rev_it(it)
    if r is None:
        return NotImplemented
    return cx.ok(r)


def iter_seq(cx, it):
    """the remaining elements as a sequence value, if the iterator is a plain one"""
    o = it.op
    if o == "it_seq":
        return SubSeq(it.a[0], it.a[1], Len(it.a[0]))
    if o == "it_chain":
        a, b = iter_seq(cx, it.a[0]), iter_seq(cx, it.a[1])
        return None if a is None or b is None else Cat(a, b)
    return None


def call_clo(cx, st, clo, args):
    """call a stored closure, returning (result list with the closure's new value)"""
    eng = cx.eng
    r = ("tmp", eng.newframe())
    st.mem[r] = clo
    rs = eng.call_value(st, mk("mref", r, ()) if clo.op == "clo" else clo, args, cx.fr, cx.line)
    out = []
    for x in rs:
        if x[0] == "ok":
            nc = x[1].mem.pop(r, clo)
            if nc.op == "mref":
                nc = clo
            out.append(("ok", x[1], x[2], nc))
        else:
            if x[0] == "skip":
                x[1].mem.pop(r, None)
            out.append(x)
    return out


def nxt(cx, st, it):
    """[('ok', st, newit, item|None) | ('panic', ..) | ('skip', st)]"""
    o = it.op
    eng = cx.eng
    if o == "mref":
        # by reference iterator
        out = []
        cur = eng.read_loc(st, it.a[0], it.a[1])
        if cur.op == "mref":
            return nxt_ref(cx, st, cur, it)
        return nxt_ref(cx, st, it, it)
    it = as_iter(it)
    o = it.op
    if o == "it_seq":
        S, pos = it.a
        out = []
        for s, more in branch(st, Lt(pos, Len(S))):
            if more:
                out.append(("ok", s, mk("it_seq", S, Add(pos, Int(1))), At(S, pos)))
            else:
                out.append(("ok", s, it, None))
        return out
    if o == "it_mut":
        p, pos = it.a
        S = eng.read_loc(st, p.a[0], p.a[1])
        out = []
        for s, more in branch(st, Lt(pos, Len(S))):
            if more:
                out.append(("ok", s, mk("it_mut", p, Add(pos, Int(1))), mk("mref", p.a[0], p.a[1] + (("idx", pos),))))
            else:
                out.append(("ok", s, it, None))
        return out
    if o == "it_range":
        out = []
        for s, more in branch(st, Lt(it.a[0], it.a[1])):
            if more:
                out.append(("ok", s, mk("it_range", Add(it.a[0], Int(1)), it.a[1]), it.a[0]))
            else:
                out.append(("ok", s, it, None))
        return out
    if o == "it_rfrom":
        return [("ok", st, mk("it_rfrom", Add(it.a[0], Int(1))), it.a[0])]
    if o == "it_repeat":
        return [("ok", st, it, it.a[0])]
    if o in ("it_map", "it_inspect"):
        out = []
        for r in nxt(cx, st, it.a[0]):
            if r[0] == "rejected":
                out.append(("rejected", r[1], mk(o, r[2], it.a[1])))
            elif r[0] != "ok":
                out.append(r)
            elif r[3] is None:
                out.append(("ok", r[1], mk(o, r[2], it.a[1]), None))
            else:
                for x in call_clo(cx, r[1], it.a[1], [r[3]]):
                    if x[0] == "ok":
                        out.append(("ok", x[1], mk(o, r[2], x[3]), x[2] if o == "it_map" else r[3]))
                    else:
                        out.append(x)
        return out
    if o == "it_enum":
        out = []
        for r in nxt(cx, st, it.a[0]):
            if r[0] == "rejected":
                out.append(("rejected", r[1], mk("it_enum", r[2], it.a[1], it.a[2])))
            elif r[0] != "ok":
                out.append(r)
            elif r[3] is None:
                out.append(("ok", r[1], mk("it_enum", r[2], it.a[1], it.a[2]), None))
            else:
                out.append(("ok", r[1], mk("it_enum", r[2], Add(it.a[1], Int(it.a[2])), it.a[2]), mk("tup", it.a[1], r[3])))
        return out
    if o == "it_zip":
        out = []
        cx.skip_root = None
        for r in nxt(cx, st, it.a[0]):
            if r[0] != "ok":
                out.append(r)
            elif r[3] is None:
                out.append(("ok", r[1], mk("it_zip", r[2], it.a[1]), None))
            else:
                for q in nxt(cx, r[1], it.a[1]):
                    if q[0] != "ok":
                        out.append(q)
                    else:
                        out.append(("ok", q[1], mk("it_zip", r[2], q[2]), None if q[3] is None else mk("tup", r[3], q[3])))
        return out
    if o == "it_chain":
        out = []
        for r in nxt(cx, st, it.a[0]):
            if r[0] == "rejected":
                out.append(("rejected", r[1], mk("it_chain", r[2], it.a[1])))
            elif r[0] != "ok":
                out.append(r)
            elif r[3] is None:
                for q in nxt(cx, r[1], it.a[1]):
                    if q[0] == "ok":
                        out.append(("ok", q[1], mk("it_chain", r[2], q[2]), q[3]))
                    elif q[0] == "rejected":
                        out.append(("rejected", q[1], mk("it_chain", r[2], q[2])))
                    else:
                        out.append(q)
            else:
                out.append(("ok", r[1], mk("it_chain", r[2], it.a[1]), r[3]))
        return out
    if o == "it_peek":
        out = []
        for r in nxt(cx, st, it.a[0]):
            if r[0] == "rejected":
                out.append(("rejected", r[1], mk("it_peek", r[2])))
            else:
                out.append(("ok", r[1], mk("it_peek", r[2]), r[3]) if r[0] == "ok" else r)
        return out
    if o == "it_take":
        cx.skip_root = None
        out = []
        for s, zero in branch(st, Eq(it.a[1], Int(0))):
            if zero:
                out.append(("ok", s, it, None))
                continue
            for r in nxt(cx, s, it.a[0]):
                out.append(("ok", r[1], mk("it_take", r[2], Sub(it.a[1], Int(1))), r[3]) if r[0] == "ok" else r)
        return out
    if o in ("it_filter", "it_filter_map", "it_flatopt"):
        return nxt_filter(cx, st, it)
    if o == "it_proj":
        out = []
        for r in nxt(cx, st, it.a[0]):
            if r[0] == "ok":
                out.append(("ok", r[1], mk("it_proj", r[2], it.a[1]), None if r[3] is None else Fld(r[3], (0, it.a[1]))))
            else:
                out.append(("rejected", r[1], mk("it_proj", r[2], it.a[1])) if r[0] == "rejected" else r)
        return out
    if o in ("it_map_while", "it_take_while"):
        out = []
        for r in nxt(cx, st, it.a[0]):
            if r[0] == "rejected":
                out.append(("rejected", r[1], mk(o, r[2], it.a[1])))
            elif r[0] != "ok":
                out.append(r)
            elif r[3] is None:
                out.append(("ok", r[1], mk(o, r[2], it.a[1]), None))
            else:
                for x in call_clo(cx, r[1], it.a[1], [r[3]]):
                    if x[0] != "ok":
                        out.append(x)
                    elif o == "it_map_while":
                        for s, k in branch(x[1], IsSome(x[2])):
                            out.append(("ok", s, mk(o, r[2], x[3]), Fld(x[2], (1, 0)) if k else None))
                    else:
                        for s, k in branch(x[1], x[2]):
                            out.append(("ok", s, mk(o, r[2], x[3]) if k else mk("it_seq", EMPTY, Int(0)), r[3] if k else None))
        return out
    if o == "it_scan":
        out = []
        for r in nxt(cx, st, it.a[0]):
            if r[0] == "rejected":
                out.append(("rejected", r[1], mk(o, r[2], it.a[1], it.a[2])))
            elif r[0] != "ok":
                out.append(r)
            elif r[3] is None:
                out.append(("ok", r[1], mk(o, r[2], it.a[1], it.a[2]), None))
            else:
                k = ("tmp", eng.newframe())
                r[1].mem[k] = it.a[1]
                for x in call_clo(cx, r[1], it.a[2], [mk("mref", k, ()), r[3]]):
                    if x[0] != "ok":
                        out.append(x)
                        continue
                    v = x[1].mem.pop(k)
                    for s, some in branch(x[1], IsSome(x[2])):
                        out.append(("ok", s, mk(o, r[2], v, x[3]), Fld(x[2], (1, 0)) if some else None))
        return out
    if o == "it_chunks":
        S, n = it.a
        out = []
        for s, none in branch(st, Eq(Len(S), Int(0))):
            if none:
                out.append(("ok", s, it, None))
                continue
            for s2, short in branch(s, Lt(Len(S), n)):
                k = Len(S) if short else n
                out.append(("ok", s2, mk("it_chunks", SubSeq(S, k, Len(S)), n), SubSeq(S, Int(0), k)))
        return out
    if o == "it_split":
        S, clo = it.a
        cx.skip_root = None
        out = []
        r0 = ("tmp", eng.newframe())
        st.mem[r0] = mk("it_seq", S, Int(0))
        for x in eng.inline(st, eng.bodies[RUST + "position"], [mk("mref", r0, ()), clo], cx.fr, cx.line):
            if x[0] != "ok":
                out.append(x)
                continue
            x[1].mem.pop(r0)
            for s, some in branch(x[1], IsSome(x[2])):
                i = Fld(x[2], (1, 0))
                out.append(("ok", s, mk("it_split", SubSeq(S, Add(i, Int(1)), Len(S)), clo), SubSeq(S, Int(0), i)) if some
                           else ("ok", s, mk("it_seq", EMPTY, Int(0)), S))
        return out
    if o == "adt":
        b = eng.impls.get(("core::iter::traits::iterator::Iterator", "next", it.a[0]))
        if b:
            r = ("tmp", eng.newframe())
            st.mem[r] = it
            out = []
            for x in eng.inline(st, b[0], [mk("mref", r, ())], cx.fr, cx.line):
                if x[0] == "ok":
                    nit = x[1].mem.pop(r)
                    out += opt_cases(x[1], nit, x[2])
                else:
                    out.append(x)
            return out
    if o == "phi" or True:
        # unknown iterator
        v = mk("ap", "next", it)
        eng.unknown["iterator:" + o] = eng.unknown.get("iterator:" + o, 0) + 1
        return opt_cases(st, mk("mut", "next", 0, it), v)


def opt_cases(st, nit, v):
    out = []
    for s, some in branch(st, IsSome(v)):
        out.append(("ok", s, nit, Fld(v, (1, 0)) if some else None))
    return out


def nxt_ref(cx, st, ref, orig):
    eng = cx.eng
    out = []
    for r in nxt(cx, st, eng.read_loc(st, ref.a[0], ref.a[1])):
        if r[0] == "ok":
            eng.write_loc(r[1], ref.a[0], ref.a[1], r[2])
            out.append(("ok", r[1], orig, r[3]))
        elif r[0] == "rejected":
            eng.write_loc(r[1], ref.a[0], ref.a[1], r[2])
            out.append(("rejected", r[1], orig))
        else:
            out.append(r)
    return out


def filter_once(cx, st, it):
    """one inner step: [('ok', st, newit, item, keep)] keep None at the end"""
    o = it.op
    out = []
    for r in nxt(cx, st, it.a[0]):
        if r[0] == "rejected":
            out.append(("rejected", r[1], mk(o, r[2], it.a[1])))
            continue
        if r[0] != "ok":
            out.append(r)
            continue
        if r[3] is None:
            out.append(("ok", r[1], mk(o, r[2], it.a[1]), None, None))
            continue
        if o == "it_flatopt":
            v = r[3]
            path = v.a[0] if v.op == "adt" else None
            if path not in (OPT, RES):
                cx.eng.unknown["iterator:flatten"] = cx.eng.unknown.get("iterator:flatten", 0) + 1
                v = mk("ap", "flatten", v)
            for s, k in branch(r[1], Eq(Discr(v), Int(0)) if path == RES else IsSome(v)):
                out.append(("ok", s, mk(o, r[2], it.a[1]), Fld(v, (0 if path == RES else 1, 0)) if k else None, k))
            continue
        for x in call_clo(cx, r[1], it.a[1], [r[3]]):
            if x[0] != "ok":
                out.append(x)
                continue
            ni = mk(o, r[2], x[3])
            if o == "it_filter":
                for s, k in branch(x[1], x[2]):
                    out.append(("ok", s, ni, r[3], k))
            else:
                for s, k in branch(x[1], IsSome(x[2])):
                    out.append(("ok", s, ni, Fld(x[2], (1, 0)) if k else None, k))
    return out


def filter_skip_ok(cx, st):
    eng = cx.eng
    root = getattr(cx, "skip_root", None)
    if root is None or not eng.loopctx:
        return False
    fid, h, hmem = eng.loopctx[-1]
    if root not in hmem:
        return False
    return all(st.mem.get(r, v) is v for r, v in hmem.items())


def nxt_filter(cx, st, it):
    eng = cx.eng
    # at the head of a loop, a rejected element is one more turn of that loop
    if filter_skip_ok(cx, st):
        out = []
        for r in filter_once(cx, st, it):
            if r[0] != "ok":
                out.append(r)
            elif r[4] is None:
                out.append(("ok", r[1], r[2], None))
            elif r[4]:
                out.append(("ok", r[1], r[2], r[3]))
            else:
                out.append(("rejected", r[1], r[2]))
        return out
    # search loop
    cx.skip_root = None
    r0 = ("tmp", eng.newframe())
    st.mem[r0] = it
    b = eng.bodies[RUST + "search"]
    out = []
    for x in eng.inline(st, b, [mk("mref", r0, ())], cx.fr, cx.line):
        if x[0] == "ok":
            ni = x[1].mem.pop(r0)
            v = x[2]
            out.append(("ok", x[1], ni, v.a[2][0] if v.a[1] == 1 else None))
        else:
            out.append(x)
    return out


@reg(RUST + "filter_step")
def m_filter_step(cx):
    """Step::{Done, Skip, Item(x)} of the filter behind the reference"""
    p = cx.place(0)
    it = cx.val(0)
    out = []
    n = RUST + "Step"
    for r in filter_once(cx, cx.st, it):
        if r[0] != "ok":
            out.append(r)
            continue
        cx.eng.write_loc(r[1], p.a[0], p.a[1], r[2])
        if r[4] is None:
            v = Adt(n, 0, (), "Done")
        elif r[4]:
            v = Adt(n, 2, (r[3],), "Item")
        else:
            v = Adt(n, 1, (), "Skip")
        out.append(("ok", r[1], v))
    return out


@reg(I + "next")
def m_next(cx):
    p = cx.place(0)
    it = cx.val(0)
    if it.op == "adt" and as_iter(it) is it:
        return NotImplemented
    if p is None:
        return NotImplemented
    out = []
    cx.skip_root = p.a[0]
    for r in nxt(cx, cx.st, it):
        if r[0] == "ok":
            cx.eng.write_loc(r[1], p.a[0], p.a[1], r[2])
            out.append(("ok", r[1], NONE if r[3] is None else option(r[3])))
        elif r[0] == "rejected":
            cx.eng.write_loc(r[1], p.a[0], p.a[1], r[2])
            for root, v in cx.eng.loopctx[-1][2].items():
                r[1].mem.setdefault(root, v)
            out.append(("skip", r[1]))
        else:
            out.append(r)
    return out


@reg("core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def m_next_back(cx):
    p = cx.place(0)
    it = cx.val(0)
    if p is None:
        return NotImplemented
    r = rev_it(it)
    if r is None:
        return NotImplemented
    out = []
    for x in nxt(cx, cx.st, r):
        if x[0] == "ok":
            ni = rev_it(x[2])
            if ni is None:
                return NotImplemented
            cx.eng.write_loc(x[1], p.a[0], p.a[1], ni)
            out.append(("ok", x[1], NONE if x[3] is None else option(x[3])))
        elif x[0] == "rejected":
            return NotImplemented
        else:
            out.append(x)
    return out


@reg("core::iter::adapters::peekable::Peekable::peek")
def m_peek(cx):
    it = cx.val(0)
    if it.op != "it_peek":
        return NotImplemented
    out = []
    for r in nxt(cx, cx.st, it.a[0]):
        if r[0] == "ok":
            out.append(("ok", r[1], NONE if r[3] is None else option(r[3])))
        elif r[0] == "rejected":
            return NotImplemented
        else:
            out.append(r)
    return out


@reg("core::iter::adapters::peekable::Peekable::next_if")
def m_next_if(cx):
    return NotImplemented


def rust_model(name, byref=False):
    def f(cx):
        b = cx.eng.bodies.get(RUST + name)
        if b is None:
            return NotImplemented
        return cx.eng.inline(cx.st, b, list(cx.args), cx.fr, cx.line)
    return f


for _n in ("for_each", "fold", "count", "position", "find", "find_map", "any", "all", "last", "try_for_each", "try_fold", "nth", "rposition",
           "max", "min", "sum", "unzip", "partition"):
    MODELS[I + _n] = rust_model(_n)


def back_model(name):
    def f(cx):
        r = rev_it(cx.val(0))
        b = cx.eng.bodies.get(RUST + name)
        if r is None or b is None or cx.args[0].op == "mref":
            return NotImplemented
        k = ("tmp", cx.eng.newframe())
        cx.st.mem[k] = r
        out = []
        for x in cx.eng.inline(cx.st, b, [mk("mref", k, ()) if name == "find" else r] + list(cx.args[1:]), cx.fr, cx.line):
            if x[0] == "ok":
                x[1].mem.pop(k, None)
            out.append(x)
        return out
    return f


MODELS["core::iter::traits::double_ended::DoubleEndedIterator::rfold"] = back_model("fold")


@reg("core::iter::traits::double_ended::DoubleEndedIterator::rfind")
def m_rfind(cx):
    """what is left of the iterator afterwards is not modelled"""
    p = cx.place(0)
    r = rev_it(cx.val(0))
    b = cx.eng.bodies.get(RUST + "find")
    if r is None or b is None or p is None:
        return NotImplemented
    k = ("tmp", cx.eng.newframe())
    cx.st.mem[k] = r
    out = []
    for x in cx.eng.inline(cx.st, b, [mk("mref", k, ()), cx.args[1]], cx.fr, cx.line):
        if x[0] == "ok":
            left = rev_it(x[1].mem.pop(k))
            cx.eng.write_loc(x[1], p.a[0], p.a[1], left if left is not None else mk("mut", "rfind", 0, cx.val(0)))
        out.append(x)
    return out


@reg(I + "sum")
def m_sum(cx):
    rs = rust_model("sum")(cx)
    if rs is NotImplemented or cx.eng.no_overflow or not cx.dty or not cx.dty.get("bits"):
        return rs
    lim = (1 << cx.dty["bits"] - int(bool(cx.dty.get("signed")))) - 1
    out = []
    for r in rs:
        if r[0] != "ok":
            out.append(r)
            continue
        for s, bad in branch(r[1], Lt(Int(lim), r[2])):
            out.append(cx.panic(s, "overflow", r[2]) if bad else ("ok", s, r[2]))
    return out


@reg(I + "count")
def m_count(cx):
    it = cx.val(0)
    n = it_len(it) if it.op in ("it_seq",) else None
    if n is not None:
        return cx.ok(n)
    return rust_model("count")(cx)


@reg(I + "rposition")
def m_rposition(cx):
    it = cx.val(0)
    r, n = rev_it(it), it_len(it)
    if r is None or n is None:
        return NotImplemented
    return cx.eng.inline(cx.st, cx.eng.bodies[RUST + "rposition"], [r, n, cx.args[1]], cx.fr, cx.line)


@reg(I + "collect")
def m_collect(cx):
    t = cx.dty
    a = t.get("adt", "") if t else ""
    if a in (RES, OPT):
        return rust_model("collect_" + ("result" if a == RES else "option"))(cx)
    if a.endswith("Map") or a.endswith("Set"):
        return NotImplemented
    it = cx.val(0)
    s = iter_seq(cx, it)
    if s is not None:
        return cx.ok(s)
    return rust_model("collect")(cx)


@reg("core::iter::traits::collect::Extend::extend")
def m_extend(cx):
    it = cx.eng.deref(cx.st, cx.args[1])
    if it.op not in STRUCT_OPS and it.op != "adt":
        it = mk("it_seq", it, Int(0))
    if it.op in STRUCT_OPS:
        s = iter_seq(cx, it)
        if s is not None:
            cx.set(0, Cat(cx.val(0), s))
            return cx.ok(UNIT)
    b = cx.eng.bodies.get(RUST + "extend")
    return cx.eng.inline(cx.st, b, [cx.args[0], it], cx.fr, cx.line)


@reg("core::iter::traits::collect::FromIterator::from_iter")
def m_from_iter(cx):
    return m_collect(cx)


@reg(I + "size_hint")
def m_size_hint(cx):
    return cx.ok(mk("cap", cx.val(0)))


# callables
@reg("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call")
def m_callonce(cx):
    tup = cx.val(1)
    args = list(tup.a) if tup.op == "tup" else [tup]
    v = cx.val(0)
    if v.op == "clo" or v.op == "fn":
        return cx.eng.call_value(cx.st, cx.args[0], args, cx.fr, cx.line)
    if cx.c.get("body") in cx.eng.bodies:
        return NotImplemented
    return cx.eng.call_value(cx.st, cx.args[0], args, cx.fr, cx.line)


# ------------------------------------------------------------------ parsing and encoding boundary
MR = "quick_protobuf::message::MessageRead::"
MW = "quick_protobuf::message::MessageWrite::"


@reg("quick_protobuf::reader::BytesReader::from_bytes")
def m_reader(cx):
    return cx.ok(mk("reader", cx.val(0)))


def parse_ty(cx):
    if cx.c.get("impl_self") is not None:
        t = cx.f.types[cx.c["impl_self"]]
        if t.get("adt"):
            return t["adt"]
    a = cx.c.get("args")
    if a:
        t = cx.f.types[a[0]]
        if t.get("adt"):
            return t["adt"]
    return None


@reg(MR + "from_reader")
def m_from_reader(cx):
    ty = parse_ty(cx)
    if ty is None:
        return NotImplemented
    b = cx.val(1)
    rd = cx.val(0)
    if rd.op == "reader" and rd.a[0] is b:
        m = (ty, b)
    else:
        m = (ty, b, rd)
    out = []
    for s, ok in branch(cx.st, mk("bool", "parses", *m)):
        cx.set(0, mk("readerafter", rd)) if False else None
        out.append(("ok", s, Ok(mk("msg", *m)) if ok else Err(mk("perr", *m))))
    return out


def origin(v):
    """the bytes a borrowed field of a message lies in"""
    while v.op in ("fld", "at"):
        v = v.a[0]
    return v.a[1] if v.op == "msg" else None


def address(st, v):
    if v.op == "sub":
        return Add(address(st, v.a[0]), v.a[1])
    b = origin(v) if v.op in ("fld", "at") else None
    if b is None:
        return mk("ptr", v)
    o = mk("off", v, b)
    st.assume(Lt(Len(b), Add(o, Len(v))), 0)
    return Add(address(st, b), o)


@reg("core::slice::as_ptr", "core::str::as_ptr", "alloc::vec::Vec::as_ptr")
def m_as_ptr(cx):
    return cx.ok(address(cx.st, cx.val(0)))


from . import wire          # noqa: E402,F401


# ------------------------------------------------------------------ panics, formatting
for _n in ("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::assert_failed", "core::panicking::unreachable_display",
           "core::panicking::unreachable_default_msg", "std::panicking::begin_panic", "core::panicking::panic_display", "core::panicking::panic_explicit",
           "core::panicking::panic_nounwind", "core::result::unwrap_failed", "core::option::unwrap_failed", "core::option::expect_failed"):
    def _f(cx, _n=_n):
        return [cx.panic(cx.st, _n.split("::")[-1], *[cx.eng.snapshot(cx.st, a) for a in cx.args])]
    MODELS[_n] = _f


@reg("core::fmt::Arguments::new", "core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug", "core::fmt::Arguments::from_str",
     "core::fmt::rt::Argument::new_lower_hex", "core::fmt::Arguments::new_const")
def m_fmt(cx):
    return cx.ok(mk("fmt", *[cx.eng.snapshot(cx.st, a) for a in cx.args]))
