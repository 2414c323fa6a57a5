"""Hash-consed value terms and their normal forms."""


class V:
    __slots__ = ("op", "a", "id", "_h")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o


_tab = {}


def mk(op, *a):
    k = (op, a)
    v = _tab.get(k)
    if v is None:
        v = V()
        v.op, v.a, v.id = op, a, len(_tab)
        v._h = hash(v.id)
        _tab[k] = v
    return v


def isV(x):
    return isinstance(x, V)


def show(v, depth=6):
    if not isV(v):
        return repr(v) if not isinstance(v, tuple) else "(" + ", ".join(show(x, depth) for x in v) + ")"
    if depth <= 0:
        return "…"
    o, a = v.op, v.a
    if o == "int":
        return str(a[0])
    if o == "sym":
        return "$" + str(a[0])
    if o == "adt":
        fs = ", ".join(show(x, depth - 1) for x in a[2])
        n = a[0].split("::")[-1] + ("" if a[3] is None else "::" + a[3])
        return n + ("{" + fs + "}" if fs else "")
    if o == "fld":
        k = a[1]
        return show(a[0], depth - 1) + "." + (k if isinstance(k, str) else ".".join(str(show(x) if isV(x) else x) for x in k))
    if o == "lin":
        return "(" + " + ".join([str(a[0])] + [("" if c == 1 else str(c) + "*") + show(t, depth - 1) for t, c in a[1]]) + ")"
    if o == "tup":
        return "(" + ", ".join(show(x, depth - 1) for x in a) + ")"
    if o == "seq":
        return "[" + ", ".join(show(x, depth - 1) for x in a) + "]"
    if o == "bytes":
        try:
            return repr(bytes.fromhex(a[0]).decode())
        except Exception:
            return "0x" + a[0]
    return o + "(" + ", ".join(show(x, depth - 1) for x in a) + ")"


# ---------------------------------------------------------------- constructors
def Int(n):
    return mk("int", int(n))


TRUE, FALSE = Int(1), Int(0)
UNIT = mk("tup")
EMPTY = mk("seq")


def Iv(k):
    """index variable bound by the enclosing term of level k"""
    return mk("iv", k)


BIND = {"fm", "fsum", "first", "allc"}    # (drivers, start, bound, decision diagram, level)
ALL = mk("all")
_lvl = {}


def level(v):
    """highest binder level inside v, or -1"""
    if not isV(v):
        return max([level(x) for x in v], default=-1) if isinstance(v, tuple) else -1
    r = _lvl.get(v)
    if r is None:
        r = max([level(x) for x in v.a], default=-1)
        if v.op in BIND:
            r = max(r, v.a[4])
        _lvl[v] = r
    return r


# decision diagrams over atomic facts ------------------------------------------
FULL = None        # set by vf: term -> (lo, hi) without facts


def dd_build(conjs, default):
    """canonical diagram of [(facts {term: (lo, hi, excluded)}, leaf)]"""
    def go(cs):
        ts = set(t for c, _ in cs for t in c)
        if not ts:
            return cs[0][1] if cs else default
        t = min(ts, key=lambda x: x.id)
        lo, hi = FULL(t)
        cuts = {lo}
        for c, _ in cs:
            f = c.get(t)
            if f:
                for x in (f[0], f[1] + 1):
                    if lo < x <= hi:
                        cuts.add(x)
                for x in f[2]:
                    for y in (x, x + 1):
                        if lo < y <= hi:
                            cuts.add(y)
        cuts = sorted(cuts)
        kids = []
        for i, a in enumerate(cuts):
            b = cuts[i + 1] - 1 if i + 1 < len(cuts) else hi
            sub = []
            for c, x in cs:
                f = c.get(t)
                if f is None or (f[0] <= a and b <= f[1] and not (a == b and a in f[2])):
                    if f is not None:
                        c = {k: v for k, v in c.items() if k is not t}
                    sub.append((c, x))
            k = go(sub)
            if kids and kids[-1][2] is k:
                kids[-1] = (kids[-1][0], b, k)
            else:
                kids.append((a, b, k))
        if len(kids) == 1:
            return kids[0][2]
        return mk("dd", t, tuple(kids))
    return go([(dict(c), x) for c, x in conjs])


def dd_paths(d):
    """[(conjunction {term: (lo, hi, {})}, leaf)]"""
    if d.op != "dd":
        return [({}, d)]
    out = []
    for a, b, k in d.a[1]:
        for c, x in dd_paths(k):
            c = dict(c)
            c[d.a[0]] = (a, b, frozenset())
            out.append((c, x))
    return out


def dd_under(d, cond, default):
    """the diagram where the conjunction is known"""
    out = []
    for f, x in dd_paths(d):
        g = {}
        for t, r in f.items():
            c = cond.get(t)
            if c is None:
                g[t] = r
            elif c[0] > r[1] or c[1] < r[0]:
                break
            elif c[0] < r[0] or c[1] > r[1]:
                g[t] = r
        else:
            out.append((g, x))
    return dd_build(out, default)


def dd_leaves(d):
    return [x for _, x in dd_paths(d)]


def dd_map(d, f):
    if d.op == "dd":
        return dd_norm(d.a[0], [(lo, hi, dd_map(k, f)) for lo, hi, k in d.a[1]])
    return f(d)


def dd_default(op):
    return {"fm": EMPTY, "fsum": Int(0)}.get(op, FALSE)


def dd_norm(t, kids):
    """rebuild a node whose parts were substituted"""
    if t.op == "int":
        for a, b, k in kids:
            if a <= t.a[0] <= b:
                return k
        return mk("dd", t, kids)
    conjs = []
    for a, b, k in kids:
        for c, x in dd_paths(k):
            if t in c:
                f = c[t]
                lo, hi = max(f[0], a), min(f[1], b)
                if lo > hi:
                    continue
                c[t] = (lo, hi, f[2])
            else:
                c[t] = (a, b, frozenset())
            conjs.append((c, x))
    return dd_build(conjs, FALSE)


def through(drv, init, bound, dd, k):
    """what is said of the elements of a list that has one element, by case, for every element of another"""
    F = drv[0]
    if len(drv) != 1 or F.op != "fm" or bound is not ALL or init is not Int(0):
        return None
    d0, i0, b0, f, k0 = F.a
    if i0 is not Int(0) or b0 is not ALL or f.op != "dd" or any(x.op != "seq" or len(x.a) != 1 for x in dd_leaves(f)):
        return None
    e = mk("at", F, Iv(k))
    conjs = []
    for c, x in dd_paths(subst(f, {Iv(k0): Iv(k)})):
        for c2, y in dd_paths(subst(dd, {e: x.a[0]})):
            m = dict(c2)
            for t, r in c.items():
                if t in m:
                    lo, hi = max(r[0], m[t][0]), min(r[1], m[t][1])
                    if lo > hi:
                        break
                    m[t] = (lo, hi, m[t][2])
                else:
                    m[t] = r
            else:
                conjs.append((m, y))
    return d0, conjs


def mkbind(op, drv, init, bound, dd, k):
    t = through(drv, init, bound, dd, k)
    if t is not None:
        return mkbind(op, t[0], init, bound, dd_build(t[1], dd_default(op)), k)
    if op == "fsum":
        if bound is not ALL and len(drv) > 1:
            # within the bound every driver has an element: keep those that are read
            iv = Iv(k)
            used = {x.a[0] for x in subterms(dd) if x.op == "at" and x.a[1] is iv}
            drv = tuple(d for d in drv if d in used) or drv
        if dd.op == "int":
            if dd.a[0] == 0:
                return Int(0)
            n = DrvLen(drv) if bound is ALL else bound.a[0]
            return Mul(dd, Sub(n, init))
    if op == "fm":
        if dd is EMPTY:
            return EMPTY
        if init.op == "int" and init.a[0] > 0 and len(drv) == 1 and bound is ALL and drv[0].op != "range":
            # the positions from a fixed one on: all positions of what is left
            return mkbind(op, (SubSeq(drv[0], init, Len(drv[0])),), Int(0), bound, subst(dd, {Iv(k): Add(Iv(k), init)}), k)
        if len(drv) == 1 and bound is ALL and init is Int(0) and drv[0].op == "seq" and len(drv[0].a) <= 4 and dd.op in ("seq", "cat"):
            return Cat(*[subst(dd, {mk("at", drv[0], Iv(k)): x, Iv(k): Int(n)}) for n, x in enumerate(drv[0].a)])
        if len(drv) == 1 and bound is ALL and dd.op == "seq" and len(dd.a) == 1 and drv[0].op not in ("range",):
            if dd.a[0] is At(drv[0], Iv(k)):
                return SubSeq(drv[0], init, Len(drv[0]))
            if drv[0].op == "rev":
                d = drv[0].a[0]
                m = {Iv(k): Sub(Sub(Len(d), Int(1)), Iv(k))}
                if init is Int(0):
                    return Rev(mkbind(op, (d,), init, bound, subst(dd, m), k))
        elif len(drv) == 1 and bound is ALL and drv[0].op == "rev" and init is Int(0):
            d = drv[0].a[0]
            m = {Iv(k): Sub(Sub(Len(d), Int(1)), Iv(k))}
            conj = [(c, Rev(x)) for c, x in dd_paths(subst(dd, m))]
            return Rev(mkbind(op, (d,), init, bound, dd_build(conj, EMPTY), k))
    if op in ("allc",) and dd is TRUE:
        return TRUE
    if op in ("allc", "fsum") and len(drv) == 1 and bound is ALL and drv[0].op == "rev" and init is Int(0):
        # the order makes no difference
        d = drv[0].a[0]
        m = {Iv(k): Sub(Sub(Len(d), Int(1)), Iv(k))}
        return mkbind(op, (d,), init, bound, dd_build([(c, x) for c, x in dd_paths(subst(dd, m))], dd_default(op)), k)
    return mk(op, drv, init, bound, dd, k)


def Sym(n):
    return mk("sym", n)


def Bytes(h):
    return mk("bytes", h) if h else EMPTY


def Adt(path, variant, fields, vname=None):
    return mk("adt", path, variant, tuple(fields), vname)


def isint(v):
    return isV(v) and v.op == "int"


# linear integer terms -------------------------------------------------------
def linparts(v):
    if v.op == "int":
        return v.a[0], {}
    if v.op == "lin":
        return v.a[0], dict(v.a[1])
    return 0, {v: 1}


def mklin(c, d):
    d = {k: n for k, n in d.items() if n}
    if not d:
        return Int(c)
    if c == 0 and len(d) == 1:
        (k, n), = d.items()
        if n == 1:
            return k
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def Add(a, b, sb=1):
    ca, da = linparts(a)
    cb, db = linparts(b)
    for k, n in db.items():
        da[k] = da.get(k, 0) + sb * n
    return mklin(ca + sb * cb, da)


def Sub(a, b):
    return Add(a, b, -1)


def Mul(a, b):
    if a.op == "int" and b.op == "int":
        return Int(a.a[0] * b.a[0])
    if b.op == "int":
        a, b = b, a
    if a.op == "int":
        c, d = linparts(b)
        k = a.a[0]
        return mklin(c * k, {t: n * k for t, n in d.items()})
    return mk("mul", *sorted((a, b), key=lambda x: x.id))


# booleans -------------------------------------------------------------------
def Not(a):
    if a.op == "int":
        return Int(1 - a.a[0])
    if a.op == "not":
        return a.a[0]
    return mk("not", a)


def strip(v):
    """bytes of a constant sequence, if it is one"""
    if v.op == "bytes":
        return v.a[0]
    if v is EMPTY:
        return ""
    return None


def Eq(a, b):
    if a is b:
        return TRUE
    if a.op == "int" and b.op == "int":
        return Int(a.a[0] == b.a[0])
    sa, sb = strip(a), strip(b)
    if sa is not None and sb is not None:
        return Int(sa == sb)
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        return And(*[Eq(x, y) for x, y in zip(a.a[2], b.a[2])])
    if a.op == "adt" or b.op == "adt":
        x, y = (a, b) if a.op == "adt" else (b, a)
        if x.a[3] is not None:
            drange(Discr(y), x.a[0])
            return And(Eq(Discr(y), Discr(x)), *[Eq(f, Fld(y, (x.a[1], i))) for i, f in enumerate(x.a[2])])
    if a.op == "tup" and b.op == "tup" and len(a.a) == len(b.a):
        return And(*[Eq(x, y) for x, y in zip(a.a, b.a)])
    if sa == "" or sb == "":
        x = b if sa == "" else a
        return Eq(Len(x), Int(0))
    # move linear differences to one side
    if a.op in ("lin", "int") or b.op in ("lin", "int"):
        c, d = linparts(Sub(a, b))
        if not d:
            return Int(c == 0)
        if all(n > 0 for n in d.values()) or all(n < 0 for n in d.values()):
            s = 1 if all(n > 0 for n in d.values()) else -1
            pos = mklin(0, {k: n * s for k, n in d.items()})
            return mk("eq", pos, Int(-c * s))
        l = mklin(0, {k: n for k, n in d.items() if n > 0})
        r = mklin(-c, {k: -n for k, n in d.items() if n < 0})
        a, b = l, r
        if b.id < a.id and c == 0:
            a, b = b, a
        return mk("eq", a, b)
    if b.id < a.id:
        a, b = b, a
    return mk("eq", a, b)


def Lt(a, b):
    if a is b:
        return FALSE
    if a.op == "int" and b.op == "int":
        return Int(a.a[0] < b.a[0])
    c, d = linparts(Sub(a, b))
    if not d:
        return Int(c < 0)
    l = mklin(max(c, 0), {k: n for k, n in d.items() if n > 0})
    r = mklin(max(-c, 0), {k: -n for k, n in d.items() if n < 0})
    return mk("lt", l, r)


def Ovf(op, a, b, bits=64, signed=False):
    """does the operation leave the value range of its type"""
    lim = (1 << bits) - 1
    if op == "Add" and not signed:
        return Lt(Int(lim), Add(a, b))
    if op == "Sub" and not signed:
        return Lt(a, b)
    if a.op == "int" and b.op == "int":
        r = {"Add": Add, "Sub": Sub, "Mul": Mul}[op](a, b).a[0]
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, lim)
        return Int(not lo <= r <= hi)
    if op == "Mul":
        if b.op == "int":
            a, b = b, a
        if a.op == "int" and a.a[0] in (0, 1):
            return FALSE
        if a.op != "int" and b.id < a.id:
            a, b = b, a
    return mk("ovf", op, a, b, bits, signed)


def Sat(x, lim=(1 << 64) - 1):
    """min(x, lim)"""
    if x.op == "int":
        return Int(min(x.a[0], lim))
    c, d = linparts(x)
    if c >= 0 and all(n > 0 for n in d.values()):
        out = Int(c)
        for t, n in d.items():
            out = Add(out, Mul(Int(n), t.a[0] if t.op == "sat" and t.a[1] == lim else t))
        x = out
        if x.op == "len":
            return x
    return mk("sat", x, lim)


SIGNED = set()  # terms of a signed integer type
TYPED = {}      # bounds of terms of narrower or signed integer types


def And(*xs):
    out = []
    for x in xs:
        if x.op == "int":
            if x.a[0] == 0:
                return FALSE
            continue
        if x.op == "and":
            out.extend(x.a)
        elif x not in out:
            out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else mk("and", *out)


def Or(*xs):
    return Not(And(*[Not(x) for x in xs]))


# fields ---------------------------------------------------------------------
STRUCT_OPS = {"it_seq", "it_range", "it_map", "it_enum", "it_filter_map", "it_filter", "it_zip", "it_chain",
              "it_peek", "it_mut", "it_repeat", "it_take", "it_skip", "it_opt", "it_rev", "it_inspect", "it_rfrom", "it_split",
              "it_proj", "it_map_while", "it_take_while", "it_flatopt", "it_scan", "it_chunks"}


def Fld(v, k):
    """k: (variant, index) | ('key', V) | ('arg', i)"""
    o = v.op
    if k[0] == "arg":
        return v.a[k[1]]
    if k[0] == "idx":
        return At(v, k[1])
    if k[0] == "rng":
        return SubSeq(v, k[1], k[2])
    if o == "newbox":
        return v.a[0]
    if o == "adt" and not isinstance(k[0], str):
        if v.a[1] == k[0] and k[1] < len(v.a[2]):
            return v.a[2][k[1]]
        return mk("fld", v, k)
    if o in ("tup",) and not isinstance(k[0], str):
        return v.a[k[1]] if k[1] < len(v.a) else mk("fld", v, k)
    if o == "clo" and not isinstance(k[0], str):
        return v.a[1][k[1]]
    if o == "upd":
        if v.a[1] == k:
            return v.a[2]
        if isinstance(k[0], int) and isinstance(v.a[1][0], int):
            return Fld(v.a[0], k)
    return mk("fld", v, k)


def SetFld(v, k, x):
    o = v.op
    if k[0] == "arg":
        a = list(v.a)
        a[k[1]] = x
        return rebuild(o, a)
    if k[0] == "idx":
        if o == "seq" and k[1].op == "int" and 0 <= k[1].a[0] < len(v.a):
            a = list(v.a)
            a[k[1].a[0]] = x
            return mk("seq", *a)
        return mk("upd", v, k, x)
    if k[0] == "rng":
        return Cat(SubSeq(v, Int(0), k[1]), x, SubSeq(v, k[2], Len(v)))
    if o == "adt" and isinstance(k[0], int) and v.a[1] == k[0] and k[1] < len(v.a[2]):
        f = list(v.a[2])
        f[k[1]] = x
        return mk("adt", v.a[0], v.a[1], tuple(f), v.a[3])
    if o == "tup" and isinstance(k[0], int) and k[1] < len(v.a):
        f = list(v.a)
        f[k[1]] = x
        return mk("tup", *f)
    if o == "clo" and isinstance(k[0], int):
        f = list(v.a[1])
        f[k[1]] = x
        return mk("clo", v.a[0], tuple(f))
    if o == "upd" and k[0] == "key" == v.a[1][0] and k[1] is v.a[1][1]:
        return mk("upd", v.a[0], k, x)
    if o == "upd" and isinstance(k[0], int) and isinstance(v.a[1][0], int):
        # sorted chain, one entry per key
        if v.a[1] == k:
            return mkupd(v.a[0], k, x)
        if v.a[1] > k:
            return mk("upd", SetFld(v.a[0], k, x), v.a[1], v.a[2])
    return mkupd(v, k, x)


def mkupd(v, k, x):
    if isinstance(k[0], int) and x.op == "fld" and x.a[0] is v and x.a[1] == k:
        return v
    return mk("upd", v, k, x)


# sequences ------------------------------------------------------------------
def Cat(*xs):
    out = []
    for x in xs:
        if x.op == "cat":
            ys = x.a
        else:
            ys = (x,)
        for y in ys:
            if y is EMPTY:
                continue
            if y.op == "fm_if":  # conditional element without condition
                pass
            if out and out[-1].op == "seq" and y.op == "seq":
                out[-1] = mk("seq", *(out[-1].a + y.a))
            elif out and out[-1].op == "bytes" and y.op == "bytes":
                out[-1] = Bytes(out[-1].a[0] + y.a[0])
            elif out and out[-1].op == "bytes" and y.op == "seq" and all(isint(z) for z in y.a):
                out[-1] = Bytes(out[-1].a[0] + "".join("%02x" % z.a[0] for z in y.a))
            else:
                out.append(y)
    if not out:
        return EMPTY
    return out[0] if len(out) == 1 else mk("cat", *out)


def Seq(*xs):
    return mk("seq", *xs)


def Rev(s):
    if s.op == "rev":
        return s.a[0]
    if s.op == "seq":
        return mk("seq", *reversed(s.a))
    if s.op == "cat":
        return Cat(*[Rev(x) for x in reversed(s.a)])
    return mk("rev", s)


def Len(s):
    if s.op == "seq":
        return Int(len(s.a))
    if s.op == "bytes":
        return Int(len(s.a[0]) // 2)
    if s.op == "cat":
        r = Int(0)
        for x in s.a:
            r = Add(r, Len(x))
        return r
    if s.op == "rev":
        return Len(s.a[0])
    if s.op == "sub":
        return Sub(s.a[2], s.a[1])
    if s.op == "repeat":
        return s.a[1]
    if s.op == "rangeseq":
        return Sub(s.a[1], s.a[0])
    if s.op == "ancestors":
        return Add(Len(s.a[0]), Int(1))
    if s.op == "upd" and s.a[1][0] == "idx":
        return Len(s.a[0])
    if s.op == "fm":
        # one element per iteration, whatever the case
        drv, init, bound, dd, _ = s.a
        ns = {len(x.a) if x.op == "seq" else None for x in dd_leaves(dd)}
        if len(ns) == 1 and None not in ns:
            n, = ns
            return Mul(Int(n), Sub(DrvLen(drv) if bound is ALL else bound.a[0], init))
        if any(x.op == "cat" and any(y.op in ("vb", "le", "enc") for y in x.a) for x in dd_leaves(dd)):
            return mkbind("fsum", drv, init, bound, dd_map(dd, Len), _)
    if s.op == "le":
        return Int(s.a[1])
    return mk("len", s)


def DrvLen(drv):
    ns = list(dict.fromkeys(d.a[1] if d.op == "range" else Len(d) for d in drv))
    return ns[0] if len(ns) == 1 else mk("minlen", *sorted(ns, key=lambda x: x.id))


def At(s, i):
    if s.op == "rev":
        return At(s.a[0], Sub(Sub(Len(s.a[0]), Int(1)), i))
    if s.op == "seq" and i.op == "int" and 0 <= i.a[0] < len(s.a):
        return s.a[i.a[0]]
    if s.op == "bytes" and i.op == "int" and 0 <= i.a[0] < len(s.a[0]) // 2:
        return Int(int(s.a[0][2 * i.a[0]:2 * i.a[0] + 2], 16))
    if s.op == "cat":
        off = Int(0)
        for x in s.a:
            d = Sub(i, off)
            n = Len(x)
            if d.op == "int" and d.a[0] >= 0 and n.op == "int" and d.a[0] < n.a[0]:
                return At(x, d)
            off = Add(off, n)
        # from the end
        off = Len(s)
        for x in reversed(s.a):
            n = Len(x)
            off = Sub(off, n)
            d = Sub(i, off)
            if n.op == "int" and d.op == "int" and 0 <= d.a[0] < n.a[0]:
                return At(x, d)
            if x.op not in ("seq", "bytes"):
                if d.op != "int" or d.a[0] < 0:
                    pass
                break
    if s.op == "sub":
        return At(s.a[0], Add(s.a[1], i))
    if s.op == "upd" and s.a[1][0] == "idx":
        if s.a[1][1] is i:
            return s.a[2]
        d = Sub(s.a[1][1], i)
        if d.op == "int" and d.a[0] != 0:
            return At(s.a[0], i)
    if s.op == "fm":
        drv, init, bound, dd, k = s.a
        if dd.op == "seq" and len(dd.a) == 1:
            return subst(dd.a[0], {Iv(k): Add(i, init)})
    if s.op == "repeat":
        return s.a[0]
    if s.op == "rangeseq":
        return Add(s.a[0], i)
    return mk("at", s, i)


def SubSeq(s, lo, hi):
    n = Len(s)
    if lo is Int(0) and hi is n:
        return s
    if lo is hi:
        return EMPTY
    if lo.op == "off" and lo.a[1] is s and Sub(hi, lo) is Len(lo.a[0]):
        return lo.a[0]          # where a part of it lies
    if s.op == "sub":
        return SubSeq(s.a[0], Add(s.a[1], lo), Add(s.a[1], hi))
    if s.op == "rev":
        return Rev(SubSeq(s.a[0], Sub(n, hi), Sub(n, lo)))
    if s.op == "cat":
        # cut at a component boundary
        offs = [Int(0)]
        for x in s.a:
            offs.append(Add(offs[-1], Len(x)))
        if lo in offs and hi in offs:
            i, j = offs.index(lo), len(offs) - 1 - offs[::-1].index(hi)
            if i <= j:
                return Cat(*s.a[i:j])
        if lo in offs:
            i = offs.index(lo)
            if i:
                return SubSeq(Cat(*s.a[i:]), Int(0), Sub(hi, lo))
        if hi in offs:
            j = len(offs) - 1 - offs[::-1].index(hi)
            if j < len(s.a):
                return SubSeq(Cat(*s.a[:j]), lo, hi)
        # trailing/leading constants
        last = s.a[-1]
        if last.op == "seq" and lo is Int(0):
            d = Sub(n, hi)
            if d.op == "int" and 0 < d.a[0] <= len(last.a):
                return Cat(*(s.a[:-1] + (mk("seq", *last.a[:len(last.a) - d.a[0]]),)))
    if s.op == "seq" and lo.op == "int" and hi.op == "int" and 0 <= lo.a[0] <= hi.a[0] <= len(s.a):
        return mk("seq", *s.a[lo.a[0]:hi.a[0]])
    if s.op == "bytes" and lo.op == "int" and hi.op == "int" and 0 <= lo.a[0] <= hi.a[0] <= len(s.a[0]) // 2:
        return Bytes(s.a[0][2 * lo.a[0]:2 * hi.a[0]])
    return mk("sub", s, lo, hi)


def LastOf(s):
    if s.op == "cat" and s.a[-1].op == "seq":
        return s.a[-1].a[-1]
    if s.op == "seq" and s.a:
        return s.a[-1]
    return mk("lastof", s)


def Overwrite(s, new):
    return mk("overwrite", s, new)


# substitution ---------------------------------------------------------------
_RB = {
    "lin": None, "not": lambda a: Not(*a), "eq": lambda a: Eq(*a), "lt": lambda a: Lt(*a), "and": lambda a: And(*a),
    "cat": lambda a: Cat(*a), "rev": lambda a: Rev(*a), "len": lambda a: Len(*a), "at": lambda a: At(*a),
    "sub": lambda a: SubSeq(*a), "lastof": lambda a: LastOf(*a), "mul": lambda a: Mul(*a),
}


def rebuild(op, a):
    f = _RB.get(op)
    if op in BIND:
        return mkbind(op, *a)
    if op == "dd":
        return dd_norm(*a)
    if op == "sat":
        return Sat(a[0], a[1])
    if op == "ovf":
        return Ovf(*a)
    if op == "fld":
        return Fld(a[0], a[1])
    if op == "upd":
        if isinstance(a[1][0], int):
            return SetFld(a[0], a[1], a[2])
        return mk("upd", *a)
    if op == "discr" and a[0].op == "adt":
        return Discr(a[0])
    if f:
        return f(a)
    return mk(op, *a)


def subst(v, m, memo=None):
    if memo is None:
        memo = {}
    return _subst(v, m, memo)


def _subst(v, m, memo):
    if not isV(v):
        if isinstance(v, tuple):
            return tuple(_subst(x, m, memo) for x in v)
        return v
    r = m.get(v)
    if r is not None:
        return r
    r = memo.get(v)
    if r is not None:
        return r
    if v.op in BIND and Iv(v.a[4]) in m:
        # the index variable is bound in here
        m2 = {k: x for k, x in m.items() if k is not Iv(v.a[4])}
        a = [_subst(x, m, memo) if not isinstance(x, int) else x for x in v.a[:3]]
        a.append(subst(v.a[3], m2) if m2 else v.a[3])
        r = mkbind(v.op, *a, v.a[4])
    elif v.op == "lin":
        r = Int(v.a[0])
        for t, c in v.a[1]:
            r = Add(r, Mul(Int(c), _subst(t, m, memo)))
    else:
        ch = False
        out = []
        for x in v.a:
            y = _subst(x, m, memo) if (isV(x) or isinstance(x, tuple)) else x
            if y is not x and y != x:
                ch = True
            out.append(y)
        r = rebuild(v.op, out) if ch else v
    memo[v] = r
    if r is not v:
        if v.op == "discr" and r.op == "discr" and v in DRANGE:
            DRANGE.setdefault(r, DRANGE[v])
        if v in SIGNED:
            SIGNED.add(r)
        if v in TYPED:
            TYPED.setdefault(r, TYPED[v])
    return r


def contains(v, pred, memo=None):
    if memo is None:
        memo = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isV(x) or x in memo:
            continue
        memo.add(x)
        if pred(x):
            return True
        st.extend(x.a)
    return False


_capmemo = {}


def junk(t):
    """mentions a capacity: no part of the behaviour"""
    r = _capmemo.get(t)
    if r is None:
        r = _capmemo[t] = contains(t, lambda x: x.op == "cap")
    return r


def subterms(v):
    memo = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isV(x) or x in memo:
            continue
        memo.add(x)
        yield x
        st.extend(x.a)


DISCR = {}  # adt path -> {variant index: discriminant}


def Discr(v):
    if v.op == "adt":
        return Int(DISCR.get(v.a[0], {}).get(v.a[1], v.a[1]))
    if v.op == "upd" and isinstance(v.a[1][0], int):
        return Discr(v.a[0])
    return mk("discr", v)


DRANGE = {}  # discriminant term -> (lowest, highest)


def drange(t, path):
    if t.op == "discr" and t not in DRANGE:
        if path in ("core::option::Option", "core::result::Result"):
            DRANGE[t] = (0, 1)
        elif path in DISCR:
            ds = DISCR[path].values()
            DRANGE[t] = (min(ds), max(ds))
    return t


def IsSome(v):
    return Eq(drange(Discr(v), "core::option::Option"), Int(1))
