"""Concrete instances of abstract values.

Used only to confirm that two values which the analysis could not show equal do differ for some input that the
path allows, so that two ways of writing the same value are never taken for a defect."""
import random
import time
from .terms import *
from . import terms as T
from . import pure

UNMODELLED = {"ap", "mut", "phi", "uninit", "opq", "callv", "opaqueproj", "setd", "agg", "rt", "unk", "bin", "un", "rangeend",
              "saturated", "clo", "fn", "ctor", "overwrite"}


class Reject(Exception):
    pass


class Stuck(Exception):
    pass


class NoPath(Exception):
    """the order between the integers in the facts is contradictory"""


class Obj:
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return "<%s>" % (self.key,)


class Rope:
    """a long sequence, in parts: elements of an object, one value many times, or the values themselves"""
    __slots__ = ("m", "ps", "n")

    def __init__(self, m, ps):
        self.m, self.ps = m, [p for p in ps if rlen(p)]
        self.n = sum(rlen(p) for p in self.ps)

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi, out, at = i.start or 0, self.n if i.stop is None else i.stop, [], 0
            for p in self.ps:
                a, b = max(lo - at, 0), min(hi - at, rlen(p))
                if a < b:
                    out.append(rcut(p, a, b))
                at += rlen(p)
            return Rope(self.m, out)
        for p in self.ps:
            if i < rlen(p):
                return p[1][i] if p[0] == "c" else p[1] if p[0] == "r" else self.m.obj("at", p[1], p[2] + i)
            i -= rlen(p)
        raise Reject()

    def __iter__(self):
        if self.n > 4000:
            raise Reject()
        return (self[i] for i in range(self.n))


def rlen(p):
    return len(p[1]) if p[0] == "c" else p[2] if p[0] == "r" else p[3] - p[2]


def rcut(p, a, b):
    return ("c", p[1][a:b]) if p[0] == "c" else ("r", p[1], b - a) if p[0] == "r" else ("o", p[1], p[2] + a, p[2] + b)


LONG = 300


def alphabet(ts):
    out = [65, 97]
    for t in ts:
        for y in T.subterms(t):
            if y.op == "int" and 0 < y.a[0] < 128 and y.a[0] not in (1, 2, 3):
                out.append(y.a[0])
            elif y.op == "bytes":
                out += [c for c in bytes.fromhex(y.a[0])[:8] if c < 128]
            elif y.op == "ap" and y.a[0].rsplit("::", 1)[-1].startswith("trim") and len(y.a) == 2:
                out.append(32)
    return out


def contains_text(t):
    return T.contains(t, lambda y: y.op == "ap" and (pure.known(y.a[0]) or (0,))[0] == "str")


class Model:
    alpha = [65, 97]
    texty = False           # letters matter
    free = False            # facts are met by choosing what is still free

    def __init__(self, facts, seed):
        self.rnd = random.Random(seed)
        self.facts = facts
        self.ints, self.lens, self.discrs, self.bools = {}, {}, {}, {}
        self.parent = {}
        self.diseq = set()
        self.memo = {}
        self.seqs = {}
        self.readers, self.limits = {}, {}
        self.env = {}

    # ------------------------------------------------------------ objects
    def rep(self, k):
        while k in self.parent:
            k = self.parent[k]
        return k

    def obj(self, *key):
        return Obj(self.rep(key))

    def int_of(self, k, lo=0, hi=None):
        k = self.rep(k)
        if k not in self.ints:
            t = self.limits.get(k)
            if t:
                lo, hi = max(lo, t[0]), t[1] if hi is None else min(hi, t[1])
            if hi is None:
                hi = (1 << 64) - 1
            small = self.rnd.random() < 0.95
            a, b = max(lo, 0 if lo >= 0 else -4), hi
            if small:
                self.ints[k] = self.rnd.randint(a, min(b, a + self.rnd.choice((1, 3, 6, 12))))
            else:
                m = self.rnd.choice((b, b, b // 2 + 1, 1 << 32, lo)) - self.rnd.randint(0, 2)
                self.ints[k] = min(max(m, lo), b)
        return self.ints[k]

    def enc_bounds(self, k):
        """least and most length of an encoded message, by what is in it"""
        lo, n, known = 0, 0, True

        def count(v):
            nonlocal lo, n, known
            if isinstance(v, int):
                n += 1
            elif isinstance(v, tuple) and v and v[0] == "adt":
                for x in v[3]:
                    count(x)
            elif isinstance(v, tuple) and v and v[0] == "rope":
                lo += sum(len(p[1]) if p[0] == "c" else p[2] if p[0] == "r" else p[3] - p[2] for p in v[1:])
                n += 1
            elif isinstance(v, tuple) and v and isinstance(v[0], str):
                q = self.rep(v)
                if isinstance(self.lens.get(q), int):
                    lo += self.lens[q]
                elif q not in self.ints:
                    known = False
                n += 1
            elif isinstance(v, tuple):
                lo += len(v)
                n += 1 + len(v)
        for x in k[2]:
            count(x)
        return lo, lo + 12 * n + 12 if known else None

    def len_of(self, k, lo=0, hi=None):
        k = self.rep(k)
        if k not in self.lens and k[:2] == ("app", "enc"):
            a, b = self.enc_bounds(k)
            lo, hi = max(lo, a), b if hi is None else hi if b is None else min(hi, b)
            if hi is not None and hi < lo:
                raise Reject()
        if k not in self.lens:
            self.lens[k] = self.rnd.randint(lo, lo + self.rnd.choice((0, 1, 2, 3, 4)) if hi is None else min(hi, lo + self.rnd.choice((0, 1, 2, 3, 4))))
        return self.lens[k]

    def discr_of(self, k, lo=0, hi=1):
        k = self.rep(k)
        if k not in self.discrs:
            if hi - lo > 20:
                hi = lo + 3
            self.discrs[k] = self.rnd.randint(lo, hi)
        return self.discrs[k]

    def force(self, v):
        """an object with its known shape"""
        if isinstance(v, Obj):
            k = self.rep(v.key)
            if k in self.ints:
                return self.ints[k]
            if k in self.lens:
                if self.lens[k] > LONG:
                    return Rope(self, [("o", k, 0, self.lens[k])])
                return tuple(self.obj("at", k, i) for i in range(self.lens[k]))
        return v

    def as_int(self, v):
        if isinstance(v, Obj):
            return self.int_of(v.key)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        raise Stuck("int " + repr(v))

    def as_seq(self, v):
        if isinstance(v, Obj):
            k = self.rep(v.key)
            n = self.len_of(k)
            if n > LONG:
                return Rope(self, [("o", k, 0, n)])
            return tuple(self.obj("at", k, i) for i in range(n))
        if isinstance(v, Rope):
            return v
        if isinstance(v, tuple) and (not v or v[0] not in ("adt", "tup")):
            return v
        raise Stuck("seq " + repr(v)[:80])

    def same_rope(self, a, b):
        if len(a) != len(b):
            return False
        ps, qs = [list(x.ps) if isinstance(x, Rope) else [("c", x)] for x in (a, b)]
        while ps and qs:
            p, q = ps.pop(0), qs.pop(0)
            n = min(rlen(p), rlen(q))
            for y, ys in ((p, ps), (q, qs)):
                if rlen(y) > n:
                    ys.insert(0, rcut(y, n, rlen(y)))
            if p[0] == q[0] == "o" and self.rep(p[1]) == self.rep(q[1]) and p[2] == q[2]:
                continue
            x, y = Rope(self, [rcut(p, 0, n)]), Rope(self, [rcut(q, 0, n)])
            at = range(n) if n <= 300 else (0, n // 2, n - 1)
            if any(not self.equal(x[i], y[i]) for i in at):
                return False
            if n > 300 and not (p[0] == q[0] == "r"):
                raise Reject()
        return True

    def equal(self, a, b):
        if isinstance(a, Rope) or isinstance(b, Rope):
            a, b = [self.as_seq(x) if isinstance(x, Obj) else x for x in (a, b)]
            if not all(isinstance(x, Rope) or isinstance(x, tuple) and (not x or x[0] not in ("adt", "tup", "upd")) for x in (a, b)):
                return False
            return self.same_rope(a, b)
        if isinstance(a, Obj) and isinstance(b, Obj):
            ka, kb = self.rep(a.key), self.rep(b.key)
            if ka == kb:
                return True
            if ka in self.ints or kb in self.ints:
                return self.int_of(ka) == self.int_of(kb)
            if ka in self.lens and kb in self.lens:
                if self.lens[ka] != self.lens[kb]:
                    return False
                if self.lens[ka] == 0:
                    return True
            if ka in self.discrs and kb in self.discrs and self.discrs[ka] != self.discrs[kb]:
                return False
            d = frozenset((ka, kb))
            if d in self.diseq:
                return False
            if self.rnd.random() < 0.35:
                self.union(ka, kb)
                return True
            self.diseq.add(d)
            return False
        if isinstance(b, Obj):
            a, b = b, a
        if isinstance(a, Obj):
            if isinstance(b, (int, bool)):
                return self.int_of(a.key) == int(b)
            if isinstance(b, tuple) and b and b[0] == "adt":
                if self.discr_of(a.key, 0, max(1, b[2])) != b[2]:
                    return False
                return all(self.equal(self.obj("fld", self.rep(a.key), (b[4], i)), x) for i, x in enumerate(b[3]))
            if isinstance(b, tuple) and b and b[0] == "tup":
                return all(self.equal(self.obj("fld", self.rep(a.key), (0, i)), x) for i, x in enumerate(b[1]))
            if isinstance(b, tuple):
                k = self.rep(a.key)
                if k not in self.lens:
                    # may take the value of the other
                    if self.rnd.random() < 0.35:
                        self.lens[k] = len(b)
                    else:
                        self.lens[k] = self.rnd.randint(0, 4)
                x = self.as_seq(a)
                return len(x) == len(b) and all(self.equal(p, q) for p, q in zip(x, b))
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a and b and a[0] == "adt" and b[0] == "adt":
                return a[1:3] == b[1:3] and len(a[3]) == len(b[3]) and all(self.equal(x, y) for x, y in zip(a[3], b[3]))
            if a and b and a[0] == "tup" and b[0] == "tup":
                return len(a[1]) == len(b[1]) and all(self.equal(x, y) for x, y in zip(a[1], b[1]))
            return len(a) == len(b) and all(self.equal(x, y) for x, y in zip(a, b))
        return a == b

    def union(self, ka, kb):
        for tab in (self.ints, self.lens, self.discrs):
            if ka in tab:
                tab.setdefault(kb, tab[ka])
        self.parent[ka] = kb

    def key(self, v):
        if isinstance(v, Obj):
            return self.rep(v.key)
        if isinstance(v, tuple):
            return tuple(self.key(x) if isinstance(x, (Obj, tuple, Rope)) else x for x in v)
        if isinstance(v, Rope):
            return ("rope",) + tuple((p[0], self.key(p[1])) + tuple(p[2:]) for p in v.ps)
        return v

    # ------------------------------------------------------------ terms
    def ev(self, t):
        if t.op == "iv":
            return self.env[t.a[0]]
        closed = not self.env
        if closed and t in self.memo:
            return self.memo[t]
        v = self.ev1(t)
        if t in T.TYPED and isinstance(v, Obj):
            self.limits.setdefault(self.rep(v.key), T.TYPED[t])
        if closed:
            self.memo[t] = v
        return v

    def rng(self, t):
        f = self.facts.get(t)
        if f is None:
            lo, hi = T.FULL(t)
            return lo, (None if hi >= (1 << 60) else hi)
        return f[0], f[1]

    def ev1(self, t):
        o, a = t.op, t.a
        if o == "int":
            return a[0]
        if o == "sym":
            return self.obj("sym", a[0])
        if o == "const":
            return self.obj("const", str(a))
        if o == "lin":
            return a[0] + sum(c * self.as_int(self.ev(x)) for x, c in a[1])
        if o == "mul":
            return self.as_int(self.ev(a[0])) * self.as_int(self.ev(a[1]))
        if o == "sat":
            return min(self.as_int(self.ev(a[0])), a[1])
        if o == "eq":
            return int(self.equal(self.ev(a[0]), self.ev(a[1])))
        if o == "lt":
            return int(self.as_int(self.ev(a[0])) < self.as_int(self.ev(a[1])))
        if o == "not":
            return 1 - self.as_int(self.ev(a[0]))
        if o == "and":
            return int(all(self.as_int(self.ev(x)) for x in a))
        if o == "ovf":
            x, y = self.as_int(self.ev(a[1])), self.as_int(self.ev(a[2]))
            r = x + y if a[0] == "Add" else x - y if a[0] == "Sub" else x * y
            lo, hi = (-(1 << a[3] - 1), (1 << a[3] - 1) - 1) if a[4] else (0, (1 << a[3]) - 1)
            return int(not lo <= r <= hi)
        if o == "adt":
            return ("adt", a[0], T.Discr(t).a[0] if T.Discr(t).op == "int" else a[1], tuple(self.ev(x) for x in a[2]), a[1])
        if o == "tup":
            return ("tup", tuple(self.ev(x) for x in a))
        if o == "fld":
            return self.field(self.ev(a[0]), a[1])
        if o == "discr":
            v = self.ev(a[0])
            if isinstance(v, Obj):
                lo, hi = self.rng(t)
                if lo == -1:
                    lo = 0
                return self.discr_of(v.key, lo, lo + 3 if hi is None else hi)
            if isinstance(v, tuple) and v and v[0] == "adt":
                return v[2]
            raise Stuck("discr")
        if o == "len":
            v = self.ev(a[0])
            if isinstance(v, Obj):
                lo, hi = self.rng(t)
                return self.len_of(v.key, lo, hi)
            return len(self.as_seq(v))
        if o == "at":
            i = self.as_int(self.ev(a[1]))
            v = self.ev(a[0])
            if isinstance(v, Obj) and self.rep(v.key) not in self.lens:
                return self.obj("at", self.rep(v.key), i)
            s = self.as_seq(v)
            if not 0 <= i < len(s):
                return self.obj("oob", self.key(v), i)
            return s[i]
        if o == "seq":
            return tuple(self.ev(x) for x in a)
        if o == "bytes":
            return tuple(bytes.fromhex(a[0]))
        if o == "cat":
            xs = [self.as_seq(self.ev(y)) for y in a]
            if any(isinstance(x, Rope) for x in xs):
                return Rope(self, [p for x in xs for p in (x.ps if isinstance(x, Rope) else [("c", x)])])
            return tuple(x for y in xs for x in y)
        if o == "rev":
            v = self.as_seq(self.ev(a[0]))
            if isinstance(v, Rope):
                raise Reject()
            return tuple(reversed(v))
        if o == "sub":
            s = self.as_seq(self.ev(a[0]))
            lo, hi = self.as_int(self.ev(a[1])), self.as_int(self.ev(a[2]))
            if not 0 <= lo <= hi <= len(s):
                return self.obj("oobsub", self.key(s), lo, hi)
            return s[lo:hi]
        if o == "rangeseq":
            lo, hi = self.as_int(self.ev(a[0])), self.as_int(self.ev(a[1]))
            if hi - lo > LONG:
                raise Reject()
            return tuple(range(lo, hi))
        if o == "repeat":
            n = self.as_int(self.ev(a[1]))
            return Rope(self, [("r", self.ev(a[0]), n)]) if n > LONG else (self.ev(a[0]),) * n
        if o == "lastof":
            s = self.as_seq(self.ev(a[0]))
            if not s:
                raise Stuck("lastof")
            return s[-1]
        if o == "minlen":
            return min(self.as_int(self.ev(x)) for x in a)
        if o == "dd":
            v = self.ev(a[0])
            if self.texty and a[0].op == "at" and isinstance(v, Obj) and self.rep(v.key) not in self.ints and self.rnd.random() < .4:
                self.ints[self.rep(v.key)] = self.rnd.choice(self.alpha)
            v = self.as_int(v)
            for lo, hi, k in a[1]:
                if lo <= v <= hi:
                    return self.ev(k)
            raise Stuck("dd")
        if o in T.BIND:
            return self.binder(t)
        if o == "upd" and isinstance(a[1][0], int):
            return ("upd", self.ev(a[0]), a[1], self.ev(a[2]))
        if o == "bool" and a[0] == "contains" and len(a) == 3:
            return self.contains(t, self.as_seq(self.ev(a[1])), self.as_seq(self.ev(a[2])))
        if o == "pos" and len(a) == 3 and a[2].op == "bytes":
            s, w = self.as_seq(self.ev(a[1])), [int(a[2].a[0][i:i + 2], 16) for i in range(0, len(a[2].a[0]), 2)]
            if isinstance(s, Rope):
                raise Reject()
            hit = [i for i in range(len(s) - len(w) + 1) if all(self.equal(x, y) for x, y in zip(s[i:i + len(w)], w))]
            if not hit:
                raise Stuck("pos")
            return hit[-1 if a[0] == "rfind" else 0]
        if o == "bool" and a[0] in ("eof", "reads"):
            if a[0] == "reads":
                return int(self.read(a[1:])[0])
            r = self.reader(a[1])
            return int(r[2] >= len(r[1]))
        if o in ("bool", "has"):
            k = (o,) + tuple(self.key(self.ev(x)) if isV(x) else x for x in a)
            k = self.canonkey(k)
            if k not in self.bools:
                f = self.facts.get(t)
                self.bools[k] = f[0] if f and f[0] == f[1] else self.rnd.randint(0, 1)
            return self.bools[k]
        if o in ("range",):
            raise Stuck(o)
        if o == "split" and a[1].op == "bytes":
            v, sep, out = list(self.text(self.ev(a[0]), "str")), list(bytes.fromhex(a[1].a[0])), [[]]
            i = 0
            while i < len(v):
                if sep and v[i:i + len(sep)] == sep:
                    out.append([])
                    i += len(sep)
                else:
                    out[-1].append(v[i])
                    i += 1
            return tuple(tuple(x) for x in out)
        if o == "vb":
            n, out = self.as_int(self.ev(a[0])) & (1 << 64) - 1, []
            while n > 127:
                out.append(n & 127 | 128)
                n >>= 7
            return tuple(out + [n])
        if o == "le":
            n = self.as_int(self.ev(a[0])) & (1 << 8 * a[1]) - 1
            return tuple(n.to_bytes(a[1], "little"))
        if o in ("trunc", "sext"):
            b = int(a[1][1:]) if a[1][1:].isdigit() else 64
            n = self.as_int(self.ev(a[0])) & (1 << b) - 1
            return n - (1 << b) if a[1][0] == "i" and n >> b - 1 else n
        if o in ("rdval", "rdnext", "rderr"):
            ok, v, pos, err, r = self.read(a)
            if o == "rdval":
                if not ok:
                    raise Reject()
                return v
            return ("rdr", r[1], pos) if o == "rdnext" else self.obj("rderr", err)
        if o == "ap" and pure.known(a[0]):
            return self.pure(a[0], [self.ev(x) for x in a[1:]])
        if o == "bin":
            r = pure.binary(a[0], self.as_int(self.ev(a[1])), self.as_int(self.ev(a[2])), a[3])
            if r is pure.UNKNOWN:
                raise Reject()
            return r
        if o == "bitnot":
            return pure.wrap(~self.as_int(self.ev(a[0])), a[1])
        if o == "wrapped":
            return pure.wrap(self.as_int(self.ev(a[0])), a[1])
        # uninterpreted
        args = tuple(self.key(self.ev(x)) if isV(x) else str(x) for x in a)
        return self.obj("app", o, args)

    def pure(self, name, args):
        kind, fn, ty = pure.known(name)
        if kind == "int":
            args = [ty] + [self.as_int(x) for x in args]
        else:
            args = [x if isinstance(x, int) else self.text(x, kind) for x in args]
        try:
            r = fn(*args)
        except (TypeError, IndexError, OverflowError):
            raise Reject()
        if r is pure.UNKNOWN:
            raise Reject()
        return r

    def text(self, v, kind):
        """a text (or a character) of letters that matter here"""
        if kind == "chr":
            return self.letter(v)
        if isinstance(v, Obj) and self.rep(v.key) in self.ints:
            return self.ints[self.rep(v.key)]
        v = self.as_seq(v)
        if len(v) > LONG:
            raise Reject()
        return tuple(self.letter(x, kind == "raw") for x in v)

    def letter(self, x, raw=False):
        x = self.force(x)
        if isinstance(x, Obj):
            k = self.rep(x.key)
            x = self.ints[k] = self.rnd.choice((65, 195, 169, 255) if raw else self.alpha)
        if not isinstance(x, int):
            raise Stuck("letter")
        if not 0 <= x < (256 if raw else 128):
            raise Reject()
        return x

    # ------------------------------------------------------------ protobuf input
    def reader(self, t):
        v = self.ev(t)
        if isinstance(v, Obj):
            k = self.rep(v.key)
            if k not in self.readers:
                self.readers[k] = ("rdr", self.input(t), 0)
            return self.readers[k]
        return v

    def input(self, t):
        """the bytes in front of a reader; they begin with what the facts say is read first"""
        rnd, out = self.rnd, []

        def vi(n):
            while n > 127:
                out.append(n & 127 | 128)
                n >>= 7
            out.append(n)
        for x, f in self.facts.items():
            if x.op == "rdval" and x.a[1] is t and f[0] == f[1]:
                vi(f[0])
                break
        else:
            if rnd.random() < 0.8:
                vi(rnd.choice((8, 9, 10, 13, 16, 18, 24, 34, 63, 72, 2000)))
        for _ in range(rnd.choice((0, 1, 1, 1, 2))):
            k = rnd.randint(0, 5)
            if k == 0:
                vi(rnd.randint(0, 8))
            elif k == 1:
                vi(rnd.choice((127, 128, 300, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 1 << 63, (1 << 64) - 1)))
            elif k in (2, 3):
                n = rnd.randint(0, 4)
                vi(n)
                out.extend(rnd.choice((0, 0x61, 0x62, 8, 0xff)) for _ in range(n))
            else:
                out.extend(rnd.choice((0, 1, 0xff)) for _ in range(rnd.choice((3, 4, 8))))
        return tuple(out)

    def read(self, a):
        """(succeeds, value, position after it, error, reader) of one reading operation"""
        kind, r = a[0], self.reader(a[1])
        data, pos = r[1], r[2]

        def varint(p, bits):
            n = 0
            for i in range(10):
                if p >= len(data):
                    return None, p, "end of buffer"
                b = data[p]
                p += 1
                n |= (b & 127) << 7 * i
                if b < 128:
                    return n & (1 << bits) - 1, p, None
            return None, p, "varint"

        def fixed(p, n):
            if p + n > len(data):
                return None, p, "end of buffer"
            return int.from_bytes(bytes(data[p:p + n]), "little"), p + n, None

        def chunk(p):
            n, p, e = varint(p, 32)
            if e is None and p + n > len(data):
                e = "end of buffer"
            return (None, p, e) if e else (data[p:p + n], p + n, None)
        if kind == "unknown":
            w = self.as_int(self.ev(a[-1])) & 7
            v, p, e = varint(pos, 64) if w == 0 else fixed(pos, 8) if w == 1 else chunk(pos) if w == 2 else fixed(pos, 4) if w == 5 else (None, pos, "wire type")
            v = ("tup", ())
        elif kind in ("varint32", "varint64"):
            v, p, e = varint(pos, int(kind[6:]))
        elif kind in ("fixed32", "fixed64"):
            v, p, e = fixed(pos, int(kind[5:]) // 8)
        elif kind == "bool":
            v, p, e = varint(pos, 64)
            v = int(bool(v))
        elif kind == "bytes":
            v, p, e = chunk(pos)
        elif kind == "string":
            v, p, e = chunk(pos)
            if e is None:
                try:
                    bytes(v).decode()
                except UnicodeDecodeError:
                    e = "utf8"
        elif kind.startswith("message "):
            v, p, e = chunk(pos)
            if e is None:
                k = ("parses", kind, v)
                if k not in self.bools:
                    self.bools[k] = int(self.rnd.random() < 0.8)
                e = None if self.bools[k] else k
                v = self.obj("read", kind, v)
        else:
            raise Stuck("read " + kind)
        return e is None, v, p, e, r

    def contains(self, t, s, p):
        if isinstance(s, Rope) or isinstance(p, Rope):
            raise Reject()
        if len(p) == 1 and isinstance(p[0], int):
            f = self.facts.get(t)
            free = [x for x in s if isinstance(x, Obj) and self.rep(x.key) not in self.ints]
            if f and f[0] == 1 and free and not any(self.force(x) == p[0] for x in s):
                self.ints[self.rep(self.rnd.choice(free).key)] = p[0]
        return int(any(all(self.equal(x, y) for x, y in zip(s[i:i + len(p)], p)) for i in range(len(s) - len(p) + 1)))

    def filled(self):
        """maps have at least the entries they are said to have"""
        has = {}
        for k, v in self.bools.items():
            if k[0] == "has" and v == 1:
                has.setdefault(k[1], set()).add(k[2])
        for m, ks in has.items():
            n = self.ints.get(self.rep(("app", "maplen", (m,))))
            if n is not None and n < len(ks):
                return False
        return True

    def canonkey(self, k):
        return k

    def field(self, v, k):
        if isinstance(v, Obj):
            if k[0] == "key":
                return self.obj("mapget", self.rep(v.key), self.key(self.ev(k[1])))
            return self.obj("fld", self.rep(v.key), k)
        if isinstance(v, tuple) and v:
            if v[0] == "adt":
                return v[3][k[1]] if v[4] == k[0] else self.obj("wrongvariant", self.key(v), k)
            if v[0] == "tup":
                return v[1][k[1]]
            if v[0] == "upd":
                return v[3] if v[2] == k else self.field(v[1], k)
        raise Stuck("field")

    def binder(self, t):
        drv, init, bound, dd, k = t.a
        n = None
        for d in drv:
            m = self.as_int(self.ev(d.a[1])) if d.op == "range" else self.as_int(self.ev(Len(d)))
            n = m if n is None else min(n, m)
        i0 = self.as_int(self.ev(init))
        hi = n if bound is ALL else min(n, self.as_int(self.ev(bound.a[0])))
        if hi - i0 > (LONG if t.op == "fm" else 1200):
            raise Reject()
        out, tot = [], 0
        old = self.env
        try:
            for i in range(i0, hi):
                self.env = dict(old)
                self.env[k] = i
                v = self.ev(dd)
                if t.op == "fm":
                    out.extend(self.as_seq(v))
                elif t.op == "fsum":
                    tot += self.as_int(v)
                elif t.op == "allc":
                    if not self.as_int(v):
                        return 0
                elif t.op == "first":
                    if not self.as_int(v):
                        return i
        finally:
            self.env = old
        return tuple(out) if t.op == "fm" else tot if t.op == "fsum" else 1 if t.op == "allc" else hi


def ordered(facts):
    """equalities between whole values first"""
    return sorted(facts.items(), key=lambda x: (0 if x[0].op == "eq" and x[1][0] == 1 else 1 if x[0].op in ("discr", "bool", "has") else 2, x[0].id))


class Zone:
    """the integers in the facts and the differences known between them"""

    def __init__(self, facts):
        from .vf import State, ZERO, node
        cand = {}
        for t in facts:
            for y in T.subterms(t):
                if y.op in ("fld", "at", "len", "discr", "sym", "app") and y not in cand and (y in facts or y.op == "len") and not T.contains(y, lambda z: z.op == "iv"):
                    cand[y] = 1
            if t.op in ("lt", "eq"):
                ps = t.a
            elif t.op in ("lin", "ovf"):
                ps = [t]
            else:
                continue
            if t.op == "eq" and not any(x.op in ("int", "lin", "len") for x in t.a) and not any(x in facts for x in t.a):
                continue
            for p in ps:
                for y in ([x for x, _ in p.a[1]] if p.op == "lin" else p.a[1:3] if p.op == "ovf" else [p]):
                    for z in ([x for x, _ in y.a[1]] if y.op == "lin" else [y]):
                        if z.op in ("fld", "at", "len", "discr", "sym") and not T.contains(z, lambda q: q.op == "iv"):
                            cand[z] = 1
        self.cand = list(cand)
        st = State({}, dict(facts))
        self.base = {}
        self.ex = {}
        for t in self.cand:
            lo, hi, ex = st.rng(t)
            self.base[t] = (lo, hi)
            self.ex[t] = ex
        nodes = self.cand + [ZERO]
        idx = {t: i for i, t in enumerate(nodes)}
        edges = []                  # x - y <= k
        for y, xs in st.edges().items():
            for x, k in xs:
                for z in (x, y):
                    if z not in idx:
                        idx[z] = len(idx)
                edges.append((idx[x], idx[y], k))
        z = idx[ZERO]
        for t in self.cand:
            lo, hi = self.base[t]
            edges.append((idx[t], z, hi))
            edges.append((z, idx[t], -lo))
        n = len(idx)
        INF = 1 << 90
        self.feasible = True
        # potentials, then all distances
        d = [[INF] * n for _ in range(n)]
        for i in range(n):
            d[i][i] = 0
        for x, y, k in edges:
            if k < d[x][y]:
                d[x][y] = k
        for k in range(n):
            dk = d[k]
            for row in d:
                a = row[k]
                if a < INF:
                    for j in range(n):
                        v = a + dk[j]
                        if v < row[j]:
                            row[j] = v
        if any(d[i][i] < 0 for i in range(n)):
            self.feasible = False
        self.d, self.z, self.idx = d, z, idx

    def pick(self, rnd):
        """random values for all of them that satisfy the differences, lengths first"""
        cand = self.cand[:]
        rnd.shuffle(cand)
        cand.sort(key=lambda t: 0 if t.op == "discr" else 1 if t.op == "len" else 2)
        d, z = self.d, self.z
        lo = {t: -d[z][self.idx[t]] for t in cand}
        hi = {t: d[self.idx[t]][z] for t in cand}
        out = []
        for n, t in enumerate(cand):
            l, h, ex = lo[t], hi[t], self.ex[t]
            if t.op == "discr" and h > (1 << 40):
                continue
            if l < -(1 << 60):
                l = -3
            if l > h:
                return None
            r = rnd.random()
            if t.op == "len":
                v = l + rnd.choice((0, 0, 1, 1, 2, 3, 4))
                if v > h:
                    v = l
            elif r < .3:
                v = l
            elif r < .45:
                v = h
            elif r < .6:
                v = max(l, h - rnd.randint(0, 3))
            else:
                v = min(h, l + rnd.randint(0, rnd.choice((2, 6, 12))))
            for _ in range(4):
                if v not in ex:
                    break
                v = v + 1 if v < h else l
            i = self.idx[t]
            for u in cand[n + 1:]:
                j = self.idx[u]
                if v + d[j][i] < hi[u]:
                    hi[u] = v + d[j][i]
                if v - d[i][j] > lo[u]:
                    lo[u] = v - d[i][j]
            out.append((t, v))
        return out


def seed_model(m, pre):
    for t, v in pre:
        if t.op in ("len", "discr"):
            x = m.ev(t.a[0])
            if not isinstance(x, Obj):
                continue
            (m.lens if t.op == "len" else m.discrs).setdefault(m.rep(x.key), v)
        else:
            x = m.ev(t)
            if isinstance(x, Obj):
                m.ints.setdefault(m.rep(x.key), v)
    m.memo = {}


def model(facts, items, seed, zone, giving=False):
    m = Model(facts, seed)
    if giving:
        for t, f in items:
            if t.op == "eq" and f[0] == 1:
                for x, y in (t.a, t.a[::-1]):
                    if y.op == "bytes":
                        give(m, x, tuple(bytes.fromhex(y.a[0])))
                    elif y.op == "sub":
                        align(m, x, y)
        m.memo = {}
    if seed % 3 == 1 or seed % 12 == 2:
        pre = zone.pick(m.rnd)
        if pre is None:
            raise Reject()
        seed_model(m, pre)
    else:
        m.free = True
    if m.free:
        wild = m.rnd.random() < .3
        if m.rnd.random() < .6:
            segments(m, facts)
        for t, f in facts.items():
            if wild and LONG < f[0] < 1 << 40 and t.op in ("len", "lin") and made(t):
                c, cs, lo, _ = linear(t, f)
                lengthen(m, [x for x, d in cs if d > 0], lo - c)
                m.memo = {}
        items = sorted(items, key=lambda x: (0 if wild else effort(x), m.rnd.random()))
    if not holds(m, items):
        raise Reject()
    return m


def operand(t):
    """(number, constant) of an operation with a constant, or None"""
    if t.op in ("trunc", "sext"):
        return t.a[0], 0
    if t.op == "bin" and pure.operator(t.a[0]):
        if t.a[2].op == "int":
            return t.a[1], t.a[2].a[0]
        if t.a[1].op == "int" and t.a[0] in ("BitAnd", "BitOr", "BitXor"):
            return t.a[2], t.a[1].a[0]
    return None


def result(t, n, c):
    """the operation of operand() on a number"""
    if t.op == "bin":
        return pure.binary(t.a[0], n, c, t.a[3])
    b = int(t.a[1][1:]) if t.a[1][1:].isdigit() else 64
    n &= (1 << b) - 1
    return n - (1 << b) if t.a[1][0] == "i" and n >> b - 1 else n


def put(m, u, v):
    """choose a free number; for the result of an operation, a number that gives it"""
    kind, k = u[:2]
    if kind != "inv":
        (m.lens if kind == "len" else m.ints)[k] = v
        return
    x, c = operand(k)
    w = unset(m, x)
    if w is None:
        return
    high = [1 << i for i in range(64)]
    if k.op != "bin":
        b = int(k.a[1][1:]) if k.a[1][1:].isdigit() else 64
        ns = [v] + [(v & (1 << b) - 1) + s * (h << b) for h in (1, 2, 1 << 31) for s in (1, -1)] + [v + (1 << b), v - (1 << b)]
    elif k.a[0] == "BitAnd":
        ns = [v] + [v | h for h in high if not h & c]
    elif k.a[0] == "BitOr":
        ns = [v, v & ~c] + [v & ~h for h in high if h & c]
    elif k.a[0] == "BitXor":
        ns = [v ^ c]
    elif k.a[0] == "Rem":
        ns = [v + i * c for i in (0, 1, 2, 3, 256, 1 << 20)]
    elif k.a[0] == "Div":
        ns = [v * c + i for i in (0, 1, c - 1, c // 2)]
    elif k.a[0].startswith("Shr"):
        ns = [(v << c) + i for i in (0, 1, (1 << c) - 1, (1 << c) // 2)]
    elif k.a[0].startswith("Shl"):
        ns = [v >> c] + [(v >> c) | h for h in high[-8:]]
    else:
        return
    f = m.facts.get(x) or (w[2], w[3], ())
    ns = [n for n in ns if w[2] <= n <= w[3] and f[0] <= n <= f[1] and n not in f[2] and result(k, n, c) == v]
    if ns:
        n = m.rnd.choice(ns[:2] if m.rnd.random() < .4 else ns)
        put(m, w, n)


def unset(m, t):
    """("int"|"len"|"inv", key, bounds) of a number that is still free, or None"""
    if operand(t):
        u = unset(m, operand(t)[0])
        if u is None:
            return None
        lo, hi = m.rng(t)
        if t.op in ("trunc", "sext") and t.a[1][1:].isdigit():
            b = int(t.a[1][1:])
            a, b = (0, (1 << b) - 1) if t.a[1][0] == "u" else (-1 << b - 1, (1 << b - 1) - 1)
            lo, hi = max(lo, a), b if hi is None else min(hi, b)
        return "inv", t, lo, 1 << 62 if hi is None else hi
    kind, b = ("len", t.a[0]) if t.op == "len" else ("int", t)
    if t.op in ("int", "lin", "fsum", "dd", "first") or t.op == "len" and b.op in ("vb", "cat", "fm", "seq", "bytes", "sub", "rev", "le"):
        return None
    v = m.ev(b)
    if not isinstance(v, Obj):
        return None
    k = m.rep(v.key)
    if k in m.ints or k in m.lens:
        return None
    lo, hi = m.rng(t)
    if kind == "len" and k[:2] == ("app", "mhbytes"):
        hi = 80
    if kind == "len" and k[:2] == ("app", "enc"):
        a, b = m.enc_bounds(k)
        lo, hi = max(lo, a), b if hi is None else hi if b is None else min(hi, b)
        if hi is not None and hi < lo:
            raise Reject()
    if kind == "int" and k in m.limits:
        lo, hi = max(lo, m.limits[k][0]), m.limits[k][1] if hi is None else min(hi, m.limits[k][1])
    return kind, k, lo, 1 << 62 if hi is None else hi


def near(m, lo, hi):
    """a number between the bounds, mostly near one of them"""
    r = m.rnd.random()
    if r < .45:
        return min(hi, lo + m.rnd.choice((0, 0, 1, 2, 5)))
    if r < .65 and hi < (1 << 61):
        return max(lo, hi - m.rnd.choice((0, 0, 1, 2)))
    return min(hi, lo + m.rnd.choice((3, 20, 100, 1000)))


def solve(m, const, coeffs, lo, hi):
    """let const + sum of coefficient * number lie between the bounds by choosing one that is free"""
    free = []
    for x, c in coeffs:
        if x.op == "fsum" and element(m, x) is not None:
            free.append((x, c))
        elif unset(m, x):
            free.append((x, c))
    if not free:
        return
    x, c = m.rnd.choice(free)
    rest = const
    for y, d in coeffs:
        if y is not x and not T.contains(y, lambda z: z == x):
            rest += d * m.as_int(m.ev(y))
    u = None
    if x.op == "fsum":
        # one of its elements is chosen
        got = element(m, x)
        if got is None:
            return
        u, others = got
        rest += c * others
    else:
        u = unset(m, x)
        if u is None:
            return
    a, b = (lo - rest, hi - rest) if c > 0 else (rest - hi, rest - lo)
    c = abs(c)
    a, b = -(-a // c), b // c
    a, b = max(a, u[2]), min(b, u[3])
    if x.op != "fsum":
        a, b = others_on(m, x, a, b)
    if a <= b:
        put(m, u, near(m, a, b))


def lengthen(m, xs, n):
    """let what is encoded in a sum be long enough"""
    free = []
    for x in xs:
        for y in T.subterms(x):
            if y.op == "len" and y is not x and not made(y):
                u = unset(m, y)
                if u and u[0] == "len" and u not in free:
                    free.append(u)
    if free:
        u = m.rnd.choice(free)
        m.lens[u[1]] = max(u[2], min(u[3], n + m.rnd.choice((0, 0, 1, 5, 100))))


def linear(t, f):
    """(constant, coefficients, least, most) of a fact about a sum"""
    c, terms = 0, []

    def add(x, s):
        nonlocal c
        if x.op == "int":
            c += s * x.a[0]
        elif x.op == "lin":
            c += s * x.a[0]
            terms.extend((y, s * d) for y, d in x.a[1])
        else:
            terms.append((x, s))
    if t.op == "lt":
        add(t.a[1], 1)
        add(t.a[0], -1)
        return (c, terms) + ((1, 1 << 63) if f[0] else (-(1 << 63), 0))
    add(t, 1)
    return c, terms, f[0], f[1]


def others_on(m, x, a, b):
    """bounds of a number, with what the other facts say of it where all else is chosen"""
    for t, f in m.facts.items():
        if t is x:
            a, b = max(a, f[0]), min(b, f[1])
        if t.op not in ("lt", "lin") or t.op == "lt" and f[0] != f[1]:
            continue
        c, terms, lo, hi = linear(t, f)
        d = sum(e for y, e in terms if y is x)
        if not d or any(y is not x and (y.op in ("fsum", "first") or unset(m, y)) for y, e in terms):
            continue
        rest = c + sum(e * m.as_int(m.ev(y)) for y, e in terms if y is not x)
        p, q = (lo - rest, hi - rest) if d > 0 else (rest - hi, rest - lo)
        a, b = max(a, -(-p // abs(d))), min(b, q // abs(d))
    return a, b


def element(m, t):
    """(a free number among the elements of a sum, the sum of the others)"""
    drv, init, bound, dd, k = t.a
    if bound is not ALL or len(drv) != 1 or drv[0].op == "range" or m.env:
        return None
    u = unset(m, Len(drv[0]))
    if u and u[0] == "len":
        m.lens[u[1]] = min(u[3], max(u[2], m.rnd.choice((1, 1, 2))))
    n = m.as_int(m.ev(Len(drv[0])))
    i0 = m.as_int(m.ev(init))
    if n <= i0 or n - i0 > 8:
        return None
    js = list(range(i0, n))
    m.rnd.shuffle(js)
    for j in js:
        m.env = {k: j}
        try:
            u = leafnum(m, dd)
        finally:
            m.env = {}
        if u:
            u, rest = u
            for i in range(i0, n):
                if i != j:
                    m.env = {k: i}
                    try:
                        rest += m.as_int(m.ev(dd))
                    finally:
                        m.env = {}
            return (u, rest)
    return None


def leafnum(m, t):
    """(a free number that what is chosen consists of, the rest of it)"""
    while t.op == "dd":
        v = m.as_int(m.ev(t.a[0]))
        for lo, hi, d in t.a[1]:
            if lo <= v <= hi:
                t = d
                break
        else:
            return None
    if t.op != "lin":
        u = unset(m, t)
        return u and (u, 0)
    us = [(u, y) for y, c in t.a[1] if c == 1 and y.op == "len" for u in (unset(m, y),) if u]
    if not us:
        return None
    u, y = max(us, key=lambda x: (x[0][3], m.rnd.random()))
    return u, t.a[0] + sum(c * m.as_int(m.ev(z)) for z, c in t.a[1] if not T.contains(z, lambda q: q == y))


def choose(m, t, want):
    """let a diagram lead to the wanted value by choosing what is free"""
    while t.op == "dd":
        a = t.a[0]
        kids = list(t.a[1])
        if a.op == "discr":
            v = m.ev(a.a[0])
            k = m.rep(v.key) if isinstance(v, Obj) else None
            if k is not None and k not in m.discrs:
                kids = [x for x in kids if not (x[2].op == "int" and x[2].a[0] != want)] or kids
                lo, hi, _ = m.rnd.choice(kids)
                m.discrs[k] = m.rnd.randint(lo, min(hi, lo + 3))
        else:
            u = unset(m, a)
            if u:
                kids = [x for x in kids if not (x[2].op == "int" and x[2].a[0] != want)] or kids
                lo, hi, _ = m.rnd.choice(kids)
                lo, hi = max(lo, u[2]), min(hi, u[3])
                if lo <= hi:
                    ok = [c for c in m.alpha if lo <= c <= hi] if u[0] == "int" and a.op == "at" else ()
                    put(m, u, m.rnd.choice(ok) if ok and m.rnd.random() < .4 else near(m, lo, hi))
            elif a.op in ("lt", "eq"):
                w = [x for x in kids if not (x[2].op == "int" and x[2].a[0] != want)]
                if len(w) == 1 and w[0][0] == w[0][1]:
                    satisfy(m, a, (w[0][0], w[0][0], frozenset()))
        n = m.as_int(m.ev(a))
        for lo, hi, d in t.a[1]:
            if lo <= n <= hi:
                t = d
                break
        else:
            return


def satisfy(m, t, f):
    """choose values for what is still free, so that the fact holds"""
    lo, hi = f[0], f[1]
    if t.op == "eq" and lo == hi == 1:
        if unapply(m, *t.a) or unapply(m, *t.a[::-1]):
            return
        for x, y in (t.a, t.a[::-1]):
            if x.op == "int":
                continue
            if operand(x):
                u = unset(m, x)
                n = u and m.as_int(m.ev(y))
                if u and u[2] <= n <= u[3]:
                    put(m, u, n)
                    break
            v, w = m.ev(x), m.ev(y)
            if not isinstance(v, Obj):
                continue
            k = m.rep(v.key)
            if isinstance(w, Obj):
                k2 = m.rep(w.key)
                if k != k2 and not (k in m.ints and k2 in m.ints) and not (k in m.lens and k2 in m.lens):
                    m.union(k, k2)
                return
            if k in m.ints or k in m.lens:
                continue
            if isinstance(w, int):
                m.ints[k] = w
            elif isinstance(w, tuple) and (not w or w[0] not in ("adt", "tup", "upd")) and len(w) < LONG:
                m.lens[k] = len(w)
                for i, z in enumerate(w):
                    q = m.rep(m.obj("at", k, i).key)
                    if isinstance(z, int):
                        m.ints.setdefault(q, z)
                    elif isinstance(z, Obj) and m.rep(z.key) != q:
                        m.union(q, m.rep(z.key))
            return
    elif t.op in ("lt", "lin", "eq", "fsum") or t.op == "not":
        if t.op == "lt" and lo == hi or t.op in ("lin", "fsum"):
            solve(m, *linear(t, f))
    elif operand(t):
        u = unset(m, t)
        a, b = (max(lo, u[2]), min(hi, u[3])) if u else (1, 0)
        if a <= b:
            n = near(m, a, b)
            if n not in f[2]:
                put(m, u, n)
    elif f[2] and t.op not in ("discr", "bool", "has", "allc", "dd"):
        u = unset(m, t)
        if u:
            ok = [x for x in m.alpha if x not in f[2] and max(lo, u[2]) <= x <= min(hi, u[3])]
            if u[0] == "int" and ok and m.rnd.random() < .7:
                m.ints[u[1]] = m.rnd.choice(ok)
    elif t.op == "allc" and len(t.a[0]) == 1 and t.a[0][0].op != "range" and not m.env and lo == hi:
        drv, init, bound, dd, k = t.a
        u = unset(m, Len(drv[0]))
        if u and not lo:
            m.lens[u[1]] = min(u[3], max(u[2], m.rnd.choice((1, 1, 2, 3))))
        n = m.as_int(m.ev(Len(drv[0])))
        if not 0 <= n <= 1200:
            return
        j = m.rnd.randrange(n) if n and not lo else None
        for i in range(n):
            if lo or i == j:
                m.env = {k: i}
                try:
                    choose(m, dd, lo)
                finally:
                    m.env = {}
    elif t.op == "dd" and lo == hi:
        choose(m, t, lo)
    elif t.op == "ap" and t.a[0].endswith("::eq_ignore_ascii_case") and lo == 1 and len(t.a) == 3:
        for x, y in (t.a[1:], t.a[:0:-1]):
            v = m.ev(x)
            k = m.rep(v.key) if isinstance(v, Obj) else None
            if k is not None and k not in m.ints and k not in m.lens:
                w = [c ^ 32 if (c | 32) in range(97, 123) and m.rnd.random() < .7 else c for c in m.text(m.ev(y), "str")]
                m.lens[k] = len(w)
                for i, c in enumerate(w):
                    m.ints.setdefault(m.rep(m.obj("at", k, i).key), c)
                break
    elif t.op == "bool" and t.a[0] == "contains" and len(t.a) == 3 and lo == 1 and t.a[2].op == "bytes":
        v, p = m.ev(t.a[1]), bytes.fromhex(t.a[2].a[0])
        if isinstance(v, Obj):
            k = m.rep(v.key)
            if k not in m.lens and k not in m.ints:
                m.lens[k] = len(p) + m.rnd.choice((0, 1, 2, 3, 4, 4, 9, 20))
            n = m.lens.get(k, 0) - len(p)
            if 0 <= n < LONG:
                i = m.rnd.randint(0, n)
                for j, c in enumerate(p):
                    m.ints.setdefault(m.rep(m.obj("at", k, i + j).key), c)
    m.memo = {}


def unapply(m, t, y):
    """let a function on texts give what another term is"""
    if t.op != "ap" or len(t.a) not in (2, 3) or not pure.known(t.a[0]) or pure.known(t.a[0])[0] != "str":
        return False
    name = t.a[0].rsplit("::", 1)[-1]
    x = t.a[1]
    while x.op == "sub" and x.a[1].op == "int" and x.a[2] is Len(x.a[0]):
        x = x.a[0]
    v = m.ev(x)
    if not isinstance(v, Obj) or m.rep(v.key) in m.lens:
        return False
    pat = (32,)
    if len(t.a) == 3:
        if not T.contains(t.a[2], lambda z: z.op not in ("int", "bytes")):
            pat = pure.chars(m.ev(t.a[2]))
        else:
            return False
    w = m.text(m.ev(y), "str")
    k = m.rnd.choice((0, 1, 1, 2))
    if name in ("trim", "trim_matches", "trim_ascii"):
        w = pat * k + w + pat * m.rnd.choice((0, 1))
    elif name in ("trim_end", "trim_right", "trim_end_matches", "trim_right_matches", "trim_ascii_end"):
        w = w + pat * k
    elif name in ("trim_start", "trim_left", "trim_start_matches", "trim_left_matches", "trim_ascii_start"):
        w = pat * k + w
    elif name.endswith("case"):
        w = tuple(c ^ 32 if (c | 32) in range(97, 123) and m.rnd.random() < .7 else c for c in w)
    else:
        return False
    give(m, t.a[1], w)
    m.memo = {}
    return True


def segments(m, facts):
    """texts that are split are put together from segments"""
    seen = set()
    for t in facts:
        for y in T.subterms(t):
            if y.op == "split" and y not in seen and y.a[1].op == "bytes" and not T.contains(y, lambda z: z.op == "iv"):
                seen.add(y)
                v = m.ev(y.a[0])
                if not isinstance(v, Obj):
                    continue
                k = m.rep(v.key)
                if k in m.ints or k in m.lens:
                    continue
                sep = list(bytes.fromhex(y.a[1].a[0]))
                lo, hi = m.rng(Len(y))
                n = max(1, lo) + m.rnd.choice((0, 0, 1, 2))
                if hi is not None:
                    n = min(n, hi)
                letters = [c for c in m.alpha if c not in sep] or [97]
                out = []
                twice = facts.get(T.mk("bool", "contains", y.a[0], T.Bytes(y.a[1].a[0] * 2)))
                spare = set() if twice and not twice[0] else {m.rnd.randrange(1, n - 1)} if twice and n > 2 and m.rnd.random() < .8 else None
                for i in range(n):
                    if i:
                        out += sep
                    k2 = m.rnd.choice((0, 1, 1, 1, 2) if spare is None else (1, 1, 2))
                    out += [m.rnd.choice(letters) for _ in range(0 if spare and i in spare else k2)]
                m.lens[k] = len(out)
                for i, c in enumerate(out):
                    m.ints.setdefault(m.rep(m.obj("at", k, i).key), c)
    m.memo = {}


_made = {}


def made(t):
    """it depends on something that is known only by what it is made of"""
    r = _made.get(t)
    if r is None:
        r = _made[t] = T.contains(t, lambda y: y.op == "app")
    return r


def effort(x):
    t, f = x
    if t.op == "bool" and t.a[0] == "contains":
        return 0
    if t.op == "eq" and f[0] == 1:
        return 0
    if made(t):
        return 5
    return 1 if t.op in ("discr", "bool", "has") else 2 if t.op in ("allc", "dd") else 3 if t.op == "len" else 4


def holds(m, items):
    for t, f in () if m.free else items:
        if t.op == "eq" and f[0] == 1:
            try:
                a, b = m.ev(t.a[0]), m.ev(t.a[1])
            except Stuck:
                continue
            if isinstance(a, Obj) and isinstance(b, Obj):
                ka, kb = m.rep(a.key), m.rep(b.key)
                if ka != kb and not (ka in m.ints or kb in m.ints or ka in m.lens or kb in m.lens):
                    m.union(ka, kb)
                    m.memo = {}
    for t, f in items:
        if T.junk(t):
            continue
        if m.free:
            satisfy(m, t, f)
        v = m.ev(t)
        if isinstance(v, Obj):
            k = m.rep(v.key)
            if k not in m.ints:
                lo, hi = f[0], f[1]
                ok = [c for c in m.alpha if lo <= c <= hi] if t.op == "at" and m.free else ()
                if ok and m.rnd.random() < .4:
                    m.ints[k] = m.rnd.choice(ok)
                else:
                    m.int_of(k, lo if lo > -(1 << 60) else -4, hi)
                m.memo = {}
            v = m.ints[k]
        v = m.as_int(v)
        if not f[0] <= v <= f[1] or v in f[2]:
            return False
    return m.filled()


_unmemo = {}


def unmodelled(v):
    r = _unmemo.get(v)
    if r is None:
        r = _unmemo[v] = T.contains(v, lambda x: x.op in UNMODELLED and not (
            x.op == "ap" and pure.known(x.a[0]) or x.op == "bin" and pure.operator(x.a[0])))
    return r


def show(v):
    if isinstance(v, Obj):
        return "<%s>" % keystr(v.key)
    if isinstance(v, tuple):
        if v and v[0] == "adt":
            return v[1].split("::")[-1] + "#%s" % v[4] + ("(" + ", ".join(show(x) for x in v[3]) + ")" if v[3] else "")
        if v and v[0] == "tup":
            return "(" + ", ".join(show(x) for x in v[1]) + ")"
        return "[" + ", ".join(show(x) for x in v) + "]"
    if isinstance(v, Rope):
        return "[" + ", ".join("%s .. (%d of them)" % (show(p[1] if p[0] == "r" else v.m.obj("at", p[1], p[2])), rlen(p)) if p[0] != "c" else show(p[1])[1:-1] for p in v.ps) + "]"
    return str(v)


def keystr(k):
    if isinstance(k, tuple) and k:
        if k[0] == "sym":
            return str(k[1])
        if k[0] == "fld":
            return keystr(k[1]) + "." + str(k[2][1])
        if k[0] == "at":
            return keystr(k[1]) + "[%s]" % (k[2],)
        return str(k[0]) + "(" + ",".join(keystr(x) for x in k[1:]) + ")"
    return str(k)


def force_dd(st, d, want, rnd, depth=0):
    """a state in which the diagram leads to the wanted truth value, or None"""
    if depth > 60:
        return None
    if d.op != "dd":
        if d.op == "int":
            return st if bool(d.a[0]) == bool(want) else None
        s = st.copy()
        return s if s.assume(d, int(want)) else None
    v = st.ev(d.a[0])
    kids = list(d.a[1])
    if v is not None:
        kids = [k for k in kids if k[0] <= v <= k[1]]
    else:
        rnd.shuffle(kids)
    for lo, hi, k in kids:
        s = st
        if v is None:
            s = st.copy()
            if not (s.assume(d.a[0], lo) if lo == hi else s.narrow(d.a[0], lo, hi)):
                continue
        s = force_dd(s, k, want, rnd, depth + 1)
        if s is not None:
            return s
    return None


def assume_facts(facts):
    from .vf import State
    st = State({}, {})
    for t, (lo, hi, ex) in facts:
        if lo == hi:
            if not st.assume(t, lo):
                return None
        elif not st.narrow(t, lo, hi) or not all(st.exclude(t, x) for x in ex):
            return None
    return st


def binders_of(ts):
    bs = {}
    for t in ts:
        for y in T.subterms(t):
            if y.op in T.BIND and not T.contains(Tup_of(y), lambda z: z.op == "iv"):
                bs[y] = 1
    return sorted(bs, key=lambda y: sum(1 for z in T.subterms(y) if z.op in T.BIND))


def expand(facts, rnd, terms=()):
    """the facts with the quantified ones spelt out for few elements, chosen at random; None if that is contradictory"""
    from .vf import State
    bs = binders_of(list(facts) + list(terms))
    if not bs:
        return None
    st = State({}, dict(facts))
    size = {}
    for y in bs:
        for d in y.a[0]:
            if d.op == "range" or d in size:
                continue
            n = Len(d)
            lo, hi, ex = st.rng(n)
            k = min(hi, lo + rnd.choice((0, 1, 1, 2, 2, 3)))
            if k in ex or k > 6 or not st.assume(n, k):
                return None
            size[d] = k
    budget = [60]

    def spell(st, terms, spelt):
        """the state with all that is quantified spelt out, trying the positions in random order"""
        budget[0] -= 1
        if budget[0] < 0:
            return None
        y = None
        for y in binders_of(list(st.facts) + list(terms)):
            if y not in spelt and y.op in ("allc", "first") and y.a[2] is ALL and (y.op == "first" or st.ev(y) is not None) \
                    and st.ev(y.a[1]) is not None and any(d in size for d in y.a[0]):
                break
        else:
            return st
        drv, init, bound, dd, k = y.a
        n = min(size[d] for d in drv if d in size)
        i0 = st.ev(init)
        if y.op == "first":
            stops = list(range(i0, n + 1))
        else:
            stops = [n] if st.ev(y) else list(range(i0, n))
        rnd.shuffle(stops)
        inst = [T.subst(dd, {Iv(k): Int(i)}) for i in range(n)]
        for stop in stops:
            s, ts = st.copy(), terms
            if y.op == "first":
                m = {y: Int(stop)}
                if not s.assume(y, stop):
                    continue
                ts = [T.subst(t, m) for t in terms]
                s = assume_facts([(T.subst(t, m), f) for t, f in s.facts.items()])
            for i in range(i0, stop):
                if s is not None:
                    s = force_dd(s, inst[i], 1, rnd)
            if s is not None and stop < n:
                s = force_dd(s, inst[stop], 0, rnd)
            if s is not None:
                s = spell(s, ts, spelt | {y})
            if s is not None:
                return s
            if budget[0] < 0:
                return None
        return None
    st = spell(st, list(terms), frozenset())
    return None if st is None else st.facts


def Tup_of(y):
    return mk("tup", *[x for x in y.a[0] if isV(x)], y.a[1])


def give(m, t, v):
    """let the term have the concrete value, if that is up to the model"""
    if t.op in ("fld", "at", "sym", "app", "msg", "perr"):
        try:
            x = m.ev(t)
        except Stuck:
            return
        if not isinstance(x, Obj):
            return
        k = m.rep(x.key)
        if isinstance(v, tuple):
            if m.lens.setdefault(k, len(v)) == len(v):
                for i, y in enumerate(v):
                    m.ints.setdefault(m.rep(m.obj("at", k, i).key), y)
        else:
            m.ints.setdefault(k, v)
    elif t.op == "sub" and isinstance(v, tuple):
        base, lo, hi = t.a
        if lo.op != "int" or hi is not Len(base) or base.op not in ("fld", "at", "sym"):
            return
        x = m.ev(base)
        if not isinstance(x, Obj):
            return
        k = m.rep(x.key)
        if m.lens.setdefault(k, lo.a[0] + len(v)) == lo.a[0] + len(v):
            for i, y in enumerate(v):
                m.ints.setdefault(m.rep(m.obj("at", k, lo.a[0] + i).key), y)


def align(m, x, t):
    """let a value be the rest of another one"""
    base, lo, hi = t.a
    if lo.op != "int" or hi is not Len(base):
        return
    u, w = m.ev(x), m.ev(base)
    if not isinstance(u, Obj) or not isinstance(w, Obj):
        return
    u, w = m.rep(u.key), m.rep(w.key)
    if w not in m.lens:
        n, h = m.rng(Len(base))
        m.lens[w] = max(n, lo.a[0]) + m.rnd.choice((0, 1, 2)) if u not in m.lens else m.lens[u] + lo.a[0]
    n = m.lens[w] - lo.a[0]
    if n < 0 or n > LONG or m.lens.setdefault(u, n) != n:
        return
    for i in range(n):
        p, q = m.rep(m.obj("at", u, i).key), m.rep(m.obj("at", w, lo.a[0] + i).key)
        if p != q:
            m.union(p, q)


DEEP = 1        # how many times more of everything is tried


def search(facts, tries, terms=()):
    """instances that satisfy the facts"""
    tries *= DEEP
    items = ordered(facts)
    zone = Zone(facts)
    if not zone.feasible:
        raise NoPath()
    t0 = time.time()
    Model.alpha = alphabet(list(facts) + list(terms))
    Model.texty = any(contains_text(t) for t in list(facts) + list(terms))
    ok = spelt = 0
    rnd = random.Random(7)
    for seed in range(tries):
        if seed > 900 * DEEP and not ok or seed % 20 == 0 and time.time() - t0 > 10 * DEEP:
            break
        try:
            m = model(facts, items, seed, zone)
        except TimeoutError:
            raise
        except Exception:
            continue
        ok += 1
        yield m
    # quantified facts spelt out
    t0 = time.time()
    for seed in range(tries // 4):
        if spelt > 60 * DEEP or time.time() - t0 > 12 * DEEP:
            return
        try:
            f2 = expand(facts, rnd, terms)
        except RecursionError:
            return
        if f2 is None:
            continue
        z2 = Zone(f2)
        it2 = ordered(f2) + items
        f2 = {**facts, **f2}
        if not z2.feasible:
            continue
        for k in range(4):
            try:
                m = model(f2, it2, 10 * seed + k, z2, True)
            except TimeoutError:
                raise
            except Exception:
                continue
            spelt += 1
            yield m


def witness(facts, a, b, tries=1500):
    """(found, accepted instances): a concrete instance allowed by the facts in which a and b differ"""
    ok = 0
    for m in search(facts, tries, (a, b)):
        try:
            va, vb = m.ev(a), m.ev(b)
            ok += 1
            if not m.equal(va, vb):
                return ("%s instead of %s" % (show(va)[:600], show(vb)[:600]), ok)
        except TimeoutError:
            raise
        except Exception:
            continue
        if ok >= 400:
            break
    return (None, ok)


def instance(facts, tries=1500):
    """an instance that satisfies the facts"""
    for m in search(facts, tries):
        return m
    return None
