"""Interprocedural path sensitive value-flow analysis of MIR (abstract interpretation over terms, no solver)."""
import json
import copy
import sys
from .terms import *
from . import terms

sys.setrecursionlimit(100000)
INF = 1 << 70
UMAX = (1 << 64) - 1
ATOMS = {"fld", "sym", "at", "ap", "len", "ptr", "off"}
COW = "alloc::borrow::Cow"


class Limit(Exception):
    pass


class Types:
    def __init__(self, arr):
        self.arr = arr

    def __getitem__(self, i):
        return self.arr[i]


class Body:
    def __init__(self, j, types):
        self.j, self.types = j, types
        self.key, self.path = j["key"], j["path"]
        self.blocks = j["blocks"]
        self.argc = j["argc"]
        self.local = j["local"]
        self._loops = None
        self._live = None

    def live_in(self):
        """locals live at block entry (reads of a place's base, borrows count as reads)"""
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        borrowed = set()

        def places(x, acc):
            # every operand place
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ("copy", "move") and isinstance(x[1], list):
                    acc.append(x[1])
                else:
                    for y in x:
                        if isinstance(y, list):
                            places(y, acc)

        for b in range(n):
            def rd(l, b=b):
                if l not in dfn[b]:
                    use[b].add(l)

            def rdp(p):
                rd(p[0])
                for e in p[1:]:
                    if e[0] == "index":
                        rd(e[1])

            def wr(p, b=b):
                if len(p) == 1:
                    dfn[b].add(p[0])
                else:
                    rdp(p)
            for s in self.blocks[b]["s"]:
                if s[0] == "=":
                    rv = s[2]
                    acc = []
                    places(rv, acc)
                    for p in acc:
                        rdp(p)
                    if rv[0] == "ref":
                        rdp(rv[2])
                        if rv[1] == "mut":
                            borrowed.add(rv[2][0])
                    elif rv[0] == "rawptr":
                        rdp(rv[1])
                        borrowed.add(rv[1][0])
                    elif rv[0] == "discr":
                        rdp(rv[1])
                    wr(s[1])
                elif s[0] == "setd":
                    rdp(s[1])
            t = self.blocks[b]["t"]
            acc = []
            places(t, acc)
            for p in acc:
                rdp(p)
            if t[0] == "return":
                rd(0)
            if t[0] == "call":
                wr(t[3])
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set()
                for s in self.succ(b):
                    o |= live[s]
                i = use[b] | (o - dfn[b])
                if i != live[b]:
                    live[b] = i
                    ch = True
        self._live = (live, borrowed)
        return self._live

    def succ(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [] if t[4] is None else [t[4]]
        if k == "assert":
            return [t[3]]
        return []

    def loops(self):
        if self._loops is not None:
            return self._loops
        n = len(self.blocks)
        order, seen = [], set()

        def dfs(b):
            st = [(b, iter(self.succ(b)))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(self.succ(y))))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(0)
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succ(b):
                preds[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while idx[x] > idx[y]:
                            x = idom[x]
                        while idx[y] > idx[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succ(b):
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self._loops = loops
        self.order = idx
        return loops


_version = [0]


class Facts(dict):
    """facts with a version that changes with them"""
    __slots__ = ("ver",)

    def __init__(self, d=()):
        dict.__init__(self, d)
        if type(d) is Facts:
            self.ver = d.ver
        else:
            _version[0] += 1
            self.ver = _version[0]

    def __setitem__(self, k, v):
        _version[0] += 1
        self.ver = _version[0]
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        _version[0] += 1
        self.ver = _version[0]
        dict.__delitem__(self, k)


class State:
    __slots__ = ("mem", "fx", "trace")

    def __init__(self, mem=None, facts=None, trace=()):
        self.mem, self.trace = mem or {}, trace
        self.fx = facts if type(facts) is Facts else Facts(facts or ())

    @property
    def facts(self):
        return self.fx

    @facts.setter
    def facts(self, d):
        self.fx = d if d is None or type(d) is Facts else Facts(d)

    def copy(self):
        return State(dict(self.mem), Facts(self.fx), self.trace)

    # ---- facts: term -> (lo, hi, excluded)
    def rng(self, t):
        if t.op == "int":
            return (t.a[0], t.a[0], frozenset())
        f = self.facts.get(t)
        if f:
            return f
        if t.op in ("eq", "lt", "and", "not", "has", "ovf", "bool", "allc"):
            return (0, 1, frozenset())
        if t.op == "discr":
            return terms.DRANGE.get(t, (-1, INF)) + (frozenset(),)
        if t.op == "lin":
            lo = hi = t.a[0]
            for x, c in t.a[1]:
                l, h, _ = self.rng(x)
                if c > 0:
                    lo += c * l
                    hi += c * h
                else:
                    lo += c * h
                    hi += c * l
            return (max(lo, -INF), min(hi, INF), frozenset())
        if t.op == "len":
            return (0, (1 << 63) - 1, frozenset())
        if t.op == "sat":
            lo, hi, _ = self.rng(t.a[0])
            return (min(lo, t.a[1]), min(hi, t.a[1]), frozenset())
        if t in terms.TYPED:
            return terms.TYPED[t] + (frozenset(),)
        if t in SIGNED:
            return (-INF, INF, frozenset())
        return (0, UMAX if t.op in ATOMS else INF, frozenset())

    def ev(self, t):
        """value of t as int, or None"""
        o = t.op
        if o == "int":
            return t.a[0]
        f = self.facts.get(t)
        if f and f[0] == f[1]:
            return f[0]
        if o == "not":
            v = self.ev(t.a[0])
            return None if v is None else 1 - v
        if o == "and":
            vs = [self.ev(x) for x in t.a]
            if 0 in vs:
                return 0
            if all(v == 1 for v in vs):
                return 1
            return None
        if o == "eq":
            a, b = t.a
            la, ha, xa = self.rng(a)
            lb, hb, xb = self.rng(b)
            if ha < lb or hb < la:
                return 0
            if la == ha == lb == hb:
                return 1
            if la == ha and la in xb or lb == hb and lb in xa:
                return 0
            if self.known(Lt(a, b)) or self.known(Lt(b, a)):
                return 0
            if a.op not in ("discr",):
                k1, k2 = self.bound(a, b), self.bound(b, a)
                if k1 is not None and k1 < 0 or k2 is not None and k2 < 0:
                    return 0
                if k1 is not None and k2 is not None and k1 <= 0 and k2 <= 0:
                    return 1
            if b.op == "int" and b.a[0] == 0 and a.op == "lin" and all(c > 0 for _, c in a.a[1]) and a.a[0] == 0:
                vs = [self.ev(Eq(x, b)) for x, _ in a.a[1]]
                if all(v == 1 for v in vs):
                    return 1
                if 0 in vs:
                    return 0
            return None
        if o == "lt":
            a, b = t.a
            la, ha, xa = self.rng(a)
            lb, hb, xb = self.rng(b)
            if ha < lb:
                return 1
            if la >= hb:
                return 0
            if a.op == "int" and la + 1 in xb and la + 1 == lb == hb:
                return 0
            if a.op == "int" and a.a[0] == 0 and 0 in xb:
                return 1
            if self.known(Lt(b, a)) or self.known(Eq(a, b)):
                return 0
            if a.op == "lin" and a.a[0] > 0:
                # x + c < y  is false when x >= y
                x = mklin(0, dict(a.a[1]))
                if self.facts.get(mk("lt", x, b), (0, 1))[1] == 0:
                    return 0
            if b.op == "lin" and b.a[0] > 0:
                x = mklin(0, dict(b.a[1]))
                if self.facts.get(mk("lt", a, x), (0, 1))[0] == 1 or self.facts.get(mk("lt", x, a), (0, 1))[1] == 0:
                    return 1
            # not (b < a) and a != b
            fb = self.facts.get(mk("lt", b, a))
            if fb and fb[1] == 0:
                e = self.facts.get(Eq(a, b)) if Eq(a, b).op != "int" else None
                if e and e[1] == 0:
                    return 1
            k = self.bound(a, b)
            if k is not None and k < 0:
                return 1
            k = self.bound(b, a)
            if k is not None and k <= 0:
                return 0
            return None
        if o == "lin":
            lo, hi, _ = self.rng(t)
            if lo == hi:
                return lo
        return None

    def edges(self):
        """difference constraints x - y <= k from the facts, as y -> [(x, k)]"""
        es = {}

        def edge(y, x, k):
            es.setdefault(y, []).append((x, k))
        for t, f in self.fx.items():
            if t.op == "lt" and f[0] == f[1]:
                (la, ca), (lb, cb) = node(t.a[0]), node(t.a[1])
                if f[0] == 1:       # la + ca + 1 <= lb + cb
                    edge(lb, la, cb - ca - 1)
                else:               # lb + cb <= la + ca
                    edge(la, lb, ca - cb)
            elif t.op == "eq" and f[0] == f[1] == 1:
                (la, ca), (lb, cb) = node(t.a[0]), node(t.a[1])
                edge(lb, la, cb - ca)
                edge(la, lb, ca - cb)
            if t.op not in ("lt", "eq", "bool", "has", "ovf", "not", "and"):
                n, c0 = node(t)
                if f[1] < INF:
                    edge(ZERO, n, f[1] - c0)
                if f[0] > -INF:
                    edge(n, ZERO, c0 - f[0])
        return es

    def bound(self, a, b):
        """least known k with a - b <= k, or None (zone domain)"""
        (na, ca), (nb, cb) = node(a), node(b)
        c = State._ecache
        if c[0] != self.fx.ver:
            c = State._ecache = (self.fx.ver, self.edges(), {})
        dist = c[2].get(nb)
        if dist is None:
            dist = c[2][nb] = self.dist(nb, c[1])
        d = dist.get(na)
        if na.op in ATOMS and ZERO in dist and na not in SIGNED and (d is None or d > dist[ZERO] + UMAX):
            d = dist[ZERO] + UMAX
        return None if d is None else d + ca - cb

    _ecache = (-1, None, None)

    def dist(self, nb, es):
        """least known upper bounds of x - nb"""
        dist = {nb: 0}
        todo = [nb]
        steps = 0
        limit = 40 * (len(es) + 2)
        while todo and steps < limit:
            steps += 1
            y = todo.pop(0)
            dy = dist[y]
            for x, k in es.get(y, ()):
                if dy + k < dist.get(x, INF):
                    dist[x] = dy + k
                    if x not in todo:
                        todo.append(x)
            # atoms are unsigned: 0 <= y
            if y is not ZERO and y not in SIGNED and y.op != "lin" and dy < dist.get(ZERO, INF):
                dist[ZERO] = dy
                if ZERO not in todo:
                    todo.append(ZERO)
        return dist

    def feasible(self):
        """the differences between integers in the facts are not contradictory"""
        es = self.edges()
        nodes = {ZERO}
        for y, xs in es.items():
            nodes.add(y)
            nodes.update(x for x, _ in xs)
        d = dict.fromkeys(nodes, 0)
        al = [(x, y, k) for y, xs in es.items() for x, k in xs]
        al += [(ZERO, y, 0) for y in nodes if y is not ZERO and y not in SIGNED and y.op != "lin"]
        for _ in range(len(nodes) + 1):
            ch = False
            for x, y, k in al:
                if d[y] + k < d[x]:
                    d[x] = d[y] + k
                    ch = True
            if not ch:
                return True
        return False

    def known(self, t):
        if t.op == "int":
            return t.a[0] == 1
        f = self.facts.get(t)
        return bool(f and f[0] == 1)

    def assume(self, t, v):
        """add t == v; False if contradictory"""
        if t.op == "int":
            return t.a[0] == v
        e = self.ev(t)
        if e is not None:
            return e == v
        o = t.op
        if o == "not":
            return self.assume(t.a[0], 1 - v)
        if o == "and" and v == 1:
            return all(self.assume(x, 1) for x in t.a)
        lo, hi, ex = self.rng(t)
        if v < lo or v > hi or v in ex:
            return False
        if o in ("eq", "lt") and (t.a[0].op == "int" or t.a[1].op == "int"):
            a, b = t.a
            if o == "eq":
                if b.op == "int":
                    a, b = b, a
                return self.assume(b, a.a[0]) if v else self.exclude(b, a.a[0])
            if v:
                return self.narrow(b, a.a[0] + 1, INF) if a.op == "int" else self.narrow(a, -INF, b.a[0] - 1)
            return self.narrow(b, -INF, a.a[0]) if a.op == "int" else self.narrow(a, b.a[0], INF)
        self.facts[t] = (v, v, frozenset())
        if False:
            pass
        elif o == "lin" and v == 0 and t.a[0] == 0 and all(c > 0 for _, c in t.a[1]):
            for x, _ in t.a[1]:
                if not self.assume(x, 0):
                    return False
        elif o == "lin" and len(t.a[1]) == 1:
            x, c = t.a[1][0]
            if (v - t.a[0]) % c:
                return False
            return self.assume(x, (v - t.a[0]) // c)
        return True

    def narrow(self, t, lo, hi):
        if t.op == "int":
            return lo <= t.a[0] <= hi
        l, h, ex = self.rng(t)
        l, h = max(l, lo), min(h, hi)
        while l in ex:
            l += 1
        while h in ex:
            h -= 1
        if l > h:
            return False
        self.facts[t] = (l, h, frozenset(x for x in ex if l < x < h))
        return True

    def exclude(self, t, n):
        if t.op == "int":
            return t.a[0] != n
        l, h, ex = self.rng(t)
        ex = ex | {n}
        while l in ex:
            l += 1
        while h in ex:
            h -= 1
        if l > h:
            return False
        self.facts[t] = (l, h, frozenset(x for x in ex if l < x < h))
        return True


ZERO = Int(0)
_base = State()
terms.FULL = lambda t: _base.rng(t)[:2]


def unite(t, f, g, full):
    """exact union of two ranges as a range, or None; full = the range of t without facts"""
    lo, hi = min(f[0], g[0]), max(f[1], g[1])
    if f[0] > g[0]:
        f, g = g, f
    ex = set()
    # values of the hull in neither
    if g[0] > f[1] + 1:
        if g[0] - f[1] > 9:
            return None
        ex.update(range(f[1] + 1, g[0]))
    for x in f[2] | g[2]:
        inf = f[0] <= x <= f[1] and x not in f[2]
        ing = g[0] <= x <= g[1] and x not in g[2]
        if lo < x < hi and not inf and not ing:
            ex.add(x)
    return (lo, hi, frozenset(ex))


def fhash(x):
    return hash((x[0].id, x[1]))


def merge_states(sts):
    """exact merging: states with equal memory whose facts differ in one term only"""
    if len(sts) < 2:
        return sts
    groups = {}
    for s in sts:
        groups.setdefault(frozenset(s.mem.items()), []).append(s)
    out = []
    for g in groups.values():
        out += g if len(g) == 1 else merge_facts(g)
    return out


def merge_facts(g):
    base = State()
    pool = {}
    for s in g:
        k = frozenset(x for x in s.facts.items() if not junk(x[0]))
        if k not in pool:
            pool[k] = s
    ch = True
    while ch and len(pool) > 1:
        ch = False
        buckets = {}
        for k in pool:
            h = 0
            for x in k:
                h ^= fhash(x)
            for x in k:
                buckets.setdefault((h ^ fhash(x), x[0].id), []).append((k, x))
            buckets.setdefault((h, None), []).append((k, None))
        # one is the other plus one fact: the smaller covers it
        for (h, tid), l in list(buckets.items()):
            if tid is not None and (h, None) in buckets:
                for k, x in l:
                    if k in pool and any(k2 in pool and k2 < k for k2, _ in buckets[(h, None)]):
                        del pool[k]
                        ch = True
        for (h, tid), l in buckets.items():
            if tid is None or len(l) < 2:
                continue
            l = [(k, x) for k, x in l if k in pool]
            i = 0
            while i < len(l):
                k, x = l[i]
                for j in range(i + 1, len(l)):
                    k2, x2 = l[j]
                    if k in pool and k2 in pool and k - {x} == k2 - {x2}:
                        full = base.rng(x[0])
                        u = unite(x[0], x[1], x2[1], full)
                        if u is None:
                            continue
                        s = pool.pop(k)
                        pool.pop(k2)
                        f = dict(s.facts)
                        if u == full or (u[0] <= full[0] and u[1] >= full[1] and not u[2]):
                            f.pop(x[0], None)
                            nk = k - {x}
                        else:
                            f[x[0]] = u
                            nk = (k - {x}) | {(x[0], u)}
                        pool.setdefault(nk, State(s.mem, f, s.trace))
                        ch = True
                        break
                i += 1
        if not ch and len(pool) <= 400:
            ks = sorted(pool, key=len)
            for i, k in enumerate(ks):
                if k not in pool:
                    continue
                for k2 in ks[i + 1:]:
                    if k2 in pool and k < k2:
                        del pool[k2]
    return list(pool.values())


def merge_results(res, region):
    groups, out = {}, []
    for r in res:
        if r[0] == "exit":
            groups.setdefault(("exit", r[1]), []).append(r[2])
        elif r[0] in ("ret", "back"):
            groups.setdefault((r[0],), []).append(r[1])
        else:
            out.append(r)
    for k, sts in groups.items():
        out += [k + (s,) for s in merge_states(sts)]
    return out




def node(t):
    """(atom, constant) of a linear term; sums of several atoms are one atom"""
    if t.op == "int":
        return ZERO, t.a[0]
    if t.op == "lin":
        return mklin(0, dict(t.a[1])), t.a[0]
    return t, 0





class Frame:
    __slots__ = ("body", "id", "caller")

    def __init__(self, body, id, caller=None):
        self.body, self.id, self.caller = body, id, caller


class Engine:
    MAXSTEPS = 400000

    def __init__(self, dumps):
        from . import models
        self.bodies = {}
        self.impls = {}   # (trait, method, adt path) -> body
        self.adts = {}    # path -> list of variants (type json, Types)
        self.dumps = dumps
        self.nframe = 0
        self.nloop = 0
        self.loopinfo = {}
        self.steps = 0
        self.stack = []
        self.loopctx = []
        self.general = 0          # inside of how many loops from any state
        self.unroll, self.cut_off = 0, 0    # turns of loops without closed forms that are looked at; loops that have more
        self.opaque = set()       # body paths / predicates kept uninterpreted
        self.opaque_fn = None
        self.no_overflow = False  # sums of sizes in memory
        self.stepfn, self.steprecs = None, []   # loops that are looked at turn by turn, wherever they are
        self.stepping = None      # [path of a function, ...]: its loop is looked at turn by turn
        self.unknown = {}
        self.called = {}
        self.models = models.MODELS
        self.mdl = models
        self.notes = []
        for d in dumps:
            if d["crate"] == "rmodels":
                prefix_crate(d, models.RUST)
            ty = Types(d["types"])
            for t in d["types"]:
                if t and t.get("k") == "adt" and "variants" in t:
                    self.adts.setdefault(t["adt"], (t, ty))
                    terms.DISCR.setdefault(t["adt"], {i: v["discr"] for i, v in enumerate(t["variants"])})
            for b in d["bodies"]:
                body = Body(b, ty)
                self.bodies[b["key"]] = body
        for body in self.bodies.values():
            b = body.j
            if "trait" in b and "impl_self" in b:
                st = body.types[b["impl_self"]]
                if st.get("k") == "adt":
                    gen = self.impls.setdefault((b["trait"], b["name"], st["adt"]), [])
                    gen.append(body)

    # ------------------------------------------------------------- type helpers
    def variants(self, path):
        return self.adts[path][0]["variants"]

    def vidx(self, path, name):
        for i, v in enumerate(self.variants(path)):
            if v["name"] == name:
                return i
        raise KeyError((path, name))

    def fidx(self, path, name, variant=0):
        for i, f in enumerate(self.variants(path)[variant]["fields"]):
            if f[0] == name:
                return i
        raise KeyError((path, name))

    def adt(self, path, vname, *fields):
        vi = self.vidx(path, vname)
        t = self.adts[path][0]
        return Adt(path, vi, fields, vname if t["enum"] else None)

    def some(self, x):
        return Adt("core::option::Option", 1, (x,), "Some")

    def none(self):
        return Adt("core::option::Option", 0, (), "None")

    def ok(self, x):
        return Adt("core::result::Result", 0, (x,), "Ok")

    def err(self, x):
        return Adt("core::result::Result", 1, (x,), "Err")

    def f(self, v, path, name, vname=None):
        vi = 0 if vname is None else self.vidx(path, vname)
        return Fld(v, (vi, self.fidx(path, name, vi)))

    # ------------------------------------------------------------- places
    def read_loc(self, st, root, path):
        v = st.mem.get(root)
        if v is None:
            v = mk("uninit", root)
        for k in path:
            v = Fld(v, k)
        return v

    def write_loc(self, st, root, path, x):
        if not path:
            st.mem[root] = x
            return

        def go(v, i):
            if i == len(path):
                return x
            return SetFld(v, path[i], go(Fld(v, path[i]), i + 1))
        v = st.mem.get(root)
        if v is None:
            v = mk("uninit", root)
        st.mem[root] = go(v, 0)

    def deref(self, st, v):
        """value behind a (mutable) reference; shared references are their referent"""
        n = 0
        while v.op == "mref" and n < 20:
            v = self.read_loc(st, v.a[0], v.a[1])
            n += 1
        return v

    def deref1(self, st, v):
        return self.read_loc(st, v.a[0], v.a[1]) if v.op == "mref" else v

    def snapshot(self, st, v, d=0):
        """resolve mutable references inside a value (for results and call arguments)"""
        if d > 12:
            return v
        if v.op == "mref":
            return self.snapshot(st, self.read_loc(st, v.a[0], v.a[1]), d + 1)
        if v.op == "adt":
            fs = tuple(self.snapshot(st, x, d + 1) for x in v.a[2])
            return v if fs == v.a[2] else mk("adt", v.a[0], v.a[1], fs, v.a[3])
        if v.op == "tup":
            fs = tuple(self.snapshot(st, x, d + 1) for x in v.a)
            return v if fs == v.a else mk("tup", *fs)
        if v.op == "clo":
            fs = tuple(self.snapshot(st, x, d + 1) for x in v.a[1])
            return v if fs == v.a[1] else mk("clo", v.a[0], fs)
        return v

    def place_types(self, fr, p):
        """type of every prefix of the place"""
        ty = fr.body.types
        t = ty[fr.body.j["locals"][p[0]]]
        out = [t]
        for e in p[1:]:
            k = e[0]
            if k == "deref":
                t = ty[t["to"]] if t and "to" in t else None
            elif k == "field":
                t = ty[e[2]] if e[2] is not None else None
            elif k in ("index", "cindex"):
                t = ty[t["elem"]] if t and "elem" in t else None
            out.append(t)
        return out

    def is_cow(self, t):
        return bool(t) and t.get("adt") == COW

    def read_place(self, st, fr, p):
        v = st.mem.get((fr.id, p[0]))
        if v is None:
            v = mk("uninit", (fr.id, p[0]))
        var = 0
        pt = self.place_types(fr, p) if len(p) > 2 else None
        for n, e in enumerate(p[1:]):
            k = e[0]
            if k == "deref":
                v = self.deref1(st, v)
            elif k == "field" and self.is_cow(pt and pt[n]):
                var = 0
            elif k == "field":
                v = Fld(v if v.op != "mref" else self.deref(st, v), (var, e[1]))
                var = 0
            elif k == "downcast":
                var = e[1]
            elif k == "index":
                v = At(v, self.read_place(st, fr, [e[1]]))
            elif k == "cindex":
                v = At(v, Sub(Len(v), Int(e[1])) if e[2] else Int(e[1]))
            elif k == "subslice":
                v = SubSeq(v, Int(e[1]), Sub(Len(v), Int(e[2])) if e[3] else Int(e[2]))
            else:
                v = mk("opaqueproj", v)
        if v.op in ("fld", "sym", "at", "ap") and v not in SIGNED:
            t = (pt or self.place_types(fr, p))[-1]
            if t and t.get("k") == "int":
                b = t["bits"]
                if t.get("signed"):
                    SIGNED.add(v)
                    terms.TYPED[v] = (-(1 << b - 1), (1 << b - 1) - 1)
                elif b < 64:
                    terms.TYPED[v] = (0, (1 << b) - 1)
        return v

    def resolve(self, st, fr, p):
        root, path = (fr.id, p[0]), ()
        var = 0
        pt = self.place_types(fr, p) if len(p) > 2 else None
        for n, e in enumerate(p[1:]):
            k = e[0]
            if k == "deref":
                v = self.read_loc(st, root, path)
                if v.op == "mref":
                    root, path = v.a
            elif k == "field" and self.is_cow(pt and pt[n]):
                var = 0
            elif k == "field":
                path = path + ((var, e[1]),)
                var = 0
            elif k == "downcast":
                var = e[1]
            elif k == "index":
                path = path + (("idx", self.read_place(st, fr, [e[1]])),)
            elif k == "cindex":
                v = self.read_loc(st, root, path)
                path = path + (("idx", Sub(Len(v), Int(e[1])) if e[2] else Int(e[1])),)
            else:
                path = path + (("opq", k),)
        return root, path

    # ------------------------------------------------------------- operands
    def const(self, c, types):
        if "fn" in c:
            return mk("fn", Fn(c["fn"], types))
        t = types[c["ty"]]
        if "promoted" in c:
            return self.promoted(c["promoted"])
        if "int" in c:
            if t.get("k") == "adt" and t.get("enum"):
                # an enum constant by discriminant
                n = int(c["int"])
                for i, v in enumerate(t["variants"]):
                    if v["discr"] == n or (len(t["variants"]) == i + 1 and False):
                        return Adt(t["adt"], i, (), v["name"])
            if t.get("k") == "adt" and not t.get("enum") and "variants" in t and len(t["variants"][0]["fields"]) == 1:
                return Adt(t["adt"], 0, (Int(int(c["int"])),))
            return Int(int(c["int"]))
        if "bytes" in c:
            return Bytes(c["bytes"])
        if "emptyslice" in c:
            return EMPTY
        if "agg" in c:
            fs = [self.const(x, types) for x in c["agg"]]
            if t.get("k") == "adt" and t["adt"] == COW:
                return fs[0]
            if t.get("k") == "adt":
                vi = c.get("variant", 0)
                return Adt(t["adt"], vi, fs, t["variants"][vi]["name"] if t.get("enum") and "variants" in t else None)
            if t.get("k") == "tuple":
                return mk("tup", *fs)
            return mk("seq", *fs)
        if "zst" in c:
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "adt":
                vs = t.get("variants")
                return Adt(t["adt"], 0, (), vs[0]["name"] if t.get("enum") and vs else None)
            if t["k"] == "closure":
                return mk("clo", t["body"], ())
            if t["k"] == "fndef":
                return mk("fn", Fn(t["callee"], types))
            if t["k"] == "array":
                return EMPTY
        return mk("const", t["str"], str(c.get("opaque") or c.get("named")))

    def promoted(self, key):
        b = self.bodies.get(key)
        if b is None:
            return mk("const", key)
        st = State()
        fr = Frame(b, self.newframe())
        rs = self.run(fr, 0, st)
        for r in rs:
            if r[0] == "ret":
                return self.snapshot(r[1], r[1].mem.get((fr.id, 0), mk("const", key)))
        return mk("const", key)

    def newframe(self):
        self.nframe += 1
        return self.nframe

    def operand(self, st, fr, o):
        if o[0] in ("copy", "move"):
            return self.read_place(st, fr, o[1])
        if o[0] == "const":
            return self.const(o[1], fr.body.types)
        return mk("rt", str(o[1]))

    # ------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, rv):
        k = rv[0]
        ty = fr.body.types
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            if rv[1] == "mut":
                root, path = self.resolve(st, fr, rv[2])
                v = self.read_loc(st, root, path)
                return mk("mref", root, path)
            return self.read_place(st, fr, rv[2])
        if k == "rawptr":
            root, path = self.resolve(st, fr, rv[1])
            return mk("mref", root, path)
        if k == "cast":
            v = self.operand(st, fr, rv[2])
            to, frm = ty[rv[3]], ty[rv[4]]
            if rv[1].startswith("IntToInt"):
                if v.op == "int":
                    n = v.a[0]
                    n &= (1 << to["bits"]) - 1
                    if to.get("signed") and n >= 1 << (to["bits"] - 1):
                        n -= 1 << to["bits"]
                    return Int(n)
                if v.op == "discr" and to.get("k") == "int" and terms.DRANGE.get(v, (0, INF))[1] < 1 << (to["bits"] - 1):
                    return v
                if to.get("k") == "int" and frm.get("k") == "int":
                    lo, hi, _ = st.rng(v)
                    b = to["bits"]
                    tlo, thi = (-(1 << b - 1), (1 << b - 1) - 1) if to["signed"] else (0, (1 << b) - 1)
                    if not frm["signed"]:
                        lo = max(lo, 0)
                        hi = min(hi, (1 << frm["bits"]) - 1)
                    if tlo <= lo and hi <= thi:
                        return v
                    if b < frm["bits"] or b == frm["bits"] and to["signed"]:
                        return mk("trunc", v, to["name"])
                    if frm["signed"] and not to["signed"]:
                        return mk("sext", v, to["name"])
                if frm.get("k") == "adt":
                    return Discr(v)
                return v
            return v
        if k == "bin":
            return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), ty[rv[4]])
        if k == "un":
            v = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                return Not(v) if ty[rv[3]]["k"] == "bool" else mk("bitnot", v, ("i" if ty[rv[3]].get("signed") else "u") + str(ty[rv[3]].get("bits") or 64))
            if rv[1] == "Neg":
                return Mul(Int(-1), v)
            if rv[1] == "PtrMetadata":
                return Len(self.deref(st, v))
            return mk("un", rv[1], v)
        if k == "discr":
            if self.is_cow(self.place_types(fr, rv[1])[-1]):
                return Int(0)
            v = self.read_place(st, fr, rv[1])
            return drange(Discr(self.deref(st, v)), (self.place_types(fr, rv[1])[-1] or {}).get("adt"))
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in rv[4]]
            t = ty[rv[2]]
            if rv[1] == "tuple":
                return mk("tup", *ops)
            if rv[1] == "array":
                if ops and all(isint(x) for x in ops) and ty[t["elem"]].get("name") == "u8":
                    return Bytes("".join("%02x" % x.a[0] for x in ops))
                return mk("seq", *ops)
            if rv[1] == "adt" and t["adt"] == COW:
                return ops[0]
            if rv[1] == "adt":
                return Adt(t["adt"], rv[3], ops, t["variants"][rv[3]]["name"] if t.get("enum") else None)
            if rv[1] == "closure":
                return mk("clo", t["body"], tuple(ops))
            return mk("agg", rv[1], *ops)
        if k == "repeat":
            return mk("repeat", self.operand(st, fr, rv[1]), Int(rv[2]) if rv[2] is not None else mk("unk"))
        return mk("opq", str(rv))

    def binop(self, st, op, a, b, t):
        a, b = self.deref(st, a), self.deref(st, b)
        isbool = t.get("k") == "bool"
        if op in ("Add", "AddUnchecked"):
            return Add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return Sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return Mul(a, b)
        if op.endswith("WithOverflow"):
            o = op[:3]
            r = {"Add": Add, "Sub": Sub, "Mul": Mul}[o](a, b)
            if self.no_overflow:
                return mk("tup", r, FALSE)
            return mk("tup", r, Ovf(o, a, b, t.get("bits") or 64, bool(t.get("signed"))))
        if op == "Eq":
            return Eq(a, b)
        if op == "Ne":
            return Not(Eq(a, b))
        if op == "Lt":
            return Lt(a, b)
        if op == "Gt":
            return Lt(b, a)
        if op == "Le":
            return Not(Lt(b, a))
        if op == "Ge":
            return Not(Lt(a, b))
        if op == "BitAnd" and isbool:
            return And(a, b)
        if op == "BitOr" and isbool:
            return Or(a, b)
        if op == "BitXor" and isbool:
            return Not(Eq(a, b))
        if op == "Cmp":
            return mk("cmp", a, b)
        if op in ("Shl", "ShlUnchecked") and a.op == "int" and b.op == "int":
            return Int(a.a[0] << b.a[0])
        return mk("bin", op, a, b, ("i" if t.get("signed") else "u") + str(t.get("bits") or 64))

    # ------------------------------------------------------------- execution
    def run(self, fr, start, st, region=None, header=None):
        body = fr.body
        loops = body.loops()
        order = body.order
        live, borrowed = body.live_in()
        res = []
        pend = {}
        fid = fr.id

        def push(b, st):
            if region is not None:
                if b == header:
                    res.append(("back", st))
                    return
                if b not in region:
                    res.append(("exit", b, st))
                    return
            # forget dead locals so that equal states merge
            lv = live[b]
            for r in [r for r in st.mem if r[0] == fid and r[1] not in lv and r[1] not in borrowed]:
                del st.mem[r]
            pend.setdefault(b, []).append(st)

        pend[start] = [st]
        first = True
        while pend:
            b = min(pend, key=lambda x: order[x])
            sts = merge_states(pend.pop(b))
            for st in sts:
                self.steps += 1
                if self.steps > self.MAXSTEPS:
                    raise Limit(body.path)
                if b in loops and not (b == header and first):
                    for r in self.do_loop(fr, b, st, loops[b]):
                        if r[0] == "exit":
                            push(r[1], r[2])
                        else:
                            res.append(r)
                    continue
                self.step(fr, b, st, push, res)
            first = False
        return merge_results(res, region is not None)

    def step(self, fr, b, st, push, res):
        body = fr.body
        fid = fr.id
        blk = body.blocks[b]
        for s in blk["s"]:
            if s[0] == "=":
                v = self.rvalue(st, fr, s[2])
                if len(s[1]) == 1:
                    st.mem[(fid, s[1][0])] = v
                else:
                    root, path = self.resolve(st, fr, s[1])
                    self.write_loc(st, root, path, v)
            elif s[0] == "setd":
                root, path = self.resolve(st, fr, s[1])
                self.write_loc(st, root, path, mk("setd", self.read_loc(st, root, path), s[2]))
        t = blk["t"]
        k = t[0]
        if k == "goto":
            push(t[1], st)
        elif k == "return":
            res.append(("ret", st))
        elif k == "switch":
            d = self.deref(st, self.operand(st, fr, t[1]))
            e = st.ev(d)
            ts = [(int(x), y) for x, y in t[2]]
            if e is not None:
                for x, y in ts:
                    if x == e:
                        push(y, st)
                        break
                else:
                    push(t[3], st)
                return
            if d.op in ("and", "not", "eq", "lt", "has", "bool", "ovf", "allc"):
                tm = dict(ts)
                for val in (0, 1):
                    y = tm.get(val, t[3])
                    for s2 in self.mdl.assume_split(st, d, val):
                        push(y, s2)
                return
            for x, y in ts:
                s2 = st.copy()
                if s2.assume(d, x):
                    push(y, s2)
            s2 = st
            if all(s2.exclude(d, x) for x, _ in ts):
                if body.blocks[t[3]]["t"][0] != "unreachable":
                    push(t[3], s2)
        elif k == "drop":
            push(t[2], st)
        elif k == "assert":
            c = self.operand(st, fr, t[1])
            want = 1 if t[2] else 0
            e = st.ev(c)
            # the others are about the addresses of raw pointers
            if (e is None or e != want) and t[4] != "other":
                s2 = st.copy()
                if s2.assume(c, 1 - want):
                    ops = tuple(self.operand(st, fr, o) for o in t[5])
                    res.append(("panic", s2, PanicInfo(fr, blk["l"], "assert:" + t[4], ops)))
            if st.assume(c, want):
                push(t[3], st)
        elif k == "call":
            for r in self.call(fr, st, t, blk):
                if r[0] == "ok":
                    if t[4] is None:
                        res.append(("panic", r[1], PanicInfo(fr, blk["l"], "diverge", ())))
                    else:
                        push(t[4], r[1])
                elif r[0] == "skip":
                    res.append(("back", r[1]))
                else:
                    res.append(r)
        elif k in ("resume", "unreachable"):
            pass
        else:
            res.append(("panic", st, PanicInfo(fr, blk["l"], "other:" + str(t[:2]), ())))

    def discr_ok(self, st, d, fr, t):
        return True

    def call(self, fr, st, t, blk):
        fop = t[1]
        args = [self.operand(st, fr, o) for o in t[2]]
        if fop[0] == "const" and "fn" in fop[1]:
            f = Fn(fop[1]["fn"], fr.body.types)
            rs = self.invoke(st, f, args, fr, blk["l"], fr.body.types[t[5]], [fr.body.types[x] for x in t[6]])
        else:
            fv = self.operand(st, fr, fop)
            rs = self.call_value(st, fv, args, fr, blk["l"])
        out = []
        for r in rs:
            if r[0] == "ok":
                st2, v = r[1], r[2]
                if len(t[3]) == 1:
                    st2.mem[(fr.id, t[3][0])] = v
                else:
                    root, path = self.resolve(st2, fr, t[3])
                    self.write_loc(st2, root, path, v)
                out.append(("ok", st2))
            else:
                out.append(r)
        return out

    def invoke(self, st, f, args, fr, line, dty=None, atys=None):
        """results: ('ok', st, value) | ('panic', ..) | ('skip', st)"""
        c = f.c
        name = c["path"]
        self.called[name] = self.called.get(name, 0) + 1
        cx = Call(self, st, f, args, fr, line, dty, atys)
        if c.get("ctor"):
            return [("ok", st, self.ctor(c, args, dty))]
        m = self.mdl.find(cx)
        if m is not None:
            r = m(cx)
            if r is not NotImplemented:
                return r
        b = self.bodies.get(c.get("body"))
        if b is None and (c["kind"] in ("unresolved", "virtual") or "trait" in c):
            b = self.dispatch(st, c, args)
        if b is not None and not self.is_opaque(b):
            return self.inline(st, b, args, fr, line)
        return self.default_call(cx)

    def is_opaque(self, b):
        if b.path in self.opaque:
            return True
        if self.opaque_fn and self.opaque_fn(b):
            return True
        if b.j.get("name") == "fmt" and "trait" in b.j and b.j["trait"].startswith("core::fmt"):
            return True
        return sum(1 for x in self.stack if x == b.key) >= 2

    def dispatch(self, st, c, args):
        """trait method on a value whose type is only known from the value"""
        if "trait" not in c or not args:
            return None
        v = self.deref(st, args[0])
        if v.op == "adt":
            l = self.impls.get((c["trait"], c["name"], v.a[0]))
            if l and len(l) == 1:
                return l[0]
            if l:
                g = [b for b in l if "<" in b.key]
                return (g or l)[0]
        return None

    def ctor(self, c, args, dty):
        path = c["path"]
        if path.startswith(COW):
            return args[0]
        t = dty
        if t and t.get("k") == "adt" and "variants" in t:
            if t.get("enum"):
                vn = path.split("::")[-1]
                for i, v in enumerate(t["variants"]):
                    if v["name"] == vn:
                        return Adt(t["adt"], i, args, vn)
            else:
                return Adt(t["adt"], 0, args)
        base = path
        if base in self.adts:
            return Adt(base, 0, args)
        en, _, vn = path.rpartition("::")
        en2 = en
        for cand in (en, en.split("::<")[0], en.replace("::<'a>", "").replace("::<T>", "").replace("::<T, E>", "").replace("::<B, C>", "")):
            if cand in self.adts:
                for i, v in enumerate(self.variants(cand)):
                    if v["name"] == vn:
                        return Adt(cand, i, args, vn)
        return mk("ctor", path, *args)

    def call_value(self, st, fv, args, fr, line):
        """call of a closure / fn item / unknown callable with untupled args"""
        root = None
        v = self.deref(st, fv)
        if v.op == "fn":
            f = v.a[0]
            return self.invoke(st, f, list(args), fr, line, f.ret_type(self))
        if v.op == "clo":
            b = self.bodies.get(v.a[0])
            if b is not None:
                selfty = b.types[b.j["locals"][1]]
                if selfty["k"] == "ref" and selfty.get("mut"):
                    if fv.op != "mref":
                        r = ("tmp", self.newframe())
                        st.mem[r] = v
                        fv = mk("mref", r, ())
                    a0 = fv
                else:
                    a0 = v
                return self.inline(st, b, [a0] + list(args), fr, line)
        a = [self.snapshot(st, x) for x in args]
        return [("ok", st, mk("callv", v, *a))]

    def inline(self, st, b, args, fr, line):
        f2 = Frame(b, self.newframe(), (fr, line))
        nargs = b.argc
        if len(args) != nargs and len(args) >= 1:
            # closure bodies take their arguments untupled
            if len(args) == 2 and args[1].op == "tup" and 1 + len(args[1].a) == nargs:
                args = [args[0]] + list(args[1].a)
            elif len(args) == 2 and nargs > 2:
                args = [args[0]] + [Fld(args[1], (0, i)) for i in range(nargs - 1)]
        for i, a in enumerate(args):
            st.mem[(f2.id, i + 1)] = a
        self.stack.append(b.key)
        try:
            rs = self.run(f2, 0, st)
        finally:
            self.stack.pop()
        out = []
        rets = {}
        for r in rs:
            if r[0] == "ret":
                s2 = r[1]
                v = s2.mem.get((f2.id, 0), UNIT)
                esc = escaping(v)
                s2.mem = {k: x for k, x in s2.mem.items() if k[0] != f2.id or k in esc}
                rets.setdefault(v, []).append(s2)
            elif r[0] == "back":
                out.append(("skip", r[1]))
            else:
                out.append(r)
        for v, sts in rets.items():
            out += [("ok", s2, v) for s2 in merge_states(sts)]
        return out

    def default_call(self, cx):
        st = cx.st
        name = cx.name
        self.unknown[name] = self.unknown.get(name, 0) + 1
        vals = tuple(self.snapshot(st, a) for a in cx.args)
        res = mk("ap", name, *vals)
        for i, a in enumerate(cx.args):
            ty = cx.atys[i] if cx.atys else None
            if a.op == "mref" and (ty is None or ty.get("k") != "ref" or ty.get("mut")):
                self.write_loc(st, a.a[0], a.a[1], mk("mut", name, i, *vals))
            elif a.op == "tup":
                fs = ty.get("fields") if ty else None
                for j, y in enumerate(a.a):
                    t = cx.fr.body.types[fs[j]] if fs else None
                    if y.op == "mref" and (t is None or t.get("k") != "ref" or t.get("mut")):
                        self.write_loc(st, y.a[0], y.a[1], mk("mut", name, (i, j), *vals))
        if cx.dty and cx.dty.get("k") == "tuple" and not cx.dty.get("fields"):
            res = UNIT
        if cx.dty and cx.dty.get("k") == "never":
            return [("panic", st, PanicInfo(cx.fr, cx.line, "call:" + name, vals))]
        return [("ok", st, res)]

    # ------------------------------------------------------------- loops
    def do_loop(self, fr, h, st0, blocks):
        """results of a loop; turns that change the variant of an enum value or a flag start a loop of its own"""
        if self.stepping is not None and self.stepping[0] == fr.body.path and len(self.stepping) < 3:
            self.stepping.append(None)
            info, res, backs = self.do_phase(fr, h, st0, blocks, "step")
            self.stepping[2:] = [(info, backs)]
            return [r for r in res if r[0] != "back"]
        if self.stepfn is not None and self.stepfn(fr.body, h, blocks):
            info, res, backs = self.do_phase(fr, h, st0, blocks, "step")
            self.steprecs.append((fr.body.path, info, backs))
            return [r for r in res if r[0] != "back"]
        st1 = st0.copy() if self.unroll and not self.general else None
        try:
            res = self.do_phase(fr, h, st0.copy(), blocks, 0)
        except Phases:
            res = self.do_phase(fr, h, st0, blocks, None)
        if st1 is not None and any(mentions_phi(r[2] if r[0] == "exit" else r[1]) for r in res):
            return self.turn_by_turn(fr, h, st1, blocks)
        return res

    def turn_by_turn(self, fr, h, st, blocks):
        """the executions with a few turns only, of a loop for which no closed form is known"""
        out, sts = [], [st]
        limit = self.steps + 40000
        for n in range(self.unroll):
            more = []
            for s in sts:
                if self.steps > limit:
                    break
                s = s.copy()
                self.loopctx.append((fr.id, h, dict(s.mem)))
                try:
                    res = self.run(fr, h, s, region=blocks, header=h)
                finally:
                    self.loopctx.pop()
                for r in res:
                    if r[0] == "back":
                        more.append(r[1])
                    else:
                        out.append(r)
            sts = merge_states(more)
            if not sts or len(sts) > 60:
                break
        self.cut_off += bool(sts)
        return out

    def do_phase(self, fr, h, st0, blocks, depth):
        live, borrowed = fr.body.live_in()
        lv = live[h]
        for r in [r for r in st0.mem if r[0] == fr.id and r[1] not in lv and r[1] not in borrowed]:
            del st0.mem[r]
        self.nloop += 1
        lid = self.nloop
        locs = []
        split, ban = set(), set()
        mark = len(self.steprecs)
        for _ in range(14):
            del self.steprecs[mark:]
            s = st0.copy()
            for i, (root, path) in enumerate(locs):
                ph = mk("phi", lid, i)
                if depth == "step" and self.read_loc(st0, root, path).op == "mref":
                    # a reference that moves along: what it refers to is looked at on its own
                    s.mem[("cur", lid, i)] = ph
                    ph = mk("mref", ("cur", lid, i), ())
                self.write_loc(s, root, path, ph)
            hmem = dict(s.mem)
            hfacts = dict(s.facts)
            self.loopctx.append((fr.id, h, hmem))
            self.general += 1
            try:
                res = self.run(fr, h, s, region=blocks, header=h)
            finally:
                self.general -= 1
                self.loopctx.pop()
            new = []
            bdiffs = []
            for r in res:
                if r[0] != "back":
                    continue
                ds = []
                for root, v0 in hmem.items():
                    if root[0] == "cur":
                        continue
                    v1 = r[1].mem.get(root)
                    if v1 is not None and v1 is not v0:
                        for p in diff(v0, v1, ()):
                            ds.append((root, p))
                bdiffs.append((r[1], ds))
            osplit = set(split)
            if depth not in (None, "step"):
                hst = State(hmem, {})
                for bs, ds in bdiffs:
                    for c in ds:
                        if c in ban:
                            continue
                        if self.phasediff(self.read_loc(hst, *c), self.read_loc(bs, *c), fr, c):
                            split.add(c)
                for c in list(split):
                    v0 = self.read_loc(hst, *c)
                    for bs, ds in bdiffs:
                        v1 = self.read_loc(bs, *c)
                        if not (v1 is v0 or v0.op == "adt" == v1.op and v0.a[0] == v1.a[0] or v0.op == "int" == v1.op):
                            split.discard(c)
                            ban.add(c)
                            break
            shifts = []
            for bs, ds in bdiffs:
                if any(self.phasediff(self.read_loc(hst, *c), self.read_loc(bs, *c), fr, c) for c in split):
                    shifts.append(bs)
                else:
                    new += ds
            cand = set(locs) | set((r, p) for r, p in new)
            # keep minimal prefixes
            keep = [c for c in cand if not any(o != c and o[0] == c[0] and c[1][:len(o[1])] == o[1] for o in cand)]
            keep.sort(key=lambda x: repr(x[0]) + repr([(k if not isV(k[1]) else (k[0], k[1].id)) for k in x[1]]))
            if set(keep) == set(locs) and osplit == split:
                break
            # a phi whose next values are itself only is no phi
            locs = keep
        else:
            raise Limit("loop in " + fr.body.path)
        phis = [mk("phi", lid, i) for i in range(len(locs))]
        sids = set(id(x) for x in shifts)
        if depth == "step":
            # one turn from any state
            return LoopInfo(lid, fr, h, locs, phis, [self.read_loc(st0, *l) for l in locs], None, st0, hfacts), res, [r[1] for r in res if r[0] == "back"]
        if shifts and depth >= 4:
            raise Phases()
        backs = [r[1] for r in res if r[0] == "back" and id(r[1]) not in sids]
        inits = [self.read_loc(st0, *l) for l in locs]
        nexts = []
        for bs in backs:
            delta = {k: v for k, v in bs.facts.items() if hfacts.get(k) != v and not junk(k)}
            nexts.append((delta, [self.read_loc(bs, *l) for l in locs]))
        info = LoopInfo(lid, fr, h, locs, phis, inits, nexts, st0, hfacts)
        self.loopinfo[lid] = info
        # driver: position inside an iterator
        unify = {}
        poss = []
        for i, (root, path) in enumerate(locs):
            if path and path[-1][0] == "arg":
                parent = self.read_loc(st0, root, path[:-1])
                if all(n[1][i] is Add(phis[i], Int(1)) for n in nexts):
                    poss.append((i, parent))
        if poss:
            i0 = poss[0][0]
            for i, par in poss[1:]:
                if inits[i] is inits[i0]:
                    unify[phis[i]] = phis[i0]
                else:
                    unify[phis[i]] = Add(phis[i0], Sub(inits[i], inits[i0]))
            info.p = phis[i0]
            info.init = inits[i0]
            drv = []
            for i, par in poss:
                if par.op == "it_seq":
                    drv.append(par.a[0])
                elif par.op == "it_range":
                    drv.append(mk("range", inits[i], par.a[1]))
            info.drivers = tuple(dict.fromkeys(drv))
        else:
            info.p = None
            info.drivers = ()
        if info.p is None:
            # counting loops: i = init; while i < n { .. i += 1 }
            for i, ph in enumerate(phis):
                if nexts and all(n[1][i] is Add(ph, Int(1)) for n in nexts):
                    guards = [k for k in nexts[0][0] if k.op == "lt" and k.a[0] is ph and nexts[0][0][k][0] == 1
                              and all(k in n[0] and n[0][k][0] == 1 for n in nexts)]
                    for g in guards:
                        info.p, info.init = ph, inits[i]
                        n = g.a[1]
                        info.drivers = (n.a[0],) if n.op == "len" and inits[i] is Int(0) else (mk("range", inits[i], n),)
                        info.count_bound = n
                        break
                    if info.p is not None:
                        break
        # a number that changes in step with the length of a sequence
        for i, ph in enumerate(phis):
            c = self.constant_step(nexts, i, ph) if info.p is None and not shifts and ph not in unify else None
            if not c:
                continue
            for j, seq in enumerate(phis):
                d = self.constant_step(nexts, j, seq, Len) if j != i else None
                if d and c % d == 0:
                    unify[ph] = Add(inits[i], Mul(Int(c // d), Sub(Len(seq), Len(inits[j]))))
                    break
        out = []
        cont = []
        if info.p is None and nexts and not shifts:
            res = self.countdown(info, res)
        for r in res:
            if r[0] == "back" and id(r[1]) not in sids:
                continue
            s = r[2] if r[0] == "exit" else r[1]
            m = self.closed_forms(info, unify, s)
            if s.facts is None:
                continue
            for mm in (unify, m):
                if mm:
                    memo = {}
                    s.mem = {k: subst(v, mm, memo) for k, v in s.mem.items()}
                    s.facts = substfacts(s, mm)
                    if s.facts is None:
                        break
                    if r[0] == "panic":
                        r[2].ops = tuple(subst(o, mm) for o in r[2].ops)
            if s.facts is None:
                continue
            if r[0] == "back":
                cont.append(s)
            else:
                out.append(r)
        for s in merge_states(cont):
            out += self.do_phase(fr, h, s, blocks, depth + 1)
        return out

    def phasediff(self, v0, v1, fr, c):
        if v0 is v1:
            return False
        if v0.op == "adt" and v1.op == "adt":
            return v0.a[0] == v1.a[0] and v0.a[1] != v1.a[1]
        if v0.op == "int" and v1.op == "int" and v0.a[0] in (0, 1) and v1.a[0] in (0, 1) and not c[1] and c[0][0] == fr.id:
            return fr.body.types[fr.body.j["locals"][c[0][1]]]["k"] == "bool"
        return False

    def constant_step(self, nexts, i, ph, of=lambda t: t):
        """by how much a variable of a loop changes in every turn, if that is constant"""
        steps = set(Sub(of(n[1][i]), of(ph)) if n[1][i].op == ("lin" if of is not Len else "cat") else None for n in nexts)
        if len(steps) != 1:
            return None
        s, = steps
        return s.a[0] if s is not None and s.op == "int" and s.a[0] else None

    def countdown(self, info, res):
        """closed forms of a loop that has no driver, whose variables all change by constant steps: the number of turns is
        solved from the condition under which a turn goes on"""
        n = mk("trip", info.lid)
        forms = {}
        for i, ph in enumerate(info.phis):
            vs = set(v[1][i] for v in info.nexts)
            if len(vs) != 1:
                return res
            v, = vs
            i0 = info.inits[i]
            if v.op == "lin" and dict(v.a[1]).get(ph) == 1 and Sub(v, ph) in (Int(1), Int(-1)):
                forms[ph] = lambda k, i0=i0, c=Sub(v, ph).a[0]: Add(i0, Mul(Int(c), k))
            elif v is SubSeq(ph, Int(0), Sub(Len(ph), Int(1))):
                forms[ph] = lambda k, i0=i0: SubSeq(i0, Int(0), Sub(Len(i0), k))
            else:
                return res
        if not forms:
            return res
        # what holds whenever a turn goes on
        going = dict(info.nexts[0][0])
        for c, _ in info.nexts[1:]:
            going = {t: f for t, f in going.items() if c.get(t) == f}
        going = {t: f for t, f in going.items() if t.op != "int"}

        def at(k):
            return {ph: f(k) for ph, f in forms.items()}

        def turn(s, k):
            """assume that turn k went on; False if contradictory"""
            m = at(k)
            for t, f in going.items():
                t2 = subst(t, m)
                if not s.narrow(t2, f[0], f[1]) if f[0] != f[1] or t2.op not in ("lt", "eq", "bool", "has") else not s.assume(t2, f[0]):
                    return False
            return True

        def apply(s, k):
            m = at(k)
            memo = {}
            s.mem = {a: subst(v, m, memo) for a, v in s.mem.items()}
            s.facts = substfacts(s, m)
            return m if s.facts is not None else None

        def solve(s):
            """the turn at which the condition to go on fails for the first time"""
            m = at(n)
            for t, f in s.facts.items():
                if not contains(t, lambda x: x in forms):
                    continue
                t2 = subst(t, m)
                if t2.op == "lin" or t2.op == "trip":
                    d = t2
                    if f[0] == f[1] and abs(linparts(d)[1].get(n, 0)) == 1:
                        k = linparts(d)[1][n]
                        return Sub(n, Mul(Int(k), Sub(d, Int(f[0]))))
                g = going.get(t)
                if t2.op == "lt" and f[0] == f[1] and g is not None and g[0] == g[1] != f[0]:
                    d = Sub(t2.a[1], t2.a[0])       # holds iff d > 0
                    k = linparts(d)[1].get(n, 0)
                    d0 = Sub(d, Mul(Int(k), n))
                    if f[0] == 1 and k == 1:
                        return Sub(Int(1), d0)
                    if f[0] == 0 and k == -1:
                        return d0
                    return None
                if t2.op == "eq" and f[0] == f[1] == 1:
                    d = Sub(t2.a[1], t2.a[0])
                    k = linparts(d)[1].get(n, 0)
                    if abs(k) == 1:
                        return Sub(n, Mul(Int(k), d))
            return None
        out = []
        for r in res:
            if r[0] == "back":
                continue
            s = r[2] if r[0] == "exit" else r[1]
            k = solve(s)
            if k is None or contains(k, lambda x: x in forms):
                return res
            for first in (True, False):
                s2 = s.copy()
                if not first:
                    if not s2.assume(Lt(Int(0), k), 1) or not turn(s2, Int(0)) or not turn(s2, Sub(k, Int(1))):
                        continue
                m = apply(s2, Int(0) if first else k)
                if m is None or not s2.feasible():
                    continue
                if r[0] == "panic":
                    pi = copy.copy(r[2])
                    pi.ops = tuple(subst(o, m) for o in pi.ops)
                    out.append(("panic", s2, pi) + tuple(r[3:]))
                elif r[0] == "exit":
                    out.append((r[0], r[1], s2) + tuple(r[3:]))
                else:
                    out.append((r[0], s2) + tuple(subst(x, m) if isV(x) else x for x in r[2:]))
        return out

    def closed_forms(self, info, unify, s):
        """phi -> closed form at this exit; adds what the loop established to the facts"""
        m = {}
        if info.p is None or not info.drivers:
            return m
        p = info.p
        drv, init = info.drivers, info.init
        ex = None
        for d in drv:
            n = d.a[1] if d.op == "range" else Len(d)
            if s.ev(Lt(subst(p, unify), n)) == 0:
                ex = n
                break
        posset = {p} | set(unify)
        ps = set(info.phis) - posset
        guards = set(Lt(p, d.a[1] if d.op == "range" else Len(d)) for d in drv)
        backs = []
        for delta, vals in info.nexts:
            conds = {}
            for t, f in delta.items():
                t = subst(t, unify)
                if t.op == "int" or t in guards or (t.op == "lt" and t.a[0] is p):
                    continue
                conds[t] = f
            backs.append((conds, [subst(v, unify) for v in vals]))
        k = 1 + max([level(x) for x in drv] + [level(init)] + [level(t) for c, vs in backs for t in c]
                    + [level(v) for c, vs in backs for v in vs] + [-1])
        iv = Iv(k)
        pm = {p: iv}
        prefix = {}

        def free(x):
            return contains(x, lambda y: y in ps and y not in prefix)

        def close(x):
            return subst(subst(x, prefix), pm) if prefix else subst(x, pm)

        forms = {}
        todo = [i for i, ph in enumerate(info.phis) if ph in ps]
        progress = True
        while todo and progress:
            progress = False
            for i in list(todo):
                f = self.recurrence(info.phis[i], [(c, v[i]) for c, v in backs], free)
                if f is None:
                    continue
                kind, cases = f
                stuffs = set(x for _, x in cases)
                if any(free(x) for x in stuffs):
                    continue
                if len(stuffs) == 1:
                    dd = close(cases[0][1])
                elif any(free(t) for c, _ in cases for t in c):
                    continue
                else:
                    dd = dd_build([({close(t): g for t, g in c.items()}, close(x)) for c, x in cases],
                                  Int(0) if kind in ("fsum", "sat") else EMPTY)
                todo.remove(i)
                progress = True
                ph, i0 = info.phis[i], info.inits[i]

                def form(bound, kind=kind, dd=dd, i0=i0, k=k):
                    if kind == "fsum":
                        return Add(i0, mkbind("fsum", drv, init, bound, dd, k))
                    if kind == "sat":
                        return Sat(Add(i0, mkbind("fsum", drv, init, bound, dd, k)))
                    fm = mkbind("fm", drv, init, bound, dd, k)
                    if kind == "fm":
                        return Cat(i0, fm)
                    if kind == "fmfront":
                        return Cat(Rev(fm), i0)
                    return LastOf(Cat(Seq(i0), fm))
                forms[ph] = form
                # inside: what it is before the turn with the index variable; a binder of its own level
                prefix[ph] = form(mk("upto", iv))
                if level(prefix[ph]) >= k:
                    # the enclosing binder moves one level up
                    k2 = level(prefix[ph]) + 1
                    prefix[ph] = subst(prefix[ph], {iv: Iv(k2)})
                    for q in prefix:
                        prefix[q] = subst(prefix[q], {iv: Iv(k2)})
                    k, iv = k2, Iv(k2)
                    pm = {p: iv}
        # the turns that went on
        going = None
        if not any(free(t) for c, _ in backs for t in c):
            going = dd_build([({close(t): g for t, g in c.items()}, TRUE) for c, _ in backs], FALSE)
        if ex is not None:
            bound = ALL
            if drv[0].op == "range":
                m[p] = ex if init is Int(0) else mk("rangeend", init, ex)
            else:
                m[p] = ex
            if going is not None and going is not TRUE:
                t = mkbind("allc", drv, init, ALL, going, k)
                f = s.facts.get(t)
                if f is not None and f[1] == 0:
                    s.facts = None
                    return m
                s.facts[t] = (1, 1, frozenset())
        else:
            if going is None or going is TRUE:
                pe = p
            else:
                pe = mkbind("first", drv, init, ALL, going, k)
                t = mkbind("allc", drv, init, ALL, going, k)
                f = s.facts.get(t)
                if f is not None and f[0] == 1:
                    s.facts = None
                    return m
                s.facts[t] = (0, 0, frozenset())
                m[p] = pe
            bound = mk("upto", pe)
        for ph, form in forms.items():
            m[ph] = form(bound)
        return m

    def recurrence(self, ph, nexts, free):
        """(kind, [(conditions, contribution)]) of a loop variable"""
        kind, cases = None, []
        simple = []
        for c, v in nexts:
            if v is ph:
                simple.append((c, None, EMPTY))
            elif v.op == "cat" and v.a[0] is ph:
                simple.append((c, "fm", Cat(*v.a[1:])))
            elif v.op == "cat" and v.a[-1] is ph:
                simple.append((c, "fmfront", Cat(*v.a[:-1])))
            elif v.op == "lin" and dict(v.a[1]).get(ph) == 1:
                simple.append((c, "fsum", Sub(v, ph)))
            elif v.op == "sat" and linparts(v.a[0])[1].get(ph) == 1 and v.a[1] == UMAX:
                simple.append((c, "sat", Sub(v.a[0], ph)))
            elif not contains(v, lambda x: x is ph):
                simple.append((c, "last", Seq(v)))
            else:
                return None
        kinds = set(k for _, k, _ in simple if k)
        if kinds == {"fsum", "last"}:
            # saturating by hand
            out = []
            for c, k, x in simple:
                if k == "last" and x.a[0] is Int(UMAX):
                    g = [t for t in c if t.op == "lin" and dict(t.a[1]).get(ph) == 1 and c[t][0] > UMAX]
                    g2 = [t for t in c if t.op == "lt" and t.a[0].op == "int" and t.a[0].a[0] == UMAX and linparts(t.a[1])[1].get(ph) == 1]
                    if len(g) == 1:
                        c = {t: f for t, f in c.items() if t is not g[0]}
                        out.append((c, Sub(g[0], ph)))
                        continue
                    return None
                elif k == "last":
                    return None
                else:
                    c = {t: f for t, f in c.items() if not (t.op == "lin" and dict(t.a[1]).get(ph) == 1 and f[1] <= UMAX)}
                    out.append((c, Int(0) if k is None else x))
            return "sat", out
        if len(kinds) != 1:
            return None
        kind, = kinds
        zero = Int(0) if kind in ("fsum", "sat") else EMPTY
        return kind, [(c, zero if k is None else x) for c, k, x in simple]


def mentions_phi(s):
    return any(not junk(t) and contains(t, isphi) for t in s.facts) or any(contains(v, isphi) for v in s.mem.values())


def isphi(x):
    return x.op == "phi"


def prefix_crate(d, pre):
    """give the loop models' own items a name of their own"""
    def go(x):
        if isinstance(x, dict):
            if x.get("local") is True and "decl" in x:
                for k in ("decl", "path"):
                    x[k] = pre + x[k]
            for y in x.values():
                go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    for b in d["bodies"]:
        if b["local"]:
            go(b["blocks"])
            b["path"] = pre + b["path"]
            b["key"] = b["path"]
            b["local"] = False
    for t in d["types"]:
        if t and t.get("k") == "adt" and t.get("local"):
            t["adt"] = pre + t["adt"]


class Phases(Exception):
    pass


class LoopInfo:
    def __init__(self, lid, fr, h, locs, phis, inits, nexts, st0, hfacts):
        self.lid, self.fr, self.h, self.locs, self.phis, self.inits, self.nexts = lid, fr, h, locs, phis, inits, nexts
        self.st0, self.hfacts = st0, hfacts
        self.count_bound = None

    def exhausted(self, s, m):
        return self.p is not None and self.p in m


def substfacts(s, m):
    out = {}
    changed = []
    memo = {}
    for t, f in s.facts.items():
        t2 = subst(t, m, memo)
        if t2.op == "int":
            if not (f[0] <= t2.a[0] <= f[1]) or t2.a[0] in f[2]:
                return None
            continue
        if t2 in out:
            o = out[t2]
            f = (max(o[0], f[0]), min(o[1], f[1]), o[2] | f[2])
            if f[0] > f[1]:
                return None
        if t2 is not t and t2.op in ("lt", "eq"):
            changed.append(t2)
        out[t2] = f
    if changed:
        st = State({}, out)
        for t in changed:
            f = out.pop(t)
            if not st.assume(t, f[0]):
                return None
            out[t] = f
    return out




def escaping(v):
    out = set()
    for x in subterms(v):
        if x.op == "mref":
            out.add(x.a[0])
    return out


def diff(a, b, path):
    """paths at which b differs from a"""
    if a is b:
        return []
    if a.op == b.op:
        if a.op == "adt" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            return [p for i, (x, y) in enumerate(zip(a.a[2], b.a[2])) for p in diff(x, y, path + ((a.a[1], i),))]
        if a.op == "tup" and len(a.a) == len(b.a):
            return [p for i, (x, y) in enumerate(zip(a.a, b.a)) for p in diff(x, y, path + ((0, i),))]
        if a.op == "clo" and a.a[0] == b.a[0]:
            return [p for i, (x, y) in enumerate(zip(a.a[1], b.a[1])) for p in diff(x, y, path + ((0, i),))]
        if a.op in STRUCT_OPS and len(a.a) == len(b.a):
            out = []
            for i, (x, y) in enumerate(zip(a.a, b.a)):
                if isV(x) and isV(y):
                    out += diff(x, y, path + (("arg", i),))
                elif x != y:
                    return [path]
            return out
    def chain(v):
        ks = set()
        while v.op == "upd" and isinstance(v.a[1][0], int):
            ks.add(v.a[1])
            v = v.a[0]
        return v, ks
    ba, ka = chain(a)
    bb, kb = chain(b)
    if (ka or kb) and ba is bb:
        out = []
        for k in sorted(ka | kb):
            out += diff(Fld(a, k), Fld(b, k), path + (k,))
        return out
    return [path]


class PanicInfo:
    def __init__(self, fr, line, kind, ops):
        self.body, self.line, self.kind, self.ops = fr.body, line, kind, ops
        self.chain = []
        f = fr
        while f is not None:
            self.chain.append(f.body.path)
            f = f.caller[0] if f.caller else None

    def __repr__(self):
        return "%s:%s %s in %s %s" % (self.body.j["file"], self.line, self.kind, self.body.path, [show(o) for o in self.ops])


class Fn:
    """a callee (hashable by identity of its json)"""
    _tab = {}

    def __new__(cls, c, types):
        k = (id(c))
        f = cls._tab.get(k)
        if f is None:
            f = object.__new__(cls)
            f.c, f.types = c, types
            cls._tab[k] = f
        return f

    def ret_type(self, eng):
        b = eng.bodies.get(self.c.get("body"))
        if b is not None:
            return b.types[b.j["locals"][0]]
        return None

    def __repr__(self):
        return "fn<" + self.c["path"] + ">"

    def __deepcopy__(self, memo):
        return self


class Call:
    def __init__(self, eng, st, f, args, fr, line, dty, atys):
        self.eng, self.st, self.f, self.args, self.fr, self.line, self.dty, self.atys = eng, st, f, args, fr, line, dty, atys
        self.c = f.c
        self.name = f.c["path"]
        self.decl = f.c["decl"]

    def val(self, i):
        return self.eng.deref(self.st, self.args[i])

    def ok(self, v):
        return [("ok", self.st, v)]

    def set(self, i, v):
        """write through the (mutable reference) argument i"""
        a = self.args[i]
        n = 0
        while a.op == "mref":
            cur = self.eng.read_loc(self.st, a.a[0], a.a[1])
            if cur.op == "mref":
                a = cur
                continue
            self.eng.write_loc(self.st, a.a[0], a.a[1], v)
            return True
        return False

    def place(self, i):
        """innermost mutable reference of argument i, or None"""
        a = self.args[i]
        while a.op == "mref":
            cur = self.eng.read_loc(self.st, a.a[0], a.a[1])
            if cur.op == "mref":
                a = cur
                continue
            return a
        return None

    def panic(self, st, kind, *ops):
        return ("panic", st, PanicInfo(self.fr, self.line, kind, ops))
