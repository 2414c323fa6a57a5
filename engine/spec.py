"""Deciding stated results against the summaries of the analysis."""
from .terms import *
from . import terms as T, vf, conc, models
import json, os, signal, sys, time
from .vf import State, Frame

OPT, RES = models.OPT, models.RES


class Missing(Exception):
    """an anchor of a property does not exist any more"""


class Infeasible(Exception):
    pass


COLLECT = {"path": "core::iter::traits::iterator::Iterator::collect", "decl": "core::iter::traits::iterator::Iterator::collect", "name": "collect", "args": [], "kind": "item"}


class Path:
    def __init__(self, kind, st, val, outs, panic=None):
        self.kind, self.st, self.val, self.outs, self.panic = kind, st, val, outs, panic
        self.binders, self.focus = None, {}
        self.turn = True        # a turn of a loop, or follows one: starts from any state


class Finding:
    def __init__(self, prop, where, what, key, detail):
        self.prop, self.where, self.what, self.key, self.detail = prop, where, what, key, detail


class Lab:
    """one analysed program and the obligations decided on it"""

    def __init__(self, dumps):
        self.dumps = dumps
        self.eng = None
        self.findings = []
        self.undecided = []
        self.sites = []
        self.tier = "quick"
        self.audit, self.walked = None, {}          # in the thorough tier: equations to be tried on instances, conditions of the paths
        self.proved = 0
        self.stats = {"functions": set(), "paths": 0, "obligations": 0, "proved": 0, "instances_checked": 0, "undecided": 0, "steps": 0}
        self.prop = None
        self.bypath = {}
        self.deadline = None        # no search for instances after this
        self.found = set()
        self.pending = {}
        self.eqmemo, self.partmemo, self.once, self.memo = {}, {}, {}, {}
        self.base = State()
        self.nrun = 0
        self.override, self.every = None, False     # another rule for all paths; obligations of every property

    def parts(self, t):
        r = self.partmemo.get(t)
        if r is None:
            r = self.partmemo[t] = frozenset(subterms(t))
        return r

    def engine(self):
        e = vf.Engine(self.dumps)
        self.eqmemo, self.partmemo, self.once = {}, {}, {}
        self.eng = e
        self.bypath = {}
        for b in e.bodies.values():
            self.bypath.setdefault(models.norm(b.path), []).append(b)
        return e

    # ------------------------------------------------------------ anchors
    def fn(self, path):
        if isinstance(path, vf.Body):
            return path
        l = self.bypath.get(path) or self.bypath.get(models.norm(path))
        if not l:
            raise Missing("function " + path)
        return l[0]

    def has_fn(self, path):
        return bool(self.bypath.get(path) or self.bypath.get(models.norm(path)))

    def field(self, v, adt, name, variant=None):
        try:
            return self.eng.f(v, adt, name, variant)
        except KeyError:
            raise Missing("field %s of %s" % (name, adt))

    def adt(self, path, vname, *fields):
        try:
            return self.eng.adt(path, vname, *fields)
        except KeyError:
            raise Missing("variant %s of %s" % (vname, path))

    def struct(self, path, /, **fields):
        """a value of a struct type with the given fields, in the declared order"""
        if path not in self.eng.adts:
            raise Missing("type " + path)
        fs = self.eng.variants(path)[0]["fields"]
        if set(f[0] for f in fs) != set(fields):
            raise Missing("fields of " + path)
        return Adt(path, 0, [fields[f[0]] for f in fs])

    # ------------------------------------------------------------ summaries
    def run(self, path, args, facts=(), opaque=None, maxsteps=300000, collect=None):
        """all paths of a function; args: terms, ('mut', term) for &mut parameters"""
        e = self.eng
        b = self.fn(path)
        self.lastargs = args
        self.roots = roots = []
        self.stats["functions"].add(models.norm(b.path))
        st = State()
        fr = Frame(b, e.newframe())
        for i, a in enumerate(args):
            if isinstance(a, tuple) and a[0] == "writer":
                # a writer into an empty vector, which is the output
                r, w = ("arg", e.newframe()), ("arg", e.newframe())
                st.mem[r] = EMPTY
                st.mem[w] = mk("writer", mk("mref", r, ()))
                roots.append(r)
                a = mk("mref", w, ())
            elif isinstance(a, tuple) and a[0] == "muts":
                # a tuple of mutable references
                rs = [("arg", e.newframe()) for _ in a[1:]]
                for r, v in zip(rs, a[1:]):
                    st.mem[r] = v
                roots.append(None)
                roots += rs
                a = mk("tup", *[mk("mref", r, ()) for r in rs])
            elif isinstance(a, tuple):
                r = ("arg", e.newframe())
                st.mem[r] = a[1]
                roots.append(r)
                a = mk("mref", r, ())
            else:
                roots.append(None)
            st.mem[(fr.id, i + 1)] = a
        if isinstance(facts, dict):
            st = assume_all(st, facts)
            if st is None:
                raise Infeasible()
        else:
            for t, v in facts:
                if not st.assume(t, v):
                    raise Infeasible()
        self.base = State({}, vf.Facts(st.facts))
        self.nrun += 1
        e.stack = [b.key]
        e.loopctx = []
        s0 = e.steps
        e.MAXSTEPS = e.steps + maxsteps
        old = e.opaque_fn
        if opaque:
            e.opaque_fn = opaque
        try:
            rs = e.run(fr, 0, st)
        finally:
            e.opaque_fn = old
        self.stats["steps"] += e.steps - s0
        out = []
        for r in rs:
            if r[0] == "ret":
                s = r[1]
                if collect is not None:
                    out += self.collected(fr, b, s, collect, roots)
                    continue
                v = e.snapshot(s, s.mem.get((fr.id, 0), UNIT))
                outs = [None if x is None else e.snapshot(s, s.mem.get(x, UNIT)) for x in roots]
                p = Path("ret", State({}, s.facts), v, outs)
                p.focus = {k: e.snapshot(s, x) for k, x in s.mem.items() if k[0] == "cur"}
                out.append(p)
            elif r[0] == "panic":
                s = r[1]
                out.append(Path("panic", State({}, s.facts), None, [None if x is None else e.snapshot(s, s.mem.get(x, UNIT)) for x in roots], r[2]))
        for p in out:
            p.turn = e.stepfn is not None or e.stepping is not None
        if e.stepfn is None and e.stepping is None and not e.unroll:
            # where a loop without a closed form plays a part: the executions in which it makes a few turns
            vague = [p for p in out if any(v is not None and T.contains(v, vf.isphi) for v in [p.val] + p.outs) or any(not vf.junk(t) and T.contains(t, vf.isphi) for t in p.st.facts)]
            if vague:
                gone = set(map(id, vague))
                out = [p for p in out if id(p) not in gone]
                e.unroll, e.cut_off = 3, 0
                try:
                    out += self.run(path, args, facts, opaque, maxsteps, collect)
                finally:
                    e.unroll = 0
                self.undecided.append((models.norm(b.path), "loop", "no closed form is known for a loop: executions in which it makes a few turns only"))
                self.stats["undecided"] += 1
                return out
        self.stats["paths"] += len(out)
        return out

    def collected(self, fr, b, s, path, roots):
        """the result with the iterator at the place (field keys) in it run to its end, as a sequence"""
        e = self.eng
        rs = self.run_out(fr, b, s, e.read_loc(s, (fr.id, 0), path))
        out = []
        for r in rs:
            if r[0] == "ok":
                e.write_loc(r[1], (fr.id, 0), path, r[2])
                v = e.snapshot(r[1], r[1].mem.get((fr.id, 0), UNIT))
                out.append(Path("ret", State({}, r[1].facts), v, [None if x is None else e.snapshot(r[1], r[1].mem.get(x, UNIT)) for x in roots]))
            elif r[0] == "panic":
                out.append(Path("panic", State({}, r[1].facts), None, [None for x in roots], r[2]))
        return out

    def run_out(self, fr, b, s, it):
        """[(outcome, state, elements)] of an iterator run to its end"""
        e = self.eng
        while it.op == "adt" and it.a[0].endswith("either::Either"):
            it = it.a[2][0]         # goes on as the one it holds
        it = models.as_iter(it)
        if it.op == "it_chain":
            out = []
            for r in self.run_out(fr, b, s, it.a[0]):
                if r[0] != "ok":
                    out.append(r)
                    continue
                for q in self.run_out(fr, b, r[1], it.a[1]):
                    out.append(("ok", q[1], Cat(r[2], q[2])) if q[0] == "ok" else q)
            return out
        if it.op == "it_take":
            out = []
            for r in self.run_out(fr, b, s, it.a[0]):
                if r[0] != "ok":
                    out.append(r)
                    continue
                for s2, cut in models.branch(r[1], Lt(it.a[1], Len(r[2]))):
                    out.append(("ok", s2, SubSeq(r[2], Int(0), it.a[1]) if cut else r[2]))
            return out
        cx = vf.Call(e, s, vf.Fn(COLLECT, b.types), [it], fr, 0, None, None)
        q = models.iter_seq(cx, it)
        if q is not None:
            return [("ok", s, q)]
        return e.inline(s, e.bodies[models.RUST + "collect"], [it], fr, 0)

    def merge(self, paths):
        """paths with the same outcome whose facts differ in one term only become one"""
        groups, rest = {}, []
        for p in paths:
            if p.kind == "ret":
                groups.setdefault((p.val, tuple(p.outs)), []).append(p)
            else:
                rest.append(p)
        out = []
        for (v, o), g in groups.items():
            for s in vf.merge_states([p.st for p in g]):
                out.append(Path("ret", s, v, list(o)))
                out[-1].turn = g[0].turn
        return out + rest

    # ------------------------------------------------------------ deciding
    def check(self, where, paths, spec, what=""):
        """run the stated behaviour on every path of the summary; it forks where the path leaves something open"""
        for p in paths:
            if self.audit is not None:
                self.walked.setdefault((where, p.kind), []).append({t: f for t, f in p.st.facts.items() if not vf.junk(t)})
            self.forks(p, self.override or spec, where, what)

    def forks(self, p, spec, where, what, limit=4000):
        todo = [()]
        n = 0
        while todo:
            script = todo.pop()
            n += 1
            if n > limit:
                self.undecided.append((where, what, "too many cases"))
                self.stats["undecided"] += 1
                return
            c = Ctx(self, p, State({}, vf.Facts(p.st.facts)), script, todo, where, what)
            try:
                if propagate(c.st):
                    spec(c)
            except Infeasible:
                pass

    # ------------------------------------------------------------ obligations that the normal forms leave open
    def defer(self, ctx, what, actual, expected, text=""):
        self.pending.setdefault((ctx.where, what), []).append((ctx.facts(), actual, expected, text))
        return None

    def flush(self, workers=8):
        """look for instances that refute the obligations left open; without one they stay undecided"""
        jobs = []           # the first of each kind, then the second of each, ...
        keys = list(self.pending)
        N = 16 * conc.DEEP
        for n in range(N):
            for k in keys:
                l = self.pending[k]
                if n < len(l):
                    jobs.append((k, l[n * len(l) // N if len(l) > N else n], True))
        for k in keys:
            l = self.pending[k]
            tried = set(n * len(l) // N for n in range(N)) if len(l) > N else range(len(l))
            # the others of its kind only as far as the order of the integers decides them
            jobs += [(k, j, False) for n, j in enumerate(l) if n not in tried]
        self.pending = {}
        if not jobs:
            return
        results = self.hunt(jobs, workers)
        for n, (k, (facts, a, b, text), whole) in enumerate(jobs):
            kind, w = results.get(n, ("none", 0))
            if kind == "proved":
                self.stats["proved"] += 1
            elif kind == "found":
                if k not in self.found:
                    self.found.add(k)
                    if a is None:
                        t = text or k[1]
                    elif b is TRUE:
                        t = "%s does not hold: %s" % (k[1], show(a, 8)[:800])
                    else:
                        t = "%s: found %s, stated %s" % (k[1], show(a, 8)[:800], show(b, 8)[:800])
                    self.findings.append(Finding(self.prop, k[0], k[1], "%s|%s|%s" % (self.prop, k[0], k[1]),
                                                 {"problem": t, "path": [fshow(y, f) for y, f in facts.items()][:60], "instance": w}))
            else:
                self.undecided.append(k + ("not shown, no counterexample among %s instances: %s" % (w, "" if a is None else show(a, 5)[:300] + " / " + show(b, 5)[:300]),))
                self.stats["undecided"] += 1
                self.stats["instances_checked"] += w

    def cross_examine(self, workers=8):
        """instances of the paths, and of the equations that hold by more than being the same term"""
        out = {"equations_tried": 0, "instances_of_equations": 0, "disagreements": [], "paths_sampled": 0, "paths_with_an_instance": 0, "paths_shown_infeasible": 0}
        jobs = []
        for k, l in sorted(self.audit.items()):
            for n in range(min(len(l), 12)):
                jobs.append(((k, n), l[n * len(l) // min(len(l), 12)], True))
        res, self.findings, kept = None, [], self.findings
        deep, conc.DEEP = conc.DEEP, 1
        try:
            res = self.hunt(jobs, workers)
            for n, (k, job, _) in enumerate(jobs):
                kind, w = res.get(n, ("none", 0))
                out["equations_tried"] += n in res
                if kind == "found":
                    out["disagreements"].append("%s: %s: %s; %s / %s" % (k[0] + (w, show(job[1], 6)[:300], show(job[2], 6)[:300])))
                elif kind == "none":
                    out["instances_of_equations"] += w
            jobs = []
            for (where, kind), l in sorted(self.walked.items()):
                for n in range(min(len(l), 40)):
                    jobs.append(((where, kind, n), (l[n * len(l) // min(len(l), 40)], None, None, ""), True))
            res = self.hunt(jobs, workers)
            for n, r in res.items():
                out["paths_sampled"] += 1
                out["paths_with_an_instance"] += r[0] == "found"
                out["paths_shown_infeasible"] += r[0] == "proved"
        finally:
            self.findings, conc.DEEP = kept, deep
        return out

    def hunt(self, jobs, workers):
        """jobs in child processes, as forked copies of this one; {number: (kind, witness or count)}"""
        workers = min(workers, len(jobs))
        stop = self.deadline or time.time() + 300
        if self.findings:       # more of the same
            stop = min(stop, time.time() + 10)
        pipes = []
        sys.stdout.flush()
        for w in range(workers):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                try:
                    signal.signal(signal.SIGALRM, late)
                    with os.fdopen(wr, "w") as out:
                        seen = set()
                        for n in range(w, len(jobs), workers):
                            k, (facts, a, b, text), whole = jobs[n]
                            if time.time() > stop:
                                break
                            if k in seen:
                                continue
                            signal.alarm(30 * conc.DEEP)
                            try:
                                r = one(facts, a, b) if whole else order(facts)
                            except TimeoutError:
                                r = ("none", 0)
                            signal.alarm(0)
                            if r[0] == "found":
                                seen.add(k)
                            out.write(json.dumps([n, r]) + "\n")
                            out.flush()
                finally:
                    os._exit(0)
            os.close(wr)
            pipes.append((pid, rd))
        results = {}
        for pid, rd in pipes:
            with os.fdopen(rd) as f:
                for line in f:
                    try:
                        n, r = json.loads(line)
                    except ValueError:
                        continue
                    results[n] = tuple(r)
            os.waitpid(pid, 0)
        return results


def late(*_):
    raise TimeoutError()


def one(facts, a, b):
    try:
        if a is None:
            m = conc.instance(facts)
            return ("none", 0) if m is None else ("found", "the path has an instance")
        w, n = conc.witness(facts, a, b)
        return ("none", n) if w is None else ("found", w)
    except conc.NoPath:
        return ("proved", 0)
    except Exception:
        return ("none", 0)


def order(facts):
    try:
        return ("none", 0) if conc.Zone(facts).feasible else ("proved", 0)
    except Exception:
        return ("none", 0)


def fshow(t, f):
    s = show(t, 8)
    if f[0] == f[1]:
        return "%s = %s" % (s, f[0])
    hi = "" if f[1] >= 1 << 62 else " <= %s" % f[1]
    lo = "" if f[0] <= 0 else "%s <= " % f[0]
    return lo + s + hi + (" not in %s" % sorted(f[2]) if f[2] else "")


class Ctx:
    """one fork of a stated behaviour on one path"""

    def __init__(self, lab, path, st, script, todo, where, what):
        self.lab, self.path, self.st = lab, path, st
        self.script, self.todo, self.pos = script, todo, 0
        self.where, self.what = where, what
        self.eng = lab.eng
        self.val, self.outs = path.val, path.outs
        self.pmap, self.emap = None, None       # of rules that are met through another layer: properties, error -> errors of that layer

    # ---- conditions
    def test(self, t):
        if t.op == "not":
            return not self.test(t.a[0])
        if t.op == "and":
            return all(self.test(x) for x in t.a)
        e = self.st.ev(t)
        if e is None and t.op in ("allc", "eq", "lt"):
            e = self.similar(t)
        if e is not None:
            return bool(e)
        if self.pos < len(self.script):
            v = self.script[self.pos]
        else:
            v = 1
            s2 = self.st.copy()
            if s2.assume(t, 0):
                self.todo.append(self.script[:self.pos] + (0,))
            self.script = self.script[:self.pos] + (1,)
        self.pos += 1
        if not self.st.assume(t, v) or not propagate(self.st):
            raise Infeasible()
        return bool(v)

    def similar(self, t):
        """a fact about a term that is equal, though written differently"""
        for u, f in self.st.facts.items():
            if u.op == t.op and f[0] == f[1] and u is not t and u.op == "allc" and self.same_binder(u, t):
                return f[0]
        return None

    def some(self, v):
        if v.op == "adt":
            return v.a[1] == 1
        return self.test(IsSome(v))

    def is_ok(self, v):
        if v.op == "adt":
            return v.a[3] == "Ok"
        return self.test(Eq(drange(Discr(v), RES), Int(0)))

    def variant(self, v, path):
        """name of the variant of an enum value"""
        if v.op == "adt":
            return v.a[3]
        d = drange(Discr(v), path)
        vs = self.eng.variants(path)
        for x in vs[:-1]:
            if self.test(Eq(d, Int(x["discr"]))):
                return x["name"]
        return vs[-1]["name"]

    def canon(self, t):
        """the way the path itself writes a quantified term"""
        if t.op not in BIND:
            return t
        bs = self.path.binders
        if bs is None:
            seen = {}
            for u in list(self.path.st.facts) + ([self.path.val] if self.path.val is not None else []) + [o for o in self.path.outs if o is not None]:
                for y in subterms(u):
                    if y.op in BIND:
                        seen[y] = 1
            bs = self.path.binders = list(seen)
        if t in bs:
            return t
        for u in bs:
            if u.op == t.op and self.same_binder(u, t):
                return u
        return t

    def settle(self, t):
        """a term with what holds for every element taken into account in what is said of the elements"""
        conds = {}
        for f, r in self.st.facts.items():
            if f.op == "allc" and r[0] == 1:
                ps = [c for c, leaf in T.dd_paths(f.a[3]) if leaf is TRUE]
                if len(ps) == 1:
                    conds[f.a[:3]] = (ps[0], f.a[4])
        for _ in range(6):
            for y in subterms(t):
                if y.op in ("fm", "fsum") and y.a[:3] in conds and y.a[3].op == "dd":
                    c, k = conds[y.a[:3]]
                    m = {Iv(k): Iv(y.a[4])}
                    d = T.dd_under(y.a[3], {T.subst(u, m): f for u, f in c.items()}, T.dd_default(y.op))
                    if d is not y.a[3]:
                        t = T.subst(t, {y: T.mkbind(y.op, y.a[0], y.a[1], y.a[2], d, y.a[4])})
                        break
            else:
                break
        return t

    def settle_facts(self):
        """what is known, also of the settled terms"""
        for t, r in list(self.st.facts.items()):
            if t.op in ("lt", "eq", "len", "lin", "fsum"):
                u = self.settle(t)
                if u is not t and u.op != "int" and not (self.st.assume(u, r[0]) if r[0] == r[1] and t.op in ("lt", "eq") else self.st.narrow(u, r[0], r[1])):
                    raise Infeasible()

    # ---- values
    def field(self, v, adt, name, variant=None):
        return self.lab.field(v, adt, name, variant)

    def unwrap(self, v):
        return Fld(v, (1, 0))

    def same(self, a, b, d=0):
        return same(self.st, a, b, d)

    def same_binder(self, u, t):
        """equality of two quantified terms, under the facts about what they mention"""
        if u.a[0] is not t.a[0] and not same(self.st, u.a[0], t.a[0]) or not same(self.st, u.a[1], t.a[1]):
            return False
        parts = self.lab.parts(u) | self.lab.parts(t)
        rel = tuple((f, r) for f, r in self.st.facts.items()
                    if f in parts or f.op in ("lt", "eq") and all(y.op == "int" or y in parts for y in f.a))
        key = (u, t, rel)
        r = self.lab.eqmemo.get(key)
        if r is None:
            r = self.lab.eqmemo[key] = same(State({}, dict(rel)), u, t)
        return r

    # ---- obligations
    def skip(self, props):
        if self.pmap and props is not None:
            props = [q for p in props for q in self.pmap.get(p, (p,))]
        return props is not None and self.lab.prop is not None and not self.lab.every and self.lab.prop not in props

    def eq(self, actual, expected, what, props=None):
        """obligation: the value is the stated one"""
        lab = self.lab
        if self.skip(props):
            return None
        lab.stats["obligations"] += 1
        if self.same(actual, expected):
            lab.stats["proved"] += 1
            if lab.audit is not None and actual is not expected:
                lab.audit.setdefault((self.where, what or self.what), []).append((self.facts(), actual, expected, ""))
            return True
        what = what or self.what
        if conc.unmodelled(actual) or conc.unmodelled(expected):
            return self.open(what, "a value outside of the analysis: %s" % show(actual, 5)[:300])
        if self.unknown():
            return self.open(what, "path condition outside of the analysis")
        return lab.defer(self, what, actual, expected)

    def vague(self):
        """whether it is known at all when this path is taken"""
        return any(conc.unmodelled(t) for t in self.facts())

    def unknown(self):
        """as vague; the turns of a loop, and what follows it, start from any state: what is open there is so by intent"""
        return not self.path.turn and self.vague()

    def facts(self):
        return {t: f for t, f in self.st.facts.items() if not vf.junk(t)}

    def fail(self, what, text="", props=None):
        """obligation: this path must not exist"""
        lab = self.lab
        if self.skip(props):
            return None
        lab.stats["obligations"] += 1
        if self.vague():
            return self.open(what, "path condition outside of the analysis")
        return lab.defer(self, what, None, None, text)

    def unwrap_ok(self, v):
        return v.a[2][0] if v.op == "adt" else Fld(v, (0, 0))

    def result_is(self, ok, what, props=None):
        """obligation: the result is Ok (or Err)"""
        t = self.val
        if t.op == "adt":
            t = Int(int((t.a[3] == "Ok") == ok))
        else:
            t = Eq(drange(Discr(t), RES), Int(0 if ok else 1))
        return self.holds(t, what + (" is accepted" if ok else " is rejected"), props)

    def accepted(self, what, props=None):
        if self.skip(props):
            return self.is_ok(self.val)
        return self.result_is(True, what, props)

    def rejected(self, errs, what, props=(), eprops=()):
        """obligations: the result is an error; it is one of the stated ones whose condition (if any) holds"""
        if self.emap:
            errs = [(c, e2) for c, e in errs for e2 in self.emap(e)]
        self.result_is(False, what, props)
        if self.skip(eprops):
            return
        for cond, e in errs[1:]:
            if self.same(self.val, models.Err(e)) and (cond is None or cond()):
                return self.good()
        return self.eq(self.val, models.Err(errs[0][1]), "error for " + what, props=eprops)

    def faulty(self, faults, props, eprops, more=None):
        """the first stated reason for a rejection that applies, and its obligations"""
        for i, (cond, err, what) in enumerate(faults):
            if cond():
                rest = []
                e = err()
                if not self.skip(eprops) and not any(self.same(self.val, models.Err(y)) for y in (self.emap(e) if self.emap else [e])):
                    rest = [(f[0], f[1]()) for f in faults[i + 1:] + (more() if more else [])]
                self.rejected([(None, e)] + rest, what, props, eprops)
                return True
        return False

    def holds(self, t, what, props=None):
        """obligation: the condition is true on this path"""
        lab = self.lab
        if self.skip(props):
            return None
        lab.stats["obligations"] += 1
        if self.st.ev(t) == 1:
            lab.stats["proved"] += 1
            return True
        if conc.unmodelled(t):
            return self.open(what, "a value outside of the analysis: %s" % show(t, 5)[:300])
        if self.unknown():
            return self.open(what, "path condition outside of the analysis")
        return lab.defer(self, what, t, TRUE)

    def good(self):
        self.lab.stats["obligations"] += 1
        self.lab.stats["proved"] += 1
        return True

    def open(self, what, why):
        self.lab.undecided.append((self.where, what, why))
        self.lab.stats["undecided"] += 1
        return None


def propagate(st):
    """bounds of sums onto their parts; False if contradictory"""
    sums = [t for t in st.facts if t.op == "lin"]
    for _ in range(3):
        ch = False
        for t in sums:
            lo, hi, _x = st.facts[t]
            parts = [(x, c) + st.rng(x)[:2] for x, c in t.a[1]]
            l = t.a[0] + sum(c * (a if c > 0 else b) for x, c, a, b in parts)
            h = t.a[0] + sum(c * (b if c > 0 else a) for x, c, a, b in parts)
            if l > hi or h < lo:
                return False
            for x, c, a, b in parts:
                if c not in (1, -1):
                    continue
                # c*x = t - the others
                ol, oh = l - c * (a if c > 0 else b), h - c * (b if c > 0 else a)
                nl, nh = (lo - oh, hi - ol) if c > 0 else (ol - hi, oh - lo)
                if nl > a and nl > -vf.INF or nh < b and nh < vf.INF:
                    if not st.narrow(x, max(nl, a), min(nh, b)):
                        return False
                    ch = True
        if not ch:
            break
    return True


# ---------------------------------------------------------------- equality modulo facts
def same(st, a, b, d=0):
    if a is b:
        return True
    if not isV(a) or not isV(b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(same(st, x, y, d) for x, y in zip(a, b))
        return a == b
    if d > 40:
        return False
    if st.facts.get(Eq(a, b), (0, 0))[0] == 1:
        return True
    if a.op == "adt" or b.op == "adt":
        if b.op == "adt" and a.op != "adt":
            a, b = b, a
        if b.op == "adt":
            return a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]) and all(same(st, x, y, d + 1) for x, y in zip(a.a[2], b.a[2]))
        if a.a[3] is None:
            return all(same(st, x, Fld(b, (a.a[1], i)), d + 1) for i, x in enumerate(a.a[2]))
        drange(Discr(b), a.a[0])
        if st.ev(Eq(Discr(b), Discr(a))) != 1:
            return False
        return all(same(st, x, Fld(b, (a.a[1], i)), d + 1) for i, x in enumerate(a.a[2]))
    if a.op == "tup" or b.op == "tup":
        if a.op != "tup":
            a, b = b, a
        return all(same(st, x, Fld(b, (0, i)), d + 1) for i, x in enumerate(a.a))
    if isbool(a) or isbool(b):
        x, y = st.ev(a), st.ev(b)
        if x is not None and y is not None:
            return x == y
    if a.op == "dd" or b.op == "dd":
        return same_dd(st, a, b, d)
    # a diagram below: compare case by case
    if isintlike(a) or isintlike(b):
        if st.ev(Eq(a, b)) == 1:
            return True
        return same_lin(st, a, b, d)
    if isseq(a) or isseq(b):
        na, nb = Len(a), Len(b)
        if st.ev(Eq(na, Int(0))) == 1 and st.ev(Eq(nb, Int(0))) == 1:
            return True
    if a.op == "rev" and b.op == "rev":
        return same(st, a.a[0], b.a[0], d + 1)
    if a.op == "cat" or b.op == "cat":
        xs = [x for x in (a.a if a.op == "cat" else (a,)) if st.ev(Eq(Len(x), Int(0))) != 1]
        ys = [x for x in (b.a if b.op == "cat" else (b,)) if st.ev(Eq(Len(x), Int(0))) != 1]
        if len(xs) == len(ys) == 1:
            if xs[0] is a and ys[0] is b:
                return False
            return same(st, xs[0], ys[0], d + 1)
        return len(xs) == len(ys) and all(same(st, x, y, d + 1) for x, y in zip(xs, ys))
    if a.op == b.op and a.op in BIND:
        if a.a[4] != b.a[4]:
            k = max(a.a[4], b.a[4]) + 50
            da, db = subst(a.a[3], {Iv(a.a[4]): Iv(k)}), subst(b.a[3], {Iv(b.a[4]): Iv(k)})
        else:
            da, db = a.a[3], b.a[3]
        return same(st, a.a[0], b.a[0], d + 1) and same(st, a.a[1], b.a[1], d + 1) and same(st, a.a[2], b.a[2], d + 1) \
            and same(st, da, db, d + 1)
    if a.op == "sub" or b.op == "sub":
        if a.op != "sub":
            a = mk("sub", a, Int(0), Len(a))
        if b.op != "sub":
            b = mk("sub", b, Int(0), Len(b))
        return same(st, a.a[0], b.a[0], d + 1) and same(st, a.a[1], b.a[1], d + 1) and same(st, a.a[2], b.a[2], d + 1)
    if a.op == b.op and len(a.a) == len(b.a) and a.op not in ("sym", "phi"):
        return all(same(st, x, y, d + 1) for x, y in zip(a.a, b.a))
    return False


def isbool(t):
    return t.op in ("eq", "lt", "not", "and", "bool", "has", "allc", "ovf")


def isintlike(t):
    return t.op in ("int", "lin", "len", "mul", "fsum", "sat", "discr", "first", "minlen")


def isseq(t):
    return t.op in ("seq", "bytes", "cat", "sub", "rev", "fm")


def same_lin(st, a, b, d):
    if a.op == b.op and a.op in ("sat", "len", "mul", "discr", "minlen") or (a.op == b.op and a.op in BIND):
        if a.op in BIND:
            ka, kb = a.a[4], b.a[4]
            da, db = a.a[3], b.a[3]
            if ka != kb:
                k = max(ka, kb) + 50
                da, db = subst(da, {Iv(ka): Iv(k)}), subst(db, {Iv(kb): Iv(k)})
            return all(same(st, x, y, d + 1) for x, y in zip(a.a[:3], b.a[:3])) and same(st, da, db, d + 1)
        return all(same(st, x, y, d + 1) for x, y in zip(a.a, b.a))
    if a.op == "sat" and st.ev(Lt(Int(a.a[1]), a.a[0])) == 0:
        return same(st, a.a[0], b, d + 1)
    if b.op == "sat" and st.ev(Lt(Int(b.a[1]), b.a[0])) == 0:
        return same(st, a, b.a[0], d + 1)
    for x, y in ((a, b), (b, a)):
        if x.op == "sat" and st.ev(Lt(Int(x.a[1]), x.a[0])) == 1 and st.ev(Eq(y, Int(x.a[1]))) == 1:
            return True
    c, p = linparts(Sub(a, b))
    if c or a.op != "lin" and b.op != "lin":
        return False
    pos = [t for t, n in p.items() if n == 1]
    neg = [t for t, n in p.items() if n == -1]
    if len(pos) != len(neg) or len(pos) + len(neg) != len(p):
        return False
    for t in pos:
        for u in neg:
            if same(st, t, u, d + 1):
                neg.remove(u)
                break
        else:
            return False
    return True


def same_dd(st, a, b, d):
    for ca, xa in dd_paths(a):
        s1 = assume_all(st, ca)
        if s1 is None:
            continue
        for cb, xb in dd_paths(b):
            s2 = assume_all(s1, cb)
            if s2 is None:
                continue
            if not same(s2, xa, xb, d + 1):
                return False
    return True


def assume_all(st, conj):
    s = st.copy()
    for t, f in conj.items():
        if not assume_range(s, t, f):
            return None
    return s


def assume_range(s, t, f):
    if f[0] == f[1]:
        return s.assume(t, f[0])
    v = s.ev(t)
    if v is not None:
        return f[0] <= v <= f[1] and v not in f[2]
    if not s.narrow(t, f[0], f[1]):
        return False
    return all(s.exclude(t, x) for x in f[2])
