"""Deciding obligations on the abstract states of a root.

Every obligation is one of
  proved   entailed on every abstract path (the abstraction covers all runs)
  refuted  some path that is not an approximation violates it and the path
           condition has a concrete instance (printed as the witness)
  unknown  neither; never reported as a violation
"""
import os
import time

import numdom as N
from numdom import Lin, K, ZERO, var
from interp import (Interp, SliceV, Ptr, Adt, Sy, Tup, Arr, Clo, Term, It, UNIT, TRUE, FALSE, Give, Fork, ISIZE_MAX, USIZE_MAX, neg)
import natives
import natives_mem


class Ob:
    __slots__ = ("unit", "name", "status", "where", "detail", "n")

    def __init__(self, unit, name, status, where="", detail="", n=1):
        self.unit, self.name, self.status, self.where, self.detail, self.n = unit, name, status, where, detail, n

    def row(self):
        return (self.unit, self.name, self.status, self.where, self.detail, self.n)


OPAQUE_OK = ("contains", "utf8", "exists", "ascii")


def exact_path(st, loops=False):
    """the path condition is exactly what the code tests (no approximation)"""
    if st.imp or (st.loopy and not loops):
        return False
    for k, v in st.facts.items():
        if isinstance(k, tuple) and k and k[0] == "o":
            t = k[1]
            if not (isinstance(t, Term) and t.op in OPAQUE_OK):
                return False
    return True


def fact_check(st):
    """equal arguments give equal answers, also for opaque facts"""
    rel = [(k, v) for k, v in st.facts.items() if isinstance(k, tuple) and k and k[0] == "decodes"]
    if len(rel) < 2:
        return None

    def chk(full):
        seen = {}
        for k, v in rel:
            try:
                kk = k[:4] + tuple(N.evaluate(l, full) for l in k[4:])
            except KeyError:
                continue
            if seen.setdefault(kk, v) != v:
                return False
        return True
    return chk


def instance(st, extra=()):
    """concrete instance of the path condition, or None"""
    ex = [l for k in st.facts if isinstance(k, tuple) and k and k[0] == "decodes" for l in k[4:]]
    w = N.witness(st.rows, st.eqs, st.neqs, tries=500, extra=list(extra) + ex, check=fact_check(st))
    if w is None:
        return None
    base = {s.name: v for s, v in w.items() if s.ev is None and "#" not in s.name}
    return base


class Env:
    def __init__(self, I, mode, unit):
        self.I, self.mode, self.unit = I, mode, unit
        self.res = {}

    def put(self, name, status, where="", detail=""):
        o = self.res.get(name)
        rank = {"proved": 0, "unknown": 1, "refuted": 2}
        if o is None:
            self.res[name] = Ob(self.unit, name, status, where, detail)
        else:
            o.n += 1
            if rank[status] > rank[o.status]:
                o.status, o.where, o.detail = status, where, detail

    def need(self, st, c, name, where=""):
        """the condition holds on this path"""
        try:
            t = st.truth(c)
        except Give:
            t = None
        if t is True:
            return self.put(name, "proved")
        if self.mode == "exact" and exact_path(st):
            for b in st.copy().assume(c, False):
                w = instance(b)
                if w is not None:
                    return self.put(name, "refuted", where, "expected %s; instance %s" % (show(c), brief(w)))
        self.put(name, "unknown", where, "expected %s" % show(c))

    def eq(self, st, a, b, name, where=""):
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.need(st, ("eq", a - b), name, where)
        self.that(st, a == b, name, where, "got %r, expected %r" % (a, b))

    def that(self, st, ok, name, where="", detail=""):
        """structural fact; when it fails the path must be impossible"""
        if ok is True:
            return self.put(name, "proved")
        if ok is None:
            return self.put(name, "unknown", where, detail)
        if st.bad():
            return self.put(name, "proved")
        if self.mode == "exact" and exact_path(st):
            w = instance(st)
            if w is not None:
                return self.put(name, "refuted", where, "%s; instance %s" % (detail, brief(w)))
        self.put(name, "unknown", where, detail)

    def loop_false(self, st, loop, c, name, where="", detail=""):
        """the condition is false on the way out of a generalised loop: a violation
        when nothing but that loop was approximated and the way out has an instance"""
        if st.imp or [e for e in st.ev if e[0] == "loop"] != [("loop", loop["id"])] or not exact_path(st, True) or loop["st0"].loopy or loop["st0"].imp:
            return False
        try:
            if st.truth(c) is not False:
                return False
        except Give:
            return False
        w = instance(st)
        if w is None:
            return False
        self.put(name, "refuted", where, "%s; instance %s" % (detail, brief(w)))
        return True

    def never(self, st, name, where="", detail=""):
        self.that(st, False, name, where, detail)


def show(c):
    return repr(c)[:300]


def brief(w):
    return "{" + ", ".join("%s=%d" % (k[:60], v) for k, v in list(w.items())[:14]) + "}"


def run_root(prog, key, hook, mode, pre=None, args=None):
    I = Interp(prog, mode, hook)
    outs = I.run_root(key, pre, args)
    return I, outs


class TimeUp(BaseException):
    pass


def limit(seconds):
    import signal

    def up(*a):
        raise TimeUp()
    try:
        signal.signal(signal.SIGALRM, up)
        signal.alarm(seconds)
    except ValueError:
        pass


UNIT_SECONDS = 45


def unit_limit():
    """seconds for one unit: little once the whole check has been running for long"""
    end = float(os.environ.get("VERIF_DEADLINE") or 0)
    return UNIT_SECONDS if not end or time.time() < end else 1


def decide(prog, key, hook, rule, pre=None, unit=None, args=None):
    """rule(env, outs): states the obligations of the root on its outcomes"""
    unit = unit or prog.fns[key]["p"]
    res = {}
    stats = {"steps": 0, "calls": 0, "unknown": set(), "fns": set(), "loops": 0, "outs": 0}
    for mode in ("proof", "exact"):
        N.reset()
        env = None
        try:
            limit(unit_limit())
            I = Interp(prog, mode, hook)
            env = Env(I, mode, unit)
            outs = I.run_root(key, pre, args)
            stats["outs"] += len(outs)
            rule(env, outs)
        except TimeUp:
            if mode == "proof":
                res["analysis"] = Ob(unit, "analysis", "unknown", "", "gave up: time")
        except Give as e:
            if mode == "proof":
                res["analysis"] = Ob(unit, "analysis", "unknown", "", "gave up: %s at %s" % (e, [s for _, s in getattr(e, "stack", [])][-3:]))
        except Fork:
            if mode == "proof":
                res["analysis"] = Ob(unit, "analysis", "unknown", "", "undecided value in the rule")
        except Exception as e:
            if mode == "proof":
                if os.environ.get("VERIF_TRACE"):
                    import traceback
                    traceback.print_exc()
                res["analysis"] = Ob(unit, "analysis", "unknown", "", "internal: %r" % (e,))
        limit(0)
        stats["steps"] += I.steps
        stats["calls"] += I.calls_seen
        stats["unknown"] |= I.unknown_calls
        stats["fns"] |= I.fns_seen
        stats["loops"] += sum(1 for l in I.loops_seen if not l["quiet"])
        got = env.res if env else {}
        if mode == "proof":
            res.update(got)
            if res and all(o.status == "proved" for o in res.values()):
                break
        else:
            for n, o in got.items():
                if o.status == "refuted":
                    res[n] = o
    if not res:
        res["analysis"] = Ob(unit, "analysis", "unknown", "", "no outcome")
    return list(res.values()), stats


# ---------------------------------------------------------------- value access

def is_result(I, v):
    if isinstance(v, (Adt, Sy)):
        t = I.T(v.ty)
        return t["k"] == "adt" and t["p"].endswith("result::Result")
    return False


def variant(I, st, v):
    """variant name, or None when it is not decided"""
    if isinstance(v, Adt):
        return I.T(v.ty)["v"][v.var]["n"]
    if isinstance(v, Sy):
        i = st.facts.get(v.name)
        if i is None and len(I.T(v.ty)["v"]) == 1:
            i = 0
        if i is not None:
            return I.T(v.ty)["v"][i]["n"]
    return None


def payload(I, st, v, i=0):
    if isinstance(v, Adt):
        return v.f[i]
    d = st.facts.get(v.name) or 0
    return I.expand(v.ty, v.name, d).f[i]


def fields(I, v):
    """[(type index, value)] of a structure"""
    if isinstance(v, Sy):
        v = I.expand(v.ty, v.name)
    return [(f[1], x) for f, x in zip(I.T(v.ty)["v"][v.var]["f"], v.f)]


def by_type(I, v, pred):
    r = [x for t, x in fields(I, v) if pred(I.T(t))]
    return r[0] if len(r) == 1 else None


def is_usize(t):
    return t["k"] == "uint" and t["s"] == "usize"


def message_parts(I, v):
    """(value, size) of a decoded Message"""
    fs = fields(I, v)
    n = [i for i, (t, _) in enumerate(fs) if is_usize(I.T(t))]
    if len(fs) != 2 or len(n) != 1:
        raise Give("message layout")
    return fs[1 - n[0]][1], fs[n[0]][1]


def container_parts(I, v):
    """(storage, length) of an Array, a List or a wrapper of one"""
    fs = fields(I, v)
    if len(fs) == 1:
        return container_parts(I, fs[0][1])
    n = [x for t, x in fs if is_usize(I.T(t))]
    d = [x for t, x in fs if not is_usize(I.T(t)) and "PhantomData" not in I.T(t)["s"]]
    if len(n) != 1 or len(d) != 1:
        raise Give("container layout")
    return d[0], n[0]


def u8(I):
    for i, t in enumerate(I.p.types):
        if t["k"] == "uint" and t["s"] == "u8":
            return i


def byte(I, st, s, i):
    """byte i of a slice"""
    if s.root[0] == "R":
        return I.region_read(st, s.root[1], s.off + i, s.elem if s.elem is not None else (u8(I)))
    if s.root[0] == "S":
        return K(s.root[1][s.off.c + i])
    return I.elem(st, s, K(i) if isinstance(i, int) else i)


def int_of_bytes(I, st, s, off, n, big, signed=False):
    bs = [byte(I, st, s, (off + i) if isinstance(off, Lin) else K(off + i)) for i in range(n)]
    if big:
        bs.reverse()
    bits = ()
    for b in bs:
        bits += N.bits_of(st.norm(b), 8)
    return N.from_bits(bits, signed)


def same_slice(env, st, got, root, off, ln, name, where=""):
    if not isinstance(got, SliceV):
        return env.that(st, False, name, where, "not a view of the input: %r" % (got,))
    if got.root != root:
        n = st.norm(got.len)
        if st.truth(("eq", n)) is True:
            return env.eq(st, n, ln, name, where)
        return env.that(st, False, name, where, "view of other memory: %r" % (got,))
    env.need(st, ("and", ("eq", got.off - off), ("eq", got.len - ln)), name, where)


# ---------------------------------------------------------------- output streams

def stream(I, st):
    """what was handed to the output, as pieces
       ('b', value) one byte / ('s', slice) / ('e', codec, value) / ('?', ...)"""
    out = []
    for e in st.ev:
        if e[0] == "w":
            d = e[1]
            if isinstance(d, Arr):
                out += [("b", x) for x in d.f]
            else:
                out.append(("s", d))
        elif e[0] == "wpart":
            out.append(("p",) + e[1:])
        elif e[0] == "enc":
            out.append(("e",) + e[1:])
        elif e[0] in ("werr", "encerr", "loop"):
            out.append((e[0],))
    # constant slices are bytes; empty slices are nothing
    r = []
    for p in out:
        if p[0] == "s":
            s = p[1]
            n = st.norm(s.len)
            if n.is_const() and n.c == 0:
                continue
            if n.is_const() and n.c <= 16:
                r += [("b", byte(I, st, s, K(i))) for i in range(n.c)]
                continue
        r.append(p)
    return r


def norm_stream(I, st, pcs):
    r = []
    for p in pcs:
        if p[0] == "s":
            s = p[1]
            n = st.norm(s.len)
            if n.is_const() and n.c == 0:
                continue
            if n.is_const() and n.c <= 16:
                r += [("b", byte(I, st, s, K(i))) for i in range(n.c)]
                continue
            if not n.is_const() and st.truth(("eq", n)) is True:
                continue
            if r and r[-1][0] == "s":
                q = r[-1][1]
                if q.root == s.root and q.path == s.path and st.truth(("eq", q.off + q.len - s.off)) is True:
                    r[-1] = ("s", q._replace(len=q.len + s.len))
                    continue
        r.append(p)
    return r


def short_write_ok(env, st, name="complete writes"):
    """partial writes on a successful path must have been complete"""
    for e in st.ev:
        if e[0] == "wpart":
            env.eq(st, e[3], e[2], name, "Write::write may accept fewer bytes than it was given")


def match_stream(env, st, got, exp, name, where=""):
    I = env.I
    if any(p[0] == "loop" for p in got):
        return env.that(st, None, name, where, "output produced in an unbounded loop")
    g = []
    for p in got:
        if p[0] == "p":
            if st.truth(("eq", p[3] - p[2])) is not True:
                return env.that(st, None, name, where, "partial write")
            if isinstance(p[1], Arr):
                g += [("b", x) for x in p[1].f]
            else:
                g.append(("s", p[1]))
        else:
            g.append(p)
    g = norm_stream(I, st, g)
    x = norm_stream(I, st, exp)
    if [p[0] for p in g] != [p[0] for p in x]:
        return env.that(st, False, name, where, "wrote %s, expected %s" % (shape(g), shape(x)))
    for i, (p, q) in enumerate(zip(g, x)):
        if p[0] == "b":
            env.eq(st, p[1], q[1], name, where)
        elif p[0] == "s":
            a, b = p[1], q[1]
            if a.root != b.root or a.path != b.path:
                env.that(st, False, name, where, "wrote %r, expected %r" % (a, b))
            else:
                env.need(st, ("and", ("eq", a.off - b.off), ("eq", a.len - b.len)), name, where)
        elif p[0] == "e":
            if p[1] != q[1]:
                env.that(st, False, name, where, "encoded with %s, expected %s" % (p[1], q[1]))
            elif isinstance(p[2], Lin) and isinstance(q[2], Lin):
                env.eq(st, p[2], q[2], name, where)
            else:
                env.that(st, same_value(I, st, p[2], q[2]), name, where, "encoded %r, expected %r" % (p[2], q[2]))
        else:
            env.that(st, False, name, where, "unexpected output step %r" % (p,))
    if not g:
        env.that(st, True, name)


def shape(pcs):
    r = []
    for p in pcs:
        r.append({"b": "byte", "s": "slice", "e": "element"}.get(p[0], p[0]) + ((" " + p[1]) if p[0] == "e" else ""))
    return "[" + ", ".join(r) + "]"


def same_value(I, st, a, b):
    """True / False / None"""
    if isinstance(a, Lin) and isinstance(b, Lin):
        return st.truth(("eq", a - b))
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        if a.root != b.root or a.path != b.path:
            return None if st.truth(("eq", st.norm(a.len))) is True else False
        return st.truth(("and", ("eq", a.off - b.off), ("eq", a.len - b.len)))
    if a == b:
        return True
    if isinstance(a, Ptr):
        a = natives.writer_of(I, st, a)
    if isinstance(b, Ptr):
        b = natives.writer_of(I, st, b)
    if a == b:
        return True
    if isinstance(a, Sy) and isinstance(b, Adt) and a.ty == b.ty:
        a, b = b, a
    if isinstance(a, Adt) and isinstance(b, Sy) and a.ty == b.ty:
        t = I.T(b.ty)
        if t["enum"]:
            i = st.facts.get(b.name)
            if i is None:
                return None
            b = I.expand(b.ty, b.name, i)
        else:
            b = I.expand(b.ty, b.name)
    if isinstance(a, Adt) and isinstance(b, Adt) and a.ty == b.ty:
        if a.var != b.var:
            return False
        return all_of(same_value(I, st, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, (Tup, Arr)) and isinstance(b, (Tup, Arr)) and len(a.f) == len(b.f):
        return all_of(same_value(I, st, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op and len(a.args) == len(b.args):
        return all_of(same_value(I, st, x, y) for x, y in zip(a.args, b.args))
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and isinstance(a[0], str) and isinstance(b[0], str):
        try:
            x, y = st.truth(a), st.truth(b)
        except Exception:
            return None
        if x is not None and y is not None:
            return x == y
        return None
    if isinstance(a, Sy) and isinstance(b, Sy):
        return a.name == b.name or None
    return None


def all_of(it):
    r = True
    for x in it:
        if x is False:
            return False
        if x is None:
            r = None
    return r
