"""Trace-partitioned abstract interpreter over the MIR exported by driver/.

Values are abstract: integers are linear expressions with bit provenance
(numdom), slices are (region, offset, length), enums of unknown variant are
symbolic and split on demand, floats are uninterpreted terms.  Loops are
unrolled while they provably end after a few rounds and otherwise generalised
(havoc of what the body changes + candidate invariants filtered to a
fixpoint), so results cover every execution.
"""
import json
from collections import namedtuple

import numdom as N
from numdom import Lin, K, ZERO, ONE, var, sl

ISIZE_MAX = (1 << 63) - 1
USIZE_MAX = (1 << 64) - 1

SliceV = namedtuple("SliceV", "root path off len elem kind")   # kind: 's' slice, 'str'
Ptr = namedtuple("Ptr", "root path")
Adt = namedtuple("Adt", "ty var f")
Sy = namedtuple("Sy", "ty name")
Tup = namedtuple("Tup", "f tag", defaults=("tup",))
Arr = namedtuple("Arr", "f tag", defaults=("arr",))
Clo = namedtuple("Clo", "fn ty caps")
FnV = namedtuple("FnV", "c")
Discr = namedtuple("Discr", "ty name tag", defaults=("discr",))
Term = namedtuple("Term", "op args")
It = namedtuple("It", "kind parts")
# conditions are tuples ('c',b) ('ge',Lin) ('eq',Lin) ('not',c) ('o',key) ('and',a,b) ('or',a,b)
TRUE, FALSE = ("c", True), ("c", False)
UNIT = Tup(())


_FNV = {}


class FnConst:
    __slots__ = ("c", "key")

    def __init__(self, c):
        self.c = c
        self.key = json.dumps(c, sort_keys=True)

    def __eq__(self, o):
        return isinstance(o, FnConst) and self.key == o.key

    def __hash__(self):
        return hash(self.key)


class Fork(Exception):
    def __init__(self, states):
        self.states = states


class Give(Exception):
    """the analysis of this root cannot continue (reported as unknown)"""


class Program:
    def __init__(self, path):
        with open(path) as f:
            j = json.load(f)
        self.types = j["types"]
        self.fns = {f["key"]: f for f in j["fns"]}
        self.roots = j["roots"]
        self.skipped = j["skipped"]
        self.consts = j["consts"]
        self.loops = {}
        self.by_s = {}
        for i, t in enumerate(self.types):
            self.by_s.setdefault(t["s"], i)

    def ty(self, i):
        return self.types[i]

    def find(self, s):
        return self.by_s.get(s)

    def loop_info(self, key):
        r = self.loops.get(key)
        if r is not None:
            return r
        fn = self.fns[key]
        n = len(fn["blocks"])
        succ = [succs(b["t"]) for b in fn["blocks"]]
        pred = [[] for _ in range(n)]
        color = [0] * n
        back = []
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color[s] == 0:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
                if color[s] == 1:
                    back.append((b, s))
            else:
                color[b] = 2
                stack.pop()
        for b in range(n):
            for s in succ[b]:
                pred[s].append(b)
        heads = {}
        for t, h in back:
            body = heads.setdefault(h, {h})
            work = [t]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work += pred[x]
        self.loops[key] = heads
        return heads


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


class State:
    __slots__ = ("mem", "rows", "eqs", "neqs", "facts", "ev", "imp", "regs", "g", "sub", "loopy", "dead")

    def __init__(self):
        self.mem, self.rows, self.eqs, self.neqs = {}, [], [], []
        self.facts, self.ev, self.imp, self.regs, self.g, self.sub = {}, (), (), {}, {}, {}
        self.loopy = False    # passed through a generalised loop

    def copy(self):
        s = State.__new__(State)
        s.mem, s.rows, s.eqs, s.neqs = dict(self.mem), list(self.rows), list(self.eqs), list(self.neqs)
        s.facts, s.ev, s.imp, s.regs, s.g, s.sub = dict(self.facts), self.ev, self.imp, dict(self.regs), dict(self.g), dict(self.sub)
        s.loopy = self.loopy
        return s

    # -- numeric
    def norm(self, l):
        for _ in range(8):
            hit = None
            for s, _ in l.t:
                if s in self.sub:
                    hit = s
                    break
            if hit is None:
                return l
            l = N.subst(l, hit, self.sub[hit])
        return l

    def bad(self, extra_rows=(), extra_eqs=()):
        rows = self.rows + list(extra_rows)
        eqs = self.eqs + list(extra_eqs)
        seeds = {s for r in list(extra_rows) + list(extra_eqs) for s, _ in r.t}
        return N.infeasible(rows, eqs, seeds or None)

    def add_ge(self, l):
        """assume l >= 0; False when that is impossible"""
        lo, hi = l.rng()
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        if self.bad([l]):
            return False
        self.rows.append(l)
        if len(l.t) == 1 and len(self.rows) > 1:
            (y, k), = l.t
            if abs(k) == 1 and y.bits is None and y.ev is None and y not in self.sub and any(r != l and len(r.t) == 1 and r.t[0][0] is y and r == -l for r in self.rows):
                return self.add_eq(l)
        self.wake()
        return True

    def add_eq(self, l):
        if not l.t:
            return l.c == 0
        lo, hi = l.rng()
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        if self.bad((), [l]):
            return False
        for n in self.neqs:
            if n == l or n == -l:
                return False
        self.eqs.append(l)
        ll = self.norm(l)
        for s, k in reversed(ll.t):
            if abs(k) == 1 and s.bits is None and s.ev is None:
                rest = Lin(ll.c, tuple((q, x) for q, x in ll.t if q is not s))
                self.sub[s] = rest.scale(-k)
                break
        self.wake()
        return True

    def add_ne(self, l):
        if not l.t:
            return l.c != 0
        if self.entails_eq(l):
            return False
        self.neqs.append(l)
        self.wake()
        return True

    def wake(self):
        """disequalities that became strict"""
        keep = []
        for n in self.neqs:
            lo, hi = n.rng()
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                continue
            if len(n.t) <= 3:
                if (lo == 0) or self.bad([-n - 1]):
                    self.rows.append(n - 1)
                    continue
                if (hi == 0) or self.bad([n - 1]):
                    self.rows.append(-n - 1)
                    continue
            keep.append(n)
        self.neqs = keep

    def entails_ge(self, l):
        lo, hi = l.rng()
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return self.bad()
        return self.bad([-l - 1])

    def entails_eq(self, l):
        if not l.t:
            return l.c == 0
        if N.equal_exact(l, ZERO):
            return True
        lo, hi = l.rng()
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        return self.bad([l - 1]) and self.bad([-l - 1])

    def truth(self, c):
        k = c[0]
        if k == "c":
            return c[1]
        if k == "not":
            t = self.truth(c[1])
            return None if t is None else not t
        if k == "ge":
            lo, hi = c[1].rng()
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
            if self.entails_ge(c[1]):
                return True
            if self.bad([c[1]]):
                return False
            return None
        if k == "eq":
            if not c[1].t:
                return c[1].c == 0
            if self.entails_eq(c[1]):
                return True
            if self.bad((), [c[1]]) or any(n == c[1] or n == -c[1] for n in self.neqs):
                return False
            return None
        if k == "o":
            return self.facts.get(c)
        if k == "and":
            a, b = self.truth(c[1]), self.truth(c[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if k == "or":
            a, b = self.truth(c[1]), self.truth(c[2])
            if a or b:
                return True
            return False if a is False and b is False else None
        return None

    def assume(self, c, want=True):
        """states in which the condition has the wanted truth value"""
        k = c[0]
        if k == "c":
            return [self] if c[1] == want else []
        if k == "not":
            return self.assume(c[1], not want)
        if k == "ge":
            l = c[1] if want else -c[1] - 1
            return [self] if self.add_ge(l) else []
        if k == "eq":
            return [self] if (self.add_eq(c[1]) if want else self.add_ne(c[1])) else []
        if k == "o":
            t = self.facts.get(c)
            if t is None:
                self.facts[c] = want
                return [self]
            return [self] if t == want else []
        if k in ("and", "or"):
            if (k == "and") == want:
                out = []
                for s in self.assume(c[1], want):
                    out += s.assume(c[2], want)
                return out
            other = self.copy()
            out = self.assume(c[1], want)
            for s in other.assume(c[1], not want):
                out += s.assume(c[2], want)
            return out
        raise Give("condition " + repr(c))


def neg(c):
    if c[0] == "c":
        return ("c", not c[1])
    if c[0] == "not":
        return c[1]
    return ("not", c)


class Panic:
    __slots__ = ("kind", "fn", "span", "st", "stack")

    def __init__(self, kind, fn, span, st, stack):
        self.kind, self.fn, self.span, self.st, self.stack = kind, fn, span, st, stack


class Interp:
    MAXPATHS = 6000
    MAXSTEPS = 400000

    def __init__(self, prog, mode="proof", hook=None, unroll=6):
        self.p = prog
        self.mode = mode
        self.hook = hook
        self.unroll, self.hard = unroll, 70
        self.panics = []
        self.fid = 0
        self.frames = {}
        self.quiet = 0
        self.steps = 0
        self.stack = []
        self.notes = []
        self.truncated = False
        self.loops_seen = []
        self.unknown_calls = set()
        self.fns_seen = set()
        self.calls_seen = 0
        self.unsafe_seen = []

    # ------------------------------------------------------------ types
    def T(self, i):
        return self.p.types[i]

    def int_range(self, ty):
        t = self.T(ty)
        b = t["bits"] if "bits" in t else (32 if t["k"] == "char" else 64)
        if t["k"] == "int":
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        if t["k"] == "char":
            return 0, 0x10ffff
        return 0, (1 << b) - 1

    def is_int(self, ty):
        return self.T(ty)["k"] in ("int", "uint", "char")

    def size_of(self, ty):
        t = self.T(ty)
        k = t["k"]
        if k in ("int", "uint", "float"):
            return t["bits"] // 8
        if k == "bool":
            return 1
        if k == "char":
            return 4
        if k in ("ref", "ptr"):
            e = self.T(t["e"])
            return 16 if e["k"] in ("slice", "str", "dyn") else 8
        if k == "array":
            s = self.size_of(t["e"])
            return None if s is None else s * t["n"]
        if k == "tuple" and not t["f"]:
            return 0
        return None

    def mk(self, ty, name):
        """a symbolic value of the type, the same for the same name"""
        t = self.T(ty)
        k = t["k"]
        if k in ("int", "uint", "char"):
            lo, hi = self.int_range(ty)
            return var(name, lo, hi)
        if k == "bool":
            return ("not", ("eq", var(name, 0, 1)))
        if k == "float":
            return Term("f%d" % t["bits"], (var(name, 0, (1 << t["bits"]) - 1),))
        if k in ("ref", "ptr"):
            e = self.T(t["e"])
            if e["k"] == "slice":
                return SliceV(("R", name), (), ZERO, var(name + ".len", 0, ISIZE_MAX), e["e"], "s")
            if e["k"] == "str":
                return SliceV(("R", name), (), ZERO, var(name + ".len", 0, ISIZE_MAX), None, "str")
            return Ptr(("A", name, t["e"]), ())
        if k == "tuple":
            return Tup(tuple(self.mk(x, "%s.%d" % (name, i)) for i, x in enumerate(t["f"])))
        if k == "array":
            if isinstance(t["n"], int) and t["n"] <= 64:
                return Arr(tuple(self.mk(t["e"], "%s[%d]" % (name, i)) for i in range(t["n"])))
            return Sy(ty, name)
        if k == "adt" and not t["enum"] and not t["union"] and t["v"] and not t["v"][0]["f"]:
            return Adt(ty, 0, ())
        if k == "fndef":
            return FnV(FnConst(t["c"])) if t.get("c") else Sy(ty, name)
        if k == "closure" and not t["f"]:
            return Clo(t.get("fn"), ty, ())
        return Sy(ty, name)

    # ------------------------------------------------------------ memory
    def root_val(self, st, root):
        v = st.mem.get(root)
        if v is None:
            k = root[0]
            if k == "A":
                v = self.mk(root[2], root[1] + "*")
            elif k == "E":
                return self.region_read(st, root[1], root[2], root[3])
            elif k == "C":
                return root[1]
            elif k == "T":
                v = prefix_bytes(root[1])
            elif k == "S":
                return const_bytes(root[1])
            else:
                return None
            st.mem[root] = v
        return v

    def load(self, st, root, path):
        v = self.root_val(st, root)
        for s in path:
            v = self.step(st, v, s)
        return v

    def step(self, st, v, s):
        k = s[0]
        if k == "f":
            if isinstance(v, (Adt, Tup)):
                return v.f[s[1]]
            if isinstance(v, Clo):
                return v.caps[s[1]]
            if isinstance(v, Sy):
                return self.mk(s[2], "%s.%d" % (v.name, s[1]))
            if isinstance(v, Term):
                return self.mk(s[2], "%s.%d" % (repr(v), s[1]))
            if isinstance(v, It) and len(s) > 2:
                t = self.T(s[2])
                if v.kind == "eptr" and s[1] == 0:
                    return v
                if v.kind == "iter" and s[1] < 2 and len(v.parts) == 1:
                    x = v.parts[0]
                    return It("eptr", (x._replace(off=x.off + x.len, len=ZERO) if s[1] else x,))
                if v.kind == "bytes" and s[1] == 0 and t["k"] == "adt":
                    # the layers of the iterator over the bytes of a string
                    return It("iter", (v.parts[0]._replace(elem=next(i for i, x in enumerate(self.p.types) if x["s"] == "u8")),)) if t["p"].endswith("slice::iter::Iter") else v
            raise Give("field %r of %r" % (s, v))
        if k == "d":
            if isinstance(v, Adt):
                return v
            if isinstance(v, Sy):
                return Sy(v.ty, "%s@%d" % (v.name, s[1]))
            raise Give("variant of %r" % (v,))
        if k == "i":
            if isinstance(v, Arr):
                i = st.norm(s[1])
                if i.is_const():
                    if 0 <= i.c < len(v.f):
                        return v.f[i.c]
                    raise Give("array index")
                if all(x == v.f[0] for x in v.f):
                    return v.f[0]
                out = []
                for j in range(len(v.f)):
                    n = st.copy()
                    if n.add_eq(s[1] - j):
                        out.append(n)
                raise Fork(out)
            if isinstance(v, Sy):
                t = self.T(v.ty)
                return self.mk(t["e"], "%s[%r]" % (v.name, st.norm(s[1])))
            raise Give("index of %r" % (v,))
        raise Give("step")

    def expand(self, ty, name, variant=0):
        t = self.T(ty)
        if t["k"] == "adt":
            pre = name if not t["enum"] else "%s@%d" % (name, variant)
            return Adt(ty, variant, tuple(self.mk(f[1], "%s.%d" % (pre, i)) for i, f in enumerate(t["v"][variant]["f"])))
        if t["k"] == "closure":
            return Clo(t.get("fn"), ty, tuple(self.mk(f, "%s.%d" % (name, i)) for i, f in enumerate(t["f"])))
        if t["k"] == "array":
            return Arr(tuple(self.mk(t["e"], "%s[%d]" % (name, i)) for i in range(t["n"])))
        raise Give("expand " + t["s"])

    def upd(self, st, v, path, val, ty=None):
        if not path:
            return val
        s = path[0]
        if s[0] == "d":
            if v is None:
                t = self.T(ty)
                v = Adt(ty, s[1], (None,) * len(t["v"][s[1]]["f"]))
            if isinstance(v, Sy):
                v = self.expand(v.ty, v.name, s[1])
            return self.upd(st, v, path[1:], val, ty)
        if s[0] == "f":
            if v is None:
                if ty is None:
                    raise Give("store into nothing")
                t = self.T(ty)
                if t["k"] == "adt":
                    v = Adt(ty, 0, (None,) * len(t["v"][0]["f"]))
                elif t["k"] == "tuple":
                    v = Tup((None,) * len(t["f"]))
                else:
                    raise Give("store into " + t["s"])
            if isinstance(v, Sy):
                v = self.expand(v.ty, v.name)
            if isinstance(v, It) and v.kind == "bytes" and s[1] == 0:
                n = self.upd(st, self.step(st, v, s), path[1:], val, s[2])
                return It("bytes", (n.parts[0]._replace(elem=v.parts[0].elem),))
            if isinstance(v, It) and v.kind == "iter" and s[1] < 2 and len(path) == 1 and isinstance(val, It) and val.kind == "eptr":
                x, y = v.parts[0], val.parts[0]
                return It("iter", (x._replace(off=y.off, len=x.off + x.len - y.off) if s[1] == 0 else x._replace(len=y.off - x.off),))
            fs = v.caps if isinstance(v, Clo) else v.f
            n = self.upd(st, fs[s[1]], path[1:], val, s[2])
            fs = fs[:s[1]] + (n,) + fs[s[1] + 1:]
            return v._replace(caps=fs) if isinstance(v, Clo) else v._replace(f=fs)
        if s[0] == "i":
            if isinstance(v, Sy):
                v = self.expand(v.ty, v.name)
            if isinstance(v, Arr):
                i = st.norm(s[1])
                if not i.is_const():
                    out = []
                    for j in range(len(v.f)):
                        n = st.copy()
                        if n.add_eq(s[1] - j):
                            out.append(n)
                    raise Fork(out)
                if not 0 <= i.c < len(v.f):
                    raise Give("array store")
                n = self.upd(st, v.f[i.c], path[1:], val)
                return v._replace(f=v.f[:i.c] + (n,) + v.f[i.c + 1:])
        raise Give("store %r" % (s,))

    def store(self, st, root, path, val, ty=None):
        if root[0] == "E":
            if path:
                old = self.region_read(st, root[1], root[2], root[3])
                val = self.upd(st, old, path, val)
            self.region_write(st, root[1], root[2], val)
            return
        if not path:
            st.mem[root] = val
            return
        v = self.root_val(st, root)
        if ty is None and root[0] == "L":
            ty = self.frames[root[1]]["locals"][root[2]]
        st.mem[root] = self.upd(st, v, path, val, ty)

    # regions: symbolic buffers with an overlay of element writes (newest last)
    def region_read(self, st, name, off, elem):
        off = st.norm(off)
        ov = st.regs.get(name)
        if ov:
            for w in reversed(ov):
                if w[0] == "havoc":
                    st.imp += ("contents of %s after a loop" % (name,),)
                    return self.app(self.mk(elem, "%s~%d[%r]" % (name, w[1], off)), (name, w[1]), (off,))
                d = off - w[1]
                if w[0] == "e":
                    if d.is_const():
                        if d.c == 0:
                            return w[2]
                        continue
                    t = st.truth(("eq", d))
                    if t is True:
                        return w[2]
                    if t is False:
                        continue
                    a, b = st.copy(), st
                    out = ([a] if a.add_eq(d) else []) + ([b] if b.add_ne(d) else [])
                    raise Fork(out)
                if w[0] == "blk":
                    # block copy: (off, len, source slice)
                    inb = ("and", ("ge", d), ("ge", w[2] - d - 1))
                    t = st.truth(inb)
                    if t is True:
                        return self.elem(st, w[3], d)
                    if t is False:
                        continue
                    a, b = st.copy(), st
                    raise Fork(a.assume(inb, True) + b.assume(inb, False))
        if elem is None:
            return self.app(var("%s[%r]" % (name, off), 0, 255), name, (off,))
        return self.app(self.mk(elem, "%s[%r]" % (name, off)), name, (off,))

    def app(self, v, fn, args):
        if isinstance(v, Lin) and v.single() is not None and v.single().app is None and v.single().bits is None:
            v.single().app = (fn, args)
        return v

    def region_write(self, st, name, off, val):
        off = st.norm(off)
        ov = st.regs.get(name, ())
        ov = tuple(w for w in ov if not (w[0] == "e" and w[1] == off))
        st.regs[name] = ov + (("e", off, val),)

    def elem(self, st, s, i):
        """element i of a slice"""
        if s.root[0] == "R":
            return self.region_read(st, s.root[1], s.off + i, s.elem)
        return self.load(st, s.root, s.path + (("i", s.off + i),))

    def elem_ptr(self, st, s, i):
        if s.root[0] == "R":
            return Ptr(("E", s.root[1], st.norm(s.off + i), s.elem), ())
        return Ptr(s.root, s.path + (("i", s.off + i),))

    # ------------------------------------------------------------ places
    def loc(self, st, fid, place):
        root, path = ("L", fid, place[0]), ()
        sl_ = None
        for e in place[1]:
            k = e[0]
            if k == "*":
                v = self.slice_elem_load(st, sl_) if sl_ is not None and False else self.load(st, root, path)
                v = self.as_ptr(st, v)
                if isinstance(v, It) and v.kind == "eptr":
                    x = v.parts[0]
                    if st.truth(self.cge(x.len - 1)) is not True:
                        raise Give("access through a pointer which may be at the end")
                    v = self.elem_ptr(st, x, ZERO)
                if isinstance(v, Ptr):
                    root, path = v.root, v.path
                elif isinstance(v, SliceV):
                    sl_ = v
                else:
                    raise Give("deref of %r" % (v,))
            elif k == "f":
                path = path + (("f", e[1], e[2]),)
            elif k == "d":
                path = path + (("d", e[1]),)
            elif k in ("i", "c", "s"):
                if k == "i":
                    i = self.num(st, st.mem[("L", fid, e[1])])
                if sl_ is not None:
                    if k == "c":
                        i = (sl_.len - e[1]) if e[3] else K(e[1])
                    if k == "s":
                        end = (sl_.len - e[2]) if e[3] else K(e[2])
                        sl_ = sl_._replace(off=sl_.off + e[1], len=end - e[1])
                        continue
                    p = self.elem_ptr(st, sl_, i)
                    root, path, sl_ = p.root, p.path, None
                else:
                    v = self.load(st, root, path)
                    n = len(v.f) if isinstance(v, Arr) else self.T(v.ty)["n"]
                    if k == "c":
                        i = K(n - e[1]) if e[3] else K(e[1])
                    if k == "s":
                        raise Give("array subslice")
                    path = path + (("i", i),)
            else:
                raise Give("projection %r" % (e,))
        return root, path, sl_

    def as_ptr(self, st, v):
        if isinstance(v, (Ptr, SliceV)):
            return v
        if isinstance(v, Sy):
            t = self.T(v.ty)
            if t["k"] == "adt" and t["p"].endswith("boxed::Box"):
                e = self.T(t["a"][0])
                if e["k"] in ("slice", "str"):
                    return SliceV(("R", v.name), (), ZERO, var(v.name + ".len", 0, ISIZE_MAX), e.get("e"), "s" if e["k"] == "slice" else "str")
                return Ptr(("A", v.name, t["a"][0]), ())
        return v

    def read(self, st, fid, place):
        if not place[1]:
            v = st.mem.get(("L", fid, place[0]))
            if v is None:
                ty = self.frames[fid]["locals"][place[0]]
                v = self.uninit(st, ty)
            return v
        root, path, s = self.loc(st, fid, place)
        if s is not None:
            return s
        v = self.load(st, root, path)
        if v is None:
            raise Give("uninitialised read")
        return v

    def uninit(self, st, ty):
        t = self.T(ty)
        if t["k"] == "tuple" and not t["f"]:
            return UNIT
        if t["k"] == "adt" and not t["enum"] and t["v"] and not t["v"][0]["f"]:
            return Adt(ty, 0, ())
        if t["k"] in ("fndef",) or (t["k"] == "closure" and not t["f"]):
            return self.mk(ty, "zst")
        if t["k"] == "adt" and t["p"] == "core::option::Option" and self.T(t["a"][0])["k"] == "never":
            return Adt(ty, 0, ())
        raise Give("uninitialised read of " + t["s"])

    def write(self, st, fid, place, val):
        if not place[1]:
            st.mem[("L", fid, place[0])] = val
            return
        root, path, s = self.loc(st, fid, place)
        if s is not None:
            raise Give("store to unsized place")
        self.store(st, root, path, val)

    # ------------------------------------------------------------ operands
    def const(self, k):
        if "fn" in k:
            c = k["fn"]
            f = _FNV.get(id(c))
            if f is None or f[0] is not c:
                f = _FNV[id(c)] = (c, FnV(FnConst(c)))
            return f[1]
        return self.const_val(k["t"], k.get("v"), k.get("from"))

    def const_val(self, ty, v, frm=None):
        t = self.T(ty)
        if v is None or "?" in v:
            return self.mk(ty, "const:%s:%s" % (frm, t["s"]))
        if "i" in v:
            if v["i"] == 1592590337:
                return var("SIZE", 0, 1 << 60)
            return K(v["i"])
        if "b" in v:
            return TRUE if v["b"] else FALSE
        if "f" in v and "adt" not in v:
            return Term("f%d" % t["bits"], (K(v["f"]),))
        if "str" in v:
            return SliceV(("S", v["str"].encode("utf8")), (), ZERO, K(len(v["str"].encode("utf8"))), None, "str")
        if "bytes" in v or "bytearr" in v:
            b = bytes(v.get("bytes", v.get("bytearr")))
            if t["k"] in ("ref", "ptr"):
                e = self.T(t["e"])
                if e["k"] == "array":
                    return Ptr(("C", Arr(tuple(K(x) for x in b))), ())
                return SliceV(("S", b), (), ZERO, K(len(b)), e.get("e"), "s" if e["k"] == "slice" else "str")
            return Arr(tuple(K(x) for x in b))
        if "arr" in v:
            return Arr(tuple(self.const_val(x["t"], x["v"]) for x in v["arr"]))
        if "tup" in v:
            return Tup(tuple(self.const_val(x["t"], x["v"]) for x in v["tup"]))
        if "adt" in v:
            return Adt(ty, v["adt"], tuple(self.const_val(x["t"], x["v"]) for x in v["f"]))
        if "r" in v:
            e = v["r"]
            inner = self.const_val(e["t"], e["v"]) if "t" in e else self.const_val(t["e"], e)
            tt = self.T(t["e"]) if t["k"] in ("ref", "ptr") else None
            if isinstance(inner, Arr) and tt is not None and tt["k"] == "slice":
                return SliceV(("C", inner), (), ZERO, K(len(inner.f)), tt["e"], "s")
            return Ptr(("C", inner), ())
        if "clo" in v:
            return self.mk(ty, "const")
        return self.mk(ty, "const:%s:%s" % (frm, t["s"]))

    def op(self, st, fid, o):
        if "c" in o:
            return self.read(st, fid, o["c"])
        if "m" in o:
            return self.read(st, fid, o["m"])
        if "k" in o:
            return self.const(o["k"])
        if "rc" in o:
            return FALSE
        raise Give("operand")

    # ------------------------------------------------------------ numbers
    def num(self, st, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, Discr):
            return self.discr_num(st, v)
        if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] in ("c", "ge", "eq", "not", "o", "and", "or"):
            return self.cond_num(st, v)
        if isinstance(v, Sy):
            t = self.T(v.ty)
            if t["k"] == "adt" and not t["enum"] and len(t["v"][0]["f"]) == 1:
                return self.num(st, self.mk(t["v"][0]["f"][0][1], v.name + ".0"))
        if isinstance(v, Adt) and len(v.f) == 1:
            return self.num(st, v.f[0])
        raise Give("number of %r" % (v,))

    def discr_num(self, st, d):
        i = st.facts.get(d.name)
        vs = self.T(d.ty)["v"]
        if i is not None:
            return K(vs[i]["d"])
        out = []
        for j in range(len(vs)):
            n = st.copy()
            n.facts[d.name] = j
            out.append(n)
        raise Fork(out)

    def cond_num(self, st, c):
        if c[0] == "c":
            return K(1 if c[1] else 0)
        # (s != 0) for a 0/1 symbol is the symbol
        if c[0] == "not" and c[1][0] == "eq":
            s = c[1][1].single()
            if s is not None and s.lo >= 0 and s.hi <= 1:
                return sl(s)
        a, b = st.copy(), st.copy()
        l = [x for x in a.assume(c, True)]
        r = [x for x in b.assume(c, False)]
        if not r and l:
            return K(1)
        if not l and r:
            return K(0)
        raise Fork([self.fix_cond(x, c, True) for x in l] + [self.fix_cond(x, c, False) for x in r])

    def fix_cond(self, st, c, t):
        # make the decision visible to the retried statement
        st.facts[("decided", c)] = t
        return st

    def cond(self, st, v):
        if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] in ("c", "ge", "eq", "not", "o", "and", "or"):
            return v
        if isinstance(v, Lin):
            return ("not", ("eq", v))
        if isinstance(v, Term):
            return ("o", v)
        if isinstance(v, Sy):
            return ("o", v)
        raise Give("condition of %r" % (v,))

    # ------------------------------------------------------------ rvalues
    def rv(self, st, fid, r, dst_ty):
        k = r[0]
        if k == "use":
            return self.op(st, fid, r[1])
        if k in ("ref", "raw"):
            root, path, s = self.loc(st, fid, r[2])
            if s is not None:
                return s
            return Ptr(root, path)
        if k == "agg":
            return self.agg(st, fid, r)
        if k == "discr":
            return self.discr(st, self.read(st, fid, r[1]))
        if k == "bin":
            return self.bin(st, r[1], self.op(st, fid, r[2]), self.op(st, fid, r[3]), self.op_ty(fid, r[2]), self.op_ty(fid, r[3]))
        if k == "un":
            return self.un(st, r[1], self.op(st, fid, r[2]), self.op_ty(fid, r[2]))
        if k == "cast":
            return self.cast(st, r[1], self.op(st, fid, r[2]), self.op_ty(fid, r[2]), r[3])
        if k == "rep":
            v = self.op(st, fid, r[1])
            if not isinstance(r[2], int) or r[2] > 1 << 20:
                raise Give("repeat")
            return Arr((v,) * r[2])
        if k == "len":
            root, path, s = self.loc(st, fid, r[1])
            if s is not None:
                return s.len
            v = self.load(st, root, path)
            return K(len(v.f))
        raise Give("rvalue " + k)

    def place_ty(self, fid, place):
        ty = self.frames[fid]["locals"][place[0]]
        for e in place[1]:
            t = self.T(ty) if ty is not None else None
            k = e[0]
            if k == "*":
                if t["k"] in ("ref", "ptr"):
                    ty = t["e"]
                elif t["k"] == "adt":
                    ty = t["a"][0]
            elif k == "f":
                ty = e[2]
            elif k in ("i", "c"):
                ty = t["e"]
        return ty

    def op_ty(self, fid, o):
        if "k" in o:
            return o["k"]["t"]
        p = o.get("c") or o.get("m")
        return self.place_ty(fid, p)

    def agg(self, st, fid, r):
        k = r[1]
        if k == "adt":
            vals = tuple(self.op(st, fid, o) for o in r[3])
            if len(r) > 5 and r[5] is not None:
                raise Give("union aggregate")
            return Adt(r[2], r[4], vals)
        if k == "tuple":
            return Tup(tuple(self.op(st, fid, o) for o in r[3]))
        if k == "array":
            return Arr(tuple(self.op(st, fid, o) for o in r[3]))
        if k == "closure":
            t = self.T(r[2])
            return Clo(t.get("fn"), r[2], tuple(self.op(st, fid, o) for o in r[3]))
        if k == "rawptr":
            a, m = self.op(st, fid, r[3][0]), self.op(st, fid, r[3][1])
            if isinstance(a, It) and a.kind == "eptr" and isinstance(m, Lin):
                s = a.parts[0]
                return s._replace(len=m)
            if isinstance(m, Tup) and not m.f:
                return a
            raise Give("rawptr")
        raise Give("aggregate " + k)

    def discr(self, st, v):
        if isinstance(v, Adt):
            return K(self.T(v.ty)["v"][v.var]["d"])
        if isinstance(v, Sy):
            i = st.facts.get(v.name)
            t = self.T(v.ty)
            if t["k"] != "adt":
                raise Give("discriminant of " + t["s"])
            if i is not None:
                return K(t["v"][i]["d"])
            if len(t["v"]) == 1:
                return K(t["v"][0]["d"])
            return Discr(v.ty, v.name)
        raise Give("discriminant of %r" % (v,))

    def bits(self, ty):
        t = self.T(ty)
        if t["k"] in ("int", "uint"):
            return t["bits"], t["k"] == "int"
        if t["k"] == "char":
            return 32, False
        if t["k"] == "bool":
            return 1, False
        if t["k"] in ("ref", "ptr"):
            return 64, False
        raise Give("bits of " + t["s"])

    def bin(self, st, op, a, b, ta, tb):
        t = self.T(ta)
        if t["k"] == "float":
            if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                return self.fcmp(op, a, b)
            return Term(op, (a, b))
        if t["k"] == "tuple" and not t["f"]:
            return TRUE if op in ("Eq", "Le", "Ge") else FALSE
        if t["k"] in ("ref", "ptr"):
            if op in ("Eq", "Ne"):
                if a == b:
                    return TRUE if op == "Eq" else FALSE
                if all(isinstance(z, It) and z.kind == "eptr" for z in (a, b)) and a.parts[0][:2] == b.parts[0][:2]:
                    e = ("eq", a.parts[0].off - b.parts[0].off)
                    return e if op == "Eq" else ("not", e)
                return ("o", Term(op, (a, b)))
            if op == "Offset" and isinstance(a, It) and a.kind == "eptr":
                s, n = a.parts[0], self.num(st, b)
                c = ("and", self.cge(n), self.cge(s.len - n))
                if st.truth(c) is not True:
                    for q in st.copy().assume(c, False):
                        self.panic("undefined behaviour: pointer past the end", "", q)
                    r = st.assume(c, True)
                    if len(r) != 1 or r[0] is not st:
                        raise Give("pointer offset")
                return It("eptr", (s._replace(off=s.off + n, len=s.len - n),))
            raise Give("pointer " + op)
        if t["k"] == "bool":
            ca, cb = self.cond(st, a), self.cond(st, b)
            if op == "BitAnd":
                return self.simp(st, ("and", ca, cb))
            if op == "BitOr":
                return self.simp(st, ("or", ca, cb))
            if op in ("Eq", "Ne", "BitXor"):
                for x, y in ((ca, cb), (cb, ca)):
                    if x[0] == "c":
                        same = y if x[1] else neg(y)
                        return same if op == "Eq" else neg(same)
                if ca == cb:
                    return TRUE if op == "Eq" else FALSE
                x, y = self.num(st, ca), self.num(st, cb)
                e = ("eq", x - y)
                return e if op == "Eq" else neg(e)
            a, b = self.num(st, ca), self.num(st, cb)
        a, b = self.num(st, a), self.num(st, b)
        if op == "Eq":
            return self.ceq(a - b)
        if op == "Ne":
            return neg(self.ceq(a - b))
        if op == "Lt":
            return self.cge(b - a - 1)
        if op == "Le":
            return self.cge(b - a)
        if op == "Gt":
            return self.cge(a - b - 1)
        if op == "Ge":
            return self.cge(a - b)
        w, signed = self.bits(ta)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            x = a + b if base == "Add" else a - b if base == "Sub" else N.mul(a, b)
            if op.endswith("WithOverflow"):
                rl, rh = x.rng()
                if rl is not None and rh is not None and rl >= lo and rh <= hi:
                    return Tup((x, FALSE))
                ovf = ("not", ("and", ("ge", x - lo), ("ge", K(hi) - x)))
                ovf = self.simp(st, ovf)
                return Tup((Wrap(x, w, signed), ovf))
            if op.endswith("Unchecked"):
                return x
            return self.wrapnum(st, x, w, signed)
        if base in ("Div", "Rem"):
            if signed:
                if a.is_const() and b.is_const() and b.c:
                    q = abs(a.c) // abs(b.c) * (1 if (a.c < 0) == (b.c < 0) else -1)
                    return K(q) if base == "Div" else K(a.c - q * b.c)
                d = st.norm(b)
                if d.is_const() and d.c < 0 and base == "Rem":
                    b, d = -d, -d
                if d.is_const() and d.c > 0 and not st.entails_ge(a):
                    # the quotient is rounded towards zero
                    if st.entails_ge(-a):
                        if st.entails_ge(a + (d.c - 1)):
                            return ZERO if base == "Div" else a
                        q = N.divc(st.norm(-a), d.c)
                        return -q if base == "Div" else -self.rem(st.norm(-a), q, d)
                    below, above = st.copy(), st.copy()
                    raise Fork([n for n, l in ((below, -a - 1), (above, a)) if n.add_ge(l)])
                if not st.entails_ge(a) or not st.entails_ge(b):
                    raise Give("a signed quotient")
            b2 = st.norm(b)
            if b2.is_const() and b2.c > 0:
                if not a.is_const() and st.entails_ge(K(b2.c - 1) - a):
                    return ZERO if base == "Div" else a
                q = N.divc(st.norm(a), b2.c)
                return q if base == "Div" else self.rem(a, q, K(b2.c))
            q = N.divv(a, b)
            return q if base == "Div" else a - N.mul(q, b)
        if base == "BitAnd" and w == 128:
            x, m = (st.norm(a), st.norm(b)) if st.norm(b).is_const() else (st.norm(b), st.norm(a))
            if m.is_const() and m.c >= 0 and m.c & (m.c + 1) == 0 and not x.is_const() and st.entails_ge(K(m.c) - x):
                if st.entails_ge(x):
                    return x
                if st.entails_ge(-x - 1) and st.entails_ge(x + (m.c + 1)):
                    return x + (m.c + 1)
                if st.entails_ge(x + (m.c + 1)):
                    a1, a2 = st.copy(), st.copy()
                    raise Fork([n for n, l in ((a1, x), (a2, -x - 1)) if n.add_ge(l)])
        if base == "BitAnd" and not signed and w <= 64:
            # a mask of low (or of high) bits of a sum is its remainder (or what the remainder leaves)
            x, m = (st.norm(a), st.norm(b)) if st.norm(b).is_const() else (st.norm(b), st.norm(a))
            if m.is_const() and not x.is_const() and x.single() is None and N.nonneg(x):
                for low, high in ((m.c, False), ((1 << w) - 1 - m.c, True)):
                    if low > 0 and low & (low + 1) == 0 and m.c > 0:
                        r = self.rem(x, N.divc(x, low + 1), K(low + 1))
                        return x - r if high else r
        if base in ("BitAnd", "BitOr", "BitXor"):
            return N.bitop({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[base], st.norm(a), st.norm(b), w, signed)
        if base in ("Shl", "Shr"):
            b = st.norm(b)
            if not b.is_const():
                lo_, hi_ = b.rng()
                if lo_ is not None and hi_ is not None and 0 <= lo_ and hi_ - lo_ <= 64:
                    out = []
                    for j in range(lo_, min(hi_, 63) + 1):
                        n = st.copy()
                        if n.add_eq(b - j):
                            out.append(n)
                    if hi_ > 63:
                        n = st.copy()
                        if n.add_ge(b - 64):
                            out.append(n)
                    if len(out) > 1:
                        raise Fork(out)
                if a.is_const() and a.c == 1 and base == "Shl":
                    return self.pow2(b, w)
                raise Give("a shift by an unknown distance")
            x = st.norm(a)
            if not signed and w <= 64 and not x.is_const() and x.single() is None and N.nonneg(x):
                return N.divc(x, 1 << (b.c % w)) if base == "Shr" else self.wrapnum(st, x.scale(1 << (b.c % w)), w, signed)
            return N.shift(base.lower(), x, b.c % w, w, signed)
        if op == "Cmp":
            return self.ordering(st, a, b)
        if op == "Offset":
            raise Give("pointer offset")
        raise Give("binary " + op)

    def pow2(self, e, w):
        key = ("pow2", e, w)
        s = N.C.memo.get(key)
        if s is None:
            s = N.C.fresh("pow2", 1, 1 << (w - 1))
            s.ev = lambda a: 1 << (N.evaluate(e, a) % w)
            s.deps = tuple(q for q, _ in e.t)
            N.C.memo[key] = s
        return sl(s)

    def rem(self, a, q, m):
        r = a - q.scale(m.c)
        if r.is_const():
            return r
        # what the divisor divides does not count
        low = N.Lin(a.c % m.c, tuple((z, k) for z, k in a.t if k % m.c))
        if len(low.t) < len(a.t) and all(z.lo is not None and z.lo >= 0 and k > 0 for z, k in low.t):
            return self.rem(low, N.divc(low, m.c), m)
        key = ("rem", a, m)
        s = N.C.memo.get(key)
        if s is None:
            if a.is_const():
                return K(a.c % m.c)
            if m.c & (m.c - 1) == 0 and a.single() is not None:
                return N.from_bits(N.bits_of(a, m.c.bit_length() - 1) or (0,), False) if m.c > 1 else ZERO
            s = N.C.fresh("rem", 0, m.c - 1)
            x = sl(s)
            s.defs = (x - r, r - x)
            s.ev = lambda asg: N.evaluate(a, asg) % m.c
            s.deps = tuple(z for z, _ in a.t)
            N.C.memo[key] = s
        return sl(s)

    def ordering(self, st, a, b):
        ty = None
        for i, t in enumerate(self.p.types):
            if t["k"] == "adt" and t["p"] == "core::cmp::Ordering":
                ty = i
        outs = []
        for c, v in ((("ge", b - a - 1), 0), (("eq", a - b), 1), (("ge", a - b - 1), 2)):
            t = st.truth(c)
            if t is True:
                return Adt(ty, v, ())
            if t is None:
                n = st.copy()
                outs += n.assume(c, True)
        raise Fork(outs)

    def simp(self, st, c):
        k = c[0]
        if k == "and":
            for x, y in ((c[1], c[2]), (c[2], c[1])):
                if x == TRUE:
                    return y
                if x == FALSE:
                    return FALSE
        if k == "or":
            for x, y in ((c[1], c[2]), (c[2], c[1])):
                if x == FALSE:
                    return y
                if x == TRUE:
                    return TRUE
        return c

    def ceq(self, l):
        if not l.t:
            return ("c", l.c == 0)
        lo, hi = l.rng()
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return FALSE
        return ("eq", l)

    def cge(self, l):
        lo, hi = l.rng()
        if lo is not None and lo >= 0:
            return TRUE
        if hi is not None and hi < 0:
            return FALSE
        return ("ge", l)

    def fcmp(self, op, a, b):
        if op in ("Gt", "Ge"):
            a, b = b, a
            op = {"Gt": "Lt", "Ge": "Le"}[op]
        if op == "Ne":
            return ("not", ("o", Term("fEq", (a, b))))
        return ("o", Term("f" + op, (a, b)))

    def wrapnum(self, st, x, w, signed):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        rl, rh = x.rng()
        if rl is not None and rh is not None and rl >= lo and rh <= hi:
            return x
        if st.entails_ge(x - lo) and st.entails_ge(K(hi) - x):
            return x
        return N.cast(st.norm(x), lo, hi, w, signed)

    def un(self, st, op, a, ta):
        t = self.T(ta)
        if op == "Not":
            if t["k"] == "bool":
                return neg(self.cond(st, a))
            w, signed = self.bits(ta)
            a = self.num(st, a)
            if a.is_const():
                v = ~a.c
                return K(v if signed else v & ((1 << w) - 1))
            return (-a - 1) if signed else K((1 << w) - 1) - a
        if op == "Neg":
            if t["k"] == "float":
                return Term("Neg", (a,))
            w, signed = self.bits(ta)
            return self.wrapnum(st, -self.num(st, a), w, signed)
        if op == "PtrMetadata":
            if isinstance(a, SliceV):
                return a.len
            if isinstance(a, Ptr):
                return UNIT
        raise Give("unary " + op)

    def cast(self, st, kind, v, tf, tt):
        t = self.T(tt)
        f = self.T(tf)
        if kind == "IntToInt":
            if f["k"] == "bool":
                d = st.facts.get(("decided", v)) if isinstance(v, tuple) else None
                return K(1 if d else 0) if d is not None else self.num(st, v)
            x = st.norm(self.num(st, v))
            w, signed = self.bits(tt)
            lo, hi = self.int_range(tt)
            rl, rh = x.rng()
            if rl is not None and rh is not None and rl >= lo and rh <= hi:
                return x
            if st.entails_ge(x - lo) and st.entails_ge(K(hi) - x):
                return x
            fw, fs = self.bits(tf)
            if x.single() is not None and not x.single().bits and fs:
                return N.from_bits(N.bits_of(x, w), signed)
            return N.cast(x, lo, hi, w, signed)
        if kind == "IntToFloat":
            return Term("i2f%d" % t["bits"], (self.num(st, v),))
        if kind == "FloatToInt":
            lo, hi = self.int_range(tt)
            s = self.mk(tt, "f2i(%r):%s" % (v, t["s"]))
            N.C.memo[("f2i", s)] = (v, tt)
            return s
        if kind == "FloatToFloat":
            if f["bits"] == t["bits"]:
                return v
            return Term("f2f%d" % t["bits"], (v,))
        if kind.startswith("PointerCoercion(Unsize"):
            e = self.T(t["e"]) if t["k"] in ("ref", "ptr") else None
            if e is not None and e["k"] == "slice" and isinstance(v, Ptr):
                n = None
                src = self.T(f["e"])
                if src["k"] == "array":
                    n = src["n"]
                if isinstance(n, int):
                    if v.root[0] == "C" and not v.path:
                        return SliceV(v.root, (), ZERO, K(n), e["e"], "s")
                    return SliceV(v.root, v.path, ZERO, K(n), e["e"], "s")
            return v
        if kind.startswith("PointerCoercion(MutToConst") or kind == "PtrToPtr" or kind.startswith("PointerCoercion(ArrayToPointer"):
            if isinstance(v, SliceV):
                e = self.T(t["e"])
                if e["k"] == "slice":
                    return v._replace(kind="s", elem=e["e"])
                if e["k"] == "str":
                    return v._replace(kind="str", elem=None)
                return It("eptr", (v,))
            return v
        if kind.startswith("PointerCoercion") or kind == "BoxDerefTransmute":
            return v
        if kind == "Transmute":
            return self.transmute(st, v, tf, tt)
        raise Give("cast " + kind)

    def transmute(self, st, v, tf, tt):
        f, t = self.T(tf), self.T(tt)
        if f["k"] in ("ref", "ptr") and t["k"] in ("ref", "ptr"):
            return v
        if isinstance(v, It) and v.kind == "eptr" and all(x["k"] == "ptr" or x["k"] == "adt" and x["p"].endswith("::NonNull") for x in (f, t)):
            return v
        if self.is_int(tt) and f["k"] == "array":
            return self.bytes_to_int(st, v, tt, False)
        if t["k"] == "array" and self.is_int(tf):
            return self.int_to_bytes(st, self.num(st, v), tf, False)
        if self.is_int(tt) and self.is_int(tf):
            w, s = self.bits(tt)
            return N.from_bits(N.bits_of(st.norm(self.num(st, v)), w), s)
        if self.is_int(tt) and f["k"] == "float":
            return self.f_bits(v, f["bits"])
        if t["k"] == "float" and self.is_int(tf):
            return Term("f%d" % t["bits"], (self.num(st, v),))
        if t["k"] == f["k"] == "adt" and t["p"] == f["p"]:
            return v
        if t["k"] == "adt" and t["enum"] and self.is_int(tf) and all(not x["f"] for x in t["v"]):
            x = self.num(st, v)
            outs = []
            for i, q in enumerate(t["v"]):
                tr = st.truth(("eq", x - q["d"]))
                if tr is True:
                    return Adt(tt, i, ())
                if tr is None:
                    n = st.copy()
                    if n.add_eq(x - q["d"]):
                        outs.append(n)
            r = st.copy()
            if all(r.add_ne(x - q["d"]) for q in t["v"]):
                self.panic("undefined behaviour: invalid value of " + t["s"], "", r)
            raise Fork(outs)
        if t["k"] == "bool" and self.is_int(tf):
            x = self.num(st, v)
            outs = []
            for d in (0, 1):
                tr = st.truth(("eq", x - d))
                if tr is True:
                    return ("c", bool(d))
                if tr is None:
                    n = st.copy()
                    if n.add_eq(x - d):
                        outs.append(n)
            r = st.copy()
            if r.add_ne(x) and r.add_ne(x - 1):
                self.panic("undefined behaviour: invalid value of bool", "", r)
            raise Fork(outs)
        raise Give("transmute %s -> %s" % (f["s"], t["s"]))

    def f_bits(self, v, n):
        if isinstance(v, Term) and v.op == "f%d" % n:
            return v.args[0]
        return var("bits(%r)" % (v,), 0, (1 << n) - 1)

    def arr_elems(self, st, v):
        if isinstance(v, Arr):
            return v.f
        if isinstance(v, Sy):
            return self.expand(v.ty, v.name).f
        raise Give("array elements")

    def bytes_to_int(self, st, arr, tt, big):
        el = list(self.arr_elems(st, arr))
        if big:
            el.reverse()
        b = ()
        for e in el:
            b += N.bits_of(st.norm(self.num(st, e)), 8)
        return N.from_bits(b, self.T(tt)["k"] == "int")

    def int_to_bytes(self, st, x, tf, big):
        w = self.bits(tf)[0]
        b = N.bits_of(st.norm(x), w)
        el = [N.from_bits(b[i:i + 8], False) for i in range(0, w, 8)]
        if big:
            el.reverse()
        return Arr(tuple(el))

    # ------------------------------------------------------------ execution
    def panic(self, kind, span, st, fn=None):
        if self.quiet:
            return
        fn = fn or (self.stack[-1][0] if self.stack else "?")
        self.panics.append(Panic(kind, fn, span, st, [x for x in self.stack]))

    def run_root(self, key, pre=None, args=None):
        fn = self.p.fns[key]
        st = State()
        if args is None:
            args = []
            for i in range(fn["argc"]):
                nm = fn["names"].get(str(i + 1), "a%d" % i)
                args.append(self.mk(fn["locals"][i + 1], nm))
        if pre:
            r = pre(self, st, args)
            if r is not None:
                args = r
        for a in args:
            if isinstance(a, Ptr):
                try:
                    self.load(st, a.root, a.path)
                except Give:
                    pass
        self.args0, self.root_args = st.copy(), list(args)
        return self.call_body(st, key, args, "root")

    def call_body(self, st, key, args, span):
        fn = self.p.fns[key]
        if len(self.stack) > 60:
            raise Give("call depth")
        if sum(1 for k, _ in self.stack if k == key) > 3:
            raise Give("recursion in " + fn["p"])
        self.fns_seen.add(key)
        self.fid += 1
        fid = self.fid
        self.frames[fid] = fn
        if fn.get("spread") and len(args) != fn["argc"]:
            args = args[:-1] + [Tup(tuple(args[-1]))]
        if key.startswith("closure:") and len(args) == 2 and isinstance(args[1], Tup) and len(args[1].f) == fn["argc"] - 1 \
                and (fn["argc"] != 2 or self.T(fn["locals"][2])["k"] != "tuple"):
            args = [args[0]] + list(args[1].f)    # "rust-call" arguments
        if len(args) != fn["argc"]:
            raise Give("arity of %s: %d of %d" % (key[-200:], len(args), fn["argc"]))
        for i, a in enumerate(args):
            st.mem[("L", fid, i + 1)] = a
        self.stack.append((key, span))
        try:
            outs, ex, backs = self.region(fid, key, [(0, 0, st)], None, None)
        except Give as e:
            if not getattr(e, "stack", None):
                e.stack = list(self.stack)
            raise
        finally:
            self.stack.pop()
        own = [("L", fid, i) for i in range(len(fn["locals"]))]
        for s, _ in outs:
            for k in own:
                s.mem.pop(k, None)
        return outs

    def region(self, fid, key, work, head, body):
        """Runs until every path returned, left the loop body or came back to
        its head.  -> (returns [(st, val)], exits [(bb, st)], backs [st])"""
        fn = self.p.fns[key]
        blocks = fn["blocks"]
        loops = self.p.loop_info(key)
        rets, exits, backs = [], [], []
        first = True
        while work:
            bb, si, st = work.pop()
            if si == -1:
                si = 0
            elif si == 0:
                if head is not None:
                    if bb == head and not first:
                        backs.append(st)
                        continue
                    if bb not in body:
                        exits.append((bb, st))
                        continue
                if bb in loops and not (bb == head):
                    r, e = self.loop(fid, key, bb, loops[bb], st)
                    rets += r
                    for b2, s2 in e:
                        work.append((b2, 0, s2))
                    first = False
                    continue
            first = False
            if len(rets) + len(work) > self.MAXPATHS:
                raise Give("too many paths")
            b = blocks[bb]
            stm = b["s"]
            forked = False
            n = len(stm)
            while si < n:
                self.steps += 1
                if self.steps > self.MAXSTEPS:
                    raise Give("step budget")
                s = stm[si]
                if s[0] == "=":
                    snap = None
                    try:
                        v = self.rv(st, fid, s[2], None)
                        if isinstance(v, Tup) and len(v.f) == 2 and isinstance(v.f[0], Wrap):
                            v = self.settle(st, v)
                        self.write(st, fid, s[1], v)
                    except Fork as fk:
                        for x in fk.states:
                            work.append((bb, si or -1, x))
                        forked = True
                        break
                elif s[0] == "sd":
                    root, path, _ = self.loc(st, fid, s[1])
                    v = self.load(st, root, path)
                    if isinstance(v, Adt):
                        t = self.T(v.ty)
                        nf = len(t["v"][s[2]]["f"])
                        self.store(st, root, path, Adt(v.ty, s[2], (v.f + (None,) * nf)[:nf]))
                    else:
                        raise Give("set discriminant")
                elif s[0] == "cno":
                    raise Give("copy_nonoverlapping")
                si += 1
            if forked:
                continue
            self.steps += 1
            try:
                self.term(fid, key, bb, b["t"], st, work, rets)
            except Fork as fk:
                for x in fk.states:
                    work.append((bb, n or -1, x))
        return rets, exits, backs

    def settle(self, st, v):
        """(value, overflowed) pair of a checked operation"""
        w, ovf = v.f
        t = st.truth(ovf)
        if t is False:
            return Tup((w.x, FALSE))
        # the flag is tested right away by an assert: keep the exact value for
        # the no-overflow side, which is the only one that continues
        return Tup((w.x, ovf if t is None else TRUE))

    def term(self, fid, key, bb, t, st, work, rets):
        k = t[0]
        if k == "goto":
            work.append((t[1], 0, st))
        elif k == "ret":
            v = st.mem.get(("L", fid, 0))
            if v is None:
                v = self.uninit(st, self.frames[fid]["locals"][0])
            rets.append((st, v))
        elif k == "unreachable":
            return
        elif k == "drop":
            work.append((t[2], 0, st))
        elif k == "switch":
            self.switch(fid, t, st, work)
        elif k == "assert":
            c = self.cond(st, self.op(st, fid, t[1]))
            tv = st.truth(c)
            want = t[2]
            if tv is None:
                bad = st.copy()
                for b in bad.assume(c, not want):
                    self.panic(self.assert_msg(t[3]), t[5], b, key)
                for g in st.assume(c, want):
                    work.append((t[4], 0, g))
            elif tv == want:
                work.append((t[4], 0, st))
            else:
                self.panic(self.assert_msg(t[3]), t[5], st, key)
        elif k == "call":
            self.do_call(fid, key, t, st, work)
        elif k == "cleanup":
            return
        else:
            raise Give("terminator %r" % (t,))

    def assert_msg(self, m):
        if isinstance(m, list):
            return m[0] + (" " + m[1] if len(m) > 1 and isinstance(m[1], str) else "")
        return str(m)

    def switch(self, fid, t, st, work):
        v = self.op(st, fid, t[1])
        tt = self.T(t[4])
        if tt["k"] == "bool":
            c = self.cond(st, v)
            d = st.facts.get(("decided", c))
            arms = {val: b for val, b in t[2]}
            tb = arms.get(1, t[3])
            fb = arms.get(0, t[3])
            tv = d if d is not None else st.truth(c)
            if tv is True:
                work.append((tb, 0, st))
            elif tv is False:
                work.append((fb, 0, st))
            else:
                o = st.copy()
                for s in o.assume(c, False):
                    work.append((fb, 0, s))
                for s in st.assume(c, True):
                    work.append((tb, 0, s))
            return
        if isinstance(v, Discr):
            i = st.facts.get(v.name)
            vs = self.T(v.ty)["v"]
            cand = range(len(vs)) if i is None else [i]
            arms = {val: b for val, b in t[2]}
            # symbol standing for the discriminant value, if it was used as one
            todo = []
            for j in cand:
                s = st.copy() if i is None else st
                s.facts[v.name] = j
                b = arms.get(vs[j]["d"], t[3])
                if b is not None:
                    todo.append((b, 0, s))
            work += reversed(todo)
            return
        x = self.num(st, v)
        w, signed = self.bits(t[4])
        n = st.norm(x)
        if not n.t:
            for val, b in t[2]:
                if signed and val >= 1 << (w - 1):
                    val -= 1 << w
                if n.c == val:
                    work.append((b, 0, st))
                    return
            if t[3] is not None:
                work.append((t[3], 0, st))
            return
        rest = st
        for val, b in t[2]:
            if signed and val >= 1 << (w - 1):
                val -= 1 << w
            s = rest.copy()
            if s.add_eq(x - val):
                work.append((b, 0, s))
            if not rest.add_ne(x - val):
                rest = None
                break
        if rest is not None and t[3] is not None:
            work.append((t[3], 0, rest))

    # ------------------------------------------------------------ calls
    def do_call(self, fid, key, t, st, work):
        f = self.op(st, fid, t[1])
        args = [self.op(st, fid, a) for a in t[2]]
        dest, target, span = t[3], t[4], t[5]
        self.calls_seen += 1
        dty = self.place_ty(fid, dest)
        outs = self.call(st, f, args, span, dty, key)
        if target is None:
            for s, v in outs:
                if v is not NEVER:
                    pass
            return
        for s, v in outs:
            if v is NEVER:
                continue
            self.write(s, fid, dest, v)
            work.append((target, 0, s))

    def call(self, st, f, args, span, dty, caller=None):
        if isinstance(f, Clo):
            return self.call_closure(st, f, args, span, dty)
        if not isinstance(f, FnV):
            return self.unknown(st, "indirect call", args, dty)
        c = f.c.c
        if self.hook:
            r = self.hook(self, st, c, args, span, dty)
            if r is not None:
                return r
        import natives
        r = natives.call(self, st, c, args, span, dty)
        if r is not None:
            return r
        b = c.get("fn")
        if b and b in self.p.fns:
            return self.call_body(st, b, args, span)
        return self.unknown(st, c.get("ps") or c.get("r") or c["d"], args, dty)

    def call_closure(self, st, clo, args, span, dty, by_ref=None):
        fn = self.p.fns.get(clo.fn)
        if fn is None:
            return self.unknown(st, "closure", args, dty)
        t0 = self.T(fn["locals"][1])
        if t0["k"] == "ref":
            if by_ref is None:
                self.fid += 1
                r = ("H", self.fid)
                st.mem[r] = clo
                by_ref = Ptr(r, ())
            self_arg = by_ref
        else:
            self_arg = clo
        return self.call_body(st, clo.fn, [self_arg] + list(args), span)

    def unknown(self, st, what, args, dty):
        self.unknown_calls.add(what)
        st.imp += ("call " + what,)
        if dty is not None and self.T(dty)["k"] == "never":
            return []
        self.fid += 1
        for a in args:
            self.clobber(st, a)
        if dty is None:
            return [(st, Sy(0, "unknown%d" % self.fid))]
        t = self.T(dty)
        if t["k"] == "tuple" and not t["f"]:
            return [(st, UNIT)]
        return [(st, self.mk(dty, "ret%d:%s" % (self.fid, what)))]

    def clobber(self, st, a):
        pass

    # ------------------------------------------------------------ loops
    def loop(self, fid, key, head, body, st0):
        """-> (returns, exits)"""
        rets, exits = [], []
        cur = [st0.copy()]
        limit = self.unroll if self.mode == "proof" else self.unroll
        npan = len(self.panics)
        n = 0
        hard = self.hard
        forked = False
        done = False
        while cur:
            nxt = []
            for s in cur:
                r, e, b = self.region(fid, key, [(head, 0, s)], head, body)
                rets += r
                exits += e
                nxt += b
                if len(b) + len(e) + len(r) > 1:
                    forked = True
            n += 1
            cur = nxt
            if n >= (limit if forked else hard) and cur:
                break
        if not cur:
            return rets, exits
        if self.mode == "exact":
            self.truncated = True
            return rets, exits
        del self.panics[npan:]
        return self.widen(fid, key, head, body, st0)

    def widen(self, fid, key, head, body, st0):
        import widen
        return widen.run(self, fid, key, head, body, st0)


_bytes = {}


def const_bytes(b):
    v = _bytes.get(b)
    if v is None:
        v = _bytes[b] = Arr(tuple(K(x) for x in b))
    return v


def prefix_bytes(parts):
    """the bytes at the start of joined text, as far as they are single bytes"""
    out = ()
    for p in parts:
        if isinstance(p, bytes):
            out += tuple(K(x) for x in p)
        elif p[0] == "chr" and p[1].rng()[1] is not None and p[1].rng()[1] < 128:
            out += (p[1],)
        else:
            break
    return Arr(out)


class Wrap:
    """mathematical result of a checked operation, before the overflow test"""
    __slots__ = ("x", "w", "signed")

    def __init__(self, x, w, signed):
        self.x, self.w, self.signed = x, w, signed


NEVER = object()
