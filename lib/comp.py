"""Interprets the schema compiler's own MIR on schemas of known shape whose
numbers are abstract."""
import math
import struct

import natives_comp as NC
import natives_gen
import numdom as N
from interp import Interp, State, SliceV, Ptr, Adt, Sy, Tup, Arr, Term, It, Give, UNIT
from numdom import Lin, K, var


class Num:
    """an abstract number of a schema"""
    def __init__(self, name, lo=0, hi=(1 << 64) - 1):
        self.name, self.lo, self.hi = name, lo, hi

    def lin(self):
        return var(self.name, self.lo, self.hi)

    def __repr__(self):
        return "<%s>" % self.name


class Model:
    """builds values of the compiler's model types from schema dictionaries"""

    ALIASES = {"type_name": "type"}

    def __init__(self, prog):
        self.p = prog
        self.I = Interp(prog, mode="exact")

    def by_name(self, s):
        i = self.p.find(s)
        if i is None:
            raise Give("type " + s)
        return i

    def make(self, ty, v):
        t = self.p.types[ty]
        k = t["k"]
        if k in ("uint", "int"):
            return v.lin() if isinstance(v, Num) else K(int(v))
        if k == "bool":
            return ("c", bool(v))
        if k == "float":
            if isinstance(v, Num):
                return Term("f64", (v.lin(),))
            b = struct.unpack("<Q", struct.pack("<d", float(v)))[0]
            return Term("f64", (K(b),))
        p = t.get("p", "")
        if p == "alloc::string::String":
            if isinstance(v, Num):
                return NC.join((("num", v.lin()),))
            return NC.text(v)
        if p == "core::option::Option":
            return Adt(ty, 0, ()) if v is None else Adt(ty, 1, (self.make(t["a"][0], v),))
        if p == "alloc::vec::Vec":
            return Arr(tuple(self.make(t["a"][0], x) for x in v), "vec")
        if p.endswith("HashMap"):
            return Tup(tuple(Tup((self.make(t["a"][0], a), self.make(t["a"][1], b))) for a, b in v.items()), "map")
        if k == "adt" and not t["enum"]:
            return Adt(ty, 0, tuple(self.make(ft, v.get(self.ALIASES.get(n, n), v.get(n))) for n, ft in t["v"][0]["f"]))
        if k == "adt":
            if isinstance(v, str):
                tag, v = v, {}
            else:
                tag = v["type"]
            for i, q in enumerate(t["v"]):
                if kebab(q["n"]) == tag:
                    return Adt(ty, i, tuple(self.make(ft, v.get(n)) for n, ft in q["f"]))
            raise Give("variant " + tag)
        raise Give("model type " + t["s"])

    def schema(self, s):
        return self.make(self.by_name("bp3d_protoc::model::protocol::Protocol"), s)


def kebab(n):
    out = ""
    for i, ch in enumerate(n):
        if ch.isupper():
            out += ("-" if i else "") + ch.lower()
        else:
            out += ch
    return out


class V:
    """lazy reader of a compiler value"""

    def __init__(self, I, st, v, ptr=None):
        self.I, self.st, self.ptr = I, st, ptr
        while isinstance(v, Ptr):
            self.ptr = v
            v = I.load(st, v.root, v.path)
        if isinstance(v, Adt):
            t = I.T(v.ty)
            if t["p"].endswith("cell::Cell") or t["p"].endswith("UnsafeCell"):
                v = V(I, st, v.f[0]).v
        self.v = v

    def sub(self, x):
        return V(self.I, self.st, x)

    @property
    def var(self):
        return self.I.T(self.v.ty)["v"][self.v.var]["n"]

    @property
    def none(self):
        return self.I.T(self.v.ty)["p"] == "core::option::Option" and self.v.var == 0

    def __getitem__(self, k):
        v = self.v
        if isinstance(k, str):
            t = self.I.T(v.ty)["v"][v.var]
            for (n, _), x in zip(t["f"], v.f):
                if n == k:
                    return self.sub(x)
            raise Give("no field %s in %s" % (k, t["n"]))
        return self.sub(v.f[k])

    def has(self, k):
        return any(n == k for n, _ in self.I.T(self.v.ty)["v"][self.v.var]["f"])

    def __iter__(self):
        if not isinstance(self.v, (Tup, Arr)):
            raise Give("not a sequence: %r" % (self.v,))
        return iter([self.sub(x) for x in self.v.f])

    def __len__(self):
        return len(self.v.f)

    def items(self):
        if not (isinstance(self.v, Tup) and self.v.tag == "map"):
            raise Give("not a map")
        return [(self.sub(e.f[0]), self.sub(e.f[1])) for e in self.v.f]

    def entry(self, name):
        for k, v in self.items():
            if k.text == name:
                return v
        return None

    @property
    def lin(self):
        if not isinstance(self.v, Lin):
            raise Give("not a number: %r" % (self.v,))
        return self.st.norm(self.v)

    @property
    def text(self):
        b = NC.known(self.v) if isinstance(self.v, SliceV) else None
        if b is None:
            raise Give("text not known: %r" % (self.v,))
        return b.decode()

    @property
    def flag(self):
        v = self.v
        if isinstance(v, tuple) and v and v[0] == "c":
            return v[1]
        raise Give("flag not known: %r" % (v,))

    def same(self, o):
        """one and the same object"""
        return self.ptr is not None and o.ptr is not None and (self.ptr.root, self.ptr.path) == (o.ptr.root, o.ptr.path)


class Compiler:
    """abstract execution of Protocol::from_model"""

    def __init__(self, prog, unroll=40):
        self.p = prog
        self.m = Model(prog)
        self.unroll = unroll
        self.key = self.entry(r"compiler::Protocol::from_model")
        self.solver_ty = prog.find("bp3d_protoc::util::SimpleImportSolver<'_>")
        self.stats = {"steps": 0, "calls": 0, "outs": 0, "fns": set(), "unknown": set()}

    def entry(self, part):
        import re
        ks = [k for k, f in self.p.fns.items() if re.search(part, k) and not k.startswith("closure") and "Result" not in k.split("(")[0].split("::<")[0]]
        if not ks:
            raise Give("no body of " + part)
        return min(ks, key=len)

    def interp(self):
        I = Interp(self.p, mode="exact", hook=NC.hook, unroll=self.unroll)
        I.MAXSTEPS = 4000000
        I.hard = max(70, self.unroll)
        return I

    def run(self, schema, imports=(), pre=None):
        """-> (interpreter, [(state, result value)]); imports: [(path, protocol value)] from compiled()"""
        I = self.interp()
        st = State()
        imp = Tup(tuple(Tup((NC.text(n), Tup((NC.text(p), v)))) for n, p, v in imports), "map")
        return I, self.go(I, st, schema, imp, pre)

    def go(self, I, st, schema, imp, pre=None):
        I.fid += 1
        root = ("H", I.fid)
        st.mem[root] = Adt(self.solver_ty, 0, (imp, NC.text("::")))
        args = [self.m.schema(schema), Ptr(root, ())]
        if pre:
            pre(st)
        I.args0, I.root_args = st.copy(), args
        outs = I.call_body(st, self.key, args, "root")
        return outs

    def chain(self, schemas, last):
        """compile imported schemas first (each must succeed), then `last`;
        schemas: [(import path, schema)]"""
        I = self.interp()
        work = [(State(), ())]
        for path, s in schemas:
            nxt = []
            for st, imp in work:
                for q, r in self.go(I, st, s, Tup(imp, "map")):
                    if r.var == 0:
                        nxt.append((q, imp + (Tup((NC.text(s["name"]), Tup((NC.text(path), r.f[0])))),)))
            work = nxt
        outs = []
        for st, imp in work:
            outs += self.go(I, st, last, Tup(imp, "map"))
        return I, outs
