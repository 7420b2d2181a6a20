"""What compiling a schema has to mean, written from the documentation of the
schema language and the properties, independently of the compiler's code.

The numbers of a schema are linear expressions; `D.yes(condition)` decides a
condition on the current path class and splits the class when it is open."""
import re

import numdom as N
from numdom import Lin, K
from comp import Num
from interp import Give

USIZE = (1 << 64) - 1
INTS = (8, 16, 32, 64)


class Reject(Exception):
    def __init__(self, prop, why):
        self.prop, self.why = prop, why


class D:
    """decisions along one path class"""

    def __init__(self, st, trail):
        self.st, self.trail, self.pos, self.more = st, list(trail), 0, []
        self.maybe = None          # a reason for which refusing is acceptable as well

    def yes(self, c):
        t = self.st.truth(c)
        if t is not None:
            return t
        alts = [(w, s) for w in (True, False) for s in self.st.copy().assume(c, w) if not s.bad()]
        if self.pos >= len(self.trail):
            self.more += [self.trail + [i] for i in range(1, len(alts))]
            self.trail.append(0)
        i = self.trail[self.pos]
        self.pos += 1
        w, self.st = alts[i]
        return w

    def le(self, a, b):
        return self.yes(("ge", self.l(b) - self.l(a)))

    def eq(self, a, b):
        return self.yes(("eq", self.l(a) - self.l(b)))

    def l(self, x):
        if isinstance(x, Num):
            return self.st.norm(x.lin())
        if isinstance(x, Lin):
            return self.st.norm(x)
        return K(int(x))


def explore(st, fn):
    """[(decider, result | Reject)] for every split of the path class"""
    todo, out = [[]], []
    while todo:
        d = D(st.copy(), todo.pop())
        try:
            r = fn(d)
        except Reject as e:
            r = e
        todo += d.more
        out.append((d, r))
        if len(out) > 64:
            raise Give("too many cases in the reference")
    return out


def mod8(d, off):
    off = d.l(off)
    if all(c % 8 == 0 for _, c in off.t):
        return off.c % 8
    raise Give("offset %r is not of known alignment" % off)


def smallest_for(d, value):
    for n in (8, 16, 32):
        if d.le(value, (1 << n) - 1):
            return n
    return 64


def smallest_bits(bits):
    return next(n for n in INTS if bits <= n)


class Proto:
    def __init__(self, name, endian, path=None):
        self.name, self.endian, self.path = name, endian, path
        self.types = {}      # name -> object visible under that name
        self.own = []
        self.imported = {}   # name -> import path

    def find(self, kinds, name):
        o = self.types.get(name)
        return o if o is not None and o.kind in kinds else None

    def declare(self, o):
        if o.name in self.types:
            raise Reject("C22", "type name '%s' declared twice" % o.name)
        self.types[o.name] = o
        self.own.append(o)


class O:
    def __init__(self, kind, name, **k):
        self.kind, self.name = kind, name
        self.__dict__.update(k)


def compile(d, s, imports=()):
    """imports: {protocol name: Proto}"""
    p = Proto(s["name"], s.get("endianness") or "little")
    for im in s.get("imports") or ():
        q = imports.get(im["protocol"])
        if q is None:
            raise Reject("C22", "import from an unknown protocol")
        o = q.types.get(im["type"])
        if o is None:
            raise Reject("C22", "import of an undefined type")
        path = q.imported.get(im["type"]) or q.path + "::" + im["type"]
        if im["type"] in p.types:
            if p.imported.get(im["type"]) != path:
                raise Reject("C22", "two types imported under one name")
        p.types[im["type"]] = o
        p.imported[im["type"]] = path
    for e in s.get("enums") or ():
        p.declare(enum(d, p, e))
    for e in s.get("structs") or ():
        p.declare(struct(d, p, e))
    for e in s.get("unions") or ():
        p.declare(union(d, p, e))
    for e in s.get("messages") or ():
        p.declare(message(d, p, e))
    return p


def enum(d, p, e):
    vs = {k: d.l(v) for k, v in e["variants"].items()}
    if not vs:
        raise Reject("C15", "an enumeration without variants")
    names = list(vs)
    for i, a in enumerate(names):
        for b in names[:i]:
            if d.eq(vs[a], vs[b]):
                raise Reject("C26", "an enumeration with two variants of one value")
    big = vs[names[0]]
    for a in names[1:]:
        if not d.le(vs[a], big):
            big = vs[a]
    return O("enum", e["name"], variants=vs, largest=big)


def struct(d, p, e):
    off, fields = K(0), []
    for f in e["fields"]:
        o = struct_field(d, p, off, f)
        fields.append(o)
        off = o.next
    return O("struct", e["name"], fields=fields, bits=off, endian=p.endian)


def struct_field(d, p, off, f):
    info = f["info"]
    if info["type"] == "struct":
        r = p.find(("struct",), info["item_type"])
        if r is None:
            raise Reject("C22", "a field of an undefined structure")
        if mod8(d, off):
            raise Reject("C13", "a nested structure which does not start at a byte")
        if not d.le(off + r.bits, USIZE):
            raise Reject("C13", "a structure larger than the address space")
        return O("field", f["name"], fk="Struct", r=r, off=off, bits=r.bits, next=off + r.bits)
    kind, bits = info["type"], info["bits"]
    if isinstance(bits, Num):
        if d.le(bits, 0) or d.le(65, bits):
            raise Reject("C23", "an unsupported bit size")
        raise Give("open bit size")
    if bits < 1 or bits > 64:
        raise Reject("C23", "a field of %d bits" % bits)
    v = view(d, p, kind, bits, f.get("view"))
    n = d.l(1 if f.get("array_len") is None else f["array_len"])
    if d.le(n, 0):
        raise Reject("C12", "an array without items")
    many = not d.eq(n, 1)
    n = n if many else K(1)
    n = d.l(n)
    if many:
        if bits % 8 or mod8(d, off):
            raise Reject("C13", "an array which is not byte aligned")
        if v[0] not in ("raw", "enum") and not (v[0] == "cast" and bits in INTS and kind != "boolean") and not (kind == "boolean" and bits == 8):
            raise Reject("C14", "an array with a converting view")
    if not d.le(N.mul(n, K(bits)) if n.t else K(n.c * bits), USIZE):
        raise Reject("C13", "a field larger than the address space")
    total = d.l(N.mul(n, K(bits)) if n.t else K(n.c * bits))
    if not d.le(off + total, USIZE):
        raise Reject("C13", "a structure larger than the address space")
    if not many and mod8(d, off) + bits > (bits + 7) // 8 * 8:
        raise Reject("C13", "a field spread over one byte more than it has")
    return O("field", f["name"], fk="Array" if many else "Fixed", off=off, bits=total, item=bits, n=n, type=kind, view=v, next=off + total, endian=p.endian)


def view(d, p, kind, bits, v):
    if v is None:
        if kind == "float" and bits not in (32, 64):
            raise Reject("C14", "a float of %d bits without a range" % bits)
        if kind == "unsigned":
            return ("raw",)
        if kind == "signed" and bits not in INTS:
            return ("sign", (1 << (bits - 1)) - 1)
        return ("cast",)
    if v["type"] == "enum":
        if kind != "unsigned":
            raise Reject("C15", "an enumeration in a field which is not unsigned")
        e = p.find(("enum",), v["name"])
        if e is None:
            raise Reject("C22", "a view of an undefined enumeration")
        if not d.le(e.largest, (1 << bits) - 1):
            raise Reject("C15", "an enumeration which does not fit in its field")
        return ("enum", e)
    if kind != "float":
        raise Reject("C14", "a float view of a field which is not a float")
    d.maybe = "a float view may be refused when its inverse is not finite"
    if v["type"] == "float-range":
        return ("affine", v["min"], v["max"], (1 << bits) - 1)
    return ("scale", v["multiplier"])


def case_value(d, text, bits, signed, wide):
    """raw value of a case: the number in two's complement"""
    if isinstance(text, Num):
        x = d.l(text)
    else:
        if not re.fullmatch(r"[+-]?[0-9]+", text) or abs(int(text)) >= 1 << 127:
            raise Reject("C18", "a case which is not a number")
        x = K(int(text))
    if not d.le(x, (1 << bits) - 1) or not d.le(-(1 << (bits - 1)) if signed else 0, x):
        raise Reject("C18", "a case outside the values of its discriminant")
    if d.yes(("ge", -x - 1)):
        return d.l(x + (1 << bits))
    x = d.l(x)
    if signed and not d.le(x, (1 << (bits - 1)) - 1):
        d.maybe = "a negative value may be given by its raw form or not"
    if wide and not d.le(x, 1):
        d.maybe = "a boolean may be compared with wider raw values or not"
    return x


def union(d, p, e):
    parts = e["discriminant"].split(".")
    root = leaf = p.find(("struct",), parts[0])
    if root is None:
        raise Reject("C22", "a discriminant in an undefined structure")
    field, path = None, []
    for part in parts[1:]:
        if field is not None:
            raise Reject("C18", "a discriminant path which goes on after a number")
        hits = [(i, f) for i, f in enumerate(leaf.fields) if f.name == part]
        if not hits:
            raise Reject("C22", "a discriminant field which is not declared")
        i, f = hits[0]
        path.append(i)
        if f.fk == "Array":
            raise Reject("C18", "an array used as a discriminant")
        if f.fk == "Fixed":
            field = f
        else:
            leaf = f.r
    if field is None:
        raise Reject("C18", "a structure used as a discriminant")
    cases = []
    for c in e["cases"]:
        v = field.view
        if field.type == "float":
            raise Reject("C18", "a float used as a discriminant")
        if v[0] == "enum":
            if isinstance(c["case"], Num) or c["case"] not in v[1].variants:
                raise Reject("C22", "a case which is not a variant of the enumeration")
            x = v[1].variants[c["case"]]
        else:
            x = case_value(d, c["case"], field.item, field.type == "signed", field.type == "boolean")
        t = None
        if c.get("item_type") is not None:
            t = p.find(("struct", "message"), c["item_type"])
            if t is None:
                raise Reject("C22", "a case of an undefined type")
            if t.kind == "message":
                t.embedded = True
        for o in cases:
            if d.eq(o.value, x):
                raise Reject("C18", "two cases for one discriminant value")
        cases.append(O("case", c["name"], value=x, item=t))
    ms = [c.item for c in cases if c.item is not None and c.item.kind == "message"]
    return O("union", e["name"], root=root, leaf=leaf, field=field, path=path, cases=cases,
             dyn=any(m.dyn for m in ms), edyn=any(m.edyn for m in ms), pay=any(m.pay for m in ms))


def message(d, p, e):
    fields = []
    for f in e["fields"]:
        if fields and fields[-1].pay:
            raise Reject("C24", "something after a payload")
        o = message_field(d, p, fields, f)
        if any(x.edyn for x in fields) and (o.dyn or o.edyn):
            raise Reject("C24", "something of variable size after an element whose items have variable size")
        fields.append(o)
    return O("message", e["name"], fields=fields, dyn=any(f.dyn for f in fields), edyn=any(f.edyn for f in fields),
             pay=any(f.pay for f in fields), embedded=False, endian=p.endian)


def message_field(d, p, before, f):
    info = f["info"]
    kind = info["type"]
    base = dict(optional=bool(f.get("optional")), endian=p.endian, dyn=False, edyn=False, pay=False)
    if kind in ("item", "list"):
        r = p.find(("struct", "message"), info["item_type"])
        if r is None:
            raise Reject("C22", "a field of an undefined type")
        if kind == "list":
            n = smallest_for(d, info["max_len"])
            if r.kind == "message":
                if r.pay:
                    raise Reject("C24", "a list of items which end with a payload")
                r.embedded = True
            base.update(dyn=True, edyn=r.kind == "message")
            return O("field", f["name"], fk="List" if r.kind == "message" else "Array", r=r, prefix=n, **base)
        if r.kind == "message":
            r.embedded = True
            base.update(dyn=r.dyn, edyn=r.edyn, pay=r.pay)
        return O("field", f["name"], fk="Ref", r=r, **base)
    if kind == "string":
        base.update(dyn=True)
        if info.get("max_len") is None:
            return O("field", f["name"], fk="NullTerminatedString", **base)
        return O("field", f["name"], fk="VarcharString", prefix=smallest_for(d, info["max_len"]), **base)
    if kind == "payload":
        base.update(dyn=True, edyn=True, pay=True)
        return O("field", f["name"], fk="Payload", **base)
    on = [(i, x) for i, x in enumerate(before) if x.name == info["on"]]
    if not on:
        raise Reject("C22", "a union on an undeclared field")
    r = p.find(("union",), info["item_type"])
    if r is None:
        raise Reject("C22", "a field of an undefined union")
    i, x = on[0]
    if x.fk != "Ref" or x.r is not r.root:
        raise Reject("C18", "a union on a field which is not its discriminant's structure")
    if len(r.root.fields) == 1:
        d.maybe = "structures of one field may be inlined in the message"
    base.update(optional=False, dyn=r.dyn, edyn=r.edyn, pay=r.pay)
    return O("field", f["name"], fk="Union", r=r, on=i, **base)
