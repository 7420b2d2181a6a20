"""Reference semantics of a schema: where every field of a structure lives and
how messages and unions are put together.  Written from the documentation of
the schema language, independently of the compiler."""


def int_width(bits):
    for w in (8, 16, 32, 64):
        if bits <= w:
            return w
    raise ValueError(bits)


class Field:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.bits = 0           # width of one item
        self.off = 0            # bit offset
        self.count = None       # array length
        self.struct = None
        self.view = None

    @property
    def start(self):
        return self.off // 8

    @property
    def shift(self):
        return self.off % 8

    @property
    def nbytes(self):
        return (self.bits + 7) // 8


class Struct:
    def __init__(self, name, end):
        self.name, self.end, self.fields, self.bits = name, end, [], 0

    @property
    def size(self):
        return (self.bits + 7) // 8


class Protocol:
    def __init__(self, schema, imports=()):
        self.schema = schema
        self.name = schema["name"]
        self.end = schema.get("endianness") or "little"
        self.imports = list(imports)
        self.enums = {e["name"]: e["variants"] for e in schema.get("enums") or []}
        self.structs = {}
        self.unions = {u["name"]: u for u in schema.get("unions") or []}
        self.messages = {m["name"]: m for m in schema.get("messages") or []}
        for s in schema.get("structs") or []:
            self.structs[s["name"]] = self.layout(s)

    def find(self, kind, name):
        """(declaring protocol, declaration)"""
        if name in getattr(self, kind):
            return self, getattr(self, kind)[name]
        imported = {i["type"] for i in self.schema.get("imports") or []}
        for p in self.imports:
            if name in imported and name in getattr(p, kind):
                return p, getattr(p, kind)[name]
        return None, None

    def layout(self, s):
        r = Struct(s["name"], self.end)
        pos = 0
        for f in s["fields"]:
            t = f["info"]["type"]
            x = Field(f["name"], t)
            x.view = f.get("view")
            x.off = pos
            if t == "struct":
                p, x.struct = self.find("structs", f["info"]["item_type"])
                x.bits = x.struct.bits
            else:
                x.bits = f["info"]["bits"]
            x.count = f.get("array_len")
            if x.count == 1:
                x.count = None
            pos += x.bits * (x.count or 1)
            r.fields.append(x)
        r.bits = pos
        return r

    def enum(self, name):
        return self.find("enums", name)[1]


def case_value(union, case, proto):
    """numeric value of a union case"""
    try:
        return int(case["case"])
    except ValueError:
        pass
    path = union["discriminant"].split(".")
    p, s = proto.find("structs", path[0])
    f = None
    for n in path[1:]:
        f = [x for x in s.fields if x.name == n][0]
        s = f.struct
    return p.enum(f.view["name"])[case["case"]]


def discriminant(union, proto):
    """[field ...] from the root structure of the path"""
    path = union["discriminant"].split(".")
    p, s = proto.find("structs", path[0])
    out = [s]
    for n in path[1:]:
        f = [x for x in s.fields if x.name == n][0]
        out.append(f)
        s = f.struct
    return p, out
