"""Numeric abstract domain: linear inequalities over symbols, refined by bit
provenance (which input bit each bit of an integer comes from).

Lin  -- linear expression  c + sum k_i * s_i   (exact mathematical integer)
Sym  -- symbol with a range; may be *derived*: bits (a tuple of bit sources),
        quotient, product or alias of a linear expression.
"""
import random


class Sym:
    __slots__ = ("id", "name", "lo", "hi", "bits", "signed", "ev", "defs", "deps", "app", "neg")

    def __init__(self, i, name, lo, hi):
        self.id, self.name, self.lo, self.hi = i, name, lo, hi
        self.bits = None      # tuple of 0 | 1 | (Sym, index)
        self.signed = False   # bits are two's complement
        self.ev = None        # derived: function(assignment) -> int
        self.defs = ()        # Lin >= 0 facts that define the symbol
        self.deps = ()        # symbols ev depends on
        self.neg = None       # (symbol, bit) this one-bit symbol is the negation of
        self.app = None       # (function, argument expressions): value of an unknown function

    def __repr__(self):
        return self.name

    def __lt__(self, o):
        return self.id < o.id


class Lin:
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t            # tuple of (Sym, coef), sorted by id
        self.h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.c == o.c and self.t == o.t)

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.c, tuple((s.id, k) for s, k in self.t)))
        return self.h

    def __repr__(self):
        r = []
        for s, k in self.t:
            r.append(("%s" % s) if k == 1 else "%d*%s" % (k, s))
        if self.c or not r:
            r.append(str(self.c))
        return "(" + " + ".join(r) + ")"

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            d[s] = d.get(s, 0) + k
        return Lin(self.c + o.c, tuple(sorted(((s, k) for s, k in d.items() if k), key=lambda x: x[0].id)))

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin(self.c * k, tuple((s, q * k) for s, q in self.t))

    def rng(self):
        lo = hi = self.c
        for s, k in self.t:
            a, b = (s.lo, s.hi) if k > 0 else (s.hi, s.lo)
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        return lo, hi

    def single(self):
        """the symbol, when the expression is exactly one symbol"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None


ZERO = Lin(0)
ONE = Lin(1)


def K(n):
    return Lin(n)


class Ctx:
    def __init__(self):
        self.n = 0
        self.named = {}
        self.memo = {}
        self.srcs = {}
        self.cache = {}
        self.steps = 0

    def sym(self, name, lo, hi):
        s = self.named.get(name)
        if s is None:
            self.n += 1
            s = Sym(self.n, name, lo, hi)
            self.named[name] = s
        return s

    def fresh(self, name, lo, hi):
        self.n += 1
        return self.sym("%s#%d" % (name, self.n), lo, hi)


C = Ctx()


def reset():
    global C
    C = Ctx()


def ctx():
    return C


def var(name, lo, hi):
    if lo is not None and lo == hi:
        return K(lo)
    return Lin(0, ((C.sym(name, lo, hi), 1),))


def sl(s):
    return Lin(0, ((s, 1),))


# ---------------------------------------------------------------- bits

def base_bits(s, width):
    """bits of a base symbol"""
    if s.lo is not None and s.lo >= 0:
        n = s.hi.bit_length() if s.hi is not None else width
        return tuple((s, i) if i < n else 0 for i in range(width))
    n = 1
    while s.lo is None or not -(1 << (n - 1)) <= s.lo or s.hi >= (1 << (n - 1)):
        n += 1
        if n > width:
            break
    n = min(n, width)
    return tuple((s, min(i, n - 1)) for i in range(width))


def bits_of(lin, width):
    """two's complement bits of the value"""
    if not lin.t:
        return tuple((lin.c >> i) & 1 for i in range(width))
    s = lin.single()
    if s is None and len(lin.t) == 1 and lin.t[0][1] == -1 and lin.c > 0 and (lin.c & (lin.c + 1)) == 0:
        # 2^k - 1 - x  is the complement of x within k bits
        x, k = lin.t[0][0], lin.c.bit_length()
        if x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi <= lin.c and not x.signed:
            return tuple(notbit(z) for z in bits_of(sl(x), k)[:width]) + (0,) * (width - k)
    if s is None:
        s = alias(lin)
    if s.bits is not None:
        ext = s.bits[-1] if s.signed else 0
        b = s.bits[:width]
        return b + (ext,) * (width - len(b))
    return base_bits(s, width)


def from_bits(bits, signed=False):
    bits = tuple(bits)
    if all(not isinstance(b, tuple) for b in bits):
        v = sum(b << i for i, b in enumerate(bits))
        if signed and bits[-1]:
            v -= 1 << len(bits)
        return K(v)
    if signed and bits[-1] == 0:
        signed = False
    if not signed:
        n = len(bits)
        while n > 1 and bits[n - 1] == 0:
            n -= 1
        bits = bits[:n]
    else:
        n = len(bits)
        while n > 1 and bits[n - 1] == bits[n - 2]:
            n -= 1
        bits = bits[:n]
    # the bits of one whole symbol, in order
    b0 = bits[0]
    if isinstance(b0, tuple) and b0[1] == 0:
        s = b0[0]
        if s.bits is None and base_bits(s, max(len(bits), 1)) == bits:
            if not signed and s.lo is not None and s.lo >= 0 and s.hi < (1 << len(bits)):
                return sl(s)
            if signed and s.lo is not None and s.lo < 0 and s.lo >= -(1 << (len(bits) - 1)) and s.hi < (1 << (len(bits) - 1)):
                return sl(s)
    key = ("bits", bits, signed)
    s = C.memo.get(key)
    if s is None:
        n = len(bits)
        if signed:
            s = C.fresh("sbits", -(1 << (n - 1)), (1 << (n - 1)) - 1)
        else:
            s = C.fresh("bits", 0, sum(1 << i for i, b in enumerate(bits) if b != 0))
            s.lo = sum(1 << i for i, b in enumerate(bits) if b == 1)
        s.bits = bits
        s.signed = signed
        s.deps = tuple({b[0] for b in bits if isinstance(b, tuple)})

        def ev(a, bits=bits, signed=signed, n=n):
            v = 0
            for i, b in enumerate(bits):
                if isinstance(b, tuple):
                    b = (a[b[0]] >> b[1]) & 1
                v |= b << i
            if signed and v >> (n - 1):
                v -= 1 << n
            return v
        s.ev = ev
        C.memo[key] = s
    return sl(s)


def alias(lin):
    """a symbol equal to the expression"""
    s = lin.single()
    if s is not None:
        return s
    key = ("alias", lin)
    s = C.memo.get(key)
    if s is None:
        lo, hi = lin.rng()
        s = C.fresh("v", lo, hi)
        x = sl(s)
        s.defs = (x - lin, lin - x)
        s.ev = lambda a, lin=lin: evaluate(lin, a)
        s.deps = tuple(q for q, _ in lin.t)
        C.memo[key] = s
    return s


def is_bitish(lin):
    s = lin.single()
    return lin.is_const() or s is not None


def cast(lin, lo, hi, width, signed):
    """value of `lin as T`; exact when in range"""
    a, b = lin.rng()
    if a is not None and b is not None and a >= lo and b <= hi:
        return lin
    if lin.is_const() or (lin.single() is not None and mono_parts(lin.single()) is None):
        return from_bits(bits_of(lin, width), signed)
    # wrap:  lin - 2^n * k
    key = ("wrap", lin, width, signed)
    s = C.memo.get(key)
    if s is None:
        s = C.fresh("wrap", lo, hi)
        k = C.fresh("wrapk", None if a is None else (a - hi) // (1 << width), None if b is None else -((lo - b) // (1 << width)))
        x = sl(s) + sl(k).scale(1 << width)
        s.defs = (x - lin, lin - x)
        m = (1 << width)
        s.ev = lambda asg, lin=lin: (evaluate(lin, asg) - lo) % m + lo
        k.ev = lambda asg, lin=lin: (evaluate(lin, asg) - lo) // m
        s.deps = k.deps = tuple(q for q, _ in lin.t)
        C.memo[key] = s
    return sl(s)


def bitop(op, a, b, width, signed):
    x, y = bits_of(a, width), bits_of(b, width)
    out = []
    for p, q in zip(x, y):
        if op == "and":
            if p == 0 or q == 0:
                r = 0
            elif p == 1:
                r = q
            elif q == 1 or p == q:
                r = p
            else:
                r = None
        elif op == "or":
            if p == 1 or q == 1:
                r = 1
            elif p == 0:
                r = q
            elif q == 0 or p == q:
                r = p
            else:
                r = None
        else:
            if p == 0:
                r = q
            elif q == 0:
                r = p
            elif p == q:
                r = 0
            elif not isinstance(p, tuple) and not isinstance(q, tuple):
                r = p ^ q
            else:
                r = None
        if r is None:
            if op == "xor" and 1 in (p, q):
                z = p if q == 1 else q
                r = notbit(z)
            else:
                r = gate(op, p, q)
        out.append(r)
    return from_bits(out, signed)


def notbit(z):
    if not isinstance(z, tuple):
        return 1 - z
    s, i = z
    key = ("not", s, i)
    r = C.memo.get(key)
    if r is None:
        # double negation
        for k, v in ((k, v) for k, v in C.memo.items() if isinstance(k, tuple) and k[0] == "not" and v is s and i == 0):
            return (k[1], k[2])
        r = C.fresh("not", 0, 1)
        r.ev = lambda a: 1 - ((a[s] >> i) & 1)
        r.deps = (s,)
        r.neg = (s, i)
        C.memo[key] = r
    return (r, 0)


def gate(op, p, q):
    key = ("gate", op) + tuple(sorted((p, q), key=lambda z: (z[0].id, z[1])))
    r = C.memo.get(key)
    if r is None:
        r = C.fresh(op, 0, 1)
        f = {"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}[op]
        r.ev = lambda a: f((a[p[0]] >> p[1]) & 1, (a[q[0]] >> q[1]) & 1)
        r.deps = (p[0], q[0])
        if op == "and":
            pass
        C.memo[key] = r
    return (r, 0)


def shift(op, a, n, width, signed):
    b = bits_of(a, width)
    if op == "shl":
        b = (0,) * n + b[:width - n]
    else:
        b = b[n:] + ((b[-1] if signed else 0),) * n
    return from_bits(b, signed)


def divc(a, c):
    """a / c for a >= 0, constant c > 0"""
    if a.is_const():
        return K(a.c // c)
    if c == 1:
        return a
    if all(k % c == 0 for _, k in a.t) and a.c % c == 0:
        return Lin(a.c // c, tuple((s, k // c) for s, k in a.t))
    if c & (c - 1) == 0 and a.single() is not None and a.single().hi is not None and a.single().hi < (1 << 64):
        return shift("shr", a, c.bit_length() - 1, 64, False)
    key = ("div", a, c)
    s = C.memo.get(key)
    if s is None:
        lo, hi = a.rng()
        s = C.fresh("q", 0 if lo is None or lo < 0 else lo // c, None if hi is None else hi // c)
        x = sl(s).scale(c)
        s.defs = (a - x, x + (c - 1) - a)
        s.ev = lambda asg: evaluate(a, asg) // c
        s.deps = tuple(q for q, _ in a.t)
        C.memo[key] = s
    return sl(s)


def mul(a, b):
    if a.is_const():
        return b.scale(a.c)
    if b.is_const():
        return a.scale(b.c)
    r = a.scale(b.c)
    for s, k in b.t:
        r = r + sl(s).scale(k * a.c)
        for s2, k2 in a.t:
            r = r + sl(monomial(s, s2)).scale(k * k2)
    return r


def divv(a, b):
    """a / b for a >= 0, b > 0 (both symbolic)"""
    # exact products:  (b * x) / b
    if a == b:
        return ONE
    key = ("divv", a, b)
    s = C.memo.get(key)
    if s is None:
        lo, hi = a.rng()
        s = C.fresh("q", 0, hi)
        C.memo[key] = s
        x = mul(sl(s), b)
        s.defs = (a - x, x + b - 1 - a)
        s.ev = lambda asg: (evaluate(a, asg) // evaluate(b, asg)) if evaluate(b, asg) else 0
        s.deps = tuple(q for q, _ in a.t) + tuple(q for q, _ in b.t)
    return sl(s)


def monomial(s, t):
    if t.id < s.id:
        s, t = t, s
    key = ("mono", s, t)
    m = C.memo.get(key)
    if m is None:
        c = [None if x is None or y is None else x * y for x in (s.lo, s.hi) for y in (t.lo, t.hi)]
        if None in c:
            lo = 0 if (s.lo is not None and s.lo >= 0 and t.lo is not None and t.lo >= 0) else None
            hi = None
        else:
            lo, hi = min(c), max(c)
        m = C.fresh("%s*%s" % (s.name, t.name), lo, hi)
        m.ev = lambda a: a[s] * a[t]
        m.deps = (s, t)
        C.memo[key] = m
    return m


def mono_parts(m):
    for k, v in C.memo.items():
        if v is m and isinstance(k, tuple) and k[0] == "mono":
            return k[1], k[2]
    return None


def evaluate(lin, a):
    v = lin.c
    for s, k in lin.t:
        v += k * a[s]
    return v


# ---------------------------------------------------------------- expansion

def expand_bits(lins):
    """Rewrites the expressions so that symbols derived from shared bits become
    sums over common atoms.  Atoms are whole base symbols where every use covers
    the symbol as one run, single bits otherwise."""
    used = {}
    syms = {s for l in lins for s, _ in l.t}
    partial = set()
    for s in syms:
        if s.neg is not None:
            partial.add(s.neg[0])
        if s.bits is None:
            continue
        i = 0
        b = s.bits
        while i < len(b):
            if not isinstance(b[i], tuple):
                i += 1
                continue
            src, j = b[i]
            if src.neg is not None:
                partial.add(src.neg[0])
                i += 1
                continue
            n = width_of(src)
            if j == 0 and n is not None and b[i:i + n] == tuple((src, x) for x in range(n)) and (not s.signed or i + n < len(b)):
                i += n
            else:
                partial.add(src)
                i += 1
    memo = {}

    def ex(s):
        r = memo.get(s)
        if r is not None:
            return r
        if s.neg is not None:
            r = K(1) - atom(*s.neg)
        elif s.bits is None:
            if s in partial:
                n = width_of(s)
                if n is None:
                    r = sl(s)
                else:
                    r = ZERO
                    for i in range(n):
                        w = -(1 << i) if (s.lo < 0 and i == n - 1) else 1 << i
                        r = r + atom(s, i).scale(w)
            else:
                r = sl(s)
        else:
            r = ZERO
            b = s.bits
            i = 0
            while i < len(b):
                w = -(1 << i) if s.signed and i == len(b) - 1 else 1 << i
                if not isinstance(b[i], tuple):
                    r = r + (b[i] * w)
                    i += 1
                    continue
                src, j = b[i]
                if src.neg is not None:
                    r = r + (K(1) - atom(*src.neg)).scale(w)
                    i += 1
                    continue
                if src not in partial:
                    n = width_of(src)
                    r = r + sl(src).scale(1 << i)
                    if src.lo < 0:
                        # a signed source taken as a bit pattern
                        r = r + atom(src, n - 1).scale(1 << (i + n))
                    i += n
                else:
                    r = r + atom(src, j).scale(w)
                    i += 1
        memo[s] = r
        return r

    out = []
    for l in lins:
        r = K(l.c)
        for s, k in l.t:
            r = r + ex(s).scale(k)
        out.append(r)
    return out


def width_of(s):
    if s.lo is None or s.hi is None:
        return None
    if s.lo >= 0:
        return max(1, s.hi.bit_length())
    n = 1
    while not -(1 << (n - 1)) <= s.lo or s.hi >= (1 << (n - 1)):
        n += 1
    return n


def atom(s, i):
    if width_of(s) == 1 and i == 0 and s.lo >= 0:
        return sl(s)
    key = ("atom", s, i)
    a = C.memo.get(key)
    if a is None:
        a = C.sym("%s.%d" % (s.name, i), 0, 1)
        a.ev = lambda asg: (asg[s] >> i) & 1
        a.deps = (s,)
        C.memo[key] = a
    return sl(a)


def equal_exact(a, b):
    """the two expressions denote the same function of the inputs"""
    if a == b:
        return True
    d = a - b
    if d.is_const():
        return d.c == 0
    e, = expand_bits([d])
    return e.is_const() and e.c == 0


# ---------------------------------------------------------------- entailment

MAXROWS = 160


def norm_row(l):
    from math import gcd
    g = 0
    for _, k in l.t:
        g = gcd(g, abs(k))
    if g > 1:
        return Lin(l.c // g, tuple((s, k // g) for s, k in l.t))
    return l


def sources(s):
    """the symbol and the symbols its bits come from"""
    if s.bits is None:
        return (s, s.neg[0]) if s.neg else (s,)
    r = C.srcs.get(s)
    if r is None:
        r = {s}
        for b in s.bits:
            if isinstance(b, tuple):
                r.add(b[0])
                if b[0].neg:
                    r.add(b[0].neg[0])
        C.srcs[s] = r
    return r


def component(rows, eqs, seeds):
    """rows connected to the seed symbols (through defs, bits and products too)"""
    seeds = {q for s in seeds for q in sources(s)}
    seen = set(seeds)
    work = list(seeds)
    pool = [(r, {q for s, _ in r.t for q in sources(s)}) for r in rows]
    poole = [(r, {q for s, _ in r.t for q in sources(s)}) for r in eqs]
    outr, oute = [], []
    idx = {}
    for i, (r, ss) in enumerate(pool):
        for s in ss:
            idx.setdefault(s, []).append((0, i))
    for i, (r, ss) in enumerate(poole):
        for s in ss:
            idx.setdefault(s, []).append((1, i))
    taken = set()
    defs = []
    while work:
        s = work.pop()
        for d in s.defs:
            if d not in taken:
                taken.add(d)
                defs.append(d)
                for q, _ in d.t:
                    if q not in seen:
                        seen.add(q)
                        work.append(q)
        for kind, i in idx.get(s, ()):
            if (kind, i) in taken:
                continue
            taken.add((kind, i))
            r, ss = (pool, poole)[kind][i]
            (outr, oute)[kind].append(r)
            for q in ss:
                if q not in seen:
                    seen.add(q)
                    work.append(q)
    return outr + defs, oute, seen


def infeasible(rows, eqs, seeds=None, deep=True):
    """True only when  rows >= 0, eqs == 0  has no solution."""
    C.steps += 1
    for r in rows:
        if not r.t and r.c < 0:
            return True
    for e in eqs:
        if not e.t and e.c != 0:
            return True
    if seeds is not None:
        rows, eqs, syms = component(rows, eqs, seeds)
    else:
        rows, eqs, syms = component(rows, eqs, {s for r in list(rows) + list(eqs) for s, _ in r.t})
    key = (frozenset(rows), frozenset(eqs), deep)
    r = C.cache.get(key)
    if r is None:
        r = _infeasible(rows, eqs, syms)
        if not r and deep:
            srcs = {}
            for s in syms:
                for b in ({x[0].neg[0] if x[0].neg else x[0] for x in s.bits if isinstance(x, tuple)} if s.bits else {s.neg[0] if s.neg else s}):
                    srcs.setdefault(b, set()).add(s)
            if any(len(v) > 1 for v in srcs.values()):
                ex = expand_bits(list(rows) + list(eqs))
                rr, ee = ex[:len(rows)], ex[len(rows):]
                sy = {s for l in ex for s, _ in l.t}
                if len(sy) < 80:
                    r = _infeasible(rr, ee, sy)
            if not r:
                extra = products(rows, eqs, syms)
                if extra:
                    r = _infeasible(rows + extra, eqs, syms | {s for l in extra for s, _ in l.t})
        C.cache[key] = r
    return r


def products(rows, eqs, syms):
    """consequences  row * s >= 0  for symbols that occur in products"""
    monos = [(m, mono_parts(m)) for m in syms]
    monos = [(m, p) for m, p in monos if p]
    if not monos:
        return []
    fac = set()
    for m, p in monos:
        fac.update(p)
    have = {frozenset(p) for _, p in monos}
    out = []
    for r in list(rows) + list(eqs) + [-e for e in eqs]:
        if any(mono_parts(s) for s, _ in r.t) or len(r.t) > 4:
            continue
        for f in fac:
            if f.lo is None or f.lo < 0:
                continue
            # only when the product stays within known monomials
            if all(frozenset((s, f)) in have or frozenset((s,)) == frozenset((f,)) and frozenset((s,)) in have for s, _ in r.t):
                out.append(mul(r, sl(f)))
    # bounds of the factors times the other factor
    for m, (a, b) in monos:
        for x, y in ((a, b), (b, a)):
            if x.lo is not None and y.lo is not None and y.lo >= 0:
                out.append(sl(m) - sl(y).scale(x.lo))
    return out[:60]


def _infeasible(rows, eqs, syms):
    # substitute equalities
    rows = [norm_row(r) for r in rows]
    eqs = list(eqs)
    bounds = {}
    for s in syms:
        bounds[s] = [s.lo, s.hi]
    rounds = 0
    while eqs and rounds < 200:
        rounds += 1
        eqs.sort(key=lambda e: len(e.t))
        e = eqs.pop(0)
        if not e.t:
            if e.c:
                return True
            continue
        from math import gcd
        g = 0
        for _, k in e.t:
            g = gcd(g, abs(k))
        if e.c % g:
            return True
        e = Lin(e.c // g, tuple((s, k // g) for s, k in e.t))
        piv = None
        for s, k in e.t:
            if abs(k) == 1:
                if piv is None or (s.ev is not None):
                    piv = (s, k)
        if piv is None:
            rows += [e, -e]
            continue
        s, k = piv
        # k*s + rest == 0  ->  s = -rest/k
        rest = Lin(e.c, tuple((q, x) for q, x in e.t if q is not s))
        val = rest.scale(-k)
        lo, hi = bounds.get(s, (s.lo, s.hi))
        if lo is not None:
            rows.append(norm_row(val - lo))
        if hi is not None:
            rows.append(norm_row(K(hi) - val))
        rows = [norm_row(subst(r, s, val)) for r in rows]
        eqs = [subst(r, s, val) for r in eqs]
        bounds.pop(s, None)
    allsyms = {s for r in rows for s, _ in r.t}
    for s in allsyms:
        bounds.setdefault(s, [s.lo, s.hi])
    # interval propagation
    rows = list(dict.fromkeys(rows))
    for it in range(12):
        ch = False
        for r in rows:
            # c + sum k s >= 0
            if not r.t:
                if r.c < 0:
                    return True
                continue
            tot = r.c
            ninf = 0
            inf = None
            for s, k in r.t:
                m = bounds[s][1] if k > 0 else bounds[s][0]
                if m is None:
                    ninf += 1
                    inf = s
                else:
                    tot += k * m
            if ninf == 0 and tot < 0:
                return True
            if ninf > 1:
                continue
            for s, k in r.t:
                if ninf == 1 and s is not inf:
                    continue
                m = bounds[s][1] if k > 0 else bounds[s][0]
                rest = tot - (0 if m is None else k * m)
                # k*s >= -rest
                if k > 0:
                    v = -(rest // k)
                    if bounds[s][0] is None or v > bounds[s][0]:
                        bounds[s][0] = v
                        ch = True
                else:
                    v = rest // (-k)
                    if bounds[s][1] is None or v < bounds[s][1]:
                        bounds[s][1] = v
                        ch = True
                b = bounds[s]
                if b[0] is not None and b[1] is not None and b[0] > b[1]:
                    return True
        if not ch:
            break
    # Fourier-Motzkin with integer tightening
    work = []
    for r in rows:
        if r.t:
            work.append(r)
    vs = {s for r in work for s, _ in r.t}
    for s in vs:
        if bounds[s][0] is not None:
            work.append(sl(s) - bounds[s][0])
        if bounds[s][1] is not None:
            work.append(K(bounds[s][1]) - sl(s))
    work = list(dict.fromkeys(work))
    while True:
        occ = {}
        for r in work:
            for s, k in r.t:
                o = occ.setdefault(s, [0, 0])
                o[0 if k > 0 else 1] += 1
        if not occ:
            return any(r.c < 0 for r in work)
        s = min(occ, key=lambda x: (occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1], x.id))
        pos, neg, oth = [], [], []
        for r in work:
            k = dict(r.t).get(s, 0)
            (pos if k > 0 else neg if k < 0 else oth).append((r, k))
        new = [r for r, _ in oth]
        for p, kp in pos:
            for n, kn in neg:
                r = norm_row(p.scale(-kn) + n.scale(kp))
                if not r.t:
                    if r.c < 0:
                        return True
                    continue
                new.append(r)
        work = prune(new)
        if len(work) > MAXROWS:
            return False


def prune(rows):
    best = {}
    for r in rows:
        c = best.get(r.t)
        if c is None or r.c < c:
            best[r.t] = r.c
    return [Lin(c, t) for t, c in best.items()]


def subst(r, s, val):
    for q, k in r.t:
        if q is s:
            return Lin(r.c, tuple((x, y) for x, y in r.t if x is not s)) + val.scale(k)
    return r


# ---------------------------------------------------------------- witnesses

def order_syms(syms):
    out, seen = [], set()

    def go(s):
        if s in seen:
            return
        seen.add(s)
        for d in s.deps:
            go(d)
        out.append(s)
    for s in sorted(syms, key=lambda x: x.id):
        go(s)
    return out


def witness(rows, eqs, neqs, tries=400, seed=1, extra=(), check=None):
    """A concrete assignment satisfying everything, or None.  Confirms an alarm
    by concretising the abstract element; never used to discharge anything."""
    rng = random.Random(seed)
    allr = list(rows) + list(eqs) + list(neqs) + list(extra)
    syms = {s for r in allr for s, _ in r.t}
    work = list(syms)
    while work:
        s = work.pop()
        more = list(s.deps)
        if s.app:
            more += [q for l in s.app[1] for q, _ in l.t]
        for q in more:
            if q not in syms:
                syms.add(q)
                work.append(q)
    comp_rows, comp_eqs, syms2 = component(rows, eqs, syms)
    rows, eqs = comp_rows, comp_eqs
    syms |= syms2
    order = order_syms(syms)
    base = [s for s in order if s.ev is None]
    ex = expand_bits(list(rows) + list(eqs))
    rx, exq = ex[:len(rows)], ex[len(rows):]
    cons = rx + exq + [-e for e in exq]
    byv = {}
    for r in cons:
        for s, _ in r.t:
            byv.setdefault(s, []).append(r)
    atoms = {s for r in cons for s, _ in r.t}
    for t in range(tries):
        asg = {}
        vs = [s for s in atoms if s.ev is None or s.name.rsplit(".", 1)[-1].isdigit() and len(s.deps) == 1]
        rng.shuffle(vs)
        if t % 3 == 0:
            vs.sort(key=lambda s: len(byv.get(s, ())))
        elif t % 3 == 1:
            vs.sort(key=lambda s: -len(byv.get(s, ())))
        bnd = {}
        ok = True
        for s in vs:
            lo, hi = s.lo, s.hi
            for r in byv.get(s, ()):
                tot, k0 = r.c, 0
                for q, k in r.t:
                    if q is s:
                        k0 = k
                        continue
                    if q in asg:
                        tot += k * asg[q]
                    else:
                        m = q.hi if k > 0 else q.lo
                        if m is None:
                            tot = None
                            break
                        tot += k * m
                if tot is None or not k0:
                    continue
                if k0 > 0:
                    v = -(tot // k0)
                    lo = v if lo is None or v > lo else lo
                else:
                    v = tot // (-k0)
                    hi = v if hi is None or v < hi else hi
            if lo is None:
                lo = -4 if hi is None else min(hi, 0) - 4
            if hi is None:
                hi = max(lo, 0) + 64
            if lo > hi:
                ok = False
                break
            r = rng.random()
            if r < 0.35:
                v = lo
            elif r < 0.5:
                v = hi
            elif r < 0.75:
                v = min(hi, lo + rng.randrange(0, 10))
            elif r < 0.85:
                v = max(lo, hi - rng.randrange(0, 3))
            else:
                v = rng.randint(lo, hi)
            asg[s] = v
        if not ok:
            continue
        # rebuild base symbols whose single bits were chosen
        full = {}
        for s in base:
            if s in asg:
                full[s] = asg[s]
                continue
            n = width_of(s)
            v = None
            if n is not None and n <= 64:
                v = 0
                anyb = False
                for i in range(n):
                    a = C.memo.get(("atom", s, i))
                    if a is not None and a in asg:
                        v |= asg[a] << i
                        anyb = True
                    elif rng.random() < 0.3:
                        v |= 1 << i
                if s.lo < 0 and v >> (n - 1):
                    v -= 1 << n
                if not anyb:
                    v = None
                elif not s.lo <= v <= s.hi:
                    v = max(s.lo, min(s.hi, v))
            if v is None:
                lo = s.lo if s.lo is not None else -3
                hi = s.hi if s.hi is not None else lo + 20
                v = rng.choice((lo, hi, rng.randint(lo, hi), min(hi, max(lo, 1)), min(hi, max(lo, rng.randint(0, 9)))))
            full[s] = v
        try:
            for s in order:
                if s.ev is not None:
                    full[s] = s.ev(full)
        except Exception:
            continue
        if all(evaluate(r, full) >= 0 for r in rows) and all(evaluate(e, full) == 0 for e in eqs) \
                and all(evaluate(e, full) != 0 for e in neqs) \
                and all((s.lo is None or full[s] >= s.lo) and (s.hi is None or full[s] <= s.hi) for s in order) \
                and consistent(order, full) and (check is None or check(full)):
            return full
    return None


def consistent(order, full):
    """unknown functions give equal results on equal arguments"""
    seen = {}
    for s in order:
        if s.app:
            k = (s.app[0],) + tuple(evaluate(l, full) for l in s.app[1])
            if seen.setdefault(k, full[s]) != full[s]:
                return False
    return True


def nonneg(a):
    lo = a.rng()[0]
    return lo is not None and lo >= 0
