"""Generalisation of loops: what the body changes is replaced by fresh symbols,
relations between them are guessed from the entry state and kept when every
way round the loop preserves them (Houdini)."""
import numdom as N
from numdom import Lin, K, ZERO, var
from interp import SliceV, Adt, Sy, Tup, Arr, Clo, It, Give, ISIZE_MAX

CONDS = ("c", "ge", "eq", "not", "o", "and", "or")


def is_cond(v):
    return type(v) is tuple and len(v) > 0 and isinstance(v[0], str) and v[0] in CONDS


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Lin) or isinstance(b, Lin):
        return a == b
    try:
        return type(a) is type(b) and a == b
    except Exception:
        return False


def diffs(I, st, a, b, ty, path, out):
    """leaves at which b differs from a -> out[path] = type"""
    if same(a, b):
        return
    if a is None:
        return
    if isinstance(a, Lin) and isinstance(b, Lin):
        if st.norm(a) == st.norm(b):
            return
        out[path] = ty
        return
    if isinstance(a, Adt) and isinstance(b, Adt) and a.ty == b.ty and a.var == b.var:
        fs = I.T(a.ty)["v"][a.var]["f"]
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            diffs(I, st, x, y, fs[i][1], path + (i,), out)
        return
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.f) == len(b.f):
        ts = I.T(ty)["f"] if ty is not None and I.T(ty)["k"] == "tuple" else (None,) * len(a.f)
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            diffs(I, st, x, y, ts[i], path + (i,), out)
        return
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.f) == len(b.f):
        et = I.T(ty)["e"] if ty is not None and I.T(ty)["k"] == "array" else None
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            diffs(I, st, x, y, et, path + (i,), out)
        return
    if isinstance(a, Clo) and isinstance(b, Clo) and a.fn == b.fn:
        ts = I.T(a.ty)["f"]
        for i, (x, y) in enumerate(zip(a.caps, b.caps)):
            diffs(I, st, x, y, ts[i], path + (i,), out)
        return
    if isinstance(a, SliceV) and isinstance(b, SliceV) and a.root == b.root and a.path == b.path:
        for k in ("off", "len"):
            if st.norm(getattr(a, k)) != st.norm(getattr(b, k)):
                out[path + (k,)] = "size"
        return
    if isinstance(a, It) and isinstance(b, It) and a.kind == b.kind:
        for i, (x, y) in enumerate(zip(a.parts, b.parts)):
            diffs(I, st, x, y, None, path + (i,), out)
        return
    out[path] = ty


def get(v, path):
    for s in path:
        if v is None:
            return None
        if s in ("off", "len"):
            if not isinstance(v, SliceV):
                return None
            v = getattr(v, s)
        elif isinstance(v, (Adt, Tup, Arr)):
            if s >= len(v.f):
                return None
            v = v.f[s]
        elif isinstance(v, Clo):
            v = v.caps[s]
        elif isinstance(v, It):
            v = v.parts[s]
        else:
            return None
    return v


def put(v, path, x):
    if not path:
        return x
    s = path[0]
    if s in ("off", "len"):
        return v._replace(**{s: x})
    if isinstance(v, (Adt, Tup, Arr)):
        return v._replace(f=v.f[:s] + (put(v.f[s], path[1:], x),) + v.f[s + 1:])
    if isinstance(v, Clo):
        return v._replace(caps=v.caps[:s] + (put(v.caps[s], path[1:], x),) + v.caps[s + 1:])
    if isinstance(v, It):
        return v._replace(parts=v.parts[:s] + (put(v.parts[s], path[1:], x),) + v.parts[s + 1:])
    raise Give("loop state")


def numbers(v, path, out, depth=0):
    """numeric leaves of a value"""
    if depth > 5:
        return
    if isinstance(v, Lin):
        out.append((path, v))
    elif isinstance(v, SliceV):
        out.append((path + ("len",), v.len))
        out.append((path + ("off",), v.off))
    elif isinstance(v, (Adt, Tup)):
        for i, x in enumerate(v.f):
            numbers(x, path + (i,), out, depth + 1)
    elif isinstance(v, Clo):
        for i, x in enumerate(v.caps):
            numbers(x, path + (i,), out, depth + 1)
    elif isinstance(v, It):
        for i, x in enumerate(v.parts):
            numbers(x, path + (i,), out, depth + 1)


def root_ty(I, root):
    if root[0] == "L":
        return I.frames[root[1]]["locals"][root[2]]
    if root[0] == "A":
        return root[2]
    return None


def run(I, fid, key, head, body, st0):
    I.fid += 1
    lid = I.fid
    st0 = st0.copy()
    changed = {}
    regs = set()
    drop = set()
    ghosts = set()

    def general():
        g = st0.copy()
        fresh = {}
        for (root, path), ty in sorted(changed.items(), key=repr):
            if root in drop:
                continue
            nm = "w%d.%d" % (lid, list(sorted(changed, key=repr)).index((root, path)))
            if ty == "size":
                x = var(nm, 0, ISIZE_MAX)
            else:
                x = I.mk(ty, nm)
            g.mem[root] = put(g.mem[root], path, x)
            fresh[(root, path)] = x
        for r in drop:
            g.mem.pop(r, None)
        for r in regs:
            g.regs[r] = g.regs.get(r, ()) + (("havoc", lid),)
        for k in ghosts:
            g.g[k] = "maybe"
        g.ev = g.ev + (("loop", lid),)
        g.loopy = True
        return g, fresh

    def go(g):
        return I.region(fid, key, [(head, 0, g)], head, body)

    I.quiet += 1
    try:
        for rnd in range(12):
            g, fresh = general()
            base = g.copy()
            rets, exits, backs = go(g)
            new = False
            for b in backs:
                for root, v in base.mem.items():
                    if root not in b.mem or root in drop:
                        continue
                    out = {}
                    diffs(I, b, v, b.mem[root], root_ty(I, root), (), out)
                    for path, ty in out.items():
                        cover = any((root, path[:i]) in changed for i in range(len(path) + 1))
                        if cover:
                            continue
                        new = True
                        if ty is None:
                            drop.add(root)
                            break
                        for c in [c for c in changed if c[0] == root and c[1][:len(path)] == path]:
                            del changed[c]
                        changed[(root, path)] = ty
                for r, ov in b.regs.items():
                    if ov != base.regs.get(r, ()) and r not in regs:
                        regs.add(r)
                        new = True
                for k, v in b.g.items():
                    if base.g.get(k) != v and k not in ghosts:
                        ghosts.add(k)
                        new = True
            if not new:
                break
        else:
            raise Give("loop does not stabilise")
        # candidate invariants
        g, fresh = general()
        base = g.copy()
        nums = [(k, x) for k, x in fresh.items() if isinstance(x, Lin)]
        init = {k: get(st0.mem[k[0]], k[1]) for k, _ in nums}
        nums = [(k, x) for k, x in nums if isinstance(init[k], Lin)]
        bounds, consts = [], []
        for root, v in st0.mem.items():
            if root in drop:
                continue
            out = []
            numbers(v, (), out)
            for p, l in out:
                if (root, p) in changed or any((root, p[:i]) in changed for i in range(len(p))):
                    continue
                l = st0.norm(l)
                if l not in bounds and not l.is_const() and len(l.t) <= 3:
                    bounds.append(l)
                elif l.is_const() and l.c > 1 and l not in consts:
                    consts.append(l)
        bounds = bounds[:40] + consts[:6]
        cands = []
        for k, x in nums:
            x0 = init[k]
            cands.append(("ge", k, None, None, x0))       # x >= x0
            cands.append(("le", k, None, None, x0))
            for u in bounds:
                if st0.entails_ge(u - x0):
                    cands.append(("le", k, None, None, u))
        for i, (k, x) in enumerate(nums):
            for k2, y in nums[i + 1:]:
                d = init[k] - init[k2]
                cands.append(("diff", k, k2, None, d))
                cands.append(("sum", k, k2, None, init[k] + init[k2]))
                if st0.entails_ge(-d):
                    cands.append(("dle", k, k2, None, ZERO))
                if st0.entails_ge(d):
                    cands.append(("dge", k, k2, None, ZERO))

        def inst(c, val):
            """condition of the candidate for the given leaf values"""
            x = val(c[1])
            y = val(c[2]) if c[2] is not None else None
            if x is None or (c[2] is not None and y is None):
                return None
            if c[0] == "ge":
                return ("ge", x - c[4])
            if c[0] == "le":
                return ("ge", c[4] - x)
            if c[0] == "diff":
                return ("eq", x - y - c[4])
            if c[0] == "sum":
                return ("eq", x + y - c[4])
            if c[0] == "dle":
                return ("ge", y - x)
            return ("ge", x - y)

        for rnd in range(40):
            g, fresh = general()
            ok = True
            for c in cands:
                q = inst(c, lambda k: fresh[k])
                if q[0] == "ge":
                    ok = ok and g.add_ge(q[1])
                else:
                    ok = ok and g.add_eq(q[1])
            if not ok:
                raise Give("loop invariant")
            rets, exits, backs = go(g)

            def leaf(b):
                def f(k):
                    v = b.mem.get(k[0])
                    v = get(v, k[1])
                    return v if isinstance(v, Lin) else None
                return f
            keep = []
            for c in cands:
                good = True
                for b in backs:
                    q = inst(c, leaf(b))
                    if q is None or b.truth(q) is not True:
                        good = False
                        break
                if good:
                    keep.append(c)
            if len(keep) == len(cands):
                break
            cands = keep
    finally:
        I.quiet -= 1
    g, fresh = general()
    for c in cands:
        q = inst(c, lambda k: fresh[k])
        if q[0] == "ge":
            g.add_ge(q[1])
        else:
            g.add_eq(q[1])
    entry = g.copy()
    rets, exits, backs = go(g)
    # termination: some leaf moves strictly towards a bound on every way round
    ranking = None
    for k, x in nums:
        def nv(b):
            v = get(b.mem.get(k[0]), k[1])
            return v if isinstance(v, Lin) else None
        vs = [(b, nv(b)) for b in backs]
        if any(v is None for _, v in vs):
            continue
        lo, hi = x.rng()
        if lo is not None and all(b.truth(("ge", x - v - 1)) is True for b, v in vs):
            ranking = "%s decreases" % (k[1],)
            break
        if hi is not None and all(b.truth(("ge", v - x - 1)) is True for b, v in vs):
            ranking = "%s increases" % (k[1],)
            break
    if not backs:
        ranking = "no way round"
    n0 = len(entry.ev)
    I.loops_seen.append({"id": lid, "fn": key, "head": head, "ranking": ranking, "entry": entry, "st0": st0,
                         "backs": [(b, b.ev[n0:]) for b in backs], "changed": {("%s" % (k,)): v for k, v in fresh.items()}, "fresh": fresh,
                         "init": init, "invariants": len(cands), "quiet": I.quiet > 0})
    return rets, exits
