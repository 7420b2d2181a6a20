"""C19: no undefined behaviour is reachable from the safe interfaces.

Two parts.  The inventory walks the MIR of every function of the repository (the
runtime, the compiler, the code generated for the corpus) and classifies each
unsafe operation; an operation which is not plain data or a call of one of the
repository's own functions has to have been decided by the second part.  The
second part interprets every root, with foreign `FromSlice` implementations which
may report any size (a safe implementation can do that), and requires that no
path reaches an operation outside its domain."""
import collections
import re

import checks_comp
import checks_gen
import checks_msg
import checks_runtime
import contracts
import registry
import rules
import rules_gen as G
import rules_msg as M
import rules_runtime as R

REPO = ("bp3d_proto", "bp3d_protoc")
NAME = "no undefined behaviour"


def is_ub(p):
    return p.kind.startswith("undefined behaviour")


def rule_ub(env, outs):
    I = env.I
    for p in I.panics:
        if is_ub(p):
            env.that(p.st, False, NAME, p.span, "%s in %s" % (p.kind[21:], p.fn[:120]))
    bad = sorted(n for n in I.unknown_calls if unsafe_std(n))
    if bad:
        env.put(NAME, "unknown", "", "not modelled: %s" % bad[:2])
    elif I.truncated:
        env.put(NAME, "unknown", "", "cut short")
    env.put(NAME, "proved")


# ------------------------------------------------------------------ inventory

# operations of the standard library which the interpreter decides
DECIDED = re.compile(r"unwrap_unchecked|unreachable_unchecked|from_utf8_unchecked|get_unchecked|from_raw_parts|ptr::(read|write|copy)|core::ptr::(const_ptr|mut_ptr)|core::intrinsics::unreachable")
MACRO = re.compile(r"^core::fmt::")


def unsafe_std(n):
    return bool(re.search(r"unchecked|from_raw|::ptr::|transmute|assume_init|MaybeUninit|zeroed", n))


def ours(f, crates):
    return f["crate"] in crates and "/.rustup/" not in f["span"] and "/rustlib/" not in f["span"]


def plain(t):
    return t["k"] in ("int", "uint", "float") or t["k"] == "array" and isinstance(t.get("e"), dict) and plain(t["e"])


def casts(x):
    if isinstance(x, list):
        if len(x) >= 4 and x[0] == "cast" and isinstance(x[1], str):
            yield x
        for y in x:
            yield from casts(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from casts(y)


def place_type(prog, f, op):
    """type of a cast's operand where it is a local, else None"""
    if isinstance(op, dict):
        for k in ("m", "c"):
            if k in op and not op[k][1]:
                return prog.types[f["locals"][op[k][0]]]
    return None


def operations(prog, crates):
    """(function, span, what, class): class is plain, own, decided or other"""
    for k in sorted(prog.fns):
        f = prog.fns[k]
        if not ours(f, crates):
            continue
        for bl in f["blocks"]:
            t = bl["t"]
            if t[0] == "call" and t[-1] is True:
                fn = t[1].get("k", {}).get("fn", {}) if isinstance(t[1], dict) else {}
                d = str(fn.get("d") or fn.get("fn") or "?")
                if MACRO.match(d):
                    continue
                cls = "own" if d.split("::")[0] in crates else "decided" if DECIDED.search(d) else "other"
                yield k, f, t[-2], "call of " + d, cls
            for s in bl["s"]:
                for c in casts(s):
                    to = prog.types[c[3]]
                    if c[1] == "Transmute":
                        a = place_type(prog, f, c[2])
                        ok = plain(to) and (a is None or plain(a))
                        deep = to["k"] in ("bool", "adt", "ref")
                        yield k, f, s[-1], "transmute to " + to["s"], "plain" if ok else "decided" if deep else "other"
                    elif c[1] in ("PtrToPtr", "PointerWithExposedProvenance"):
                        yield k, f, s[-1], "%s to %s" % (c[1], to["s"]), "decided"


def inventory(prog, crates, label, tot):
    """every unsafe operation; those which interpretation decides are left in
    tot["needed"], for the function has to have been interpreted"""
    rows = []
    need = tot["needed"] = set()
    seen = collections.Counter()
    for k, f, span, what, cls in operations(prog, crates):
        seen[cls] += 1
        if cls == "decided":
            need.add(k)
        if cls == "other":
            rows.append((label, "every unsafe operation is accounted for", "unknown", str(span), "%s in %s" % (what, f["p"]), 0))
    if not rows:
        rows.append((label, "every unsafe operation is accounted for", "proved", "", ", ".join("%d %s" % (n, c) for c, n in sorted(seen.items())) or "none", sum(seen.values())))
    tot["unsafe_operations"] += sum(seen.values())
    return rows


# ------------------------------------------------------------------ roots

def new():
    tot = collections.defaultdict(int)
    tot["unknown"], tot["fns"] = set(), set()
    return [], tot


def take(rows, tot, r):
    obs, st = r
    rows += [o.row() for o in obs]
    for k in ("steps", "calls", "loops", "outs"):
        tot[k] += st[k]
    tot["unknown"] |= st["unknown"]
    tot["fns"] |= st["fns"]
    tot["units"] += 1


def pre_storage(name):
    """what `from_raw_parts` asks for: the storage holds the counted items; the
    index is anything"""
    if not R.pre_container(name):
        return None

    def pre(I, st, args):
        v = I.load(st, args[0].root, args[0].path)
        if not st.add_eq(R.storage_ok(I, st, v)[1]):
            raise R.Give("precondition")
    return pre


def runtime_job(b):
    rows, tot = new()
    prog = registry.prog(b, "harness")
    rows += inventory(prog, REPO + ("harness",), "runtime", tot)
    contracts.WILD = True
    try:
        for n, key in sorted(R.roots(prog).items()):
            take(rows, tot, rules.decide(prog, key, checks_runtime.hook(), rule_ub, pre_storage(n), n))
    finally:
        contracts.WILD = False
    return rows, tot


def codec_job(b, lo, hi):
    rows, tot = new()
    prog = registry.prog(b, "harness")
    us = {u[1]: u for p in ("C10", "C11") for u in G.codec_units(prog, p)}
    for lab, key, rule, pre in sorted(us.values(), key=lambda u: u[0])[lo::hi]:
        take(rows, tot, rules.decide(prog, key, None, rule_ub, None, lab))
    return rows, tot


def gen_job(b, name, lo, hi):
    rows, tot = new()
    if registry.witness(b, name) is not None:
        return rows, tot
    prog, pr = registry.prog(b, name), checks_gen.proto(name)
    if not lo:
        rows += inventory(prog, REPO + (name,), name, tot)
    contracts.WILD = True
    try:
        hook = checks_gen.hook(pr)
        ds = [(None, None, u[2], u[3], None, None) for u in G.struct_units(prog, pr) + G.array_units(prog, pr)]
        for k in prog.roots:
            m = checks_msg.KEY.match(k)
            if m and m.group(1).split("::")[0] == pr.name:
                ds.append((None, None, m.group(1) + "." + m.group(2), k, None, None))
        done = set()
        ds = [d for d in ds if not (d[3] in done or done.add(d[3]))]
        for _, _, lab, key, _, pre in ds[lo::hi]:
            take(rows, tot, rules.decide(prog, key, hook, rule_ub, pre, lab))
    finally:
        contracts.WILD = False
    return rows, tot


def comp_inventory(b):
    rows, tot = new()
    prog = registry.prog(b, "compiler")
    rows += inventory(prog, REPO, "compiler", tot)
    tot["units"] += 1
    return rows, tot


def render_job(b, lo, hi):
    import checks_render
    rows, tot = checks_render.job(b, lo, hi)
    return [r for r in rows if r[1] in (NAME, "analysis")], tot


def jobs(gen, msgs):
    r = [("checks_ub", "runtime_job", ()), ("checks_ub", "comp_inventory", ())]
    r += [("checks_ub", "codec_job", (i, 2)) for i in range(2)]
    for n, k in gen + msgs:
        r += [("checks_ub", "gen_job", (n, i, k)) for i in range(k)]
    r += [("checks_ub", "render_job", (i, 32)) for i in range(32)]
    r += [("checks_comp", "job", ("C19", i, 48)) for i in range(48)]
    r += [("checks_phase", "job", ("C19", i, 32)) for i in range(32)]
    return r


def settle(rows, cov):
    """unsafe operations in functions which no root reached are undecided"""
    got = set(cov.get("fns", ()))
    for k in cov.pop("needed", ()):
        if k not in got:
            rows.append((k.split("@")[0][:120], "every unsafe operation is accounted for", "unknown", "", "no analysed root reaches it", 0))
