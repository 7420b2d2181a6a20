"""Which generated items carry which obligation."""
import collections
import os

import contracts
import corpus
import layout
import registry
import rules
import rules_gen as G

_protos = {}


def proto(name):
    if name not in _protos:
        s, imports = corpus.schemas()[name]
        _protos[name] = layout.Protocol(s, [proto(i) for i in imports])
    return _protos[name]


def hook(pr):
    import rules_msg
    return rules_msg.gen_hook(pr)[0]


def select(prop, cat, f):
    """does this accessor belong to the property"""
    if cat == "raw":
        whole = f.bits % 8 == 0
        return {"C10": not whole, "C11": whole, "C13": True, "C21": f.bits > 8}.get(prop, False)
    if cat == "typed":
        en = bool(f.view) and f.view["type"] == "enum"
        return {"C10": f.bits % 8 != 0 and f.kind == "unsigned" and not f.view, "C11": f.bits % 8 == 0 and f.kind == "unsigned" and not f.view,
                "C14": not en, "C15": en, "C13": True}.get(prop, False)
    if cat == "sub":
        return prop == "C13" or (prop == "C12" and f.count is not None)
    if cat == "decode":
        return prop in ("C02", "C03", "C13", "C01")
    if cat == "encode":
        return prop in ("C03", "C06", "C13")
    if cat == "make":
        return prop == "C13"
    return False


def sizes(prog, pr):
    """the constants which tell the size of a structure"""
    upper = collections.Counter(n.upper() for n in pr.structs)
    rows = []
    for c in prog.consts:
        last = c["p"].split("::")[-1]
        v = c["c"].get("v")
        v = v.get("i") if isinstance(v, dict) else None
        for n, s in pr.structs.items():
            if last == "SIZE_" + n.upper() and upper[n.upper()] == 1 and not c["impl"]:
                name = "the size constant is the size in bytes"
            elif last == "SIZE" and c["impl"].split("<")[0].split("::")[-1] == n:
                name = "the fixed size is the size in bytes"
            else:
                continue
            ok = None if v is None else v == s.size
            rows.append(("%s.%s" % (pr.name, n), name, "proved" if ok else "unknown" if ok is None else "refuted", c["p"],
                         "" if ok else "%s is %s, the fields take %s" % (last, v, s.size), 1))
    return rows


def job(b, prop, name, lo, hi):
    rows = []
    tot = collections.defaultdict(int)
    tot["unknown"], tot["fns"] = set(), set()
    bad = registry.witness(b, name, lo)
    if bad is not None:
        return bad, tot
    prog = registry.prog(b, name)
    pr = proto(name)
    us = [u for u in G.struct_units(prog, pr) if select(prop, u[0], u[1])]
    if prop in ("C12", "C21"):
        us += [u for u in G.array_units(prog, pr) if prop == "C12" or u[1].bits > 8]
    if prop == "C13" and lo == 0:
        rows += sizes(prog, pr)
    n = len(us)
    for cat, f, lab, key, rule, pre in us[n * lo // hi: n * (lo + 1) // hi]:
        obs, st = rules.decide(prog, key, hook(pr), rule, pre, lab)
        rows += [o.row() for o in obs]
        for k in ("steps", "calls", "loops", "outs"):
            tot[k] += st[k]
        tot["unknown"] |= st["unknown"]
        tot["fns"] |= st["fns"]
        tot["units"] += 1
    return rows, tot


def codec_job(b, prop, lo, hi):
    rows = []
    tot = collections.defaultdict(int)
    tot["unknown"], tot["fns"] = set(), set()
    prog = registry.prog(b, "harness")
    us = sorted(G.codec_units(prog, prop), key=lambda u: u[0])
    for lab, key, rule, pre in us[lo::hi]:
        obs, st = rules.decide(prog, key, None, rule, pre, lab)
        rows += [o.row() for o in obs]
        for k in ("steps", "calls", "loops", "outs"):
            tot[k] += st[k]
        tot["unknown"] |= st["unknown"]
        tot["fns"] |= st["fns"]
        tot["units"] += 1
    return rows, tot
