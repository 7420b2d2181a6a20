"""Which generated messages and unions carry which obligation."""
import collections
import os
import re

import checks_gen
import layout
import registry
import rules
import rules_msg as M
import rules_runtime as R
import rules_union as UN

KEY = re.compile(r"^<([A-Za-z_0-9:]+)(?:<'_>)? as bp3d_proto::message::(FromSlice<'_>>::from_slice|FromSliceWithOffsets<'_>>::from_slice_with_offsets|WriteTo>::write_to::<stub::OpaqueW>)@")


def units(prog, proto, prop):
    """[(label, key, rule, pre)]"""
    out = []
    for k in prog.roots:
        m = KEY.match(k)
        if not m:
            continue
        path = m.group(1).split("::")
        n = path[-1]
        if path[0] != proto.name or n not in proto.messages:
            continue
        msg = proto.messages[n]
        what = m.group(2)
        if what.startswith("FromSlice<") and prop in ("C01", "C02", "C16", "C06", "C21"):
            out.append(("%s.%s.from_slice" % (proto.name, n), k, M.rule_read(proto, msg), None))
        elif what.startswith("WriteTo") and prop in ("C05", "C06", "C16", "C21"):
            out.append(("%s.%s.write_to" % (proto.name, n), k, M.rule_write(proto, msg), None))
        elif what.startswith("WriteTo") and prop == "C03":
            dk = [x for x in prog.roots for y in [KEY.match(x)] if y and y.group(1) == m.group(1) and y.group(2).startswith("FromSlice<")]
            mid = [f for f in msg["fields"][:-1] if f["info"]["type"] == "list" and f["info"]["item_type"] not in proto.structs]
            # fields after a list: reader and writer both follow the schema (C16)
            if dk and not mid:
                out.append(("%s.%s.roundtrip" % (proto.name, n), k, M.rule_roundtrip(proto, msg, dk[0], M.gen_hook(proto)[1]), None))
        elif what.startswith("FromSliceW") and prop in ("C17", "C01"):
            out.append(("%s.%s.from_slice_with_offsets" % (proto.name, n), k, M.rule_read(proto, msg, True), None))
    if prop == "C09":
        for k in prog.roots:
            if k.startswith("glue::measure_"):
                n = k[len("glue::measure_"):].split("@")[0]
                wk = [x for x in prog.roots for y in [KEY.match(x)] if y and y.group(1) == proto.name + "::" + n and y.group(2).startswith("WriteTo")]
                if wk:
                    out.append(("%s.%s.size_of" % (proto.name, n), k, R.rule_measure(wk[0]), None))
    if prop in ("C18", "C01", "C06"):
        for lab, k, rule, pre in UN.units(prog, proto):
            if prop == "C18" or prop == "C01" and lab.endswith(".from_slice") or prop == "C06" and lab.endswith((".from_slice", ".write_to")):
                out.append((lab, k, rule, pre))
    return out


ONLY = {
    "C01": {"no panic", "every loop ends"},
    "C05": {"a length that does not fit the prefix is refused", "a terminated string with a terminator inside is refused", "only unwritable values are refused",
            "writes every field once, in order, with its codec"},
    "C06": {"every failure is reported", "success only after every byte was accepted"},
    "C16": {"every field holds what follows the previous one", "every field has its declared type", "a list holds the counted items, one after the other", "the count is the prefix",
            "writes every field once, in order, with its codec", "an absent optional reads as absent", "a present optional reads as present",
            "the union is read with its own discriminant", "a terminated string ends at a terminator", "size is the extent of the fields",
            "nested values see the rest of the input"},
    "C02": {"size never exceeds the input", "size is the extent of the fields", "accepts only complete input", "rejects only malformed input", "short input is reported as truncated",
            "invalid UTF-8 is reported as such", "UTF-8 is checked on the counted bytes", "a malformed string is reported", "the terminator was there"},
}


def job(b, prop, name, lo, hi):
    rows = []
    tot = collections.defaultdict(int)
    tot["unknown"], tot["fns"] = set(), set()
    bad = registry.witness(b, name, lo)
    if bad is not None:
        return bad, tot
    prog = registry.prog(b, name)
    pr = checks_gen.proto(name)
    us = units(prog, pr, prop)
    n = len(us)
    hook, _ = M.gen_hook(pr)
    for lab, key, rule, pre in us[n * lo // hi: n * (lo + 1) // hi]:
        if prop == "C09":
            hook, _ = M.gen_hook(pr, lab.split(".")[1])
        obs, st = rules.decide(prog, key, hook, rule, pre, lab)
        rows += [o.row() for o in obs if o.name == "analysis" or prop not in ONLY or o.name in ONLY[prop]]
        for k in ("steps", "calls", "loops", "outs"):
            tot[k] += st[k]
        tot["unknown"] |= st["unknown"]
        tot["fns"] |= st["fns"]
        tot["units"] += 1
    return rows, tot
