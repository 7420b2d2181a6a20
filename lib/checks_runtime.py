"""Which entry points carry which obligation (runtime crate)."""
import re

import contracts
import rules
import rules_runtime as R


def hook():
    return contracts.make_hook(contracts.harness_contracted)


def units(prog, prop):
    """[(label, root key, rule, pre, args)]"""
    rs = R.roots(prog)
    out = []

    def add(n, rule, label=None, pre=None):
        if n in rs:
            out.append((label or n, rs[n], rule, pre, None))

    for n in sorted(rs):
        d, w = R.decoder(n), R.writer_spec(n)
        if prop == "C01" and (d or re.match(r"(array|list|wrapper)_(iter|to_ref|len|from_)|dec_", n)):
            add(n, R.rule_no_panic(n))
        if prop == "C02" and d:
            add(n, R.rule_decode(*d))
        if prop == "C03":
            if w and w[0] != "nts" and "dec" + n[3:] in rs:
                add(n, R.rule_roundtrip(prog, w[0], w[1], rs["dec" + n[3:]], contracts.harness_contracted))
            if w and w[0] == "nts":
                add(n, R.rule_encode(*w))
            if d and d[0] == "nts":
                add(n, R.rule_decode(*d))
        if prop == "C05" and w and w[0] in ("varchar", "array", "list", "nts"):
            add(n, R.rule_prefix_ok(*w))
        if prop == "C06":
            if d or w or n.startswith("measure") or "_iter" in n and "next" in n:
                add(n, R.rule_errors)
            m = re.match(r"(array|list|wrapper)_write_item(s?)$", n)
            if m:
                add(n, R.rule_count_items(bool(m.group(2))))
        if prop == "C07":
            m = re.match(r"(array|list|wrapper)_write_item(s?)$", n)
            if m:
                add(n, R.rule_count_items(bool(m.group(2))))
            r = R.rule_container(n)
            if r and n.endswith("3") and not n.startswith("list"):
                # case split on the count, so that storage offsets are linear
                for case in range(5):
                    add(n, r, "%s count%s%d" % (n, "=" if case < 4 else ">=", case), R.pre_container(n, case))
            elif r:
                add(n, r, None, R.pre_container(n))
        if R.HELPERS.get(n) == prop:
            add(n, R.rule_helper(n))
        if prop == "C09" and n.startswith("measure"):
            wn = {"measure": "enc_opq", "measure_array": "enc_array_le_u32", "measure_list": "enc_list_be_u16"}.get(n)
            if wn in rs:
                add(n, R.rule_measure(rs[wn]))
    return out


def work(prog, prop):
    rows, tot = [], {"steps": 0, "calls": 0, "unknown": set(), "fns": set(), "loops": 0, "outs": 0, "units": 0}
    for label, key, rule, pre, args in units(prog, prop):
        obs, st = rules.decide(prog, key, hook(), rule, pre, label, args)
        for o in obs:
            rows.append(o.row())
        for k in ("steps", "calls", "loops", "outs"):
            tot[k] += st[k]
        tot["unknown"] |= st["unknown"]
        tot["fns"] |= st["fns"]
        tot["units"] += 1
    return rows, tot


def job(b, prop):
    import registry
    return work(registry.prog(b, "harness"), prop)
