"""Property -> what is analysed, and how results are described."""
import multiprocessing
import os
import time
import re

import build
from interp import Program

TRUSTED = ["rustc's front end and MIR construction (nightly)", "driver/main.rs (MIR export)", "lib/interp.py, natives.py (MIR and std semantics)", "lib/numdom.py (linear and bit domain)", "lib/contracts.py (FromSlice/WriteTo contracts)"]
ABS = "abstract interpretation of the optimised-off MIR of every instantiated entry point with trace partitioning, a linear/bit-vector value domain and loop generalisation; "
GEN_ABS = ABS + "the repository's generator is run on a witness corpus (every width x bit offset x byte order, every view, array item width, nesting, message field kind, union discriminant kind) and the MIR of what it emits is compared, for all inputs, with the layout computed independently from the schema; "
COMP_ABS = "abstract interpretation of the MIR of the schema compiler (Protocol::from_model and everything below it) on schema shapes whose numbers (sizes, lengths, values, case values, ranges) are symbolic, against an independent reference of the schema language (lib/spec.py); "
SHAPES = "all numbers of the shapes analysed; the shapes (which fields of which kinds refer to what) are a finite cover"
PHASE_ABS = "abstract interpretation of the MIR of the code generator, its template engine (over the real template files) and the interface layer, on the result of the interpreted compiler; "
RENDER_ABS = "abstract interpretation of the MIR of the template engine (tokenizer, fragments, scopes, functions) with abstract variable values; "
PHASE_SHAPES = "all numbers of the shapes analysed; the shapes (kinds of fields, views, cases, options) are a finite cover"
PHASE = {"C20": 32, "C22": 6, "C25": 32, "C26": 10, "C27": 12, "C31": 8}
COMP = {"C12": 1, "C13": 8, "C14": 4, "C15": 1, "C18": 4, "C20": 48, "C21": 1, "C22": 8, "C23": 2, "C24": 32}

SPECS = {
    "C01": dict(level="proof", rule=ABS + "every assert terminator, arithmetic overflow, slice index, unwrap and explicit panic reachable from a decoder or iterator must be infeasible, every loop must have a decreasing measure"),
    "C02": dict(level="proof", rule=ABS + "on every returning path the reported size equals the extent implied by the bytes read, and Err(Truncated) is returned exactly when they are not there"),
    "C03": dict(level="proof", rule=ABS + "the abstract output stream of every successful writer path is fed to the reader of the same type, which must accept it, return the written value and consume exactly it"),
    "C05": dict(level="proof", rule=ABS + "on successful paths prefix bytes equal the count and the counted bytes follow; failures without I/O error only when the count does not fit"),
    "C06": dict(level="proof", rule=ABS + "every path on which the output, a prefix or a nested element failed returns an error; no partial write is taken for a complete one; counters move only with a completed item"),
    "C07": dict(level="proof", rule=ABS + "storage/count/index relations of Array, List, their iterators and the array wrapper macro"),
    "C09": dict(level="proof", rule=ABS + "measured size equals the symbolic length of the stream the writer of the same value emits"),
    "C10": dict(level="translation_validation", rule=GEN_ABS + "a bit-field getter is exactly its bits and a setter of it changes exactly them", note="all inputs and all values of the witness schemas; schemas themselves are a finite cover of the width/offset/order space"),
    "C11": dict(level="translation_validation", rule=GEN_ABS + "a byte-aligned getter/setter is exactly its bytes in the declared order", note="all inputs and values of the witness schemas"),
    "C12": dict(level="translation_validation", rule=GEN_ABS + "item i of an array is slot i in the declared order and type; length and iteration are the declared ones", note="all contents and indices of the witness arrays"),
    "C13": dict(level="translation_validation", rule=GEN_ABS + "setters change the bits of their field and no other; nested views refer to their own bytes", note="all inputs and values of the witness schemas"),
    "C14": dict(level="translation_validation", rule=GEN_ABS + "view getters and setters are the declared map (two's complement, boolean, bit-exact float, affine range ends)", note="rounding of the float maps is not modelled (see C34)"),
    "C15": dict(level="translation_validation", rule=GEN_ABS + "enum getters return the declared variant or nothing, setters store the declared value", note="all raw values of the witness enums"),
    "C16": dict(level="translation_validation", rule=GEN_ABS + "the reader and the writer follow the schema field after field", note="all inputs and values of the witness messages, modular in nested messages and unions"),
    "C17": dict(level="translation_validation", rule=GEN_ABS + "reported offsets are the positions the walk over the schema computes", note="all inputs of the witness messages"),
    "C18": dict(level="translation_validation", rule=GEN_ABS + "reader, writer, discriminant setter and accessors agree with the declared case table", note="all discriminant values of the witness unions"),
    "C21": dict(level="translation_validation", rule=GEN_ABS + "multi-byte fields, prefixes and discriminants follow the declared byte order", note="both orders for every witness schema"),
    "C20": dict(level="other", rule=COMP_ABS + "no panic (assertion, overflow, index, unwrap, unreachable) is feasible on any path and every path is followed to its end", note=SHAPES),
    "C22": dict(level="other", rule=COMP_ABS + "every reference stands for the declaration of its name, imported names carry their import path, undefined and doubly declared names are refused", note=SHAPES),
    "C23": dict(level="other", rule=COMP_ABS + "the integer chosen for a prefix or a field is the smallest which holds it and unsupported widths are refused", note=SHAPES),
    "C25": dict(level="other", rule=PHASE_ABS + "no path on which a schema was accepted ends in an error or a panic: every fragment, variable and function asked for is there", note=PHASE_SHAPES),
    "C26": dict(level="other", rule=PHASE_ABS + "run under several iteration orders of the hash tables and with every time, address, process and environment value distinct per run: the files and their texts are equal", note=PHASE_SHAPES),
    "C27": dict(level="other", rule=PHASE_ABS + "run for all 64 combinations of the options (symbolic flags): a file is written, included and holds the items of its kind exactly when its option is set; the reported paths are the umbrellas", note=PHASE_SHAPES + "; file system failures are forks"),
    "C28": dict(level="translation_validation", technique="type checking of generated witness programs", rule="rustc's type and borrow checker on the code which the repository's generator emits for every accepted witness schema, against the runtime's interface", note="a finite cover of the schema language: every kind of field, view, width, array, item, list, optional marker and position, every discriminant and case kind, local and imported types, both byte orders, names which the generated code uses itself, and the edges of every number a schema gives (float ranges and multipliers, values, lengths)", floor=5500),
    "C19": dict(level="other", rule=ABS + "no path of a safe entry point reaches an operation outside its domain (unchecked access, invalid value, unchecked unwrap, invalid string), with foreign decoders which may report any size; an inventory of every unsafe operation of the repository's MIR shows that none is left out", note="runtime: all inputs; generated code: the corpus; compiler and templates: the shapes of C20 and C30", floor=12000),
    "C33": dict(level="other", technique="compile-fail witnesses with compiling twins; abstract interpretation of MIR", rule="pairs of programs which differ in one misuse of a borrowed value: rustc's type and borrow checker accepts the proper one and refuses the misuse for the reason given; and on every successful path of every decoder, of the runtime and generated, all slices in the result are slices of the input",
                note="the misuses are a finite list over every decoder, accessor and storage; the verdict of rustc holds for all runs of such a program; slices: all inputs", floor=1200),
    "C30": dict(level="other", rule=RENDER_ABS + "the rendered text is the fragment's text with each reference replaced by the value in scope (through its function), doubled braces reduced to one and nothing else changed; what does not exist is reported", note="values are abstract (any first character of a class, any rest); template texts are every sequence of up to three tokens (literal text, references with and without function, both doubled braces), those of four brace tokens, nested and neighbouring fragments, both line ends"),
    "C31": dict(level="other", rule=PHASE_ABS + "the build script entry point with every reading, parsing and writing step forked into success and failure: every failure aborts, success exports each protocol once with its umbrella", note="every failure position of builds of up to three schemas"),
    "C24": dict(level="other", rule=COMP_ABS + "a message is accepted exactly when the placement rules hold, and its size flags and embedded mark are right", note=SHAPES),
}

BITS = [("bits_%s%s%d" % (k, e, lo), n) for e in "lb" for k in "us" for lo, n in ((1, 2), (17, 3), (33, 4), (49, 6))]


def both(*xs):
    return [(n % e, k) for n, k in xs for e in "lb"]


BIG = both(("big_%s", 1), ("rand_%s", 2))
GEN = {
    "C10": BITS + BIG,
    "C11": BITS + both(("views_%s", 1)) + BIG,
    "C12": both(("arrays_%s", 2), ("nest_%s", 1)) + BIG,
    "C13": BITS + both(("views_%s", 2), ("arrays_%s", 1), ("nest_%s", 2), ("enums_%s", 1)) + BIG,
    "C14": both(("views_%s", 2)) + [x for x in BITS if x[0][5] == "s"] + BIG,
    "C15": both(("views_%s", 2), ("enums_%s", 2), ("rand_%s", 1)),
    "C21": BITS + both(("views_%s", 1), ("nest_%s", 1), ("arrays_%s", 1)) + BIG,
}
MSGS = both(("msgs_%s", 3), ("unions_%s", 2), ("msgsx_%s", 2), ("unionsx_%s", 3), ("randm_%s", 2)) + [("impa", 1), ("impb", 1), ("umsg", 1)]
MSG_PROPS = ("C01", "C02", "C03", "C05", "C06", "C09", "C16", "C17", "C18", "C21")
GEN["C01"] = GEN["C02"] = GEN["C03"] = GEN["C06"] = [(n, 1) for n, _ in both(("bits_u%s1", 1), ("views_%s", 1), ("arrays_%s", 1), ("nest_%s", 1)) + BIG + MSGS]

_progs = {}


def prog(b, name):
    k = (b.dir, name)
    if k not in _progs:
        _progs[k] = Program(b.dump(name))
    return _progs[k]


def witness(b, name, lo=0):
    """None if the witness schema made it into analysable code, else the rows
    which say why not"""
    c = b.meta["crates"].get(name) or {"status": "MISSING", "detail": ""}
    if c["status"] == "OK":
        return None
    if lo:
        return []
    what = {"REJECT": "the schema compiler accepts the witness schema", "PANIC": "the schema compiler does not panic on the witness schema",
            "NOCOMPILE": "the code generated for the witness schema type-checks"}.get(c["status"], "code is generated for the witness schema")
    d = c.get("detail") or ""
    m = re.search(r"^error.*?$(?:\n *--> (\S+))?", d, re.M)
    where = (m.group(1) or "") if m else ""
    text = m.group(0).replace("\n", " ") if m else d[-300:]
    if where:
        f, ln = where.split(":")[:2]
        try:
            text += " | " + open(f).read().splitlines()[int(ln) - 1].strip()
        except (OSError, IndexError, ValueError):
            pass
    return [(name, what, "refuted", where, text, 0)]


def _job(a):
    import importlib
    bdir, mod, fn, args = a
    b = build.Built(bdir)
    return getattr(importlib.import_module(mod), fn)(b, *args)


def jobs(prop, b, tier):
    r = []
    if prop in ("C01", "C02", "C03", "C05", "C06", "C07", "C09", "C17"):
        r.append(("checks_runtime", "job", (prop,)))
    if prop in ("C10", "C11", "C21"):
        r += [("checks_gen", "codec_job", (prop, i, 2)) for i in range(2)]
    for name, n in GEN.get(prop, ()):
        for i in range(n):
            r.append(("checks_gen", "job", (prop, name, i, n)))
    n = COMP.get(prop, 0)
    for i in range(n):
        r.append(("checks_comp", "job", (prop, i, n)))
    n = PHASE.get(prop, 0)
    for i in range(n):
        r.append(("checks_phase", "job", (prop, i, n)))
    if prop == "C30":
        r += [("checks_render", "job", (i, 32)) for i in range(32)]
    if prop == "C33":
        r += [("checks_borrow", "job", (e,)) for e in ("little", "big")] + [("checks_borrow", "runtime_job", ())] + [("checks_borrow", "message_job", (n,)) for n, _ in MSGS]
    if prop == "C19":
        import checks_ub
        r += checks_ub.jobs(sorted(set(both(("views_%s", 1), ("arrays_%s", 1), ("nest_%s", 1), ("enums_%s", 1), ("rand_%s", 1)) + [(n, 1) for n, _ in BITS] + BIG)), MSGS)
    if prop == "C28":
        r += [("checks_types", "job", (i, 24)) for i in range(24)]
    if prop in MSG_PROPS:
        for name, n in MSGS:
            for i in range(n):
                r.append(("checks_msg", "job", (prop, name, i, n)))
    return r


def run(prop, b, tier):
    os.environ["VERIF_DEADLINE"] = str(time.time() + (300 if tier == "quick" else 2400))
    js = [(b.dir,) + j for j in jobs(prop, b, tier)]
    n = min(8, len(js))
    if n <= 1:
        res = [_job(j) for j in js]
    else:
        with multiprocessing.Pool(n) as p:
            res = p.map(_job, js, 1)
    rows, cov = [], {}
    for rs, st in res:
        rows += rs
        for k, v in st.items():
            if isinstance(v, set):
                cov[k] = sorted(set(cov.get(k, [])) | v)
            elif isinstance(v, (int, float)):
                cov[k] = cov.get(k, 0) + v
            else:
                cov.setdefault(k, []).extend(v)
    if prop == "C19":
        import checks_ub
        checks_ub.settle(rows, cov)
    names = {"steps": "mir_statements_interpreted", "calls": "calls_followed", "outs": "path_classes", "loops": "loops_generalised", "unknown": "unmodelled_callees"}
    cov = {names.get(k, k): v for k, v in cov.items()}
    if "fns" in cov:
        cov["functions_analysed"] = len(cov["fns"])
        cov["functions_sample"] = [f[:120] for f in cov.pop("fns")[:: 7]][:25]
    return rows, cov

NOT_APPLICABLE = {
    "C29": "the Swift runtime needs a Swift front end to analyse; none is installed, and text matching cannot decide wire equality",
    "C32": "a resource bound over runtime quantities (claimed counts against input length); the Rust API deliberately yields counted zero-size items, and no sound static bound on time exists for caller-driven iteration",
    "C34": "quantifies over rounding of floating point expressions for every schema range; the linear/bit domain does not model rounding error",
}
