"""Builds everything a check needs from /repo's current working tree.

Results live in /verif/.build/<content hash>; nothing is written in /repo.
"""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
FLAGS = ["-Awarnings", "-Zalways-encode-mir", "-Zmir-opt-level=0", "-Cdebug-assertions=off", "-Coverflow-checks=on"]
TOOLCHAIN = "nightly"


class BuildError(Exception):
    pass


def run(cmd, env=None, cwd=None, timeout=600):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    return p.returncode, p.stdout, p.stderr


def base_env():
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    return e


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        rc, out, err = run(["rustc", "--print", "sysroot"], env=base_env())
        if rc:
            raise BuildError(err)
        _sysroot = out.strip()
    return _sysroot


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".build", "__pycache__"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in sorted(files):
            h.update(os.path.relpath(f, "/").encode())
            with open(f, "rb") as fh:
                b = fh.read()
            h.update(b"%d:" % len(b))
            h.update(b)
    return h.hexdigest()[:20]


def ensure_driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    key = tree_hash([src])
    out = os.path.join(BUILD, "mirx-" + key)
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        rc, o, e = run(["rustc", "-O", "--edition", "2021", "-Awarnings", src, "-o", tmp], env=base_env(), timeout=900)
        if rc:
            raise BuildError("driver: " + e[-3000:])
        os.rename(tmp, out)
    return out


class Built:
    def __init__(self, d):
        self.dir = d
        with open(os.path.join(d, "meta.json")) as f:
            self.meta = json.load(f)

    def dump(self, name):
        return os.path.join(self.dir, "dump", name + ".json")

    def gen_dir(self, name):
        return os.path.join(self.dir, "gen", name)


def mirx_cmd(mirx, root, externs, deps, crate_type, name, src, out):
    cmd = [mirx, "rustc", "--sysroot", sysroot(), "--edition", "2021"] + FLAGS + ["--emit", "metadata", "--crate-type", crate_type, "--crate-name", name, "-o", out]
    for d in deps:
        cmd += ["-L", "dependency=" + d]
    for k, v in externs.items():
        cmd += ["--extern", "%s=%s" % (k, v)]
    return cmd + [src]


def ensure():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _ensure()
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def repo_paths():
    ps = [os.path.join(REPO, p) for p in ("runtime", "compiler", "Cargo.toml", "cli", "testprog")]
    return [p for p in ps if os.path.exists(p)]


def _ensure():
    mirx = ensure_driver()
    key = tree_hash(repo_paths() + [os.path.join(VERIF, "driver"), os.path.join(VERIF, "ws", "src"), os.path.join(VERIF, "ws", "Cargo.toml"),
                                    os.path.join(VERIF, "lib", "corpus.py"), os.path.join(VERIF, "lib", "build.py")])
    d = os.path.join(BUILD, "t-" + key)
    if os.path.exists(os.path.join(d, "meta.json")):
        os.utime(d)
        return Built(d)
    olds = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith("t-")), key=os.path.getmtime)
    for o in olds[:-2]:
        shutil.rmtree(o, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "dump"))
    os.makedirs(os.path.join(d, "gen"))
    # 1. repository crates + their dependencies + the generator binary
    ws = os.path.join(d, "ws")
    shutil.copytree(os.path.join(VERIF, "ws"), ws, ignore=shutil.ignore_patterns("target"))
    if REPO != "/repo":
        p = os.path.join(ws, "Cargo.toml")
        s = open(p).read().replace("/repo/", REPO + "/")
        open(p, "w").write(s)
    env = base_env()
    env["RUSTFLAGS"] = " ".join(FLAGS)
    tgt = os.path.join(d, "target")
    rc, out, err = run(["cargo", "build", "--offline", "--target-dir", tgt, "--message-format=json", "--bin", "gen", "--lib"], env=env, cwd=ws, timeout=850)
    meta = {"key": key, "crates": {}}
    externs, gen_bin, deps = {}, None, set()
    for line in out.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith(".rlib") or f.endswith(".rmeta") or f.endswith(".so"):
                    deps.add(os.path.dirname(f))
            n = m["target"]["name"].replace("-", "_")
            rl = [f for f in m["filenames"] if f.endswith(".rmeta")]
            if rl and n in ("bp3d_proto", "bp3d_protoc", "bytesutil"):
                externs[n] = rl[0]
            if m.get("executable"):
                gen_bin = m["executable"]
    if rc:
        raise BuildError("cargo build failed:\n" + "\n".join(json.loads(x).get("message", {}).get("rendered") or "" for x in out.splitlines() if x.startswith("{") and '"compiler-message"' in x)[-4000:] + err[-2000:])
    deps = sorted(deps)
    denv = base_env()
    denv["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")

    def dump(name, src, crate_type="lib", crate=None):
        e = dict(denv)
        e["MIR_DUMP"] = os.path.join(d, "dump", name + ".json")
        out = os.path.join(d, "dump", name + ".rmeta")
        return run(mirx_cmd(mirx, d, externs, deps, crate_type, crate or name, src, out), env=e, timeout=800)

    # 2. the corpus, through the repository's generator
    import corpus
    schemas = corpus.schemas()
    sdir = os.path.join(d, "schemas")
    os.makedirs(sdir)
    batch = []
    for n, (s, imports) in schemas.items():
        with open(os.path.join(sdir, n + ".json5"), "w") as f:
            json.dump(s, f, indent=1)
        gd = os.path.join(d, "gen", n)
        os.makedirs(gd)
        batch.append("\t".join([gd] + ["%s=%s" % (os.path.join(sdir, i + ".json5"), p) for i, p in imports.items()] + [os.path.join(sdir, n + ".json5")]))
    with open(os.path.join(d, "batch"), "w") as f:
        f.write("\n".join(batch) + "\n")

    def gen():
        return run([gen_bin, "@" + os.path.join(d, "batch")], env=base_env(), timeout=300)

    with ThreadPoolExecutor(8) as ex:
        jobs = {
            "harness": ex.submit(dump, "harness", os.path.join(ws, "src", "lib.rs")),
            "compiler": ex.submit(dump, "compiler", os.path.join(ws, "src", "bin", "gen.rs"), "bin", "gen"),
        }
        grc, gout, gerr = ex.submit(gen).result()
        if grc:
            raise BuildError("generator: " + gerr[-2000:])
        res = {}
        for line in gout.splitlines():
            p = line.split("\t")
            res.setdefault(os.path.basename(p[1]), []).append((p[0],) + tuple(p[2:]))
        meta["generator"] = res
        paths = {n: dict((x[1], x[2]) for x in r if x[0] == "OK") for n, r in res.items()}

        def crate(n):
            s, imports = schemas[n]
            r = res.get(n, [])
            if not r or r[0][0] != "OK":
                return {"status": r[0][0] if r else "MISSING", "detail": r[0][-1] if r else gerr[-500:]}
            src = []
            for i in imports:
                if i not in paths.get(i, {}):
                    return {"status": "MISSING", "detail": "import " + i}
                src.append('include!("%s");' % paths[i][i])
            src.append('include!("%s");' % paths[n][n])
            src.append("pub mod stub { pub struct OpaqueW; impl std::io::Write for OpaqueW { fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { loop {} } fn flush(&mut self) -> std::io::Result<()> { loop {} } }"
                       " pub fn sink<T>(_: T) { loop {} } pub fn source<T>() -> T { loop {} } }")
            p = os.path.join(d, "gen", n, "lib.rs")
            gl = corpus.glue(s)
            with open(p, "w") as f:
                f.write("\n".join(src + gl) + "\n")
            rc, o, e = dump(n, p)
            if rc == 0:
                return {"status": "OK", "glue": bool(gl)}
            if gl:
                # the code which only the analysis adds may be at fault
                with open(p, "w") as f:
                    f.write("\n".join(src) + "\n")
                e1 = e
                rc, o, e = dump(n, p)
                if rc == 0:
                    return {"status": "OK", "glue": False, "glue_detail": e1[-3000:]}
            return {"status": "NOCOMPILE", "detail": e[-6000:]}
        js = {n: ex.submit(crate, n) for n in schemas}
        meta["crates"] = {n: j.result() for n, j in js.items()}
        for n, j in jobs.items():
            rc, o, e = j.result()
            meta["crates"][n] = {"status": "OK"} if rc == 0 else {"status": "NOCOMPILE", "detail": e[-6000:]}
    meta["externs"] = externs
    meta["gen"] = gen_bin
    meta["deps"] = deps
    meta["sysroot"] = sysroot()
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump(meta, f, indent=1)
    return Built(d)


if __name__ == "__main__":
    b = ensure()
    print(b.dir)
    for k, v in b.meta["crates"].items():
        if v["status"] != "OK":
            print(k, v["status"], v.get("detail", "")[-1500:])
