"""Builds the compiler driver and dumps the type-checked MIR of /repo's current working tree."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
CONFIGS = {
    "default": ([], "off"),
    "dbg": ([], "on"),
    "norayon": (["--no-default-features", "--features", "image/default"], "off"),
    # the current tree with the reference definitions of an/ref.rs as one more module
    "ref": ([], "off"),
}
# reference definitions: module file in the copied tree -> (source of the definitions, file that declares the module)
REFS = {"src/verif_ref.rs": (os.path.join(VERIF, "an", "ref.rs"), "src/lib.rs"),
        "src/haar/verif_ref.rs": (os.path.join(VERIF, "an", "ref_haar.rs"), "src/haar.rs"),
        "src/rect/verif_ref.rs": (os.path.join(VERIF, "an", "ref_rect.rs"), "src/rect.rs")}
# floor: number of function bodies confirmed by hand on the reviewed tree, with slack for refactorings
MIN_FNS = 600


class LoadError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    for k in ("RUSTFLAGS", "REGENERATE", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    return e


def _hash_files(root, exts):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        ds[:] = sorted(x for x in ds if x not in (".git", "target"))
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                h.update(open(p, "rb").read() + b"\0")
    return h.hexdigest()


def lock(name):
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def run(cmd, env, cwd, what):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise LoadError(f"{what} failed ({r.returncode}):\n" + r.stdout[-6000:])
    return r.stdout


def driver():
    """path of the built driver"""
    h = _hash_files(os.path.join(VERIF, "driver"), (".rs", ".toml"))[:16]
    out = os.path.join(CACHE, f"mirdump-{h}")
    if os.path.exists(out):
        return out, h
    with lock("driver"):
        if os.path.exists(out):
            return out, h
        e = _env()
        e["CARGO_TARGET_DIR"] = os.path.join(CACHE, "driver")
        run(["cargo", "build", "--offline", "--manifest-path", os.path.join(VERIF, "driver/Cargo.toml")], e, VERIF, "driver build")
        shutil.copy2(os.path.join(CACHE, "driver/debug/mirdump"), out + ".tmp")
        os.rename(out + ".tmp", out)
    return out, h


def src_hash():
    h = hashlib.sha256()
    h.update(_hash_files(os.path.join(REPO, "src"), (".rs", ".md", ".bin", ".txt", ".dat")).encode())
    for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()


def ref_text():
    return "".join(open(f).read() for f, _ in REFS.values())


def ref_chunks(path):
    """the header and the functions of a file of reference definitions with their first lines"""
    out, line = [], 1
    for i, t in enumerate(re.split(r"(?m)^(?=//@)", open(path).read())):
        out.append((line, t))
        line += t.count("\n")
    return out


def write_chunks(path, chunks):
    with open(path, "w") as f:
        f.write("".join(t for _, t in chunks))


def dump(cfg="default"):
    """path of the MIR dump of the current tree in the given configuration"""
    drv, dh = driver()
    feats, da = CONFIGS[cfg]
    sh = hashlib.sha256((src_hash() + dh + cfg + (ref_text() if cfg == "ref" else "")).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, f"mir-{cfg}-{sh}.json")
    if os.path.exists(out):
        return out
    with lock("build"):
        if os.path.exists(out):
            return out
        if not os.path.exists(os.path.join(REPO, "Cargo.lock")):
            shutil.copy("/opt/vp/Cargo.lock", os.path.join(REPO, "Cargo.lock"))
        tgt = os.path.join(CACHE, "target-norayon" if cfg == "norayon" else "target")
        fp = os.path.join(tgt, "debug/.fingerprint")
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith("imageproc-"):
                    shutil.rmtree(os.path.join(fp, x))
        bd = os.path.join(tgt, "debug/build/imageproc")
        if os.path.isdir(bd):
            shutil.rmtree(bd)
        root = REPO
        if cfg == "ref":
            root = os.path.join(CACHE, "refsrc")
            shutil.rmtree(root, ignore_errors=True)
            shutil.copytree(REPO, root, ignore=shutil.ignore_patterns(".git", "target", "tests", "benches"), symlinks=True)
            chunks = {}
            for m, (src, decl) in REFS.items():
                if not os.path.exists(os.path.join(root, decl)):
                    continue
                with open(os.path.join(root, decl), "a") as f:
                    f.write("\npub mod verif_ref;\n")
                os.makedirs(os.path.dirname(os.path.join(root, m)), exist_ok=True)
                chunks[m] = ref_chunks(src)
        e = _env()
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=e, stdout=subprocess.PIPE, text=True).stdout.strip()
        e["LD_LIBRARY_PATH"] = sysroot + "/lib"
        e["CARGO_TARGET_DIR"] = tgt
        e["CARGO_INCREMENTAL"] = "0"
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["MIRDUMP_CRATE"] = "imageproc"
        tmp = out + ".new"
        e["MIRDUMP_OUT"] = tmp
        e["MIRDUMP_DEBUG_ASSERTIONS"] = da
        if os.path.exists(tmp):
            os.remove(tmp)
        cmd = ["cargo", "check", "--offline", "--lib"] + feats
        if cfg == "ref":
            # reference definitions that do not compile against the current tree (renamed or private helpers) are left out
            while True:
                for m, cs in chunks.items():
                    write_chunks(os.path.join(root, m), cs)
                try:
                    log = run(cmd, e, root, f"cargo check ({cfg})")
                    break
                except LoadError as x:
                    dropped = 0
                    for m, cs in chunks.items():
                        bad = {int(a) for a in re.findall(re.escape(m) + r":(\d+):", str(x))}
                        keep = [c for i, c in enumerate(cs) if i == 0 or not any(c[0] <= b < c[0] + c[1].count("\n") for b in bad)]
                        dropped += len(cs) - len(keep)
                        line = 1
                        chunks[m] = []
                        for _, t in keep:
                            chunks[m].append((line, t))
                            line += t.count("\n")
                    if not dropped:
                        raise
        else:
            log = run(cmd, e, root, f"cargo check ({cfg})")
        if not os.path.exists(tmp):
            raise LoadError("the driver produced no dump (cargo considered the crate fresh?)\n" + log[-3000:])
        # keep the cache small: drop older dumps of this configuration
        for x in os.listdir(CACHE):
            if x.startswith(f"mir-{cfg}-") and x.endswith(".json"):
                try:
                    os.remove(os.path.join(CACHE, x))
                except OSError:
                    pass
        os.rename(tmp, out)
    return out


def program(cfg="default"):
    from ir import Program
    p = Program(dump(cfg))
    if len(p.order) < MIN_FNS:
        raise LoadError(f"only {len(p.order)} functions in the dump (floor {MIN_FNS})")
    return p


if __name__ == "__main__":
    import time
    t = time.time()
    for c in sys.argv[1:] or CONFIGS:
        print(c, dump(c), round(time.time() - t, 1))
