"""Building blocks of the checks: tool chain, configurations, compilation of /repo's current tree
under a configuration, and runs of the analyser (engine/) over it."""
import concurrent.futures as cf
import fcntl, fnmatch, glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENGINE = os.path.join(BUILD, "target", "release", "aesverif")
SR = os.path.join(BUILD, "sr")
ROOTS = os.path.join(VERIF, "roots")
JOBS = int(os.environ.get("AV_JOBS", "0")) or min(8, os.cpu_count() or 1)


class Broken(Exception):
    """The analysis could not be carried out (not a statement about the property)."""


# set once a violation is certain: what still runs is given a little time, then stopped
HALT = threading.Event()
_children = set()


def halt_in(secs):
    def go():
        HALT.set()
        for c in list(_children):
            c.kill()
    t = threading.Timer(secs, go)
    t.daemon = True
    t.start()
    return t


def sh(cmd, env=None, cwd=None, timeout=None, halt=False):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_BUILD_TARGET", None)
    e.pop("RUSTC_WRAPPER", None)
    e.setdefault("HOME", "/root")
    if "/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = os.path.join(e["HOME"], ".cargo/bin") + ":" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    if env:
        e.update(env)
    if not halt:
        return subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    p = subprocess.Popen(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    _children.add(p)
    late = False
    try:
        o, x = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        late = True
        p.kill()
        o, x = p.communicate()
    finally:
        _children.discard(p)
    r = subprocess.CompletedProcess(cmd, p.returncode, o, x)
    r.late, r.halted = late, HALT.is_set() and not late
    return r


_sysroot = {}


def sysroot(tc):
    if tc not in _sysroot:
        r = sh(["rustc", "+" + tc, "--print", "sysroot"])
        if r.returncode:
            raise Broken("no tool chain " + tc + ": " + r.stderr)
        _sysroot[tc] = r.stdout.strip()
    return _sysroot[tc]


# ------------------------------------------------------------------ configurations
class Config:
    def __init__(self, name, target, tf="", nightly=False, ct=False, backend="soft", x2="pair", x4="quad", core=False, extra=()):
        self.name, self.target, self.tf = name, target, tf
        self.nightly, self.ct = nightly, ct
        self.backend, self.x2, self.x4 = backend, x2, x4
        self.core = core
        self.extra = tuple(extra)

    def cargo_features(self):
        v = []
        if self.nightly:
            v.append("nightly")
        if self.ct:
            v.append("constant-time")
        return v

    @property
    def constant_time(self):
        return self.backend != "soft"

    def describe(self):
        return "%s%s%s%s" % (self.target, " " + self.tf if self.tf else "", " nightly" if self.nightly else "", " constant-time" if self.ct else "")


X64, X32 = "x86_64-unknown-linux-gnu", "i686-unknown-linux-gnu"
A64, A64BE, EC = "aarch64-unknown-linux-gnu", "aarch64_be-unknown-linux-gnu", "arm64ec-pc-windows-msvc"
V7, ARMBE = "armv7-unknown-linux-gnueabihf", "armeb-unknown-linux-gnueabi"
R64, R32, S390 = "riscv64gc-unknown-linux-gnu", "riscv32i-unknown-none-elf", "s390x-unknown-linux-gnu"

# The configurations the value-level properties are decided in: every implementation in the crate,
# in every word size and byte order in which it can be selected.
CONFIGS = [
    Config("sw", X64),
    Config("ct", X64, ct=True, backend="ct"),
    Config("aesni", X64, "+sse4.1,+aes", backend="x86"),
    Config("vaes", X64, "+vaes", nightly=True, backend="x86", x2="vaes"),
    Config("avx512", X64, "+vaes,+avx512f", nightly=True, backend="x86", x2="vaes", x4="vaes512"),
    Config("i686-aesni", X32, "+sse4.1,+aes", backend="x86"),
    Config("i686-sw", X32),
    Config("i686-ct", X32, ct=True, backend="ct"),
    Config("i686-vaes", X32, "+vaes", nightly=True, backend="x86", x2="vaes"),
    Config("i686-avx512", X32, "+vaes,+avx512f", nightly=True, backend="x86", x2="vaes", x4="vaes512"),
    Config("neon", A64, "+aes", backend="arm"),
    Config("aarch64be", A64BE, "+aes", backend="soft"),
    Config("armv8", V7, "+v8,+aes", nightly=True, backend="arm"),
    Config("armeb", ARMBE, "+v8,+aes", nightly=True, backend="soft"),
    Config("armebct", ARMBE, "+v8,+aes", nightly=True, ct=True, backend="ct"),
    Config("rv64", R64, "+zkne,+zknd", nightly=True, backend="rv64"),
    Config("rv32", R32, "+zkne,+zknd", nightly=True, backend="rv32"),
    Config("s390xct", S390, ct=True, backend="ct"),
]
BY_NAME = {c.name: c for c in CONFIGS}


# ------------------------------------------------------------------ set-up
def _locked(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def engine_stale():
    try:
        t = os.path.getmtime(ENGINE)
    except OSError:
        return True
    src = glob.glob(os.path.join(VERIF, "engine", "src", "*.rs")) + [os.path.join(VERIF, "engine", "Cargo.toml")]
    return any(os.path.getmtime(s) > t for s in src)


def build_engine():
    with _locked("engine"):
        if not engine_stale():
            return
        r = sh(["cargo", "+nightly", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "engine"),
               env={"CARGO_TARGET_DIR": os.path.join(BUILD, "target"), "CARGO_BUILD_JOBS": "8"})
        if r.returncode or not os.path.exists(ENGINE):
            raise Broken("the analyser does not build:\n" + r.stderr[-3000:])
        os.utime(ENGINE)
        r = sh([ENGINE, "--self-test"], env=engine_env())
        if r.returncode:
            os.remove(ENGINE)
            raise Broken("the analyser's specification fails its self-test: " + r.stderr)


def engine_env():
    return {"LD_LIBRARY_PATH": os.path.join(sysroot("nightly"), "lib")}


def build_core(target):
    """Metadata (with MIR) of core for one target, from the tool chain's own sources."""
    d = os.path.join(SR, target, "lib", "rustlib", target, "lib")
    done = os.path.join(d, "libcompiler_builtins.rmeta")
    if os.path.exists(done):
        return
    with _locked("core-" + target):
        if os.path.exists(done):
            return
        shutil.rmtree(os.path.join(SR, target), ignore_errors=True)
        os.makedirs(d)
        lib = os.path.join(sysroot("nightly"), "lib", "rustlib", "src", "rust", "library")
        env = {"RUSTC_BOOTSTRAP": "1"}
        r = sh(["rustc", "+nightly", "--edition", "2024", "--crate-type", "rlib", "--crate-name", "core",
                "--emit", "metadata=" + d + "/libcore.rmeta", "--target", target, "-Copt-level=3", "-Zalways-encode-mir",
                "-Zforce-unstable-if-unmarked", "--cap-lints", "allow", lib + "/core/src/lib.rs"], env=env)
        if r.returncode:
            raise Broken("core for " + target + ":\n" + r.stderr[-2000:])
        stub = os.path.join(d, "stub.rs")
        with open(stub, "w") as f:
            f.write('#![feature(compiler_builtins)] #![compiler_builtins] #![no_std] #![unstable(feature="x",issue="none")] #![feature(staged_api)]\n')
        r = sh(["rustc", "+nightly", "--edition", "2024", "--crate-type", "rlib", "--crate-name", "compiler_builtins",
                "--emit", "metadata=" + done, "--target", target, "--sysroot", os.path.join(SR, target),
                "-Zforce-unstable-if-unmarked", "--cap-lints", "allow", stub], env=env)
        os.remove(stub)
        if r.returncode:
            raise Broken("compiler_builtins for " + target + ":\n" + r.stderr[-2000:])


def setup(targets):
    build_engine()
    need = [t for t in sorted(set(targets)) if not os.path.exists(os.path.join(SR, t, "lib", "rustlib", t, "lib", "libcompiler_builtins.rmeta"))]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(build_core, need))


# ------------------------------------------------------------------ compiling /repo
def cfg_if_source():
    g = sorted(glob.glob(os.path.expanduser("~/.cargo/registry/src/*/cfg-if-1.0*/src/lib.rs")) + glob.glob("/root/.cargo/registry/src/*/cfg-if-1.0*/src/lib.rs"))
    ver = None
    try:
        m = re.search(r'name = "cfg-if"\nversion = "([^"]+)"', open(os.path.join(REPO, "Cargo.lock")).read())
        ver = m and m.group(1)
    except OSError:
        pass
    for p in g:
        if ver and "/cfg-if-%s/" % ver in p:
            return p
    if not g:
        raise Broken("no source of cfg-if in the cargo registry")
    return g[0]


def edition():
    m = re.search(r'^edition\s*=\s*"(\d+)"', open(os.path.join(REPO, "Cargo.toml")).read(), re.M)
    return m.group(1) if m else "2021"


class Work:
    """A scratch directory for one run; removed at the end."""

    def __enter__(self):
        os.makedirs(os.path.join(BUILD, "work"), exist_ok=True)
        self.dir = tempfile.mkdtemp(dir=os.path.join(BUILD, "work"))
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


PROFILE = {"release": ["-Cdebug-assertions=no", "-Coverflow-checks=no"], "debug": ["-Cdebug-assertions=yes", "-Coverflow-checks=yes"]}


_dep, _deps = threading.Lock(), {}


class Unit:
    """The crate, compiled (type-checked, MIR) under one configuration and profile."""

    def __init__(self, work, cfg, profile):
        self.cfg, self.profile = cfg, profile
        self.dir = os.path.join(work.dir, cfg.name + "-" + profile)
        self.ok = False
        self.errors = []
        self.api = None
        self.text = ""
        self.roots = None       # entry points generated for this unit alone, in addition to roots/

    def flags(self):
        c = self.cfg
        return ["--sysroot", os.path.join(SR, c.target), "--target", c.target, "-Ctarget-feature=" + c.tf,
                "-Zalways-encode-mir", "-Zinline-mir=no", "-Zmir-opt-level=1", "-Copt-level=0", "-Cpanic=abort"] + PROFILE[self.profile]

    def build(self):
        os.makedirs(self.dir, exist_ok=True)
        dep = os.path.join(os.path.dirname(self.dir), "cfg_if-" + self.cfg.target)
        with _dep:
            lock = _deps.setdefault(dep, threading.Lock())
        with lock:
            if not os.path.exists(dep):
                os.makedirs(dep)
                r = sh(["rustc", "+nightly", "--sysroot", os.path.join(SR, self.cfg.target), "--target", self.cfg.target, "-Cpanic=abort", "--edition", "2018", "--crate-type", "rlib",
                       "--crate-name", "cfg_if", "--emit", "metadata", "--out-dir", dep, "--cap-lints", "allow", cfg_if_source()])
                if r.returncode:
                    raise Broken("cfg-if for " + self.cfg.name + ":\n" + r.stderr[-2000:])
        self.dep = dep
        args = [ENGINE] + self.flags() + ["--edition", edition(), "--crate-type", "rlib", "--crate-name", "aes_crypto", "--emit", "metadata",
               "--out-dir", self.dir, "--extern", "cfg_if=" + dep + "/libcfg_if.rmeta", "--cap-lints", "warn", "--error-format", "json"]
        for f in self.cfg.cargo_features():
            args += ["--cfg", 'feature="%s"' % f]
        if not self.cfg.nightly:
            # what a stable compiler refuses: no unstable feature may be turned on
            args += ["-Zallow-features="]
        for e in self.cfg.extra:
            args += ["--cfg", e]
        args.append(os.path.join(REPO, "src", "lib.rs"))
        env = dict(engine_env(), AV_API=os.path.join(self.dir, "api.json"), CARGO_PKG_NAME="aes_crypto", CARGO_MANIFEST_DIR=REPO)
        r = sh(args, env=env, cwd=REPO, timeout=300)
        for l in r.stderr.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                self.text += l + "\n"
                continue
            if d.get("level", "").startswith("error") and d.get("spans"):
                s = d["spans"][0]
                self.errors.append("%s:%s: %s" % (os.path.relpath(s["file_name"], REPO) if s["file_name"].startswith("/") else s["file_name"], s["line_start"], d["message"]))
            elif d.get("level", "").startswith("error") and "aborting due" not in d.get("message", ""):
                self.errors.append(d["message"])
        self.ok = r.returncode == 0 and os.path.exists(os.path.join(self.dir, "api.json"))
        if self.ok:
            self.api = json.load(open(os.path.join(self.dir, "api.json")))
        elif not self.errors:
            raise Broken("compiling the crate for %s: status %s\n%s" % (self.cfg.name, r.returncode, (self.text + r.stderr)[-2000:]))
        return self

    def analyse(self, globs, tag, root_secs=240, timeout=820, roots=None, env=()):
        out = os.path.join(self.dir, "out-%s.json" % tag)
        e = dict(engine_env(), AV_ROOTS=",".join(globs), AV_OUT=out, AV_ROOT_SECS=str(root_secs))
        e.update(dict(env))
        if self.profile == "debug":
            e["AV_OVERFLOW"] = "1"
        args = [ENGINE] + self.flags() + ["--edition", "2021", "--crate-type", "rlib", "--crate-name", "roots", "--emit", "metadata",
               "--out-dir", self.dir, "--extern", "aes_crypto=" + self.dir + "/libaes_crypto.rmeta", "-L", self.dir, "-L", self.dep, "--cap-lints", "allow",
               os.path.join(ROOTS, roots) if roots else self.roots or os.path.join(ROOTS, "lib.rs")]
        if HALT.is_set():
            return {"roots": [], "stats": {}, "failed": None, "halted": True}
        r = sh(args, env=e, timeout=timeout, halt=True)
        if not os.path.exists(out):
            if r.halted:
                return {"roots": [], "stats": {}, "failed": None, "halted": True}
            return {"roots": [], "stats": {}, "failed": "time limit of the process" if r.late else (r.stderr or r.stdout)[-3000:], "status": r.returncode}
        d = json.load(open(out))
        os.remove(out)
        return d


def root_names():
    """The entry points by name, from the committed sources of roots/."""
    t = open(os.path.join(ROOTS, "lib.rs")).read() + open(os.path.join(ROOTS, "chains.rs")).read()
    fam = "enc|dec|rt|tr|conv|convq|pure|round|op|eq|bytes|u128|pack|bcast|split|slice|chain|fmt|fmterr|keyfmt|mix"
    return sorted(set(re.findall(r"\b(?:%s)_[a-z0-9_]*[a-z0-9]\b" % fam, t)) - {"enc_last", "dec_last", "chain_enc", "chain_dec"})


def select(names, globs):
    return [n for n in names if any(fnmatch.fnmatchcase(n, g) for g in globs)]


def pool(fn, items):
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(fn, items))
