"""The configurations: the documented matrix, further ones for any condition the source tests, and
their classes of identical code."""
import glob, json, os, re
from core import *

WASM, THUMB, APPLE, NONE64, WIN = "wasm32-unknown-unknown", "thumbv7em-none-eabi", "aarch64-apple-darwin", "x86_64-unknown-none", "x86_64-pc-windows-msvc"


def matrix():
    m = []

    def add(target, tf, modes):
        for nightly, ct in modes:
            c = Config("%s%s%s%s" % (target.split("-")[0] + ("" if "linux" in target else "-" + target.split("-")[-1]), "".join(tf.split(",")) or "", "-nightly" if nightly else "", "-ct" if ct else ""),
                       target, tf, nightly=nightly, ct=ct)
            m.append(c)
    full = [(n, c) for n in (False, True) for c in (False, True)]
    for t in (X64, X32):
        few = full if t == X64 else [(False, False), (True, True)]
        for tf in ("", "+aes", "+sse4.1,+aes", "+vaes", "+vaes,+avx512f", "+avx512f", "+avx512f,+aes"):
            add(t, tf, few)
        add(t, "+sse4.1", [(False, False), (False, True)])
    for t in (A64, EC):
        for tf in ("-aes", "+aes"):
            add(t, tf, full)
    add(A64BE, "+aes", full)
    add(V7, "+v8,+aes", full)
    add(V7, "+v8", [(True, False), (True, True)])
    add(V7, "", [(False, False), (True, True)])
    add(ARMBE, "+v8,+aes", full)
    for t in (R64, R32):
        for tf in ("", "+zkne", "+zknd"):
            add(t, tf, [(True, False), (True, True)])
        add(t, "+zkne,+zknd", full)
    add(R64, "+zkne,+zknd,+unaligned-scalar-mem", [(True, False)])
    add(R32, "+zkne,+zknd,+unaligned-scalar-mem", [(True, False)])
    add(S390, "", full)
    for t in (WASM, THUMB, APPLE, NONE64, WIN):
        add(t, "", [(False, False), (True, True)])
    return m


_cfgs = {}


def rustc_cfg(c):
    """what the compiler sets for a target and its features"""
    k = (c.target, c.tf)
    if k not in _cfgs:
        _cfgs[k] = _rustc_cfg(c)
    return _cfgs[k]


def _rustc_cfg(c):
    r = sh(["rustc", "+nightly", "--print", "cfg", "--target", c.target, "-Ctarget-feature=" + c.tf])
    if r.returncode:
        raise Broken("rustc --print cfg for %s: %s" % (c.name, r.stderr[-500:]))
    d = {}
    for l in r.stdout.splitlines():
        m = re.match(r'(\w+)="(.*)"', l)
        if m:
            d.setdefault(m.group(1), set()).add(m.group(2))
        elif re.match(r"\w+$", l):
            d[l] = {""}
    return d


def readme(c):
    """The README's selection rules: (single, x2, x4)."""
    g = rustc_cfg(c)
    arch = next(iter(g["target_arch"]))
    little = "little" in g["target_endian"]
    f = g.get("target_feature", set())
    x86 = arch in ("x86", "x86_64")
    if x86 and {"sse4.1", "aes"} <= f:
        s = "x86"
    elif little and "aes" in f and (arch in ("aarch64", "arm64ec") or (arch == "arm" and "v8" in f and c.nightly)):
        s = "arm"
    elif c.nightly and arch in ("riscv32", "riscv64") and {"zkne", "zknd"} <= f:
        s = "rv" + arch[-2:]
    else:
        s = "ct" if c.ct else "table"
    x2 = "vaes" if x86 and c.nightly and "vaes" in f else s
    x4 = "vaes512" if x86 and c.nightly and {"vaes", "avx512f"} <= f else x2
    return s, x2, x4


# ------------------------------------------------------------------ conditions tested by the source
IGNORE = {"test", "doc", "doctest", "miri", "clippy", "rustfmt", "docsrs", "proc_macro", "ub_checks"}
# set or unset by the two profiles
PROFILED = {"debug_assertions", "overflow_checks"}


def strip_comments(t):
    out, i, n = [], 0, len(t)
    while i < n:
        if t.startswith("//", i):
            j = t.find("\n", i)
            i = n if j < 0 else j
        elif t.startswith("/*", i):
            depth, i = 1, i + 2
            while i < n and depth:
                if t.startswith("/*", i):
                    depth, i = depth + 1, i + 2
                elif t.startswith("*/", i):
                    depth, i = depth - 1, i + 2
                else:
                    i += 1
            out.append(" ")
        elif t.startswith("'\"'", i):
            i += 3
        elif t[i] == '"':
            j = i + 1
            while j < n and t[j] != '"':
                j += 2 if t[j] == "\\" else 1
            out.append(t[i:j + 1])
            i = j + 1
        else:
            out.append(t[i])
            i += 1
    return "".join(out)


def atoms():
    """(name, value) of every condition in the crate's cfg attributes and macros"""
    found = set()
    for p in glob.glob(os.path.join(REPO, "src", "**", "*.rs"), recursive=True):
        t = strip_comments(open(p, errors="replace").read())
        for m in re.finditer(r"\bcfg(_attr)?\s*!?\s*\(", t):
            depth, i = 1, m.end()
            while i < len(t) and depth:
                depth += {"(": 1, ")": -1}.get(t[i], 0)
                if m.group(1) and depth == 1 and t[i] == ",":
                    break
                i += 1
            pred = t[m.end():i]
            for a in re.finditer(r'([A-Za-z_]\w*)\s*(?:=\s*"([^"]*)")?', pred):
                if a.group(1) in ("all", "any", "not") and re.match(r"\s*\(", pred[a.end():]):
                    continue
                if a.group(1) in ("true", "false"):
                    continue
                found.add((a.group(1), a.group(2)))
    return found


def holds(c, a):
    name, val = a
    if name == "feature":
        return val in c.cargo_features() or any(e == 'feature="%s"' % val for e in c.extra)
    g = rustc_cfg(c)
    if val is None:
        return name in g or name in c.extra
    return val in g.get(name, set())


_targets = None


def targets_with(a):
    global _targets
    if _targets is None:
        r = sh(["rustc", "+nightly", "-Zunstable-options", "--print", "all-target-specs-json"])
        _targets = json.loads(r.stdout) if r.returncode == 0 else {}
    name, val = a
    keys = {"target_os": "os", "target_env": "env", "target_vendor": "vendor", "target_abi": "abi", "target_family": "target-family",
            "target_arch": "arch", "target_endian": "target-endian", "target_pointer_width": "target-pointer-width"}
    out = []
    for t, s in sorted(_targets.items()):
        if name == "target_endian" and val == "little":
            v = s.get("target-endian", "little")
        else:
            v = s.get(keys.get(name, ""), None)
        if v == val or isinstance(v, list) and val in v or str(v) == val:
            out.append(t)
    return out


def declared(feature):
    m = re.search(r"^\[features\]\n(.*?)(?=^\[|\Z)", open(os.path.join(REPO, "Cargo.toml")).read(), re.M | re.S)
    return bool(m and re.search(r"^%s\s*=" % re.escape(feature), m.group(1), re.M))


def extension(base):
    """Configurations that give each condition the source tests, and the matrix leaves constant, the
    other value.  Returns them and the conditions left constant."""
    more, left = [], []
    for a in sorted(atoms(), key=str):
        name, val = a
        if name in IGNORE or name in PROFILED:
            continue
        v = {holds(c, a) for c in base}
        if len(v) == 2:
            continue
        was = v.pop()
        tag = "%s%s%s" % ("no-" if was else "", name, "=" + val if val else "")
        made = []
        if name == "feature" and not was and not declared(val):
            pass    # cargo refuses a feature the manifest does not list
        elif name == "feature" or val is None and not was:
            e = 'feature="%s"' % val if name == "feature" else name
            for c in CONFIGS:
                made.append(derive(c, tag, c.tf, c.extra + (e,)))
        elif name == "target_feature":
            for c in CONFIGS:
                d = derive(c, tag, ",".join(x for x in (c.tf, ("-" if was else "+") + val) if x), c.extra)
                try:
                    if holds(d, a) != was:
                        made.append(d)
                except Broken:
                    pass
        else:
            for t in ([] if was else targets_with(a)):
                d = Config("%s[%s]" % (t, tag), t)
                try:
                    if holds(d, a):
                        build_core(t)
                        made += [d, Config("%s-ct[%s]" % (t, tag), t, ct=True, backend="ct")]
                except Broken:
                    continue
                if len(made) >= 6:
                    break
        more += made
        if not made:
            left.append(tag)
    return more, left


def derive(c, tag, tf, extra):
    return Config("%s[%s]" % (c.name, tag), c.target, tf, nightly=c.nightly, ct=c.ct, backend=c.backend, x2=c.x2, x4=c.x4, extra=extra)


# ------------------------------------------------------------------ classes of identical code
def every(rep, runner, profiles):
    """Units of the whole matrix and its extension."""
    base = CONFIGS + [c for c in matrix() if c.name not in BY_NAME]
    pool(lambda c: rustc_cfg(c), list({(c.target, c.tf): c for c in base}.values()))
    more, left = extension(base)
    if left:
        rep.cover["conditions_of_the_source_left_constant"] = left
    if more:
        rep.cover["configurations_added_for_conditions_of_the_source"] = len(more)
    return runner.build([(c, p) for p in profiles for c in base + more])


def code(u):
    """Equal for units the analysis cannot tell apart: same code, word size, byte order, profile."""
    g = rustc_cfg(u.cfg)
    return (u.api["code"], min(g["target_pointer_width"]), min(g["target_endian"]), u.profile)


def classes(units):
    """One unit for each class of identical code, the named configurations first, and who it stands for."""
    g = {}
    for u in sorted(units, key=lambda u: u.cfg.name not in BY_NAME):
        g.setdefault(code(u), []).append(u)
    return list(g.values())
