"""Rules over the crate's items, signatures and types, and over which operations the entry points
reach, per configuration; compile-fail witnesses."""
import itertools, json, os, re
from core import *
from configs import *

OPS = {
    "x86": r"llvm\.x86\.aesni\.aes(enc|dec|enclast|declast|imc|keygenassist)$",
    "vaes": r"llvm\.x86\.aesni\.aes(enc|dec|enclast|declast)\.256$",
    "vaes512": r"llvm\.x86\.aesni\.aes(enc|dec|enclast|declast)\.512$",
    "arm": r"llvm\.(aarch64\.crypto|arm\.neon)\.aes\w+$",
    "rv64": r"llvm\.riscv\.aes64\w+$",
    "rv32": r"llvm\.riscv\.aes32\w+$",
}
# operations that only move or combine data
AUX = re.compile(r"llvm\.(?!.*(aes|sha|sm4|crypto))")


def observed(d, name):
    """which implementation the analysed entry points use, from the operations and accesses reached"""
    ins = set(d["stats"].get("instructions", []))
    fams = sorted(k for k, p in OPS.items() if any(re.match(p, i) for i in ins))
    other = sorted(i for i in ins if not any(re.match(p, i) for p in OPS.values()) and not AUX.match(i))
    idx = any(e[0] == "SecretIndex" for x in d["roots"] for e in x["events"])
    br = any(e[0] == "SecretBranch" for x in d["roots"] for e in x["events"])
    if other:
        fams += other
    if idx or br:
        fams.append("table")
    if not fams:
        fams = ["ct"]
    return fams, ins


ROUNDS = ("enc", "dec", "encl", "decl")


def backends(rep, r):
    units = [u for u in every(rep, r, ("release",))]
    sets = [("single", ["round_*_1", "mix_mc", "mix_imc"]), ("2-block", ["round_*_2"]), ("4-block", ["round_*_4"])]
    if rep.tier == "thorough":
        sets = [("single", ["round_*_1", "mix_*", "enc_*_1", "dec_*_1", "conv_*_1_[abcf]"]), ("2-block", ["round_*_2", "enc_*_2", "dec_*_2"]), ("4-block", ["round_*_4", "enc_*_4", "dec_*_4"])]
    table = []
    good = []
    for u in units:
        rep.add("configurations")
        if not u.ok:
            rep.violate("compile:" + u.cfg.name, "the crate does not compile for %s: %s" % (u.cfg.describe(), "; ".join(u.errors[:3])))
            continue
        good.append(u)
        bad = [f for f in u.api["features"]]
        if bad and not u.cfg.nightly:
            rep.violate("feature:" + u.cfg.name, "unstable language features %s are on without the nightly feature for %s" % (bad, u.cfg.describe()))
    # identical code is analysed once
    groups = classes(good)
    once = [(g[0], k, w, s) for g in groups for k, (w, s) in enumerate(sets)]
    found = {(code(j[0]), j[1]): d for j, d in zip(once, pool(lambda j: j[0].analyse(j[3], "b%d" % j[1]), once))}
    rep.cover["classes_of_identical_code"] = len(groups)
    ones = [(g[0], "round_%s_%s" % (t, "124"[k])) for g in groups for k in range(3) if readme(g[0].cfg)[k] in OPS for t in ROUNDS]
    single = {(code(j[0]), j[1]): d for j, d in zip(ones, pool(lambda j: j[0].analyse([j[1]], "o" + j[1]), ones))}
    jobs = [(u, k, w, s) for u in good for k, (w, s) in enumerate(sets)]
    res = [found[(code(u), k)] for u, k, _, _ in jobs]
    seen = set()
    for (u, k, w, g), d in zip(jobs, res):
        want = readme(u.cfg)[k]
        if d.get("failed") is not None or not d["roots"]:
            rep.violate("analysis:%s:%s" % (u.cfg.name, w), "the analysis of %s stopped: %s" % (u.cfg.name, str(d.get("failed"))[-500:]))
            continue
        und = [(x["root"], x["undecided"][0][0]) for x in d["roots"] if x["undecided"]]
        got, ins = observed(d, w)
        rep.add("selections_decided")
        ok = got == [want]
        if k == 0 and want == "table":
            ok = got == ["table"]
        # the multi-block operations built on another width use that width's operations
        if not ok:
            rep.violate("backend:%s:%s" % (u.cfg.name, w), "for %s the README names the %s implementation for %s blocks, but the code reached uses %s (%s)" % (u.cfg.describe(), want, w, "+".join(got), ", ".join(sorted(ins)[:8])))
        # the accelerated operations carry out every kind of round, not only some of them
        if want in OPS and ok:
            for t in ROUNDS:
                one = "round_%s_%s" % (t, "124"[k])
                d1 = single[(code(u), one)]
                if not d1["roots"]:
                    rep.violate("missing:%s:%s" % (u.cfg.name, one), "in %s there is no entry point %s" % (u.cfg.name, one))
                    continue
                rep.add("rounds_decided")
                g1, i1 = observed(d1, w)
                if g1 != [want]:
                    rep.violate("backend:%s:%s" % (u.cfg.name, one), "for %s the README names the %s implementation, but %s uses %s (%s)" % (u.cfg.describe(), want, one, "+".join(g1), ", ".join(sorted(i1)[:8])))
        if und and ok:
            rep.violate("undecided:%s:%s" % (u.cfg.name, und[0][0]), "in %s %s could not be analysed: %s" % (u.cfg.name, und[0][0], und[0][1]))
        seen.add(want)
        if k == 0 or u.cfg.nightly:
            table.append({"configuration": u.cfg.describe(), "blocks": w, "documented": want, "used": got})
    for n in ("x86", "vaes", "vaes512", "arm", "rv64", "rv32", "ct", "table"):
        if n not in seen:
            rep.violate("floor:" + n, "no configuration selects " + n)
    stable(rep, r)
    rep.samples += table[:: max(1, len(table) // 10)]
    rep.cover["selection_table_size"] = len(table)
    rep.cover["rule"] = ("Each configuration of the matrix is compiled (without the nightly feature: with every unstable feature refused), the operations and memory accesses reachable from the round and cipher entry points are computed, "
                         "and the family of hardware operations reached (or, for software, whether a memory address depends on data) must be the implementation the README names.")


def stable(rep, r):
    """the stable compiler itself, for the host"""
    d = os.path.join(r.work.dir, "stable")
    os.makedirs(d, exist_ok=True)
    x = sh(["rustc", "+stable", "--edition", "2018", "--crate-type", "rlib", "--crate-name", "cfg_if", "--emit", "metadata", "--out-dir", d, "--cap-lints", "allow", cfg_if_source()])
    if x.returncode:
        raise Broken("stable cfg-if: " + x.stderr[-500:])
    for tf, ct in itertools.product(("", "+sse4.1,+aes", "+vaes", "+vaes,+avx512f"), (False, True)):
        a = ["rustc", "+stable", "--edition", edition(), "--crate-type", "rlib", "--crate-name", "aes_crypto", "--emit", "metadata", "--out-dir", d,
             "--extern", "cfg_if=" + d + "/libcfg_if.rmeta", "--cap-lints", "warn", "-Ctarget-feature=" + tf]
        if ct:
            a += ["--cfg", 'feature="constant-time"']
        x = sh(a + [os.path.join(REPO, "src", "lib.rs")], env={"CARGO_PKG_NAME": "aes_crypto", "CARGO_MANIFEST_DIR": REPO}, cwd=REPO)
        rep.add("stable_compilations")
        if x.returncode:
            rep.violate("stable:%s%s" % (tf, "-ct" if ct else ""), "the stable compiler rejects the crate for x86_64 %s: %s" % (tf, "; ".join(re.findall(r"^error.*", x.stderr, re.M)[:3])))


# ------------------------------------------------------------------ API (C20)
ARTEFACT = re.compile(r"core::(marker::StructuralPartialEq|clone::TrivialClone)>")


TESTED = ("sw", "ct", "aesni", "vaes", "avx512", "neon")


def not_compiled(rep, u):
    """A configuration that does not compile has no behaviour; that it compiles is C19's (and C20's) business."""
    if rep.prop in ("C19", "C20") or u.cfg.name in TESTED:
        rep.violate("compile:" + u.cfg.name, "the crate does not compile for %s (%s, %s profile): %s" % (u.cfg.name, u.cfg.describe(), u.profile, "; ".join(u.errors[:3])))
    else:
        rep.add("configurations_not_compiling")
        rep.cover.setdefault("not_compiling", []).append("%s %s" % (u.cfg.name, u.profile))


def api_set(u):
    return {e[0]: e[1] for e in u.api["api"] if not ARTEFACT.search(e[0])}


def api_units(rep, r, profiles=("release", "debug")):
    """the crate in every configuration and profile"""
    good = []
    units = every(rep, r, profiles)
    for u in units:
        rep.add("configurations_compiled")
        if u.ok:
            good.append(u)
        else:
            not_compiled(rep, u)
    if units and not good:
        rep.violate("compile:all", "the crate compiles for none of %d configurations" % len(units))
    return good


def api_equal(rep, r):
    units = api_units(rep, r)
    if not units:
        return
    # what most configurations agree on is the reference; a deviation names the odd ones out
    count = {}
    for u in units:
        for e in api_set(u):
            count.setdefault(e, []).append(u)
    rep.cover["api_entries"] = len(count)
    if len(count) < 100:
        rep.violate("floor:api", "only %d API entries found" % len(count))
    for e, us in sorted(count.items()):
        rep.add("comparisons", len(units))
        if len(us) != len(units):
            have = {u.cfg.name for u in us}
            miss = [u for u in units if u.cfg.name not in have]
            few = us if len(us) <= len(miss) else miss
            how = "exists only" if few is us else "is missing"
            at = api_set(us[0])[e]
            rep.violate("api:" + e, "%s %s in %s (%d of %d configurations have it; defined at %s)" % (e, how, ", ".join(u.cfg.name for u in few[:4]), len(us), len(units), strip(at)))
    want = {"AesBlock": 16, "AesBlockX2": 32, "AesBlockX4": 64}
    autos = {}
    for u in units:
        for t, n in want.items():
            x = u.api["types"].get(t)
            if not x or x["size"] != n:
                rep.violate("size:%s:%s" % (t, u.cfg.name), "%s has %s bytes in %s, not %d" % (t, x and x["size"], u.cfg.name, n))
        for t, x in u.api["types"].items():
            rep.add("types_compared")
            autos.setdefault(t, {}).setdefault((tuple(sorted(x["auto"])), x["needs_drop"]), []).append(u.cfg.name)
    for t, v in autos.items():
        if len(v) > 1:
            few = min(v.items(), key=lambda kv: len(kv[1]))
            rep.violate("auto:" + t, "the auto traits of %s differ between configurations: %s only in %s" % (t, few[0], few[1][:4]))
    rep.samples = [{"entry": e, "configurations": len(us)} for e, us in list(sorted(count.items()))[::40]]
    rep.cover["rule"] = "the set of public items, methods with full signatures (constness, safety, generics), trait implementations with associated types, and auto traits, as the type checker sees them, is the same in every configuration"


def strip(s):
    return s.replace(REPO + "/", "")


# ------------------------------------------------------------------ sealing (C21)
KEYS = {"Aes128Enc": 16, "Aes128Dec": 16, "Aes192Enc": 24, "Aes192Dec": 24, "Aes256Enc": 32, "Aes256Dec": 32}
CIPHER = re.compile(r"Aes(Encrypt|Decrypt)(<\d+>)?>?::(en|de)crypt_(block|2_blocks|4_blocks)$")


def slice_root(k, f):
    """An entry point that is true when a key object can be built from the slice."""
    opt = re.match(r"core::(option::Option|result::Result)<%s\b" % k, f["output"])
    yes = opt and (".is_some()" if "Option" in opt.group(1) else ".is_ok()")
    if yes and re.match(r"<%s as core::convert::TryFrom<&\[u8\]>>$" % k, f["trait"]):
        return k, "<aes_crypto::%s as TryFrom<&[u8]>>::try_from(k)%s" % (k, yes)
    if yes and re.match(r"%s::\w+$" % k, f["fn"]) and not f["unsafe"]:
        return k, "aes_crypto::%s(k)%s" % (f["fn"], yes)


def from_slices(rep, slices):
    """Key objects built from slices, where there is such an operation: whatever the length, only the key's own."""
    for u, l in slices.items():
        u.roots = os.path.join(u.dir, "roots-slices.rs")
        with open(u.roots, "w") as f:
            f.write("#![no_std]\n#![allow(unused)]\nextern crate aes_crypto;\nuse aes_crypto::*;\n")
            for i, (k, e) in enumerate(sorted(set(l))):
                f.write("pub fn keyslice_%d_%d(k: &[u8]) -> bool { %s }\n" % (KEYS[k], i, e))
        d = u.analyse(["keyslice_*"], "slices", root_secs=100, timeout=200, env=[("AV_SECRET", "0")])
        u.roots = None
        got = {x["root"]: x for x in d["roots"]}
        for i, (k, e) in enumerate(sorted(set(l))):
            rep.add("slice_constructors")
            x = got.get("keyslice_%d_%d" % (KEYS[k], i))
            why = d.get("failed") or "no result" if x is None else x["bad"][0][0] if x["bad"] else "cannot be shown: " + x["undecided"][0][0] if x["undecided"] else None
            if why:
                rep.violate("builds:" + e, "%s in %s: %s" % (e, u.cfg.name, why[-500:]))


def sealed(rep, r):
    slices = {}
    units = api_units(rep, r)
    for u in units:
        a = u.api
        name = u.cfg.name
        tr = {t["trait"]: t for t in a["traits"]}
        seals = {s["trait"] for s in a["sealed"]}
        for t in ("AesEncrypt", "AesDecrypt"):
            rep.add("rules")
            if t not in tr:
                rep.violate("trait:" + t, "%s is not a trait in %s" % (t, name))
                continue
            priv = [s for s in tr[t]["supers"] if s in tr and not tr[s]["public"]]
            if not priv:
                rep.violate("sealed:" + t, "%s has no private supertrait in %s: downstream code can implement it" % (t, name))
        for s in a["sealed"]:
            rep.add("rules")
            ty = re.match(r"<(\w+) as ", s["impl"])
            if s["blanket"] or not ty or ty.group(1) not in KEYS:
                rep.violate("sealed-impl:" + s["impl"], "the sealing trait is implemented by %s in %s" % (s["impl"], name))
        for f in a["fields"]:
            if f["ty"] in KEYS:
                rep.add("rules")
                if f["pub"]:
                    rep.violate("field:%s.%s" % (f["ty"], f["field"]), "field %s of %s is public in %s" % (f["field"], f["ty"], name))
        ents = api_set(u)
        for k, n in KEYS.items():
            other = k[:-3] + ("Dec" if k.endswith("Enc") else "Enc")
            tname, aname = ("AesEncrypt", "Decrypter") if k.endswith("Enc") else ("AesDecrypt", "Encrypter")
            rep.add("rules")
            e = "<%s as %s<%d>>::%s = %s" % (k, tname, n, aname, other)
            if e not in ents:
                rep.violate("pair:" + k, "%s is not so in %s" % (e, name))
        for e, at in ents.items():
            m = re.match(r"impl <(\w+) as (.*)>$", e)
            if not m or m.group(1) not in KEYS:
                continue
            rep.add("rules")
            k, t = m.groups()
            n = KEYS[k]
            g = re.match(r"core::convert::(From|TryFrom)<(.*)>$", t)
            if g and not (re.sub(r"^&('\w+ )?", "", g.group(2)) == "[u8; %d]" % n or g.group(2) == "&[u8]" and g.group(1) == "TryFrom" or g.group(2) in KEYS or g.group(2).lstrip("&") in KEYS):
                rep.violate("from:" + e, "%s can be built from %s in %s (%s)" % (k, g.group(2), name, strip(at)))
            g = re.match(r"(AesEncrypt|AesDecrypt)<(\d+)>$", t)
            if g and (int(g.group(2)) != n or (g.group(1) == "AesEncrypt") != k.endswith("Enc")):
                rep.violate("from:" + e, "%s implements %s in %s" % (k, t, name))
            if re.match(r"core::(ops::(Deref|DerefMut|Index|IndexMut)|convert::(AsRef|AsMut)|borrow::(Borrow|BorrowMut)|default::Default)\b", t):
                rep.violate("access:" + e, "%s gives access to, or builds, a key object without its key in %s (%s)" % (e, name, strip(at)))
        for e, at in ents.items():
            m = re.match(r"impl <(.*) as core::convert::(From|TryFrom)<&?(\w+)>>$", e)
            if m and m.group(3) in KEYS and m.group(1) not in KEYS:
                rep.violate("access:" + e, "%s converts a key object into %s in %s (%s)" % (e, m.group(1), name, strip(at)))
        for f in a["fns"]:
            if not f["reachable"]:
                continue
            kin = [i for i in f["inputs"] if any(x in KEYS for x in i[2]) or re.search(r"\bSelf\b", i[1])]
            gives_key = [x for x in f["gives"] if x in KEYS]
            short = f["fn"]
            rep.add("signatures")
            if any(i[0] in ("mut", "raw") for i in kin) and not re.search(r"Clone>::clone_from$|Drop>::drop$|zeroize", short, re.I):
                rep.violate("mutates:" + short, "%s takes a key object mutably in %s (%s)" % (short, name, strip(f["site"])))
            if kin and not CIPHER.search(short):
                out = f["output"]
                fine = gives_key or out in ("()", "bool", "!", "core::cmp::Ordering") or re.search(r"fmt::Error>|fmt::Result|Option<core::cmp::Ordering>", out) or re.search(r"::(Encrypter|Decrypter)$", out)
                if not fine:
                    rep.violate("reads:" + short, "%s gives %s from a key object in %s (%s)" % (short, out, name, strip(f["site"])))
                mo = [i for i in f["inputs"] if i[0] == "mut" and i not in kin and "Formatter" not in i[1] and "Hasher" not in i[1]]
                if mo:
                    rep.violate("reads:" + short, "%s writes through %s with a key object at hand in %s (%s)" % (short, mo[0][1], name, strip(f["site"])))
            if gives_key and not kin:
                for i in f["inputs"]:
                    ok = i[1].lstrip("&").replace("'_ ", "") in {"[u8; %d]" % KEYS[k] for k in gives_key}
                    if not ok and i[1] == "&[u8]" and len(f["inputs"]) == 1 and len(set(gives_key)) == 1:
                        ok = slice_root(gives_key[0], f)
                        if ok:
                            slices.setdefault(u, []).append(ok)
                    if not ok:
                        rep.violate("builds:" + short, "%s builds a key object from %s in %s (%s)" % (short, i[1], name, strip(f["site"])))
    from_slices(rep, slices)
    if rep.cover.get("signatures", 0) < 100 * len(units):
        rep.violate("floor:signatures", "only %s signatures inspected" % rep.cover.get("signatures"))
    witnesses(rep, r, units)
    rep.cover["rule"] = ("The sealing supertrait is unreachable and implemented by exactly the six key types; their fields are private; no reachable signature reads, replaces or builds round keys; associated types pair the right sizes; "
                         "and downstream programs doing any of it fail to build with the expected error while their corrected twins compile.")


PRE = "#![no_std]\n#![allow(unused, dead_code)]\nuse aes_crypto::*;\n"


def witness_files():
    """(name, bad source: every line marked //~ must be an error with that code and no other line, good twin)"""
    w = []
    lens = (0, 1, 8, 15, 16, 17, 23, 24, 25, 31, 32, 33, 48, 64)
    bad = "".join("pub fn f_%s_%d(k: [u8; %d]) -> %s { <%s>::from(k) } //~ E0277\n" % (t.lower(), n, n, t, t) for t, k in KEYS.items() for n in lens if n != k)
    good = "".join("pub fn f_%s(k: [u8; %d]) -> %s { <%s>::from(k) }\n" % (t.lower(), k, t, t) for t, k in KEYS.items())
    w.append(("key_length", bad, good))
    bad = "".join("pub fn g_%s(k: &[AesBlock; %d]) -> %s { <%s>::from(*k) } //~ E0277\n" % (t.lower(), k // 4 + 7, t, t) for t, k in KEYS.items())
    w.append(("from_round_keys", bad, good))
    bad = good = ""
    for t, k in KEYS.items():
        m, n = ("de", "en") if t.endswith("Enc") else ("en", "de")
        for s, b in (("block", "AesBlock"), ("2_blocks", "AesBlockX2"), ("4_blocks", "AesBlockX4")):
            bad += "pub fn h_%s_%s(k: &%s, b: %s) -> %s { k.%scrypt_%s(b) } //~ E0599\n" % (t.lower(), s, t, b, b, m, s)
            good += "pub fn h_%s_%s(k: &%s, b: %s) -> %s { k.%scrypt_%s(b) }\n" % (t.lower(), s, t, b, b, n, s)
    w.append(("direction", bad, good))
    bad = good = ""
    for t, k in KEYS.items():
        m = "decrypter" if t.endswith("Enc") else "encrypter"
        opp = "Dec" if t.endswith("Enc") else "Enc"
        for o, ko in KEYS.items():
            if o == t[:-3] + opp:
                good += "pub fn i_%s(k: &%s) -> %s { k.%s() }\n" % (t.lower(), t, o, m)
            else:
                bad += "pub fn i_%s_%s(k: &%s) -> %s { k.%s() } //~ E0308\n" % (t.lower(), o.lower(), t, o, m)
    w.append(("pairing", bad, good))
    bad = "".join("pub fn j_%s(k: &%s) -> AesBlock { k.round_keys[0] } //~ E0616\npub fn k_%s(k: &mut %s) { k.round_keys[0] = AesBlock::zero(); } //~ E0616\n" % (t.lower(), t, t.lower(), t) for t in KEYS)
    w.append(("private_field", bad, "".join("pub fn j_%s(k: &%s) -> %s { k.clone() }\n" % (t.lower(), t, t) for t in KEYS)))
    bad = good = ""
    for t, k in KEYS.items():
        tr, dn, mth = ("AesEncrypt", "Decrypter", "encrypter") if t.endswith("Enc") else ("AesDecrypt", "Encrypter", "x")
        en, opp = ("en", t[:-3] + "Dec") if t.endswith("Enc") else ("de", t[:-3] + "Enc")
        body = ("type {dn} = {opp}; fn {en}crypt_block(&self, b: AesBlock) -> AesBlock {{ b }} fn {en}crypt_2_blocks(&self, b: AesBlockX2) -> AesBlockX2 {{ b }} "
                "fn {en}crypt_4_blocks(&self, b: AesBlockX4) -> AesBlockX4 {{ b }} fn {dl}(&self) -> {opp} {{ loop {{}} }}").format(dn=dn, opp=opp, en=en, dl=dn.lower())
        # a type of one's own that satisfies every other supertrait
        own = "#[derive(Clone, Debug)] pub struct My{t}; impl From<[u8; {k}]> for My{t} {{ fn from(_: [u8; {k}]) -> Self {{ My{t} }} }}\n".format(t=t, k=k)
        bad += own + "impl %s<%d> for My%s { %s } //~ any\n" % (tr, k, t, body)
        good += own + "pub trait Own%s: Sized + Clone + core::fmt::Debug + From<[u8; %d]> {} impl Own%s for My%s {}\n" % (t, k, t, t)
    w.append(("sealed", bad, good))
    bad = good = ""
    for t, k in KEYS.items():
        tr = "AesEncrypt" if t.endswith("Enc") else "AesDecrypt"
        ot = "AesDecrypt" if t.endswith("Enc") else "AesEncrypt"
        bad += "const _: () = { fn n<T: %s<%d>>() {} let _ = n::<%s>; }; //~ E0277\n" % (ot, k, t)
        for j in (16, 24, 32):
            if j != k:
                bad += "const _: () = { fn n<T: %s<%d>>() {} let _ = n::<%s>; }; //~ E0277\n" % (tr, j, t)
        good += "const _: () = { fn n<T: %s<%d>>() {} let _ = n::<%s>; };\n" % (tr, k, t)
        for x in ("AsRef<[AesBlock]>", "AsRef<[u8]>", "core::ops::Deref", "core::ops::Index<usize>", "Into<[AesBlock; %d]>" % (k // 4 + 7), "Default", "AsMut<[AesBlock]>"):
            bad += "const _: () = { fn n<T: %s>() {} let _ = n::<%s>; }; //~ E0277\n" % (x, t)
        good += "const _: () = { fn n<T: Clone + core::fmt::Debug + Send + Sync + 'static>() {} let _ = n::<%s>; };\n" % t
    w.append(("bounds", bad, good))
    w.append(("seal_path", "impl aes_crypto::private::Sealed for X {} //~ E0603\npub struct X;\n", "pub struct X;\n"))
    w.append(("literal", "pub fn l(r: [AesBlock; 11]) -> Aes128Enc { Aes128Enc { round_keys: r } } //~ E0451\n", "pub fn l(r: [u8; 16]) -> Aes128Enc { Aes128Enc::from(r) }\n"))
    return w


def compile_witness(u, name, src):
    d = os.path.join(u.dir, "w_" + name)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name + ".rs")
    with open(p, "w") as f:
        f.write(PRE + src)
    x = sh(["rustc", "+nightly"] + u.flags() + ["--edition", "2021", "--crate-type", "rlib", "--crate-name", "w", "--emit", "metadata", "--out-dir", d,
           "--extern", "aes_crypto=" + u.dir + "/libaes_crypto.rmeta", "-L", u.dir, "-L", u.dep, "--error-format", "json", "--cap-lints", "allow", p], timeout=120)
    errs = []
    for l in x.stderr.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("level") == "error" and j.get("spans"):
            sp = next((s for s in j["spans"] if s["is_primary"]), j["spans"][0])
            errs.append((sp["line_start"], (j.get("code") or {}).get("code") or "", j["message"]))
    return x.returncode, errs, x.stderr


def witnesses(rep, r, units):
    pick = [g[0] for g in classes([u for u in units if u.profile == "release"])]
    jobs = [(u, n, b, g) for u in pick for n, b, g in witness_files()]
    def one(j):
        u, n, b, g = j
        return compile_witness(u, n + "_ok", g), compile_witness(u, n + "_bad", b)
    for (u, n, b, g), (ok, bad) in zip(jobs, pool(one, jobs)):
        if ok[0] != 0:
            rep.violate("twin:%s" % n, "the corrected twin of witness %s does not compile in %s: %s" % (n, u.cfg.name, [e[2] for e in ok[1]][:2] or ok[2][-300:]))
            continue
        rep.add("twins_compiled")
        got = {}
        for line, code, msg in bad[1]:
            got.setdefault(line, []).append((code, msg))
        off = PRE.count("\n")
        for i, l in enumerate(b.splitlines()):
            m = re.search(r"//~ (\w+)$", l)
            e = got.get(i + 1 + off, [])
            if m:
                rep.add("witnesses")
                if not e:
                    rep.violate("witness:%s:%s" % (n, l.split("{")[0].strip()[:60]), "in %s this compiles, and must not: %s" % (u.cfg.name, l[:160]))
                elif m.group(1) != "any" and all(c != m.group(1) for c, _ in e) and n not in ("private_field", "literal", "seal_path"):
                    rep.violate("witness-code:%s:%s" % (n, l.split("{")[0].strip()[:60]), "in %s the expected error is %s, not %s: %s" % (u.cfg.name, m.group(1), e, l[:120]))
            elif e:
                rep.violate("witness-other:%s" % n, "in %s an unexpected error: %s" % (u.cfg.name, e[0]))
    if rep.cover.get("witnesses", 0) < 100:
        rep.violate("floor:witnesses", "only %s witnesses" % rep.cover.get("witnesses"))


# ------------------------------------------------------------------ core only (C22)
def core_only(rep, r):
    units = api_units(rep, r)
    for u in units:
        a = u.api
        n = u.cfg.name
        extra = set(a["crates"]) - {"core", "cfg_if", "compiler_builtins"}
        rep.add("rules", 4)
        if extra:
            rep.violate("crate:" + ",".join(sorted(extra)), "the crate depends on %s in %s" % (sorted(extra), n))
        for g in a["global_asm"]:
            rep.violate("global_asm", "global assembly in %s (%s)" % (n, g))
        for f in a["fns"]:
            rep.add("functions")
            if f["asm"]:
                rep.violate("asm:" + f["fn"], "inline assembly in %s in %s (%s)" % (f["fn"], n, strip(f["site"])))
        foreign(rep, u)
        statics(rep, u)
    try:
        t = open(os.path.join(REPO, "Cargo.toml")).read()
        deps = re.findall(r"^([\w-]+)\s*=", (re.search(r"^\[dependencies\]\n(.*?)(?=^\[|\Z)", t, re.M | re.S) or [None, ""])[1], re.M)
        rep.cover["dependencies"] = deps
        if set(deps) - {"cfg-if"} or re.search(r"^\[(build-dependencies|target\..*dependencies)\]", t, re.M):
            rep.violate("dependency", "the manifest lists further dependencies: %s" % deps)
    except OSError as e:
        rep.violate("manifest", str(e))
    if rep.cover.get("functions", 0) < 100 * len(units):
        rep.violate("floor:functions", "only %s functions inspected" % rep.cover.get("functions"))
    # positive controls: each rule on a crate that breaks it
    rep.cover["rule"] = "crates linked, inline and global assembly, foreign functions other than LLVM operations, and mutable, interior-mutable or thread-local statics: none, in every configuration"


def foreign(rep, u):
    for f in u.api["foreign"]:
        rep.add("foreign_items")
        if not (f["link_name"] or "").startswith("llvm."):
            rep.violate("foreign:" + f["fn"], "foreign item %s (%s) is declared in %s (%s)" % (f["fn"], f["link_name"] or f["abi"], u.cfg.name, strip(f["site"])))


def statics(rep, u):
    for s in u.api["statics"]:
        rep.add("statics")
        why = [w for w, b in (("is mutable", s["mut"]), ("has interior mutability", not s["freeze"]), ("is thread-local", s["thread_local"]), ("is foreign", s["foreign"])) if b]
        if why:
            rep.violate("static:" + s["static"], "static %s: %s %s in %s (%s)" % (s["static"], s["ty"], " and ".join(why), u.cfg.name, strip(s["site"])))


# ------------------------------------------------------------------ C18, C16
def state_free(rep, r):
    units = api_units(rep, r)
    rep.cover["classes_of_identical_code"] = len(classes(units))
    want = ["Send", "Sync", "Freeze", "Unpin", "UnwindSafe", "RefUnwindSafe"]
    for u in units:
        statics(rep, u)
        foreign(rep, u)
        ts = u.api["types"]
        for t in list(KEYS) + ["AesBlock", "AesBlockX2", "AesBlockX4"]:
            rep.add("types")
            x = ts.get(t)
            if not x:
                rep.violate("type:" + t, "%s does not exist in %s" % (t, u.cfg.name))
                continue
            for a in want:
                if a not in x["auto"]:
                    rep.violate("auto:%s:%s" % (t, a), "%s is not %s in %s" % (t, a if a != "Freeze" else "free of interior mutability", u.cfg.name))
            if x["pointers"]:
                rep.violate("pointer:" + t, "%s holds a pointer in %s: its contents may be shared" % (t, u.cfg.name))


def uninit_api(rep, units):
    for u in units:
        for f in u.api["fns"]:
            if f["reachable"] and not f["unsafe"]:
                rep.add("safe_public_signatures")
                if any(i[0] == "raw" for i in f["inputs"]):
                    rep.violate("raw:" + f["fn"], "the safe function %s takes a raw pointer in %s (%s)" % (f["fn"], u.cfg.name, strip(f["site"])))
