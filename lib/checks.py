"""One check per property. Value-level properties are decided by the analyser on the entry points of
roots/; structural ones by rules over the crate's items, types and signatures as the compiler sees
them (API mode) and by compile-fail witnesses."""
import hashlib, json, os, re, sys, time
from core import *
from run import Runner
import structure
from configs import *

KNOWN = os.path.join(VERIF, "known-findings.txt")

TRUST = [
    "rustc nightly 1.101.0: parsing, type checking, MIR construction, layout computation and const evaluation",
    "the MIR bodies of core shipped with that tool chain (analysed, not assumed; intrinsics are modelled)",
    "the model of core's intrinsics and of the llvm.x86.aesni.*, llvm.aarch64.crypto.*, llvm.arm.neon.*, llvm.riscv.* operations (engine/src/intrin.rs, llvm.rs)",
    "the specification of AES written from its algebraic definition (engine/src/spec.rs), self-tested against the FIPS-197 examples at set-up",
    "the analyser itself (engine/)",
]

# technique and level text used in MANIFEST.json
def value(globs, quick=None, profiles=("release",), quick_profiles=None, controls=(), note=""):
    return {"globs": globs, "quick": quick or globs, "profiles": profiles,
            "quick_profiles": quick_profiles or profiles, "controls": controls, "note": note}

BOTH = ("release", "debug")
# key counts of the quick run: every small one, and those around powers of two
CHAIN_Q = ["chain_*_1_%d" % n for n in list(range(0, 34)) + [63, 64, 65, 127, 128, 129, 256, 257]]
CHAIN_Q += ["chain_*_%d_%d" % (w, n) for w in (2, 4) for n in list(range(0, 18)) + [33]] + ["chain_*_2_65", "chain_*_4_65"]
VALUE = {
    "C01": value(["enc_*_1", "conv_e_*_1_t"], controls=["enc_16_1"], profiles=BOTH),
    "C02": value(["dec_*", "rt_*", "tr_*"], quick=["dec_*_1", "rt_*_1", "tr_*_1"], profiles=BOTH, quick_profiles=("release",), controls=["enc_16_1"]),
    "C03": value(["conv_*", "convq_*"], quick=["conv_*_1_[abcfght]", "convq_*_16_*", "convq_*_24_*"], profiles=BOTH, quick_profiles=("release",), controls=["enc_16_1"]),
    "C04": value(["enc_*_2", "enc_*_4", "dec_*_2", "dec_*_4"], profiles=BOTH, quick_profiles=("release",), controls=["pack_2_tuple"]),
    "C05": value(["round_*_1"], profiles=BOTH, controls=["op_xor_1"]),
    "C06": value(["mix_*"], profiles=BOTH, controls=["op_xor_1"]),
    "C07": value(["round_*_2", "round_*_4"], profiles=BOTH, controls=["pack_2_tuple"]),
    "C08": value(["chain_*"], quick=CHAIN_Q, profiles=BOTH, quick_profiles=("release",), controls=["chain_enc_1_5"]),
    "C09": value(["bytes_*", "u128_*"], profiles=BOTH, controls=["op_xor_1", "pack_2_tuple"]),
    "C10": value(["pack_*", "bcast_*", "split_*"], profiles=BOTH, controls=["pack_2_tuple"]),
    "C11": value(["slice_*"], profiles=BOTH, controls=["slice_store_1", "slice_try_1"]),
    "C12": value(["op_*"], profiles=BOTH, controls=["op_xor_1"]),
    "C13": value(["eq_*"], profiles=BOTH, controls=["eq_eq_1"]),
    "C14": value(["fmt_*", "fmterr_*"], profiles=BOTH, quick_profiles=("release",), controls=["op_xor_1"]),
}
SECRET = ["enc_*", "dec_*", "conv_e_*_1_[abt]", "conv_d_*_1_[cf]", "round_*", "mix_mc", "mix_imc", "op_*", "pack_*", "bcast_*", "split_*",
          "bytes_*", "u128_*"] + ["chain_*_%d" % i for i in range(1, 7)]
SECRET_Q = ["enc_*_1", "dec_*_1", "enc_16_4", "dec_16_4", "enc_24_2", "dec_24_2", "enc_32_4", "dec_32_2", "conv_e_*_1_b", "conv_d_*_1_f", "round_*", "mix_mc", "mix_imc", "op_*",
            "pack_*", "bcast_*", "split_*", "bytes_*", "u128_*", "chain_*_3", "chain_*_5"]
SAFE = ["*"]
SAFE_Q = ["enc_16_1", "enc_24_1", "enc_32_1", "dec_*_1", "enc_*_2", "enc_16_4", "dec_16_4", "conv_e_*_1_b", "convq_*_16_*", "round_*", "mix_mc", "mix_imc", "op_*", "eq_*", "bytes_*", "u128_*", "pack_*",
          "bcast_*", "split_*", "slice_*", "fmt_lower_1", "fmt_adebug_4", "fmt_bin_1", "fmt_debug_2", "pure_copy_*"] + ["chain_*_%d" % i for i in (0, 1, 2, 3, 4, 5, 9, 17, 33, 65)] + ["chain_*_1_129", "chain_*_1_257"]


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.viol = {}          # key -> text
        self.known = {}
        self.fixed = []
        self.obligations = self.discharged = 0
        self.cover = {}
        self.samples = []
        self.assume = []
        for l in open(KNOWN) if os.path.exists(KNOWN) else []:
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                self.known[m.group(2)] = m.group(3)
        self.hit = set()

    def violate(self, key, text):
        key = re.sub(r"\s+", "_", key)
        if key in self.known:
            self.hit.add(key)
            return
        self.viol.setdefault(key, text)

    def add(self, name, n=1):
        self.cover[name] = self.cover.get(name, 0) + n


def mangle(s):
    """sites and messages without line numbers, for keys"""
    return re.sub(r"\s*\([^()]*:\d+[:\d\- ]*\)", "", s)


def controls(rep, runner, names, expect=("bad",), cfgname="ct", profile="release"):
    """the deliberately wrong functions of roots/controls.rs: the rule must report each"""
    if not names:
        return
    u = runner.build([(BY_NAME[cfgname], profile)])[0]
    if not u.ok:
        return
    d = u.analyse(list(names), "ctl", roots="controls.rs")
    got = {x["root"]: x for x in d["roots"]}
    n = 0
    for c in names:
        x = got.get(c)
        hit = x is not None and (("bad" in expect and x["bad"]) or any(e[0] in expect for e in x["events"]))
        if not hit:
            rep.violate("control:" + c, "the analysis does not report the deliberately wrong control function %s (%s)" % (c, d.get("failed") or (x and (x["undecided"] or "nothing"))))
        else:
            n += 1
    rep.cover["controls_reported"] = rep.cover.get("controls_reported", 0) + n


def compiled(rep, units):
    good = []
    for u in units:
        rep.add("configurations_compiled")
        if u.ok:
            good.append(u)
        else:
            structure.not_compiled(rep, u)
    if units and not good:
        rep.violate("compile:all", "the crate compiles for none of %d configurations" % len(units))
    return good


def units_for(rep, runner, profiles, keep=lambda c: True):
    """One compiled unit for each class of identical code among all configurations kept."""
    good = [u for u in compiled(rep, every(rep, runner, profiles)) if keep(u.cfg)]
    gs = classes(good)
    rep.cover["classes_of_identical_code"] = rep.cover.get("classes_of_identical_code", 0) + len(gs)
    rep.cover.setdefault("configurations_by_class", {}).update({"%s %s" % (g[0].cfg.name, g[0].profile): len(g) for g in gs})
    return [g[0] for g in gs]


def run_roots(rep, runner, plan, want, bad=True, secret=False, exact=False):
    """plan: [(compiled unit, globs)], or names when exact.  want: event filter -> text or None."""
    names = root_names()
    jobs, expected = [], {}
    for u, g in plan:
        ns = g if exact else select(names, g)
        jobs.append((u, ns))
        expected[(u.cfg.name, u.profile)] = ns
    def alarm(key, x):
        return bool(x["undecided"] or (bad and x["bad"]) or any(want(key, x["root"], k, m, st) for k, m, st, _ in x["events"])) and not rep.known
    slow = rep.tier == "thorough"
    out, stats, failed = runner.analyse(jobs, root_secs=1200 if slow else 120, timeout=3000 if slow else 400, env=[] if secret else [("AV_SECRET", "0")], alarm=alarm)
    for key, ns, why, status in failed:
        miss = [n for n in ns if n not in out.get(key, {})]
        for n in miss[:1]:
            rep.violate("analysis:%s:%s" % (key[0], n), "the analysis of %s in %s stopped (status %s): %s" % (n, key[0], status, why[-600:]))
    left = []
    for key, ns in expected.items():
        got = out.get(key, {})
        for n in ns:
            x = got.get(n)
            if x is None:
                left.append((key, n))
                continue
            rep.add("entry_points")
            rep.obligations += x["obligations"]
            clean = True
            if x["undecided"]:
                t, st = x["undecided"][0]
                rep.violate("undecided:%s:%s" % (key[0], n), "%s in configuration %s (%s): the analysis cannot show it: %s; at %s" % (n, key[0], key[1], t, " < ".join(st[::-1][:6]) if isinstance(st, list) else st))
                clean = False
            if bad:
                for b in x["bad"][:1]:
                    clean = False
                    rep.violate("value:%s:%s:%s" % (key[0], n, b[0].split(":")[0]), "%s in configuration %s (%s profile): %s. %s. Computed at %s" % (n, key[0], key[1], b[0], b[1], b[2]))
            for k, m, st, definite in x["events"]:
                t = want(key, n, k, m, st)
                if t:
                    clean = False
                    where = [mangle(s) for s in st]
                    fn = where[-1] if where else n
                    # the innermost function of the crate itself
                    loc = [w for w in where if "aes_crypto" in w or "aes_" in w]
                    rep.violate("%s:%s:%s:%s" % (k, key[0], mangle(m)[:60], (loc[-1] if loc else fn)), "%s, reached from %s in configuration %s (%s profile): %s; call path: %s" % (t, n, key[0], key[1], m, " > ".join(st)))
            if clean:
                rep.discharged += x["obligations"]
            if len(rep.samples) < 8 and (hash_s(n + key[0]) + int(os.environ.get("VERIF_SEED", "1"))) % 37 == 0:
                rep.samples.append({"entry_point": n, "configuration": key[0], "profile": key[1], "obligations": x["obligations"], "ms": x["ms"], "result": "discharged" if clean else "not discharged"})
    if left and rep.viol:
        rep.add("entry_points_left_once_a_violation_was_found", len(left))
    else:
        for key, n in left:
            rep.violate("missing:%s:%s" % (key[0], n), "no result for entry point %s in %s (%s)" % (n, key[0], key[1]))
    rep.cover["obligations"] = rep.obligations
    tot = {}
    fns = {}
    for key, s in stats.items():
        for k, v in s.items():
            if isinstance(v, set):
                fns.setdefault(k, {}).setdefault(key[0], set()).update(v)
            else:
                tot[k] = tot.get(k, 0) + v
    if exact:
        for k in tot:
            if not k.endswith("_max"):
                rep.cover["analysed"][k] = rep.cover["analysed"].get(k, 0) + tot[k]
    else:
        rep.cover["analysed"] = {k: tot[k] for k in sorted(tot)}
        rep.cover["functions_of_the_crate_analysed"] = {c: len([f for f in v]) for c, v in sorted(fns.get("functions", {}).items())}
        rep.cover["hardware_operations"] = {c: sorted(v)[:60] for c, v in sorted(fns.get("instructions", {}).items()) if v}
    for (c, p), ns in expected.items():
        if not ns:
            rep.violate("floor:" + c, "no entry point selected in " + c)
    return out, stats


BLOCK = {1: "AesBlock", 2: "AesBlockX2", 4: "AesBlockX4"}
# milliseconds per step of a chain, and the cpu seconds spent on lengths taken from the source
STEP_MS, CHAIN_BUDGET, CHAIN_BLOCKS = 5, {"quick": 300, "thorough": 6000}, 16500


def near(c):
    """key counts at which code that counts, batches or special-cases with the constant c could differ, by weight"""
    one, two = {c - 1, c, c + 1}, {2 * c - 1, 2 * c, 2 * c + 1}
    if c % 16 == 0:
        one |= {c // 16 - 1, c // 16, c // 16 + 1}
    return [(0, n) for n in sorted(one) if n > 0] + [(1, n) for n in sorted(two - one) if n > 0]


def chain_extra(rep, r, units, globs, run, sizes=None):
    """Chains with as many keys as the integer constants of the chain code suggest: mined from the MIR of the
    crate's functions that a chain goes through, until no new constants appear."""
    known = {tuple(map(int, n.split("_")[2:])) for n in root_names() if n.startswith("chain_")}
    given = {tuple(map(int, n.split("_")[2:])) for n in select(root_names(), globs) if n.startswith("chain_")}
    have = {(id(u), w): {n for v, n in given if v == w} for u in units for w in BLOCK}
    quick = rep.tier == "quick"
    budget = CHAIN_BUDGET[rep.tier] * (1000.0 if rep.prop == "C08" else 400.0)
    left, done, consts = {}, {}, {}
    def mine(u):
        return u.analyse(["chain_*_%d_17" % w for w in BLOCK], "mine", root_secs=120, timeout=300)["stats"].get("sizes", [])
    look = list(zip(units, sizes if sizes is not None else pool(mine, units)))
    for turn in range(3):
        if rep.viol:
            break
        todo = []
        for u, cs in look:
            seen = consts.setdefault(u.cfg.name + " " + u.profile, set())
            cs = {c for c in cs if c < 1 << 32} - seen
            seen |= cs
            best = {}
            for c in cs:
                for k, n in near(c):
                    best[n] = min(k, best.get(n, 9))
            todo += [(k, w, n, u.cfg.name, u) for n, k in best.items() for w in BLOCK if n not in have[id(u), w] and not (quick and k)]
        todo.sort(key=lambda x: x[:4])
        plan = {}
        for k, w, n, name, u in todo:
            cost_ = n * w
            if budget < 2 * STEP_MS * cost_ or cost_ > CHAIN_BLOCKS:
                left.setdefault("%d blocks" % w, set()).add(n)
                continue
            budget -= 2 * STEP_MS * cost_
            have[id(u), w].add(n)
            plan.setdefault(id(u), (u, []))[1].append((w, n))
            done.setdefault("%s, %d blocks" % (name, w), set()).add(n)
        if not plan:
            break
        for u, items in plan.values():
            t = open(os.path.join(ROOTS, "lib.rs")).read()
            new = "".join("chain_enc_%d_%d chain_dec_%d_%d %s %d %d,\n" % (w, n, w, n, BLOCK[w], 16 * w, n) for w, n in items if (w, n) not in known)
            assert t.count('include!("chains.rs");') == 1
            t = t.replace('include!("chains.rs");', 'include!("%s/chains.rs");\nchains!(%s);' % (ROOTS, new))
            u.roots = os.path.join(u.dir, "roots-%d.rs" % turn)
            with open(u.roots, "w") as f:
                f.write(t)
        _, stats = run([(u, ["chain_%s_%d_%d" % (d, w, n) for w, n in items for d in ("enc", "dec")]) for u, items in plan.values()])
        # what longer chains go through that shorter ones did not
        look = [(u, stats.get((u.cfg.name, u.profile), {}).get("sizes", ())) for u, _ in plan.values()]
    for u in units:
        u.roots = None
    rep.cover["chain_lengths_from_constants_of_the_source"] = {c: sorted(s) for c, s in sorted(done.items())}
    rep.cover["constants_of_the_chain_code"] = {c: sorted(s) for c, s in sorted(consts.items())}
    if left:
        rep.cover["chain_lengths_beyond_the_budget"] = {w: sorted(s)[:40] for w, s in left.items()}


KEYS = {16: ("Aes128Enc", "Aes128Dec"), 24: ("Aes192Enc", "Aes192Dec"), 32: ("Aes256Enc", "Aes256Dec")}
DEEP = {"quick": (4, 33, 130), "thorough": (3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 64, 65, 128, 129)}


def conversions(rep, r, units):
    """Sequences of conversions and clones of any length: if a key object that went there and back, was cloned or was
    assigned is, byte for byte, the object it came from, whatever follows has been analysed.  Where that does not hold (an
    implementation may keep other things in a key object), longer sequences are analysed one by one."""
    names = ["state_%d_%s" % (k, x) for k in KEYS for x in "abcf"]
    out, _, _ = r.analyse([(u, names) for u in units], root_secs=120, timeout=400, env=[("AV_SECRET", "0")])
    closed, deep = 0, []
    for u in units:
        got = out.get((u.cfg.name, u.profile), {})
        for k in KEYS:
            xs = [got.get("state_%d_%s" % (k, x)) for x in "abcf"]
            if all(x and not x["bad"] and not x["undecided"] for x in xs):
                closed += 1
                rep.add("key_types_closed_under_conversion_and_clone", 2)
                rep.obligations += sum(x["obligations"] for x in xs)
                rep.discharged += sum(x["obligations"] for x in xs)
            else:
                deep.append((u, k))
    if not deep or rep.viol:
        return
    rep.cover["not_closed_so_sequences_enumerated"] = sorted("%s: %d-byte keys, %s conversions there and back" % (u.cfg.name, k, list(DEEP[rep.tier])) for u, k in deep)
    plan = {}
    for u, k in deep:
        plan.setdefault(id(u), (u, []))[1].append(k)
    todo = []
    for u, ks in plan.values():
        new, ns = "", []
        for k in ks:
            e, d = KEYS[k]
            for n in DEEP[rep.tier]:
                for a, b, x, go in (("e", e, "decrypter().encrypter()", "encrypt"), ("d", d, "encrypter().decrypter()", "decrypt")):
                    for way, step in (("v", x), ("w", "clone()")):
                        if way == "w" and n == DEEP["quick"][2]:
                            continue
                        name = "conv_%s_%d_1_%s%d" % (a, k, way, n)
                        ns.append(name)
                        new += "pub fn %s(k: [u8; %d], p: [u8; 16]) -> [u8; 16] { let mut x = %s::from(k); let mut i = 0; while i < %d { x = x.%s; i += 1; } x.%s_block(AesBlock::from(p)).into() }\n" % (name, k, b, n, step, go)
        u.roots = os.path.join(u.dir, "roots-conv.rs")
        with open(u.roots, "w") as f:
            f.write(open(os.path.join(ROOTS, "lib.rs")).read().replace('include!("chains.rs")', 'include!("%s/chains.rs")' % ROOTS) + new)
        todo.append((u, ns))
    run_roots(rep, r, todo, lambda *a: None, exact=True)
    for u, _ in todo:
        u.roots = None


def hash_s(s):
    return int(hashlib.sha256(s.encode()).hexdigest()[:8], 16)


def count_obligations(rep, stats, keys):
    """for the safety rules the obligations are the program points the rule was applied at"""
    n = sum(s.get(k, 0) for s in stats.values() for k in keys if isinstance(s.get(k, 0), int))
    rep.cover["obligations_counted"] = "+".join(keys)
    rep.obligations = n
    rep.discharged = n - min(n, len(rep.viol))


def check_value(rep, work, p):
    r = Runner(work)
    thorough = rep.tier == "thorough"
    globs = p["globs"] if thorough else p["quick"]
    profs = p["profiles"] if thorough else p["quick_profiles"]
    units = units_for(rep, r, profs)
    _, stats = run_roots(rep, r, [(u, globs) for u in units], lambda *a: None)
    if rep.prop == "C08":
        chain_extra(rep, r, units, globs, lambda plan: run_roots(rep, r, plan, lambda *a: None, exact=True),
                    [stats.get((u.cfg.name, u.profile), {}).get("sizes", ()) for u in units])
    if rep.prop == "C03":
        conversions(rep, r, units)
    controls(rep, r, p["controls"])
    rep.cover["rule"] = "for each entry point and configuration: every bit of the result, as a canonical function of the input bits, equals the specification's"


def check_secret(rep, work):
    r = Runner(work)
    globs = SECRET if rep.tier == "thorough" else SECRET_Q
    def want(key, n, k, m, st):
        if k in ("SecretBranch", "SecretIndex", "SecretDiv"):
            # equality of blocks returns a bool to the caller; how it is computed is still covered
            return {"SecretBranch": "control flow depends on secret data", "SecretIndex": "a memory address depends on secret data", "SecretDiv": "a division depends on secret data"}[k]
    _, stats = run_roots(rep, r, [(u, globs) for u in units_for(rep, r, ("release",), lambda c: readme(c)[0] != "table")], want, bad=False, secret=True)
    # positive control: the table-based implementation must be seen to index by secrets
    s = Report(rep.prop, rep.tier)
    out, _ = run_roots(s, r, [(u, ["enc_16_1", "dec_16_1"]) for u in compiled(s, r.build([(BY_NAME["sw"], "release")]))], lambda *a: None, bad=False, secret=True)
    n = sum(any(e[0] == "SecretIndex" for e in x["events"]) for x in out.get(("sw", "release"), {}).values())
    rep.cover["table_lookups_seen_in_the_table_based_implementation"] = n
    controls(rep, r, ["op_not_1"], expect=("SecretBranch",))
    controls(rep, r, ["op_and_1"], expect=("SecretIndex",))
    count_obligations(rep, stats, ["branches", "memory_checks", "asserts"])
    rep.cover["rule"] = "no branch condition, memory address, division operand or panic condition is a function of a secret input bit, on any path, in the constant-time and accelerated configurations"


def check_memory(rep, work):
    r = Runner(work)
    thorough = rep.tier == "thorough"
    globs = SAFE if thorough else SAFE_Q
    def want(key, n, k, m, st):
        if k == "Ub":
            return "undefined behaviour is reachable from safe code"
    units = units_for(rep, r, BOTH)
    used = [u for u in units if thorough or u.profile == "release"]
    _, stats = run_roots(rep, r, [(u, globs) for u in used], want, bad=False)
    chain_extra(rep, r, used, globs, lambda plan: run_roots(rep, r, plan, want, bad=False, exact=True))
    controls(rep, r, ["slice_try_1", "bytes_new_1", "op_zero_1"], expect=("Ub",))
    count_obligations(rep, stats, ["memory_checks", "transmutes"])
    structure.uninit_api(rep, units)
    rep.cover["rule"] = "no access outside its object, to uninitialised memory, misaligned or through an invalid pointer; no invalid value; no reinterpretation of a type whose layout the language leaves open; no overlap or null violation of an unsafe precondition"


def check_total(rep, work):
    r = Runner(work)
    globs = SAFE if rep.tier == "thorough" else SAFE_Q + ["keyfmt_*_16"]
    def want(key, n, k, m, st):
        if k == "Panic" and not re.match(r"slice_store_|chain_(enc|dec)_\d_0$", n):
            return "a panic is reachable"
    used = [u for u in units_for(rep, r, BOTH) if rep.tier == "thorough" or u.profile == "debug" or u.cfg.name in ("sw", "ct", "avx512", "rv32")]
    _, stats = run_roots(rep, r, [(u, globs) for u in used], want, bad=False)
    chain_extra(rep, r, used, globs, lambda plan: run_roots(rep, r, plan, want, bad=False, exact=True))
    controls(rep, r, ["op_or_1"], expect=("Panic",), profile="debug")
    count_obligations(rep, stats, ["asserts", "calls"])
    rep.cover["rule"] = "no panicking call, failed assertion, arithmetic overflow or unwrap is reachable for any input, overflow checks and debug assertions on; store_to with a short destination and chains without keys aside"


def check_pure(rep, work):
    r = Runner(work)
    thorough = rep.tier == "thorough"
    globs = ["pure_*"] if thorough else ["pure_*_16_*", "pure_copy_*"]
    run_roots(rep, r, [(u, globs) for u in units_for(rep, r, ("release",))], lambda *a: None)
    controls(rep, r, ["bytes_arr_1"])
    structure.state_free(rep, r)
    rep.cover["rule"] = "results after arbitrary other calls equal the specification's; no static holds mutable or interior-mutable data, no foreign function but llvm operations, key and block types are Freeze, Send, Sync and hold no pointers; nothing reachable by & is written"


STRUCT = {
    "C19": structure.backends,
    "C20": structure.api_equal,
    "C21": structure.sealed,
    "C22": structure.core_only,
}
SPECIAL = {"C15": check_secret, "C16": check_memory, "C17": check_total, "C18": check_pure}
PROPS = sorted(list(VALUE) + list(SPECIAL) + list(STRUCT))
LEVEL = {p: "proof" for p in PROPS}
for p in ("C18", "C19", "C20", "C21", "C22"):
    LEVEL[p] = "other"


def main(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = Report(prop, tier)
    try:
        with Work() as w:
            if prop in VALUE:
                check_value(rep, w, VALUE[prop])
            elif prop in SPECIAL:
                SPECIAL[prop](rep, w)
            else:
                STRUCT[prop](rep, Runner(w))
    except Broken as e:
        rep.violate("broken", "the analysis could not be carried out: %s" % e)
    except Exception as e:
        import traceback
        rep.violate("broken", "the analysis could not be carried out: %s" % traceback.format_exc()[-1500:])
    cov = {"rules_checked": rep.cover.pop("rule", ""), "samples": rep.samples}
    cov.update(rep.cover)
    if LEVEL[prop] == "proof":
        cov["obligations"] = rep.obligations
        cov["discharged"] = rep.discharged
        cov["checker_cmd"] = "VERIF_TIER=%s python3 check.py %s" % (tier, prop)
        cov["trusted_base"] = TRUST
    else:
        cov["explanation"] = cov.pop("rules_checked")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL[prop], "coverage": cov, "assumptions": rep.assume,
          "wall_s": round(time.time() - t0, 2), "violations": len(rep.viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=lambda o: sorted(o) if isinstance(o, set) else str(o))
    for k in sorted(rep.hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, rep.known[k]))
    if rep.viol:
        rd = os.path.join(BUILD, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, prop + ".txt")
        with open(path, "w") as f:
            for k, t in sorted(rep.viol.items()):
                f.write("[%s]\n%s\n\n" % (k, t))
        for k, t in sorted(rep.viol.items())[:12]:
            print("%s: %s" % (k, t[:700]))
        if len(rep.viol) > 12:
            print("... %d more in %s" % (len(rep.viol) - 12, path))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s holds: %s" % (prop, ", ".join("%s=%s" % (k, v) for k, v in cov.items() if isinstance(v, int))))
    return 0
