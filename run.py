#!/usr/bin/env python3
"""Runs the check of one property: python3 run.py C02 [--tier quick|thorough] [--seed N]

Builds the variants of the monitor that the property needs from the current tree of /repo, runs
their workloads on several processes, merges what the monitors observed into
evidence/<property>.json and exits with 0 (held), 1 (violation) or 2 (no answer).

    run.py --setup          build everything
    run.py --replay FILE    run the case of a replay file again
"""
import argparse, concurrent.futures, fcntl, glob, hashlib, json, os, re, resource, shutil, signal
import struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
T = os.path.join(HERE, "target")
MON = os.path.join(HERE, "mon")
TRIPLE = "x86_64-unknown-linux-gnu"
SHARDS = 8
START = time.time()

sys.path.insert(0, HERE)

# ---------------------------------------------------------------- variants

PLAIN = "--cfg plain_alloc"


def native():
    """Further features of this processor that code may be specialised for."""
    names = {"ssse3": "ssse3", "sse4_1": "sse4.1", "sse4_2": "sse4.2", "popcnt": "popcnt", "abm": "lzcnt", "bmi1": "bmi1", "bmi2": "bmi2",
             "avx": "avx", "avx2": "avx2"}
    try:
        has = set(re.search(r"^flags\s*:(.*)$", open("/proc/cpuinfo").read(), re.M).group(1).split())
    except (OSError, AttributeError):
        has = set()
    return ",".join("+" + v for k, v in names.items() if k in has) or "+sse2"


VARIANTS = {
    "dbg": dict(dir=T + "/dbg", cmd=["cargo", "build", "--offline"], flags="", bin="debug/mon", parts=["debug"]),
    "rel": dict(dir=T + "/rel", cmd=["cargo", "build", "--offline", "--release"], flags="", bin="release/mon", parts=["release"]),
    "simd": dict(dir=T + "/simd", cmd=["cargo", "build", "--offline", "--profile", "checked"],
                 flags="-C target-feature=+ssse3,+sse4.1", bin="checked/mon", parts=["checked"]),
    # whatever else this processor offers
    "native": dict(dir=T + "/native", cmd=["cargo", "build", "--offline", "--profile", "checked"],
                   flags="-C target-feature=" + native(), bin="checked/mon", parts=["checked"]),
    "asan": dict(dir=T + "/asan", cmd=["cargo", "+nightly", "build", "--offline", "--release", "--target", TRIPLE],
                 flags="-Zsanitizer=address " + PLAIN, bin=TRIPLE + "/release/mon", parts=[TRIPLE + "/release"]),
    "asan_simd": dict(dir=T + "/asan_simd", cmd=["cargo", "+nightly", "build", "--offline", "--release", "--target", TRIPLE],
                      flags="-Zsanitizer=address -C target-feature=+ssse3,+sse4.1 " + PLAIN,
                      bin=TRIPLE + "/release/mon", parts=[TRIPLE + "/release"]),
    "tsan": dict(dir=T + "/tsan", cmd=["cargo", "+nightly", "build", "-Zbuild-std", "--offline", "--release", "--target", TRIPLE],
                 flags="-Zsanitizer=thread " + PLAIN, bin=TRIPLE + "/release/mon", parts=[TRIPLE + "/release"]),
    "msan": dict(dir=T + "/msan", cmd=["cargo", "+nightly", "build", "-Zbuild-std", "--offline", "--release", "--target", TRIPLE],
                 flags="-Zsanitizer=memory -Zsanitizer-memory-track-origins " + PLAIN,
                 bin=TRIPLE + "/release/mon", parts=[TRIPLE + "/release"]),
    # compiled once, run with different MIRIFLAGS
    "miri": dict(dir=T + "/miri", cmd=["cargo", "+nightly", "miri", "run", "--offline", "-q"], flags=PLAIN, bin=None,
                 parts=["miri/" + TRIPLE + "/debug", "miri/debug", TRIPLE + "/debug", "debug"]),
    "miri_simd": dict(dir=T + "/miri_simd", cmd=["cargo", "+nightly", "miri", "run", "--offline", "-q"],
                      flags=PLAIN + " -C target-feature=+ssse3,+sse4.1", bin=None,
                      parts=["miri/" + TRIPLE + "/debug", "miri/debug", TRIPLE + "/debug", "debug"]),
}

MIRI_BASE = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=77:detect_leaks=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=1",
    "TSAN_OPTIONS": "exitcode=77:halt_on_error=1:abort_on_error=0:report_signal_unsafe=0",
    "MSAN_OPTIONS": "exitcode=77:abort_on_error=0:halt_on_error=1",
}

# What each property runs: (variant, scale, options). Options: heavy (huge inputs included),
# tb (Tree Borrows), soft (seconds after which the variant stops generating new cases).
Q, TH = "quick", "thorough"


def plan(prop, tier):
    th = tier == TH

    def v(name, scale=1.0, **o):
        return (name, scale, o)

    functional = {
        # property: scale of dbg and rel in the quick tier
        "C02": 16, "C03": 6, "C04": 24, "C06": 30, "C07": 12, "C08": 30, "C10": 16, "C11": 20, "C12": 40, "C13": 30, "C23": 20, "C25": 10,
    }
    if prop in functional:
        s = functional[prop]
        if th:
            return [v("dbg", 12, soft=120), v("rel", 24, heavy=True, soft=150), v("asan", 6, soft=110),
                    v("miri", 16, soft=110), v("miri", 8, tb=True, soft=90)]
        return [v("dbg", s * 1.4), v("rel", s * 2, heavy=True), v("asan", s * 0.25)]
    if prop == "C01":
        if th:
            return [v("dbg", 1, soft=60), v("rel", 1, soft=60), v("simd", 1, soft=60), v("asan", 1, soft=80),
                    v("asan_simd", 1, soft=50), v("msan", 1, soft=80), v("miri", 20, soft=110), v("miri", 20, tb=True, soft=90),
                    v("miri_simd", 10, soft=50)]
        return [v("dbg", 6), v("rel", 6), v("simd", 6), v("asan", 2), v("asan_simd", 1), v("msan", 2),
                v("miri", 1.5), v("miri", 1, tb=True), v("miri_simd", 0.5)]
    if prop == "C05":
        if th:
            return [v("dbg", 12, soft=100), v("rel", 18, heavy=True, soft=130), v("asan", 6, soft=90), v("miri", 24, soft=140),
                    v("miri", 24, tb=True, soft=140)]
        return [v("dbg", 16), v("rel", 20, heavy=True), v("asan", 3), v("miri", 2), v("miri", 1, tb=True)]
    if prop == "C09":
        if th:
            return [v("dbg", 12, soft=100), v("rel", 18, heavy=True, soft=130), v("asan", 12, soft=110), v("miri", 30, soft=150),
                    v("miri", 20, tb=True, soft=110)]
        return [v("dbg", 20), v("rel", 24, heavy=True), v("asan", 6), v("miri", 2)]
    if prop in ("C14", "C15", "C16"):
        s = {"C14": 30, "C15": 24, "C16": 40}[prop]
        if th:
            return [v("dbg", 4, soft=100), v("rel", 8, heavy=True, soft=200), v("simd", 4, soft=100), v("native", 2, soft=50), v("asan", 2, soft=90),
                    v("miri", 12, soft=90)]
        return [v("dbg", s * 0.5), v("rel", s, heavy=True), v("simd", s * 0.5)]
    if prop == "C17":
        if th:
            return [v("dbg", 8, soft=100), v("rel", 8, soft=100), v("simd", 16, soft=150), v("asan_simd", 8, soft=100),
                    v("miri_simd", 20, soft=100)]
        return [v("dbg", 15), v("rel", 15), v("simd", 30), v("native", 5), v("asan_simd", 4)]
    if prop == "C18":
        if th:
            return [v("dbg", 4, soft=150), v("rel", 16, heavy=True, soft=300)]
        return [v("dbg", 3), v("rel", 10, heavy=True)]
    if prop == "C19":
        return [v("rel", 1, heavy=True, soft=400 if th else 200)]
    if prop == "C24":
        return [v("rel", 1, heavy=True, soft=500 if th else 300)]
    if prop == "C20":
        if th:
            return [v("dbg", 6, soft=80), v("rel", 6, soft=90), v("tsan", 4, soft=150), v("miri", 24, soft=170),
                    v("miri", 12, tb=True, soft=110)]
        return [v("rel", 20), v("tsan", 8), v("miri", 4)]
    if prop == "C21":
        s = 2 if th else 8
        return [v("dbg", s, soft=0), v("rel", s, soft=0), v("simd", s, soft=0), v("native", s, soft=0)]
    return []


PROPS = ["C%02d" % i for i in range(1, 26)]

RULE = {
    "default": "Cases are generated from the seed (family and number name a case); each builds values of the crate, drives them and "
               "compares every answer with an independent model. A case is distinct by the hash of its input or history; empty "
               "inputs whose only outcome is fixed are counted once.",
}

# ---------------------------------------------------------------- helpers


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sources():
    out = []
    for base in (REPO, MON, os.path.join(HERE, "probes")):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in (".git", "target", "coverage", "node_modules"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    out.append(os.path.join(d, f))
    return out


_tree = None


def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for f in sources():
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        _tree = h.hexdigest()
    return _tree


def consts_file(tmp):
    """Integer literals of the crate: sizes around them are worth trying."""
    vals = set()
    for d, ds, fs in os.walk(os.path.join(REPO, "succinct_neo", "src")):
        for f in fs:
            if not f.endswith(".rs"):
                continue
            s = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
            s = re.sub(r"//[^\n]*", "", s)
            for m in re.finditer(r"\b1(?:usize|u64)?\s*<<\s*(\d+)\b", s):
                if int(m.group(1)) < 40:
                    vals.add(1 << int(m.group(1)))
            for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:usize|u64|u32|u16|u8|i64|u128)?\b", s):
                try:
                    x = int(m.group(1).replace("_", ""), 0)
                except ValueError:
                    continue
                if 2 < x < 1 << 40:
                    vals.add(x)
    p = os.path.join(tmp, "consts")
    open(p, "w").write(" ".join(map(str, sorted(vals))))
    return p


def env_for(variant):
    v = VARIANTS[variant]
    e = {k: x for k, x in os.environ.items() if k not in ("RUSTFLAGS", "MIRIFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET")}
    e["CARGO_TARGET_DIR"] = v["dir"]
    e["RUSTFLAGS"] = v["flags"]
    e["RUST_BACKTRACE"] = "0"
    e.update(SAN_ENV)
    if v["bin"] is None:
        e["MIRIFLAGS"] = MIRI_BASE
    return e


def build(variant):
    """Builds a variant unless it was built from exactly this tree. Returns the seconds it took."""
    v = VARIANTS[variant]
    os.makedirs(v["dir"], exist_ok=True)
    t0 = time.time()
    with open(v["dir"] + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = v["dir"] + "/stamp"
        want = hashlib.sha256((tree_hash() + json.dumps([v["cmd"], v["flags"], v["bin"]])).encode()).hexdigest()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        binary = v["bin"] and os.path.join(v["dir"], v["bin"])
        if have == want and (binary is None or os.path.exists(binary)):
            return 0.0
        if have:
            os.remove(stamp)
        # cargo goes by modification times, we go by content
        for part in v["parts"]:
            fp = os.path.join(v["dir"], part, ".fingerprint")
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if x.startswith(("succinct_neo-", "mon-")):
                        shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
        cmd = list(v["cmd"])
        if binary is None:
            cmd += ["--", "--prop", "none"]
        r = subprocess.run(cmd, cwd=MON, env=env_for(variant), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            raise Inconclusive(f"building variant {variant} failed:\n" + r.stdout[-4000:])
        open(stamp, "w").write(want)
    return time.time() - t0


def build_all(names):
    names = list(dict.fromkeys(names))
    with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex:
        futs = {n: ex.submit(build, n) for n in names}
        return {n: f.result() for n, f in futs.items()}


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def command(variant, prop, args, tb=False, seed=1):
    v = VARIANTS[variant]
    env = env_for(variant)
    if v["bin"] is None:
        env["MIRIFLAGS"] = MIRI_BASE + f" -Zmiri-seed={seed & 0xffffffff}" + (" -Zmiri-tree-borrows" if tb else "")
        cmd = v["cmd"] + ["--", "--prop", prop, "--mini"] + args
    else:
        cmd = [os.path.join(v["dir"], v["bin"]), "--prop", prop] + args
    return cmd, env


def spawn(cmd, env, err):
    pre = limits if os.path.basename(cmd[0]) == "mon" and not any(s in cmd[0] for s in ("/asan", "/tsan", "/msan")) else None
    return subprocess.Popen(cmd, cwd=MON, env=env, stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL,
                            preexec_fn=pre, start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def tail(path, n=6000):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - n))
            return f.read().decode("utf-8", "replace")
    except OSError:
        return ""


def head(path, n=6000):
    try:
        with open(path, "rb") as f:
            return f.read(n).decode("utf-8", "replace")
    except OSError:
        return ""


CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP, signal.SIGSYS}


def classify(variant, rc, out, err):
    """What the end of a process means: (kind, text), kind in ok, violation, hang, unknown."""
    text = head(err, 200000)
    if rc == 0:
        return "ok", ""
    if "Undefined Behavior" in text and variant.startswith("miri"):
        i = text.index("Undefined Behavior")
        return "violation", "Miri: " + text[max(0, i - 20):i + 1800]
    if rc == 77 and variant.split("_")[0] in ("asan", "tsan", "msan"):
        i = max(0, min((x for x in (text.find("ERROR: "), text.find("WARNING: ")) if x >= 0), default=0))
        return "violation", "sanitizer: " + text[i:i + 2500]
    if rc == 1 and os.path.exists(out):
        try:
            d = json.load(open(out))
            if "violation" in d:
                return "violation", d["violation"]
        except ValueError:
            pass
    if rc == 3:
        return "hang", "a case did not come back within its limit of CPU time"
    if rc < 0 and -rc in CRASH:
        return "violation", f"the process was ended by {signal.Signals(-rc).name}: " + text[-1500:].strip()
    if "the evaluated program deadlocked" in text:
        return "violation", "deadlock: " + text[-1500:]
    return "unknown", f"exit {rc}: " + text[-1500:].strip()


class Merge:
    def __init__(self):
        self.cases = self.inputs = self.events = self.rejections = self.audits = 0
        self.by_op, self.notes, self.families = {}, {}, {}
        self.samples, self.hashes = [], set()
        self.cut = False

    def add(self, out):
        d = json.load(open(out))
        self.cases += d["cases"]
        self.inputs += d["inputs"]
        self.events += d["events"]
        self.rejections += d["rejections"]
        self.audits += d["audits"]
        for k, v in d["by_op"].items():
            self.by_op[k] = self.by_op.get(k, 0) + v
        for k, v in d["notes"].items():
            self.notes[k] = max(self.notes.get(k, 0), v)
        for k, v in d["families"].items():
            f = self.families.setdefault(k, 0)
            self.families[k] = f + v[0]
        self.samples += d["samples"][:2]
        self.cut |= d["cut"]
        with open(out + ".hashes", "rb") as f:
            b = f.read()
        self.hashes.update(struct.unpack(f"<{len(b) // 8}Q", b))


class Violation(Exception):
    def __init__(self, text, replay):
        super().__init__(text)
        self.text, self.replay = text, replay


def write_replay(prop, data, text):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    name = f"{prop}-{hashlib.sha256(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:12]}.json"
    path = os.path.join(d, name)
    data = dict(data, property=prop, violation=text, tree=tree_hash(),
                how="python3 /verif/run.py --replay <this file> (with the same tree in /repo)")
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def run_case(tmp, variant, prop, tier, seed, scale, case, consts, tb, timeout=300, keep=4000):
    """One case on its own, with a trace. Returns (kind, text, trace)."""
    out, err = os.path.join(tmp, "case.json"), os.path.join(tmp, "case.err")
    for p in (out, err):
        if os.path.exists(p):
            os.remove(p)
    args = ["--tier", tier, "--seed", str(seed), "--scale", str(scale), "--case", case, "--trace", "--out", out, "--consts", consts]
    cmd, env = command(variant, prop, args, tb, seed)
    with open(err, "wb") as e:
        p = spawn(cmd, env, e)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            kill(p)
            return "unknown", "timeout", tail(err)
    kind, text = classify(variant, rc, out, err)
    return kind, text, tail(err, keep)


def run_variant(tmp, prop, tier, seed, variant, scale, opts, consts, keep_digests=False):
    """Runs all shards of a variant. Returns a Merge or raises."""
    tb = opts.get("tb", False)
    soft = opts.get("soft", 100)
    hard = (soft or 600) + 420
    tag = variant + ("_tb" if tb else "")
    procs = []
    for i in range(SHARDS):
        base = os.path.join(tmp, f"{tag}.{i}")
        args = ["--tier", tier, "--seed", str(seed), "--scale", str(scale), "--shard", f"{i}/{SHARDS}",
                "--out", base + ".json", "--journal", base + ".journal", "--consts", consts]
        if soft:
            args += ["--soft-s", str(soft)]
        if not opts.get("heavy"):
            args += ["--skip-heavy"]
        if keep_digests:
            args += ["--digests", base + ".digests"]
        cmd, env = command(variant, prop, args, tb, seed * 64 + i)
        err = open(base + ".err", "wb")
        procs.append((i, base, spawn(cmd, env, err), err))
    todo = list(procs)
    t0 = time.time()
    bad = None
    while todo and bad is None:
        for x in list(todo):
            i, base, p, err = x
            rc = p.poll()
            if rc is None:
                continue
            todo.remove(x)
            err.close()
            kind, text = classify(variant, rc, base + ".json", base + ".err")
            if kind != "ok":
                bad = (i, base, kind, text)
                break
        if todo and bad is None:
            if time.time() - t0 > hard:
                for x in todo:
                    kill(x[2])
                raise Inconclusive(f"variant {tag} took longer than {hard} s")
            time.sleep(0.05)
    for x in todo:
        kill(x[2])
    if bad:
        i, base, kind, text = bad
        case = head(base + ".journal").strip()
        if os.path.exists(base + ".json"):
            try:
                case = json.load(open(base + ".json")).get("case", case)
            except ValueError:
                pass
        if kind == "unknown":
            raise Inconclusive(f"variant {tag}, case {case}: {text}")
        rseed = seed * 64 + i if variant.startswith("miri") else seed
        k2, t2, trace = run_case(tmp, variant, prop, tier, seed, scale, case, consts, tb)
        if kind == "hang":
            if k2 != "hang":
                raise Inconclusive(f"variant {tag}, case {case}: exceeded its CPU limit once, but not when repeated")
            text = f"case {case} does not come back: {text}"
        if variant.startswith("miri") and not tb and "Stacked Borrows" in text:
            k3, t3, _ = run_case(tmp, variant, prop, tier, seed, scale, case, consts, True)
            text += f"\n(Tree Borrows: {'rejects it as well' if k3 == 'violation' else 'accepts it'})"
        data = dict(variant=variant, tree_borrows=tb, tier=tier, seed=seed, scale=scale, case=case, miri_seed=rseed,
                    confirmed_alone=(k2 in ("violation", "hang")), trace=trace)
        raise Violation(f"[{tag}] case {case}: {text}", write_replay(prop, data, text))
    m = Merge()
    for i, base, p, err in procs:
        m.add(base + ".json")
    return m


def compare_digests(tmp, prop, tier, seed, variants, scale, consts):
    """C21: the digests of every program must be the same in all builds."""
    ref, compared = {}, 0
    for n, variant in enumerate(variants):
        for i in range(SHARDS):
            for line in open(os.path.join(tmp, f"{variant}.{i}.digests")):
                case, d = line.split()
                if n == 0:
                    ref[case] = d
                    continue
                compared += 1
                if case not in ref:
                    raise Inconclusive(f"case {case} ran in {variant} but not in {variants[0]}")
                if ref[case] != d:
                    a = run_case(tmp, variants[0], prop, tier, seed, scale, case, consts, False, keep=1 << 24)[2]
                    b = run_case(tmp, variant, prop, tier, seed, scale, case, consts, False, keep=1 << 24)[2]
                    diff = next(((x, y) for x, y in zip(a.split("\n"), b.split("\n")) if x != y), ("", ""))
                    text = f"case {case} behaves differently in {variants[0]} ({ref[case]}) and {variant} ({d}); first difference: {diff[0][:300]} / {diff[1][:300]}"
                    data = dict(variant=variant, other=variants[0], tier=tier, seed=seed, scale=scale, case=case,
                                traces={variants[0]: a[-4000:], variant: b[-4000:]})
                    raise Violation(text, write_replay(prop, data, text))
    if compared == 0:
        raise Inconclusive("no digests")
    return compared


# ---------------------------------------------------------------- compile probes


def probe_build(feature):
    """Compiles a probe crate in two forms: (control compiles, probe compiles, messages)."""
    d = os.path.join(HERE, "probes", feature)
    env = env_for("dbg")
    env["CARGO_TARGET_DIR"] = T + "/probe_" + feature
    os.makedirs(env["CARGO_TARGET_DIR"], exist_ok=True)
    with open(env["CARGO_TARGET_DIR"] + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        shutil.rmtree(env["CARGO_TARGET_DIR"] + "/debug/.fingerprint", ignore_errors=True)
        res = []
        for b in ("control", "probe"):
            r = subprocess.run(["cargo", "build", "--offline", "--bin", b], cwd=d, env=env, capture_output=True, text=True, errors="replace")
            res.append((r.returncode == 0, r.stderr))
    if not res[0][0]:
        raise Inconclusive(f"the control program of probe {feature} does not compile:\n" + res[0][1][-3000:])
    return res[1][0], res[1][1], env


def probe_sync(tmp, prop):
    ok, msg, env = probe_build("sync")
    if ok:
        return {"the types can be shared and sent (compile probe)": 1}
    if "E0277" in msg:
        text = "a type cannot be shared between threads or sent to another thread any more: " + msg[:1500]
        raise Violation(text, write_replay(prop, dict(variant="probe", probe="sync", output=msg[-4000:]), text))
    raise Inconclusive("probe sync: " + msg[-2000:])


def probe_split(tmp, prop, seed):
    ok, msg, env = probe_build("split_send")
    if not ok:
        if "E0277" in msg:
            return {"halves of a mutable split cannot leave their thread (compile probe)": 1}
        raise Inconclusive("probe split_send: " + msg[-2000:])
    # The halves can be sent: then writing them from two threads has to be free of races.
    d = os.path.join(HERE, "probes", "split_send")
    r = subprocess.run([env["CARGO_TARGET_DIR"] + "/debug/probe", "300"], env=env, capture_output=True, text=True, timeout=300)
    if r.returncode != 0:
        text = "halves of a split written by two threads lose updates: " + r.stderr[-1000:]
        raise Violation(text, write_replay(prop, dict(variant="probe", probe="split_send", output=r.stderr[-4000:]), text))
    env = dict(env_for("miri"), CARGO_TARGET_DIR=T + "/probe_split_miri")
    for s in range(4):
        env["MIRIFLAGS"] = MIRI_BASE + f" -Zmiri-seed={seed * 4 + s} -Zmiri-tree-borrows"
        r = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", "probe", "--", "2"], cwd=d, env=env,
                           capture_output=True, text=True, errors="replace", timeout=300)
        if r.returncode != 0:
            if "Undefined Behavior" in r.stderr:
                text = "halves of a split written by two threads: " + r.stderr[:1500]
                raise Violation(text, write_replay(prop, dict(variant="probe", probe="split_send", output=r.stderr[-4000:]), text))
            raise Inconclusive("probe split_send under Miri: " + r.stderr[-1500:])
    return {"halves written by two threads without a race (native and 4 Miri schedules)": 5}


def probe_borrows(tmp, prop, seed):
    """Programs that use a vector, view, structure or iterator after or besides what it depends on.
    The compiler has to reject each; one that it accepts is run under Miri."""
    d = os.path.join(HERE, "probes", "borrows")
    env = env_for("dbg")
    env["CARGO_TARGET_DIR"] = T + "/probe_borrows"
    os.makedirs(env["CARGO_TARGET_DIR"], exist_ok=True)
    with open(env["CARGO_TARGET_DIR"] + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for f in glob.glob(env["CARGO_TARGET_DIR"] + "/debug/.fingerprint/*"):
            if os.path.basename(f).startswith(("succinct_neo", "probe_borrows")):
                shutil.rmtree(f, ignore_errors=True)
        r = subprocess.run(["cargo", "check", "--offline", "--keep-going", "--bins", "--message-format=json"], cwd=d, env=env,
                           capture_output=True, text=True, errors="replace", timeout=300)
    compiled, reasons = set(), {}
    for line in r.stdout.splitlines():
        m = json.loads(line)
        name = m.get("target", {}).get("name")
        if m["reason"] == "compiler-artifact" and "bin" in m["target"]["kind"]:
            compiled.add(name)
        if m["reason"] == "compiler-message" and m["message"]["level"] == "error" and m["message"].get("code"):
            reasons[name] = m["message"]["code"]["code"]
    names = sorted(f[:-3] for f in os.listdir(d + "/src/bin"))
    if "control" not in compiled:
        raise Inconclusive("the control program of probe borrows does not compile:\n" + r.stderr[-2000:] + r.stdout[-2000:])
    out = {}
    for n in names:
        if n == "control":
            continue
        if n not in compiled:
            k = f"programs rejected by the compiler with {reasons.get(n, 'an error')}"
            out[k] = out.get(k, 0) + 1
            continue
        for i, flags in enumerate(["", " -Zmiri-tree-borrows"] * 3):
            env = dict(env_for("miri"), CARGO_TARGET_DIR=T + "/probe_borrows_miri")
            env["MIRIFLAGS"] = MIRI_BASE + f" -Zmiri-seed={seed * 6 + i}" + flags
            r = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", n], cwd=d, env=env,
                               capture_output=True, text=True, errors="replace", timeout=300)
            if r.returncode != 0 and "Undefined Behavior" in r.stderr:
                text = f"the program {n} compiles and has undefined behaviour: " + r.stderr[:1500]
                raise Violation(text, write_replay(prop, dict(variant="probe", probe="borrows", program=n, output=r.stderr[-4000:]), text))
        k = "programs accepted by the compiler, run under Miri without undefined behaviour"
        out[k] = out.get(k, 0) + 1
    return out


# ---------------------------------------------------------------- main


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) case=\"(.*?)\" (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


ASSUME = [
    "the models in mon/src and the compilers, sanitizers and Miri are right",
    "x86_64 Linux with 64 bit words; other targets are not run",
    "only the explored cases are decided; the seed selects them",
]


def check(prop, tier, seed):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev_path = os.path.join(HERE, "evidence", prop + ".json")
    if os.path.exists(ev_path):
        os.remove(ev_path)
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE.get(prop, RULE["default"]), "samples": [], "variants": {}}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": 0.0,
          "assumptions": ASSUME, "violations": 0}
    hashes = set()
    known = known_findings(prop)
    rc = 0

    def on_violation(v):
        nonlocal rc
        for case, what in known:
            if case in v.text:
                print(f"KNOWN-FINDING: property={prop} {what}", flush=True)
                return
        log(v.text)
        print(f"VIOLATION property={prop} replay={v.replay}", flush=True)
        ev["violations"] += 1
        cov.setdefault("violation_texts", []).append(v.text[:1500])
        rc = 1

    try:
        if prop == "C22":
            import xtask_check
            try:
                xtask_check.run(sys.modules[__name__], tmp, tier, seed, cov, hashes)
            except Violation as v:
                on_violation(v)
        else:
            consts = consts_file(tmp)
            steps = plan(prop, tier)
            cov["build_s"] = {k: round(x, 1) for k, x in build_all([s[0] for s in steps]).items()}
            try:
                if prop == "C20":
                    cov["probe"] = probe_sync(tmp, prop)
                if prop == "C05":
                    cov["probe"] = probe_split(tmp, prop, seed)
                if prop == "C01":
                    cov["probe"] = probe_borrows(tmp, prop, seed)
            except Violation as v:
                on_violation(v)
            for n, (variant, scale, opts) in enumerate(steps):
                if rc:
                    break
                # other cases in each variant, except where the variants are compared
                vseed = seed if prop == "C21" else seed * 1000 + n
                tag = variant + ("_tb" if opts.get("tb") else "")
                t0 = time.time()
                try:
                    m = run_variant(tmp, prop, tier, vseed, variant, scale, opts, consts, prop == "C21")
                except Violation as v:
                    on_violation(v)
                    continue
                cov["evaluations"] += m.inputs
                hashes |= m.hashes
                cov["samples"] += [f"[{tag}] {s}" for s in m.samples[:3]]
                cov["variants"][tag] = dict(seed=vseed, cases=m.cases, inputs=m.inputs, distinct=len(m.hashes), observed_calls=m.events, rejected_calls=m.rejections,
                                            full_audits=m.audits, calls=m.by_op, maxima=m.notes, families=m.families,
                                            stopped_early=m.cut, wall_s=round(time.time() - t0, 1))
            if prop == "C21" and rc == 0:
                try:
                    cov["compared_digests"] = compare_digests(tmp, prop, tier, seed, [s[0] for s in steps], steps[0][1], consts)
                except Violation as v:
                    on_violation(v)
        cov["distinct_nontrivial"] = len(hashes)
        if rc == 0 and cov["evaluations"] == 0:
            raise Inconclusive("nothing was evaluated")
    except (Inconclusive, subprocess.TimeoutExpired) as e:
        log(f"no answer for {prop}: {e}")
        cov["no_answer"] = str(e)[:1500]
        rc = rc or 2
    finally:
        ev["wall_s"] = round(time.time() - START, 2)
        with open(ev_path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(ev_path + ".tmp", ev_path)
        shutil.rmtree(tmp, ignore_errors=True)
    log(f"{prop} {tier} seed {seed}: exit {rc}, {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct, {ev['wall_s']} s")
    return rc


def replay(path):
    d = json.load(open(path))
    prop = d["property"]
    if d.get("variant") == "xtask":
        print(d["violation"])
        return check(prop, d["tier"], d["seed"])
    if d.get("variant") == "probe":
        return check(prop, "quick", 1)
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        consts = consts_file(tmp)
        names = [d["variant"]] + ([d["other"]] if "other" in d else [])
        build_all(names)
        bad = False
        for n in names:
            k, t, trace = run_case(tmp, n, prop, d["tier"], d["seed"], d["scale"], d["case"], consts, d.get("tree_borrows", False))
            print(f"--- {n}: {k} {t}\n{trace}")
            bad |= k != "ok"
        return 1 if bad else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=[Q, TH])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        if a.setup:
            for k, s in build_all(VARIANTS).items():
                log(f"built {k} in {s:.1f} s")
            import xtask_check
            xtask_check.build(sys.modules[__name__])
            probe_build("sync")
            probe_build("split_send")
            with tempfile.TemporaryDirectory(prefix="verif-setup-") as tmp:
                try:
                    probe_borrows(tmp, "C01", 1)
                except Violation as v:
                    log(f"probe borrows: {v}")
            return 0
        if a.replay:
            return replay(a.replay)
        if a.prop not in PROPS:
            log("unknown property")
            return 2
        return check(a.prop, a.tier, abs(a.seed) % (1 << 48))
    except Inconclusive as e:
        log(str(e))
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
