"""C22: runs the task runner as an unprivileged user in scratch directories, with stand-ins for the
programs it starts, and compares what it started and which files it changed with what was asked."""
import concurrent.futures, fcntl, hashlib, itertools, json, os, random, re, shutil, subprocess, tempfile, time

NOBODY = 65534

STANDIN = r"""#!/bin/sh
# records how it was started, then acts as told
{
  printf 'PROG\037%s' "$(printf '%s' "${0##*/}")"
  for a in "$@"; do printf '\037%s' "$a"; done
  printf '\036CWD\037%s' "$PWD"
  printf '\036ENV\037%s\037%s\037%s' "$CARGO_INCREMENTAL" "$RUSTFLAGS" "$LLVM_PROFILE_FILE"
  n=0
  for f in *.profraw; do [ -e "$f" ] && n=$((n+1)); done
  [ -d coverage ] && c=1 || c=0
  printf '\036STATE\037%s\037%s\035' "$n" "$c"
} >> "$STANDIN_LOG"
mode=@MODE@
case "$mode:$1" in
  version-fails:--version) exit 4 ;;
  fails:--version) exit 0 ;;
  fails:*) exit 3 ;;
  killed:--version) exit 0 ;;
  killed:*) kill -9 $$ ;;
esac
@ACT@
exit 0
"""

CARGO_ACT = r""": > cargo-test-1-2.profraw"""
GRCOV_ACT = r"""
prev=
for a in "$@"; do
  if [ "$prev" = -o ]; then printf '%s' report > "$a"; fi
  prev=$a
done"""


def build(m):
    env = m.env_for("dbg")
    env["CARGO_TARGET_DIR"] = m.T + "/xtask"
    os.makedirs(env["CARGO_TARGET_DIR"], exist_ok=True)
    with open(env["CARGO_TARGET_DIR"] + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        fp = env["CARGO_TARGET_DIR"] + "/debug/.fingerprint"
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith("xtask-"):
                    shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
        r = subprocess.run(["cargo", "build", "--offline", "-p", "xtask"], cwd=m.REPO, env=env, capture_output=True, text=True, errors="replace")
        if r.returncode != 0:
            raise m.Inconclusive("building the task runner failed:\n" + r.stderr[-3000:])
    return env["CARGO_TARGET_DIR"] + "/debug/xtask"


FORMATS = {"xml": ("cobertura", "xml"), "cobertura": ("cobertura", "xml"), "lcov": ("lcov", "lcov"),
           "json": ("covdir", "json"), "covdir": ("covdir", "json")}
DEFAULT = ("cobertura", "xml")
IGNORES = sorted(["../*", "/*", "xtask/*", "grcov/*", "*/src/tests/*"])


def expected_format(arg):
    if arg is None:
        return DEFAULT, False
    f = FORMATS.get("".join(c.lower() if c.isascii() else c for c in arg))
    return (f, False) if f else (DEFAULT, True)


def options(args):
    """Options of the generator, independent of their order."""
    o, pos, ign, flags = {}, [], [], []
    it = iter(args)
    for a in it:
        if a.startswith("--") and "=" in a:
            k, v = a.split("=", 1)
        elif a in ("--ignore", "-t", "--output-type", "--output-types", "-o", "--output-path", "-s", "--source-dir", "--binary-path", "-b"):
            k, v = a, next(it, None)
        elif a.startswith("-"):
            flags.append(a)
            continue
        else:
            pos.append(a)
            continue
        k = {"--output-type": "-t", "--output-types": "-t", "--output-path": "-o", "--source-dir": "-s", "-b": "--binary-path"}.get(k, k)
        if k == "--ignore":
            ign.append(v)
        else:
            o[k] = v
    return o, pos, sorted(ign), sorted(flags)


NAMES = ["a.profraw", "cargo-test-12-34.profraw", "x.profraw.bak", "profraw", "b.PROFRAW", "c.profra", "d.profraws", "e.profdata",
         "f profraw", "g h.profraw", "i.profraw ", "j.lcov", "k.rs", "Cargo.toml", "l..profraw", "ü.profraw", "m[1].profraw", "n*.profraw",
         "-rf.profraw", "oprofraw", "p.raw", ".q.profraw", "tests.xml", "r.profraw~", "#s.profraw", "t\nu.profraw",
         "v\udcff.profraw", "w.profraw\udcff", ".profraw", "z" * 247 + ".profraw", "default.profraw", "default_1_0.profraw", "Y.profRaw",
         "profraw.profraw", "x.profraw.profraw", "y.profraw.gz", "0", "%p-%m.profraw"]
DIRS = ["", "target", "target/debug", "src", "succinct_neo", "succinct_neo/src", "a/b/c/d/e", "coverage_old", "profraw.d", ".hidden", "with space", "x[1]",
        ".git", ".git/objects/ab", "target/debug/deps", "target/release/deps", "xtask", "xtask/src", "node_modules/m", "vendor", "tests", "benches", "empty"]


def populate(rng, root, density):
    """Creates a tree below root, returns the relative paths of its files."""
    files = set()
    for d in DIRS:
        if d and rng.random() < 0.45:
            continue
        p = os.path.join(root, d)
        os.makedirs(p, exist_ok=True)
        for n in NAMES:
            if rng.random() < density:
                rel = os.path.join(d, n)
                with open(os.path.join(root, rel), "w", errors="surrogateescape") as f:
                    f.write(rel * rng.choice([1, 1, 1, 1, 0, 300 if len(n) < 30 else 1]))
                if rng.random() < 0.3:
                    # old, recent and from the future
                    t = rng.choice([0, 1, 1_000_000_000, time.time() - 86400 * rng.randrange(1, 800), time.time() - rng.randrange(1, 5000), 4_100_000_000])
                    os.utime(os.path.join(root, rel), (t, t))
                if rng.random() < 0.15:
                    os.chmod(os.path.join(root, rel), rng.choice([0o444, 0o400, 0o755, 0o600, 0o222]))
                files.add(rel)
    return files


def crowd(rng, root):
    """A deep chain of directories, many files in one directory and many directories."""
    d = root
    for i in range(rng.choice([40, 120, 300])):
        d = os.path.join(d, rng.choice("abc"))
        os.makedirs(d, exist_ok=True)
        for n in ("x.profraw", "x.txt"):
            if rng.random() < 0.3 or i % 50 == 39:
                open(os.path.join(d, n), "w").close()
    many = rng.choice([300, 1100, 2500])
    os.makedirs(os.path.join(root, "many"), exist_ok=True)
    for i in range(many):
        open(os.path.join(root, "many", f"{i}.profra" + "ws"[i % 17 == 0]), "w").close()
    for i in range(rng.choice([70, 300])):
        os.makedirs(os.path.join(root, "wide", str(i)))
        open(os.path.join(root, "wide", str(i), rng.choice(["p.profraw", "p.rs"])), "w").close()


def links(rng, root, outside):
    """Links that lead out of the tree, and directories named like profile data."""
    for d in ["", "target", "src"]:
        if not os.path.isdir(os.path.join(root, d)):
            continue
        for name, to in [("link", outside), ("up", ".."), ("l.profraw", outside + "/linked.profraw"), ("gone.profraw", "/nonexistent/x"),
                         ("dl.profraw", outside + "/target"), ("kept", outside + "/linked.profraw")]:
            if name == "up" and d:
                continue  # several loops would multiply
            if rng.random() < 0.3:
                os.symlink(to, os.path.join(root, d, name))
        if rng.random() < 0.3:
            os.makedirs(os.path.join(root, d, "dir.profraw", "deep"))
            for f in ("in.profraw", "in.txt", "deep/x.profraw"):
                open(os.path.join(root, d, "dir.profraw", f), "w", errors="surrogateescape").write(f)


def mined(m):
    """The texts of the task runner's source, so that names it knows occur as files, arguments and variables."""
    words = set()
    for d, ds, fs in os.walk(os.path.join(m.REPO, "xtask", "src")):
        for f in fs:
            if f.endswith(".rs"):
                s = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
                words.update(re.findall(r'"([^"\\\n{}]{1,60})"', s))
    return sorted(words)


def known_names(rng, root, words, coverage):
    """Files with the names that the task runner knows."""
    for w in words:
        p = os.path.normpath(w)
        if p.startswith(("/", "..")) or p == "." or "*" in w or rng.random() < 0.4:
            continue
        if p.split("/")[0] == "coverage" and (coverage != "dir" or "/" not in p):
            continue
        full = os.path.join(root, p)
        try:
            os.makedirs(os.path.dirname(full), exist_ok=True)
            if not os.path.lexists(full):
                with open(full, "w", errors="surrogateescape") as f:
                    f.write(rng.choice(["", "known"]))
        except (FileExistsError, NotADirectoryError):
            pass  # another name is in the way


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs + ds:
            p = os.path.join(d, f)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = "-> " + os.readlink(p)
        ds[:] = [x for x in ds if not os.path.islink(os.path.join(d, x))]
        for f in fs:
            p = os.path.join(d, f)
            if os.path.islink(p):
                continue
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = hashlib.sha256(fh.read()).hexdigest()[:12]
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root) + "/"] = ""
    return out


class Scratch:
    def __init__(self, m, binary):
        self.m = m
        self.root = tempfile.mkdtemp(prefix="verif-xtask-")
        self.bin = os.path.join(self.root, "xtask")
        shutil.copy(binary, self.bin)
        os.chmod(self.bin, 0o755)
        os.chmod(self.root, 0o755)
        self.n = itertools.count()
        # Written once, since a program that is open for writing in another thread cannot be started
        self.standins = {}
        for mode in ("ok", "fails", "killed", "version-fails"):
            for act in (CARGO_ACT, GRCOV_ACT):
                p = os.path.join(self.root, f"standin{len(self.standins)}")
                with open(p, "w") as f:
                    f.write(STANDIN.replace("@MODE@", mode).replace("@ACT@", act))
                os.chmod(p, 0o555)
                os.chown(p, NOBODY, NOBODY)
                self.standins[mode, act] = p

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def standin(self, d, name, mode, act):
        if mode == "missing":
            return
        os.link(self.standins[mode, act], os.path.join(d, name))

    def run(self, sc):
        """Runs one scenario and returns (what happened, what was expected differently or None)."""
        base = os.path.join(self.root, f"s{next(self.n)}")
        work, bind, outside = base + "/" + sc.get("dir", "work"), base + "/bin", base + "/outside"
        other = base + ("/else\udcffwhere" if sc["grcov_env"] == "bytes" else "/elsewhere")
        for d in (base, work, bind, outside, other):
            os.mkdir(d)
        rng = random.Random(sc["tree"])
        populate(rng, work, 0.25 if sc.get("full") else 0.07)
        populate(rng, outside, 0.07)
        if sc.get("crowd"):
            crowd(rng, work)
        open(outside + "/linked.profraw", "w").write("linked")
        if sc.get("links"):
            links(rng, work, outside)
        if sc["coverage"] == "dir":
            os.makedirs(work + "/coverage", exist_ok=True)
            open(work + "/coverage/old.txt", "w").write("old")
            for e in ("xml", "lcov", "json"):
                if rng.random() < 0.5:
                    open(work + "/coverage/tests." + e, "w").write(rng.choice(["", "old"]))
        elif sc["coverage"] == "file":
            open(work + "/coverage", "w").write("in the way")
        if sc.get("known"):
            known_names(rng, work, sc["known"], sc["coverage"])
        log = base + "/log"
        open(log, "w").close()
        self.standin(bind, "cargo", sc["cargo"], CARGO_ACT)
        if sc["grcov_env"]:
            # a decoy on the path must not be used
            self.standin(bind, "grcov", "ok", GRCOV_ACT)
            # named by its path, or looked up
            self.standin(bind if sc["grcov_env"] == "name" else other, "my-generator", sc["grcov"], GRCOV_ACT)
        else:
            self.standin(bind, "grcov", sc["grcov"], GRCOV_ACT)
        for d, ds, fs in os.walk(base):
            os.chown(d, NOBODY, NOBODY)
            for f in fs:
                os.chown(os.path.join(d, f), NOBODY, NOBODY, follow_symlinks=False)
        if sc.get("locked"):
            # profile data that cannot be removed
            os.makedirs(work + "/locked")
            open(work + "/locked/stuck.profraw", "w").close()
            os.chmod(work + "/locked", 0o555)
        before, before_out = snapshot(work), snapshot(outside)
        env = {"PATH": bind, "HOME": base, "STANDIN_LOG": log, "LANG": "C.UTF-8"}
        if sc["grcov_env"]:
            env["GRCOV"] = "my-generator" if sc["grcov_env"] == "name" else other + "/my-generator"
        if sc.get("preset"):
            env.update(RUSTFLAGS="-Cdebuginfo=1", CARGO_INCREMENTAL="1", LLVM_PROFILE_FILE="/nonexistent/default.profraw")
        env.update({k: "1" for k in sc.get("env", []) if k not in env and k != "GRCOV"})
        r = subprocess.run([self.bin] + sc["args"], cwd=work, env=env, capture_output=True, timeout=120,
                           user=NOBODY, group=NOBODY, extra_groups=[])
        after, after_out = snapshot(work), snapshot(outside)
        calls = []
        for rec in open(log, encoding="utf-8", errors="surrogateescape").read().split("\x1d"):
            if rec:
                parts = {p.split("\x1f")[0]: p.split("\x1f")[1:] for p in rec.split("\x1e")}
                calls.append(parts)
        why = self.judge(sc, r, calls, before, after, work)
        if why is None and before_out != after_out:
            why = "files outside of the current directory changed"
        seen = dict(args=sc["args"], exit=r.returncode, started=[c["PROG"] for c in calls], deleted=sorted(set(before) - set(after))[:40],
                    created=sorted(set(after) - set(before))[:40], stderr=r.stderr.decode("utf-8", "replace")[-400:])
        shutil.rmtree(base, ignore_errors=True)
        return seen, why

    def judge(self, sc, r, calls, before, after, work):
        task = sc["args"][0] if sc["args"] else None
        fmtarg = sc["args"][1] if len(sc["args"]) > 1 else None
        (fmt, ext), warn = expected_format(fmtarg)
        want_fail = False
        steps = {"cover": ["test", "report", "clean"], "test_instr": ["test"], "cover_only": ["report"], "clean": ["clean"]}.get(task, [])
        expect_calls = []
        want = dict(before)
        for st in steps:
            if st == "test":
                if sc["cargo"] != "missing":
                    expect_calls.append("cargo")
                if sc["cargo"] != "ok":
                    want_fail = True
                    break
                want["cargo-test-1-2.profraw"] = hashlib.sha256(b"").hexdigest()[:12]
            elif st == "report":
                if sc["coverage"] == "file":
                    want_fail = True
                    break
                want["coverage/"] = ""
                if sc["grcov"] == "missing":
                    want_fail = True
                    break
                expect_calls.append("version")
                if sc["grcov"] == "version-fails":
                    want_fail = True
                    break
                expect_calls.append("report")
                if sc["grcov"] != "ok":
                    want_fail = True
                    break
                want[f"coverage/tests.{ext}"] = hashlib.sha256(b"report").hexdigest()[:12]
            else:
                want = {k: v for k, v in want.items() if k.endswith("/") or not k.endswith(".profraw")}
                if sc.get("locked"):
                    want_fail = True
        if want_fail and r.returncode == 0:
            return "a step failed but the task reports success"
        if not want_fail and r.returncode != 0:
            return f"no step failed but the task exits with {r.returncode}"
        # the programs started
        got = []
        gen = "my-generator" if sc["grcov_env"] else "grcov"
        for c in calls:
            prog, args = c["PROG"][0], c["PROG"][1:]
            if prog == "cargo":
                got.append("cargo")
                a = list(args)
                for i, x in enumerate(a):
                    if x.startswith("--package="):
                        a[i:i + 1] = ["-p", x.split("=", 1)[1]]
                if sorted("-p" if x == "--package" else x for x in a) != ["-p", "succinct_neo", "test"] or args[0] != "test":
                    return f"cargo was started with {args}"
                inc, flags, prof = c["ENV"]
                flags = flags.replace("-C ", "-C")
                instrumented = "-Cinstrument-coverage" in flags.split() if sc.get("preset") else flags == "-Cinstrument-coverage"
                if inc != "0" or not instrumented or not prof.endswith(".profraw") or prof.startswith("/nonexistent"):
                    return f"the tests were not instrumented: {c['ENV']}"
                if "%p" not in prof:
                    return f"test processes would overwrite each other's profile: {prof}"
            elif prog == gen:
                if args == ["--version"] or args == ["-V"]:
                    got.append("version")
                    continue
                got.append("report")
                o, pos, ign, flags = options(args)
                if o.get("-t") != fmt or os.path.normpath(os.path.join(work, o.get("-o") or "")) != f"{work}/coverage/tests.{ext}":
                    return f"asked for format {fmtarg!r}, expected {fmt} in coverage/tests.{ext}, started with {args}"
                if [os.path.normpath(x or "?") for x in pos] != ["."] or os.path.normpath(o.get("-s") or "?") != "." \
                        or os.path.normpath(o.get("--binary-path") or "?") != "target/debug/deps" \
                        or ign != IGNORES or flags != ["--branch", "--ignore-not-existing"]:
                    return f"the generator was started with {args}"
                if c["STATE"][1] != "1":
                    return "the generator was started before its output directory existed"
                if task == "cover" and c["STATE"][0] == "0":
                    return "the profile data was gone when the generator started"
            else:
                return f"started {prog!r} {args}"
            if os.path.realpath(c["CWD"][0]) != os.path.realpath(work):
                return f"{prog} was started in {c['CWD'][0]!r}"
        if got != expect_calls:
            return f"started {got} instead of {expect_calls}"
        if sc.get("locked") and "clean" in steps:
            # how much was removed before the failure does not matter
            after = {k: v for k, v in after.items() if k.endswith("/") or not k.endswith(".profraw")}
            want = {k: v for k, v in want.items() if k.endswith("/") or not k.endswith(".profraw")}
        if after != want:
            lost = sorted(set(want) - set(after))[:8]
            extra = sorted(set(after) - set(want))[:8]
            changed = sorted(k for k in want if k in after and want[k] != after[k])[:8]
            return f"files differ from what was asked: missing {lost}, not expected {extra}, changed {changed}"
        if warn and "report" in steps and "report" in got and not r.stderr.strip():
            return f"no warning for the unknown format {fmtarg!r}"
        if not warn and not want_fail and re.search(rb"warning|invalid|unknown|unsupported", r.stderr, re.I):
            return f"a warning although the format {fmtarg!r} is known or none was requested"
        return None


def scenarios(seed, tier, words):
    rng = random.Random(seed)
    t = lambda: rng.getrandbits(48)
    ok = dict(cargo="ok", grcov="ok", grcov_env=False, coverage="none")
    fmts = [None, "xml", "cobertura", "lcov", "json", "covdir", "XML", "Cobertura", "LCOV", "Json", "CovDir", "html", "", "xm", "xmll", "lcov ",
            "covdir,lcov", "jsön", "--help", "-o", "\udcff", "xml\udcff"]
    # every task with every format
    for task in ("cover", "cover_only"):
        for f in fmts:
            yield dict(ok, args=[task] + ([] if f is None else [f]), tree=t())
            # what follows the format is not asked for
            if f is not None:
                yield dict(ok, args=[task, f, rng.choice(["lcov", "json", "xml", "clean", "html", "", "--", "-t", "\udcff"])], tree=t())
    for extra in (["clean"], ["cover"], ["xml", "clean"], ["--all", "-f"], ["", "", "cover_only"]):
        for task in ("test_instr", "clean", "cover_only", "cover"):
            yield dict(ok, args=[task] + extra, tree=t())
    # every task with every fault and every way to name the generator
    for task in ("cover", "test_instr", "cover_only", "clean"):
        for cargo in ("ok", "fails", "killed", "missing"):
            for grcov in ("ok", "fails", "killed", "missing", "version-fails"):
                for ge in (False, True):
                    for cv in ("none", "dir", "file"):
                        if tier != "thorough" and rng.random() < 0.5 and not (cv == "none" and not ge):
                            continue
                        f = rng.choice(fmts)
                        yield dict(cargo=cargo, grcov=grcov, grcov_env=ge, coverage=cv, args=[task] + ([] if f is None else [f]), tree=t())
    # unknown tasks
    for a in ([], [""], ["foo"], ["Cover"], ["CLEAN"], ["clean "], ["--help"], ["help"], ["cover-only"], ["test"], ["xml"], ["coverage"], ["-clean"],
              ["cleanup"], ["foo", "clean"], ["xml", "cover"], ["c"], ["covers"], ["\udcff"], ["clean\udcff"], ["\udcff", "clean"]):
        yield dict(ok, args=a, tree=t())
    # trees
    for i in range(600 if tier == "thorough" else 120):
        yield dict(ok, full=True, args=[rng.choice(["clean", "clean", "cover"])] + ([rng.choice(["xml", "json", "now"])] if rng.random() < 0.3 else []), tree=t(),
                   coverage=rng.choice(["none", "dir"]), links=rng.random() < 0.4, dir=rng.choice(["work", "work", "wo rk[1]*", "w\udcffk"]))
    for i in range(20 if tier == "thorough" else 4):
        yield dict(ok, args=[rng.choice(["clean", "clean", "cover"])], tree=t(), crowd=True)
    # surroundings: variables that are already set, names instead of paths, files that cannot be removed
    for task in ("cover", "test_instr", "cover_only", "clean"):
        for i in range(8 if tier == "thorough" else 3):
            yield dict(ok, args=[task], tree=t(), preset=True)
            yield dict(ok, args=[task], tree=t(), grcov_env="name", grcov=rng.choice(["ok", "ok", "fails", "missing", "version-fails"]))
            yield dict(ok, args=[task], tree=t(), grcov_env="bytes", grcov=rng.choice(["ok", "ok", "fails", "missing", "version-fails"]))
            yield dict(ok, args=[task], tree=t(), locked=True)
            yield dict(ok, args=[task], tree=t(), links=True)
            yield dict(ok, args=[task], tree=t(), known=words, coverage=rng.choice(["none", "dir", "dir"]))
    # the texts of the source as tasks, formats and variables
    for w in words:
        if w not in ("cover", "test_instr", "cover_only", "clean"):
            yield dict(ok, args=[w], tree=t())
        yield dict(ok, args=["cover_only", w], tree=t(), coverage=rng.choice(["none", "dir"]))
    names = [w for w in words if re.fullmatch(r"[A-Z][A-Z0-9_]+", w) and w not in ("CARGO_INCREMENTAL", "RUSTFLAGS", "LLVM_PROFILE_FILE", "GRCOV")]
    for task in ("cover", "test_instr", "cover_only", "clean"):
        yield dict(ok, args=[task], tree=t(), env=names + ["CI", "DEBUG", "RUST_LOG", "NO_COLOR", "VERBOSE", "CARGO", "CARGO_TARGET_DIR", "GRCOV_BIN"],
                   known=words, coverage="dir")


def run(m, tmp, tier, seed, cov, hashes):
    binary = build(m)
    cov["rule"] = ("Each case runs the task runner as an unprivileged user in a fresh scratch directory tree, with stand-ins for cargo and the "
                   "generator that record how they were started and then succeed, fail, die by a signal or are missing. Distinct by task, "
                   "arguments, faults and tree; all (task, fault, environment) combinations are enumerated in the thorough tier.")
    s = Scratch(m, binary)
    stat = {"tasks that had to fail": 0, "programs started": 0, "files deleted": 0}

    def one(sc):
        try:
            return (sc, *s.run(sc))
        except subprocess.TimeoutExpired:
            return sc, dict(args=sc["args"]), "the task did not end within 120 s"

    pool = concurrent.futures.ThreadPoolExecutor(4)
    try:
        results = pool.map(one, scenarios(seed, tier, mined(m)))
        while True:
            try:
                sc, seen, why = next(results)
            except StopIteration:
                break
            except PermissionError as e:
                raise m.Inconclusive(f"cannot run as an unprivileged user: {e}")
            cov["evaluations"] += 1
            hashes.add(json.dumps(sc, sort_keys=True))
            if why is not None:
                text = f"{why}; scenario {json.dumps(sc)}; observed {json.dumps(seen)}"
                raise m.Violation(text, m.write_replay("C22", dict(variant="xtask", tier=tier, seed=seed, scenario=sc, observed=seen), text))
            stat["tasks that had to fail"] += seen["exit"] != 0
            stat["programs started"] += len(seen["started"])
            stat["files deleted"] += len(seen["deleted"])
            if len(cov["samples"]) < 6 and cov["evaluations"] % 37 == 1:
                cov["samples"].append(json.dumps(dict(scenario=sc, observed=seen)))
    finally:
        pool.shutdown(cancel_futures=True)
        s.close()
        cov["observed"] = stat
