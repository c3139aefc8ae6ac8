"""Common machinery of the checks: building the harness against /repo, running
TLC and Quint, collecting violations, writing evidence."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.join(os.path.dirname(VERIF), "repo")
if not os.path.isdir(REPO):
    REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    pass


def log(*a):
    print("#", *a, file=sys.stderr, flush=True)


class Check:
    """One run of the check of one property."""

    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.violations = []
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, prop)))
        os.makedirs(BUILD, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix=prop + "-", dir=BUILD)
        self.known = known_findings(prop)
        self.reported_known = set()

    quick = property(lambda s: s.tier == "quick")

    def pick(self, q, t):
        return q if self.quick else t

    # ---------------------------------------------------------- results
    def violation(self, what, detail):
        """what: one line; detail: everything needed to run the case again"""
        for k in self.known:
            if k["match"] in what:
                if k["match"] not in self.reported_known:
                    self.reported_known.add(k["match"])
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                return
        self.violations.append((what, detail))

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def finish(self):
        cov = dict(self.cov)
        cov["samples"] = self.samples or ["none"]
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        shutil.rmtree(self.tmp, ignore_errors=True)
        log("%s: %s" % (self.prop, {k: v for k, v in cov.items() if k != "samples"}), "%.1fs" % ev["wall_s"])
        if self.violations:
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            path = os.path.join(VERIF, "replay", self.prop + ".json")
            with open(path, "w") as f:
                json.dump([{"what": w, "case": d} for w, d in self.violations[:50]], f, indent=1)
                f.write("\n")
            for w, _ in self.violations[:5]:
                print("# " + w)
            print("# %d violation(s) in all" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s" % self.prop)
        return 0


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=\"([^\"]*)\" (.*)", l)
            if m and m.group(1) == prop:
                out.append({"match": m.group(2), "what": m.group(3).strip()})
    return out


# -------------------------------------------------------------------- harness
_hooks = None


def build(bins):
    """Builds harness binaries against the current tree of /repo, as in
    development (assertions, overflow checks) and as released.  Returns
    (directory, hooks available)."""
    target = os.path.join(BUILD, "target")
    for flags in ("--cfg husk_verif", ""):
        env = dict(os.environ)
        env.update(RUSTFLAGS=flags, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
        env.pop("CARGO_PROFILE_DEV_DEBUG", None)
        t = time.time()
        ps = []
        for rel in (False, True):
            cmd = ["cargo", "build", "--offline", "--quiet"] + (["--release"] if rel else [])
            for b in bins:
                cmd += ["--bin", b]
            # a target directory each, or they wait for one another
            ps.append(subprocess.Popen(cmd, cwd=os.path.join(VERIF, "harness"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                       env=dict(env, CARGO_TARGET_DIR=target + ("-rel" if rel else ""))))
        outs = [p.communicate()[0] for p in ps]
        if not any(p.returncode for p in ps):
            log("built %s in %.1fs%s" % (bins, time.time() - t, "" if flags else " (without hooks)"))
            return os.path.join(target, "debug"), bool(flags)
    raise ToolError("harness does not build:\n" + "\n".join(o[-4000:] for o in outs))


def released(n):
    """The tests that are run with the released build, too."""
    return [i for i in range(n) if i * 2654435761 % (1 << 32) < (1 << 32) // 6 or n < 60]


def run_bin(chk, name, tests, timeout=800, env=None):
    """Runs tests (dicts) through a harness binary; returns {id: result}.  Some
    are run by the released build, too; of these, the result of the released
    build counts unless that of the other one shows a panic."""
    res = _run_bin(chk, chk.bins[0], name, list(enumerate(tests)), timeout, env)
    if name != "tcp" and not res.get("died") and not any(r.get("hang") or r.get("fatal") for r in res.values()):
        rel = [(i, tests[i]) for i in released(len(tests))]
        more = _run_bin(chk, chk.bins[0].replace("target/debug", "target-rel/release"), name, rel, timeout, env)
        for i, r in more.items():
            if i == "died" or not panicked(res[i]):
                res[i] = r
        chk.add("released_build", len(rel))
    return res


def panicked(r):
    return "panic" in json.dumps(r)


def _run_bin(chk, d, name, tests, timeout, env):
    inp = os.path.join(chk.tmp, name + ".in")
    out = os.path.join(chk.tmp, name + ".out")
    if os.path.exists(out):
        os.unlink(out)
    with open(inp, "w") as f:
        for i, t in tests:
            t["id"] = i
            f.write(json.dumps(t, separators=(",", ":")) + "\n")
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run([os.path.join(d, name), inp, out], timeout=timeout, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, env=e)
    except subprocess.TimeoutExpired:
        raise ToolError("%s did not end in %ds" % (name, timeout))
    res = {}
    if os.path.exists(out):
        for l in open(out):
            l = l.strip()
            if l:
                try:
                    r = json.loads(l)
                except ValueError:
                    continue
                res[r["id"]] = r
    hang = [i for i, r in res.items() if r.get("hang")]
    died = p.returncode != 0
    log("%s: %d tests in %.1fs%s" % (name, len(tests), time.time() - t0, " HANG" if hang else ""))
    if died:
        # an abort of the process (stack overflow, allocation) is caused by one
        # of the tests that have no result
        res["died"] = {"rc": p.returncode, "out": p.stdout[-2000:],
                       "missing": [i for i, _ in tests if i not in res][:16]}
    for i, r in list(res.items()):
        if isinstance(i, int) and r.get("fatal", "").find("harness:") >= 0:
            raise ToolError("harness failure: %s in %s" % (r["fatal"], json.dumps(dict(tests)[i])[:2000]))
    if not died and not hang and len(res) != len(tests):
        raise ToolError("%s: %d results for %d tests" % (name, len(res), len(tests)))
    return res


# -------------------------------------------------------------------- TLC
def tlc(chk, module, cfg, workers=1, timeout=800, extra=(), env2=None, java=None):
    """Runs TLC; returns (records printed as 'TAG json' lines by tag, stats)."""
    md = tempfile.mkdtemp(prefix="tlc-", dir=chk.tmp)
    cmd = ["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md, "-config", os.path.join(SPEC, cfg)]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    env = dict(os.environ)
    env.update(env2 or {})
    # deep recursive operators: the launcher applies this to the main thread too
    env["JDK_JAVA_OPTIONS"] = java or "-Xss128m"
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=md, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC %s did not end in %ds" % (cfg, timeout))
    tags = {}
    rest = []
    for l in p.stdout.decode("utf-8", "replace").splitlines():
        m = re.match(r'^"([A-Z]+) (.*)"$', l)
        if m:
            tags.setdefault(m.group(1), []).append(json.loads(json.loads('"' + m.group(2) + '"')))
        else:
            rest.append(l)
    text = "\n".join(rest)
    st = {"text": text, "rc": p.returncode}
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    if m:
        st["transitions"], st["states"] = int(m.group(1)), int(m.group(2))
    m = re.search(r"The depth of the complete state graph search is (\d+)", text)
    if m:
        st["depth"] = int(m.group(1))
    log("TLC %s: %s states, %s transitions, %.1fs" % (cfg, st.get("states"), st.get("transitions"), time.time() - t0))
    shutil.rmtree(md, ignore_errors=True)
    return tags, st


def tlc_ok(chk, module, cfg, **kw):
    """TLC must accept the model; counts states and transitions."""
    tags, st = tlc(chk, module, cfg, **kw)
    if st["rc"] != 0 or "No error has been found" not in st["text"]:
        raise ToolError("TLC rejects %s:\n%s" % (cfg, st["text"][-3000:]))
    chk.add("states", st["states"])
    chk.add("transitions", st["transitions"])
    return tags


def cfg_file(chk, name, spec="Spec", view=None, constraint=None, invariants=(), properties=(), constants=None,
             extra=""):
    """Writes a TLC configuration (constants as TLA+ text) into the scratch
    directory; returns its path."""
    s = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    if view:
        s += "VIEW %s\n" % view
    if constraint:
        s += "ACTION_CONSTRAINT %s\n" % constraint
    if invariants:
        s += "INVARIANTS " + " ".join(invariants) + "\n"
    if properties:
        s += "PROPERTIES " + " ".join(properties) + "\n"
    if constants:
        s += "CONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in constants.items())
    s += extra
    p = os.path.join(chk.tmp, name)
    with open(p, "w") as f:
        f.write(s)
    return p


def tla_set(xs):
    return "{" + ", ".join('"%s"' % x if isinstance(x, str) else str(x) for x in xs) + "}"
