"""C24: what an observer of time sees of secrets (Leak.tla, LeakJudge.tla)."""
import json, os, subprocess, time
from core import *
import p_hs as ph, p_curve

N, P, B = p_curve.N, p_curve.P, p_curve.B
TARGET = "x86_64-unknown-linux-gnu"
FLAGS = ["-Cpasses=sancov-module", "-Cllvm-args=-sanitizer-coverage-level=3",
         "-Cllvm-args=-sanitizer-coverage-trace-pc-guard", "-Cllvm-args=-sanitizer-coverage-trace-loads",
         "-Cllvm-args=-sanitizer-coverage-trace-stores", "-Cllvm-args=-max-loads-per-memcmp=0", "-Cllvm-args=-max-store-memcpy=1"]


def build_leak():
    """the release build of husk and the watcher, every block and access of
    which reports itself"""
    src = os.path.join(VERIF, "leak")
    d = os.path.join(BUILD, "leak")
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, "cov.o")
    p = subprocess.run(["gcc", "-O2", "-fno-builtin", "-c", os.path.join(src, "cov.c"), "-o", obj], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError("cov.c: " + p.stdout[-2000:])
    t0 = time.time()
    for feat in (["--features", "compare"], []):
        env = dict(os.environ)
        env.update(RUSTFLAGS=" ".join(FLAGS + ["-Clink-arg=" + obj]), CARGO_TARGET_DIR=d, CARGO_NET_OFFLINE="true",
                   CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
        p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--release", "--target", TARGET] + feat, cwd=src, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            log("built leak in %.1fs%s" % (time.time() - t0, "" if feat else " (without compare)"))
            return os.path.join(d, TARGET, "release"), bool(feat)
    raise ToolError("leak does not build:\n" + p.stdout[-4000:])


def patterns(chk, prog, width, digits=2):
    """the specification itself, and the secrets it distinguishes"""
    cfg = cfg_file(chk, "leak-%s.cfg" % prog, constraint="PrintTest", invariants=["Blind", "Right"], constants={
        "Prog": '"%s"' % prog, "Width": width, "Order": 13, "Points": "{1, 5}", "Digits": digits})
    return [t["s"] for t in tlc_ok(chk, "Leak", cfg).get("TEST", [])]


def sees(chk):
    """Blind is no empty demand: it fails for a ladder with a branch"""
    cfg = cfg_file(chk, "leak-branchy.cfg", invariants=["Blind"], constants={
        "Prog": '"branchy"', "Width": 3, "Order": 13, "Points": "{1}", "Digits": 2})
    tags, st = tlc(chk, "Leak", cfg)
    if "Invariant Blind is violated" not in st["text"]:
        raise ToolError("Leak.tla: a branching ladder is not told apart")


def judge(chk, tests, timeout=600):
    d, _ = chk.leak
    inp, out, obs = (os.path.join(chk.tmp, "leak." + x) for x in ("in", "out", "obs"))
    with open(inp, "w") as f:
        for i, t in enumerate(tests):
            t["id"] = i
            f.write(json.dumps(t, separators=(",", ":")) + "\n")
    t0 = time.time()
    try:
        p = subprocess.run([os.path.join(d, "husk-leak"), inp, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("leak did not end")
    res = sorted([json.loads(l) for l in open(out)] if os.path.exists(out) else [], key=lambda r: r["id"])
    if p.returncode or len(res) != len(tests):
        raise ToolError("leak ended with %d: %s" % (p.returncode, p.stdout[-2000:]))
    log("leak: %d runs in %.1fs" % (len(tests), time.time() - t0))
    with open(obs, "w") as f:
        for t, r in zip(tests, res):
            f.write(json.dumps({"pub": t["pub"], "res": r["res"], "pc": "%d %s" % (r["blocks"], r["pc"]),
                                "mem": "%d %s" % (r["accesses"], r["mem"]), "op": t["op"], "n": r["accesses"],
                                "size": len(t.get("data", "")) // 2}) + "\n")
    tags, st = tlc(chk, "LeakJudge", "LeakJudge.cfg", env2={"OBS": obs})
    if st["rc"] != 0 or "No error has been found" not in st["text"] or st.get("states") != len(tests) + 2:
        raise ToolError("LeakJudge: " + st["text"][-2000:])
    chk.add("states", st["states"])
    chk.add("transitions", st["transitions"])
    for i, (t, r) in enumerate(zip(tests, res)):
        chk.add("runs_%s_%s" % (t["op"], r["res"] or "done"))
        chk.add("blocks_watched", r["blocks"])
        chk.add("accesses_watched", r["accesses"])
        if t["op"] == "connect" and r["res"] not in ("ok", t["expect"]) and not r["blocks"]:
            raise ToolError("leak: connect ended early: %s" % r["res"])
    for b in tags.get("BAD", []):
        t, u = tests[b["at"] - 1], tests[b["like"] - 1]
        rt, ru = res[b["at"] - 1], res[b["like"] - 1]
        chk.violation("%s (%s): secret %s takes %s than %s (%d/%d blocks, %d/%d accesses)" % (
            t["pub"], rt["res"], t["sec"], b["what"], u["sec"], rt["blocks"], ru["blocks"], rt["accesses"], ru["accesses"]),
            {"bin": "leak", "tests": [u, t], "seen": [ru, rt]})
    return res


def hx(b):
    return bytes(b).hex()


def scalars(chk, pats):
    rng = chk.rng
    out = []
    for s in pats:
        # each digit of the pattern is a limb, or a run of bits of any length
        if rng.random() < .5:
            k = 0
            for b in s:
                k = k << 32 | (rng.choice([2 ** 32 - 1, 1, 2 ** 31, rng.getrandbits(32) | 1]) if b else 0)
        else:
            cuts = [0] + sorted(rng.sample(range(1, 256), len(s) - 1)) + [256]
            k = 0
            for b, lo, hi in zip(s, cuts, cuts[1:]):
                k = k << (hi - lo) | ((1 << (hi - lo)) - 1 if b else 0)
        out.append(k)
    out += [1 << i for i in range(0, 256, chk.pick(5, 1))]
    out += list(range(1, 20)) + [N - i for i in range(1, 20)] + [N // 2, N // 2 + 1, (N + 1) // 2 + 1]
    out += [rng.randrange(1, N) for _ in range(chk.pick(60, 600))]
    out += [rng.getrandbits(rng.randrange(1, 256)) for _ in range(chk.pick(40, 300))]
    out = [k % N for k in out]
    first = rng.randrange(1, N)
    return [first] + [k for k in out if k]


def masks(chk, pats, n):
    """where and how an expected value of n octets differs"""
    rng = chk.rng
    out = [[0] * n]
    val = lambda d: rng.choice({1: [1, 2, 4, 8], 2: [128, 64, 32, 16], 3: [255, 3, 129, 0x55]}[d])
    for s in pats:
        if not any(s):
            continue
        m = [0] * n
        k = n // len(s)
        for j, d in enumerate(s):
            if d:
                for p in rng.sample(range(k), rng.choice([1, 1, k])):
                    m[j * k + p] = val(d)
        out.append(m)
    for bit in range(8 * n):
        m = [0] * n
        m[bit // 8] = 1 << bit % 8
        out.append(m)
    for i in range(n):
        for j in range(i + 1, n):
            m = [0] * n
            m[i] = m[j] = rng.randrange(1, 256)
            out.append(m)
    return out


def points(chk, n):
    rng = chk.rng
    out = [(p_curve.GX, p_curve.GY)]
    while len(out) < n:
        x = rng.choice([rng.randrange(P), p_curve.near(rng), p_curve.edge(rng)]) % P
        y = p_curve.lift(x)
        if y is not None:
            out.append((x, rng.choice([y, P - y]) % P))
    return out


def enc(p):
    return "04%064x%064x" % p


def c24(chk):
    chk.bins = build(["hs"])
    chk.leak = build_leak()
    rng = chk.rng
    sees(chk)
    ladder = patterns(chk, "ladder", 6)
    ladder = [rng.choice(ladder) + [rng.choice([0, 1]) for _ in range(2)] for _ in range(chk.pick(60, 600))]
    cmpp = patterns(chk, "compare", chk.pick(3, 4), 4)
    opn = patterns(chk, "open", chk.pick(3, 4), 4)
    tests = []

    # --- multiplication of points
    for p in points(chk, chk.pick(4, 12)):
        for k in scalars(chk, ladder):
            tests.append({"op": "smul", "pub": "point %s" % enc(p), "sec": "%064x" % k, "pt": enc(p), "k": "%064x" % k})

    # --- the key exchange with private values chosen
    for p in points(chk, chk.pick(2, 6)):
        e = bytes.fromhex(enc(p))
        ske = b"\x03\x00\x17\x41" + e + b"\x04\x03\x00\x08" + bytes(range(8))
        for _ in range(chk.pick(60, 500)):
            b = bytearray(rng.randbytes(32))
            for _ in range(rng.randrange(3)):
                i = rng.randrange(4, 24)
                j = rng.randrange(i, 28)
                b[i:j] = bytes([rng.choice([0, 255])]) * (j - i)
            # any order of the octets: well under the order and not zero
            for i in (0, 28):
                b[i:i + 4] = rng.choice([b"\0\0\0\0", b"\x7f\xff\xff\x7f", bytes([rng.randrange(254), 1, 1, rng.randrange(254)])])
            b[14] |= 1
            tests.append({"op": "exchange", "pub": "exchange %s" % hx(ske), "sec": hx(b), "ske": hx(ske), "rand": hx(b)})

    # --- comparisons: the function, the tag, the verify data
    def zeros(pats, n, k):
        ms = masks(chk, pats, n)
        return ms[:1] + rng.sample(ms[1:], min(len(ms) - 1, k))
    if chk.leak[1]:
        for n in [12, 12, 16, 1, 3, 32]:
            b = rng.randbytes(n)
            for m in zeros(cmpp if n % 12 == 0 and len(cmpp[0]) in (3, 4) or n % len(cmpp[0]) == 0 else [], n, chk.pick(200, 2000)):
                a = bytes(x ^ y for x, y in zip(b, m))
                tests.append({"op": "compare", "pub": "compare %d octets" % n, "sec": hx(m), "a": hx(a), "b": hx(b)})
    key0 = None
    for n in [0, 1, 15, 16, 17, 64, 100, 300, 5000]:
        for rep in range(chk.pick(12, 60)):
            fill = rng.choice([b"\0", b"\xff", None])
            data = (fill * n if fill else rng.randbytes(n))
            key = rng.choice([rng.randbytes(32), rng.randbytes(32), b"\0" * 32, b"\xff" * 32])
            nonce, ad = rng.randbytes(12), rng.randbytes(13)
            nonce = rng.choice([nonce, b"\0" * 12, b"\xff" * 12])
            tests.append({"op": "seal", "pub": "seal %d octets" % n, "sec": hx(key), "key": hx(key), "nonce": hx(nonce),
                          "ad": hx(ad), "data": hx(data)})
    for t in [t for t in tests if t["op"] == "seal"]:
        for m in zeros(opn if 16 % len(opn[0]) == 0 else [], 16, chk.pick(20, 150)):
            tests.append(dict(t, op="open", pub=t["pub"].replace("seal", "open"), mask=m,
                              sec="tag wrong by " + hx(m) if any(m) else t["sec"]))

    # --- the whole client, from the server's Finished on; and from its first
    # message on, with the key schedule
    hm = ph.model(chk, "leak", ph.GOODFLIGHT + ["fin_flip"], False, 1, ["ccs_ok"], ["good"])
    last = lambda t: t["hist"][-1]["ev"]
    msgs = lambda t: [p.get("m") for p in last(t)["pieces"]]
    for fin in ("fin_ok", "fin_flip"):
        for t in sorted([t for t in hm if fin in msgs(t) and t["hist"][-1]["res"] == ("ok" if fin == "fin_ok" else "DecryptError")], key=lambda t: len(t["hist"]))[:1]:
            for seed in [rng.randrange(1 << 48) for _ in range(chk.pick(2, 6))]:
                ms = zeros(cmpp, 12, chk.pick(150, 1500))[1:] if fin == "fin_flip" else [[0] * 12] * chk.pick(32, 160)
                r = hx(rng.randbytes(28)) + "01020304"
                for k, m in enumerate(ms):
                    if k % 3 == 2:
                        r = hx(rng.randbytes(28)) + "01020304"
                    frm = 1 if k % 8 == 7 else 9
                    tests.append(ph.concrete(t, seed, op="connect", pub="client %d from %d" % (seed, frm), **{"from": frm}, finmask=m, rand=r, expect="ok" if fin == "fin_ok" else "DecryptError",
                                             sec="randomness %s, verify data wrong by %s" % (r, hx(m))))
    judge(chk, tests)
    for t in tests[::max(1, len(tests) // 6)]:
        chk.sample("%s, secret %s" % (t["pub"], t["sec"]))


CHECKS = {"C24": c24}
