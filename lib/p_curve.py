"""C21: the field and the group of P-256 (P256.qnt answers, Ecdh.qnt laws)."""
import concurrent.futures, glob, json, math, os, shutil, subprocess, tempfile, time
from core import *

P = 2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1
N = 115792089210356248762697446949407573529996955224135760342422259061068512044369
B = 41058363725152142129326129780047268409114441015993725554835256314039467401291
GX = 48439561293906451759052585252797914202762949526041747995844080717082404635286
GY = 36134250956749795798585127919587881956611106672985015071877198253568414405109
OPS = ["add", "sub", "mult", "square", "double", "halve", "inverse", "valid", "mul"]
WIDTH = 772


def quint(args, cwd, timeout=600):
    try:
        p = subprocess.run(["quint"] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("quint %s did not end" % args)
    if p.returncode:
        raise ToolError("quint %s: %s" % (" ".join(args), p.stdout[-2000:]))
    return p.stdout


def ask(chk, rows):
    """one oracle process: the answers (x, y) of the specification"""
    d = tempfile.mkdtemp(prefix="quint-", dir=chk.tmp)
    shutil.copy(os.path.join(SPEC, "P256.qnt"), d)
    per, lits = 40, []
    for i in range(0, len(rows), per):
        v = 0
        for j, (op, k, x, y) in enumerate(rows[i:i + per]):
            v |= (OPS.index(op) << 768 | k << 512 | x << 256 | y) << (WIDTH * j)
        lits.append(hex(v))
    with open(os.path.join(d, "o.qnt"), "w") as f:
        f.write('''module o {
  import P256.* from "./P256"
  pure val OPS = [%s]
  pure val DATA: List[int] = [%s]
  pure def req(v: int): Req = { op: OPS[v / 2^768], k: (v / 2^512) %% 2^256, x: (v / 2^256) %% 2^256, y: v %% 2^256 }
  var a: List[Affine]
  action init = a' = DATA.foldl([], (out, lit) =>
    range(0, %d).foldl((out, lit), (s, i) => (s._1.append(answer(req(s._2 %% 2^%d))), s._2 / 2^%d))._1)
  action step = a' = a
}''' % (", ".join('"%s"' % o for o in OPS), ",\n".join(lits), per, WIDTH, WIDTH))
    quint(["run", "--max-samples=1", "--max-steps=0", "--out-itf=t.json", "--verbosity=0", "--main=o", "o.qnt"], d)
    t = glob.glob(os.path.join(d, "t*.json"))
    num = lambda v: int(v["#bigint"]) if isinstance(v, dict) else v
    out = [(0, 0) if a["id"] else (num(a["x"]), num(a["y"])) for a in json.load(open(t[0]))["states"][0]["a"]][:len(rows)]
    shutil.rmtree(d, ignore_errors=True)
    if len(out) != len(rows):
        raise ToolError("the oracle did not answer everything")
    return out


def oracle(chk, rows):
    """answers of many rows, in parallel processes; costs are evened out"""
    if not rows:
        return []
    t0 = time.time()
    n = min(CPUS, max(1, len(rows) // 20))
    order = sorted(range(len(rows)), key=lambda i: -OPS.index(rows[i][0]))
    groups = [order[i::n] for i in range(n)]
    out = [None] * len(rows)
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for g, a in zip(groups, ex.map(lambda g: ask(chk, [rows[i] for i in g]), groups)):
            for i, v in zip(g, a):
                out[i] = v
    chk.add("oracle_answers", len(rows))
    log("quint: %d answers in %.1fs" % (len(rows), time.time() - t0))
    return out


def laws(chk, steps):
    """the specification itself: its unit laws, and both parties agree"""
    quint(["test", os.path.join(SPEC, "P256.qnt")], chk.tmp)
    out = quint(["run", "--max-samples=%d" % steps, "--max-steps=2", "--invariant=agree", "--main=Ecdh", "--seed=%d" % (chk.seed + 1),
                 os.path.join(SPEC, "Ecdh.qnt")], chk.tmp)
    if "No violation" not in out and "[ok]" not in out:
        raise ToolError("Ecdh.qnt: " + out[-1000:])
    chk.add("spec_runs", steps)


def sqrt(a):
    r = pow(a, (P + 1) // 4, P)
    return r if r * r % P == a % P else None


def lift(x, b=B):
    return sqrt(x * x * x - 3 * x + b)


def edge(rng):
    k = rng.randrange(8)
    if k == 0:
        return rng.choice([rng.randrange(6), P - 1 - rng.randrange(6)])
    if k == 1:
        return rng.randrange(P)
    if k == 2:
        return ((1 << rng.randrange(256)) + rng.randrange(2)) % P
    if k == 3:
        i, j = sorted((rng.randrange(256), rng.randrange(256)))
        return ((1 << j) - (1 << i)) % P
    v = 0
    for _ in range(8):
        v = v << 32 | rng.choice([0, 0, 2 ** 32 - 1, 2 ** 32 - 1, 1, 2 ** 31, 2 ** 32 - 2, rng.getrandbits(32)])
    return v % P


def near(rng):
    return rng.choice([rng.randrange(4), P - 1 - rng.randrange(4), 2 ** 224 - 1, 2 ** 96, P // 2, P // 2 + 1])


def shaped(rng):
    """two operands whose product has the upper half H, limb by limb extreme:
    the limbs that the reduction moves around"""
    while True:
        h = 0
        for _ in range(8):
            h = h << 32 | rng.choice([0, 0, 1, 2 ** 32 - 1, 2 ** 32 - 1, 2 ** 32 - 2, 2 ** 31, 2 ** 31 - 1, rng.getrandbits(32)])
        a = edge(rng) if rng.random() < .5 else rng.randrange(P)
        if rng.random() < .2:
            a = math.isqrt(h << 256) + 1
        if a:
            b = ((h << 256) + a - 1) // a
            if b < P:
                return a, b


def field_rows(rng, n):
    rows = []
    for op in OPS[:7]:
        for a in (0, 1, 2, P - 1, P - 2, P // 2, P // 2 + 1, 2 ** 32, 2 ** 96 - 1, 2 ** 224, 2 ** 255):
            for b in (0, 1, P - 1, a):
                if op in ("add", "sub", "mult") or b == 0:
                    rows.append((op, a, b, 0))
    while len(rows) < n:
        op = rng.choice(["add", "sub", "mult", "mult", "mult", "square", "double", "halve"])
        a, b = edge(rng), edge(rng)
        if op == "mult" and rng.random() < .5:
            a, b = shaped(rng)
        elif rng.random() < .4:
            t = near(rng)
            if op == "add":
                b = (t - a) % P
            elif op == "sub":
                b = (a - t) % P
            elif op == "mult" and a:
                b = pow(a, -1, P) * t % P
            elif op == "square":
                a = sqrt(t) or a
            elif op == "double":
                a = t * (P + 1) // 2 % P
            elif op == "halve":
                a = 2 * t % P
        rows.append((op, a, 0 if op in ("square", "double", "halve") else b, 0))
    return rows


def points(rng, n):
    out = [(GX, GY), (GX, P - GY)]
    for x in list(range(0, 40)) + [P - 1 - i for i in range(20)]:
        y = lift(x)
        if y is not None and len(out) < n // 2:
            out.append((x, rng.choice([y, P - y])))
    while len(out) < n:
        x = edge(rng)
        y = lift(x)
        if y is not None:
            out.append((x, rng.choice([y, P - y])))
    return out


def scalars(rng, n):
    out = [0, 1, 2, 3, N - 2, N - 1, N, N + 1, N + 2, N + 3, N // 2, N // 2 + 1, 2 ** 256 - 1, 2 ** 255, P, P - 1]
    while len(out) < n:
        k = rng.randrange(5)
        i, j = sorted((rng.randrange(257), rng.randrange(257)))
        out.append([1 << min(j, 255), (1 << j) - (1 << i), rng.getrandbits(256), rng.getrandbits(256) >> rng.randrange(256),
                    N - 20 + rng.randrange(40)][k])
    return out


def valid_rows(rng, n):
    out = []
    for x, y in points(rng, n):
        out.append(("valid", 0, x, y))
        c = [(x, (P - y) % P), (x, y ^ 1 << rng.randrange(256)), (x ^ 1 << rng.randrange(256), y), (y, x), (x, 0), (0, y), (0, 0)]
        if x + P < 2 ** 256:
            c.append((x + P, y))
        if y + P < 2 ** 256:
            c.append((x, y + P))
        # a point of a curve with another constant, and of the twist
        t = rng.randrange(P)
        y2 = lift(x, (B + 1 + rng.randrange(3)) % P)
        c.append((x, y2 if y2 is not None else t))
        out += [("valid", 0, a, b) for a, b in rng.sample(c, 3)]
    return out + [("valid", 0, x, y) for x, y in near_curve(rng, 2 * n)]


def near_curve(rng, n):
    """points whose sides y^2 and x^3-3x+b differ in one bit or one limb (in
    either representation), or that lie on a curve with other constants"""
    out, tries = [], 0
    r256, i256 = 2 ** 256 % P, pow(2 ** 256, -1, P)
    # y^2 = a x^3 + b x + c B: every sign and every missing term first
    signs = [(a, b, c) for a in (1, -1, 0, 2) for b in (-3, 3, 0, -1, 1, -2) for c in (1, -1, 0, 2) if (a, b, c) != (1, -3, 1)]
    rng.shuffle(signs)
    signs.sort(key=lambda s: 2 in s or s[1] not in (3, -3, 0))
    for a, b, c in signs[:n // 4]:
        y = None
        while y is None:
            x = rng.choice([edge(rng), rng.randrange(P)])
            y = sqrt((a * x * x * x + b * x + c * B) % P)
            if not a | b:
                y = y or 0
        out.append((x, y))
    while len(out) < n:
        x = rng.choice([edge(rng), rng.randrange(P)])
        r = (x * x * x - 3 * x + B) % P
        tries += 1
        k = tries % 8
        w = rng.choice([8, 16, 32, 32, 64])
        m = (rng.getrandbits(w) or 1) << w * (tries // 6 % (256 // w)) if k % 2 else 1 << tries % 256
        if k < 2:
            t = r ^ m
        elif k < 4:
            t = (r * r256 % P ^ m) * i256
        elif k == 4:
            t = r + rng.choice([1, -1]) * m
        elif k < 7:
            a, b, c = rng.choice(signs)
            t = a * x * x * x + b * x + c * B
        else:
            t = rng.choice([-r, r - B, x * x * x + 3 * x + B, x * x * x - 3 * x - B, x * x * x + B, r + 3 * x, r + x, r - x, 2 * r, r + B])
        y = sqrt(t % P)
        if y is not None:
            out.append((x, rng.choice([y, P - y]) % P))
    return out


def q_of(r):
    return {"op": r[0], "k": "%x" % r[1], "x": "%x" % r[2], "y": "%x" % r[3]}


def row_tests(chk, rows, ans, per):
    out = []
    js = [dict(q_of(r), rx="%x" % a[0], ry="%x" % a[1]) for r, a in zip(rows, ans)]
    js.sort(key=lambda q: q["op"])
    for i in range(per):
        if js[i::per]:
            out.append(dict(kind="rows", rows=js[i::per]))
    return out


def c21(chk):
    chk.bins = build(["curve"])
    rng = chk.rng
    with concurrent.futures.ThreadPoolExecutor(1) as ex:
        law = ex.submit(laws, chk, chk.pick(8, 400))
        rows = field_rows(rng, chk.pick(4000, 60000))
        rows += [("inverse", edge(rng), 0, 0) for _ in range(chk.pick(100, 2000))]
        pts = points(rng, chk.pick(60, 400))
        for i, k in enumerate(scalars(rng, chk.pick(220, 8000))):
            x, y = pts[0] if i < 16 else pts[i % len(pts)]
            rows.append(("mul", k, x, y))
        for k in (N - 1, N, N + 1, N + 2, 2 ** 256 - 1, 0):
            rows.append(("mul", k) + pts[rng.randrange(2, len(pts))])
        rows += valid_rows(rng, chk.pick(150, 3000))
        ans = oracle(chk, rows)
        law.result()
    for i in (0, 300, 3000, -700, -1):
        chk.sample("%s(%x, %x, %x)" % rows[i])
    tests = row_tests(chk, rows, ans, 64)
    seed = lambda: rng.randrange(1 << 48)
    for k, per, q, t in (("mul", 6, 6000, 300000), ("inverse", 200, 20000, 1000000), ("valid", 200, 20000, 600000),
                         ("field", 6000, 5000000, 300000000)):
        for _ in range(chk.pick(q, t) // per):
            tests.append(dict(kind="search", k=k, seed=seed(), count=per))
    go(chk, tests)
    chk.cov["distinct_nontrivial"] = chk.cov["evaluations"]
    chk.cov["rule"] = ("operands with limbs at their edges and operands solved so that the result is near 0, p or a limb boundary; scalars 0, 1, "
                       "around n, 2^256-1, sparse, runs of ones; points on and off the curve, coordinates not below p. Answers by P256.qnt, "
                       "the rest compared with a reference that agrees with it")


def go(chk, tests):
    res = run_bin(chk, "curve", tests)
    died = res.pop("died", None)
    if died:
        chk.violation("process died: %s" % died["out"][-300:], {"tests": [tests[i] for i in died["missing"]]})
    suspects = []
    for i, t in enumerate(tests):
        r = res.get(i)
        if r is None:
            continue
        if r.get("hang") or "fatal" in r:
            chk.violation("%s: %s" % (t["kind"], "does not end" if r.get("hang") else "panic: " + r["fatal"]), {"bin": "curve", "test": t})
            continue
        n = len(t["rows"]) if t["kind"] == "rows" else t["count"]
        chk.add("evaluations", n)
        if t["kind"] == "rows":
            if r["refbad"]:
                raise ToolError("the reference is wrong: %s" % r["refbad"][0])
            chk.add("traces_validated_against_impl", n)
            for b in r["bad"]:
                q = b["q"]
                chk.violation("%s(%s, %s, %s) gives %s, the specification %s %s" % (q["op"], q["k"], q["x"], q["y"], b["got"], q["rx"], q["ry"]),
                              {"bin": "curve", "observed": b})
        else:
            chk.add("compared_with_reference", n)
            suspects += r["bad"]
    suspects = suspects[:24]
    rows = []
    for b in suspects:
        k, x, y = (int(b[f], 16) for f in "kxy")
        rows.append(("mul", k * k % N, x, y) if b["op"] == "mul2" else (b["op"], k, x, y))
    for b, a in zip(suspects, oracle(chk, rows)):
        want = "%x %x" % a
        if b["got"] != want:
            chk.violation("%s(%s, %s, %s) gives %s, the specification %s" % (b["op"], b["k"], b["x"], b["y"], b["got"], want), {"bin": "curve", "observed": b})
        else:
            raise ToolError("the reference is wrong: %s" % b)


CHECKS = {"C21": c21}
