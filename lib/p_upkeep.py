"""C25: what a connection keeps and what its steps cost (Upkeep.tla)."""
import json, os, subprocess, time
from core import *
import p_hs as ph, p_leak, p_codec


def model(chk, name, sizes, reads, writes, steps):
    cfg = cfg_file(chk, "upkeep-%s.cfg" % name, constraint="PrintTest", invariants=["Bounded"], constants={
        "Sizes": tla_set(sizes), "Reads": tla_set(reads), "Writes": tla_set(writes), "MaxSteps": steps, "MaxRec": 16384})
    return tlc_ok(chk, "Upkeep", cfg).get("TEST", [])


def volume(t):
    return sum(o["a"] + 60 for o in t["cyc"])


def describe(t):
    f = lambda k: " ".join("%s(%d)" % (o["op"], o["a"]) for o in t[k])
    return "%s then again and again %s" % (f("pre") or "nothing", f("cyc"))


def run(chk, tests, timeout=800):
    """runs, in parallel processes, each with its own memory to account for"""
    d, _ = chk.leak
    n = min(CPUS, max(1, len(tests)))
    procs = []
    t0 = time.time()
    for i, t in enumerate(tests):
        t["id"] = i
    for k in range(n):
        inp, out = (os.path.join(chk.tmp, "upkeep%d.%s" % (k, x)) for x in ("in", "out"))
        with open(inp, "w") as f:
            for t in tests[k::n]:
                f.write(json.dumps(t, separators=(",", ":")) + "\n")
        procs.append((subprocess.Popen([os.path.join(d, "husk-leak"), inp, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), out))
    res = {}
    for p, out in procs:
        try:
            text, _ = p.communicate(timeout=max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            for q, _ in procs:
                q.kill()
            raise ToolError("leak did not end")
        if p.returncode:
            raise ToolError("leak ended with %d: %s" % (p.returncode, text[-2000:]))
        for l in open(out):
            r = json.loads(l)
            res[r["id"]] = r["r"]
    if len(res) != len(tests):
        raise ToolError("leak: %d results for %d tests" % (len(res), len(tests)))
    log("leak: %d runs in %.1fs" % (len(tests), time.time() - t0))
    return [res[i] for i in range(len(tests))]


def judge(chk, tests, res):
    # families: the same thing in sizes that double
    fams = {}
    for t, r in zip(tests, res):
        if "fam" in t:
            fams.setdefault(t["fam"], []).append((t["n"], t, r))
    obs = os.path.join(chk.tmp, "obs")
    rows = []
    with open(obs, "w") as f:
        for t, r in zip(tests, res):
            if t["op"] == "cycle":
                if "err" in r or "failed" in r:
                    chk.violation("%s: %s" % (describe(t), r.get("failed", r.get("err"))), {"bin": "leak", "test": t, "observed": r})
                    continue
                o = dict(form="cycle", reps=t["reps"], held=r["held"], work=r["work"], peak=r["peak"])
            elif t["op"] == "lives":
                o = dict(form="lives", reps=t["reps"], held=r["held"])
            else:
                o = dict(form="junk", size=r["size"], peak=r["peak"], work=min(r["work"], 2 ** 31 - 1))
            rows.append((t, r))
            f.write(json.dumps(o) + "\n")
        for k in sorted(fams):
            rs = sorted(fams[k], key=lambda x: x[0])
            if any("failed" in r or "err" in r for _, _, r in rs):
                continue        # reported above
            o = dict(form="grow", work=[min(r["work"][3] if isinstance(r["work"], list) else r["work"], 2 ** 31 - 1) for _, _, r in rs])
            rows.append((dict(op="grow", what="%s, in sizes %s" % (k, ", ".join(str(n) for n, _, _ in rs))), o))
            f.write(json.dumps(o) + "\n")
            chk.add("families")
    tags, st = tlc(chk, "UpkeepJudge", "UpkeepJudge.cfg", env2={"OBS": obs})
    if st["rc"] != 0 or "No error has been found" not in st["text"] or st.get("states") != len(rows) + 1:
        raise ToolError("UpkeepJudge: " + st["text"][-2000:])
    chk.add("states", st["states"])
    chk.add("transitions", st["transitions"])
    chk.add("traces_validated_against_impl", len(rows))
    for b in tags.get("BAD", []):
        t, r = rows[b["at"] - 1]
        if t["op"] == "cycle":
            chk.violation("%s: %s (held %s, work %s, peak %d)" % (
                describe(t), b["what"], r["held"], r["work"], r["peak"]), {"bin": "leak", "test": t, "observed": r})
        else:
            if t["op"] == "lives":
                t = dict(t, what="%d connections: %s" % (t["reps"], t["of"].get("what") or describe(t["of"])), data=t["of"].get("data", ""), of=None)
            chk.violation("%s: %s (%s)" % (t["what"], b["what"], r), {"bin": "leak", "test": dict(t, data=t.get("data", "")[:4000]), "observed": r})


def families(chk, flight):
    """the same thing in sizes 0, n, 2n, 4n, 8n"""
    out = []
    sh = msg(2, b"\3\3" + bytes(range(32)) + b"\0" + b"\xcc\xa8" + b"\0")
    cert = lambda body: msg(11, len(body).to_bytes(3, "big") + body)
    one = lambda b: len(b).to_bytes(3, "big") + b
    def junk(what, base, f):
        for i in (0, 1, 2, 4, 8):
            out.append({"op": "junk", "what": what, "fam": what, "n": i * base, "data": f(i * base).hex()})
    def cyc(what, base, f):
        for i in (0, 1, 2, 4, 8):
            out.append(dict(op="cycle", pre=[], cyc=[dict(op=o, a=a) for o, a in f(i * base)], reps=4, fam=what, n=i * base, flight=flight, seed=chk.rng.randrange(1 << 48)))
    k = chk.pick(1, 8)
    for n in (1, 7, 100):
        junk("a certificate message in records of %d octets" % n, 3000 * k * min(n, 8), lambda m: rec(sh) + rec(cert(one(b"x" * m)), n=n))
        junk("a message that does not end in records of %d octets" % n, 3000 * k * min(n, 8), lambda m: rec(sh) + rec(b"\x0b\xff\xff\xff" + b"x" * m, n=n))
    junk("one certificate", 50000 * k, lambda m: rec(sh + cert(one(b"x" * m))))
    junk("certificates of one octet", 8000 * k, lambda m: rec(sh + cert(one(b"x") * m)))
    junk("certificates of no octets", 8000 * k, lambda m: rec(sh + cert(one(b"") * m)))
    def hello(m):
        e = b"\xfe\xfe\0\0" * m
        return rec(msg(2, b"\3\3" + bytes(range(32)) + b"\0" + b"\xcc\xa8" + b"\0" + len(e).to_bytes(2, "big") + e))
    junk("extensions", 2000, hello)
    def kex(m):
        p = b"\3\0\x17\x41\4" + b"\1" * 64
        return rec(sh + cert(one(b"x")) + msg(12, p + b"\4\1" + m.to_bytes(2, "big") + b"s" * m))
    junk("a signature", 8000, kex)
    cyc("one write", 100000 * k, lambda m: [("write", m)])
    cyc("writes of an octet", 100 * k, lambda m: [("write", 1)] * m)
    cyc("one read of full records", 5 * 16384 * k, lambda m: [("put", 16384)] * (m // 16384) + [("read", m)])
    cyc("one read of records of an octet", 200 * k, lambda m: [("put", 1)] * m + [("read", m)])
    cyc("one read behind empty records", 200 * k, lambda m: [("put", 0)] * m + [("put", 1), ("read", 1)])
    cyc("octets of records read one by one", 200 * k, lambda m: [("put", 100)] * (m // 100) + [("read", 1)] * m)
    return out


def rec(b, typ=22, n=16384):
    return b"".join(bytes([typ, 3, 3]) + len(b[i:i + n]).to_bytes(2, "big") + b[i:i + n] for i in range(0, len(b), n))


def msg(t, b):
    return bytes([t]) + len(b).to_bytes(3, "big") + b


def flights(chk):
    """what servers send before anything is protected: messages with every
    length field lying, messages of many elements, many messages"""
    rng = chk.rng
    sh = msg(2, b"\3\3" + bytes(range(32)) + b"\0" + b"\xcc\xa8" + b"\0")
    ch = lambda n, k: (n * k + 0).to_bytes(3, "big") + (k - 3).to_bytes(3, "big") * 0
    cert = lambda parts: msg(11, sum(len(p) + 3 for p in parts).to_bytes(3, "big") + b"".join(len(p).to_bytes(3, "big") + p for p in parts))
    good = {1: [], 2: [sh], 3: [sh, cert([b"\x30\1\2"])]}
    out = []
    def add(what, b):
        out.append({"op": "junk", "what": what, "data": b.hex()})
    made = p_codec.gen(chk, 1)
    seeds = sorted({(t["ty"], p_codec.runs(t["enc"])) for t in made if t["fits"] and t["size"] <= 200 and t["ty"] in (0, 1, 2, 11, 12, 13, 14, 16, 20)})
    rng.shuffle(seeds)
    # every place of some of each type
    full = set()
    for t in (0, 1, 2, 11, 12, 13, 14, 16, 20):
        k = sorted((b for ty, b in seeds if ty == t), key=len)
        full |= {(t, b) for b in k[:2] + [x for x in k if len(x) < 90][2::max(1, len(k) // chk.pick(4, 12))]}
    seeds.sort(key=lambda x: x not in full)
    for ty, b in seeds[:chk.pick(150, 1500)]:
        pre = rec(b"".join(good[{2: 1, 11: 2}.get(ty, rng.randrange(1, 4))]))
        # each place as a length that is too big
        for i in range(1, len(b)):
            for w in (1, 2, 3, 4):
                if (ty, b) in full or rng.random() < chk.pick(.08, .3):
                    m = b[:i] + b"\xff" * w + b[i + w:]
                    add("message %d, %d octets from %d on set" % (ty, w, i), pre + rec(m[:1] + (len(m) - 4).to_bytes(3, "big") + m[4:] if i >= 4 and len(m) >= 4 else m))
    big = chk.pick(200000, 1500000)
    for n in (0, 1, 3):
        k = big // (n + 3)
        add("a certificate message of %d certificates of %d octets" % (k, n), rec(sh + cert([b"x" * n] * k)))
    add("a certificate of %d octets" % big, rec(sh + cert([b"x" * big])))
    add("a message of 2^24 - 1 octets announced, %d sent" % big, rec(sh + b"\x0b\xff\xff\xff" + b"\0" * big))
    for n in (1, 2, 5, 100):
        add("a message in records of %d octets" % n, rec(sh) + rec(cert([b"x" * (big // 10)]), n=n))
    add("%d empty records" % (big // 5), rec(sh) + b"\x16\3\3\0\0" * (big // 5))
    ext = lambda k, n: b"".join(rng.randrange(60, 65535).to_bytes(2, "big") + n.to_bytes(2, "big") + bytes(n) for _ in range(k))
    for k, n in ((16000, 0), (100, 600), (1, 65000)):
        e = ext(k, n)
        add("%d extensions of %d octets" % (k, n), rec(msg(2, b"\3\3" + bytes(range(32)) + b"\0" + b"\xcc\xa8" + b"\0" + len(e).to_bytes(2, "big") + e)))
    for t in (0, 1, 4, 14, 20, 99):
        add("%d messages of type %d" % (big // 40, t), rec(sh + msg(t, b"") * (big // 40)))
    for typ in (20, 21, 22, 23, 99):
        for n in (1, 300, 16384):
            add("%d octets of records of type %d" % (big // 4, typ), rec(sh) + rec(rng.randbytes(big // 4), typ, n))
    for _ in range(chk.pick(60, 600)):
        add("random octets", rec(b"".join(good[rng.randrange(1, 4)])) + rng.randbytes(rng.choice([10, 1000, 70000])))
    return out


def c25(chk):
    chk.bins = build(["hs"])
    chk.leak = p_leak.build_leak()
    rng = chk.rng
    hm = ph.model(chk, "upkeep", ph.GOODFLIGHT, False, 1, ["ccs_ok"], ["good"])
    flight = [t for t in hm if t["hist"][-1]["res"] == "ok"][0]
    flight = [h["ev"] for h in flight["hist"][1:]]
    # --- programs for ever
    ts = model(chk, "small", [0, 1, 2], [0, 1, 2], [0, 1], chk.pick(5, 6))
    ts += model(chk, "big", [1, 16384], [1, 16383, 16384, 16385], [1, 16384, 16385, 40000], chk.pick(4, 5))
    cap = chk.pick(400, 3000)
    if len(ts) > cap:
        ts = rng.sample(ts, cap)
    tests = []
    for t in ts:
        reps = max(64, min(chk.pick(4000, 12000), chk.pick(4000000, 20000000) // volume(t))) // 4 * 4
        tests.append(dict(op="cycle", pre=t["pre"], cyc=t["cyc"], reps=reps, flight=flight, seed=rng.randrange(1 << 48)))
    for i, t in enumerate(tests):
        t["end"] = ("", "forged", "alert", "close", "hs", "plain")[i % 6]
    # --- and very long ones
    for cyc in ([("put", 1), ("read", 1)], [("put", 0)] * 3 + [("put", 1), ("read", 1)], [("write", 1)], [("write", 0)]):
        tests.append(dict(op="cycle", pre=[], cyc=[dict(op=o, a=a) for o, a in cyc], reps=chk.pick(20000, 300000), flight=flight, seed=rng.randrange(1 << 48)))
    tests += flights(chk) + families(chk, flight)
    # --- connections that end in each way, each again and again
    some = lambda op, n: rng.sample([t for t in tests if t["op"] == op and "fam" not in t and len(t.get("data", "")) < 20000], n)
    for t in some("junk", chk.pick(160, 1500)):
        tests.append(dict(op="lives", of=t, reps=64))
    for t in some("cycle", chk.pick(24, 120)):
        tests.append(dict(op="lives", of=dict(t, reps=4), reps=64))
    rng.shuffle(tests)
    res = run(chk, tests)
    judge(chk, tests, res)
    for t in tests:
        chk.add("runs_" + t["op"])
    for t in tests[::max(1, len(tests) // 6)]:
        chk.sample(describe(t) if t["op"] == "cycle" else "64 connections" if t["op"] == "lives" else t["what"])


CHECKS = {"C25": c25}
