"""C15, C16: encoding and decoding of the handshake messages (Codec.tla)."""
import json, os
from core import *


def gen(chk, vary):
    cfg = cfg_file(chk, "gen%d.cfg" % vary, invariants=["PrintTest", "Sound", "SoundRaw"], constants={"MaxVary": vary})
    return tlc_ok(chk, "CodecGen", cfg, workers=CPUS).get("TEST", [])


def runs(v):
    out = b""
    for r in v:
        out += (runs(r[0]) if len(r) == 3 else bytes([r[0]])) * r[1]
    return out


def name(ty):
    return {0: "HelloRequest", 1: "ClientHello", 2: "ServerHello", 11: "Certificate", 12: "ServerKeyExchange (opaque)",
            13: "CertificateRequest", 14: "ServerHelloDone", 16: "ClientKeyExchange", 20: "Finished",
            100: "EcdheServerKeyExchange", 101: "Extension", 102: "EcCurve"}.get(ty, "message %d" % ty)


# --------------------------------------------------------------------- C16
def c16(chk):
    chk.bins = build(["codec"])
    tests = [dict(kind="build", **t) for t in gen(chk, chk.pick(2, 3))]
    if len(tests) > 60000:
        tests = chk.rng.sample(tests, 60000)
    ints = []
    for n in (1, 2, 4, 8):
        pats = {bytes(n), b"\xff" * n, bytes(range(1, n + 1)), b"\x80" + bytes(n - 1), bytes(n - 1) + b"\x80"}
        for i in range(n):
            for x in (1, 0x7f, 0x80, 0xff):
                pats.add(bytes(x if j == i else 0 for j in range(n)))
                pats.add(bytes(0xff - x if j == i else 0xff for j in range(n)))
        for _ in range(chk.pick(2000, 100000)):
            pats.add(chk.rng.randbytes(n))
        pats |= {bytes([a]) for a in range(256)} if n == 1 else set()
        if n == 2:
            pats |= {bytes([a, b]) for a in range(256) for b in range(256)}
        pats = sorted(p for p in pats if len(p) == n)
        for i in range(0, len(pats), 5000):
            ints.append(dict(kind="ints", be=[p.hex() for p in pats[i:i + 5000]]))
            chk.add("integers", len(ints[-1]["be"]))
    tests += ints
    tests.sort(key=lambda t: -t.get("size", 0))
    res = run_bin(chk, "codec", tests)
    died = res.pop("died", None)
    if died:
        chk.violation("process died: %s" % died["out"][-300:], {"tests": [tests[i] for i in died["missing"]]})
    n = 0
    for i, t in enumerate(tests):
        r = res.get(i)
        if r is None:
            continue
        n += 1
        bad = "hang" if r.get("hang") else "panic: " + r["fatal"] if "fatal" in r else r["bad"]
        if bad and t["kind"] == "ints":
            chk.violation("integers: %s" % (bad if isinstance(bad, str) else bad[0]), {"bin": "codec", "test": {"kind": "ints", "be": t["be"][:20]}, "observed": bad})
        elif bad:
            chk.violation("%s %s: %s" % (name(t["ty"]), json.dumps(t["v"])[:200], bad), {"bin": "codec", "test": t, "observed": r})
    chk.add("traces_validated_against_impl", n)
    for t in tests[:: max(1, len(tests) // 4)]:
        chk.sample("%s %s" % (name(t["ty"]), json.dumps(t["v"])[:120]) if "ty" in t else "integers")


# --------------------------------------------------------------------- C15
def fix(b):
    n = len(b) - 4
    return b[:1] + bytes([n >> 16 & 255, n >> 8 & 255, n & 255]) + b[4:]


def corrupt(rng, ty, b, others):
    """byte strings near b"""
    hs = ty < 100
    out = [b]
    for n in range(len(b)):
        out.append(b[:n])
        if hs and n >= 4:
            out.append(fix(b[:n]))
    for k in (1, 2, 3):
        e = rng.randbytes(k) if rng.random() < .5 else bytes(k)
        out.append(b + e)
        if hs:
            out.append(fix(b + e))
    for i in range(len(b)):
        for x in {0, 1, 2, (b[i] - 1) & 255, (b[i] + 1) & 255, (b[i] + 2) & 255, b[i] ^ 0x80, 255, rng.randrange(256)} - {b[i]}:
            out.append(b[:i] + bytes([x]) + b[i + 1:])
        d, ins = b[:i] + b[i + 1:], b[:i] + bytes([rng.choice([0, 1, 255, b[i], rng.randrange(256)])]) + b[i:]
        dup = b[:i] + b[i:i + 2] + b[i:]
        out += [d, ins, dup]
        if hs and i >= 4:
            out += [fix(d), fix(ins), fix(dup)]
            # two fields at once: a length and what it covers
            j = rng.randrange(4, len(b))
            two = bytearray(fix(ins))
            two[j] = (two[j] + 1) & 255
            out.append(bytes(two))
            two = bytearray(fix(d) if len(d) >= 4 else d)
            if j < len(two):
                two[j] = (two[j] - 1) & 255
                out.append(bytes(two))
    if hs:
        for t in (3, 4, 15, 19, 21, 22, 67, 254, 255, rng.randrange(256), 0, 1, 2, 11, 12, 13, 14, 16, 20):
            out.append(bytes([t]) + b[1:])
        o = rng.choice(others)
        i, j = rng.randrange(len(b)), rng.randrange(len(o))
        out += [b[:i] + o[j:], fix(b[:max(i, 4)] + o[j:]), b + o]
    return out


def c15(chk):
    chk.bins = build(["codec"])
    made = gen(chk, chk.pick(1, 2))
    ts = [t for t in made if t["fits"] and t["size"] <= chk.pick(130, 300)]
    # messages naming unknown suites are well formed too
    seeds = {(t["ty"], runs(t["enc"])) for t in ts}
    # encodings of what the grammar does not allow, and of what is too long
    # to corrupt at every place
    rows = set()
    for t in made:
        if t["fits"] and 130 < t["size"] <= 1000 and chk.rng.random() < chk.pick(.5, .1):
            rows.add((t["ty"], runs(t["enc"])))
        if t["raw"] and sum(r[1] for r in t["raw"][0]) <= 1000:
            b = runs(t["raw"][0])
            if len(b) <= 130 and chk.rng.random() < chk.pick(.3, 1):
                seeds.add((t["ty"], b))
            elif len(b) <= 1000:
                rows.add((t["ty"], b))
    for ty, b in list(seeds):
        if ty in (1, 2) and b.find(b"\xcc\xa8") > 0:
            seeds.add((ty, b.replace(b"\xcc\xa8", chk.rng.randbytes(2), 1)))
    seeds = sorted(seeds)
    hs = [b for ty, b in seeds if ty < 100]
    chk.add("long_encodings", len(rows))
    long = rows
    rows = set()
    for ty, b in seeds:
        rows |= {(ty, x) for x in corrupt(chk.rng, ty, b, hs)}
    for _ in range(chk.pick(4000, 100000)):
        n = chk.rng.choice([0, 1, 2, 3, 5, 8, 12, 38, 45, 80])
        body = bytes(chk.rng.choice([0, 0, 0, 1, 2, 3, 255, 23, chk.rng.randrange(256)]) for _ in range(n))
        rows.add((chk.rng.choice([100, 101, 102]), body))
        rows.add((0, fix(bytes([chk.rng.choice([0, 1, 2, 11, 12, 13, 14, 16, 20]), 0, 0, 0]) + body)))
    rows = sorted(rows)
    cap = chk.pick(60000, 480000)
    chk.add("byte_strings_made", len(rows))
    if len(rows) > cap:
        keep = set(chk.rng.sample(range(len(rows)), cap))
        rows = [r for i, r in enumerate(rows) if i in keep]
    rows += sorted(long)
    # messages too long for the judge: what the specification builds decodes
    big = [dict(kind="long", ty=t["ty"], enc=t["enc"], v=t["v"],
                keys=t["ty"] == 100 and t["v"][0] == 3 and t["v"][1] == 23 and runs(t["v"][2])[:3] == b"\x04\x6b\x17")
           for t in made if t["fits"] and t["size"] > 1000]
    big = chk.rng.sample(big, min(len(big), chk.pick(400, 4000)))
    big.sort(key=lambda t: -t["enc"][0][1] if t["enc"] else 0)
    res = run_bin(chk, "codec", big)
    died = res.pop("died", None)
    if died:
        chk.violation("process died: %s" % died["out"][-300:], {"tests": [big[i] for i in died["missing"]]})
    for i, t in enumerate(big):
        r = res.get(i)
        bad = r and ("hang" if r.get("hang") else "panic: " + r["fatal"] if "fatal" in r else r["bad"])
        if bad:
            chk.violation("%s: %s" % (name(t["ty"]), bad), {"bin": "codec", "test": t, "observed": r})
    chk.add("long_messages", len(big))
    batch = 100
    tests = [dict(kind="dec", rows=[[ty, b.hex()] for ty, b in rows[i:i + batch]]) for i in range(0, len(rows), batch)]
    res = run_bin(chk, "codec", tests)
    died = res.pop("died", None)
    if died:
        chk.violation("process died: %s" % died["out"][-300:], {"tests": [tests[i] for i in died["missing"]]})
    obs = []
    for i in range(len(tests)):
        r = res.get(i)
        if r is None:
            continue
        if "rows" not in r:
            chk.violation("decoder: %s" % ("hang" if r.get("hang") else r["fatal"]), {"bin": "codec", "test": tests[i]})
            continue
        obs.append([o for o in r["rows"] if "panic" not in o])
        for o in r["rows"]:
            if "panic" in o:
                chk.violation("%s %s: panic: %s" % (name(o["ty"]), o["hex"], o["panic"]), {"bin": "codec", "observed": o})
    ok = err = 0
    for o in obs:
        for x in o:
            ok += x["res"] != "error"
            err += x["res"] == "error"
    bads = []
    for i in range(0, len(obs), 600):
        p = os.path.join(chk.tmp, "obs")
        with open(p, "w") as f:
            for o in obs[i:i + 600]:
                f.write(json.dumps(o, separators=(",", ":")) + "\n")
        bads += tlc_ok(chk, "CodecJudge", "CodecJudge.cfg", workers=CPUS, env2={"OBS": p}, java="-Xss256m").get("BAD", [])
    for bad in bads:
        o = bad["obs"]
        h = bytes(o["b"]).hex()
        extra = ", buffer gives %s, keys %s" % (o.get("buf"), o.get("keys"))
        chk.violation("%s %s: decoder gives %s%s; the grammar %s" % (name(o["ty"] if o["ty"] >= 100 else (o["b"] or [999])[0]), h[:200], o["res"], extra, bad["spec"]),
                      {"bin": "codec", "test": {"kind": "dec", "rows": [[o["ty"], h]]}, "observed": o, "expected": bad["spec"]})
    chk.add("traces_validated_against_impl", ok + err)
    chk.add("accepted", ok)
    chk.add("rejected", err)
    for ty, b in rows[:: max(1, len(rows) // 5)]:
        chk.sample("%s %s" % (name(ty), b.hex()[:120]))


CHECKS = {"C15": c15, "C16": c16}
