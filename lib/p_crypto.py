"""C17 to C20: the symmetric primitives (Sha256, ChaCha20, Aead, Streams, Oracle)."""
import json, os
from core import *


def oracle(chk, reqs):
    """the specification's answers"""
    if not reqs:
        return []
    p = os.path.join(chk.tmp, "req")
    # long computations spread over the workers
    order = sorted(range(len(reqs)), key=lambda i: -len(json.dumps(reqs[i])))
    with open(p, "w") as f:
        for i in order:
            f.write(json.dumps(reqs[i], separators=(",", ":")) + "\n")
    tags = tlc_ok(chk, "Oracle", "Oracle.cfg", workers=CPUS, env2={"REQ": p})
    out = [None] * len(reqs)
    for a in tags.get("ANS", []):
        out[order[a["i"] - 1]] = a["a"]
    if None in out:
        raise ToolError("the oracle did not answer everything")
    chk.add("oracle_answers", len(reqs))
    return out


def brief(q):
    return q["k"] + " " + ", ".join("%s=%s" % (k, bytes(v).hex()[:120] + ("..(%d bytes)" % len(v) if len(v) > 60 else "") if isinstance(v, list) else v)
                                    for k, v in q.items() if k != "k")


def tests_of(chk, reqs, per=40):
    ans = oracle(chk, reqs)
    rows = [{"q": q, "a": a} for q, a in zip(reqs, ans)]
    for q in reqs[:: max(1, len(reqs) // 4)]:
        chk.sample(brief(q))
    return [dict(kind="rows", rows=rows[i::max(1, len(rows) // per)]) for i in range(max(1, len(rows) // per))]


def go(chk, tests):
    """runs the tests; what the searches find is judged by the oracle"""
    tests.sort(key=lambda t: -t.get("cost", 0))
    res = run_bin(chk, "prims", tests)
    died = res.pop("died", None)
    if died:
        chk.violation("process died: %s" % died["out"][-300:], {"tests": [tests[i] for i in died["missing"]]})
    suspects = []
    for i, t in enumerate(tests):
        r = res.get(i)
        if r is None:
            continue
        if r.get("hang") or "fatal" in r:
            chk.violation("%s: %s" % (t["kind"], "does not end" if r.get("hang") else "panic: " + r["fatal"]), {"bin": "prims", "test": t})
            continue
        k = t["kind"]
        if k == "rows":
            if r["refbad"]:
                raise ToolError("the reference is wrong: %s" % json.dumps(r["refbad"][0])[:500])
            chk.add("evaluations", len(t["rows"]))
            chk.add("traces_validated_against_impl", len(t["rows"]))
            for b in r["bad"]:
                chk.violation("%s: gives %s, the specification %s" % (brief(b["q"]), b["got"], b["want"]), {"bin": "prims", "observed": b})
        elif k == "search":
            chk.add("evaluations", r["n"])
            chk.add("compared_with_reference", r["n"])
            suspects += r["bad"]
        else:
            n = r.get("n", t.get("count", 1))
            chk.add("evaluations", n)
            if k == "history":
                chk.add("traces_validated_against_impl")
            else:
                chk.add("compared_with_reference", n)
            if r["bad"]:
                what = r["bad"]
                if k == "history":
                    what = "%s key %s %s, calls %s: %s" % (t["k"], bytes(t["key"]).hex(), bytes(t["m"]).hex(),
                                                            [o["n"] for o in t["ops"]], what)
                chk.violation(what, {"bin": "prims", "test": t if k != "history" else dict(t, stream=len(t["stream"])), "observed": r})
    suspects = suspects[:24]
    for b, a in zip(suspects, oracle(chk, [b["q"] for b in suspects])):
        want = "error" if a.get("ok") is False else bytes(a["b"]).hex()[:128]
        if b["got"] != want:
            chk.violation("%s: gives %s, the specification %s" % (brief(b["q"]), b["got"], want), {"bin": "prims", "observed": b})
        else:
            raise ToolError("the reference is wrong: %s" % brief(b["q"]))


def texture(rng, n):
    k = rng.randrange(6)
    if k == 0:
        return [0] * n
    if k == 1:
        return [255] * n
    if k == 2:
        return [rng.choice([0, 1, 127, 128, 254, 255]) for _ in range(n)]
    return list(rng.randbytes(n))


def searches(chk, k, total, kind="search"):
    per = max(1, total // (8 * CPUS))
    return [dict(kind=kind, k=k, seed=chk.rng.randrange(1 << 48), count=per, cost=per) for _ in range(8 * CPUS)]


def streams(chk, kind, sizes, ops):
    cfg = cfg_file(chk, kind + ".cfg", view="View", constraint="PrintTest",
                   invariants=["Consecutive", "FreshBlocks"],
                   constants={"Kind": '"%s"' % kind, "Sizes": tla_set(sizes), "MaxOps": ops})
    return tlc_ok(chk, "Streams", cfg).get("TEST", [])


def histories(chk, kind, objects, hs):
    """every history on one of the objects (key, nonce or seed), each object used"""
    need = max(h["end"] for h in hs) + 64
    ks = "prf" if kind == "prf" else "stream"
    reqs = [dict(k=ks, key=a, n=need, **({"m": b} if kind == "prf" else {"nonce": b})) for a, b in objects]
    ans = oracle(chk, reqs)
    out = []
    for i, h in enumerate(hs):
        j = i % len(objects)
        n = h["end"] + 64
        out.append(dict(kind="history", k=kind, key=objects[j][0], m=objects[j][1], stream=ans[j]["b"][:n], ops=h["ops"]))
    for h in hs[:: max(1, len(hs) // 3)]:
        chk.sample("%s calls %s" % (kind, " ".join("%s(%d)" % (o["op"], o["n"]) for o in h["ops"])), 8)
    return out


RULE = ("inputs of every length near block boundaries and of several textures (zeros, ones, boundary bytes, random); "
        "all are distinct draws, and none is trivial except the empty ones: ")


def c18(chk):
    chk.bins = build(["prims"])
    lens = list(range(0, chk.pick(330, 1100))) + [chk.rng.randrange(300, chk.pick(4000, 20000)) for _ in range(chk.pick(40, 300))]
    reqs = [dict(k="sha", m=texture(chk.rng, n)) for n in lens]
    reqs += [dict(k="sha", m=list(chk.rng.randbytes(n))) for n in list(range(50, 70)) + list(range(114, 130)) + [64 * k + d for k in (3, 4, 8, 16, 32, 64) for d in (-9, -8, -1, 0, 1)]]
    tests = tests_of(chk, reqs)
    tests += searches(chk, "sha", chk.pick(400000, 20000000))
    for n in [(1 << 16) + 3, (1 << 20) - 9, (1 << 24) + 55, (1 << 25), 1 << 29] + ([] if chk.quick else [(1 << 29) - 1, (1 << 29) + 56, (1 << 31) + 7]):
        tests.append(dict(kind="long", k="sha", n=n, cost=n))
    go(chk, tests)
    chk.cov["distinct_nontrivial"] = chk.cov["evaluations"]
    chk.cov["rule"] = RULE + "messages of each length 0..330 and more are answered by Sha256.tla under TLC, the rest compared with a reference that agrees with it on those"


def longs(chk, kinds):
    """around every power of two that a length or a counter might be cut to"""
    ns = sorted({(1 << e) + d for e in ((8, 12, 14, 15, 16, 17, 18) if chk.quick else (8, 12, 14, 15, 16, 17, 18, 20, 22, 24)) for d in (-1, 0, 1, 37)})
    return [dict(kind="long", k=k, n=n, cost=n) for k in kinds for n in ns if k != "prf" or n < 1 << 21]


def c17(chk):
    chk.bins = build(["prims"])
    B = lambda n: texture(chk.rng, n)
    reqs = []
    for n in list(range(0, 70)) + [95, 96, 127, 128, 129, 130, 131, 200, 300]:
        reqs.append(dict(k="hmac", key=B(n), m=B(chk.rng.choice([0, 1, 20, 55, 56, 63, 64, 65, 150]))))
    for n in range(0, 140, chk.pick(3, 1)):
        reqs.append(dict(k="hmac", key=B(chk.rng.choice([0, 1, 32, 48, 63, 64, 65, 131])), m=B(n)))
    for n in [0, 1, 12, 31, 32, 33, 48, 63, 64, 65, 88, 100]:
        reqs.append(dict(k="prf", key=B(chk.rng.choice([0, 1, 32, 48, 64, 65])), m=B(chk.rng.choice([0, 13, 77, 100])), n=n))
    tests = tests_of(chk, reqs)
    hs = streams(chk, "prf", [0, 1, 12, 31, 32, 33, 63, 64, 65], chk.pick(3, 4))
    hs += streams(chk, "prf", [0, 5, 27, 32, 40], chk.pick(5, 6))
    objs = [(B(a), B(b)) for a, b in [(0, 0), (32, 77), (48, 13), (64, 64), (65, 5), (100, 130), (1, 47), (32, 0)]]
    tests += histories(chk, "prf", objs, hs)
    tests += searches(chk, "hmac", chk.pick(200000, 5000000)) + searches(chk, "prf", chk.pick(60000, 1500000))
    tests += searches(chk, "prf", chk.pick(40000, 1000000), "patterns")
    tests += longs(chk, ["hmac", "prf"])
    go(chk, tests)


def c19(chk):
    chk.bins = build(["prims"])
    B = lambda n: texture(chk.rng, n)
    reqs = [dict(k="stream", key=B(32), nonce=B(12), n=chk.rng.choice([64, 128, 200, 320])) for _ in range(chk.pick(250, 3000))]
    tests = tests_of(chk, reqs)
    hs = streams(chk, "chacha", [0, 1, 63, 64, 65, 127, 128, 129], chk.pick(3, 4))
    hs += streams(chk, "chacha", [0, 1, 64, 100], chk.pick(5, 6))
    objs = [(B(32), B(12)) for _ in range(6)] + [([0] * 32, [0] * 12), ([255] * 32, [255] * 12)]
    tests += histories(chk, "chacha", objs, hs)
    tests += searches(chk, "stream", chk.pick(300000, 10000000)) + searches(chk, "chacha", chk.pick(100000, 3000000), "patterns")
    for n in (64 * 255, 64 * 256 + 1, 64 * 257, 64 * 65536 + 70, 64 * 65537 * 2):
        tests.append(dict(kind="long", k="chacha", n=n, cost=n))
    if not chk.quick:
        tests.append(dict(kind="long", k="chacha", n=64 * (1 << 24) + 65, cost=1 << 30))
    go(chk, tests)


P130 = 2 ** 130 - 5


def clamp(r):
    return int.from_bytes(bytes(r), "little") & 0x0ffffffc0ffffffc0ffffffc0fffffff


def edge_poly(rng):
    """a message whose accumulator ends near an edge of the field"""
    while True:
        r = texture(rng, 16)
        k = clamp(r)
        if not k:
            return dict(k="poly", r=r, s=texture(rng, 16), m=texture(rng, rng.randrange(60)))
        d = rng.randrange(8)
        t = rng.choice([d, P130 - 1 - d, 2 ** 128 - 1 - d, 2 ** 128 + d, 2 ** 129 - 1 - d, 2 ** (26 * rng.randrange(1, 5)) - 1 - d])
        for _ in range(40):
            m = texture(rng, 16 * rng.randrange(3))
            h = 0
            for i in range(0, len(m), 16):
                h = (h + int.from_bytes(bytes(m[i:i + 16]) + b"\1", "little")) * k % P130
            last = (t * pow(k, -1, P130) - h) % P130
            if last.bit_length() == 129:
                return dict(k="poly", r=r, s=rng.choice([[0] * 16, [255] * 16, texture(rng, 16)]), m=m + list(last.to_bytes(17, "little")[:16]))


def c20(chk):
    chk.bins = build(["prims"])
    rng = chk.rng
    B = lambda n: texture(rng, n)
    reqs = [dict(k="poly", r=B(16), s=B(16), m=B(n)) for n in list(range(0, 70)) + [100, 128, 255, 256, 1000]]
    reqs += [edge_poly(rng) for _ in range(chk.pick(300, 3000))]
    for n in list(range(0, 67)) + [127, 128, 129, 191, 192, 193, 256, 500]:
        reqs.append(dict(k="seal", key=B(32), nonce=B(12), ad=B(rng.choice([0, 1, 12, 13, 15, 16, 17, 32])), m=B(n)))
    for n in range(0, 50):
        reqs.append(dict(k="seal", key=B(32), nonce=B(12), ad=B(n), m=B(rng.randrange(40))))
    # opening: sealed data of the specification, as it is and changed
    seals = [dict(k="seal", key=B(32), nonce=B(12), ad=B(rng.choice([0, 13, 16, 20])), m=B(rng.choice([0, 1, 15, 16, 17, 64, 65]))) for _ in range(60)]
    for q, a in zip(seals, oracle(chk, seals)):
        o = dict(k="open", key=q["key"], nonce=q["nonce"], ad=q["ad"], m=a["b"])
        reqs.append(o)
        for _ in range(3):
            c = {k: (list(v) if isinstance(v, list) else v) for k, v in o.items()}
            f = rng.choice(["key", "nonce", "ad", "m", "m", "len"])
            if f == "len" or not c[f]:
                c["m"] = c["m"][:rng.randrange(len(c["m"]))] if rng.random() < .7 else c["m"] + [0]
            else:
                c[f][rng.randrange(len(c[f]))] ^= 1 << rng.randrange(8)
            reqs.append(c)
    tests = tests_of(chk, reqs)
    tests += searches(chk, "poly", chk.pick(300000, 20000000)) + searches(chk, "seal", chk.pick(60000, 2000000)) + searches(chk, "open", chk.pick(10000, 200000))
    for n in (0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 300, 1000, 16384):
        for ad in (0, 13, 16) if n < 300 else (13,):
            for _ in range(chk.pick(1, 6)):
                tests.append(dict(kind="tamper", n=n, ad=ad, seed=rng.randrange(1 << 48), cost=n * 300))
    tests += searches(chk, "aead", chk.pick(20000, 500000), "reuse")
    tests += longs(chk, ["poly", "seal"])
    go(chk, tests)
    chk.cov["distinct_nontrivial"] = chk.cov["evaluations"]
    chk.cov["rule"] = RULE + "Poly1305 messages solved so that the accumulator ends at an edge of the field or of a limb; every bit of sealed data, nonce and additional data flipped; answers by Aead.tla under TLC, the rest compared with a reference that agrees with it"


CHECKS = {"C17": c17, "C18": c18, "C19": c19, "C20": c20}
