"""C22 and C23: key exchanges (P256.qnt) and fresh randomness (Freshness.tla)."""
import json, os
from core import *
import p_curve

N, P = p_curve.N, p_curve.P


def judge(chk, obs):
    """FreshJudge.tla on the recordings; obs: list of (name, recording)"""
    p = os.path.join(chk.tmp, "obs")
    with open(p, "w") as f:
        for _, o in obs:
            f.write(json.dumps(o, separators=(",", ":")) + "\n")
    tags, st = tlc(chk, "FreshJudge", "FreshJudge.cfg", env2={"OBS": p})
    want = sum(len(o["vals"]) + 1 if o["form"] == "seq" else max(len(o["vals"]) - 1, 0) + 1 for _, o in obs) + 1
    if st["rc"] != 0 or "No error has been found" not in st["text"] or st.get("states") != want:
        raise ToolError("FreshJudge (%s states of %d): %s" % (st.get("states"), want, st["text"][-2000:]))
    chk.add("states", st["states"])
    chk.add("transitions", st["transitions"])
    for b in tags.get("BAD", []):
        name, o = obs[b["line"] - 1]
        if o["form"] == "seq":
            v = o["vals"][b["at"] - 1]["s"] if b["what"] == "used before" else "byte %d" % (b["at"] - 1)
            chk.violation("%s: %s %s" % (name, v, b["what"]), {"bin": "kex", "observed": v, "name": name})
        else:
            chk.violation("%s: only %d %s, of %d" % (name, b["at"], b["what"], o["need"]), {"bin": "kex", "name": name, "observed": o["vals"][:4]})


def seq(vals, vary=True):
    return {"form": "seq", "vary": vary, "vals": [{"s": v, "b": list(bytes.fromhex(v))} for v in vals]}


def fresh(name, vals):
    """recordings that together say: no value twice.  Equal values come into
    the same recording, whichever of them they are"""
    n = 1 + len(vals) // 2500
    groups = [[] for _ in range(n)]
    for v in vals:
        groups[int(v[-8:], 16) % n].append(v)
    out = [(name, dict(seq(g), vary=False)) for g in groups if g]
    return out + [(name, seq(vals[:2500]))]


def results(chk, tests):
    res = run_bin(chk, "kex", tests)
    died = res.pop("died", None)
    if died:
        chk.violation("process died: %s" % died["out"][-300:], {"tests": [tests[i] for i in died["missing"]]})
    out = []
    for i, t in enumerate(tests):
        r = res.get(i)
        if r is None:
            continue
        if r.get("hang") or "fatal" in r:
            chk.violation("%s: %s" % (t["kind"], "does not end" if r.get("hang") else "panic: " + r["fatal"]), {"bin": "kex", "test": t})
            continue
        out.append((t, r))
    return out


def prefixes(rng, extra=0):
    le = lambda v, n=32: list(v.to_bytes(n, "little"))
    be = lambda v, n=32: list(v.to_bytes(n, "big"))
    out = [[0] * 32, be(1), le(1), be(N), le(N), be(N - 1), le(N - 1), be(N + 1), le(N + 1), be(P - 1), le(P - 1), be(P), le(P), [255] * 32,
           [0x55] * 32, [0xaa] * 32, [0] * 32 + be(N), le(N) + [0] * 32, [0] * 31 + [128], [128] + [0] * 31, [255] * 64]
    # words of four bytes the other way round
    for v in (N, P - 1):
        b = be(v)
        out.append([b[4 * i + 3 - j] for i in range(8) for j in range(4)])
        b = le(v)
        out.append([b[4 * i + 3 - j] for i in range(8) for j in range(4)])
    out += [list(rng.randbytes(32)) for _ in range(extra)]
    return out


def c22(chk):
    chk.bins = build(["kex"])
    rng = chk.rng
    seed = lambda: rng.randrange(1 << 48)
    tests = [dict(kind="exchange", seed=seed(), count=40, prefix=[]) for _ in range(chk.pick(160, 3000))]
    for p in prefixes(rng, chk.pick(20, 400)):
        tests.append(dict(kind="exchange", seed=seed(), count=2, prefix=p))
    nb = 0
    for p in [[0x55] * 32, [0xaa] * 32, [1] * 64, [0x0f] * 64] + [list(rng.randbytes(64)) for _ in range(chk.pick(2, 40))]:
        tests.append(dict(kind="bits", seed=seed(), prefix=p))
        nb += 1
    obs, rows, want, pubs = [], [], [], []
    for t, r in results(chk, tests):
        if t["kind"] == "exchange":
            chk.add("exchanges", r["n"])
            chk.add("leading_zeros", r["zeros"])
            if r["bad"]:
                chk.violation("system randomness %s: %s" % (bytes(t["prefix"]).hex() or "as it is", r["bad"]), {"bin": "kex", "test": t})
            if not t["prefix"]:
                pubs += r["pubs"]
            for q in r["rows"]:
                rows.append(("mul", int(q["d"], 16), int(q["x"], 16), int(q["y"], 16)))
                want.append(q["pms"])
        else:
            chk.add("randomness_bits_changed", max(0, len(r["keys"]) - 1))
            obs.append(("ephemeral key drawn from %s" % bytes(t["prefix"]).hex(), {"form": "bits", "need": 256, "vals": r["keys"]}))
    if pubs:
        obs += fresh("public values of %d exchanges" % len(pubs), [v[4:] for v in pubs])
    judge(chk, obs)
    # the specification computes what the server has
    some = chk.pick(300, 4000)
    for q, w, a in zip(rows[:some], want, p_curve.oracle(chk, rows[:some])):
        if a[0].to_bytes(32, "big").hex() != w:
            chk.violation("premaster secret %s, P256.qnt has %064x for server key %x and point %x %x" % (w, a[0], q[1], q[2], q[3]), {"bin": "kex", "observed": q})
    p_curve.laws(chk, chk.pick(4, 200))
    for q in rows[:3]:
        chk.sample("server key %x, public value %x %x" % q[1:])
    chk.cov["evaluations"] = chk.cov.get("exchanges", 0) + chk.cov.get("randomness_bits_changed", 0)
    chk.cov["distinct_nontrivial"] = chk.cov["evaluations"]
    chk.cov["rule"] = ("exchanges with server keys at the edges and random ones, each with a fresh ephemeral key (no two alike); exchanges with "
                       "chosen system randomness (zero, the order, the prime, all ones, and around them); each bit of the randomness changed")


def c23(chk):
    chk.bins = build(["kex"])
    rng = chk.rng
    kinds = ["eof", "alert", "badsh", "badpoint", "unsent", "cut", "badfin", "ok", "nowrite"]
    cfg = cfg_file(chk, "fresh.cfg", constraint="PrintTest", invariants=["Fresh"],
                   constants={"Kinds": tla_set(kinds), "MaxLen": chk.pick(3, 4)})
    hs = tlc_ok(chk, "Freshness", cfg).get("TEST", [])
    if chk.quick:
        cfg = cfg_file(chk, "fresh5.cfg", constraint="PrintTest", invariants=["Fresh"],
                       constants={"Kinds": tla_set(["eof", "cut", "ok"]), "MaxLen": 5})
        hs += tlc_ok(chk, "Freshness", cfg).get("TEST", [])
    server = rng.randrange(1 << 48)
    tests = [dict(kind="history", seed=server, kinds=h["kinds"]) for h in hs]
    tests.append(dict(kind="history", seed=server, kinds=["cut"] * chk.pick(300, 3000)))
    tests.append(dict(kind="history", seed=server, kinds=["eof"] * chk.pick(2000, 30000)))
    for p in [[0x55] * 96, [1] * 96] + [list(rng.randbytes(96)) for _ in range(chk.pick(1, 20))]:
        tests.append(dict(kind="hsbits", seed=server, prefix=p))
    rs, ks, obs = [], [], []
    for t, r in results(chk, tests):
        if t["kind"] == "history":
            chk.add("histories")
            chk.add("traces_validated_against_impl")
            for k, o in zip(t["kinds"], r["obs"]):
                chk.add("attempts")
                if o["out"].startswith("PANIC"):
                    chk.violation("attempt %s: %s" % (k, o["out"]), {"bin": "kex", "test": t})
                    continue
                if len(o["r"]) != 64:
                    chk.violation("attempt %s sends no client random" % k, {"bin": "kex", "test": t})
                    continue
                rs.append(o["r"])
                if k in ("cut", "badfin", "ok", "nowrite"):
                    if len(o["k"]) != 128:
                        chk.violation("attempt %s sends no public key (%s)" % (k, o["out"]), {"bin": "kex", "test": t})
                        continue
                    ks.append(o["k"])
        else:
            chk.add("randomness_bits_changed", len(r["obs"]) - 1)
            name = "system randomness %s.." % bytes(t["prefix"]).hex()[:32]
            obs.append((name + ", client random", {"form": "bits", "need": 256, "vals": [o["r"] for o in r["obs"]]}))
            obs.append((name + ", ephemeral key", {"form": "bits", "need": 256, "vals": [o["k"] for o in r["obs"]]}))
    chk.add("client_randoms", len(rs))
    chk.add("public_keys", len(ks))
    obs += fresh("client randoms of %d attempts" % len(rs), rs)
    obs += fresh("public keys of %d attempts" % len(ks), ks)
    judge(chk, obs)
    for h in hs[:: max(1, len(hs) // 4)]:
        chk.sample(" ".join(h["kinds"]))
    chk.cov["evaluations"] = chk.cov["attempts"] + chk.cov["randomness_bits_changed"]
    chk.cov["distinct_nontrivial"] = len(set(rs))
    chk.cov["rule"] = ("every history of three attempts (four in thorough) of nine kinds, successful and failing in every phase, always with the "
                       "same server; all randoms and keys of all histories judged together; each bit of chosen system randomness changed")


CHECKS = {"C22": c22, "C23": c23}
