"""Long random sessions recorded from the real code and validated by TLC as
behaviours of Session.tla (SessionTrace.tla)."""
import json, os
from core import *
import p_session as ps

QUIET = ["al_close_w", "al_close_f", "al_warn", "al_fatal", "ccs_ok", "hello_req", "fin_ok", "unk_4", "over", "hs_empty"]


def plan(rng, n, puts, outs, ends=0.02, attack=0.0, quiet=0.01, big=False):
    """events of one session: puts, reads and outs mixed in runs"""
    ev = lambda op, a=0, b=0, s="": {"op": op, "a": a, "b": b, "s": s}
    sizes = [0, 0, 1, 1, 2, 3, 5, 17, 64, 255, 256, 300, 1000] + ([16383, 16384, 16384, 9000] if big else [])
    reads = [0, 1, 1, 2, 3, 7, 16, 100, 1000, 5000] + ([16384, 16385, 40000, 65535, 65536, 65537, 131072, 200000] if big else [65536])
    writes = [0, 1, 2, 5, 100, 1000] + ([16383, 16384, 16385, 32768, 32769, 50000, 70000] if big else [])
    evs, stop, sopen, nput, nerr, atk = [], False, False, 1, 0, 0
    # alerts, handshake messages of several records and attacks are rare: what
    # follows them is dull
    while len(evs) < n:
        x = rng.random()
        if x < puts and not stop:
            y = rng.random()
            if y < ends:
                k = rng.choice(["eof", "cut", "err", "err", "errmid"])
                if k == "err":
                    if nerr >= 2:
                        continue
                    nerr += 1
                else:
                    stop = True
                evs.append(ev(k, rng.choice([1, 5, 40])))
            elif y < ends + quiet:
                c = [k for k in QUIET if not (sopen and k in ("hello_req", "fin_ok", "unk_4"))] + ["hs_rest" if sopen else "hs_first"] * 4
                k = rng.choice(c)
                sopen = k == "hs_first" or (sopen and k != "hs_rest")
                evs.append(ev("auth", s=k))
                nput += 1
            elif y < ends + quiet + attack:
                k = rng.choice(["forge", "forge", "drop", "swap", "replay", "reflect", "header"])
                if k == "forge":
                    evs.append(ev("forge", rng.choice([0, 1]), s=rng.choice(ps.FORGE)))
                elif k == "drop":
                    evs.append(ev("drop", rng.choice(sizes)))
                    nput += 1
                elif k == "swap":
                    evs.append(ev("swap", rng.choice(sizes[:8]), rng.choice(sizes[:8])))
                    nput += 2
                elif k == "replay":
                    evs.append(ev("replay", rng.choice([nput - 1, max(0, nput - 2), rng.randrange(nput), 0])))
                elif k == "reflect":
                    evs.append(ev("reflect"))
                else:
                    evs.append(ev("auth", s=rng.choice(["unk_type", "len_over"])))
                atk += 1
            else:
                for _ in range(rng.choice([1, 1, 1, 2, 5])):
                    evs.append(ev("send", rng.choice(sizes)))
                    nput += 1
        elif x < puts + outs:
            k = rng.choice(writes)
            f = rng.choice([1, 1, 2, 3]) if rng.random() < ends else 0
            if f > (k + 16383) // 16384:
                f = 0
            if rng.random() < .03:
                evs.append(ev("close", 0))
            else:
                evs.append(ev("write", k, f))
        else:
            k = rng.choice(reads)
            for _ in range(rng.choice([1, 1, 2, 4])):
                evs.append(ev("read", k))
    return evs


def rows(t, r):
    """the recording: what arrived and what the client did, step by step"""
    out, it = [], iter(r["ops"])

    def done(o):
        if o["op"] == "read":
            return {"op": "read", "k": o["k"], "n": o["n"], "match": o.get("match", True), "reads": o["reads"]}
        recs = [{f: x[f] for f in ("t", "ver", "open", "seq", "len", "wire", "head")} for x in o["recs"] if not x["partial"]]
        return {"op": o["op"], "k": o["k"], "n": o.get("n", -1), "err": "err" in o, "hit": o["hit"], "left": o["left"],
                "data_ok": o["data_ok"], "prefix_ok": o["prefix_ok"], "recs": recs}
    for e in t["evs"]:
        out.append(done(next(it)) if e["op"] in ("read", "write", "close") else e)
    out += [done(o) for o in r["drain"]]
    out.append({"op": "end"})
    return out


def judge(chk, recs, aspects):
    """indices of the recordings the specification does not allow, with the
    step that has no counterpart"""
    p = os.path.join(chk.tmp, "traces")
    cfg = cfg_file(chk, "trace.cfg", spec="TSpec", invariants=["Report", "TPrefix"], constants={
        "Sizes": "{}", "Auths": "{}", "Forges": "{}", "Attacks": tla_set(["drop", "replay", "swap", "reflect", "inject"]), "Headers": "{}",
        "Controls": "{}", "Reads": "{}", "Writes": "{}", "Faults": "{}", "Closes": 1000000, "MaxPut": 1000000, "MaxOps": 1000000,
        "MaxAttack": 1000000, "Aspects": tla_set(aspects)})
    bad = {}
    for at in range(0, len(recs), 2000):
        part = recs[at:at + 2000]
        def go(sel, verbose):
            with open(p, "w") as f:
                for r in sel:
                    f.write(json.dumps(r, separators=(",", ":")) + "\n")
            return tlc_ok(chk, "SessionTrace", cfg, workers=CPUS, env2={"TRACES": p, "VERBOSE": verbose}, java="-Xss64m")
        done = set(go(part, "0").get("DONE", []))
        left = [i for i in range(len(part)) if i + 1 not in done]
        if left:
            tags = go([part[i] for i in left[:20]], "1").get("AT", [])
            for j, i in enumerate(left[:20]):
                bad[at + i] = max([x[1] for x in tags if x[0] == j + 1] or [1])
    return bad


def record(chk, aspects, mixes, count):
    """count sessions of each mix, run and validated"""
    tests = []
    for m in mixes:
        for _ in range(count):
            n = chk.rng.choice([20, 40, 80] + chk.pick([], [200]))
            evs = plan(chk.rng, n, **m)
            prm = ps.modes(chk)
            if m.get("big"):
                prm.update(rp=chk.rng.choice([0, 0, 900]), wp=chk.rng.choice([0, 0, 900]))
            tests.append(dict(prm, seed=chk.rng.randrange(1 << 48), evs=evs))
    res = run_bin(chk, "session", tests)
    died = res.pop("died", None)
    if died:
        chk.violation("process died: %s" % died["out"][-300:], {"tests": [tests[i] for i in died["missing"]]})
    recs, idx = [], []
    for i, t in enumerate(tests):
        r = res.get(i)
        if r is None:
            continue
        if "fatal" in r or r.get("hang") or "connect" in r:
            chk.violation("session: %s" % (r.get("fatal") or r.get("connect") or "hang"), {"bin": "session", "test": t, "observed": r})
            continue
        pan = [o for o in r["ops"] + r["drain"] if "panic" in o]
        if pan:
            chk.violation("session: panic: %s" % pan[0]["panic"], {"bin": "session", "test": t, "observed": r})
            continue
        recs.append(rows(t, r))
        idx.append(i)
    steps = sum(map(len, recs))
    for j, at in judge(chk, recs, aspects).items():
        step = recs[j][at - 1] if at <= len(recs[j]) else {}
        before = " ".join(brief(s) for s in recs[j][max(0, at - 12):at - 1])
        chk.violation("recorded session, step %d: %s is not allowed by the specification (before: %s)" % (at, brief(step), before),
                      {"bin": "session", "test": tests[idx[j]], "observed": recs[j]})
    chk.add("recorded_steps_validated", steps)
    chk.add("traces_validated_against_impl", len(recs))
    for r in recs[:: max(1, len(recs) // 2)]:
        chk.sample("recording: " + " ".join(brief(s) for s in r[:14]) + " ... (%d steps)" % len(r))


def brief(s):
    if s.get("op") == "read":
        return "read(%d)=%d" % (s["k"], s["n"])
    if s.get("op") in ("write", "close"):
        return "%s(%d)=%s" % (s["op"], s["k"], "err" if s["err"] else [x["len"] for x in s["recs"]])
    return s.get("op", "?") + (":" + s["s"] if s.get("s") else "(%d)" % s["a"] if s.get("a") else "")


CHECKS = {}
