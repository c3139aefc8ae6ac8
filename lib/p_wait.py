"""C27: no call waits for what need not come (Waiting.tla); recordings of the
real client on a transport that blocks, validated by WaitingTrace.tla."""
import json, os
from core import *
import p_hs as ph, p_session as ps

MODES = ["held", "late", "fill", "peek", "after", "drain"]
CUTS = [1, 2, 3, 4, 5, 6]
PIECE = lambda m, part="all": {"m": m, "part": part, "tam": "same"}
HS = lambda *p: {"op": "hs", "prot": "plain", "rx": False, "pieces": list(p)}


def model(chk, name, layouts=("one",), bad=(0,), sizes=(), put=0, ends=False, reads=(), others=(), ops=1, cuts=(), odd=0, join=1, modes=("prompt",)):
    cfg = cfg_file(chk, "wait-%s.cfg" % name, constraint="PrintTest", invariants=["NoStuck"], constants={
        "Modes": tla_set(modes), "Layouts": tla_set(layouts), "Bad": tla_set(bad), "Sizes": tla_set(sizes), "MaxPut": put,
        "Ends": str(ends).upper(), "Reads": tla_set(reads), "Others": tla_set(others), "MaxOps": ops, "Cuts": tla_set(cuts),
        "MaxOdd": odd, "Join": join})
    tags = tlc_ok(chk, "Waiting", cfg)
    for m in modes:
        if m != "prompt" and m not in [x["mode"] for x in tags.get("TOLD", [])]:
            raise ToolError("Waiting.tla: a client of the kind %s is not told apart" % m)
    return tags.get("TEST", [])


def live(chk):
    """every call of the client ends, against a peer that says what it has to"""
    cfg = cfg_file(chk, "wait-live.cfg", spec="FairSpec", invariants=["NoStuck"], properties=["Ends_"], constants={
        "Modes": tla_set(["prompt"]), "Layouts": tla_set(["one", "pairs"]), "Bad": tla_set([0, 1, 2, 3]), "Sizes": tla_set([0, 3]), "MaxPut": 1,
        "Ends": "TRUE", "Reads": tla_set([5]), "Others": tla_set(["write"]), "MaxOps": 1, "Cuts": tla_set([1, 5]), "MaxOdd": 1, "Join": 2})
    tlc_ok(chk, "Waiting", cfg)


def events(chk, t):
    """the script as the harness sends it"""
    rng = chk.rng
    sh, cert, ske, shd = rng.choice(ph.SH_GOOD), rng.choice(ph.CERT_GOOD), rng.choice(ph.SKE_GOOD), "shd_ok"
    lay, prm = t["lay"], {}
    ccs = {"op": "ccs_ok", "prot": "plain", "rx": False, "pieces": []}
    fin = lambda part: {"op": "hs", "prot": "good", "rx": True, "pieces": [PIECE("fin_ok", part)]}
    if lay == "each":
        first = [HS(PIECE(m)) for m in (sh, cert, ske, shd)]
    elif lay == "pairs":
        first = [HS(PIECE(sh), PIECE(cert)), HS(PIECE(ske), PIECE(shd))]
    elif lay == "split":
        m = rng.choice([sh, cert, ske])
        if m == sh:
            first = [HS(PIECE(sh, "first")), HS(PIECE(sh, "rest"), PIECE(cert)), HS(PIECE(ske), PIECE(shd))]
        elif m == cert:
            first = [HS(PIECE(sh), PIECE(cert, "first")), HS(PIECE(cert, "rest")), HS(PIECE(ske), PIECE(shd))]
        else:
            first = [HS(PIECE(sh), PIECE(cert)), HS(PIECE(ske, "first")), HS(PIECE(ske, "rest"), PIECE(shd))]
        prm["cut"] = rng.choice([-1, 1, 2, 3, 4, -2, -3])
    else:
        first = [HS(PIECE(sh), PIECE(cert), PIECE(ske), PIECE(shd))]
        if lay == "tiny":
            prm["frag"] = rng.choice([1, 3, 40])
    evs = first + [ccs] + ([fin("first"), fin("rest")] if lay == "split" else [fin("all")])
    if t["bad"]:
        i = t["bad"] - 1
        if i < len(first):
            ops = ["al_fatal", "al_warn", "al_close_w", "al_empty", "al_one", "al_desc", "unk_type", "app", "ccs_ok", "ccs_2", "hs_empty", "over", "len_over"]
            hs = ["fin_ok", "hello_req", "unk_4", "shd_trail"] if i == 0 else ["hello_req", "unk_4", "sh_ok" if sh != "sh_ok" else "fin_ok"]
            x = rng.choice([dict(ccs, op=rng.choice(ops)), HS(PIECE(rng.choice(hs)))])
            if lay == "split" and any(p["part"] == "first" for e in evs[:i] for p in e["pieces"]) and "rest" in [p["part"] for p in evs[i]["pieces"]] and x["op"] == "hs":
                x = dict(ccs, op="al_fatal")
        elif i == len(first):
            x = rng.choice([dict(ccs, op=rng.choice(["al_fatal", "al_warn", "unk_type", "app", "ccs_0", "ccs_long", "over", "len_over"])), HS(PIECE(rng.choice(["hello_req", "shd_ok"])))])
        else:
            x = dict(ccs, op=rng.choice(["al_fatal", "al_warn", "app", "app_empty", "ccs_ok", "unk_type", "hs_empty"]), rx=True, prot="good")
            y = dict(fin("all"), prot=rng.choice(["badtag", "badseq", "badkey"]))
            x = rng.choice([x, x, y]) if not any(p["part"] == "first" for p in evs[i - 1]["pieces"]) else x
        return evs[:i] + [x], prm
    for s in t["script"][len(evs):]:
        if s["k"] == "d":
            evs.append({"op": "send", "a": s["n"], "b": 0, "s": "", "prot": "", "rx": False, "pieces": []})
        elif rng.random() < .3:
            evs.append({"op": "forge", "a": 0, "b": 0, "s": rng.choice(["badtag", "badseq", "badkey"])})
        else:
            evs.append({"op": "auth", "a": 0, "b": 0, "s": rng.choice(["al_close_w", "al_close_w", "al_close_f", "al_fatal", "al_warn", "ccs_ok", "hs_empty", "over", "hello_req", "fin_ok", "unk_4"])})
    return evs, prm


def brief(s):
    op = s["op"]
    return {"call": lambda: "%s(%s)" % (s["f"], s["k"] if s["f"] == "read" else ""), "wait": lambda: "waits(seen %d)" % s["seen"],
            "rel": lambda: "<%d.%d>" % (s["e"], s["c"]), "ret": lambda: "=%d%s" % (s["n"], " held" if s["held"] else "")}[op]()


def judge(chk, rows):
    p = os.path.join(chk.tmp, "traces")
    bad = {}
    def go(sel, verbose):
        with open(p, "w") as f:
            for r in sel:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        return tlc_ok(chk, "WaitingTrace", os.path.join(SPEC, "WaitingTrace.cfg"), workers=CPUS, env2={"TRACES": p, "VERBOSE": verbose})
    for at in range(0, len(rows), 20000):
        part = rows[at:at + 20000]
        done = set(go(part, "0").get("DONE", []))
        left = [i for i in range(len(part)) if i + 1 not in done]
        if left:
            tags = go([part[i] for i in left[:20]], "1").get("AT", [])
            for j, i in enumerate(left[:20]):
                bad[at + i] = max([x[1] for x in tags if x[0] == j + 1] or [1])
    return bad


def c27(chk):
    chk.bins = build(["wait"])
    rng = chk.rng
    live(chk)
    model(chk, "told", sizes=[3], put=1, reads=[5], others=["write"], ops=1, join=4, modes=["prompt"] + MODES)
    deep = chk.tier == "thorough"
    groups = [
        (model(chk, "each", ["each", "split"], range(7), join=6), None),
        (model(chk, "cuts", ["one", "pairs", "tiny"] + (["each", "split"] if deep else []), range(7), [3], 1, False, [5], [], 1, CUTS, 1, 3), chk.pick(3000, 20000)),
        (model(chk, "cuts2", ["one"], [0], [], 0, False, [], [], 0, CUTS, 2, 2), chk.pick(300, 4000)),
        (model(chk, "calls", ["one"], [0], [0, 1, 3], chk.pick(2, 3), True, [0, 2, 5], ["write", "flush", "close"], chk.pick(2, 3), [], 0, 1), chk.pick(4000, 40000)),
        (model(chk, "mid", ["one"], [0], [3, 16384], 2, True, [5, 20000], ["write"], 2, chk.pick([1, 5], [1, 3, 5, 6]), chk.pick(1, 2), 1), chk.pick(4000, 40000)),
    ]
    tests = []
    for ts, cap in groups:
        if cap and len(ts) > cap:
            ts = rng.sample(ts, cap)
        for t in ts:
            evs, prm = events(chk, t)
            tests.append(dict(prm, seed=ph.seeds(chk), evs=evs, steps=t["steps"], script=t["script"], buf=rng.choice([0, 1]),
                              rp=rng.choice([0, 0, 0, 1, 2]), wp=rng.choice([0, 0, 1, 2])))
    res = run_bin(chk, "wait", [{k: v for k, v in t.items() if k != "script"} for t in tests])
    died = res.pop("died", None)
    if died:
        chk.violation("process died: %s" % died["out"][-300:], {"bin": "wait", "tests": [tests[i] for i in died["missing"]]})
    rows, idx = [], []
    for i, t in enumerate(tests):
        r = res.get(i)
        if r is None:
            continue
        if "fatal" in r or r.get("hang") or "panic" in r:
            chk.violation("%s" % (r.get("fatal") or r.get("panic") or "hang"), {"bin": "wait", "test": t, "observed": r})
            continue
        chk.add("waits", sum(s["op"] == "wait" for s in r["steps"]))
        rows.append({"script": t["script"], "steps": [{k: v for k, v in s.items() if k != "why"} for s in r["steps"]]})
        idx.append(i)
    for j, at in judge(chk, rows).items():
        st = rows[j]["steps"]
        t = tests[idx[j]]
        step = brief(st[at - 1]) if at <= len(st) else "?"
        chk.violation("step %d: %s is not allowed after %s (server: %s)" % (
            at, step, " ".join(map(brief, st[max(0, at - 12):at - 1])), " ".join(s["k"] + (str(s["n"]) if s["k"] == "d" else "") for s in t["script"])),
            {"bin": "wait", "test": t, "observed": res[idx[j]]})
    stuck = [i for j, i in enumerate(idx) if res[i].get("stuck")]
    if stuck and not chk.violations:
        raise ToolError("wait: nothing comes where the specification lets the client wait: %r" % res[stuck[0]])
    chk.add("traces_validated_against_impl", len(rows))
    chk.add("recorded_steps_validated", sum(len(r["steps"]) for r in rows))
    for r in rows[:: max(1, len(rows) // 4)]:
        chk.sample(" ".join(map(brief, r["steps"])))


CHECKS = {"C27": c27}
