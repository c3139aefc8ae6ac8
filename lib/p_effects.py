"""C29: nothing but the transport (Effects.tla, EffectsJudge.tla), along
behaviours of Handshake.tla, Session.tla and Robust.tla."""
import json, os
from core import *
import p_hs as ph, p_session as ps, p_io as pi

FAILED = ["IoFailure", "UnexpectedMessage", "BadRecordMac", "RecordOverflow", "IllegalParameter", "DecodeError", "DecryptError",
          "InternalError", "AlertReceived"]
CAME = ["data", "nothing", "readfails", "written", "writefails", "closed", "closefails", "flushed", "flushfails"]
SINKS = ["terminal", "file", "network", "environment", "process", "sleep"]


def lives(chk):
    """checks the specification: what is not Confined is told"""
    want = {(s, a, g) for s in SINKS for a in FAILED + CAME + ["connected", "dropped"] for g in (False, True) if not g or a in CAME}
    cfg = cfg_file(chk, "effects.cfg", constraint="PrintTest", invariants=["Confined"], constants={"Calls": 2, "Rogue": "TRUE"})
    tags = tlc_ok(chk, "Effects", cfg)
    told = {(x["sink"], x["at"], x["again"]) for x in tags.get("TOLD", [])}
    if want - told:
        raise ToolError("Effects.tla: not told: %s" % sorted(want - told)[:3])
    return {(t[i - 1], t[i]) for t in tags["TEST"] for i in range(1, len(t))}


def said(kind, r):
    """the situations of a recording, repetitions once; None: not a life"""
    if kind == "hs":
        s = ["connected"] if r.get("res") == "ok" else [r["res"]] if r.get("res") in FAILED else []
        if s == ["connected"] and r.get("app") == "ok":
            s += ["data", "written"]
    elif kind == "session":
        s = ["connected"] if "ops" in r else []
        for o in r.get("ops", []) + r.get("drain", []):
            if "panic" in o:
                break
            ok = "err" not in o
            s.append({"read": ("data" if o.get("n", 0) > 0 else "nothing") if ok else "readfails",
                      "write": "written" if ok else "writefails", "close": "closed" if ok else "closefails"}[o["op"]])
    else:
        s = []
        for c in r.get("calls", []):
            v = c["v"]
            if c["r"] == "PANIC":
                break
            if c["call"] == "connect":
                s.append("connected" if v == "ok" else v)
            elif c["call"].startswith("read"):
                s.append("readfails" if v.startswith("Err") else "nothing" if v == "Ok(0)" else "data")
            elif c["call"] in ("write", "writebig"):
                s.append("writefails" if v.startswith("Err") else "written")
            elif c["call"] == "close":
                s.append("closed" if v == "Ok" else "closefails")
            elif c["call"] == "flush":
                s.append("flushfails" if v.startswith("Err") else "flushed")
    if not s:
        return None
    return [x for i, x in enumerate(s) if i == 0 or s[i - 1] != x] + ["dropped"]


def describe(kind, t):
    if kind == "hs":
        return ph.describe(t["model"])
    if kind == "session":
        return ps.describe(t["model"])
    return pi.robdescribe(t)


def families(chk):
    rng = chk.rng
    out = []
    add = lambda kind, ts: out.extend((kind, t) for t in ts)
    # every message and record variant in every state, failing transports
    hm = ph.model(chk, "fxhs", ph.ALLMSG, False, 1, ph.OTHERS, ["good"] + ph.BADPROT)
    for _ in range(chk.pick(1, 5)):
        add("hs", [ph.concrete(t, ph.seeds(chk), app=1, rp=rng.choice([0, 1, 2]), wp=rng.choice([0, 1, 2])) for t in hm])
    split = ph.model(chk, "fxparts", ph.GOODFLIGHT + ["unk_4", "hello_req"], True, 1, ph.OTHERS[:8] + ["eof", "app"], ["good", "badtag"])
    add("hs", [ph.concrete(t, ph.seeds(chk), cut=rng.choice([-1, 1, 2, 3, -2, -3])) for t in split])
    faults = ph.model(chk, "fxfaults", ph.GOODFLIGHT + ["fin_flip", "ske_pt_off"], False, 1, ["ccs_ok", "al_fatal"], ["good", "badtag"], wfaults=(1, 2, 3, 4, 5))
    add("hs", [ph.concrete(t, ph.seeds(chk), app=1) for t in faults])
    # every kind of handshake message and alert there may be
    has = lambda h: any(p["m"].startswith("unk_") for p in h["ev"]["pieces"])
    unk = [t for t in hm if has(t["hist"][-1])]
    al = [t for t in hm if any(h["ev"]["op"] in ("al_warn", "al_fatal") for h in t["hist"])]
    for i in range(256):
        add("hs", [ph.concrete(t, ph.seeds(chk), unk=i) for t in rng.sample(unk, min(len(unk), chk.pick(2, 8)))])
        add("hs", [ph.concrete(t, ph.seeds(chk), al=i) for t in rng.sample(al, min(len(al), chk.pick(2, 8)))])
    # flights of every shape
    for a in ph.SH_GOOD:
        for b in ph.CERT_GOOD:
            for c in ph.SKE_GOOD:
                add("hs", [ph.concrete(ph.flight(a, b, c), ph.seeds(chk), app=1, **({"frag": rng.choice([7, 63])} if rng.random() < .3 else {}))])
    # sessions
    sm = ps.model(chk, "fxends", sizes=[0, 3], auths=ps.AUTH_END + ps.HS_PARTS, forges=ps.FORGE, headers=["unk_type", "len_over"],
                  controls=["eof", "cut", "err", "errmid"], reads=[2], writes=[1], closes=1, put=2, ops=1)
    wm = ps.model(chk, "fxwrites", sizes=[3], auths=["al_close_w"], reads=[2], writes=[0, 1, 16385], faults=[0, 1, 2], closes=2, put=1, ops=3)
    bm = ps.model(chk, "fxbig", sizes=[0, 1, 16384], reads=[1, 16384, 40000, 131073], writes=[16384, 70000], put=2, ops=3)
    for m, n in ((sm, chk.pick(2500, 25000)), (wm, chk.pick(1200, 9000)), (bm, chk.pick(600, 5000))):
        add("session", [ps.concrete(chk, t, **ps.modes(chk)) for t in ps.thin(chk, m, n)])
    # servers that send anything, and what is called then
    up = pi.rmodel(chk, "fxcalls", pi.JUNKS, pi.ROPS, 1, 0, 2, 6)
    up = [t for t in pi.uniq(t for t in up if t["ops"] and t["plan"]) if not any(i["s"] in ("empties", "manyapp") for i in t["plan"])]
    add("robust", [dict(plan=t["plan"], ops=t["ops"], evs=pi.rplan(chk, t), seed=rng.randrange(1 << 48), rp=rng.choice([0, 2]), ri=rng.choice([0, 1]))
                   for t in ps.thin(chk, up, chk.pick(1500, 15000))])
    return out


def c29(chk):
    chk.bins = build(["quiet"])
    steps = lives(chk)
    log_ = os.path.join(chk.tmp, "none", "log")
    env = {k: log_ for k in ("SSLKEYLOGFILE", "HUSK_LOG", "HUSK_DEBUG", "RUST_LOG")}
    r = run_bin(chk, "quiet", [{"kind": "sees"}], env=env)
    sees = [set(x) for x in r[0]["sees"]]
    for k, (x, y) in enumerate(zip(sees, [None, "terminal", "terminal", "file", "environment", "network", "process", "sleep", "process", None])):
        if x if y is None else y not in x:
            raise ToolError("quiet: case %d: sees %s where there is %s" % (k, sorted(x), y))
    fam = families(chk)
    chk.rng.shuffle(fam)
    tests = [{"kind": k, "t": {x: y for x, y in t.items() if x != "model"}} for k, t in fam]
    res = run_bin(chk, "quiet", tests, env=env)
    died = res.pop("died", None)
    if died:
        chk.violation("the process of the application ended: %s" % died["out"][-300:], {"tests": [tests[i] for i in died["missing"]]})
    # equal recordings are judged once
    kinds = {}
    for i, (k, t) in enumerate(fam):
        r = res.get(i)
        if r is None or "r" not in r:
            continue
        s = said(k, r["r"])
        if s is None:
            chk.add("recordings_without_result")
            s = ["InternalError", "dropped"]
        kinds.setdefault((tuple(s), tuple(sorted({f[0] for f in r["fx"]}))), []).append(i)
    obs = os.path.join(chk.tmp, "effects.obs")
    keys = sorted(kinds)
    with open(obs, "w") as f:
        for s, fx in keys:
            f.write(json.dumps({"said": list(s), "fx": list(fx)}) + "\n")
    tags = tlc_ok(chk, "EffectsJudge", cfg_file(chk, "effectsjudge.cfg"), env2={"OBS": obs})
    seen = {tuple(p) for ps_ in tags.get("PAIRS", []) for p in ps_}
    for b in tags.get("BAD", []):
        s, fx = keys[b["n"] - 1]
        i = kinds[s, fx][0]
        if b["what"] == "not a life":
            raise ToolError("quiet: %s is not a life" % (s,))
        chk.violation("[%s] %s -- %s: %s" % (fam[i][0], describe(*fam[i]), b["what"], "; ".join("%s (%s)" % tuple(f) for f in res[i]["fx"][:3])),
                      {"bin": "quiet", "test": tests[i], "observed": res[i]})
    chk.add("lives", len(keys))
    chk.add("steps_of_the_specification_taken", len(seen & steps))
    chk.add("traces_validated_against_impl", sum(map(len, kinds.values())))
    for i in range(0, len(fam), max(1, len(fam) // 5)):
        chk.sample("%s: %s => %s" % (fam[i][0], describe(*fam[i]), (said(fam[i][0], res.get(i, {}).get("r", {})) or [])[:5]))


CHECKS = {"C29": c29}
