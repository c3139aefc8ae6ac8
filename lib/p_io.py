"""C13 and C12: transports that cut, interrupt, end and fail; servers that send anything."""
import json
from core import *
import p_hs as ph
import p_session as ps
from p_record import judge


def tmodel(chk, name, sizes, recs, pieces, ends, steps):
    cfg = cfg_file(chk, name + ".cfg", view="View", constraint="PrintTest", invariants=["Invisible"], constants={
        "Sizes": tla_set(sizes), "MaxRecs": recs, "Pieces": tla_set(pieces), "Ends": tla_set(ends), "MaxSteps": steps})
    return tlc_ok(chk, "Transport", cfg).get("TEST", [])


def tdescribe(t):
    return "%s %s, records of %s: %s" % (t["kind"], t["via"], t["recs"], " ".join("%s%s" % (h["op"], "(%d)" % h["n"] if h["op"] == "piece" else "") for h in t["hist"]))


def tcompare(t, r):
    if "fatal" in r or r.get("hang"):
        return [("panic", "hang" if r.get("hang") else "panic: " + r["fatal"])]
    if "connect" in r:
        return [("connect", "no connection: " + r["connect"])]
    out = []
    extra = 0 if t["via"] == "plain" else 16
    whole = t["done"]
    if t["kind"] == "in":
        if r["last"].startswith("PANIC"):
            return [("panic", r["last"])]
        want = sum(n - extra for n in t["recs"][:whole])
        if r["got"] > want:
            out.append(("io", "%d bytes delivered, %d belong to complete records" % (r["got"], want)))
        elif r["got"] < want:
            out.append(("io", "%d of %d bytes of complete records delivered" % (r["got"], want)))
        if not r["right"]:
            out.append(("io", "wrong bytes delivered"))
        if t["via"] != "client":
            if r["done"] != whole:
                out.append(("io", "%d records delivered, %d are complete" % (r["done"], whole)))
            if r["last"] != "IoFailure":
                out.append(("io", "then %s" % r["last"]))
    else:
        fails = t["end"] != "no" and whole < len(t["recs"])
        exp = ["ok"] * whole + (["err"] if fails else [])
        got = [x.split(" ")[0] for x in r["res"]]
        if any(x == "PANIC" for x in got):
            return [("panic", r["res"][-1])]
        if got != exp:
            out.append(("io", "writes returned %s, specification says %s" % (r["res"], exp)))
        if r["bytes"] != t["pos"] or r["whole"] != whole or not r["right"]:
            out.append(("io", "%d bytes, %d records on the transport, specification says %d and %d; right: %s" % (
                r["bytes"], r["whole"], t["pos"], whole, r["right"])))
    return out


def c13(chk):
    chk.bins = build(["hs", "record", "session", "tcp"])
    # --- record by record, every cut, interruption and end
    tests = []
    def add(ts, kinds, n):
        for t in ps.thin(chk, ts, n):
            for kind, via in kinds:
                tests.append(dict(t, kind=kind, via=via, seed=chk.rng.randrange(1 << 48)))
    plain = tmodel(chk, "plain", [1, 2], 2, [1, 2, 3, 4, 5, 99], ["eof", "err"], chk.pick(4, 5))
    add(plain, [("in", "plain"), ("out", "plain")], chk.pick(4000, 40000))
    add(tmodel(chk, "empty", [0, 1], 3, [1, 2, 5, 6, 99], ["eof", "err"], chk.pick(4, 5)), [("in", "plain")], chk.pick(1500, 20000))
    sec = tmodel(chk, "sec", [17, 18], 2, [1, 4, 5, 16, 17, 21, 22, 99], ["eof", "err"], chk.pick(3, 4))
    add(sec, [("in", "secure"), ("out", "secure")], chk.pick(3000, 30000))
    add(sec, [("in", "client"), ("out", "client")], chk.pick(900, 12000))
    judge(chk, tests, tcompare, tdescribe, {"io"})
    # --- the handshake, cut at every byte of either direction
    handshake_cuts(chk)
    # --- the handshake, writes failing in every record
    hm = ph.model(chk, "wf", ph.GOODFLIGHT + ["sh_cs_0000", "sh_trunc", "ske_pt_off", "fin_flip", "unk_4"], False, 1,
                  ["ccs_ok", "app", "eof", "eof_mid", "ioerr", "al_fatal"], ["good", "badtag"], wfaults=[0, 1, 2, 3, 4, 5])
    ht = []
    for t in hm:
        for _ in range(chk.pick(2, 8)):
            ht.append(ph.concrete(t, ph.seeds(chk), woff=chk.rng.choice([0, 1, 2, 4, 5, 6, 15, -1]), wkind=chk.rng.randrange(6),
                                  wrec=chk.rng.randrange(2), rp=chk.rng.choice([0, 1, 2]), wp=chk.rng.choice([0, 1, 2]),
                                  ri=chk.rng.randrange(2), wi=chk.rng.randrange(2)))
    run_wf(chk, ht)
    # --- an established connection
    ss = ps.model(chk, "ends", sizes=[0, 3], auths=["al_close_w", "hs_first"], controls=["eof", "cut", "err", "errmid"], reads=[2, 5],
                  put=3, ops=2)
    ss += ps.model(chk, "wfaults", sizes=[3], controls=["eof"], reads=[2], writes=[0, 2, 16385, 40000], faults=[0, 1, 2, 3], closes=1, put=1,
                   ops=chk.pick(2, 3))
    st = [ps.concrete(chk, t, **dict(ps.modes(chk), ri=1, wi=1)) for t in ps.thin(chk, ss, chk.pick(3500, 40000))]
    ps.run(chk, st, {"data", "zero", "fault", "frame"})
    import p_trace
    p_trace.record(chk, ["data", "zero", "fault", "frame"], [dict(puts=.4, outs=.15, ends=.08), dict(puts=.3, outs=.4, ends=.05, big=True)], chk.pick(150, 3000))


def run_wf(chk, tests):
    """an alert whose write fails: the attempt fails, under either error"""
    slim = [{k: v for k, v in t.items() if k != "model"} for t in tests]
    res = run_bin(chk, "hs", slim)
    died = res.pop("died", None)
    if died:
        chk.violation("process died: %s" % died["out"][-300:], {"tests": [slim[i] for i in died["missing"]]})
    for i, t in enumerate(tests):
        r = res.get(i)
        if r is None:
            continue
        m = t["model"]
        errs = ph.compare(m, r)
        if m["wf"]:
            n = sum(len(h["out"]) for h in m["hist"])
            # which record fails: one of the flight, or the alert after it
            failed_alert = r["res"] not in ("ok", "PANIC") and m["hist"][-1]["res"] == "IoFailure"
            if failed_alert:
                errs = [e for e in errs if e[0] not in ("class", "alert", "io")]
        for asp, text in errs:
            if asp in ("result", "io", "records", "panic"):
                chk.violation("[%s] %s -- %s" % (asp, ph.describe(m), text), {"bin": "hs", "test": slim[i], "observed": r, "expected": m["hist"]})
    chk.add("traces_validated_against_impl", len(tests))


def handshake_cuts(chk):
    flights = [dict(ph.concrete(ph.flight(), 0)), dict(ph.concrete(ph.flight(), 0), frag=chk.pick(9, 4))]
    if not chk.quick:
        flights += [dict(ph.concrete(ph.flight("sh_noext", "cert_chain", "ske_siglong"), 0)), dict(ph.concrete(ph.flight("sh_ok", "cert_none", "ske_lead0"), 0), frag=1)]
    seeds = [chk.rng.randrange(1 << 48) for _ in flights]
    probe = [dict(f, seed=s) for f, s in zip(flights, seeds)]
    for f in probe:
        f.pop("model")
    base = run_bin(chk, "hs", [dict(p) for p in probe])
    tests, meta = [], []
    for i, p in enumerate(probe):
        b = base[i]
        if b.get("res") != "ok":
            chk.violation("[result] handshake of a conforming server: %s" % b.get("res", b), {"bin": "hs", "test": p, "observed": b})
            continue
        for d, total in (("rsched", b["rbytes"]), ("wsched", b["wbytes"])):
            for off in range(total):
                for what in ([-1, 0, -2] if i == 0 or not chk.quick else [chk.rng.choice([-1, 0, -2])]) + ([-3] if d == "wsched" else []):
                    pre = [off] if off else []
                    tests.append(dict(p, **{d: pre + [what]}))
                    meta.append((d, off, what))
    # random schedules of many pieces and interruptions
    for _ in range(chk.pick(300, 3000)):
        i = chk.rng.randrange(len(probe))
        sch = lambda: [chk.rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 30]) for _ in range(chk.rng.randrange(200))]
        tests.append(dict(probe[i], rsched=sch(), wsched=sch(), app=1))
        meta.append(("both", 0, 0))
    res = run_bin(chk, "hs", tests)
    died = res.pop("died", None)
    if died:
        chk.violation("process died: %s" % died["out"][-300:], {"tests": [tests[i] for i in died["missing"]]})
    names = {-1: "ends", -2: "fails", -3: "reports a failure of what it delivered", 0: "is interrupted"}
    order = ["ch", "cke", "ccs", "fin"]
    for i, (d, off, what) in enumerate(meta):
        r = res.get(i)
        if r is None:
            continue
        exp = "ok" if what == 0 else "IoFailure"
        text = {"rsched": "transport of the server's flight", "wsched": "transport of the client's output", "both": "transport"}[d] \
            + " %s at byte %d" % (names[what], off)
        got = [x["t"] for x in r.get("recs", [])]
        bad = None
        if r.get("hang") or r.get("res") == "PANIC" or "fatal" in r:
            bad = "panic or hang: %s" % r.get("msg", r.get("fatal", "hang"))
        elif r["res"] != exp:
            bad = "result %s, specification says %s" % (r["res"], exp)
        elif got != order[:len(got)] and not (d == "wsched" and "alert" not in got):
            bad = "client wrote %s" % got
        elif what == 0 and got != order:
            bad = "client wrote %s" % got
        elif r.get("app", "ok") != "ok":
            bad = "after the handshake: " + r["app"]
        if bad:
            chk.violation("[io] %s -- %s" % (text, bad), {"bin": "hs", "test": tests[i], "observed": r})
    chk.add("byte_positions_swept", len(meta))
    chk.add("traces_validated_against_impl", len(meta))
    import p_tcp
    p_tcp.tcp(chk, {"connect", "write", "data", "end"}, chk.pick(4, 20), chk.pick(60, 600), chk.pick(8, 80))


CHECKS = {"C13": c13}


# --------------------------------------------------------------------- C12
JUNKS = ["raw", "rawrec", "rec", "oversize", "hsrand", "hslen", "ske", "fragments", "empties", "manyapp", "warnings", "hreqs"]
ROPS = ["read0", "read1", "readbig", "write", "writebig", "flush", "close"]
FLIGHTMSG = {"sh": "sh_ok", "cert": "cert_one", "ske": "ske_ok", "shd": "shd_ok", "fin": "fin_ok"}


def rplan(chk, t):
    evs, rx, noise = [], False, 0
    for it in t["plan"]:
        if it["k"] == "junk":
            evs.append({"op": "junk", "s": it["s"], "rx": rx})
            continue
        m = it["s"]
        if m == "ccs":
            evs.append({"op": "ccs_ok", "pieces": [], "prot": "plain", "rx": False})
            rx = True
            continue
        v = FLIGHTMSG[m]
        if it["k"] == "good":
            v = chk.rng.choice({"sh": ph.SH_GOOD, "cert": ph.CERT_GOOD, "ske": ph.SKE_GOOD}.get(m, [v]))
        evs.append({"op": "hs", "pieces": [{"m": v, "part": "all", "tam": "same" if it["k"] == "good" else "mut"}],
                    "prot": "good" if rx else "plain", "rx": rx})
    return evs


def rmodel(chk, name, junks, ops, mj, mm, mo, frm=0):
    cfg = cfg_file(chk, name + ".cfg", view="View", constraint="PrintTest", properties=["Returns"], constants={
        "Junks": tla_set(junks), "Ops": tla_set(ops), "MaxJunk": mj, "From": frm, "MaxMut": mm, "MaxOps": mo})
    return tlc_ok(chk, "Robust", cfg).get("TEST", [])


def robdescribe(t):
    return " ".join("%s:%s" % (i["k"], i["s"]) for i in t["plan"]) + " then " + " ".join(t["ops"])


def robcompare(t, r):
    if "fatal" in r or r.get("hang"):
        return [("panic", "hang" if r.get("hang") else "panic: " + r["fatal"])]
    return [("panic", "%s: panic: %s" % (c["call"], c["v"])) for c in r["calls"] if c["r"] == "PANIC"]


def uniq(ts):
    seen, out = set(), []
    for t in ts:
        k = json.dumps(t, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(t)
    return out


def c12(chk):
    chk.bins = build(["robust", "hs", "session", "record"])
    ts = rmodel(chk, "connect", JUNKS, ["read1"], chk.pick(1, 2), 1, 0)
    ts += rmodel(chk, "mutants", [], ["read1"], 0, chk.pick(2, 4), 0)
    up = rmodel(chk, "calls", JUNKS, ROPS, 1, 0, 2, 6)
    if not chk.quick:
        up += rmodel(chk, "calls2", JUNKS, ["read1", "readbig", "write", "close"], 2, 0, 2, 6)
    ts, up = uniq(ts), uniq(t for t in up if t["ops"])
    est = [t for t in up if all(i["k"] == "good" for i in t["plan"][:6])]
    n = chk.pick(7000, 90000)
    pool = [chk.rng.choice(ts) for _ in range(n)] + [chk.rng.choice(est) for _ in range(chk.pick(2500, 30000))] + ps.thin(chk, up, chk.pick(800, 5000))
    pool = [t for t in pool if t["plan"]]
    heavy = [t for t in pool if any(i["s"] in ("empties", "manyapp") for i in t["plan"])]
    light = [t for t in pool if not any(i["s"] in ("empties", "manyapp") for i in t["plan"])]
    tests = []
    for t in light + ps.thin(chk, heavy, chk.pick(300, 3000)):
        tests.append(dict(plan=t["plan"], ops=t["ops"], evs=rplan(chk, t), seed=chk.rng.randrange(1 << 48),
                          rp=chk.rng.choice([0, 0, 0, 2]), ri=chk.rng.choice([0, 0, 1])))
    # very many records, or interrupted calls, for one message or call
    deep = uniq(rmodel(chk, "deep", ["deepapp", "deephs"], ["read1", "readbig"], 1, 0, 1))
    for t in ps.thin(chk, deep, chk.pick(40, 400)):
        tests.append(dict(plan=t["plan"], ops=t["ops"], evs=rplan(chk, t), seed=chk.rng.randrange(1 << 48), rp=0, ri=0))
    for t in ps.thin(chk, est, chk.pick(60, 600)):
        tests.append(dict(plan=t["plan"], ops=t["ops"], evs=rplan(chk, t), seed=chk.rng.randrange(1 << 48), rp=0, ri=2, wi=2,
                          rs=chk.rng.randrange(80), ws=chk.rng.randrange(6)))
    res = judge(chk, tests, robcompare, robdescribe, {"panic"}, name="robust")
    chk.add("connections_established", sum(1 for r in res.values() if r.get("calls") and r["calls"][0]["v"] == "ok"))
    # every message and record variant of the other models, in every state
    hm = ph.model(chk, "hs", ph.ALLMSG, False, 1, ph.OTHERS, ["good"] + ph.BADPROT)
    ph.run(chk, [ph.concrete(t, ph.seeds(chk), rp=chk.rng.choice([0, 2])) for t in hm for _ in range(chk.pick(1, 5))], {"panic"})
    lies(chk)
    sm = ps.model(chk, "session", sizes=[0, 3], auths=ps.AUTH_END + ps.HS_PARTS, forges=ps.FORGE, headers=["unk_type", "len_over"],
                  controls=["eof", "cut", "err", "errmid"], reads=[2], writes=[1], closes=1, put=2, ops=1)
    ps.run(chk, [ps.concrete(chk, t, **ps.modes(chk)) for t in ps.thin(chk, sm, chk.pick(2500, 30000))], {"panic"})


def lies(chk):
    """every place of a message taken for a number: too small, too big, by a
    little or by much"""
    tests = []
    for m, n in (("sh_allext", 120), ("sh_ok", 100), ("cert_one", 60), ("cert_chain", 60), ("ske_ok", 90), ("shd_ok", 4), ("fin_ok", 16)):
        t = ph.flight(sh=m) if m[:3] == "sh_" else ph.flight(cert=m) if m[:4] == "cert" else ph.flight()
        for at in range(1, n):
            for w, vals in ((1, [0, 1, 2, 3, 0x7f, 0x80, 0xfe, 0xff]), (2, [0, 1, 2, 3, 5, 0x100, 0xfffe, 0xffff]), (3, [0, 1, 2, 3, 0xffffff])):
                if w > 1 and at + w > n:
                    continue
                for v in vals:
                    if chk.quick and chk.rng.random() < .5 and v > 2:
                        continue
                    c = ph.concrete(t, ph.seeds(chk), lie=[at, w, v])
                    c["evs"] = [dict(e, pieces=[dict(p, tam="mut") if p["m"] == m else p for p in e["pieces"]]) for e in c["evs"]]
                    tests.append(c)
    slim = [{k: v for k, v in t.items() if k != "model"} for t in tests]
    res = run_bin(chk, "hs", slim)
    died = res.pop("died", None)
    if died:
        chk.violation("process died: %s" % died["out"][-300:], {"tests": [slim[i] for i in died["missing"]]})
    for i, t in enumerate(slim):
        r = res.get(i)
        if r is not None and (r.get("hang") or r.get("res") == "PANIC" or "fatal" in r):
            chk.violation("[panic] %s, octets %d..%d = %d: %s" % (ph.describe(tests[i]["model"]), t["lie"][0], sum(t["lie"][:2]) - 1, t["lie"][2],
                                                           r.get("msg", r.get("fatal", "hang"))), {"bin": "hs", "test": t, "observed": r})
    chk.add("numbers_replaced", len(tests))
    chk.add("traces_validated_against_impl", len(tests))


CHECKS["C12"] = c12
