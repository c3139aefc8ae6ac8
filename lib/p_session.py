"""C06-C08, C10, C11, C13: behaviours of Session.tla on an established connection."""
import json
from core import *
from p_hs import BADPROT

INV = ["Prefix", "NoReuse"]
PROPS = ["ClosedForGood", "ClosedReads", "ReadSome"]
AUTH_END = ["ccs_ok", "ccs_0", "ccs_2", "ccs_empty", "ccs_long", "al_close_w", "al_close_f", "al_warn", "al_fatal", "al_three",
            "al_empty", "al_one", "al_level", "al_desc", "hs_empty", "over", "hello_req", "client_hello", "cert_one", "sh_ok",
            "fin_ok", "shd_ok", "unk_4", "unk_255", "hreq_trail", "sh_trunc", "fin_short"]
HS_PARTS = ["hs_first", "hs_rest"]
FORGE = [p for p in BADPROT]


def model(chk, name, sizes=(), auths=(), forges=(), attacks=(), headers=(), controls=(), reads=(), writes=(), faults=(0,),
          closes=0, put=3, ops=3, atk=1):
    cfg = cfg_file(chk, name + ".cfg", view="View", constraint="PrintTest", invariants=INV, properties=PROPS, constants={
        "Sizes": tla_set(sizes), "Auths": tla_set(auths), "Forges": tla_set(forges), "Attacks": tla_set(attacks),
        "Headers": tla_set(headers), "Controls": tla_set(controls), "Reads": tla_set(reads), "Writes": tla_set(writes),
        "Faults": tla_set(faults), "Closes": closes, "MaxPut": put, "MaxOps": ops, "MaxAttack": atk})
    return tlc_ok(chk, "Session", cfg).get("TEST", [])


def concrete(chk, t, **prm):
    d = {"seed": chk.rng.randrange(1 << 48), "evs": [h["ev"] for h in t], "model": t}
    d.update(prm)
    return d


def describe(t):
    s = []
    for h in t:
        e = h["ev"]
        x = e["op"]
        if x in ("auth", "forge"):
            x = e["s"] if x == "auth" else ("inject-" if e["a"] else "forge-") + e["s"]
        elif x in ("send", "drop", "read", "replay", "cut", "errmid"):
            x += "(%d)" % e["a"]
        elif x == "swap":
            x += "(%d,%d)" % (e["a"], e["b"])
        elif x == "write":
            x += "(%d%s)" % (e["a"], ", record %d fails" % e["b"] if e["b"] else "")
        elif x == "close" and e["a"]:
            x += "(fails)"
        s.append(x)
    return " | ".join(s)


def compare(t, r):
    """(aspect, text) list; aspects: data, zero, closed, nonce, frame, close, fault, panic, connect"""
    if "fatal" in r or r.get("hang"):
        return [("panic", "hang" if r.get("hang") else "panic: " + r["fatal"])]
    if "connect" in r:
        return [("connect", "no connection: " + r["connect"])]
    out = []
    got = 0
    it = iter(r["ops"])
    lim = 0
    errs = False
    shut = False          # the end was reported after an authentic closure
    over = False          # the connection may refuse to write from here on
    nexts, used = 1, set()
    for h in t:
        e, op = h["ev"], h["ev"]["op"]
        if op in ("err", "errmid"):
            errs = True
        if op not in ("read", "write", "close"):
            lim = h["lim"]
            continue
        o = next(it, None)
        if o is None:
            out.append(("panic", "the run ended early"))
            return out
        if "panic" in o:
            out.append(("panic", "%s: panic: %s" % (op, o["panic"])))
            return out
        if op == "read":
            got, shut = read_op(out, o, got, h["lim"], errs, shut, h["why"])
            if h["why"] in ("closed", "bad"):
                over = True
            continue
        recs = o["recs"]
        refused = "err" in o and not recs and not o["hit"] and over
        for x in recs:
            if x["partial"]:
                used.add(nexts)
                nexts += 1
                continue
            if not x["open"]:
                out.append(("nonce", "%s: record %d does not open" % (op, nexts)))
            elif x["seq"] in used:
                out.append(("nonce", "%s: record number %d used twice" % (op, x["seq"])))
            elif x["seq"] != nexts and not over:
                out.append(("nonce", "%s: record number %d, expected %d" % (op, x["seq"], nexts)))
            used.add(x["seq"])
            nexts += 1
            if x["ver"] != 0x303 or x["wire"] != x["len"] + 16 or not 1 <= x["len"] <= 16384 or x["t"] != (23 if op == "write" else 21):
                out.append(("frame", "%s: record of type %d version %x length %d, %d on the wire" % (op, x["t"], x["ver"], x["len"], x["wire"])))
        if o["left"]:
            out.append(("frame", "%s: %d bytes of an incomplete record" % (op, o["left"])))
        if o["hit"]:
            if "err" not in o:
                out.append(("fault", "%s succeeded although the transport failed" % op))
            if not o["prefix_ok"]:
                out.append(("frame", "%s: records are not a prefix of the data" % op))
            over = True
        elif refused:
            pass
        elif "err" in o:
            out.append(("fault", "%s failed: %s" % (op, o["err"])))
        elif op == "write":
            if o["n"] > o["k"] or o["n"] < 1 <= o["k"] or not o["data_ok"]:
                out.append(("frame", "write(%d) returned %d; data handed over %s" % (o["k"], o["n"], "complete" if o["data_ok"] else "wrong")))
        else:
            if len(recs) != 1 or recs[0]["len"] != 2 or recs[0]["head"][1] != 0 or recs[0]["head"][0] not in (1, 2):
                out.append(("close", "close() wrote %s" % [(x["t"], x["head"]) for x in recs]))
        if op == "close":
            over = True
    # taking everything that is left
    why = t[-1]["why"] if t else "empty"
    if t:
        lim = t[-1]["lim"]
    zeros = 0
    for o in r["drain"]:
        if "panic" in o:
            out.append(("panic", "read: panic: " + o["panic"]))
            return out
        got, shut = read_op(out, o, got, lim, errs, shut, why)
    if got < lim:
        out.append(("zero", "%d of %d bytes can be read" % (got, lim)))
    return out


def read_op(out, o, got, lim, errs, shut, why):
    n = o["n"]
    if shut and o["reads"]:
        out.append(("closed", "transport read after the end of the stream had been reported"))
    if n > 0:
        if got + n > lim:
            out.append(("data", "delivered %d bytes, only %d are authentic and in order" % (got + n, lim)))
        elif not o["match"]:
            out.append(("data", "read delivered wrong bytes (%d at %d)" % (n, got)))
        if shut:
            out.append(("closed", "read returned data after the end of the stream"))
        if n > o["k"]:
            out.append(("data", "read(%d) returned %d" % (o["k"], n)))
        return got + n, shut
    if o["k"] > 0:
        if got < lim and not errs:
            out.append(("zero", "read(%d) returned %d with %d bytes there" % (o["k"], n, lim - got)))
        if got == lim and why == "closed":
            shut = True
    return got, shut


def run(chk, tests, aspects, name="session"):
    slim = [{k: v for k, v in t.items() if k != "model"} for t in tests]
    res = run_bin(chk, name, slim)
    died = res.pop("died", None)
    if died:
        chk.violation("process died: %s" % died["out"][-300:], {"tests": [slim[i] for i in died["missing"]]})
    n = 0
    for i, t in enumerate(tests):
        r = res.get(i)
        if r is None:
            continue
        n += 1
        for asp, text in compare(t["model"], r):
            if asp in aspects or asp in ("panic", "connect"):
                chk.violation("[%s] %s -- %s" % (asp, describe(t["model"]), text),
                              {"bin": name, "test": slim[i], "observed": r, "expected": t["model"]})
    chk.add("traces_validated_against_impl", n)
    for t in tests[:: max(1, len(tests) // 3)]:
        chk.sample(describe(t["model"]))
    return res


def modes(chk):
    c = chk.rng.choice
    return dict(rp=c([0, 0, 1, 2, 3, 5]), wp=c([0, 0, 1, 2, 3]), ri=c([0, 0, 1]), wi=c([0, 0, 1]), eager=c([0, 1]), wapi=c([0, 1]))


def maximal(ts):
    """behaviours that are no prefix of another one (the last step of every
    transition is kept: each is the end of some behaviour)"""
    return ts


def thin(chk, ts, n):
    if len(ts) <= n:
        return ts
    return chk.rng.sample(ts, n)


# --------------------------------------------------------------------- C08
def c08(chk):
    chk.bins = build(["session", "record"])
    ts = model(chk, "attacks", sizes=[1, 3], forges=FORGE, attacks=["drop", "replay", "swap", "reflect", "inject"],
               headers=["unk_type", "len_over"], reads=[2, 9], put=chk.pick(3, 4), ops=2)
    ts = [t for t in ts if any(h["ev"]["op"] not in ("send", "read") for h in t)]
    # records without data count too
    em = model(chk, "empties", sizes=[0, 2], forges=["badtag", "badseq"], attacks=["drop", "replay", "swap", "inject"], reads=[5], put=3, ops=2)
    em = [t for t in em if any(h["ev"]["op"] not in ("send", "read") for h in t) and any(h["ev"]["op"] == "send" and h["ev"]["a"] == 0 for h in t)]
    tests = [concrete(chk, t, **modes(chk)) for t in thin(chk, ts, chk.pick(6000, 60000)) + thin(chk, em, chk.pick(2500, 20000))]
    run(chk, tests, {"data"})
    # every byte of a record, header included, in every bit
    bs = model(chk, "bytes", sizes=[3], forges=["byte"], attacks=["inject"], reads=[2, 9], put=3, ops=1)
    bs = [t for t in bs if any(h["ev"]["op"] == "forge" for h in t)]
    # a record that got longer is complete only with what comes behind it: no end in between
    def through(t):
        ops = [h["ev"]["op"] for h in t]
        ops = ops[ops.index("forge"):]
        return "read" not in ops or not any(o in ("send", "forge") for o in ops[ops.index("read"):])
    whole = [t for t in bs if through(t)]
    sweep = []
    for n in chk.pick([0, 9], [0, 1, 9, 16, 70]):
        for off in range(5 + n + 16):
            for bit in range(8):
                t = chk.rng.choice(whole if off in (3, 4) else bs)
                sweep.append(concrete(chk, t, **dict(modes(chk), off=off, mask=1 << bit, fn=n)))
    run(chk, sweep, {"data"})
    chk.add("byte_positions_swept", len(sweep))
    import p_record, p_trace
    p_record.longs(chk, ["in"])
    p_trace.record(chk, ["data"], [dict(puts=.5, outs=.02, attack=.03), dict(puts=.5, outs=.1, attack=.01, big=True)], chk.pick(150, 3000))


# --------------------------------------------------------------------- C10
def c10(chk):
    chk.bins = build(["session", "tcp"])
    ts = model(chk, "sizes", sizes=[0, 1, 2, 5], reads=[0, 1, 2, 3, 7], put=chk.pick(3, 4), ops=chk.pick(3, 4))
    big = model(chk, "bigsizes", sizes=[0, 1, 16383, 16384], reads=[1, 16384, 16385, 40000, 65536, 131073], put=3, ops=3)
    hs = model(chk, "parts", sizes=[0, 3], auths=["hs_first"], reads=[2, 4], put=3, ops=2)
    # the transport fails for a moment between records: no byte may be lost
    er = model(chk, "transient", sizes=[0, 3], controls=["err", "eof"], reads=[2, 5, 9], put=3, ops=2)
    tests = [concrete(chk, t, **modes(chk)) for t in thin(chk, ts, chk.pick(4500, 40000)) + thin(chk, big, chk.pick(1500, 9000)) + thin(chk, hs, 500)]
    for _ in range(chk.pick(2, 12)):
        tests += [concrete(chk, t, **modes(chk)) for t in thin(chk, er, chk.pick(1500, 6000))]
    # what holds for an empty record holds for very many
    em = [t for t in ts if any(h["ev"]["op"] == "send" and h["ev"]["a"] == 0 for h in t)]
    tests += [concrete(chk, t, empties=50000) for t in thin(chk, em, chk.pick(16, 120))]
    run(chk, tests, {"data", "zero"})
    import p_trace
    p_trace.record(chk, ["data", "zero"], [dict(puts=.4, outs=.05), dict(puts=.35, outs=.02, big=True), dict(puts=.6, outs=0, ends=.01)],
                   chk.pick(120, 3000))
    import p_tcp
    p_tcp.tcp(chk, {"data", "end"}, 0, chk.pick(24, 300), chk.pick(6, 40))


# --------------------------------------------------------------------- C11
def c11(chk):
    chk.bins = build(["session", "tcp"])
    ts = model(chk, "closure", sizes=[0, 3], auths=AUTH_END + HS_PARTS, reads=[2, 5], put=2, ops=2)
    ts += model(chk, "closure3", sizes=[0, 3], auths=["ccs_ok", "al_close_w", "al_fatal", "hello_req", "unk_4", "over"] + HS_PARTS, reads=[2, 5],
                put=3, ops=chk.pick(2, 3))
    cl = model(chk, "close", sizes=[3], auths=["al_close_w", "al_fatal"], reads=[2], writes=[1], closes=2, put=1, ops=chk.pick(4, 5))
    tests = [concrete(chk, t, **modes(chk)) for t in thin(chk, ts, chk.pick(6000, 60000)) + thin(chk, cl, chk.pick(1500, 9000))]
    run(chk, tests, {"data", "zero", "closed", "close"})
    import p_trace
    p_trace.record(chk, ["data", "zero", "closed", "close"], [dict(puts=.4, outs=.1, quiet=.06, ends=0), dict(puts=.4, outs=.3, quiet=.03, ends=0.01)],
                   chk.pick(150, 3000))
    import p_tcp
    p_tcp.tcp(chk, {"end"}, 0, chk.pick(24, 300), 0)


CHECKS = {"C08": c08, "C10": c10, "C11": c11}
