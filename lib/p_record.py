"""C06, C07, C09, C14: the record layer and the reassembly of handshake messages."""
import json, os
from core import *
import p_session as ps

NONE = ["none"]


def wmodel(chk, name, what, sizes, faults, bases, ops):
    cfg = cfg_file(chk, name + ".cfg", view="View", constraint="PrintTest", invariants=["NoReuse", "Complete", "CountMatches"],
                   constants={"Ops": tla_set(what), "Sizes": tla_set(sizes), "Faults": tla_set(faults), "Bases": tla_set(bases), "MaxOps": ops})
    return tlc_ok(chk, "Writer", cfg).get("TEST", [])


def wdescribe(t):
    return " | ".join("%s(%d%s)" % (h["op"], h["n"], ", record %d fails" % h["f"] if h["f"] else "") +
                      (" at " + h["base"] if h.get("base", "none") != "none" else "") for h in t)


def wcompare(t, r):
    """aspects: nonce, frame, fault, panic"""
    if "fatal" in r or r.get("hang"):
        return [("panic", "hang" if r.get("hang") else "panic: " + r["fatal"])]
    out = []
    it = iter(r["ops"])
    over, nexts, used = False, 0, set()
    for h in t:
        if h["op"] == "cipher":
            nexts, used = 0, set()
            continue
        o = next(it)
        op = "%s(%d)" % (h["op"], h["n"])
        if "panic" in o:
            out.append(("panic", op + ": panic: " + o["panic"]))
            return out
        if over and "err" in o and not o["recs"] and not o["hit"]:
            continue  # refuses to go on after a failed write
        whole = [x for x in o["recs"] if not x["partial"]]
        for x in o["recs"]:
            if x["sealed"]:
                if not x["partial"]:
                    if x["n"] < 0:
                        out.append(("nonce", "%s: a record does not open as number %d (or any other tried)" % (op, nexts)))
                    elif x["num"] in used:
                        out.append(("nonce", "%s: record number %d used twice" % (op, x["num"])))
                    elif x["num"] != nexts and not over:
                        out.append(("nonce", "%s: record number %d, expected %d" % (op, x["num"], nexts)))
                    nexts = max(nexts, x["num"])
                used.add(nexts)
                nexts += 1
        if h["recs"] and whole and h["recs"][0]["sealed"] != whole[0]["sealed"]:
            out.append(("nonce", "%s: record protected: %s" % (op, whole[0]["sealed"])))
        exp_t = h["recs"][0]["t"] if h["recs"] else None
        for x in whole:
            extra = 16 if x["sealed"] else 0
            if x["n"] >= 0 and (x["ver"] != 0x303 or not 1 <= x["n"] <= 16384 or x["wire"] != x["n"] + extra or (exp_t and x["t"] != exp_t)):
                out.append(("frame", "%s: record of type %d version %x length %d, %d on the wire" % (op, x["t"], x["ver"], x["n"], x["wire"])))
        if o["left"]:
            out.append(("frame", "%s: %d bytes of an incomplete record" % (op, o["left"])))
        if o["hit"]:
            over = True
            if "err" not in o:
                out.append(("fault", "%s succeeded although the transport failed" % op))
            if not o["prefix_ok"]:
                out.append(("frame", "%s: records are not a prefix of the data" % op))
        elif "err" in o:
            out.append(("fault", "%s failed: %s" % (op, o["err"])))
        elif not o["data_ok"]:
            out.append(("frame", "%s: the records written do not carry the data" % op))
    if r["sealed"] != r["distinct"]:
        out.append(("nonce", "%d records sealed under %d nonces" % (r["sealed"], r["distinct"])))
    if not over and not r["nonces_right"]:
        out.append(("nonce", "a nonce is not write IV xor record number"))
    return out


def wrun(chk, ts, aspects, modes=True):
    tests = []
    for t in ts:
        d = {"kind": "w", "seed": chk.rng.randrange(1 << 48), "ops": t}
        if modes:
            d.update(wp=chk.rng.choice([0, 0, 0, 2, 1000]) if any(h["n"] > 500 for h in t) else chk.rng.choice([0, 0, 1, 2, 3]),
                     wi=chk.rng.choice([0, 0, 1]))
        tests.append(d)
    judge(chk, tests, lambda t, r: wcompare(t["ops"], r), lambda t: wdescribe(t["ops"]), aspects)


def judge(chk, tests, cmp, desc, aspects, name="record"):
    res = run_bin(chk, name, tests)
    died = res.pop("died", None)
    if died:
        chk.violation("process died: %s" % died["out"][-300:], {"tests": [tests[i] for i in died["missing"]]})
    n = 0
    for i, t in enumerate(tests):
        r = res.get(i)
        if r is None:
            continue
        n += 1
        for asp, text in cmp(t, r):
            if asp in aspects or asp in ("panic", "connect"):
                chk.violation("[%s] %s -- %s" % (asp, desc(t), text), {"bin": name, "test": t, "observed": r})
    chk.add("traces_validated_against_impl", n)
    for t in tests[:: max(1, len(tests) // 3)]:
        chk.sample(desc(t))
    return res


ALLB = ["none", "2^8", "2^16", "2^32", "2^40", "2^63"]


# --------------------------------------------------------------------- C06
def c06(chk):
    chk.bins = build(["record", "session"])
    ts = wmodel(chk, "numbers", ["ccs", "alert", "hs", "app"], [0, 2, 16385, 33000],
                [0, 1, 2, 3], ["none", "2^8"], chk.pick(4, 5))
    ts = ps.thin(chk, ts, chk.pick(4000, 30000))
    ts += ps.thin(chk, wmodel(chk, "bases", ["alert", "hs", "app"], [3, 33000], [0, 1, 2], ALLB, chk.pick(3, 4)),
               chk.pick(2500, 20000))
    wrun(chk, ts, {"nonce"})
    # the same through an established connection: reads, writes, faults, close
    ss = ps.model(chk, "writes", sizes=[3], auths=[], reads=[2], writes=[0, 1, 16384, 16385, 40000], faults=[0, 1, 2, 3], closes=1,
                  put=1, ops=chk.pick(3, 4))
    ss = [t for t in ss if any(h["ev"]["op"] in ("write", "close") for h in t)]
    tests = [ps.concrete(chk, t, **ps.modes(chk)) for t in ps.thin(chk, ss, chk.pick(2500, 20000))]
    ps.run(chk, tests, {"nonce"})
    longs(chk, ["out"])
    import p_trace
    p_trace.record(chk, ["nonce"], [dict(puts=.1, outs=.7, ends=.03, big=True), dict(puts=.2, outs=.6, ends=.06)], chk.pick(120, 2500))


def longs(chk, dirs):
    tests = []
    for d in dirs:
        tests.append(dict(kind="long", dir=d, n=chk.pick(66000, 200000), base="none", skip=0))
        for b in ALLB:
            tests.append(dict(kind="long", dir=d, n=600, base=b, skip=0))
        for k in range(4, 64):
            tests.append(dict(kind="long", dir=d, n=7, base="2^%d" % k, skip=0))
        if d == "in":
            for sk in (1, 2, 255, 256, 257, 65536):
                tests.append(dict(kind="long", dir=d, n=sk + 5, base="none", skip=sk))
            tests.append(dict(kind="long", dir=d, n=6, base="2^32", skip=1 << 32))
            tests.append(dict(kind="long", dir=d, n=6, base="2^16", skip=1 << 16))
            tests.append(dict(kind="long", dir=d, n=6, base="2^40", skip=1 << 40))
    if not chk.bins[1]:
        tests = [t for t in tests if t["base"] == "none"]
    for t in tests:
        t["seed"] = chk.rng.randrange(1 << 48)
    desc = lambda t: "%d records %s from %s%s" % (t["n"], t["dir"], t["base"], ", the last one %d back" % t["skip"] if t["skip"] else "")
    judge(chk, tests, lambda t, r: [("panic", "fatal " + str(r.get("fatal", "hang")))] if "bad" not in r else
          ([("nonce", r["bad"])] if r["bad"] else []), desc, {"nonce"})


# --------------------------------------------------------------------- C07
def c07(chk):
    chk.bins = build(["record", "session"])
    ts = wmodel(chk, "small", ["ccs", "alert", "hs", "app", "data20", "data21", "data22", "data23"], [0, 1, 9, 300], [0, 1], ["none"], chk.pick(3, 4))
    ts = ps.thin(chk, ts, chk.pick(2500, 25000))
    ts += ps.thin(chk, wmodel(chk, "edge", ["alert", "hs", "app", "data20", "data21"], [1, 16380, 16381, 16383, 16384, 16385, 32768, 32769, 40000], [0, 1, 2, 3], ["none"], 2), chk.pick(1500, 12000))
    lens = sorted(set(list(range(0, 70)) + [16384 * k + d for k in (1, 2, 3, 4) for d in range(-3, 4)] + [255, 256, 257, 511, 512, 1000, 100000]
                      + [chk.rng.randrange(1, 70000) for _ in range(chk.pick(40, 1500))]))
    ts += [t for t in wmodel(chk, "lengths", ["app", "data21", "hs", "data20"], lens, [0], ["none"], 1)]
    wrun(chk, ts, {"frame", "fault"})
    ss = ps.model(chk, "writes", writes=[0, 1, 5, 16383, 16384, 16385, 32768, 32769, 40000], faults=[0, 1, 2, 3], closes=0, put=0,
                  ops=chk.pick(2, 3))
    tests = [ps.concrete(chk, t, **ps.modes(chk)) for t in ps.thin(chk, ss, chk.pick(1200, 9000))]
    bs = ps.model(chk, "bigwrites", writes=[1, 65535, 65536, 65537, 100000, 131072, 262145, (1 << 20) + 1, 3000000] + chk.pick([], [1 << 20, (1 << 24) + 1]),
                  faults=[0, 2, 5, 9], closes=0, put=0, ops=2)
    for t in ps.thin(chk, bs, chk.pick(160, 1600)):
        m = ps.modes(chk)
        tests.append(ps.concrete(chk, t, **dict(m, wp=chk.rng.choice([0, 0, 2000, 5000]), wi=0)))
    ps.run(chk, tests, {"frame", "fault"})
    import p_trace
    p_trace.record(chk, ["frame", "fault"], [dict(puts=.1, outs=.7, ends=.01, big=True), dict(puts=.2, outs=.6, ends=.04)], chk.pick(120, 2500))


# --------------------------------------------------------------------- C09
def c09(chk):
    chk.bins = build(["record"])
    tests = []
    M, C = 16384, 16384 + 2048
    lens = sorted(set(list(range(0, chk.pick(80, 300))) + [M + d for d in range(-20, 40)] + [C + d for d in range(-20, 21)]
                      + [255, 256, 257, 1 << 15, (1 << 15) - 1, (1 << 15) + 1, 65534, 65535, 20000, 40000]
                      + [chk.rng.randrange(1 << 16) for _ in range(chk.pick(30, 600))]))
    for sec in (False, True):
        def add(tab, **k):
            tests.append(dict(kind="tab", tab=tab, sec=sec, seed=chk.rng.randrange(1 << 48), rp=chk.rng.choice([0, 0, 2]), **k))
        add("types")
        add("alertlen")
        add("ccs")
        for a in range(256):
            add("alerts", a=a)
        for a in [1, 2, 3, 4, 5, 8, 11, 100, 5000] + [chk.rng.randrange(1, 16385) for _ in range(chk.pick(5, 100))]:
            add("mid", a=a)
        for ty in list(range(18, 26)) + [0, 128, 255]:
            for i in range(0, len(lens), 40):
                add("lens", a=ty, lens=lens[i:i + 40])
    res = run_bin(chk, "record", tests)
    died = res.pop("died", None)
    if died:
        chk.violation("process died: %s" % died["out"][-300:], {"tests": [tests[i] for i in died["missing"]]})
    obs = os.path.join(chk.tmp, "obs.ndjson")
    n = 0
    with open(obs, "w") as f:
        for i, t in enumerate(tests):
            r = res.get(i)
            if r is None:
                continue
            if "row" not in r:
                chk.violation("[panic] table %s: %s" % (t["tab"], r.get("fatal", "hang")), {"bin": "record", "test": t, "observed": r})
                continue
            n += len(r["row"])
            f.write(json.dumps(r["row"]) + "\n")
    tags = tlc_ok(chk, "Reader", "Reader.cfg", env2={"OBS": obs})
    for b in tags.get("BAD", []):
        o = b["obs"]
        chk.violation("%s%s record type %d length %d%s content %d,%d...: %s, specification says %s" % (
            "after %d bytes of a handshake message: " % o["mid"] if o["mid"] else "", "protected" if o["sec"] else "plain", o["t"], o["wire"], " (sealed)" if o["sealed"] else "", o["b1"], o["b2"], o["res"], b["spec"]),
            {"bin": "record", "observed": o, "spec": b["spec"]})
    chk.add("traces_validated_against_impl", n)
    chk.sample("tables judged by TLC: record types 0..255, alert level x description 256x256, ChangeCipherSpec bytes, lengths %d..%d; plain and protected" % (lens[0], lens[-1]))


# --------------------------------------------------------------------- C14
def rmodel(chk, name, msgs, maxmsgs, frags, allcuts, steps, drips=()):
    cfg = cfg_file(chk, name + ".cfg", view="View", constraint="PrintTest", invariants=["Exact"], constants={
        "Msgs": tla_set(msgs), "MaxMsgs": maxmsgs, "Frags": tla_set(frags), "Drips": tla_set(drips), "AllCuts": "TRUE" if allcuts else "FALSE", "MaxSteps": steps})
    return [dict(t, hist=undrip(t["hist"]), short=t["hist"]) for t in tlc_ok(chk, "Reassembly", cfg).get("TEST", [])]


def undrip(hist):
    out = []
    for h in hist:
        if h["op"] != "drip":
            out.append(h)
            continue
        n, f = h["n"], h["m"]
        for i in range(0, n, f):
            out.append({"op": "add", "n": min(f, n - i), "r": "", "m": 0})
            if i + f < n:
                out.append({"op": "get", "n": 0, "r": "none", "m": 0})
    return out


RKIND = {"unk": "UnexpectedMessage", "shd1": "InternalError", "fin11": "DecodeError", "fin13": "InternalError", "cert2": "DecodeError"}


def mlen(m):
    d = {"hreq": 0, "shd": 0, "fin": 12, "shd1": 1, "fin11": 11, "fin13": 13, "cert2": 2}
    return 4 + (d[m] if m in d else int(m[3:]))


def mres(m):
    return RKIND.get(m) or RKIND.get(m[:3]) or "ok"


def rdescribe(t):
    steps = ["+%d" % h["n"] if h["op"] == "add" else "get" for h in t["hist"]]
    return "%s via %s: %s" % ("+".join(t["plan"]), t["via"], " ".join(steps[:40] + (["... (%d steps)" % len(steps)] if len(steps) > 40 else [])))


def rcompare(t, r):
    if "res" not in r:
        return [("panic", "hang" if r.get("hang") else "panic: " + r.get("fatal", ""))]
    for x in r["res"]:
        if x.startswith("PANIC"):
            return [("panic", x)]
    if t["via"] == "buffer":
        exp = [h["r"] for h in t["hist"] if h["op"] == "get"]
        if r["res"] != exp:
            return [("messages", "got %s, specification says %s" % (r["res"], exp))]
        return []
    # reader: all that has been delivered, message by message
    frs = [h["n"] for h in t["hist"] if h["op"] == "add"]
    chunks = [c for n in frs for c in ([16384] * (n // 16384) + ([n % 16384] if n % 16384 else []))]
    total = sum(chunks)
    exp, ends, pos = [], [], 0
    for m in t["plan"]:
        pos += mlen(m)
        if pos > total:
            break
        exp.append(mres(m))
        s = 0
        for c in chunks:
            if s >= pos:
                break
            s += c
        ends.append(s)
    exp.append("IoFailure")
    if r["res"] != exp:
        return [("messages", "got %s, specification says %s" % (r["res"], exp))]
    if r["ends"][:len(ends)] != ends:
        return [("early", "messages available after %s bytes, specification says %s" % (r["ends"], ends))]
    return []


def c14(chk):
    chk.bins = build(["record"])
    small = ["hreq", "shd", "ske1", "fin", "unk0", "shd1"]
    ts = rmodel(chk, "cuts", ["hreq", "ske1", "unk0"], 2, [1, 2, 3, 4, 5, 0], True, chk.pick(6, 8))
    ts = ps.thin(chk, ts, chk.pick(9000, 120000))
    ts += ps.thin(chk, rmodel(chk, "kinds", small + ["ske3", "unk2", "fin11", "fin13", "cert2"], 2, [1, 3, 4, 6, 0], False, chk.pick(7, 10)),
                  chk.pick(6000, 60000))
    ts += ps.thin(chk, rmodel(chk, "three", ["shd", "ske1", "unk2"] + chk.pick([], ["fin13", "hreq"]), 3, [1, 3, 4, 0], False, chk.pick(8, 11)),
                  chk.pick(4000, 40000))
    big = rmodel(chk, "long", ["shd", "ske255", "ske256", "unk300", "ske65535", "ske65536", "cke70000"], 2,
                 [1, 4, 259, 260, 16384, 65540, 0], False, chk.pick(5, 8))
    big = ps.thin(chk, big, chk.pick(1200, 12000))
    drip = rmodel(chk, "drip", ["shd", "ske256", "unk300", "fin13", "cke2000"] + chk.pick([], ["ske65536"]), 2, [0, 1], False, chk.pick(5, 6),
                  chk.pick([1, 2, 7], [1, 2, 3, 7, 255]))
    drip = ps.thin(chk, [t for t in drip if any(h["op"] == "drip" for h in t["short"])], chk.pick(1200, 6000))
    big += drip
    tests = []
    for t in ts + big:
        tests.append(dict(kind="re", seed=chk.rng.randrange(1 << 48), plan=t["plan"], hist=t["hist"], via="buffer"))
    for t in ps.thin(chk, ts, chk.pick(5000, 60000)) + ps.thin(chk, big, chk.pick(300, 4000)):
        tests.append(dict(kind="re", seed=chk.rng.randrange(1 << 48), plan=t["plan"], hist=t["hist"], via=chk.rng.choice(["plain", "secure"]),
                          rp=chk.rng.choice([0, 0, 1, 2]) if t["hist"] and max(h["n"] for h in t["hist"]) < 500 else 0))
    # as long as messages can be
    huge = rmodel(chk, "huge", ["cke1048573", "cke16777215", "shd"], 2, [4, 9000000, 0], False, 4)
    huge = [t for t in huge if any(m[:3] == "cke" for m in t["plan"])]
    for t in ps.thin(chk, huge, chk.pick(16, 80)):
        tests.append(dict(kind="re", seed=chk.rng.randrange(1 << 48), plan=t["plan"], hist=t["hist"],
                          via=chk.rng.choice(["buffer", "plain"] + chk.pick([], ["secure"])), rp=0))
    # a byte at a time, without end
    deep = [t for t in rmodel(chk, "deep", ["cke30000", "shd"], 2, [0], False, 4, [1]) if any(h["op"] == "drip" for h in t["short"])]
    for t in ps.thin(chk, deep, chk.pick(8, 60)):
        tests.append(dict(kind="re", seed=chk.rng.randrange(1 << 48), plan=t["plan"], hist=t["hist"], via=chk.rng.choice(["plain", "secure"]), rp=0))
    judge(chk, tests, rcompare, rdescribe, {"messages", "early"})


CHECKS = {"C06": c06, "C07": c07, "C09": c09, "C14": c14}
