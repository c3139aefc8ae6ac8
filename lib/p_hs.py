"""C01-C05 and part of C13: behaviours of Handshake.tla against TlsClient::new."""
import json
from core import *

INV = ["TypeOK", "ExactFlight", "Agreement", "AlertDiscipline", "Protected"]
GOODFLIGHT = ["sh_ok", "cert_one", "ske_ok", "shd_ok", "fin_ok"]
SH_BAD = ["sh_ver_0302", "sh_ver_0304", "sh_ver_0203", "sh_ver_0300", "sh_ver_fefd", "sh_cs_c02f", "sh_cs_cc13",
          "sh_cs_cca9", "sh_cs_0000", "sh_cs_a8cc", "sh_cs_00ff", "sh_comp_1"]
SH_UNDEC = ["sh_comp_2", "sh_comp_255", "sh_trunc", "sh_trail", "sh_sid33", "sh_extshort", "sh_extlong", "sh_extsize",
            "sh_empty"]
SH_GOOD = ["sh_ok", "sh_noext", "sh_emptyext", "sh_unkext", "sh_allext", "sh_sid0", "sh_sid1"]
CERT_GOOD = ["cert_one", "cert_none", "cert_chain", "cert_big"]
CERT_BAD = ["cert_trunc", "cert_long", "cert_zero", "cert_empty", "cert_trail"]
SKE_GOOD = ["ske_ok", "ske_sig0", "ske_siglong", "ske_lead0", "ske_one"]
SKE_BAD = ["ske_curve_22", "ske_curve_24", "ske_curve_1", "ske_curve_ff01", "ske_pt_off", "ske_pt_comp", "ske_pt_short",
           "ske_pt_long", "ske_pt_fmt2", "ske_pt_fmt6", "ske_pt_fmt0", "ske_pt_zero", "ske_pt_inf", "ske_pt_xp",
           "ske_pt_yp", "ske_pt_max", "ske_pt_neg", "ske_pt_b"]
SKE_UNDEC = ["ske_ctype_1", "ske_ctype_2", "ske_ctype_0", "ske_curve_29", "ske_curve_0", "ske_pt_none", "ske_trunc",
             "ske_trail", "ske_hash_7", "ske_sig_4", "ske_empty"]
FIN = ["fin_ok", "fin_flip", "fin_client", "fin_clabel", "fin_nocfin", "fin_zero", "fin_short", "fin_long", "fin_empty"]
STRAY = ["hello_req", "client_hello", "cert_req", "cke", "hreq_trail", "unk_3", "unk_4", "unk_15", "unk_22", "unk_255"]
ALLMSG = SH_GOOD + SH_BAD + SH_UNDEC + CERT_GOOD + CERT_BAD + SKE_GOOD + SKE_BAD + SKE_UNDEC + ["shd_ok", "shd_trail"] \
    + FIN + STRAY
OTHERS = ["ccs_ok", "ccs_0", "ccs_2", "ccs_empty", "ccs_long", "al_close_w", "al_close_f", "al_warn", "al_fatal",
          "al_three", "al_empty", "al_one", "al_level", "al_desc", "app", "app_empty", "hs_empty", "over", "unk_type",
          "len_over", "eof", "eof_mid", "ioerr"]
BADPROT = ["plain", "badtag", "flip", "badseq", "badnonce", "noiv", "badkey", "badtype", "badver", "badlen", "trunc",
           "extend", "short", "random"]


def model(chk, name, msgs, split, whole, others, prots, tampers=("same",), ctampers=("none",), wfaults=(0,), keep=False):
    cfg = cfg_file(chk, name + ".cfg", view="View", constraint="PrintTest", invariants=INV, constants={
        "Msgs": tla_set(msgs), "Split": "TRUE" if split else "FALSE", "MaxWhole": whole, "Others": tla_set(others),
        "Prots": tla_set(prots), "Tampers": tla_set(tampers), "CTampers": tla_set(ctampers),
        "WFaults": tla_set(wfaults), "KeepVariants": "TRUE" if keep else "FALSE"})
    return tlc_ok(chk, "Handshake", cfg).get("TEST", [])


def concrete(t, seed, **prm):
    """a test of the model as input of the harness"""
    d = {"seed": seed, "wf": t["wf"], "ctam": t["ctam"], "evs": [h["ev"] for h in t["hist"][1:]], "model": t}
    d.update(prm)
    return d


def wild_from(t):
    """index of the first step after which bytes were changed arbitrarily"""
    if t["ctam"] == "ch_any":
        return 0
    for i, h in enumerate(t["hist"]):
        if any(p.get("tam") == "any" for p in h["ev"]["pieces"]):
            return i
    return None


ALERT = {"UnexpectedMessage": 10, "BadRecordMac": 20, "RecordOverflow": 22, "IllegalParameter": 47, "DecodeError": 50,
         "DecryptError": 51, "InternalError": 80, "AlertReceived": 0}


def rec_str(r):
    s = r["t"] + ("*" if r["enc"] else "")
    if r["t"] == "alert":
        s += "(%d)" % r["desc"]
    if not r.get("ok", True):
        s += "!"
    return s


def compare(t, r):
    """differences between a behaviour of the model and what the code did.
    Each is (aspect, text); aspects: result, class, alert, records, order, app, panic"""
    out = []
    if "fatal" in r or r.get("res") == "PANIC":
        return [("panic", "panic: " + r.get("msg", r.get("fatal", "")))]
    if r.get("hang"):
        return [("panic", "hang")]
    hist = t["hist"]
    exp = hist[-1]["res"]
    if exp == "pending":
        exp = "IoFailure"
    w = wild_from(t)
    n = len(hist)
    obs = [[] for _ in range(n + 1)]
    for x in r["recs"]:
        obs[min(x["ev"], n)].append(x)
    if w is not None:
        # anything but success; at most one alert, matching the error returned
        if r["res"] == "ok":
            out.append(("result", "connection established although a message was changed in transit"))
        upto = w
    else:
        upto = n + 1
        if r["res"] != exp:
            asp = "result" if "ok" in (r["res"], exp) else ("io" if "IoFailure" in (r["res"], exp) else "class")
            out.append((asp, "result %s, specification says %s" % (r["res"], exp)))
    for i in range(upto):
        e = hist[i]["out"] if i < n else []
        for kind in (False, True):  # other records, alerts
            a = [(x["t"], x["enc"], x["desc"], x["ok"]) for x in obs[i] if (x["t"] == "alert") == kind]
            b = [(x["t"], x["enc"], x["desc"], True) for x in e if (x["t"] == "alert") == kind]
            if a != b:
                out.append(("alert" if kind else "records", "step %d: client wrote [%s], specification says [%s]" % (
                    i, " ".join(rec_str(x) for x in obs[i]), " ".join(rec_str(x) for x in e))))
    # alert discipline, whatever the model says
    al = [i for i, x in enumerate(r["recs"]) if x["t"] == "alert"]
    if r["res"] in ("ok", "IoFailure"):
        if al:
            out.append(("alert", "alert written with result " + r["res"]))
    else:
        if len(al) != 1 or al[0] != len(r["recs"]) - 1:
            if not (t["wf"] and r["res"] == "IoFailure"):
                out.append(("alert", "result %s with records [%s]" % (r["res"], " ".join(map(rec_str, r["recs"])))))
        elif r["recs"][-1]["desc"] != ALERT.get(r["res"]):
            out.append(("alert", "result %s with alert %d" % (r["res"], r["recs"][-1]["desc"])))
    if r.get("app", "ok") != "ok":
        out.append(("app", "after the handshake: " + r["app"]))
    if r["ch"]:
        out.append(("records", "ClientHello not acceptable to a server: %s" % ",".join(r["ch"])))
    return out


def describe(t):
    s = []
    for h in t["hist"][1:]:
        e = h["ev"]
        x = e["op"]
        if e["pieces"]:
            x = "+".join(p["m"] + ("" if p["part"] == "all" else "/" + p["part"]) +
                         ("" if p["tam"] == "same" else "~" + p["tam"]) for p in e["pieces"])
        if e["rx"]:
            x += "{" + e["prot"] + "}"
        s.append(x)
    if t["ctam"] != "none":
        s.append("client~" + t["ctam"])
    if t["wf"]:
        s.append("write fault at record %d" % t["wf"])
    return " | ".join(s)


def run(chk, tests, aspects, name="hs"):
    """replays tests; reports differences in the given aspects"""
    slim = [{k: v for k, v in t.items() if k != "model"} for t in tests]
    res = run_bin(chk, name, slim)
    died = res.pop("died", None)
    if died and "panic" not in aspects:
        chk.violation("process died: %s" % died["out"][-300:], {"tests": [slim[i] for i in died["missing"]]})
    n = 0
    for i, t in enumerate(tests):
        r = res.get(i)
        if r is None:
            continue
        n += 1
        for asp, text in compare(t["model"], r):
            if asp in aspects or asp == "panic":
                chk.violation("[%s] %s -- %s" % (asp, describe(t["model"]), text),
                              {"bin": name, "test": slim[i], "observed": r, "expected": t["model"]["hist"]})
    chk.add("traces_validated_against_impl", n)
    for t in tests[:: max(1, len(tests) // 3)]:
        chk.sample(describe(t["model"]) + " => " + t["model"]["hist"][-1]["res"])
    return res


def seeds(chk):
    return chk.rng.randrange(1 << 48)


START = {"ev": {"op": "start", "pieces": [], "prot": "plain", "rx": False}, "out": [{"t": "ch", "enc": False, "desc": 0}],
         "res": "pending", "agree": "same"}


def flight(sh="sh_ok", cert="cert_one", ske="ske_ok"):
    """the model's behaviour for a good flight with one message per record"""
    hist = [START] + [{"ev": {"op": "hs", "pieces": [{"m": m, "part": "all", "tam": "same"}], "prot": "plain", "rx": False},
                       "out": [], "res": "pending", "agree": "same"} for m in (sh, cert, ske)]
    return complete({"wf": 0, "ctam": "none", "hist": hist})


# --------------------------------------------------------------------- C01
def c01(chk):
    chk.bins = build(["hs"])
    kinds = GOODFLIGHT + ["hello_req", "client_hello", "cert_req", "cke", "unk_4", "unk_15", "unk_22", "sh_noext", "cert_none"]
    ts = model(chk, "order", kinds, True, chk.pick(2, 3), OTHERS[:6] + ["al_close_w", "al_fatal", "al_warn", "app", "app_empty",
               "hs_empty", "unk_type", "eof"], ["good", "plain"])
    tests = []
    for t in ts:
        split = any(p["part"] == "first" for h in t["hist"] for p in h["ev"]["pieces"])
        cuts = [-1, 1, 2, 3, -3, -2] if split else [-1]
        if chk.quick and split:
            cuts = chk.rng.sample(cuts, 2)
        for c in cuts:
            tests.append(concrete(t, seeds(chk), cut=c, rp=chk.rng.choice([0, 0, 1, 2])))
    # every type there is no message for, in every state
    KNOWN = [0, 1, 2, 11, 12, 13, 14, 16, 20]
    has = lambda h: any(p["m"].startswith("unk_") for p in h["ev"]["pieces"])
    unk = [t for t in ts if has(t["hist"][-1]) and not any(map(has, t["hist"][:-1]))]
    for i in range(256):
        if i not in KNOWN:
            tests += [concrete(t, seeds(chk), cut=-1, unk=i) for t in chk.rng.sample(unk, min(len(unk), chk.pick(12, 60)))]
    # every alert, in every state
    al = [t for t in ts if any(h["ev"]["op"] in ("al_warn", "al_fatal") for h in t["hist"])]
    for d in (10, 20, 21, 22, 30, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 60, 70, 71, 80, 90, 100, 110, 111, 112, 113, 114):
        tests += [concrete(t, seeds(chk), cut=-1, al=d) for t in chk.rng.sample(al, min(len(al), chk.pick(16, 80)))]
    # one-record-per-message flights, with every pair of neighbours swapped and
    # every message repeated or left out, are among these
    run(chk, tests, {"result", "io", "records"})


# --------------------------------------------------------------------- C02
def c02(chk):
    chk.bins = build(["hs"])
    ts = model(chk, "params", SH_GOOD + SH_BAD + ["sh_comp_2", "sh_comp_255", "cert_one", "shd_ok", "fin_ok"] + SKE_GOOD
               + SKE_BAD + SKE_UNDEC, False, chk.pick(1, 2), ["ccs_ok"], ["good"])
    tests = []
    for t in ts:
        for _ in range(chk.pick(2, 6)):
            tests.append(concrete(t, seeds(chk)))
    run(chk, tests, {"result", "records", "io", "class"})
    sweep(chk)
    points(chk)


def points(chk):
    """points on, off and close to the curve in a ServerKeyExchange: only
    those P256.qnt finds on the curve may be answered"""
    import p_curve as pc
    rows = pc.valid_rows(chk.rng, chk.pick(100, 1500))
    # and coordinates not below p, out of reach of affine rows
    ans = pc.oracle(chk, rows)
    tests, meta = [], []
    for r, a in zip(rows, ans):
        if max(r[2], r[3]) >> 256:
            continue
        pt = "04%064x%064x" % (r[2], r[3])
        evs = [{"op": "hs", "pieces": [{"m": m, "part": "all", "tam": "same"}], "prot": "plain", "rx": False}
               for m in ("sh_ok", "cert_one", "ske_pt:" + pt, "shd_ok")]
        tests.append({"seed": seeds(chk), "wf": 0, "ctam": "none", "evs": evs, "rp": 0})
        meta.append((pt, a[0]))
    res = run_bin(chk, "hs", tests)
    for i, (pt, ok) in enumerate(meta):
        r = res.get(i)
        if r is None:
            continue
        exp = "IoFailure" if ok else "IllegalParameter"
        answered = any(x["t"] == "cke" for x in r.get("recs", []))
        if r.get("res") != exp or answered != bool(ok):
            chk.violation("point %s, %s the curve: result %s, key exchange %s" % (pt, "on" if ok else "off", r.get("res", r), answered),
                          {"bin": "hs", "test": tests[i], "observed": r})
    chk.add("points", len(meta))
    chk.add("traces_validated_against_impl", len(meta))


def sweep(chk):
    """every value of a negotiated field; the accepted set is the model's"""
    tags = tlc_ok(chk, "Params", "Params.cfg")
    spec = tags["FIELD"]
    pre = {"sh": [], "ske": ["sh_ok", "cert_one"]}
    tests, meta = [], []
    for f in spec:
        lo, hi = f["lo"], f["hi"]
        vals = range(lo, hi + 1)
        if chk.quick and hi - lo > 4096 and False:
            vals = vals
        for v in vals:
            evs = [{"op": "hs", "pieces": [{"m": m, "part": "all", "tam": "same"}], "prot": "plain", "rx": False}
                   for m in pre[f["msg"]] + ["%s:%x" % (f["name"], v)]]
            tests.append({"seed": seeds(chk), "wf": 0, "ctam": "none", "evs": evs, "rp": 0})
            exp = "IoFailure"  # goes on waiting, then the transport ends
            if v in f["undec"] or (f["undecElse"] and v not in f["accept"] and v not in f["illegal"]):
                exp = "DecodeError"
            elif v not in f["accept"]:
                exp = "IllegalParameter"
            meta.append((f["name"], v, exp))
    res = run_bin(chk, "hs", tests)
    for i, (name, v, exp) in enumerate(meta):
        r = res.get(i)
        if r is None:
            continue
        if r["res"] != exp or any(x["t"] == "cke" for x in r["recs"]):
            chk.violation("%s=0x%x: result %s, specification says %s" % (name, v, r.get("res"), exp),
                          {"bin": "hs", "test": tests[i], "observed": r})
    chk.add("field_values_swept", len(meta))
    chk.add("traces_validated_against_impl", len(meta))


# --------------------------------------------------------------------- C03
def c03(chk):
    chk.bins = build(["hs"])
    msgs = GOODFLIGHT + ["fin_flip", "fin_client", "fin_clabel", "fin_nocfin", "fin_zero"]
    ts = model(chk, "transcript", msgs, False, chk.pick(1, 2), ["ccs_ok"], ["good"], ["same", "soft", "keys", "any"],
               ["none", "ch_rand", "ch_ext", "ch_any", "cke", "cke_any", "cfin"])
    tests = []
    for t in ts:
        for _ in range(chk.pick(1, 4)):
            tests.append(concrete(t, seeds(chk), mask=chk.rng.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])))
    # every byte position of every message, both directions, and every bit of
    # the server Finished, along the complete flight
    lens = {"sh_ok": 4 + 2 + 32 + 33 + 3 + 2 + 6 + 10, "cert_one": 4 + 3 + 3 + 57, "ske_ok": 4 + 3 + 66 + 4 + 64, "shd_ok": 4}
    full = [t for t in ts if last_full(t)]
    sweeps = 0
    for t in full:
        fin = t["hist"][-1]["ev"]["pieces"][0]["m"]
        ntam = [(p["m"], p["tam"]) for h in t["hist"] for p in h["ev"]["pieces"] if p["tam"] != "same"]
        masks = [1 << chk.rng.randrange(8)] if chk.quick else [1, 2, 4, 8, 16, 32, 64, 128, 255]
        if fin == "fin_flip" and not ntam and t["ctam"] == "none":
            rng = range(96)
            masks = [1]
        elif fin == "fin_ok" and ntam == [] and t["ctam"] in ("ch_any", "cke_any", "cfin", "ch_rand"):
            rng = range({"ch_any": 4 + 2 + 32 + 1 + 4 + 2 + 2 + 8 + 6 + 8, "cke_any": 70, "cfin": 16, "ch_rand": 32}[t["ctam"]])
        elif fin == "fin_ok" and t["ctam"] == "none" and len(ntam) == 1 and ntam[0][1] == "any":
            rng = range(lens[ntam[0][0]])
        else:
            continue
        for off in rng:
            for m in masks:
                tests.append(concrete(t, seeds(chk), off=off, mask=m))
                sweeps += 1
    # messages changed so that the client stops early end before the full
    # flight in the model: feed the whole flight all the same
    tests += tampered_flights(chk, lens)
    for _ in range(chk.pick(1, 6)):
        tests += long_tampers(chk)
    # the same messages on both sides
    tests += long_flights(chk)
    run(chk, tests, {"result"})
    chk.add("byte_positions_swept", sweeps)


def last_full(t):
    e = t["hist"][-1]["ev"]
    return e["rx"] and e["pieces"] and e["pieces"][0]["m"].startswith("fin")


def tampered_flights(chk, lens):
    """the complete flight with one byte of one server message changed"""
    out = []
    seq = ["sh_ok", "cert_one", "ske_ok", "shd_ok"]
    for m in seq:
        for off in range(lens[m]):
            for mask in ([1 << chk.rng.randrange(8)] if chk.quick else [1, 16, 128, 255]):
                evs = [{"op": "hs", "pieces": [{"m": x, "part": "all", "tam": "any" if x == m else "same"}], "prot": "plain",
                        "rx": False} for x in seq]
                evs.append({"op": "ccs_ok", "pieces": [], "prot": "plain", "rx": False})
                evs.append({"op": "hs", "pieces": [{"m": "fin_ok", "part": "all", "tam": "same"}], "prot": "good", "rx": True})
                hist = [{"ev": {"op": "start", "pieces": [], "prot": "plain", "rx": False}, "out": [{"t": "ch", "enc": False, "desc": 0}],
                         "res": "pending", "agree": "same"}]
                for e in evs:
                    hist.append({"ev": e, "out": [], "res": "any", "agree": "any"})
                t = {"wf": 0, "ctam": "none", "hist": hist}
                out.append(concrete(t, seeds(chk), off=off, mask=mask))
    return out


def long_tampers(chk):
    """flights with many and long parts, one byte of a part changed: every
    certificate of a chain, every extension, the ends and the middle of long
    fields.  Nothing but the hashed transcript depends on them."""
    out = []
    rng = chk.rng

    def add(sh, cert, ske, at, off):
        seq = [sh, cert, ske, "shd_ok"]
        hist = [START] + [{"ev": {"op": "hs", "pieces": [{"m": x, "part": "all", "tam": "any" if i == at else "same"}], "prot": "plain",
                                  "rx": False}, "out": [], "res": "any", "agree": "any"} for i, x in enumerate(seq)]
        hist.append({"ev": {"op": "ccs_ok", "pieces": [], "prot": "plain", "rx": False}, "out": [], "res": "any", "agree": "any"})
        hist.append({"ev": {"op": "hs", "pieces": [{"m": "fin_ok", "part": "all", "tam": "same"}], "prot": "good", "rx": True},
                     "out": [], "res": "any", "agree": "any"})
        out.append(concrete({"wf": 0, "ctam": "none", "hist": hist}, seeds(chk), off=off, mask=rng.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])))

    def inside(start, n):
        return sorted({start, start + n - 1, start + rng.randrange(n), start + n // 2})

    chains = [[rng.randrange(1, 40) for _ in range(k)] for k in range(1, 10)] + [[1] * 12, [2] * 70, [700] * 24, [1500, 1300, 1100, 900],
             [16384], [16370, 10], [65535], [65536, 3], [70000, 1, 70000]]
    for lens in chains:
        pos = 7
        show = range(len(lens)) if len(lens) <= 12 else rng.sample(range(len(lens)), 8) + [len(lens) - 1]
        for i, n in enumerate(lens):
            if i in show:
                for off in inside(pos + 3, n):
                    add("sh_ok", "cert_ls:" + ".".join(map(str, lens)), "ske_ok", 1, off)
            pos += 3 + n
    for lens in [[1, 2, 3, 4, 5, 6, 7], [300], [4000, 4000], [65531], [30] * 40]:
        pos = 4 + 2 + 32 + 33 + 3 + 2
        for i, n in enumerate(lens):
            for off in inside(pos + 4, n)[:4 if len(lens) < 10 else 1]:
                add("sh_xl:" + ".".join(map(str, lens)), "cert_one", "ske_ok", 0, off)
            pos += 4 + n
    for n in (1, 2, 71, 128, 255, 256, 257, 384, 512, 4096, 16300, 65535):
        for off in inside(4 + 4 + 65 + 4, n):
            add("sh_ok", "cert_one", "ske_sl:%x" % n, 2, off)
    return out


def long_flights(chk):
    """complete flights whose messages have many and long parts, up to the
    largest that can be written"""
    tests = []
    certs = ["cert_ls:" + ".".join(map(str, l)) for l in [
        [1] * 100, [1000] * 12, [16384 - 10], [16384 - 9], [16384 - 11], [16385], [32768], [65521], [65522], [65523], [65524], [65525],
        [65526], [65528], [65529], [65530], [65531], [65532], [65533], [65535], [65536], [65537], [70000], [40000, 40000], [131072],
        [262144], [300000, 1], [2] * 14000, [0xffffff // 16]] + chk.pick([], [[1 << 20], [1 << 21], [1 << 23], [0xffffff - 3]])]
    longs = [flight("sh_ok", c) for c in certs]
    longs += [flight("sh_xl:" + ".".join(map(str, l))) for l in [[0], [0] * 50, [1000] * 30, [65531], [16384], [16300], [32767] * 1 + [32756]]]
    longs += [flight("sh_ok", "cert_one", "ske_sl:%x" % n) for n in (1, 127, 128, 255, 256, 257, 512, 1024, 16304, 16310, 16312, 20000, 65534, 65535)]
    for t in longs:
        tests.append(concrete(t, seeds(chk), app=1, rp=chk.rng.choice([0, 0, 1])))
        if len(t["hist"][2]["ev"]["pieces"][0]["m"]) < 30:
            tests.append(concrete(t, seeds(chk), app=1, frag=chk.rng.choice([700, 1400, 4096, 16383])))
    return tests


# --------------------------------------------------------------------- C04
def c04(chk):
    chk.bins = build(["hs", "tcp"])
    if chk.quick:
        ts = model(chk, "interop", SH_GOOD + CERT_GOOD + SKE_GOOD + ["shd_ok", "fin_ok"], False, 5, ["ccs_ok"], ["good"], keep=True)
        ts += model(chk, "interop2", GOODFLIGHT, True, 5, ["ccs_ok"], ["good"], keep=True)
    else:
        ts = model(chk, "interop", SH_GOOD + CERT_GOOD + SKE_GOOD + ["shd_ok", "fin_ok"], True, 5, ["ccs_ok"], ["good"], keep=True)
    tests = []
    ok = [t for t in ts if t["hist"][-1]["res"] == "ok"]
    part = [t for t in ts if t["hist"][-1]["res"] != "ok"]
    if chk.quick:
        chk.rng.shuffle(part)
        part = part[:1500]
        ok = chk.rng.sample(ok, min(len(ok), 2500))
    for t in ok:
        for _ in range(chk.pick(1, 3)):
            tests.append(concrete(t, seeds(chk), app=1, cut=-1, rp=chk.rng.choice([0, 1, 2]), wp=chk.rng.choice([0, 1, 2])))
    for t in part:
        # bring every behaviour that is not complete to its end
        if complete(t) is None:
            continue
        tests.append(concrete(complete(t), seeds(chk), app=1, cut=chk.rng.choice([-1, 1, 2, 3, -2, -3]), rp=chk.rng.choice([0, 0, 2])))
    # fragmentation into fixed small records, down to one byte each
    flights = [flight(a, b, c) for a in SH_GOOD for b in CERT_GOOD for c in SKE_GOOD]
    for t in flights:
        tests.append(concrete(t, seeds(chk), app=1, rp=chk.rng.choice([0, 1, 2]), wp=chk.rng.choice([0, 1, 2])))
    for t in [flight()] + chk.rng.sample(flights, chk.pick(2, 40)):
        for frag in [1, 2, 3, 4, 5, 7, 16, 63]:
            tests.append(concrete(t, seeds(chk), app=1, frag=frag))
    tests += long_flights(chk)
    # session ids of every length
    for n in range(33):
        tests.append(concrete(flight("sh_sid:%x" % n), seeds(chk), app=1))
    run(chk, tests, {"result", "io", "class", "records", "alert", "app"})
    import p_tcp
    p_tcp.tcp(chk, {"connect", "data", "write"}, 0, chk.pick(40, 400), 0)


def complete(t):
    """extends an unfinished good behaviour by the rest of the flight"""
    t = json.loads(json.dumps(t))
    if t["hist"][-1]["res"] != "pending":
        return t
    done, opened, ccs = [], None, False
    for h in t["hist"]:
        for p in h["ev"]["pieces"]:
            if p["part"] in ("first", "more"):
                opened = p["m"]
            else:
                opened = None
                done.append(p["m"].split("_")[0])
        ccs |= h["ev"]["op"] == "ccs_ok"
    add = []
    out0 = [{"t": "cke", "enc": False, "desc": 0}, {"t": "ccs", "enc": False, "desc": 0}, {"t": "fin", "enc": True, "desc": 0}]

    def hs(m, part, rx):
        return {"ev": {"op": "hs", "pieces": [{"m": m, "part": part, "tam": "same"}], "prot": "good" if rx else "plain", "rx": rx},
                "out": out0 if m == "shd_ok" else [], "res": "ok" if m == "fin_ok" else "pending", "agree": "same"}
    order = ["sh", "cert", "ske", "shd", "fin"]
    if done != order[:len(done)] or (opened and opened.split("_")[0] != order[len(done)]) or (opened == "fin_ok" and not ccs):
        return None  # nothing can complete this
    if opened:
        add.append(hs(opened, "rest", ccs))
        done.append(opened.split("_")[0])
    for m in ["sh_ok", "cert_one", "ske_ok", "shd_ok"]:
        if m.split("_")[0] not in done:
            add.append(hs(m, "all", False))
    if not ccs:
        add.append({"ev": {"op": "ccs_ok", "pieces": [], "prot": "plain", "rx": False}, "out": [], "res": "pending", "agree": "same"})
    if "fin" not in done:
        add.append(hs("fin_ok", "all", True))
    t["hist"] += add
    return t


# --------------------------------------------------------------------- C05
def c05(chk):
    chk.bins = build(["hs"])
    ts = model(chk, "alerts", ALLMSG, False, 1, OTHERS, ["good"] + BADPROT, wfaults=[0])
    ts += model(chk, "alertsplit", GOODFLIGHT + ["sh_trunc", "ske_pt_off", "ske_trunc", "fin_flip", "fin_short", "unk_4", "cert_long",
                "hello_req", "shd_trail", "cert_trail", "sh_cs_0000"], True, chk.pick(1, 2), OTHERS, ["good", "badtag"])
    tests = []
    for t in ts:
        if t["hist"][-1]["res"] == "pending" and chk.quick:
            continue
        for _ in range(chk.pick(1, 5)):
            tests.append(concrete(t, seeds(chk), rp=chk.rng.choice([0, 0, 2])))
    run(chk, tests, {"result", "class", "alert", "io"})


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05}
