"""C26: connections of one program (Isolation.tla), each judged by its own
behaviour of Handshake.tla or Session.tla."""
from core import *
import p_hs as ph, p_session as ps

END = 1 << 30
SHARED = ["scratch", "first", "count", "current"]


def schedules(chk, n, length, blocks, modes=("own",), threads=1):
    cfg = cfg_file(chk, "iso-%d-%d-%d.cfg" % (n, length, threads), constraint="PrintTest", invariants=["Alone"], constants={
        "N": n, "Len_": length, "MaxBlocks": blocks, "Modes": tla_set(modes), "Threads": threads})
    tags = tlc_ok(chk, "Isolation", cfg)
    for m in modes:
        if m != "own" and m not in [x["mode"] for x in tags.get("TOLD", [])]:
            raise ToolError("Isolation.tla: shared %s is not told apart" % m)
    return tags.get("TEST", [])


def real(chk, s, n, length, top):
    """steps of the model to steps of a connection"""
    f = []
    for _ in range(n):
        cuts = sorted(chk.rng.sample(range(1, top + 1), length - 1)) if top else list(range(1, length))
        f.append(cuts + [END])
    lag = lambda: chk.rng.choice([0, 1, 2, 3, 4, 4, 5, 5, 6, 7, 9, 14, 30])
    return [{"who": b["who"], "upto": f[b["who"] - 1][b["upto"] - 1], "lag": lag(), "on": b["on"]} for b in s["blocks"]]


def handshakes(chk):
    rng = chk.rng
    mixed = ph.model(chk, "isohs", ph.GOODFLIGHT + ["sh_cs_c02f", "ske_pt_off", "ske_trunc", "fin_flip", "hello_req", "unk_4", "ske_curve_22", "sh_trunc"],
                     True, chk.pick(2, 3), ["ccs_ok", "al_close_w", "al_fatal", "eof", "app"], ["good", "badtag"])
    full = [(ph.flight(a, b, c)) for a in ph.SH_GOOD for b in ph.CERT_GOOD for c in ph.SKE_GOOD]

    def pick():
        if rng.random() < .6:
            t = rng.choice(full)
            prm = dict(app=1, rp=rng.choice([0, 0, 1, 2]), wp=rng.choice([0, 0, 1, 2]))
            if rng.random() < .3:
                prm["frag"] = rng.choice([7, 16, 63])
        else:
            t = rng.choice(mixed)
            prm = dict(cut=rng.choice([-1, 1, 2, 3, -2, -3]), rp=rng.choice([0, 0, 1, 2]))
        return dict(ph.concrete(t, ph.seeds(chk), **prm), kind="hs")
    return pick


def sessions(chk):
    rng = chk.rng
    ts = [ps.model(chk, "isodata", sizes=[1, 5], reads=[2, 9], writes=[1, 4], put=3, ops=4),
          ps.model(chk, "isobig", sizes=[16384], reads=[16384, 40000], writes=[1, 16385], put=2, ops=3),
          ps.model(chk, "isoends", sizes=[3], auths=["al_close_w", "al_fatal", "over"] + ps.HS_PARTS, reads=[2, 5], writes=[2], closes=1, put=3, ops=3),
          ps.model(chk, "isobad", sizes=[3], forges=["badtag", "badseq", "badkey"], attacks=["replay", "swap"], reads=[2, 9], put=3, ops=2)]
    # the long ones: short ones are parts of them
    ts = [sorted(x, key=len)[len(x) // 2:] for x in ts]

    def pick():
        return dict(ps.concrete(chk, rng.choice(rng.choice(ts)), **ps.modes(chk)), kind="session")
    return pick


def c26(chk):
    chk.bins = build(["iso"])
    rng = chk.rng
    hs, se = handshakes(chk), sessions(chk)
    tests = []

    def add(mode, blocks, conns):
        tests.append({"mode": mode, "blocks": blocks, "conns": [{"kind": c["kind"], "t": c} for c in conns]})

    any_ = lambda: rng.choice([hs, hs, se])()
    for n, length, blocks, top, rep in [
            (2, 30, 3, 0, chk.pick(6, 60)),          # one inside of the other, at every place
            (2, 6, chk.pick(5, 7), 24, chk.pick(6, 40)),
            (3, chk.pick(3, 4), 6, 20, chk.pick(8, 30)),
            (4, chk.pick(2, 3), 7, 16, chk.pick(6, 20))]:
        for s in schedules(chk, n, length, blocks, ["own"] + (SHARED if length == 6 else [])):
            for _ in range(rep):
                if s["inner"]:
                    add("nested", real(chk, s, n, length, top), [any_() for _ in range(n)])
                add("threads", real(chk, s, n, length, top), [any_() for _ in range(n)])
                add("steps", real(chk, s, n, length, min(top, 9)) if top else real(chk, s, n, length, 0), [se() for _ in range(n)])
    # connections that go from one thread to another
    for n, length, blocks, threads, rep in [(1, 6, chk.pick(5, 6), 2, chk.pick(6, 60)), (1, 5, chk.pick(4, 5), 3, chk.pick(3, 20)), (2, 3, chk.pick(4, 5), 2, chk.pick(2, 6))]:
        for s in schedules(chk, n, length, blocks, ["own"] + (["thread"] if n == 1 else []), threads):
            if len({b["on"] for b in s["blocks"]}) > 1:
                for _ in range(rep):
                    add("moved", real(chk, s, n, length, rng.choice([0, 9])), [se() for _ in range(n)])
    slim = [dict(t, conns=[{"kind": c["kind"], "t": {k: v for k, v in c["t"].items() if k != "model"}} for c in t["conns"]]) for t in tests]
    res = run_bin(chk, "iso", slim)
    died = res.pop("died", None)
    if died:
        chk.violation("process died: %s" % died["out"][-300:], {"bin": "iso", "tests": [slim[i] for i in died["missing"]]})
    for i, t in enumerate(tests):
        r = res.get(i)
        if r is None:
            continue
        if r.get("hang") or "fatal" in r:
            chk.violation("%s: %s" % (t["mode"], r.get("fatal", "hang")), {"bin": "iso", "test": slim[i]})
            continue
        chk.add("traces_validated_against_impl", len(t["conns"]))
        chk.add("schedules_" + t["mode"])
        chk.add("switches_" + t["mode"], r["switches"])
        for k, (c, o) in enumerate(zip(t["conns"], r["r"])):
            chk.add("connections_" + c["kind"])
            m = c["t"]["model"]
            for asp, text in (ph if c["kind"] == "hs" else ps).compare(m, o):
                d = (ph if c["kind"] == "hs" else ps).describe(m)
                chk.violation("connection %d of %d (%s, %s): [%s] %s -- %s" % (
                    k + 1, len(t["conns"]), t["mode"], " ".join("%d:%s" % (b["who"], "end" if b["upto"] == END else "%d+%d" % (b["upto"], b["lag"])) for b in t["blocks"]),
                    asp, d, text), {"bin": "iso", "test": slim[i], "observed": o})
    for m in ("nested", "threads", "steps", "moved"):
        if chk.cov.get("switches_" + m, 0) < chk.cov.get("schedules_" + m, 0) / 2:
            raise ToolError("iso: the schedules of %s do not take place" % m)
    for t in tests[:: max(1, len(tests) // 3)]:
        chk.sample("%s %s: %s" % (t["mode"], t["blocks"], " || ".join((ph if c["kind"] == "hs" else ps).describe(c["t"]["model"]) for c in t["conns"])))


CHECKS = {"C26": c26}
