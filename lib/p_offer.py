"""C28: the client offers only what it can do (Offer.tla)."""
import json, os
from core import *

PIECE = lambda m: {"m": m, "part": "all", "tam": "same"}
HS = lambda *p: {"op": "hs", "prot": "plain", "rx": False, "pieces": list(p)}


def script(chk, t):
    """the server's flight in records, however it divides it"""
    first, cur = [], []
    style = chk.rng.choice(["each", "one", "mixed"])
    for m in t["flight"]:
        cur.append(PIECE(m))
        if style == "each" or style == "mixed" and chk.rng.random() < .5:
            first.append(HS(*cur))
            cur = []
    if cur:
        first.append(HS(*cur))
    if t["end"] != "connect":
        return first
    return first + ([HS(PIECE("ticket"))] if t["ticket"] else []) + [
        {"op": "ccs_ok", "prot": "plain", "rx": False, "pieces": []},
        {"op": "hs", "prot": "good", "rx": True, "pieces": [PIECE("fin_ok")]}]


def describe(t):
    c = t["ch"]
    return "suite %04x compression %d curve %d form %d signature %04x answers %s%s%s" % (
        c["suite"], c["comp"], c["group"], c["fmt"], c["pair"],
        " ".join("%d:%s" % (e["t"], bytes(e["b"]).hex()) for e in c["exts"]) or "none",
        " status" if c["status"] else "", " ticket" if t["ticket"] else "")


def compare(t, r):
    if "fatal" in r or r.get("res") == "PANIC" or r.get("hang"):
        return "panic: " + str(r.get("msg", r.get("fatal", "hang")))
    ts = [x["t"] for x in r["recs"]]
    if "cke" not in ts:
        return "refused: %s (%s)" % (r["res"], r.get("msg", ""))
    if t["ch"]["comp"] and any(x["t"] == "fin" and x["enc"] and x["ok"] for x in r["recs"]):
        return "goes on without the compression agreed"
    if t["end"] == "connect":
        if r["res"] != "ok":
            return "result %s (%s)" % (r["res"], r.get("msg", ""))
        if r.get("app", "ok") != "ok":
            return "data: " + r["app"]
    return None


def hello(suites=(0xcca8,), comps=(0,), exts=((10, [0, 2, 0, 23]), (11, [1, 0]), (13, [0, 2, 4, 1])), ver=771, sid=(), tail=(), pad=0):
    w = lambda n, v: list(v.to_bytes(n, "big"))
    x = [b for t, d in exts for b in w(2, t) + w(2, len(d)) + list(d)]
    b = w(2, ver) + [7] * 32 + [len(sid)] + list(sid) + w(2, 2 * len(suites) + pad) + [c for s in suites for c in w(2, s)] + [0] * pad \
        + [len(comps)] + list(comps) + w(2, len(x)) + x + list(tail)
    return [1] + w(3, len(b)) + b


G, F, S = (10, [0, 2, 0, 23]), (11, [1, 0]), (13, [0, 2, 4, 1])


def sees(chk):
    """the specification on messages made for it: what is wrong with each, or
    in how many ways a server may answer"""
    made = [
        (hello(), 2), (hello(exts=(G, S)), 1), (hello(exts=(G, F, S, (0xeaea, [])), suites=(0x1a1a, 0x00ff, 0xcca8)), 2),
        (hello(exts=((10, [0, 4, 0, 23, 0, 24]), F, S)), 4), (hello(comps=(1, 0)), 4), (hello(suites=(0xcca8, 0xc02f, 0x2f)), 6),
        (hello(exts=(G, (11, [2, 0, 1]), S)), 4), (hello(exts=(G, (13, [0, 6, 4, 1, 8, 4, 4, 3]))), 2),
        (hello(exts=(G, S, (23, []), (35, []))), 4), (hello(exts=(G, S, (5, [1, 0, 0, 0, 0]))), 3),
        (hello(exts=(G, S, (16, [0, 5, 2, 104, 50, 1, 120]), (1, [3]))), 5),
        (hello(exts=(F, S)), 3 * 2), (hello(ver=770), "version"), (hello(ver=772), "version"), (hello(suites=(0xcca9,)), "suite"),
        (hello(comps=(1,)), "compression"), (hello(exts=((10, [0, 2, 0, 24]), S)), "curve"), (hello(exts=(G, (11, [1, 1]), S)), "point format"),
        (hello(exts=(G, F)), "signature algorithm"), (hello(exts=(G, (13, [0, 4, 4, 1, 0, 1]))), "unsigned"),
        (hello(exts=(G, (13, [0, 4, 4, 1, 4, 0]))), "unsigned"), (hello(exts=(G, S, G)), "extension twice"),
        (hello(exts=(G, S, (43, [4, 3, 4, 3, 3]))), "other versions"), (hello(exts=(G, (10, [0, 2, 0, 23, 0]), S)), "extension malformed"),
        (hello(exts=(G, S, (65281, [1, 0]))), "extension malformed"), (hello(exts=(G, S, (23, [0]))), "extension malformed"),
        (hello(tail=(0,)), "not a ClientHello"), (hello(pad=1), "not a ClientHello"), (hello(sid=range(33)), "not a ClientHello"),
        (hello(comps=()), "not a ClientHello"), (hello()[:-1], "not a ClientHello")]
    chk.add("hellos_made", len(made))
    path = os.path.join(chk.tmp, "made.json")
    with open(path, "w") as f:
        for b, _ in made:
            f.write(json.dumps(b) + "\n")
    tags = tlc_ok(chk, "Offer", cfg_file(chk, "made.cfg", invariants=["FromOffer"], constants={"Most": 99}), env2={"HELLOS": path})
    bad = {b["i"]: b["what"] for b in tags.get("BAD", [])}
    for k, (b, want) in enumerate(made):
        n = len([t for t in tags.get("TEST", []) if t["no"] == k + 1])
        if isinstance(want, str) and bad.get(k) != [want] or not isinstance(want, str) and (k in bad or n != want):
            raise ToolError("Offer.tla: hello %d is %s, %d answers, not %s" % (k, bad.get(k), n, want))


def c28(chk):
    chk.bins = build(["hs"])
    rng = chk.rng
    sees(chk)
    seed = lambda: rng.randrange(1 << 48)
    # what the client sends, from one connection to the next
    n = chk.pick(400, 4000)
    first = [{"seed": seed(), "wf": 0, "ctam": "none", "evs": [], "hello": 1, "wp": rng.choice([0, 0, 1, 2])} for _ in range(n)]
    res = run_bin(chk, "hs", first)
    died = res.pop("died", None)
    if died:
        chk.violation("process died: %s" % died["out"][-300:], {"bin": "hs", "tests": [first[i] for i in died["missing"]]})
    hs = [(i, r["hello"]) for i, r in sorted(res.items()) if r.get("hello")]
    for i, r in sorted(res.items()):
        if not r.get("hello") and not died:
            chk.violation("no ClientHello: %s" % r.get("res", r.get("fatal", "")), {"bin": "hs", "test": first[i], "observed": r})
    if not hs:
        return
    path = os.path.join(chk.tmp, "hellos.json")
    with open(path, "w") as f:
        for _, h in hs:
            f.write(json.dumps(h, separators=(",", ":")) + "\n")
    cfg = cfg_file(chk, "offer.cfg", invariants=["FromOffer"], constants={"Most": 3})
    tags = tlc_ok(chk, "Offer", cfg, env2={"HELLOS": path})
    chk.add("hellos", len(hs))
    for b in tags.get("BAD", []):
        i, h = hs[b["i"]]
        chk.violation("ClientHello: %s -- %s" % (", ".join(b["what"]), bytes(h).hex()), {"bin": "hs", "test": first[i], "hello": h})
    made = tags.get("TEST", [])
    if not made and not tags.get("BAD"):
        raise ToolError("Offer.tla: no server can answer")
    cap = chk.pick(3000, 30000)
    rep = max(1, min(chk.pick(400, 4000), cap // max(1, len(made))))
    tests = []
    for t in rng.sample(made, min(len(made), cap)):
        for k in range(rep):
            d = {"seed": seed(), "wf": 0, "ctam": "none", "evs": script(chk, t), "pick": t["ch"], "ems": int(t["ems"]),
                 "beat": int(t["beat"]), "app": int(t["end"] == "connect"), "limit": t["limit"] if t["limit"] < 16384 or k % 4 == 0 else 0,
                 "rp": rng.choice([0, 0, 1, 2]), "wp": rng.choice([0, 0, 1, 2]), "model": t}
            if rng.random() < .2:
                d["frag"] = rng.choice([7, 16, 63, 1000])
            tests.append(d)
    slim = [{k: v for k, v in d.items() if k != "model"} for d in tests]
    res = run_bin(chk, "hs", slim)
    died = res.pop("died", None)
    if died:
        chk.violation("process died: %s" % died["out"][-300:], {"bin": "hs", "tests": [slim[i] for i in died["missing"]]})
    chk.add("choices", len(made))
    for i, d in enumerate(tests):
        r = res.get(i)
        if r is None:
            continue
        chk.add("traces_validated_against_impl")
        chk.add("ends_" + d["model"]["end"].replace(" ", "_"))
        bad = compare(d["model"], r)
        if bad:
            chk.violation("server chose %s from the offer; %s" % (describe(d["model"]), bad), {"bin": "hs", "test": slim[i], "observed": r})
    for t in made[:: max(1, len(made) // 6)]:
        chk.sample(describe(t))


CHECKS = {"C28": c28}
