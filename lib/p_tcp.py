"""Programs of Tcp.tla over real sockets (TlsClient::from_tcp)."""
import json, socket
from core import *
import p_session as ps
import p_hs as ph


def model(chk):
    def m(name, s, c, ms, mc, gones, ends):
        cfg = cfg_file(chk, name + ".cfg", constraint="PrintTest", invariants=["Confluent", "Connects"], constants={
            "SOps": tla_set(s), "COps": tla_set(c), "MaxS": ms, "MaxC": mc, "Gones": tla_set(gones), "Ends": tla_set(ends)})
        out = {}
        for t in tlc_ok(chk, "Tcp", cfg).get("TEST", []):
            k = json.dumps([t["sp"], t["cp"], t["gone"], t["end"]])
            out[k] = t
        return list(out.values())
    gone = m("gone", ["rest"], ["read5"], 0, 0, range(6), ["fin"])
    few = m("tcp", ["send5", "send20000", "recv5", "rest"], ["write5", "read5", "read20000"], 3, 2, [6], ["notify", "fin", "none"])
    much = m("much", ["send300000", "recv300000", "rest"], ["write300000", "write9000000", "read300000"], 2, 2, [6], ["notify", "none"])
    return gone, few, much


def unread(t):
    # sockets closed with data not taken discard what was under way
    n = lambda a, p: sum(int(o[len(p):]) for o in a if o.startswith(p))
    return t["end"] == "none" and n(t["sp"], "send") != n(t["cp"], "read")


def compare(t, r):
    if "fatal" in r or r.get("hang"):
        return [("panic", "hang" if r.get("hang") else "panic: " + r["fatal"])]
    out = []
    exp, got = t["res"], r["res"]
    for i, e in enumerate(exp):
        g = got[i] if i < len(got) else "nothing"
        if g.startswith("PANIC"):
            return [("panic", g)]
        # the transport ending without notice: zero bytes or an error
        if e == "any" or e == g or (e, g) == ("cut", "end"):
            continue
        asp = "connect" if i == 0 else "end" if i > len(t["cp"]) else "write" if t["cp"][i - 1].startswith("write") else "data"
        if g == "other bytes":
            asp = "data"
        name = "connection" if i == 0 else "the end" if i > len(t["cp"]) else t["cp"][i - 1]
        return [(asp, "%s: %s, specification says %s" % (name, g, e))]
    if r["srv"] != "ok" and not (unread(t) and r["srv"].startswith("the client ended after")):
        if t["gone"] == 6:
            out.append(("write", "server: " + r["srv"]))
        else:
            out.append(("connect", "server: " + r["srv"]))
    return out


def describe(t):
    return "over TCP (rest %d ms before message %d, pieces %d): flight of %d; server %s then %s; client %s" % (
        t["rest"], t["pause"], t["cut"], t["gone"], " ".join(t["sp"]), t["end"], " ".join(t["cp"]))


def tcp(chk, aspects, ngone, nfew, nmuch):
    try:
        socket.create_server(("127.0.0.1", 0)).close()
    except OSError as e:
        log("no sockets here (%s): nothing run over TCP" % e)
        return
    gone, few, much = model(chk)
    tests = []
    long = chk.rng.randrange(nfew)
    for i, t in enumerate(ps.thin(chk, few, nfew) + ps.thin(chk, much, nmuch) + gone * ngone):
        tests.append(dict(t, seed=chk.rng.randrange(1 << 48), cut=chk.rng.choice([0, 1, 2]), msgs=[chk.rng.choice(x) for x in (ph.SH_GOOD, ph.CERT_GOOD, ph.SKE_GOOD)], pause=chk.rng.randrange(-1, 6),
                          rest=chk.pick(3500, 12000) if i == long else chk.rng.choice([0, 250, 600]), any="any" in t["res"] or unread(t)))
        if i == long:
            tests[-1]["pause"] = chk.rng.randrange(6)
    chk.rng.shuffle(tests)
    res = run_bin(chk, "tcp", tests, env={"VERIF_HANG_S": "60"})
    died = res.pop("died", None)
    if died:
        chk.violation("process died: %s" % died["out"][-300:], {"tests": [tests[i] for i in died["missing"]]})
    n = 0
    for i, t in enumerate(tests):
        r = res.get(i)
        if r is None:
            continue
        n += 1
        for asp, text in compare(t, r):
            if asp in aspects or asp in ("panic", "connect"):
                chk.violation("[%s] %s -- %s" % (asp, describe(t), text), {"bin": "tcp", "test": t, "observed": r})
    chk.add("traces_validated_against_impl", n)
    chk.add("connections_over_tcp", n)
