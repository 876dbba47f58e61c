"""Behaviours of the specification replayed into the real stack: the calls of
walks which take the transitions TLC printed."""
import json
import os

from knxlib import *  # noqa
from graphs import graph_of, walks


def replay_tables(name, limit):
    def gen(rng, tier, shard, nshards):
        g = graph_of(name)
        first = next(s for s in g.states if not s["addrs"] and not s["assoc"] and not s["gobj"])
        targets = [i for i in range(len(g.edges)) if i % nshards == shard]
        for n, (s0, walk) in enumerate(walks(g, g.node(first), targets, rng, 120, limit[tier])):
            w = World("%s-%d-%d" % (name, shard, n), [1, 2, 3])
            k = w.stack(first["ia"], [], first["max"])
            su, si = w.session(k, "usb"), w.session(k, "ip")
            for j, e in enumerate(walk):
                c = dict(g.edges[e][1])
                op = c.pop("op")
                getattr(w, op)(k, *[c[x] for x in ("a", "p", "as", "d") if x in c])
                if j % 3 == 1:
                    w.ask(rng.choice([su, si]), link(rng.choice([1, 2, 3, 1, 2, 3, 7]), APCI["read"], group=rng.random() < 0.8), rng.choice([0, 1, 2, 3]))
                if j % 6 == 5 or j == len(walk) - 1:
                    for a in (1, 2, 3):
                        w.dec(su, usb(cemi(IND, link(a, APCI["write"], low=1))), fr=True)
                    for p in (1, 2):
                        w.enc(su, dict(k="groupread", asap=p), fr=True)
            yield w.history()
    return gen


SUITES = dict(
    m_tables=replay_tables("g_tables", dict(quick=None, thorough=None)),
    m_objects=replay_tables("g_objects", dict(quick=None, thorough=None)),
)


def on_sessions(name, stack, limit, probes=()):
    """walks of a session model; several in one history"""
    def gen(rng, tier, shard, nshards):
        g = graph_of(name)
        targets = [i for i in range(len(g.edges)) if i % nshards == shard]
        starts = list(range(len(g.states)))
        rng.shuffle(starts)
        w, n = None, 0
        for s0, walk in walks(g, starts, targets, rng, 60, limit[tier]):
            if w is None:
                w = World("%s-%d-%d" % (name, shard, n), probes)
                s = stack(w)
                n += 1
            st = g.states[s0]
            w.setcnt(s, st["rc"], st["lc"], st["ch"])
            for e in walk:
                c = g.edges[e][1]
                if c["op"] == "dec":
                    w.dec(s, c["f"], fs=rng.random() < 0.1)
                else:
                    w.enc(s, c["x"], fs=rng.random() < 0.1)
            if len(w.ev) > 150:
                yield w.history()
                w = None
        if w is not None:
            yield w.history()
    return gen


def session_stack(w):
    k = w.stack(0x1101, [], 255)
    w.assoc(k, 1, [0x0901])
    w.setdpt(k, 1, "DPT_Switch")
    return w.session(k, "ip")


SUITES["m_session"] = on_sessions("g_session", session_stack, dict(quick=None, thorough=None))


def tunnel_frames(c, ch=1):
    """the datagram of a client step of MCTunnel"""
    if c["op"] == "req":
        return ipt(cemi(IND, link(0x0901, APCI["write"], low=c["n"] % 2)), c["ctr"], ch)
    return [6, 16, 4, 33, 0, 10, 4, ch, c["ctr"], 0]


def tunnel_walks(rng, tier, shard, nshards, length, limit):
    g = graph_of("g_tunnel")
    mine = [i for i, e in enumerate(g.edges) if e[1]["op"] in ("req", "ack")]
    mine = [i for n, i in enumerate(mine) if n % nshards == shard]
    first = [i for i, s in enumerate(g.states) if s[1] == [] and s[2] == 1 and s[3] == 1 and s[6] == [] and s[7] == [] and s[8] == []]
    for s0, walk in walks(g, first, mine, rng, length, limit):
        yield [g.edges[e][1] for e in walk if g.edges[e][1]["op"] != "net"]


def m_tunnel(rng, tier, shard, nshards):
    for n, calls in enumerate(tunnel_walks(rng, tier, shard, nshards, 150, None)):
        w = World("m_tunnel-%d-%d" % (shard, n))
        s = session_stack(w)
        w.setcnt(s, 254, 254, 1)
        for c in calls:
            if c["op"] == "send":
                w.enc(s, dict(k="groupwrite", asap=1, dpt="DPT_Switch", val=[0, 0, 0, c["n"] % 2]))
                continue
            _, e = w.dec(s, tunnel_frames(c))
            for m in e["msgs"]:
                if m["k"] == "treq" and m["st"] == 0:
                    w.enc(s, dict(k="ack", ctr=m["ctr"], st=0))
        yield w.history()


SUITES["m_tunnel"] = m_tunnel


def codec(name):
    """the cases of MCCodec, each on a session of its own configuration"""
    def gen(rng, tier, shard, nshards):
        g = graph_of(name)
        case = [(g.states[p], c) for p, c, _ in g.edges]
        configs = {p["cfg"]: c["t"] for p, c in case if c["op"] == "cfg"}
        case = [x for x in case if x[1]["op"] != "cfg"]
        case = [x for i, x in enumerate(case) if i % nshards == shard]
        rng.shuffle(case)
        for n in range(0, len(case), 250):
            w = World("%s-%d-%d" % (name, shard, n // 250))
            ss = {}
            for i in sorted(configs):
                t = configs[i]
                k = w.stack(t["ia"], t["addrs"], t["max"], [(a["asap"], a["addr"]) for a in t["assoc"]], [(a["asap"], a["dpt"]) for a in t["gobj"]])
                for m in ("usb", "ip", "tp"):
                    ss[i, m] = w.session(k, m)
                w.setcnt(ss[i, "ip"], 7, 9, 3)
            for p, c in case[n:n + 250]:
                s = ss[p["cfg"], p["m"]]
                if c["op"] == "dec":
                    w.dec(s, c["f"], fs=rng.random() < 0.05)
                    if w.cur(s) != dict(rc=7, lc=9, ch=3) and p["m"] == "ip":
                        w.setcnt(s, 7, 9, 3)
                else:
                    x = dict(c["x"])
                    if x["k"] in ("groupwrite", "groupwriteind"):
                        t = [a["dpt"] for a in configs[p["cfg"]]["gobj"] if a["asap"] == x["asap"]]
                        x["dpt"] = t[0] if t else "DPT_Switch"
                    w.enc(s, x, fs=rng.random() < 0.05)
            yield w.history()
    return gen


SUITES["m_codec"] = codec("g_codec")
SUITES["m_other"] = codec("g_other")


def m_stack(rng, tier, shard, nshards):
    """the walks TLC's simulator took through MCStack"""
    path = os.path.join(os.environ["VERIF_WORK"], "g_stack.graph")
    for n, line in enumerate(open(path)):
        if n % nshards != shard:
            continue
        d = json.loads(line)
        w = World("m_stack-%d" % n, [1, 2, 3, 9, 2305, 65535])
        for ia in d["ias"]:
            w.stack(ia, [], d["max"])
        for i, (k, m) in enumerate(zip(d["of"], d["media"]), 1):
            w.session(k, m)
            if m == "ip":
                w.setcnt(i, 252 + i, 250 + i, i)
        for c in d["calls"]:
            op = c["op"]
            if op == "dec":
                w.dec(c["s"], c["f"], fs=rng.random() < 0.1, fr=rng.random() < 0.1)
            elif op == "enc":
                w.enc(c["s"], c["x"], fs=rng.random() < 0.1, fr=rng.random() < 0.1)
            else:
                getattr(w, op)(c["k"], *[c[x] for x in ("a", "p", "as", "d") if x in c])
                if rng.random() < 0.3:
                    w.ask(rng.choice([i for i, k in enumerate(d["of"], 1)]), link(rng.choice([1, 2, 3, 9, 2305, 65535]), APCI["read"], group=rng.random() < 0.8), rng.choice([0, 1, 2, 3, 4]))
        yield w.history()


SUITES["m_stack"] = m_stack


def m_link(rng, tier, shard, nshards):
    """walks of MCLink: fields set one after the other on one view"""
    g = graph_of("g_link")
    targets = rng.sample(range(len(g.edges)), min(len(g.edges), 800 if tier == "quick" else 10000))
    starts = list(range(len(g.states)))
    rng.shuffle(starts)
    w, n = None, 0
    for s0, walk in walks(g, starts, targets, rng, 25):
        if w is None:
            w, n = World("m_link-%d-%d" % (shard, n)), n + 1
        w.link(g.states[s0] + rng.choice([[], [0], [7, 255]]), [(g.edges[e][1]["f"], g.edges[e][1]["v"]) for e in walk])
        if len(w.ev) > 60:
            yield w.history()
            w = None
    if w is not None:
        yield w.history()


SUITES["m_link"] = m_link
