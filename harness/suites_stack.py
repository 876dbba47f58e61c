"""Histories of the stack: generators of recorded worlds (see knxlib.World).

gen(rng, tier, shard, nshards) yields histories.  `every(it)` spreads an
enumerated space over the shards."""
from knxlib import *  # noqa

SUB = [d for d in DPTS if DPTS[d][1]]
ONE = [d for d in DPTS if not DPTS[d][1] and DPTS[d][0] == 1]
TWO = [d for d in DPTS if DPTS[d][0] == 2]
FOUR = [d for d in DPTS if DPTS[d][0] == 4]
ALL = list(DPTS)
IA = 0x1101


def chunks(it, n):
    b = []
    for x in it:
        b.append(x)
        if len(b) == n:
            yield b
            b = []
    if b:
        yield b


def mine(it, shard, nshards):
    for i, x in enumerate(it):
        if i % nshards == shard:
            yield x


def group_frame(rng, dst, dpt, svc="write", val=None, **kw):
    val = rand_val(rng, dpt) if val is None else val
    if svc == "read":
        return link(dst, APCI["read"], **kw)
    low, p = value_payload(dpt, val)
    return link(dst, APCI[svc], p, low=low, **kw)


CORNERS = [1, 0xFF, 0x100, 0x101, 0x7FF, 0x800, 0x7FFF, 0x8000, 0x8001, 0xFEFF, 0xFF00, 0xFF01, 0xFFFE, 0xFFFF, 0x00FE, 0x0A0B, 0x0B0A]


BIG = [255, 256, 257, 511, 512, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 1 << 20, (1 << 31) - 1]


def addresses(rng, n):
    """n addresses, corners among them"""
    return list(dict.fromkeys([rng.choice(CORNERS) if rng.random() < 0.3 else rng.choice([rng.randrange(1, 65536), 0xFF00 | octet(rng), rng.randrange(1, 256)]) if rng.random() < 0.4
                               else rng.randrange(1, 65536) for _ in range(n)]))


def config(w, rng, n_addr=6, n_asap=5, cap=None, kinds=None, ia=None, k_dpt=0.85):
    """a device with associations, some shared, some group objects without datapoint type"""
    ia = IA if ia is None else ia
    pool = [a for a in addresses(rng, n_addr) if a != ia] or [0x0901]
    k = w.stack(ia, [], cap if cap is not None else 255)
    w.probes = sorted(set(w.probes) | set(pool))
    ps = rng.sample(list(range(1, 300)) + BIG * 4, n_asap)
    ps = list(dict.fromkeys(ps))
    fam = rng.choice([SUB, ONE, TWO, FOUR, ALL, ALL]) if kinds is None else kinds
    for p in ps:
        w.assoc(k, p, rng.sample(pool, rng.randint(0, min(3, len(pool)))))
        if rng.random() < k_dpt:
            w.setdpt(k, p, rng.choice(fam))
    return k, pool, ps


def dpts_at(w, k, a):
    n = w.last[k - 1]
    ps = {e["p"] for e in n["rel"] if a in e["as"]}
    return [e["dpt"] for e in n["gobj"] if e["asap"] in ps]


def traffic(w, rng, s, pool, n=3, fs=False, fr=False):
    k, m, st = w.sess[s - 1]
    for _ in range(n):
        a = rng.choice(pool) if rng.random() < 0.9 else rng.randrange(1, 65536)
        here = dpts_at(w, k, a)
        d = rng.choice(here) if here else rng.choice(ALL)
        svc = rng.choice(["read", "response", "write", "write"])
        code = rng.choice([IND, CON])
        l = group_frame(rng, a, d, svc, c1=rng.choice([0xBC, 0xBD, 0x9C, 0x9D, 0xB4]), src=word(rng))
        w.dec(s, on(m, cemi(code, l), w.cur(s)["rc"], w.cur(s)["ch"]), fs=fs, fr=fr)


def outgoing(w, rng, s, ps, n=2, fs=False, fr=False):
    k = w.sess[s - 1][0]
    g = {e["asap"]: e["dpt"] for e in w.last[k - 1]["gobj"]}
    for _ in range(n):
        p = rng.choice(ps)
        if p not in g and rng.random() < 0.4:  # without a datapoint type: refused
            d = rng.choice(ALL)
            x = dict(k=rng.choice(["groupwrite", "groupwriteind"]), asap=p, dpt=d, val=rand_val(rng, d))
        elif rng.random() < 0.35 or p not in g:
            x = dict(k="groupread", asap=p)
        else:
            x = dict(k=rng.choice(["groupwrite", "groupwrite", "groupwriteind"]), asap=p, dpt=g[p], val=rand_val(rng, g[p]))
        w.enc(s, x, fs=fs, fr=fr)


# ---------------------------------------------------------------------------
def tables(rng, tier, shard, nshards, ops=(12, 40), count=None):
    """random histories of table operations, with traffic in between"""
    count = count or (14 if tier == "quick" else 220)
    for c in range(count):
        cap = rng.choice([0, 1, 2, 3, 3, 4, 5, 8, 255])
        uni = rng.sample(range(2, 65536), rng.choice([3, 4, 6, 9]))
        ia = rng.choice([1, IA, 0xFFFF, rng.randrange(1, 65536)])
        uni = [a for a in uni if a != ia]
        w = World("tables-%d-%d" % (shard, c), uni)
        w.plain = c % 2 == 0
        start = rng.sample(uni, rng.randint(0, min(cap, len(uni))))
        asso = []
        if rng.random() < 0.4 and cap == 255:
            asso = [(rng.randint(1, 5), rng.choice(uni)) for _ in range(rng.randint(1, 5))]
            asso = list(dict.fromkeys(asso))
        k = w.stack(ia, start, cap, asso, [(p, rng.choice(ALL)) for p in rng.sample(range(1, 6), rng.randint(0, 3))])
        s1, s2 = w.session(k, "usb"), w.session(k, "ip")
        ps = list(range(1, 6)) + rng.sample(range(6, 60), 2)
        for _ in range(rng.randint(*ops)):
            r = rng.random()
            p = rng.choice(ps)
            if r < 0.13:
                w.tadd(k, rng.choice(uni))
            elif r < 0.24:
                w.tremove(k, rng.choice(uni))
            elif r < 0.27:
                w.setia(k, rng.choice([x for x in range(1, 40) if x not in uni] + [IA] * (IA not in uni)))
            elif r < 0.55:
                as_ = [rng.choice(uni) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
                w.assoc(k, p, as_)
            elif r < 0.75:
                known = [e for e in w.last[k - 1]["rel"] if e["p"] == p]
                as_ = list(known[0]["as"]) if known and rng.random() < 0.75 else [rng.choice(uni) for _ in range(rng.choice([1, 1, 2, 3]))]
                rng.shuffle(as_)
                if rng.random() < 0.5:
                    as_ = as_[:rng.randint(1, 3)]
                if rng.random() < 0.2:
                    as_.insert(rng.randint(0, len(as_)), rng.choice(uni))
                w.disassoc(k, p, as_)
            elif r < 0.83:
                w.setdpt(k, p, rng.choice(ALL))
            elif r < 0.87:
                w.unsetdpt(k, p)
            elif r < 0.95:
                traffic(w, rng, rng.choice([s1, s2]), uni, 1, fs=True, fr=True)
            else:
                outgoing(w, rng, rng.choice([s1, s2]), ps, 1, fs=True, fr=True)
        for a in uni:
            here = dpts_at(w, k, a)
            w.dec(s1, usb(cemi(IND, group_frame(rng, a, rng.choice(here or ALL)))), fs=True, fr=True)
        for p in ps:
            w.enc(s1, dict(k="groupread", asap=p), fs=True, fr=True)
        yield w.history()


def failed(rng, tier, shard, nshards):
    """C14: the same traffic before and after operations which must fail"""
    count = 10 if tier == "quick" else 120
    for c in range(count):
        uni = rng.sample(range(2, 65536), 8)
        w = World("failed-%d-%d" % (shard, c), uni)
        cap = rng.choice([1, 2, 3, 4, 5, 6])
        k = w.stack(1, [], cap)
        s = w.session(k, "usb")
        ps = rng.sample(range(1, 12), 4)
        inn = uni[:cap]
        for p in ps[:3]:
            as_ = [a for a in rng.sample(inn, rng.randint(1, cap)) if len(w.last[0]["addrs"]) < cap or a in w.last[0]["addrs"]]
            w.assoc(k, p, as_[:2])
            w.setdpt(k, p, rng.choice(ALL))
        for a in inn:
            if rng.random() < 0.8:
                w.tadd(k, a)

        def probe():
            r = []
            for a in uni:
                here = dpts_at(w, k, a)
                r.append(usb(cemi(IND, group_frame(rng, a, (here or ALL)[0], val=[0, 0, 0, 1]))))
            return r
        frames = probe()
        reads = [dict(k="groupread", asap=p) for p in ps]

        def run():
            return [w.dec(s, f)[0] for f in frames] + [w.enc(s, x)[0] for x in reads]
        before = run()
        for _ in range(rng.randint(2, 5)):
            full = w.last[0]["addrs"]
            absent = [a for a in uni if a not in full]
            r = rng.random()
            ev0 = len(w.ev)
            if r < 0.2 and len(full) >= cap and absent:
                ok = w.tadd(k, rng.choice(absent))
            elif r < 0.35 and absent:
                ok = w.tremove(k, rng.choice(absent))
            elif r < 0.7:
                room = cap - len(full)
                if len(absent) <= room:
                    continue
                as_ = rng.sample(absent, room + 1) + rng.sample(full, min(len(full), rng.randint(0, 2)))
                rng.shuffle(as_)
                ok = w.assoc(k, rng.choice(ps + [77]), as_)
            else:
                known = rng.choice(w.last[0]["rel"])
                wrong = [a for a in uni if a not in known["as"]]
                if not wrong:
                    continue
                as_ = known["as"] + [rng.choice(wrong)]
                rng.shuffle(as_)
                ok = w.disassoc(k, rng.choice([known["p"], known["p"], 88]), as_)
            after = run()
            for b, a in zip(before, after):
                w.same("C14", "traffic after a failed operation", [b, a])
        yield w.history()


# ---------------------------------------------------------------------------
def telegrams(rng, tier, shard, nshards):
    """received telegrams: systematic sweeps over one well populated device, then random ones"""
    big = tier != "quick"

    def dev(name, kinds=None, ia=IA):
        w = World(name)
        k = w.stack(ia, [], 255)
        w.assoc(k, 1, [0x0901, 0x0902])
        w.assoc(k, 2, [0x0901])
        w.assoc(k, 3, [0xFFFF, 0x0902])
        w.assoc(k, 4, [0x0903])
        w.assoc(k, 5, [0x0904])
        w.assoc(k, 6, [0x0905])
        w.assoc(k, 7, [0x0001, 0x8000])
        w.tadd(k, 0x0A00)
        for p, d in ((2, "DPT_Control_Dimming"), (1, "DPT_Switch"), (3, "DPT_Start"), (4, "DPT_Value_Temp"), (5, "DPTSetupClima"), (6, "DPT_Brightness"), (7, "DPT_UpDown")):
            w.setdpt(k, p, d)
        return w, k, w.session(k, "usb"), w.session(k, "ip")
    size = 120
    # every service code with every transport control, both directions, group and individual
    step = 1 if big else 7
    codes = [(t << 8) | a for t in range(256) for a in (range(256) if big else [0x00, 0x01, 0x3F, 0x40, 0x41, 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0xD5, 0xD6, 0xD7, 0xD8])]
    codes += [a for a in range(1024)]
    for n, part in enumerate(mine(chunks(codes, size), shard, nshards)):
        w, k, su, si = dev("services-%d-%d" % (shard, n))
        for c in part:
            code = rng.choice([IND, CON])
            if rng.random() < 0.7:
                l = link(rng.choice([0x0901, 0x0902, 0xFFFF]), 0)
            else:
                l = link(IA, 0, [1, 2, 0x10, 3, 9], group=False, src=IA)
            l[7], l[8] = c >> 8, c & 255
            if rng.random() < 0.5:
                w.dec(su, usb(cemi(code, l)))
            else:
                w.dec(si, ipt(cemi(code, l), w.cur(si)["rc"]))
        yield w.history()
    # every control octet: status, priority, hops; the content never depends on them
    ctrl = [(c1, c2, code, grp) for grp in (True, False) for code in (IND, CON) for c1 in range(256) for c2 in ((0x60,) if not big else (0x60, 0x00, 0x7F, 0x35))]
    ctrl += [(c1, c2, code, grp) for grp in (True, False) for code in (IND, CON) for c1 in (0xBC, 0x9D) for c2 in range(128)]
    for n, part in enumerate(mine(chunks(ctrl, size), shard, nshards)):
        w, k, su, si = dev("control-%d-%d" % (shard, n))
        for c1, c2, code, grp in part:
            svc = rng.choice(["read", "response", "write"])
            if grp:
                a, d = rng.choice([(0x0901, "DPT_Switch"), (0x0903, "DPT_Value_Temp"), (0x0904, "DPTSetupClima"), (0x0905, "DPT_Brightness")])
                l = group_frame(rng, a, d, svc, c1=c1, c2=c2)
            else:
                l = link(IA, PROP[svc], [octet(rng) for _ in range(4 if svc == "read" else 6)], group=False, src=IA, c1=c1, c2=c2)
            w.dec(rng.choice([su]), usb(cemi(code, l)))
        yield w.history()
    # every message code
    w, k, su, si = dev("codes-%d" % shard)
    for code in mine(range(256), shard, nshards):
        for l in (link(0x0901, APCI["write"], low=1), link(IA, PROP["read"], [0, 1, 0x10, 1], group=False, src=IA)):
            w.dec(su, usb(cemi(code, l)))
            w.dec(si, ipt(cemi(code, l), w.cur(si)["rc"]))
    yield w.history()
    # destinations: every address near the ones in use, byte swapped, and a sample (all of them in the thorough tier)
    used = [0x0901, 0x0902, 0xFFFF, 0x0903, 0x0904, 0x0905, 0x0001, 0x8000, 0x0A00, IA]
    near = sorted({(a ^ (1 << b)) & 0xFFFF for a in used for b in range(16)} | {((a & 255) << 8) | a >> 8 for a in used} | {(a + i) % 65536 for a in used for i in (-1, 0, 1)} | {0})
    dests = near + ([] if not big else list(range(65536))) + [word(rng) for _ in range(200)]
    for n, part in enumerate(mine(chunks(dests, 200), shard, nshards)):
        w, k, su, si = dev("destinations-%d-%d" % (shard, n))
        for a in part:
            w.dec(su, usb(cemi(rng.choice([IND, CON]), link(a, APCI[rng.choice(["write", "response"])], low=rng.randrange(2)))))
        yield w.history()
    # random configurations and telegrams
    for c in range(12 if not big else 200):
        w = World("random-%d-%d" % (shard, c))
        k, pool, ps = config(w, rng, n_addr=rng.choice([1, 3, 8, 20]), n_asap=rng.choice([1, 4, 8]))
        s = [w.session(k, "usb"), w.session(k, "ip")]
        w.setcnt(s[1], octet(rng), octet(rng), octet(rng))
        traffic(w, rng, s[0], pool, 15, fs=rng.random() < 0.3)
        traffic(w, rng, s[1], pool, 15, fs=rng.random() < 0.3)
        yield w.history()


def reach(rng, tier, shard, nshards):
    """C01: many group objects sharing many addresses"""
    for c in range(6 if tier == "quick" else 60):
        w = World("reach-%d-%d" % (shard, c))
        k, pool, ps = config(w, rng, n_addr=rng.choice([4, 10, 30]), n_asap=rng.choice([6, 12, 24]), k_dpt=0.8)
        s = w.session(k, "usb")
        for a in pool:
            here = dpts_at(w, k, a)
            for svc in ("read", "response", "write"):
                w.dec(s, usb(cemi(rng.choice([IND, CON]), group_frame(rng, a, rng.choice(here or ALL), svc))))
        yield w.history()


def media(rng, tier, shard, nshards):
    """C07: one link frame, many envelopes"""
    for c in range(20 if tier == "quick" else 250):
        w = World("media-%d-%d" % (shard, c))
        k, pool, ps = config(w, rng, n_addr=4, n_asap=4, k_dpt=1)
        su, si = w.session(k, "usb"), w.session(k, "ip")
        for _ in range(6):
            grp = rng.random() < 0.7
            svc = rng.choice(["read", "response", "write"])
            code = rng.choice([IND, CON])
            neg = rng.randrange(2)
            a = rng.choice(pool)
            here = dpts_at(w, k, a)
            d = rng.choice(here or ALL)
            val = rand_val(rng, d)
            body = [octet(rng) for _ in range(4 if svc == "read" else rng.choice([5, 6, 14, 20, 50]))]
            idx = []
            for v in range(7):
                c1 = (octet(rng) & 0xFE | neg) if v else 0xBC | neg
                kw = dict(c1=c1, c2=rng.randrange(128) if v else 0x60)
                if grp:
                    l = group_frame(rng, a, d, svc, val, src=word(rng) if v else 0x1102, **kw)
                else:
                    l = link(IA, PROP[svc], body, group=False, src=IA, **kw)
                add = [octet(rng) for _ in range(rng.choice([0, 1, 4, 9, 15, 16, 17, 20, rng.randrange(21), rng.choice([31, 32, 63, 64, 127, 128, 129, 170])]))] if v > 1 else []
                ce = cemi(code, l, add)
                if rng.random() < 0.5:
                    idx.append(w.dec(su, usb(ce, pad=rng.choice([0, 64, 56]), seq=rng.choice([1, 1, 0, 5, 15]), extra=[octet(rng) for _ in range(rng.choice([0, 0, 3]))]))[0])
                else:
                    ch = octet(rng)
                    w.setcnt(si, octet(rng), octet(rng), ch)
                    idx.append(w.dec(si, ipt(ce, w.cur(si)["rc"], ch))[0])
            w.same("C07", "messages depend on the medium or on irrelevant fields", idx, app=True)
        yield w.history()


def foreign_frames(rng, m, base, rc):
    """frames which are not for this stack, derived from a good one (link frame base)"""
    c = cemi(IND, base)
    good = on(m, c, rc)
    out = []
    if m == "usb":
        for i, vals in ((0, None), (3, None), (4, None), (7, None), (8, None), (9, None), (10, None)):
            v = octet(rng)
            if v != good[i]:
                f = list(good)
                f[i] = v
                out.append(f)
        for t in range(16):
            if t != 3:
                f = list(good)
                f[1] = (f[1] & 0xF0) | t
                out.append(f)
    else:
        for i in (0, 1, 2, 3):
            v = octet(rng)
            f = list(good)
            f[i] = v
            svc = f[2] * 256 + f[3]
            if v != good[i] and svc not in (0x0202, 0x0206, 0x0208, 0x020A, 0x0420, 0x0421):
                out.append(f)
    head = 11 if m == "usb" else 10
    for n in range(0, head + 2 + 9):
        out.append(good[:n])
    # truncated, with lengths telling the truth
    for n in range(0, 11):
        if m == "usb":
            b = [1, 3, 0, 0] + c[:n]
            out.append([1, 0x13, 4 + len(b), 0, 8, max(0, len(b) - 4) >> 8, max(0, len(b) - 4)] + b)
        else:
            out.append(ipt(c[:n], rc))
    # broadcast, connection oriented
    for t in (0x40, 0x44, 0x80, 0x81, 0xC2, 0xC3, 0x04, 0x08, 0x3C):
        l = list(base)
        l[7] = (l[7] & 3) | t
        out.append(on(m, cemi(IND, l), rc))
    l = list(base)
    if l[1] & 0x80:
        l[4] = l[5] = 0
        out.append(on(m, cemi(IND, l), rc))
    # more additional information than octets
    f = cemi(IND, base)
    f[1] = rng.randrange(len(base) - 8, 256)
    out.append(on(m, f, rc))
    return out


def foreign(rng, tier, shard, nshards):
    """C08: foreign and truncated frames, with a good frame before and after each"""
    for c in range(8 if tier == "quick" else 80):
        w = World("foreign-%d-%d" % (shard, c))
        k, pool, ps = config(w, rng, n_addr=3, n_asap=3, k_dpt=1)
        m = rng.choice(["usb", "ip"])
        s = w.session(k, m)
        w.setcnt(s, octet(rng), octet(rng), octet(rng))
        a = [x for x in pool if dpts_at(w, k, x)]
        if not a:
            continue
        a = rng.choice(a)
        d = dpts_at(w, k, a)[0]
        good_g = group_frame(rng, a, d)
        good_p = link(IA, PROP["response"], [1, 2, 0x10, 3, 5], group=False, src=IA)
        base = good_p if rng.random() < 0.3 else good_g
        rc = w.cur(s)["rc"]
        probe = on(m, cemi(IND, good_g), rc)
        first = w.dec(s, probe)[0]
        out = foreign_frames(rng, m, base, rc)
        for f in out:
            w.dec(s, f)
            if rng.random() < 0.25:
                w.same("C08", "a later frame", [first, w.dec(s, probe)[0]])
        w.same("C08", "a later frame", [first, w.dec(s, probe)[0]])
        yield w.history()
    # every transport control octet, on group and individual frames
    for m in ("usb", "ip"):
        for q, part in enumerate(mine(chunks([(t, g) for t in range(256) for g in (True, False)], 80), shard, nshards)):
            w = World("transport-%s-%d-%d" % (m, shard, q))
            k = w.stack(IA, [], 255, [(1, 0x0901)], [(1, "DPT_Switch")])
            s = w.session(k, m)
            for t, g in part:
                svc = rng.choice(["read", "write", "response"])
                l = link(0x0901, APCI[svc], low=svc != "read") if g else link(IA, PROP[svc], [1, 2, 0x10, 3], group=False, src=IA)
                l[7] = t if rng.random() < 0.5 else (t & 0xFC) | (l[7] & 3)
                w.dec(s, on(m, cemi(rng.choice([IND, CON]), l), w.cur(s)["rc"]))
            yield w.history()
    # every value of every header octet
    for m in ("usb", "ip"):
        head = 11 if m == "usb" else 10
        space = [(i, v) for i in range(head + 2) for v in range(256)]
        if tier == "quick":
            space = [x for x in space if x[0] in (0, 1, 3, 4, 7, 8, 9, 10, 2) or x[1] % 5 == 0]
        for n, part in enumerate(mine(chunks(space, 150), shard, nshards)):
            w = World("headers-%s-%d-%d" % (m, shard, n))
            k = w.stack(IA, [], 255, [(1, 0x0901)], [(1, "DPT_Switch")])
            s = w.session(k, m)
            good = on(m, cemi(IND, link(0x0901, APCI["write"], low=1)), 0)
            for i, v in part:
                f = list(good)
                f[i] = v
                w.setcnt(s, 0, 7, 3)
                w.dec(s, f)
            w.setcnt(s, 0, 0, 0)
            w.dec(s, good)
            yield w.history()


def features(rng, tier, shard, nshards):
    """C09: every service, feature and value"""
    space = [(svc, f, v) for svc in (2, 4) for f in range(256) for v in (0, 1, 2, 3, 4, 255)]
    space += [(svc, f, v) for svc in (2, 4) for f in (3, 5) for v in range(256)]
    space += [(svc, f, v) for svc in range(256) for f in (3, 5) for v in (0, 1, 2, 3)]
    if tier != "quick":
        space += [(svc, f, v) for svc in (1, 2, 3, 4, 5, 0, 255) for f in range(256) for v in range(256)]
    for n, part in enumerate(mine(chunks(space, 250), shard, nshards)):
        w = World("features-%d-%d" % (shard, n))
        k = w.stack(IA, [], 255, [(1, 0x0901)], [(1, "DPT_Switch")])
        s = w.session(k, "usb")
        for svc, f, v in part:
            r = [1, 0x13, 10, 0, 8, 0, 2, 0x0F, svc, 0, 0, f, v]
            z = rng.random()
            if z < 0.3:
                r += [0] * (56 - len(r))
            elif z < 0.35:
                r[9] = octet(rng)
            elif z < 0.4:
                r[10] = octet(rng)
            elif z < 0.45:
                r[7] = octet(rng)
            elif z < 0.5:
                r[6], r[2] = 3, 11
                r += [octet(rng)]
            w.dec(s, r)
        yield w.history()


def properties_in(rng, tier, shard, nshards):
    """C11 (and C04, C05): property telegrams, ours or not, whatever the group tables hold"""
    for c in range(20 if tier == "quick" else 250):
        w = World("properties-%d-%d" % (shard, c))
        ia = rng.choice([1, IA, 0x00FF, 0xFF00, 0xFFFF, rng.randrange(1, 65536)])
        other = rng.choice([((ia & 255) << 8) | ia >> 8, ia ^ 1, ia ^ 0x100, rng.randrange(1, 65536)])
        k = w.stack(ia, [], 255)
        w.tadd(k, other if other else 5)
        w.assoc(k, 1, [x for x in (0x0901, other) if x and x != ia])
        w.setdpt(k, 1, "DPT_Switch")
        if rng.random() < 0.4:
            w.tadd(k, ia)  # a group address with the number of the individual address
        su, si = w.session(k, "usb"), w.session(k, "ip")
        for _ in range(14):
            svc = rng.choice(["read", "response", "write"])
            code = rng.choice([IND, CON])
            n = 4 if svc == "read" else 4 + rng.choice([0, 1, 2, 4, 10, 11, rng.choice([12, 15, 16, 31, 32, 50, 64, 100, 127, 128, 200])])
            body = [rng.choice([0, 255, octet(rng)]) for _ in range(n)]
            src, dst = rng.choice([ia, ia, other, 0]), rng.choice([ia, ia, other, 0])
            l = link(dst, PROP[svc], body, group=False, src=src, c1=octet(rng), c2=rng.randrange(128))
            if rng.random() < 0.5:
                w.dec(su, usb(cemi(code, l)))
            else:
                w.dec(si, ipt(cemi(code, l), w.cur(si)["rc"]))
            if rng.random() < 0.08:
                ia2 = rng.randrange(1, 65536)
                if ia2 not in w.last[k - 1]["addrs"]:
                    w.setia(k, ia2)
                    ia, other = ia2, ia
        yield w.history()


# ---------------------------------------------------------------------------
def sending(rng, tier, shard, nshards):
    """C02, C03, C06, C10: outgoing messages on all the media, and their trip to a receiver"""
    for c in range(14 if tier == "quick" else 220):
        w = World("sending-%d-%d" % (shard, c))
        k, pool, ps = config(w, rng, n_addr=rng.choice([2, 5, 9]), n_asap=rng.choice([2, 4, 6]), k_dpt=0.9)
        s = {m: w.session(k, m) for m in ("usb", "ip", "tp")}
        w.setcnt(s["ip"], octet(rng), octet(rng), octet(rng))
        # a receiver which has the same objects under other numbers
        r = w.stack(0x1102, [], 255)
        g = {e["asap"]: e["dpt"] for e in w.last[k - 1]["gobj"]}
        for e in w.last[k - 1]["rel"]:
            if e["p"] in g and e["as"]:
                w.assoc(r, e["p"] + 1000, e["as"])
                w.setdpt(r, e["p"] + 1000, g[e["p"]])
        rs = {m: w.session(r, m) for m in ("usb", "ip")}
        for _ in range(10):
            p = rng.choice(ps)
            z = rng.random()
            if z < 0.25:
                x = dict(k="groupread", asap=p)
            elif z < 0.75:
                if p not in g:
                    continue
                x = dict(k=rng.choice(["groupwrite", "groupwriteind"]), asap=p, dpt=g[p], val=rand_val(rng, g[p]))
            else:
                x = dict(k="propread", asap=0, obj=octet(rng), pid=octet(rng), n=rng.randrange(16), ix=rng.choice([0, 1, 4095, rng.randrange(4096)]))
                if rng.random() < 0.6:
                    x["k"] = "propwrite"
                    x["data"] = [octet(rng) for _ in range(rng.choice([0, 1, 2, 4, 10, 14, 15, 16, rng.randrange(41), rng.choice([41, 42, 59, 60, 100, 127, 128, 200, 225, 230, 231, 232, 233, 250, 251, 300])]))]
                elif rng.random() < 0.4:
                    x = dict(k=rng.choice(["tconnect", "tdisconnect"]))
            for m in rng.sample(["usb", "ip", "tp"], rng.choice([1, 3])):
                i, e = w.enc(s[m], x)
                if x["k"] in ("groupwrite", "groupwriteind") and e["ok"] and p in g and DPTS.get(g[p]):
                    o = e["o"]
                    h = {"usb": 11, "ip": 10, "tp": 0}[m]
                    if len(o) > h + 10:
                        l = o[h + 2:]
                        m2 = rng.choice(["usb", "ip"])
                        j, _ = w.dec(rs[m2], on(m2, cemi(IND, l), w.cur(rs[m2])["rc"]))
                        w.trip(i, j, g[p])
            if rng.random() < 0.15:
                e = rng.choice(w.last[k - 1]["rel"])
                if e["as"]:
                    w.disassoc(k, e["p"], [e["as"][0]])
                    # the receiver keeps listening
            if rng.random() < 0.1:
                w.setia(k, rng.choice([1, 0xFF, 0xFF00, 0xFFFF, rng.randrange(1, 65536)]))
            if rng.random() < 0.1:
                w.setcnt(s["ip"], octet(rng), octet(rng), octet(rng))
        yield w.history()


def orders(rng, tier, shard, nshards):
    """C02, C13, C16: the order of association through disassociations and new associations"""
    for c in range(10 if tier == "quick" else 150):
        uni = list(dict.fromkeys(addresses(rng, 12)))[:8]
        uni = [a for a in uni if a != IA]
        w = World("orders-%d-%d" % (shard, c), uni)
        k = w.stack(IA, rng.sample(uni, rng.choice([0, 0, 3])), 255)
        s = w.session(k, rng.choice(["usb", "ip", "tp"]))
        ps = [1, 2, 3]
        for p in ps:
            w.assoc(k, p, rng.sample(uni, rng.randint(3, len(uni))))
            w.setdpt(k, p, rng.choice(ALL))
        for _ in range(14):
            p = rng.choice(ps)
            has = [e["as"] for e in w.last[k - 1]["rel"] if e["p"] == p][0]
            z = rng.random()
            if z < 0.5 and has:
                w.disassoc(k, p, rng.sample(has, rng.choice([1, 1, 2, len(has)]) if len(has) > 1 else 1))
            elif z < 0.85:
                w.assoc(k, p, rng.sample(uni, rng.choice([1, 1, 2, 3])))
            elif z < 0.93:
                w.tremove(k, rng.choice(w.last[k - 1]["addrs"] or uni))
            else:
                w.tadd(k, rng.choice(uni))
            w.enc(s, dict(k="groupread", asap=p))
            w.enc(s, dict(k="groupread", asap=rng.choice(ps)))
        yield w.history()


def reconfig(rng, tier, shard, nshards):
    """C16: every change of the configuration between full rounds of traffic in both directions"""
    for c in range(5 if tier == "quick" else 80):
        uni = list(dict.fromkeys(addresses(rng, 6)))[:4]
        ias = [a for a in (IA, 1, 0xFFFE, rng.randrange(1, 65536)) if a not in uni]
        w = World("reconfig-%d-%d" % (shard, c), uni)
        k = w.stack(ias[0], [], 255)
        ss = [w.session(k, "usb"), w.session(k, "ip")]
        ps = [1, 2, 3]
        for p in ps:
            w.assoc(k, p, rng.sample(uni, rng.choice([1, 2])))
            w.setdpt(k, p, rng.choice(ALL))

        same = {}  # frames which arrive in every round

        def round_():
            n = w.last[k - 1]
            if not same and rng.random() < 0.5:
                for a in uni:
                    here = dpts_at(w, k, a)
                    same[a] = (rng.choice(ss), cemi(IND, group_frame(rng, a, rng.choice(here or ALL), rng.choice(["write", "response"]))))
            for a in rng.sample(sorted(same), len(same)):
                s, f = same[a]
                w.dec(s, on(w.sess[s - 1][1], f, w.cur(s)["rc"]), fr=True)
            g = {e["asap"]: e["dpt"] for e in n["gobj"]}
            for p in ps:
                s = rng.choice(ss)
                if p in g:
                    w.enc(s, dict(k=rng.choice(["groupwrite", "groupwriteind"]), asap=p, dpt=g[p], val=rand_val(rng, g[p])), fr=True)
                w.enc(s, dict(k="groupread", asap=p), fr=True)
            for a in uni:
                s = rng.choice(ss)
                here = dpts_at(w, k, a)
                w.dec(s, on(w.sess[s - 1][1], cemi(rng.choice([IND, CON]), group_frame(rng, a, rng.choice(here or ALL), rng.choice(["write", "response", "read"]))), w.cur(s)["rc"]), fr=True)
            s = rng.choice(ss)
            m = w.sess[s - 1][1]
            w.enc(s, dict(k="propread", asap=0, obj=1, pid=octet(rng), n=1, ix=1), fr=True)
            for code in (IND, CON):
                x = rng.choice([n["ia"], n["ia"], rng.choice(ias)])
                w.dec(s, on(m, cemi(code, link(x, PROP["response"], [1, 2, 0x10, 1, octet(rng)], group=False, src=x)), w.cur(s)["rc"]), fr=True)
        round_()
        for _ in range(12):
            p = rng.choice(ps)
            has = ([e["as"] for e in w.last[k - 1]["rel"] if e["p"] == p] or [[]])[0]
            op = rng.choice(["setdpt", "setdpt", "setia", "setia", "assoc", "disassoc", "tadd", "tremove", "unsetdpt"])
            if op == "setdpt":
                w.setdpt(k, p, rng.choice(ALL))
            elif op == "unsetdpt":
                w.unsetdpt(k, p)
            elif op == "setia":
                w.setia(k, rng.choice(ias))
            elif op == "assoc":
                w.assoc(k, p, rng.sample(uni, rng.choice([1, 2])))
            elif op == "disassoc" and has:
                w.disassoc(k, p, rng.sample(has, rng.randint(1, len(has))))
            elif op == "tadd":
                w.tadd(k, rng.choice(uni))
            elif op == "tremove" and w.last[k - 1]["addrs"]:
                w.tremove(k, rng.choice(w.last[k - 1]["addrs"]))
            round_()
        yield w.history()


def everywhere(rng, tier, shard, nshards):
    """C01, C02, C06: destinations over the whole range, both octets swept; long property writes"""
    hi = [(h << 8) | rng.choice([0, 1, 255, octet(rng)]) for h in range(256)]
    lo = [(octet(rng) << 8) | x for x in range(256)]
    space = list(dict.fromkeys(a for a in hi + lo + CORNERS if a and a != IA))
    if tier != "quick":
        space = list(range(1, 65536))
        space.remove(IA)
    for n, part in enumerate(mine(chunks(space, 16), shard, nshards)):
        w = World("everywhere-%d-%d" % (shard, n))
        k = w.stack(IA, [], 255)
        ss = {m: w.session(k, m) for m in ("usb", "ip", "tp")}
        for i, a in enumerate(part, 1):
            w.assoc(k, i, [a])
            w.setdpt(k, i, ALL[i % len(ALL)])
        for i, a in enumerate(part, 1):
            d = ALL[i % len(ALL)]
            m = rng.choice(["usb", "ip", "tp"])
            w.enc(ss[m], rng.choice([dict(k="groupread", asap=i), dict(k="groupwrite", asap=i, dpt=d, val=rand_val(rng, d)), dict(k="groupwriteind", asap=i, dpt=d, val=rand_val(rng, d))]))
            m = rng.choice(["usb", "ip"])
            w.dec(ss[m], on(m, cemi(rng.choice([IND, CON]), group_frame(rng, a, d)), w.cur(ss[m])["rc"]))
        yield w.history()
    # individual addresses and property writes of every length
    part = [(n, ia) for n in range(41) for ia in (0x0001, 0xFF00, 0xFFFF, 0x1101, rng.randrange(1, 65536))]
    part += [(n, rng.randrange(1, 65536)) for n in list(range(41, 226, 17)) + list(range(226, 258)) + [300, 400, 500, 506, 507, 600]]
    for q, part in enumerate(mine(chunks(part, 20), shard, nshards)):
        w = World("writes-%d-%d" % (shard, q))
        k = w.stack(1, [], 255, [(1, 0x0901)], [(1, "DPT_Switch")])
        ss = {m: w.session(k, m) for m in ("usb", "ip", "tp")}
        for n, ia in part:
            w.setia(k, ia)
            for m in ("usb", "ip", "tp"):
                w.enc(ss[m], dict(k="propwrite", asap=0, obj=octet(rng), pid=octet(rng), n=rng.randrange(16), ix=rng.randrange(4096),
                                  data=[octet(rng) for _ in range(n)]))
                w.enc(ss[m], dict(k=rng.choice(["tconnect", "tdisconnect"])))
        yield w.history()


def values(rng, tier, shard, nshards):
    """C03: values of every datapoint type, sender to receiver"""
    per = 24 if tier == "quick" else 300
    for n, d in enumerate(mine(ALL, shard, nshards)):
        size, sub, bits = DPTS[d]
        vals = [be4(v) for v in range(1 << bits)] if bits <= 8 else \
            [be4(1 << b) for b in range(bits)] + [be4(((1 << bits) - 1) ^ (1 << b)) for b in range(bits)] + [rand_val(rng, d) for _ in range(per * 4)]
        if sub:
            vals += [be4(v) for v in range(64)]
        for q, part in enumerate(chunks(vals, 64)):
            w = World("values-%s-%d" % (d, q))
            k = w.stack(0x1101, [], 255, [(1, 0x0901)], [(1, d)])
            r = w.stack(0x1102, [], 255, [(9, 0x0901)], [(9, d)])
            m1, m2 = rng.choice(["usb", "ip"]), rng.choice(["usb", "ip"])
            s, t = w.session(k, m1), w.session(r, m2)
            for v in part:
                if d in ("DPT_Float_32", "DPT_Value_Power") and (num(v) >> 23) & 255 == 255:
                    continue
                i, e = w.enc(s, dict(k="groupwrite", asap=1, dpt=d, val=v))
                l = e["o"][(11 if m1 == "usb" else 10) + 2:] if e["ok"] else []
                j, _ = w.dec(t, on(m2, cemi(IND, l), w.cur(t)["rc"]))
                w.trip(i, j, d)
            yield w.history()


# ---------------------------------------------------------------------------
def tunnel(rng, tier, shard, nshards):
    """C18 - C21, C23: sessions of a tunnelling connection"""
    pairs = [(rc, ctr) for rc in range(256) for ctr in range(256)]
    if tier == "quick":
        pairs = [(rc, ctr) for rc, ctr in pairs if (ctr - rc) % 256 in (0, 1, 2, 255, 254, 128) or rc in (0, 255) or ctr in (0, 255)]
    for n, part in enumerate(mine(chunks(pairs, 90), shard, nshards)):
        w = World("counters-%d-%d" % (shard, n))
        k = w.stack(IA, [], 255, [(1, 0x0901)], [(1, "DPT_Switch")])
        s = w.session(k, "ip")
        for rc, ctr in part:
            w.setcnt(s, rc, ctr, (rc * 7 + ctr) % 256)
            i, e = w.dec(s, ipt(cemi(IND, link(0x0901, APCI["write"], low=ctr & 1)), ctr, octet(rng)))
            if rng.random() < 0.7:
                w.enc(s, dict(k="ack", ctr=ctr, st=0))
                if rng.random() < 0.3:
                    w.enc(s, dict(k="ack", ctr=ctr, st=rng.choice([0, 0, 3])))
        yield w.history()
    acks = [(lc, ctr, st) for lc in range(256) for ctr in range(256) for st in (0, 1, 2, 3)]
    if tier == "quick":
        acks = [(lc, ctr, st) for lc, ctr, st in acks if ((ctr - lc) % 256 in (0, 1, 255) and (st == 0 or lc % 16 in (0, 15))) or (st == 0 and lc in (0, 255))]
    for n, part in enumerate(mine(chunks(acks, 120), shard, nshards)):
        w = World("acks-%d-%d" % (shard, n))
        k = w.stack(IA, [], 255, [(1, 0x0901)], [(1, "DPT_Switch")])
        s = w.session(k, "ip")
        for lc, ctr, st in part:
            w.setcnt(s, ctr, lc, 3)
            w.dec(s, [6, 16, 4, 33, 0, 10, 4, 3, ctr, st])
            if rng.random() < 0.3:
                w.enc(s, dict(k="groupread", asap=1))
        yield w.history()
    # a gateway over a network which loses and repeats, with several sessions
    for c in range(8 if tier == "quick" else 100):
        w = World("session-%d-%d" % (shard, c))
        k, pool, ps = config(w, rng, n_addr=4, n_asap=3, k_dpt=1)
        ss = [w.session(k, "ip") for _ in range(rng.choice([1, 2, 3]))]
        start = rng.choice([0, 250, 254, 255, octet(rng)])
        gw = {}
        for s in ss:
            w.setcnt(s, start, rng.choice([0, 254, 255, octet(rng)]), rng.randrange(1, 256))
            gw[s] = start
        for _ in range(40):
            s = rng.choice(ss)
            z = rng.random()
            fs = rng.random() < 0.3
            if z < 0.45:  # a request of the gateway, maybe repeated, maybe its acknowledgement is lost
                l = group_frame(rng, rng.choice(pool), rng.choice(ALL))
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    i, e = w.dec(s, ipt(cemi(rng.choice([IND, CON]), l), gw[s], w.cur(s)["ch"]), fs=fs)
                    for q in e["msgs"]:
                        if q["k"] == "treq" and q["st"] == 0:
                            w.enc(s, dict(k="ack", ctr=q["ctr"], st=0), fs=fs)
                gw[s] = (gw[s] + 1) % 256
            elif z < 0.55:  # something late or out of order
                ctr = (gw[s] + rng.choice([-3, -2, -1, 1, 2, octet(rng)])) % 256
                i, e = w.dec(s, ipt(cemi(IND, link(rng.choice(pool), APCI["write"])), ctr, w.cur(s)["ch"]), fs=fs)
                for q in e["msgs"]:
                    if q["k"] == "treq" and q["st"] == 0 and ctr != gw[s]:
                        w.enc(s, dict(k="ack", ctr=q["ctr"], st=0))
                if ctr == gw[s]:
                    w.enc(s, dict(k="ack", ctr=ctr, st=0))
                    gw[s] = (gw[s] + 1) % 256
            elif z < 0.75:
                outgoing(w, rng, s, ps, 1, fs=fs)
                lc = w.cur(s)["lc"]
                w.dec(s, [6, 16, 4, 33, 0, 10, 4, w.cur(s)["ch"], rng.choice([lc, lc, (lc - 1) % 256, (lc + 1) % 256, octet(rng)]), rng.choice([0, 0, 0, 1, 2, 3])], fs=fs)
            elif z < 0.85:
                core_event(w, rng, s)
            else:
                w.enc(s, rng.choice([dict(k="connstate", ip=[10, 0, 0, 1], port=5544), dict(k="disconnect", ip=[10, 0, 0, 1], port=5544)]), fs=fs)
        yield w.history()


def hpai(rng):
    return [8, 1] + rng.choice([[0, 0, 0, 0], [255, 255, 255, 255], [octet(rng) for _ in range(4)]]) + rng.choice([[0, 0], [255, 255], [octet(rng), octet(rng)]])


def core_frame(rng, ch=None):
    z = rng.randrange(7)
    ch = octet(rng) if ch is None else ch
    if z == 0:
        b = hpai(rng) + [54, 1, rng.choice([2, 32, 4]), rng.choice([0, 0, 1])] + [octet(rng) for _ in range(rng.choice([2, 50, 60]))]
        svc = 0x0202
    elif z in (1, 2):
        st = rng.choice([0, 0, 0x22, 0x23, 0x24, 0x24])
        svc = 0x0206
        b = [ch, st]
        if st == 0 or rng.random() < 0.5:
            b += hpai(rng)
        if st == 0:
            b += [4, 4, octet(rng), octet(rng)]
    elif z in (3, 4):
        svc, b = 0x0208, [ch, rng.choice([0, 0, 0x21, 0x26, 0x27])]
    elif z == 5:
        svc, b = 0x020A, [ch, rng.choice([0, 0, 0x21, 1, 255])]
    else:
        svc = rng.choice([0x0201, 0x0203, 0x0204, 0x0205, 0x0207, 0x0209, 0x0310, 0x0311, 0x0530, 0x0531, 0x0000, 0xFFFF, 0x2004, 0x0602, 0x0802])
        b = [ch, 0] + hpai(rng) + [4, 4, 1, 1]
    n = 6 + len(b)
    return [6, 16, svc >> 8, svc & 255, n >> 8, n & 255] + b


def core_event(w, rng, s):
    ch = w.cur(s)["ch"]
    w.dec(s, core_frame(rng, rng.choice([ch, None])), fs=rng.random() < 0.3)


def core_request(rng):
    def ip():
        return rng.choice([[0, 0, 0, 0], [127, 0, 0, 1], [255, 255, 255, 255], [octet(rng) for _ in range(4)]])

    def port():
        return rng.choice([0, 1, 255, 256, 3671, 65535, word(rng)])
    k = rng.choice(["connect", "search", "connstate", "disconnect"])
    x = dict(k=k, ip=ip(), port=port())
    if k == "connect":
        x.update(ip2=ip(), port2=port())
    return x


def core(rng, tier, shard, nshards):
    """C21, C22: the core services"""
    for c in range(16 if tier == "quick" else 200):
        w = World("core-%d-%d" % (shard, c))
        k = w.stack(IA, [], 255, [(1, 0x0901)], [(1, "DPT_Switch")])
        ss = [w.session(k, "ip") for _ in range(2)]
        for s in ss:
            w.setcnt(s, octet(rng), octet(rng), rng.choice([0, octet(rng)]))
        for _ in range(40):
            s = rng.choice(ss)
            fs = rng.random() < 0.2
            z = rng.random()
            if z < 0.45:
                core_event(w, rng, s)
            elif z < 0.7:
                w.enc(s, core_request(rng), fs=fs)
            elif z < 0.8:
                w.enc(s, dict(k="groupread", asap=1), fs=fs)
            elif z < 0.9:
                w.enc(s, dict(k="ack", ctr=w.cur(s)["rc"], st=rng.choice([0, 0, 1, 3])), fs=fs)
            else:
                f = core_frame(rng)
                w.dec(s, f[:rng.randrange(len(f))])
        yield w.history()
    # every status of every response
    w = World("statuses-%d" % shard)
    k = w.stack(IA, [], 255)
    s = w.session(k, "ip")
    for st in mine(range(256), shard, nshards):
        for svc in (0x0206, 0x0208, 0x020A):
            w.setcnt(s, 1, 2, 9)
            b = [77, st] + ([8, 1, 10, 0, 0, 2, 14, 87, 4, 4, 17, 9] if svc == 0x0206 else [])
            w.dec(s, [6, 16, svc >> 8, svc & 255, 0, 6 + len(b)] + b)
            w.enc(s, dict(k="connstate", ip=[1, 2, 3, 4], port=5))
    yield w.history()


def isolation(rng, tier, shard, nshards):
    """C23, C16: everything on everything, always against a fresh session and a fresh stack"""
    for c in range(8 if tier == "quick" else 100):
        w = World("isolation-%d-%d" % (shard, c))
        k, pool, ps = config(w, rng, n_addr=5, n_asap=4)
        ss = [w.session(k, m) for m in ("usb", "ip", "ip", "usb", "tp")]
        for s in (2, 3):
            w.setcnt(s, octet(rng), octet(rng), octet(rng))
        for _ in range(30):
            s = rng.choice(ss)
            m = w.sess[s - 1][1]
            z = rng.random()
            if z < 0.37 and m != "tp":
                traffic(w, rng, s, pool, 1, True, True)
            elif z < 0.4:  # refused; what comes after it knows nothing of it
                g = [e["asap"] for e in w.last[k - 1]["gobj"]]
                d = rng.choice(ALL)
                for p in rng.choice([99, min([p for p in ps if p not in g] or [98])]), rng.choice(g or [97]):
                    d = {e["asap"]: e["dpt"] for e in w.last[k - 1]["gobj"]}.get(p, d)
                    w.enc(s, dict(k="groupwrite", asap=p, dpt=d, val=rand_val(rng, d)), True, True)
            elif z < 0.5 and m != "tp":
                svc = rng.choice(["read", "write", "response"])
                l = link(IA, PROP[svc], [1, 2, 0x10, 3] + [7] * (svc != "read"), group=False, src=IA)
                w.dec(s, on(m, cemi(rng.choice([IND, CON]), l), w.cur(s)["rc"]), True, True)
            elif z < 0.72:
                outgoing(w, rng, s, ps, 1, True, True)
            elif z < 0.75:
                g = w.last[k - 1]["gobj"]
                if g:  # a value with more bits than travel
                    e = rng.choice(g)
                    size = DPTS[e["dpt"]][0]
                    w.enc(s, dict(k=rng.choice(["groupwrite", "groupwriteind"]), asap=e["asap"], dpt=e["dpt"], val=be4(octet(rng) if size == 1 else num(rand_val(rng, e["dpt"])))), True, True)
            elif z < 0.8:
                w.enc(s, dict(k="propwrite", asap=0, obj=octet(rng), pid=1, n=1, ix=1, data=[1, 2]), True, True)
            elif z < 0.82:
                w.enc(s, dict(k=rng.choice(["tconnect", "tdisconnect"])), True, True)
            elif z < 0.86 and m == "ip":
                core_event(w, rng, s)
            elif z < 0.92 and m == "ip":
                w.enc(s, dict(k="ack", ctr=w.cur(s)["rc"], st=0), True, True)
            elif z < 0.96 and m != "tp":
                for f in rng.sample(foreign_frames(rng, m, link(rng.choice(pool), APCI["write"], low=1), w.cur(s)["rc"]), 2):
                    w.dec(s, f, True, True)
            else:
                w.assoc(k, rng.choice(ps), [rng.choice(pool)])
        yield w.history()


SUITES = dict(tables=tables, failed=failed, telegrams=telegrams, reach=reach, media=media, foreign=foreign, features=features,
              properties_in=properties_in, sending=sending, orders=orders, reconfig=reconfig, everywhere=everywhere, values=values, tunnel=tunnel, core=core, isolation=isolation)
