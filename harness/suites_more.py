"""Histories of the stack: texts, link frame views, names and values of their own."""
from knxlib import *  # noqa
from suites_stack import ALL, IA, addresses, chunks, config, core_frame, core_request, dpts_at, foreign_frames, group_frame, mine, outgoing, traffic

NAMES = ["light", "heating (first floor)", "a, b", "x", "-> [1]", "light in the hall", "", None, None,
         "the light above the table in the living room, " * 3, "%s {} %d {0} \\n", " two  spaces ", "0x0901", "n" * 300]


def request(rng, w, k, ps):
    """a message to be sent"""
    g = {e["asap"]: e["dpt"] for e in w.last[k - 1]["gobj"]}
    p = rng.choice(ps)
    z = rng.random()
    if z < 0.3 or (z < 0.65 and p not in g):
        return dict(k="groupread", asap=p)
    if z < 0.65:
        return dict(k=rng.choice(["groupwrite", "groupwriteind"]), asap=p, dpt=g[p], val=rand_val(rng, g[p]))
    x = dict(k="propread", asap=0, obj=octet(rng), pid=octet(rng), n=rng.randrange(16), ix=rng.choice([0, 1, 4095, rng.randrange(4096)]))
    if rng.random() < 0.5:
        x.update(k="propwrite", data=[octet(rng) for _ in range(rng.choice([0, 1, 2, 5, 14]))])
    return x


def any_telegram(rng, w, k, pool, code=None):
    """a group or property telegram for the device, link frame and message code"""
    code = code or rng.choice([IND, CON])
    svc = rng.choice(["read", "response", "write"])
    c1 = rng.choice([0xBC, 0xBD])
    if rng.random() < 0.7:
        a = rng.choice(pool)
        here = dpts_at(w, k, a)
        return cemi(code, group_frame(rng, a, rng.choice(here or ALL), svc, c1=c1))
    ia = w.last[k - 1]["ia"]
    body = [octet(rng) for _ in range(4 if svc == "read" else rng.choice([5, 6, 8]))]
    return cemi(code, link(ia, PROP[svc], body, group=False, src=ia, c1=c1))


def reconfigure(rng, w, k, uni, ps, ias):
    z = rng.random()
    p = rng.choice(ps)
    has = ([e["as"] for e in w.last[k - 1]["rel"] if e["p"] == p] or [[]])[0]
    if z < 0.3:
        return ("assoc", p, [rng.choice(uni) for _ in range(rng.choice([0, 1, 2, 3]))])
    if z < 0.45:
        return ("disassoc", p, rng.sample(has, rng.randint(1, len(has))) if has else [])
    if z < 0.55:
        return ("tadd", rng.choice(uni))
    if z < 0.63:
        return ("tremove", rng.choice(uni))
    if z < 0.73:
        return ("setia", rng.choice(ias))
    if z < 0.9:
        return ("setdpt", p, rng.choice(ALL))
    return ("unsetdpt", p)


def shown(rng, tier, shard, nshards):
    """C39: the texts of the tables after every operation and of every message"""
    for c in range(10 if tier == "quick" else 150):
        uni = [a for a in addresses(rng, 9)][:7]
        ias = [a for a in (IA, 1, 0xFFFE, 0x0A0B, rng.randrange(1, 65536)) if a not in uni]
        w = World("shown-%d-%d" % (shard, c), uni)
        ps = rng.sample(range(1, 3000), 5)
        w.naming = {p: rng.choice(NAMES) for p in ps}
        cap = rng.choice([3, 5, 255, 255])
        k = w.stack(ias[0], rng.sample(uni, rng.choice([0, 1, 2])), cap, [(p, uni[0]) for p in ps[:rng.choice([0, 2])]], [(ps[0], rng.choice(ALL))])
        s = {m: w.session(k, m) for m in ("usb", "ip")}
        w.text(k)
        for _ in range(22):
            op = reconfigure(rng, w, k, uni, ps, ias)
            getattr(w, op[0])(k, *op[1:])
            w.text(k)
            m = rng.choice(["usb", "ip"])
            w.dec(s[m], on(m, any_telegram(rng, w, k, uni), w.cur(s[m])["rc"]))
            for msg in (w.raw or []):
                x = canon(msg)
                if x["k"] in ("group", "prop"):
                    w.mtext(x, msg)
                elif x["k"] == "treq":
                    w.rtext(x, msg)
            w.dec(s["ip"], core_frame(rng))
            for msg in (w.raw or []):
                x = canon(msg)
                if x["k"] in ("conres", "csres", "disres", "searchres"):
                    w.rtext(x, msg)
            x = request(rng, w, k, ps)
            msg = (APP.a_group_value_read.req.Msg(asap=w.asap(x["asap"])) if x["k"] == "groupread" else build(x))
            if x["k"] in ("groupwrite", "groupwriteind"):
                msg = msg._replace(asap=w.asap(x["asap"]))
            w.mtext(x, msg)
            w.rtext(core_request(rng))
            w.rtext(dict(k="ack", ctr=octet(rng), st=rng.choice([int(x) for x in IP.ErrorCodes])))
            if rng.random() < 0.2:
                w.stext(s[rng.choice(["usb", "ip"])])
        yield w.history()


def shown_large(rng, tier, shard, nshards):
    """C39: the texts of devices with many entries"""
    for c in range(1 if tier == "quick" else 6):
        n = rng.choice([17, 33, 40, 65, 70])
        uni = sorted(rng.sample(range(1, 65536), n + 2))
        w = World("shownlarge-%d-%d" % (shard, c), uni[:2])
        ps = rng.sample(range(1, 400), n)
        w.naming = {p: rng.choice(NAMES) for p in ps}
        k = w.stack(next(a for a in (IA, 1, 2) if a not in uni), uni[:n // 2], 255, [(p, uni[0]) for p in ps[:n // 2]], [(p, rng.choice(ALL)) for p in ps[:-3]])
        s = w.session(k, rng.choice(["usb", "ip"]))
        w.text(k)
        w.assoc(k, ps[0], uni[1:])
        w.assoc(k, ps[-1], rng.sample(uni, 3))
        for p in ps[-3:]:
            w.text(k)
            w.setdpt(k, p, rng.choice(ALL))
        w.text(k)
        w.stext(s)
        w.disassoc(k, ps[0], rng.sample(uni, 5))
        w.unsetdpt(k, ps[1])
        w.text(k)
        w.stext(s)
        yield w.history()


LINK_FIELDS = dict(source=65536, destination=65536, address_type=2, connected=2, apci=1024, data=64, nsdu=9)


def links(rng, tier, shard, nshards):
    """C38: views of link frames: every octet swept, then random ones with fields set"""
    base = [0xBC, 0xE0, 0x11, 0x02, 0x09, 0x01, 0x01, 0x00, 0x81]
    space = [(i, v, b) for i in range(9) for v in range(256) for b in (0, 1)]
    space += [(7, v, b) for v in range(256) for b in (2, 3)]
    for n, part in enumerate(mine(chunks(space, 100), shard, nshards)):
        w = World("links-%d-%d" % (shard, n))
        for i, v, b in part:
            o = list(base) if b == 0 else [octet(rng) for _ in range(9)]
            if b == 2:
                o[1] |= 0x80
            elif b == 3:
                o[1] &= 0x7F
            o[i] = v
            o += [octet(rng) for _ in range(rng.choice([0, 0, 1, 2, 14]))]
            w.link(o, [(f, 1 + rng.randrange(9) if f == "nsdu" else rng.choice([0, LINK_FIELDS[f] - 1, rng.randrange(LINK_FIELDS[f])]))
                       for f in rng.choices(list(LINK_FIELDS), k=rng.choice([0, 1, 2, 5]))])
        yield w.history()
    w = World("links-short-%d" % shard)
    for n in range(0, 10):
        w.link([octet(rng) for _ in range(n)])
    yield w.history()
    # every kind set on every transport octet
    for n, part in enumerate(mine(chunks([(t, u, g) for t in range(256) for u in range(1, 10) for g in (0, 128)], 150), shard, nshards)):
        w = World("links-kinds-%d-%d" % (shard, n))
        for t, u, g in part:
            o = list(base)
            o[7], o[1] = t, (o[1] & 127) | g
            w.link(o, [("nsdu", u)])
        yield w.history()


def names(rng, tier, shard, nshards):
    """C40: two devices with the same history; the group objects of one have names"""
    for c in range(8 if tier == "quick" else 120):
        uni = [a for a in addresses(rng, 7)][:5]
        ias = [a for a in (IA, 1, 0xFFFE) if a not in uni]
        w = World("names-%d-%d" % (shard, c), uni)
        ps = rng.sample(range(1, 400), 4)
        kinds = (None, "one", "two", "", "light", ps[0], "individual address")

        class Any(dict):
            def get(self, p, default=None):
                return rng.choice(kinds)
        both = []

        def twice(fn):
            r = []
            for k in (1, 2):
                w.naming = {} if k == 1 else Any()
                r.append(fn(k))
            return r
        start = (rng.sample(uni, rng.choice([0, 2])), rng.choice([3, 255, 255]), [(p, uni[0]) for p in ps[:rng.choice([0, 2])]], [(ps[0], rng.choice(ALL))])
        twice(lambda k: w.stack(ias[0], *start))
        m = rng.choice(["usb", "ip"])
        twice(lambda k: w.session(k, m))

        def snaps():
            w.naming = {}
            w.equal("C40", "tables depend on names", w.snap(1), w.snap(2))
        snaps()
        for _ in range(16):
            op = reconfigure(rng, w, 1, uni, ps, ias)
            a, b = twice(lambda k: getattr(w, op[0])(k, *op[1:]))
            w.equal("C40", "an operation depends on names", a, b)
            snaps()
            for _ in range(2):
                f = on(m, any_telegram(rng, w, 1, uni), w.cur(1)["rc"])
                a, b = twice(lambda k: w.dec(k, f)[0])
                w.same("C40", "what is delivered depends on names", [a, b])
            x = request(rng, w, 1, ps)
            if x["k"] in ("groupread", "groupwrite", "groupwriteind"):
                a, b = twice(lambda k: named_enc(w, k, x))
                w.same("C40", "what is sent depends on names", [a, b])
        for _ in range(8):
            p, q = rng.choice(ps + [0]), rng.choice(ps + [0])
            w.same_names(p, rng.choice(kinds), rng.choice([p, q]), rng.choice(kinds))
        yield w.history()


def named_enc(w, s, x):
    """encode with the name a group object has in the world"""
    msg = build(x)
    return w.enc(s, x, msg=msg._replace(asap=w.asap(x["asap"])))[0]


def owned(rng, tier, shard, nshards):
    """C41: what was delivered or encoded stays as it was; what is done to it changes nothing else"""
    for c in range(10 if tier == "quick" else 150):
        w = World("owned-%d-%d" % (shard, c))
        w.reuse = None  # messages are held
        k, pool, ps = config(w, rng, n_addr=3, n_asap=6, k_dpt=1, kinds=rng.choice([["DPT_Switch", "DPT_Start"], ALL, ["DPT_Value_Temp", "DPT_Float_16"], ["DPT_Float_32", "DPTSetupClima"]]))
        ss = {m: w.session(k, m) for m in ("usb", "ip", "tp")}
        w.setcnt(ss["ip"], 3, 5, 7)
        held = []
        for _ in range(14):
            m = rng.choice(["usb", "ip"])
            s = ss[m]
            if rng.random() < 0.6:
                f = on(m, any_telegram(rng, w, k, pool), w.cur(s)["rc"], w.cur(s)["ch"])
                first, e = w.dec(s, f)
                got = list(w.raw or [])
                held.append((got, canon_all(got)))
                if got and rng.random() < 0.6:
                    # change one message: the others of the telegram stay, and the next telegram is read as before
                    i = rng.randrange(len(got))
                    before = [canon(x) for j, x in enumerate(got) if j != i]
                    ok = spoil(rng, got[i])
                    if ok:
                        held.pop()
                        w.equal("C41", "messages of one telegram share their values", before, [canon(x) for j, x in enumerate(got) if j != i])
                        w.same("C41", "a telegram decoded again", [first, w.dec(s, f)[0]])
                        if isinstance(w.raw, list):
                            r = list(w.raw)
                            lookup(lambda: w.raw.clear(), None)
                            w.same("C41", "a telegram decoded again", [first, w.dec(s, f)[0]])
                            held.append((r, canon_all(r)))
            else:
                m = rng.choice(["usb", "ip", "tp"])
                s = ss[m]
                x = request(rng, w, k, ps)
                first, e = w.enc(s, x)
                if e["ok"]:
                    msg, fr = w.raw
                    if rng.random() < 0.5:
                        # the program goes on with its datapoint
                        before = lookup(lambda: octets(fr), [])
                        if spoil(rng, msg):
                            w.equal("C41", "a frame changes with the message it was encoded from", before, lookup(lambda: octets(fr), []))
                    if rng.random() < 0.5:
                        lookup(lambda: (setattr(fr[rng.randrange(len(fr))], "value", octet(rng)), fr.append(fr[0])), None)
                        w.same("C41", "a message encoded again", [first, w.enc(s, x)[0]])
                        msg, fr = w.raw or (None, [])
                    held.append((fr, lookup(lambda: octets(fr), [])))
        for got, was in held:
            w.equal("C41", "what was delivered before changed", was, canon_all(got) if was and isinstance(was[0], dict) else lookup(lambda: octets(got), []))
        yield w.history()


def lists(rng, tier, shard, nshards):
    """C41: the list a decode call returned is the caller's own, for telegrams of all kinds and most of all for those which give nothing"""
    for c in range(4 if tier == "quick" else 40):
        w = World("lists-%d-%d" % (shard, c))
        k, pool, ps = config(w, rng, n_addr=3, n_asap=4, k_dpt=1)
        m = ("usb", "ip")[c % 2]
        s = w.session(k, m)
        cnt = (3, 5, 7)
        a = rng.choice(pool)
        base = rng.choice([link(a, APCI["write"], low=1), link(IA, PROP["response"], [1, 2, 0x10, 3, 5], group=False, src=IA)])
        fs = rng.sample(foreign_frames(rng, m, base, 3), 25)
        # every kind of transport unit to each kind of destination
        for t in (0x00, 0x04, 0x08, 0x3C, 0x40, 0x44, 0x7C, 0x80, 0x81, 0x82, 0x83, 0xC0, 0xC1, 0xC2, 0xC3, 0xC6):
            for dst, group in ((a, True), (0, True), (IA, False)):
                l = link(dst, APCI["write"], low=1, group=group, src=IA)
                l[7] = t | (l[7] & 3 if t < 0x80 else 0)
                fs.append(on(m, cemi(rng.choice([IND, CON]), l), 3))
        for svc in (0x000, 0x080, 0x0C0, 0x140, 0x2C0, 0x3D5, 0x3D6, 0x3D7, 0x3FF):
            for dst, group in ((a, True), (IA, False)):
                fs.append(on(m, cemi(rng.choice([IND, CON]), link(dst, svc, [1, 2, 16, 1], group=group, src=IA)), 3))
        for code in (0x10, 0x11, 0x2B, 0x2D, 0x2F, 0xF0, 0xFC):
            fs.append(on(m, cemi(code, base), 3))
        if m == "usb":
            fs += [[1, 0x13, 10, 0, 8, 0, 2, 0x0F, rng.choice([1, 2, 3, 4]), 0, 0, f, v] for f in (0, 1, 2, 3, 5) for v in (0, 1, 9)]
        else:
            fs += [core_frame(rng, 7) for _ in range(12)]
            fs += [on("ip", cemi(IND, base), n) for n in (2, 1, 200)]
            fs += [[6, 16, 4, 0x21, 0, 10, 4, 7, n, st] for n in (5, 4, 77) for st in (0, 1, 2)]
        rng.shuffle(fs)

        def ask(f):
            if m == "ip":
                w.setcnt(s, *cnt)
            return w.dec(s, f)
        first = [ask(f) for f in fs]
        held = []
        for i, f in enumerate(fs):
            ask(f)
            r = w.raw
            if not isinstance(r, list):
                continue
            z = i % 3
            lookup(lambda: (r.append(None) if z == 0 or not r else r.clear() if z == 1 else r.extend(r)), None)
            held.append((r, len(r)))
            w.same("C41", "a telegram decoded again", [first[i][0], ask(f)[0]])
            j = rng.randrange(len(fs))
            w.same("C41", "another telegram decoded again", [first[j][0], ask(fs[j])[0]])
        w.equal("C41", "a list which was delivered before changed", [n for _, n in held], [len(r) for r, _ in held])
        yield w.history()


def soak(rng, tier, shard, nshards):
    """C16, C18 - C20, C23: one device for long; most of the traffic is not recorded, what is recorded must not show it"""
    big = tier != "quick"
    for c in range(1):
        w = World("soak-%d-%d" % (shard, c))
        k, pool, ps = config(w, rng, n_addr=6, n_asap=6, k_dpt=1)
        ss = {m: w.session(k, m) for m in ("usb", "ip", "tp")}
        ip = ss["ip"]
        w.setcnt(ip, 5, 9, 7)

        # what is asked before and after the crowd of unrecorded telegrams and requests
        def frames(m, n):
            r = [on(m, any_telegram(rng, w, k, pool), 5, 7) for _ in range(n)]
            return r + rng.sample(foreign_frames(rng, m, link(rng.choice(pool), APCI["write"], low=1), 5), n // 3)
        probes = [(ss[m], f) for m in ("usb", "ip") for f in frames(m, 9)]
        xs = [(ss[m], request(rng, w, k, ps)) for m in ("usb", "ip", "tp") for _ in range(5)]

        def ask():
            w.setcnt(ip, 5, 9, 7)
            return [w.dec(s, f)[0] for s, f in probes] + [w.enc(s, x)[0] for s, x in xs]
        first = ask()
        crowd = [(s, wire(w.sess[s - 1][1], f)) for s, f in probes + [(ss[m], f) for m in ("usb", "ip") for f in frames(m, 30)]]
        out = [(s, x, build(x)) for s, x in xs]
        n = (2600, 20000, 70000)[shard % 3] if not big else 150000
        for step in range(3):
            for i in range(n // 3):
                s, f = crowd[i * 7 % len(crowd)]
                guarded(lambda: knx_stack.decode_msg(w.sess[s - 1][2], f))
                if i % 3 == 0:
                    s, x, msg = out[i // 3 % len(out)]
                    guarded(lambda: send(w.sess[s - 1][2], x, msg))
            for a, b in zip(first, ask()):
                w.same("C23", "asked again after long use", [a, b])
            for _ in range(3):
                op = reconfigure(rng, w, k, pool, ps, [IA])
                if op[0] not in ("setdpt", "unsetdpt"):
                    getattr(w, op[0])(k, *op[1:])
            first = ask()
        # a connection for long: thousands of requests in either direction, every 97th recorded
        st = w.sess[ip - 1][2]
        l = cemi(IND, group_frame(rng, rng.choice(pool), "DPT_Switch"))
        w.setcnt(ip, 0, 0, 9)
        total = 1500 if not big else 70000
        gw = lc = 0
        ack = knx_stack.knxnet_ip.tunneling.ack.Msg
        for i in range(total):
            if i % 97 in (0, 1):
                _, e = w.dec(ip, ipt(l, gw % 256, 9))
                for q in e["msgs"]:
                    if q["k"] == "treq" and q["st"] == 0:
                        w.enc(ip, dict(k="ack", ctr=q["ctr"], st=0))
                w.enc(ip, dict(k="groupread", asap=rng.choice(ps)))
                w.dec(ip, [6, 16, 4, 33, 0, 10, 4, 9, lc % 256, 0])
            else:
                def turn():
                    for q in knx_stack.decode_msg(st, wire("ip", ipt(l, gw % 256, 9))):
                        if canon(q)["k"] == "treq" and canon(q)["st"] == 0:
                            knx_stack.encode_msg(st, ack(sequence_counter=q.sequence_counter, status=q.status))
                    knx_stack.decode_msg(st, wire("ip", [6, 16, 4, 33, 0, 10, 4, 9, lc % 256, 0]))
                guarded(turn)
                now = w.cur(ip)
                if (now["rc"], now["lc"]) != ((gw + 1) % 256, (lc + 1) % 256):
                    # the model was not told of these turns: what the counters are and what they should be
                    w.equal("C18", "the counter of received requests after a long time", [i, (gw + 1) % 256], [i, now["rc"]])
                    w.equal("C20", "the counter of sent requests after a long time", [i, (lc + 1) % 256], [i, now["lc"]])
                    w.setcnt(ip, gw % 256, lc % 256, 9)
                    w.dec(ip, ipt(l, gw % 256, 9))
                    w.enc(ip, dict(k="ack", ctr=gw % 256, st=0))
                    w.dec(ip, [6, 16, 4, 33, 0, 10, 4, 9, lc % 256, 0])
                    break
                if i % 97 == 96:
                    w.setcnt(ip, (gw + 1) % 256, (lc + 1) % 256, 9)
            gw, lc = gw + 1, lc + 1
        yield w.history()


def spoil(rng, m):
    """change the values a message holds"""
    if hasattr(m, "dpt"):
        name = type(m.dpt).__name__
        v = num(rand_val(rng, name)) if name in DPTS else 1
        v = v ^ 1
        return lookup(lambda: (setattr(m.dpt, "value", v), True)[1], False)
    if hasattr(m, "data") and isinstance(m.data, list) and m.data:
        return lookup(lambda: (setattr(m.data[0], "value", m.data[0].value ^ 0x5A), m.data.append(m.data[0]), True)[2], False)
    return False



def asked(rng, tier, shard, nshards):
    """C42: lookups of sessions between table operations and traffic"""
    for c in range(12 if tier == "quick" else 180):
        uni = [a for a in addresses(rng, 8)][:6]
        ias = [a for a in (IA, 1, 0xFFFE, 0x0A0B, rng.randrange(1, 65536)) if a not in uni]
        w = World("asked-%d-%d" % (shard, c), uni)
        ps = rng.sample(list(range(1, 300)) + [255, 256, 65535, 65536], 5)
        k = w.stack(ias[0], rng.sample(uni, rng.choice([0, 1, 2])), rng.choice([3, 5, 255, 255]))
        ss = [w.session(k, m) for m in ("usb", "ip", "tp")]
        other = w.stack(ias[1], uni[:2], 255, [(ps[0], uni[0])], [(ps[0], "DPT_Switch")])
        ss.append(w.session(other, "usb"))
        for _ in range(22):
            op = reconfigure(rng, w, k, uni, ps, ias)
            getattr(w, op[0])(k, *op[1:])
            for again in list(w.asked):
                if rng.random() < 0.3:
                    w.ask(again)
            for _ in range(rng.choice([0, 1, 2, 3])):
                a = rng.choice(uni + uni + [w.last[k - 1]["ia"], word(rng), 0])
                l = link(a, APCI[rng.choice(["read", "write", "response"])], low=0, group=rng.random() < 0.8)
                w.ask(rng.choice(ss), l, rng.choice(ps + [0, 9999]))
            if rng.random() < 0.3:
                m = rng.choice([0, 1])
                w.dec(ss[m], on(("usb", "ip")[m], any_telegram(rng, w, k, uni), w.cur(ss[m])["rc"]))
            if rng.random() < 0.3:
                w.enc(rng.choice(ss[:3]), request(rng, w, k, ps))
            if rng.random() < 0.2:
                w.counters(rng.choice(ss), rng.choice([255, 256, 257, 511, 512, rng.randrange(70000)]), rng.choice([255, 256, 257, rng.randrange(70000)]))
            if rng.random() < 0.1:
                w.stext(rng.choice(ss))
        yield w.history()


def kept(rng, tier, shard, nshards):
    """C43: what a device was built from, and what its lookups returned, is changed by the program"""
    for c in range(10 if tier == "quick" else 150):
        uni = [a for a in addresses(rng, 9)][:7]
        ia = [a for a in (IA, 1) if a not in uni][0]
        w = World("kept-%d-%d" % (shard, c), uni)
        w.blindness = 0
        ps = rng.sample(range(1, 300), 5)
        addrs = [GA(free_style=a) for a in rng.sample(uni, rng.choice([0, 2, 4]))]
        assoc = [knx_stack.Association(asap=ASAP(p), address=GA(free_style=a)) for p in rng.sample(ps, rng.choice([0, 2])) for a in rng.sample(uni, 2)]
        gobj = {ASAP(p): getattr(D, rng.choice(ALL)) for p in rng.sample(ps, rng.choice([0, 1, 3]))}

        def built():
            at = knx_stack.AddressTable(Addr(ia), addrs, 255)
            ast = knx_stack.AssociationTable(at, assoc)
            w.stacks.append(Stack(at, ast, knx_stack.GroupObjectTable(gobj)))
            w.last.append(w.snap(len(w.stacks)))
            w.ev.append(dict(op="newstack", k=len(w.stacks), ia=ia, addrs=[num_of(a) for a in addrs], max=255,
                             assoc=[dict(asap=int(x.asap.value), addr=num_of(x.address)) for x in assoc],
                             gobj=[dict(asap=int(p.value), dpt=d.__name__) for p, d in gobj.items()], snap=w.last[-1]))
            return len(w.stacks)
        k, other = built(), built()
        s = w.session(k, "usb")
        held = []
        for _ in range(14):
            op = reconfigure(rng, w, k, uni, ps, [ia])
            if rng.random() < 0.7:
                getattr(w, op[0])(k, *op[1:])
            st, snap = w.stacks[k - 1], w.snap(k)
            w.equal("C43", "devices built from the same lists change together", w.last[other - 1], w.snap(other))
            what = rng.choice(["addresses", "tsaps", "get_asaps", "get_tsaps", "get_addresses", "from_address", "addrs", "assoc", "gobj", "asaps and types", "each"])
            p = rng.choice(ps)
            if what in ("addrs", "assoc", "gobj"):
                # the program goes on with its own lists
                if what == "addrs":
                    addrs.append(GA(free_style=rng.choice(uni)))
                elif what == "assoc":
                    assoc.append(knx_stack.Association(asap=ASAP(p), address=GA(free_style=rng.choice(uni))))
                else:
                    gobj[ASAP(p)] = getattr(D, rng.choice(ALL))
                    if len(gobj) > 1 and rng.random() < 0.5:
                        del gobj[rng.choice(list(gobj))]
            elif what == "each" and rng.random() < 0.5:
                # take every address away which the table lists
                for a in st.at.addresses:
                    w.tremove(k, num_of(a))
                w.equal("C43", "not every listed address was taken away", [], w.last[k - 1]["addrs"])
                snap = w.snap(k)
            else:
                def look():
                    if what == "addresses":
                        return st.at.addresses
                    if what == "tsaps":
                        return st.at.tsaps
                    if what == "get_asaps":
                        return st.ast.get_asaps(rng.choice(snap["tsaps"]))
                    if what == "get_tsaps":
                        return st.ast.get_tsaps(ASAP(p))
                    if what == "get_addresses":
                        return st.ast.get_addresses(snap["tsaps"])
                    if what == "from_address":
                        return st.ast.get_asaps_from_address(GA(free_style=rng.choice(uni)))
                    w.sess[s - 1][2].ldata = knx_stack.layer.L_Data.make_from(knx_stack.Msg.make_from_str("BCE01102%04X010081" % rng.choice(uni)))[0]
                    return w.sess[s - 1][2].get_asaps_and_dpts()
                got = lookup(look, None)
                if isinstance(got, list):
                    z = rng.randrange(4)
                    if z == 0:
                        lookup(lambda: got.clear(), None)
                    elif z == 1:
                        lookup(lambda: got.pop(), None)
                    elif z == 2:
                        lookup(lambda: got.append(got[0] if got else GA(free_style=uni[0])), None)
                    else:
                        lookup(lambda: got.reverse(), None)
                    held.append((got, repr(got)))
            w.equal("C43", "the tables change with what the program holds", snap, w.snap(k))
            a = rng.choice(uni)
            w.dec(s, usb(cemi(IND, group_frame(rng, a, (dpts_at(w, k, a) or ALL)[0], "write"))))
        for got, was in held:
            w.equal("C43", "what a lookup returned changes with the tables", was, repr(got))
        yield w.history()


BIG = [254, 255, 256, 257, 511, 512, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 1 << 20, (1 << 31) - 1]


def large(rng, tier, shard, nshards):
    """big devices: hundreds of addresses, group object numbers beyond two octets, crowded addresses"""
    for c in range(2 if tier == "quick" else 16):
        n = rng.choice([260, 300, 420])
        every = sorted(rng.sample(range(1, 65536), n))
        cap = n + rng.choice([0, 1, 2, 5])
        ia = rng.choice([x for x in (IA, 1, 0xFFFF, every[100] + 1) if x not in every])
        # the addresses around the 256th access point, the ends, some others
        pool = list(dict.fromkeys([every[i] for i in (0, 1, 126, 127, 128, 253, 254, 255, 256, 257, n - 2, n - 1)] + rng.sample(every, 6)))
        w = World("large-%d-%d" % (shard, c), pool)
        w.blindness, w.light = 0.96, True
        ps = rng.sample(BIG, 8) + rng.sample(range(1, 254), 4)
        k = w.stack(ia, every if c % 2 else every[:250], cap, [(p, a) for p in ps[:4] for a in rng.sample(pool, 2)])
        s = {m: w.session(k, m) for m in ("usb", "ip")}
        crowd = list(range(300, 340))
        for p in crowd if c % 2 == 0 else crowd[:12]:
            w.assoc(k, p, [pool[-1]])
            w.setdpt(k, p, rng.choice([d for d in ALL if DPTS[d][0] == 1]))
        for p in ps:
            w.assoc(k, p, rng.sample(pool[:-1], rng.randint(1, 4)))
            w.setdpt(k, p, rng.choice(ALL))
        many = rng.sample(every, 40)
        w.assoc(k, 70000, many)
        w.setdpt(k, 70000, "DPT_Switch")
        for z in (39, 17, 20, 0):  # known already
            w.assoc(k, 70000, [many[z]])
            w.assoc(k, ps[0], [many[z]])
        w.disassoc(k, 70000, [many[17], many[39]])
        for z in range(30):
            m = rng.choice(["usb", "ip"])
            y = rng.random()
            new = rng.choice([a for a in (rng.randrange(1, 65536), every[0] - 1, every[-1] + 1) if 0 < a < 65536 and a != ia])
            if y < 0.1:
                w.tadd(k, new)
            elif y < 0.2:
                w.assoc(k, rng.choice(ps), [rng.choice(pool), new])
            elif y < 0.3:
                p = rng.choice(ps + [70000])
                has = ([e["as"] for e in w.last[k - 1]["rel"] if e["p"] == p] or [[]])[0]
                w.disassoc(k, p, rng.sample(has, rng.randint(1, min(2, len(has)))) if has else [])
            elif y < 0.35:
                w.tremove(k, rng.choice(pool[:-1]))
            else:
                traffic(w, rng, s[m], pool + [rng.choice(many)], 1, fr=y < 0.4)
                outgoing(w, rng, s[m], ps + [70000, rng.choice(crowd)], 1, fr=y < 0.4)
        yield w.history()


def numbered(rng, tier, shard, nshards):
    """C12, C13, C15, C16: many group objects numbered without gaps, in any order; tables which have been changed
    thousands of times (unrecorded, and back again)"""
    for c in range(1 if tier == "quick" else 6):
        pool = sorted(rng.sample(range(1, 65536), 8))
        w = World("numbered-%d-%d" % (shard, c), pool)
        w.blindness, w.light = 0.9, True
        k = w.stack(IA, [], rng.choice([7, 8, 255]))
        s = w.session(k, "usb")
        n = rng.choice([66, 90, 130, 260])
        ps = list(range(1, n + 1))
        if (shard + c) % 3:
            rng.shuffle(ps)
        elif (shard + c) % 2:
            ps.reverse()
        for p in ps:
            w.assoc(k, p, [pool[p % 7]] if p % 3 else [])
        w.blindness = 0
        w.assoc(k, n, [pool[0]])
        for p in (n + 2, n + 1):
            w.assoc(k, p, [pool[1]])
        w.setdpt(k, n, "DPT_Switch")
        t = w.stacks[k - 1]
        some = [p for p in ps if p % 3][:5]
        for lap in range(3):
            for i in range((3000, 6000, 2500, 4500)[shard % 4] if tier == "quick" else 12000):
                a, p = pool[i % 8], some[i % len(some)]

                def back_and_forth():
                    z = i % 5
                    if z == 0:
                        t.at.add(w.ga(pool[7]))
                        t.at.remove(w.ga(pool[7]))
                    elif z == 1:
                        t.ast.associate(w.asap(p), [w.ga(pool[7])])
                        t.ast.disassociate(w.asap(p), [w.ga(pool[7])])
                    elif z == 2:
                        t.got.associate(w.asap(7000 + i % 300), knx_stack.datapointtypes.DPT_Switch)
                        t.got.disassociate(w.asap(7000 + i % 300))
                    elif z == 3:
                        t.at.individual_address = Addr(IA + 1)
                        t.at.individual_address = Addr(IA)
                    else:
                        t.ast.disassociate(w.asap(p), [w.ga(a), w.ga(65500)])
                guarded(back_and_forth)
            w.tadd(k, pool[0])
            traffic(w, rng, s, pool, 3, fr=True)
            outgoing(w, rng, s, some, 2, fr=True)
            if lap == 0:
                w.tadd(k, pool[7])  # room for one more, or not
                w.tremove(k, pool[7])
            if lap == 1:
                w.assoc(k, 3, [pool[7]])
                w.disassoc(k, 3, [pool[7]])
        yield w.history()


def mangle(rng, f):
    """a frame with a few octets changed, lost, doubled or exchanged"""
    f = list(f)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if not f:
            return f
        z, i = rng.randrange(10), rng.randrange(len(f))
        if z < 3:
            f[i] ^= 1 << rng.randrange(8)
        elif z < 5:
            f[i] = rng.choice([0, 1, 255, octet(rng), f[i] + 1 & 255, f[i] - 1 & 255])
        elif z == 5:
            del f[i]
        elif z == 6:
            f.insert(i, rng.choice([0, f[i], octet(rng)]))
        elif z == 7:
            j = rng.randrange(len(f))
            f[i], f[j] = f[j], f[i]
        elif z == 8:
            f = f[:i]
        else:
            f += [octet(rng) for _ in range(rng.choice([1, 2, 8, 40]))]
    return f


def mangled(rng, tier, shard, nshards):
    """frames of every kind, mangled"""
    for c in range(14 if tier == "quick" else 160):
        w = World("mangled-%d-%d" % (shard, c))
        k, pool, ps = config(w, rng, n_addr=4, n_asap=4, k_dpt=0.9)
        m = ("usb", "ip")[c % 2]
        s = w.session(k, m)
        w.setcnt(s, octet(rng), octet(rng), octet(rng))
        ia = w.last[k - 1]["ia"]
        for _ in range(60):
            y = rng.random()
            code, info = rng.choice([IND, IND, CON]), [octet(rng) for _ in range(rng.choice([0, 0, 0, 1, 4, 9, 200 if m == "ip" else 20]))]
            rc = w.cur(s)["rc"] if rng.random() < 0.8 else octet(rng)
            if y < 0.5:
                a = rng.choice(pool)
                l = group_frame(rng, a, rng.choice(dpts_at(w, k, a) or ALL), rng.choice(["read", "response", "write", "write"]))
            else:
                l = link(rng.choice([ia, ia, 0x1234]), PROP[rng.choice(["read", "response", "write"])], [octet(rng) for _ in range(4 + rng.choice([0, 1, 2, 10, 30]))],
                         group=False, src=rng.choice([ia, ia, 0x1234]))
            f = on(m, cemi(code, l, info), rc)
            if y > 0.85:
                f = core_frame(rng) if m == "ip" else [1, 0x13, 10, 0, 8, 0, 2, 15, rng.choice([2, 4]), 0, 0, rng.choice([3, 5]), rng.randrange(4)]
            elif y > 0.8 and m == "ip":
                f = [6, 16, 4, 0x21, 0, 10, 4, w.cur(s)["ch"], w.cur(s)["lc"], rng.choice([0, 0, 0x21])]
            w.dec(s, mangle(rng, f) if rng.random() < 0.85 else f)
            if m == "ip" and rng.random() < 0.2:
                w.enc(s, dict(k="ack", ctr=w.cur(s)["rc"], st=0))
        yield w.history()


SUITES = dict(soak=soak, numbered=numbered, shownlarge=shown_large, mangled=mangled, lists=lists, shown=shown, links=links, names=names, owned=owned, large=large, asked=asked, kept=kept)
