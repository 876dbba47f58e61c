"""Every value of every octet: frames of each kind in which one octet takes all
its values in turn, requests in which one field does, and sessions of which one
counter does."""
from knxlib import *  # noqa
from suites_stack import IA, chunks, mine, group_frame

PAYLOADS = {"DPT_Switch": [0, 0, 0, 1], "DPT_Brightness": [0, 0, 0, 0x80], "DPT_Value_Temp": [0, 0, 0x0C, 0x1A], "DPT_Value_Power": [0x44, 0x7A, 0x12, 0x34]}
DST, OBJ = 0x0A5C, 77


def group_templates(m):
    for d in PAYLOADS:
        yield d, IND, "write"
    yield "DPT_Switch", CON, "write"
    yield "DPT_Brightness", IND, "response"
    yield "DPT_Value_Temp", CON, "response"
    yield "DPT_Switch", IND, "read"
    yield "DPT_Brightness", CON, "read"


HEAD = dict(usb=11, ip=10)
FIRST = 6  # octets of the link frame before its length octet: the destination ends it


def device(w, m, known=(), dpt="DPT_Switch"):
    """a device which knows DST and some more addresses"""
    pool = [a for a in dict.fromkeys([DST] + list(known)) if a and a != IA]
    w.probes = [DST]
    if known:
        w.blindness, w.light = 0.96, True
    k = w.stack(IA, [], 600, [(OBJ, a) for a in pool], [(OBJ, dpt)])
    w.assoc(k, 300, [DST])
    return k, w.session(k, m)


def values(rng):
    v = list(range(256))
    rng.shuffle(v)
    return v


def sweep(w, vs, s, make, i):
    """frames which differ from make(counter) in octet i"""
    for v in vs:
        f = make(w.cur(s)["rc"])
        if i < len(f):
            f[i] = v
        w.dec(s, f)


def octets_(rng, tier, shard, nshards):
    todo = []
    for m in ("ip", "usb"):
        for t, (d, code, svc) in enumerate(group_templates(m)):
            size = len(on(m, cemi(code, group_frame(rng, DST, d, svc, PAYLOADS[d]))))
            for i in range(size):
                if i < HEAD[m] and t not in (0, 3):  # the header, for a short and a long telegram
                    continue
                todo.append((m, d, code, svc, i, ()))
                if tier != "quick" and i > HEAD[m]:
                    todo.append((m, d, code, svc, i, (3, 1, 7)))
    for n, (m, d, code, svc, i, info) in enumerate(mine(todo, shard, nshards)):
        at = i - HEAD[m] - 2 - len(info)
        vs = values(rng)
        # all the addresses of the destinations are known, some at a time
        for z, vs in enumerate([vs] if at not in (4, 5) else chunks(vs, 16)):
            w = World("octets-%d-%d-%d" % (shard, n, z))
            k, s = device(w, m, [v << 8 | DST & 255 for v in vs] if at == 4 else [DST & 0xFF00 | v for v in vs] if at == 5 else [], d)
            w.setcnt(s, rng.choice([0, 7, 200, 255]), 3, 9)
            sweep(w, vs, s, lambda rc: on(m, cemi(code, group_frame(rng, DST, d, svc, PAYLOADS[d]), info), rc, 9), i)
            yield w.history()


def core_templates():
    hp, crd = [8, 1, 10, 1, 2, 3, 14, 87], [4, 4, 17, 5]
    yield [6, 16, 2, 6, 0, 20, 61, 0] + hp + crd
    yield [6, 16, 2, 6, 0, 8, 61, 0x24]
    yield [6, 16, 2, 8, 0, 8, 61, 0]
    yield [6, 16, 2, 10, 0, 8, 61, 0]
    yield [6, 16, 2, 2, 0, 76] + hp + [54, 1, 2, 0, 17, 5, 0, 1] + list(range(20, 40)) + [65] * 28 + [0, 0] + [2, 2, 3, 1]
    yield [6, 16, 4, 0x21, 0, 10, 4, 61, 3, 0]


def proctets(rng, tier, shard, nshards):
    """telegrams for the properties of the device, the core services, the features of a USB interface"""
    todo = []
    for m in ("ip", "usb"):
        for t, (code, svc, n) in enumerate([(IND, "write", 7), (CON, "write", 4), (IND, "read", 4), (CON, "read", 4), (IND, "response", 6), (CON, "response", 5)]):
            body = [11, 0xC5, 0x10, 0x03] + [0x21, 0x43, 0x65][:n - 4]
            c = cemi(code, link(IA, PROP[svc], body, group=False, src=IA))
            for i in range(HEAD[m] if t else HEAD[m] - 2, HEAD[m] + len(c)):
                todo.append((m, c, None, i))
    for f in core_templates():
        for i in list(range(min(len(f), 22))) + list(range(22, len(f), 9)):
            todo.append(("ip", None, f, i))
    for ft in (3, 5):
        f = [1, 0x13, 11, 0, 8, 0, 3, 15, 2, 0, 0, ft, 1, 0]
        for i in range(len(f)):
            todo.append(("usb", None, f, i))
    for n, (m, c, f, i) in enumerate(mine(todo, shard, nshards)):
        w = World("proctets-%d-%d" % (shard, n))
        k, s = device(w, m)
        if f is None:
            w.setcnt(s, rng.choice([0, 7, 200, 255]), 3, 9)
            sweep(w, values(rng), s, lambda rc: on(m, c, rc, 9), i)
        else:
            for v in values(rng):
                w.setcnt(s, 5, 3, 61 if v % 2 else 9)
                g = list(f)
                g[i] = v
                w.dec(s, g)
                if v % 4 == 0 and m == "ip":
                    w.enc(s, dict(k="connstate", ip=[10, 0, 0, 1], port=5544))
        yield w.history()


def requests(rng, tier, shard, nshards):
    """every value of every field of what is sent, and of the counters and the device it is sent from"""
    todo = []
    for m in ("tp", "usb", "ip"):
        for k in ("propread", "propwrite"):
            for f, top in (("obj", 256), ("pid", 256), ("n", 16), ("ix", 4096)):
                todo.append((m, k, f, range(top) if top < 4096 else sorted(set(range(256)) | set(range(0, 4096, 16)) | {4095})))
        for j in range(3):
            todo.append((m, "propwrite", j, range(256)))
        for d in ("DPT_Brightness", "DPT_Value_Temp", "DPT_Value_Power", "DPT_Control_Dimming"):
            for j in range(4 - DPTS[d][0], 4):
                todo.append((m, d, j, range(16 if DPTS[d][1] else 256)))
        todo += [(m, q, 0, range(z, 256, 8)) for q in ("dsthigh", "dstlow") for z in range(8)]
        todo += [(m, "ia", 8, range(256)), (m, "ia", 0, range(256))]
        if m == "ip":
            todo += [(m, "state", f, range(256)) for f in ("rc", "lc", "ch")]
            for k in ("connect", "search", "connstate", "disconnect"):
                for j in range(6):
                    todo.append((m, k, j, range(256)))
            for j in range(6):
                todo.append((m, "connect", j + 6, range(256)))
    for n, (m, k, f, vs) in enumerate(mine(todo, shard, nshards)):
        w = World("requests-%d-%d" % (shard, n))
        vs = list(vs)
        rng.shuffle(vs)
        d = k if k in DPTS else "DPT_Brightness"
        if k in ("dsthigh", "dstlow"):
            w.blindness, w.light = 0.96, True
            pool = [a for a in ((v << 8 | 0x5C) if k == "dsthigh" else 0x0A00 | v for v in vs) if a and a != IA]
            ps = list(range(1000, 1000 + len(pool)))
            j = w.stack(IA, [], 600, list(zip(ps, pool)), [(p, d) for p in ps])
        else:
            pool, ps = [DST], [OBJ]
            j, _ = device(w, m, dpt=d)
            w.sess.pop(), w.ev.pop(next(z for z in range(len(w.ev)) if w.ev[z]["op"] == "newsess"))
        s = w.session(j, m)
        w.setcnt(s, 200, 100, 9)
        val = PAYLOADS.get(d, [0, 0, 0, 5])
        for q, v in enumerate(vs):
            if k in ("propread", "propwrite"):
                x = dict(k=k, asap=0, obj=11, pid=53, n=1, ix=1, **(dict(data=[1, 2, 3]) if k == "propwrite" else {}))
                if isinstance(f, int):
                    x["data"][f] = v
                else:
                    x[f] = v
            elif k in DPTS:
                b = list(val)
                b[f] = v
                if d == "DPT_Value_Power" and (b[0] & 127) == 127 and b[1] > 127:
                    continue
                x = dict(k=("groupwrite", "groupwriteind")[q % 2], asap=OBJ, dpt=d, val=b)
            elif k in ("connect", "search", "connstate", "disconnect"):
                b = [10, 1, 2, 3, 14, 87, 10, 4, 5, 6, 15, 88]
                b[f] = v
                x = dict(k=k, ip=b[:4], port=b[4] << 8 | b[5])
                if k == "connect":
                    x.update(ip2=b[6:10], port2=b[10] << 8 | b[11])
            elif k == "ia":
                a = v << f | (0x05 if f else 0x1100)
                if a != DST:
                    w.setia(j, a)
                x = dict(k="groupread", asap=OBJ) if q % 2 else dict(k="groupwrite", asap=OBJ, dpt=d, val=val)
            elif k == "state":
                c = dict(dict(rc=200, lc=100, ch=9), **{f: v})
                w.setcnt(s, c["rc"], c["lc"], c["ch"])
                x = [dict(k="groupread", asap=OBJ), dict(k="groupwrite", asap=OBJ, dpt=d, val=val), dict(k="ack", ctr=c["rc"], st=0),
                     dict(k="connstate", ip=[10, 1, 2, 3], port=3671), dict(k="disconnect", ip=[10, 1, 2, 3], port=3671),
                     dict(k="propread", asap=0, obj=11, pid=53, n=1, ix=1)]
                for y in x[:-1]:
                    w.enc(s, y)
                    w.setcnt(s, c["rc"], c["lc"], c["ch"])
                x = x[-1]
            else:
                if q >= len(ps):
                    break
                x = dict(k="groupread", asap=ps[q]) if q % 2 else dict(k="groupwrite", asap=ps[q], dpt=d, val=val)
            w.enc(s, x)
        yield w.history()


SUITES = dict(octets=octets_, proctets=proctets, requests=requests)
