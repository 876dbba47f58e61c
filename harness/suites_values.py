"""Histories of conversions, judged by spec/ValueTrace.tla: addresses, datapoint fields, floats, texts."""
import ast
import math
import random
import re
import struct
from enum import IntEnum
from fractions import Fraction

from knxlib import *  # noqa
from graphs import graph_of, walks
from knxlib import D, Addr, GA, ASAP, APP, IP, MEDIUM, CURRENT, guarded, hung, be4, lookup, num, raw_of, octets, new_state
import knx_stack

TWO, THREE = knx_stack.TwoLevelStyle, knx_stack.ThreeLevelStyle


class Rec:
    def __init__(self, name):
        self.name, self.ev = name, []
        CURRENT[:] = [self]

    def history(self):
        return dict(name=self.name, ev=self.ev)

    def put(self, op, **kw):
        self.ev.append(dict(op=op, **kw))


def chunks(xs, n):
    xs = list(xs)
    for i in range(0, len(xs), n):
        yield xs[i:i + n]


# ---- addresses ------------------------------------------------------------------
def by(via, n):
    if via == "free":
        return GA(free_style=n)
    if via == "two":
        return GA(two_level_style=TWO(main=n >> 11, sub=n & 0x7FF))
    if via == "plain":
        return Addr(n)
    return GA(three_level_style=THREE(main=n >> 11, middle=(n >> 8) & 7, sub=n & 255))


def set_by(via, n, before):
    """the address built first as another one and then changed through its parts"""
    a = GA(free_style=before)
    if via == "free":
        a.free_style = n
    elif via == "two":
        a.two_level_style.main, a.two_level_style.sub = n >> 11, n & 0x7FF
    else:
        a.three_level_style.main, a.three_level_style.middle, a.three_level_style.sub = n >> 11, (n >> 8) & 7, n & 255
    return a


VIAS = ("free", "two", "three")
ANY = VIAS + ("plain",)


def address_row(via, n, rng):
    a = by(via, n) if n % 5 else set_by(via, n, rng.randrange(65536))
    parts = {"free": [n, 0, 0], "two": [n >> 11, n & 0x7FF, 0], "three": [n >> 11, (n >> 8) & 7, n & 255]}[via]
    t2, t3 = a.two_level_style, a.three_level_style
    found = 1
    for v in ANY:
        b = by(v, n)
        if not (a == b and b == a and not a != b and hash(a) == hash(b) and {b: 1}.get(a) == 1 and a in {b} and a in [b]):
            found = 0
    if not (a == Addr(n) and hash(a) == hash(Addr(n))):
        found = 0
    return parts + [int(a.free_style), int(t2.main), int(t2.sub), int(t3.main), int(t3.middle), int(t3.sub), found] + shown(a)


def shown(a):
    """the numbers in the text of an address: hexadecimal, two levels, three levels"""
    g = re.findall(r"0x([0-9A-Fa-f]+)\D+(\d+)/(\d+)\D+(\d+)/(\d+)/(\d+)", repr(a))
    return [int(g[0][0], 16)] + [int(x) for x in g[0][1:]] if len(g) == 1 else [-1] * 6


def addresses(rng, tier, shard, nshards):
    step = 1
    for k, block in enumerate(chunks(range(0, 65536, step), 2048)):
        if k % nshards != shard:
            continue
        r = Rec("addresses-%d" % block[0])
        for via in VIAS:
            for part in chunks(block, 512):
                r.put("addrs", via=via, rows=[address_row(via, n, rng) for n in part])
        rows = []
        for n in block:
            for o in (n ^ (1 << rng.randrange(16)), rng.randrange(65536), n, (n + 256) & 0xFFFF, ((n & 255) << 8) | n >> 8):
                a, b = by(rng.choice(ANY), n), by(rng.choice(ANY), o)
                rows.append([n, o, int(a == b), int(a != b), int(hash(a) == hash(b))])
        for part in chunks(rows, 1024):
            r.put("pairs", rows=part)
        yield r.history()
    for j in range(6 if tier == "quick" else 60):
        r = Rec("lookups-%d-%d" % (shard, j))
        xs = sorted(set(rng.sample(range(65536), rng.randrange(1, 40)) + [0, 255, 256, 2047, 2048, 65535][:rng.randrange(7)]))
        ia = next(n for n in range(0x1101, 0x2000) if n not in xs)
        at = knx_stack.AddressTable(Addr(ia), [], 255)
        ast = knx_stack.AssociationTable(at, [])
        for p, a in enumerate(xs, 1):
            ast.associate(ASAP(p), [by(rng.choice(ANY), a)])
        rows = []
        for a in xs + [x ^ (1 << rng.randrange(16)) for x in xs] + [(x & 255) << 8 | x >> 8 for x in xs]:
            if a == ia:
                continue
            ok, t = guarded(lambda: at.get_tsap(by(rng.choice(ANY), a)))
            ok2, ps = guarded(lambda: [int(p.value) for p in ast.get_asaps_from_address(by(rng.choice(ANY), a))])
            rows.append([a, num_of(t) if ok and t is not None else 0, (ps[0] if len(ps) == 1 else -2 if ps else 0) if ok2 else 0])
        r.put("find", addrs=xs, rows=rows)
        yield r.history()


# ---- datapoint fields --------------------------------------------------------------
FIELDS = {
    "DPT_Switch": [("action", 1, ["off", "on"])],
    "DPT_Info_Switch": [("action", 1, ["off", "on"])],
    "DPT_Alarm": [("action", 1, ["no_alarm", "alarm"])],
    "DPT_UpDown": [("direction", 1, ["up", "down"])],
    "DPT_Start": [("action", 1, ["stop", "start"])],
    "DPT_Control_Dimming": [("step", 3, None), ("direction", 1, ["down", "up"])],
    "DPTVimarScene": [("index", 6, None), ("command", 2, ["attiva", "cancella", "memorizza", "identifica"])],
    "DPT_SceneControl": [("number", 6, None), ("command", 1, ["activate", "learn"])],
    "DPTSetupClima": [("temporizzazione", 8, None), ("setpoint", 8, None), ("differenziale", 5, None), ("variazione_setpoint", 2, None),
                      ("unita_misura", 1, ["celsius", "farenheit"]),
                      ("funzionamento", 4, ["off", "forced_off", "off_a_tempo", "antigelo", "riduzione_notturna", "riduzione_notturna_a_tempo",
                                            "manuale", "manuale_a_tempo", "automatico", "automatico_invio_temperatura_abilitato",
                                            "automatico_invio_temperatura_disabilitato"]),
                      ("centralizzato", 1, None), ("stagione", 1, ["inverno", "estate"]), ("terziario", 1, None)],
    "DPTInfoClimaReport": [("temperatura", 9, None), ("setpoint", 8, None), ("stagione", 1, ["inverno", "estate"])],
}
FIELDS["DPTInfoClimaReport"].insert(2, FIELDS["DPTSetupClima"][5])
SMALL = [d for d in FIELDS if d not in ("DPTSetupClima", "DPTInfoClimaReport")]
CLIMA = ["DPTSetupClima", "DPTInfoClimaReport"]
FLOAT16 = ["DPT_Float_16", "DPT_Value_Wsp", "DPT_Value_Temp", "DPT_Value_Lux"]
FLOAT32 = ["DPT_Float_32", "DPT_Value_Power"]


def scalar(f, v):
    """(n, nm) of what a field shows"""
    if isinstance(v, IntEnum):
        return int(v), v.name
    if isinstance(v, str):
        return -3, v
    if f == "temperatura":
        n = round(v * 10)
        return (n if abs(n / 10 - v) < 1e-9 else -2), ""
    if isinstance(v, (bool, float)) and int(v) != v:
        return -2, ""
    return int(v), ""


def read(o, d):
    fs = []
    for f, _, _ in FIELDS.get(d, []):
        try:
            n, nm = scalar(f, getattr(o, f))
        except Exception:  # noqa  e.g. a value without a name
            n, nm = -1, ""
        fs.append(dict(f=f, n=n, nm=nm))
    return fs


def given(f, n, nm):
    if nm:
        return nm
    return n / 10 if f == "temperatura" else n


def dbl(v):
    """a finite double as [s, hi, lo, x], see KnxValues"""
    s = 1 if math.copysign(1, v) < 0 else 0
    if v == 0:
        return [s, 0, 0, 0]
    f, e = math.frexp(abs(v))
    m = int(math.ldexp(f, 53))
    return [s, m >> 29, m & ((1 << 29) - 1), e - 24]


def hundredths(v):
    n = round(v * 100)
    return n, int(abs(v - n / 100) <= 1e-9 * max(1, abs(v)))


def desc_items(desc, d):
    out = []
    for f, v in sorted(desc.items()):
        if f == "decoded_value" and d in FLOAT16:
            n, ex = hundredths(v)
            out.append(dict(f=f, n=n, nm="", exact=ex == 1))
        elif f == "decoded_value":
            s, hi, lo, x = dbl(v)
            out.append(dict(f=f, n=0, nm="", v=dict(s=s, hi=hi, lo=lo, x=x)))
        elif isinstance(v, str):
            out.append(dict(f=f, n=-3, nm=v))
        else:
            try:
                n, nm = scalar(f, v)
            except Exception:  # noqa
                n, nm = -2, ""
            out.append(dict(f=f, n=n, nm="#" if nm else ""))
    return out


def shown_items(o, d):
    """name and items the text of a datapoint states, (name, None) where it states none"""
    ok, t = guarded(lambda: str(o))
    m = re.match(r"^(\w+):? (\{.*\})$", t) if ok and isinstance(t, str) else None
    if not m:
        return "", None
    try:
        return m.group(1), desc_items(ast.literal_eval(m.group(2)), d)
    except Exception:  # noqa
        return m.group(1), None


class Dpt:
    def __init__(self, r, d):
        self.r, self.d = r, d
        self.o = getattr(D, d)()
        r.put("new", d=d, raw=raw_of(self.o))

    def raw(self, n):
        self.o.value = n
        self.r.put("raw", d=self.d, v=be4(n), raw=raw_of(self.o), fs=read(self.o, self.d))

    def set(self, f, n, nm=""):
        v = given(f, n, nm)
        ok, x = guarded(lambda: setattr(self.o, f, v))
        self.r.put("set", f=f, n=n, nm=nm, ok=ok, raw=raw_of(self.o), fs=read(self.o, self.d), **hung(ok, x))

    def describe(self):
        describe(self.r, self.o, self.d)


def describe(r, o, d):
    before = raw_of(o)
    ok, x = guarded(lambda: D.Description_Factory.make(o))
    r.put("desc", d=d, before=before, ok=ok, name=str(x[0]) if ok else "", desc=desc_items(x[1], d) if ok else [], raw=raw_of(o), **hung(ok, x))
    name, items = shown_items(o, d)
    r.put("dtext", d=d, before=before, ok=items is not None, name=name, desc=items or [], raw=raw_of(o))
    if not ok:
        return
    ok, y = guarded(lambda: D.DPT_Factory.make(*x))
    r.put("rebuild", d=d, before=before, ok=ok, name=type(y).__name__ if ok else "", raw=raw_of(y) if ok else [0, 0, 0, 0], **hung(ok, y))


BAD = ["", "ON", "undefined", "name", "value", "__doc__", "Off", "up ", "real", "__members__", "1", "mro", "_value_", "is_on"]


def rand_field(rng, d):
    f, n, names = rng.choice(FIELDS[d])
    if names:
        return f, 0, rng.choice(names)
    return f, rng.choice([0, (1 << n) - 1, rng.randrange(1 << n), 1 << rng.randrange(n)]), ""


def raw_bits(rng, d):
    if DPTS[d][0] == 1:
        return rng.randrange(256)
    return rng.choice([rng.getrandbits(32), rng.getrandbits(32), 0, 0xFFFFFFFF, 1 << rng.randrange(32), 0xFFFFFFFF ^ (1 << rng.randrange(32))])


def fields(rng, tier, shard, nshards):
    # every one octet type, field, value and raw value before
    jobs = []
    for d in SMALL:
        for f, n, names in FIELDS[d]:
            jobs += [(d, f, 0, nm) for nm in names] if names else [(d, f, v, "") for v in range(1 << n)]
    for k, part in enumerate(chunks(jobs, 12)):
        if k % nshards != shard:
            continue
        r = Rec("fields-%d" % k)
        for d, f, n, nm in part:
            rows, ok = [], True
            for b in range(256):
                o = getattr(D, d)()
                o.value = b
                ok1, _ = guarded(lambda: setattr(o, f, given(f, n, nm)))
                ok = ok and ok1
                try:
                    rb = scalar(f, getattr(o, f))[0]
                except Exception:  # noqa
                    rb = -1
                rows.append([b, int(o.value), rb])
            r.put("sets", d=d, f=f, n=n, nm=nm, ok=ok, rows=rows)
        yield r.history()
    # every raw value read and described
    for k, d in enumerate(SMALL + ["DPT_Brightness"]):
        for q in range(4):
            if (4 * k + q) % nshards != shard:
                continue
            r = Rec("raws-%s-%d" % (d, q))
            o = Dpt(r, d)
            for b in range(64 * q, 64 * q + 64):
                o.raw(b)
            yield r.history()
    # every value of every field of the large types
    for d in CLIMA:
        for f, n, names in FIELDS[d]:
            r = Rec("clima-%s-%s" % (d, f))
            o = Dpt(r, d)
            vals = [(0, nm) for nm in names] if names else [(v, "") for v in range(1 << n)]
            for k, (v, nm) in enumerate(vals):
                if k % nshards != shard:
                    continue
                for base in (0, 0xFFFFFFFF, rng.getrandbits(32)) if len(vals) < 64 else (rng.choice([0, 0xFFFFFFFF, rng.getrandbits(32)]),):
                    o.raw(base)
                    o.set(f, v, nm)
            yield r.history()
    # any order of assignments, refused names among them
    for j in range(30 if tier == "quick" else 400):
        d = rng.choice(SMALL + CLIMA + CLIMA)
        r = Rec("assignments-%d-%d" % (shard, j))
        o = Dpt(r, d)
        for _ in range(rng.randrange(4, 25)):
            c = rng.random()
            if c < 0.15:
                o.raw(raw_bits(rng, d))
            elif c < 0.3:
                f = rng.choice([x for x in FIELDS[d]])
                if f[2]:
                    other = [nm for e in FIELDS.values() for g in e if g[2] and g is not f for nm in g[2] if nm not in f[2]]
                    o.set(f[0], 0, rng.choice(BAD[1:] + other))
                else:
                    o.set(f[0], rng.choice([1 << f[1], (1 << f[1]) + 5]) if f[0] != "temperatura" else 511, "")
            else:
                o.set(*rand_field(rng, d))
            if rng.random() < 0.1:
                o.describe()
        yield r.history()


def described(rng, tier, shard, nshards):
    for k, d in enumerate(SMALL + ["DPT_Brightness"]):
        for q in range(4):
            if (4 * k + q) % nshards != shard:
                continue
            r = Rec("describe-%s-%d" % (d, q))
            for b in range(64 * q, 64 * q + 64):
                o = getattr(D, d)()
                o.value = b
                describe(r, o, d)
            yield r.history()
    n = 40 if tier == "quick" else 500
    for d in CLIMA + FLOAT16 + FLOAT32:
        r = Rec("describe-%s-%d" % (d, shard))
        for _ in range(n):
            o = getattr(D, d)()
            v = num(rand_val(rng, d))
            if d in FLOAT32 and (v >> 23) & 255 == 255:
                continue
            o.value = v
            describe(r, o, d)
        yield r.history()
    # the factory from chosen fields in any order
    for j in range(10 if tier == "quick" else 100):
        r = Rec("make-%d-%d" % (shard, j))
        for _ in range(25):
            d = rng.choice(list(FIELDS))
            fs = rng.sample(FIELDS[d], rng.randrange(0, len(FIELDS[d]) + 1))
            items = []
            for f, n, names in fs:
                items.append(dict(f=f, n=0, nm=rng.choice(names)) if names else dict(f=f, n=rng.randrange(1 << n), nm=""))
            if items and rng.random() < 0.15:
                i = rng.randrange(len(items))
                if items[i]["nm"]:
                    items[i]["nm"] = rng.choice(BAD[1:])
            ok, y = guarded(lambda: D.DPT_Factory.make(d, {x["f"]: given(x["f"], x["n"], x["nm"]) for x in items}))
            r.put("make", d=d, items=items, ok=ok, name=type(y).__name__ if ok else "", raw=raw_of(y) if ok else [0, 0, 0, 0], **hung(ok, y))
        yield r.history()
    # 16 bit floats rebuilt from their description
    step = 8 if tier == "quick" else 1
    for d in FLOAT16 if tier != "quick" else ["DPT_Value_Temp", "DPT_Value_Lux"]:
        start = rng.randrange(step)
        for k, block in enumerate(chunks(range(start, 65536, step), 1024)):
            if k % nshards != shard:
                continue
            r = Rec("rebuild-%s-%d" % (d, block[0]))
            rows = []
            for b in block:
                o = getattr(D, d)()
                o.value = b
                ok, x = guarded(lambda: D.Description_Factory.make(o))
                n, ex = hundredths(x[1]["decoded_value"]) if ok else (0, 0)
                ok2, y = guarded(lambda: D.DPT_Factory.make(*x)) if ok else (False, None)
                rows.append([b, n if ex else 99999999, int(y.value) if ok2 and type(y) is type(o) else -1])
            r.put("rebuilds", d=d, rows=rows)
            yield r.history()


# ---- floats -------------------------------------------------------------------------
def thousandths(rng, tier):
    """interesting magnitudes in thousandths"""
    xs = set(range(0, 260))
    for e in range(0, 17):
        for m in (1, 2, 3, 1023, 1024, 1025, 2046, 2047, 2048, 2049):
            n = m << e
            for d in (-11, -10, -9, -1, 0, 1, 5, 9, 10, 11):
                xs.add(max(0, n * 10 + d))
    for b in range(30):
        for d in (-1, 0, 1):
            xs.add(max(0, (1 << b) + d))
    for _ in range(3000 if tier == "quick" else 60000):
        xs.add(rng.randrange(1 << rng.randrange(1, 30)))
        xs.add(rng.randrange(67108864) * 10)
    xs |= {670760960, 670760961, 670760970, 671088640, 671088641, 671088650, 671088640 + 327680, 671416320, 700000000, 1342177280, 2000000000}
    return sorted(x for x in xs if x <= 2000000000)


HUGE = [1e7, 1e9, 1e12, 1e30, 1e300, 1.7e308, float("inf"), -1e7, -1e9, -1e30, -1e300, float("-inf"), float("nan")]


def number(neg, k, rng):
    v = -k if neg else k
    if k % 1000 == 0 and k and rng.random() < 0.5:
        return v // 1000
    if k == 0:
        return -0.0 if neg else 0.0
    return v / 1000


def float16(rng, tier, shard, nshards):
    for j, d in enumerate(FLOAT16):
        for k, block in enumerate(chunks(range(65536), 4096)):
            if (k + j) % nshards != shard:
                continue
            r = Rec("decode-%s-%d" % (d, block[0]))
            rows = []
            o = getattr(D, d)()
            for b in block:
                o.value = b
                ok, v = guarded(o.decode)
                n, ex = hundredths(v) if ok else (0, 0)
                rows.append([b, n, ex if int(o.value) == b else 0])
            for part in chunks(rows, 1024):
                r.put("decs", d=d, rows=part)
            yield r.history()
    xs = thousandths(rng, tier)
    jobs = [(neg, k) for k in xs for neg in (0, 1)]
    for q, block in enumerate(chunks(jobs, 2048)):
        if q % nshards != shard:
            continue
        d = FLOAT16[q % 4]
        r = Rec("encode-%s-%d" % (d, q))
        rows = []
        for neg, k in block:
            o = getattr(D, d)()
            before = rng.choice([0, 0xFFFF, rng.randrange(65536)])
            o.value = before
            ok, _ = guarded(lambda: o.encode(number(neg, k, rng)))
            rows.append([neg, k, int(ok), before, int(o.value)])
        for part in chunks(rows, 512):
            r.put("fencs", d=d, rows=part)
        rows = []
        for v in HUGE:
            o = getattr(D, d)()
            o.value = before = rng.randrange(65536)
            ok, _ = guarded(lambda: o.encode(v))
            rows.append([int(ok), before, int(o.value)])
        r.put("huge", d=d, rows=rows)
        yield r.history()
    # every representable value is encoded exactly, whatever exponent it is shown with
    r = Rec("again-%d" % shard)
    every = [(m, e, neg) for m in range(2049) for e in range(16) for neg in (0, 1) if neg or m < 2048]
    random.Random(5).shuffle(every)
    for q, part in enumerate(chunks(every, 512)):
        if q % nshards != shard:
            continue
        for d in FLOAT16 if tier != "quick" else [FLOAT16[q // nshards % 4]]:
            rows = []
            for m, e, neg in part:
                o = getattr(D, d)()
                n = m << e
                o.value = before = rng.randrange(65536)
                ok, _ = guarded(lambda: o.encode((-n if neg else n) / 100))
                rows.append([neg, n * 10, int(ok), before, int(o.value)])
            r.put("fencs", d=d, rows=rows)
    # on the bus
    st = bus_state(FLOAT16[shard % 4])
    rows = []
    for _ in range(200):
        neg, k = rng.randrange(2), rng.choice(xs)
        if k > 670760960:
            continue
        o = getattr(D, FLOAT16[shard % 4])()
        o.encode(number(neg, k, rng))
        rows.append([neg, k] + sent(st, o)[-2:])
    r.put("wire16", rows=rows)
    yield r.history()


def bus_state(d, m="usb"):
    at = knx_stack.AddressTable(Addr(0x1101), [], 255)
    ast = knx_stack.AssociationTable(at, [])
    ast.associate(ASAP(1), [GA(free_style=0x0901)])
    got = knx_stack.GroupObjectTable({ASAP(1): getattr(D, d)})

    class S:
        pass
    S.at, S.ast, S.got = at, ast, got
    return new_state(m, S)


def sent(st, dpt):
    f = octets(knx_stack.encode_msg(st, APP.a_group_value_write.req.Msg(asap=ASAP(1), dpt=dpt)))
    n = 8 + f[2] if len(f) > 12 and f[0] == 1 else len(f)
    f = f[:11 + f[6]] if f[0] == 1 else f
    return f


def rand_double(rng):
    c = rng.randrange(8)
    e = rng.choice([rng.randrange(-150, 128), rng.randrange(-20, 20), -126, -127, -149, -150, -148, 127, rng.randrange(-149, -120)])
    if c < 4:
        m = rng.getrandbits(52)
    elif c == 4:  # exactly half way
        m = (rng.getrandbits(23) << 29) | (1 << 28)
    elif c == 5:
        m = (rng.getrandbits(23) << 29) | rng.choice([(1 << 28) - 1, (1 << 28) + 1, 1, (1 << 29) - 1, 0])
    elif c == 6:
        m = rng.choice([0, (1 << 52) - 1, 1, 1 << 51, ((1 << 23) - 1) << 29, (((1 << 23) - 1) << 29) | (1 << 28)])
    else:  # half way of a subnormal
        d = max(1, min(24, -126 - e))
        m = (rng.getrandbits(23) >> d << d | 1 << (d - 1)) << 29 & ((1 << 52) - 1)
    v = math.ldexp(((1 << 52) | m), e - 52)
    return -v if rng.random() < 0.5 else v


def fits32(v):
    try:
        struct.pack(">f", v)
        return True
    except OverflowError:
        return False


def raws32(rng, tier):
    out = []
    for e in range(255):
        for s in (0, 1):
            for f in (0, 1, 0x7FFFFF, 0x400000, rng.getrandbits(23), 1 << rng.randrange(23)):
                out.append(s << 31 | e << 23 | f)
    for _ in range(2000 if tier == "quick" else 60000):
        out.append(rng.getrandbits(1) << 31 | rng.randrange(255) << 23 | rng.getrandbits(23))
    return out


def float32(rng, tier, shard, nshards):
    import random
    xs = raws32(random.Random(rng.random()), tier)
    for q, block in enumerate(chunks(xs, 512)):
        if q % nshards != shard:
            continue
        d = FLOAT32[q % 2]
        r = Rec("decode32-%d" % q)
        rows = []
        for b in block:
            o = getattr(D, d)()
            o.value = b
            rows.append([b >> 16, b & 0xFFFF] + dbl(float(o.decode())))
        r.put("decs32", d=d, rows=rows)
        yield r.history()
    fixed = [0.0, -0.0, 1, -1, 3, 100000, 16777217, 16777219, 33554434, 0.1, -0.1, 1e-45, 7e-46, 1.4e-45, 2.1e-45, 3.4028234663852886e38, 3.4028235e38, 1.17549435e-38, 1.1754942e-38,
             5e-324, 1e-300, 6400.0, 511, 2.5e-5, 123456789, -123456789]
    for q in range(2 if tier == "quick" else 20):
        r = Rec("encode32-%d-%d" % (shard, q))
        d = FLOAT32[q % 2]
        vs = (fixed if q == 0 else []) + [v for v in (rand_double(rng) for _ in range(1000)) if fits32(v)]
        for part in chunks(vs, 512):
            rows = []
            for v in part:
                o = getattr(D, d)()
                o.value = rng.getrandbits(32)
                ok, _ = guarded(lambda: o.encode(v))
                b = int(o.value)
                rows.append(dbl(float(v)) + [int(ok), b >> 16, b & 0xFFFF])
            r.put("fencs32", d=d, rows=rows)
        rows = []
        for m in ("usb", "ip"):
            st = bus_state(d, m)
            for v in rng.sample(vs, 60):
                o = getattr(D, d)()
                o.encode(v)
                rows.append(dbl(float(v)) + sent(st, o)[-4:])
        r.put("wire32", d=d, rows=rows)
        rows = []
        st = bus_state(d)
        for _ in range(100):
            v = rng.getrandbits(32)
            if (v >> 23) & 255 == 255:
                continue
            f = usb(cemi(IND, link(0x0901, APCI["write"], be4(v))))
            ms = knx_stack.decode_msg(st, wire("usb", f))
            rows.append(be4(v) + dbl(float(ms[0].dpt.decode())))
        r.put("unwire32", d=d, rows=rows)
        yield r.history()


# ---- texts ---------------------------------------------------------------------------
def codes(s):
    return [ord(c) for c in s]


def style(o, rng):
    c = rng.randrange(3)
    s = "".join("%02X" % b for b in o)
    return s.upper() if c == 0 else s.lower() if c == 1 else "".join(rng.choice((x.upper(), x.lower())) for x in s)


def parts_of(kind, x):
    """the number taken, and the octets it shows"""
    if kind == "octect":
        return [int(x.value)], [int(x.nibble.high) * 16 + int(x.nibble.low)]
    v = int(x.value)
    n = 2 if kind == "short" else 4
    return be4(v)[4 - n:], [int(b.value) for b in x.octects]


USBMSG = getattr(knx_stack.usb_hid, "Msg", None)


def says(m, kind, x):
    """what a block said, as numbers; the block of the USB message says less of a connection header"""
    if kind == "HPAI":
        return ip4(x[0]) + [num_of(x[1])]
    return [num_of(v) for v in x[:-1]]


def text_start(r, cls, o, rng):
    t = style(o, rng)
    ok, m = guarded(lambda: cls.make_from_str(t))
    got = octets(m) if ok else []
    r.put("text", t=codes(t), ok=ok, o=got, back=codes(repr(m)) if ok else [], **hung(ok, m))
    return m if ok else None


def text_take(r, m, kind, go=True):
    if kind in BLOCKS:
        ok, x = guarded(lambda: getattr(m, kind)())
        if ok:
            ok2, head = guarded(lambda: says(m, kind, x))
            head = head if ok2 else [-1]
            r.put("take", kind=kind, go=go, ok=True, head=head, says=2 if type(m) is USBMSG and kind == "header" else len(BLOCKS[kind]), rest=octets(x[-1]), orig=octets(m))
            return x[-1] if go else m
        r.put("take", kind=kind, go=go, ok=False, head=[], says=0, rest=[], orig=octets(m), **hung(ok, x))
        return m
    ok, x = guarded(lambda: getattr(m, kind)())
    if ok:
        head, o = parts_of(kind, x[0])
        r.put("take", kind=kind, go=go, ok=True, head=head, octets=o, text=codes(repr(x[0])), rest=octets(x[1]), orig=octets(m))
        return x[1] if go else m
    r.put("take", kind=kind, go=go, ok=False, head=[], octets=[], text=[], rest=[], orig=octets(m), **hung(ok, x))
    return m


def text_edit(r, m, rng):
    """a message is a list of octets: changed, and printed again"""
    how = rng.choice(["put", "value", "add", "insert", "delete"]) if len(m) else "add"
    j, v = rng.randint(1, max(1, len(m))), rng.choice([0, 255, rng.randrange(256)])

    def change():
        if how == "put":
            m[j - 1] = knx_stack.Octect(value=v)
        elif how == "value":
            m[j - 1].value = v
        elif how == "add":
            m.append(knx_stack.Octect(value=v))
        elif how == "insert":
            m.insert(j - 1, knx_stack.Octect(value=v))
        else:
            del m[j - 1]
    ok, x = guarded(change)
    r.put("edit", how=how, j=j, v=v, ok=ok, o=octets(m), back=codes(repr(m)), **hung(ok, x))


BLOCKS = dict(HPAI=[1, 2, 3, 4, 5], CRI=[1, 2], CRD=[1, 2], header=[1, 2, 3])
NUMBERS = ("octect", "short", "long")
READERS = [knx_stack.Msg, IP.Msg] + ([USBMSG] if USBMSG else [])


def texts(rng, tier, shard, nshards):
    def start(r, cls, o):
        return text_start(r, cls, o, rng)

    take = text_take
    CLS, kinds = READERS, NUMBERS
    # every octet value at the positions a conversion looks at
    for b in range(256):
        if b % nshards != shard:
            continue
        r = Rec("octet-%d" % b)
        for pos in range(6):
            o = [rng.randrange(256) for _ in range(6)]
            o[pos] = b
            m = start(r, CLS[(b + pos) % len(CLS)], o)
            if m is None:
                continue
            for k in kinds:
                take(r, m, k, go=False)
            take(r, take(r, m, "short"), "long")
        yield r.history()
    for j in range(60 if tier == "quick" else 1500):
        r = Rec("text-%d-%d" % (shard, j))
        m = start(r, rng.choice(CLS), [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 8, 20, 64]))])
        while m is not None and len(m) and len(r.ev) < 40:
            kind = rng.choice(kinds if type(m) is knx_stack.Msg else kinds + tuple(BLOCKS))
            m = take(r, m, kind, go=rng.random() < 0.8)
            if rng.random() < 0.2:
                r.put("printed", o=octets(m), back=codes(repr(m)))
            while rng.random() < 0.3:
                text_edit(r, m, rng)
        yield r.history()


def m_reader(rng, tier, shard, nshards):
    """walks of MCReader on the message classes"""
    g = graph_of("g_reader")
    targets = [i for i in range(len(g.edges)) if i % nshards == shard]
    starts = [n for n, s in enumerate(g.states) if s["o"] == s["r"]]
    rng.shuffle(starts)
    for n, (s0, walk) in enumerate(walks(g, starts, targets, rng, 20)):
        cls = READERS[1:][n % (len(READERS) - 1)]
        r = Rec("m_reader-%d-%d" % (shard, n))
        m = text_start(r, cls, g.states[s0]["o"], rng)
        for e in walk:
            if m is None:
                break
            m = text_take(r, m, g.edges[e][1]["kind"])
        yield r.history()


# ---- numbers and their parts ---------------------------------------------------------
class Number:
    """an octet, a 16 or a 32 bit number of the library, its parts and what it shows"""
    SIZE = dict(octect=1, short=2, long=4)
    PART = dict(octect=("high", "low"), short=("MSB", "LSB"), long=("B4", "B3", "B2", "B1"))

    def __init__(self, r, kind, by, o, rng):
        M = knx_stack.msg
        self.r, self.kind = r, kind
        cls, parts = dict(octect=(M.Octect, M.Nibbles), short=(M.Short, M.Bytes), long=(M.Long, M.LBytes))[kind]
        names = self.PART[kind]

        def make():
            if by == "parts":
                pairs = list(zip(names, o))
                rng.shuffle(pairs)
                return cls(parts(**dict(pairs)))
            n = int.from_bytes(bytes(o), "big")
            if rng.random() < 0.5:
                return cls(value=n)
            x = cls()
            x.value = n
            return x
        ok, self.x = guarded(make)
        self.put("number", ok, by=by, o=list(o), **hung(ok, self.x))

    def overlay(self):
        return self.x.nibble if self.kind == "octect" else self.x.byte

    def shows(self):
        x, n = self.x, self.SIZE[self.kind]
        lists = [] if self.kind == "octect" else [[int(b.value) for b in x.octects], [int(getattr(x, f).value) for f in self.PART[self.kind]]]
        return dict(value=be4(int(x.value))[4 - n:], parts=[int(getattr(self.overlay(), f)) for f in self.PART[self.kind]], lists=lists, text=codes(repr(x)))

    def put(self, op, ok, **kw):
        if ok:
            ok, v = guarded(self.shows)
        self.r.put(op, kind=self.kind, ok=ok, **kw, **(v if ok else dict(value=[], parts=[], lists=[], text=[])))

    def part(self, j, v):
        ok, x = guarded(lambda: setattr(self.overlay(), self.PART[self.kind][j - 1], v))
        self.put("numset", ok, j=j, v=v, o=[], **hung(ok, x))

    def value(self, o):
        ok, x = guarded(lambda: setattr(self.x, "value", int.from_bytes(bytes(o), "big")))
        self.put("numset", ok, j=0, v=0, o=list(o), **hung(ok, x))

    def hand(self, rng):
        """take the octets it gives out and change them"""
        if self.kind == "octect":
            return
        for b in lookup(lambda: list(self.x.octects) + [getattr(self.x, f) for f in self.PART[self.kind]], []):
            lookup(lambda: setattr(b, "value", rng.randrange(256)), None)
        lookup(lambda: self.x.octects.clear(), None)
        ok, v = guarded(self.shows)
        self.r.put("numspoil", kind=self.kind, **({k: v[k] for k in ("value", "parts")} if ok else dict(value=[], parts=[])))


def numbers(rng, tier, shard, nshards):
    """C44: every octet and nibble at every place, built and changed in both ways"""
    for b in range(256):
        if b % nshards != shard:
            continue
        r = Rec("numbers-%d" % b)
        for kind in NUMBERS:
            size = Number.SIZE[kind]
            for pos in range(size):
                o = [rng.randrange(256) for _ in range(size)]
                o[pos] = b
                n = Number(r, kind, "value", o, rng)
                n.hand(rng)
                p = [b >> 4, b & 15] if kind == "octect" else o
                n = Number(r, kind, "parts", p, rng)
                for _ in range(2):
                    j = rng.randrange(len(p))
                    n.part(j + 1, (b >> 4 if j else b & 15) if kind == "octect" else rng.choice([b, rng.randrange(256)]))
                n.value(o)
        yield r.history()


def m_number(rng, tier, shard, nshards):
    g = graph_of("g_number")
    targets = [i for i in range(len(g.edges)) if i % nshards == shard]
    starts = list(range(len(g.states)))
    rng.shuffle(starts)
    r = None
    for k, (s0, walk) in enumerate(walks(g, starts, targets, rng, 40, 4000 if tier == "quick" else None)):
        if r is None:
            r = Rec("m_number-%d-%d" % (shard, k))
        s = g.states[s0]
        n = Number(r, s["kind"], "value", s["o"], rng)
        for e in walk:
            c = g.edges[e][1]
            if c["op"] == "value":
                n.value(c["o"])
            elif c["op"] == "part":
                n.part(c["j"], c["v"])
            else:
                n.hand(rng)
        if len(r.ev) > 300:
            yield r.history()
            r = None
    if r is not None:
        yield r.history()


WIDE = [d for d in DPTS if DPTS[d][0] == 2]
LONG = [d for d in DPTS if DPTS[d][0] == 4]


def specials(rng, n):
    """values of four octets: every exponent, not-a-numbers and infinities among them"""
    out = [e << 23 | s << 31 | m for e in range(256) for s in (0, 1) for m in (0, 1, 0x400000, 0x7FFFFF)]
    out += [a << k for k in (0, 8, 16, 24) for a in range(256)] + [0xFFFFFFFF ^ (a << k) for k in (0, 8, 16, 24) for a in range(256)]
    return out + [rng.getrandbits(32) for _ in range(n)]


def wires(rng, tier, shard, nshards):
    """C03: every value of two octets, many of four, from a sender's datapoint to a receiver's"""
    jobs = []
    for d in WIDE:
        jobs += [(d, b) for b in chunks(range(65536), 2048)]
    for d in LONG:
        jobs += [(d, b) for b in chunks(specials(rng, 1000 if tier == "quick" else 20000), 2048)]
    for q, (d, block) in enumerate(jobs):
        if q % nshards != shard or (tier == "quick" and d in WIDE[1:] and (q // nshards) % 4):
            continue
        r = Rec("wires-%s-%d" % (d, q))
        st, back = bus_state(d, "usb"), bus_state(d, "usb")
        rows = []
        for v in block:
            o = getattr(D, d)()
            o.value = v
            ok, f = guarded(lambda: sent(st, o))
            data, got = [], -1
            if ok and len(f) > 13:
                data = f[22:]
                ok, x = guarded(lambda: knx_stack.decode_msg(back, knx_stack.Msg.make_from_str("".join("%02X" % b for b in f[:11] + [IND] + f[12:]))))
                got = int(x[0].dpt.value) if ok and isinstance(x, list) and len(x) == 1 and hasattr(x[0], "dpt") else -1
            rows.append([v >> 16, v & 0xFFFF] + ([got >> 16, got & 0xFFFF] if got >= 0 else [-1, -1]) + data)
        for part in chunks(rows, 1024):
            r.put("wires", d=d, rows=part)
        yield r.history()


SUITES = dict(m_reader=m_reader, addresses=addresses, fields=fields, described=described, float16=float16, float32=float32, wires=wires, numbers=numbers, m_number=m_number, texts=texts)
