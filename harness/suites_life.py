"""Behaviours of the specification replayed with names, with texts, and with everything a program holds of a device."""
from knxlib import *  # noqa
from graphs import graph_of, walks
from suites_stack import ALL, IA, addresses, config, dpts_at, group_frame
from suites_more import NAMES, any_telegram, named_enc, reconfigure, request, spoil


def table_walks(name, rng, shard, nshards, length, limit):
    g = graph_of(name)
    first = next(s for s in g.states if not s["addrs"] and not s["assoc"] and not s["gobj"])
    targets = [i for i in range(len(g.edges)) if i % nshards == shard]
    for n, (s0, walk) in enumerate(walks(g, g.node(first), targets, rng, length, limit)):
        yield n, first, [dict(g.edges[e][1]) for e in walk]


def call(w, k, c):
    return getattr(w, c["op"])(k, *[c[x] for x in ("a", "p", "as", "d") if x in c])


def m_shown(rng, tier, shard, nshards):
    """C39: the texts in every state of the tables' model"""
    for n, first, calls in table_walks("g_objects", rng, shard, nshards, 60, 500 if tier == "quick" else 6000):
        w = World("m_shown-%d-%d" % (shard, n), [1, 2, 3])
        w.naming = {p: rng.choice(NAMES) for p in (1, 2)}
        k = w.stack(first["ia"], [], first["max"])
        s = {m: w.session(k, m) for m in ("usb", "ip")}
        for j, c in enumerate(calls):
            call(w, k, c)
            w.text(k)
            if j % 3 == 2:
                w.stext(s[rng.choice(["usb", "ip"])])
                m = rng.choice(["usb", "ip"])
                w.dec(s[m], on(m, any_telegram(rng, w, k, [1, 2, 3]), w.cur(s[m])["rc"]))
                for msg in (w.raw or []):
                    x = canon(msg)
                    if x["k"] in ("group", "prop"):
                        w.mtext(x, msg)
                    elif x["k"] == "treq":
                        w.rtext(x, msg)
        yield w.history()


def m_names(rng, tier, shard, nshards):
    """C40: walks of the tables' model taken by two devices, one of which calls its group objects by changing names"""
    kinds = (None, "one", "two", "", "light", 7, "individual address")

    class Any(dict):
        def get(self, p, default=None):
            return rng.choice(kinds)
    for n, first, calls in table_walks("g_tables", rng, shard, nshards, 60, 1000 if tier == "quick" else 20000):
        w = World("m_names-%d-%d" % (shard, n), [1, 2, 3])

        def twice(fn):
            r = []
            for k in (1, 2):
                w.naming = {} if k == 1 else Any()
                r.append(fn(k))
            w.naming = {}
            return r
        twice(lambda k: w.stack(first["ia"], [], first["max"]))
        m = rng.choice(["usb", "ip"])
        twice(lambda k: w.session(k, m))
        for j, c in enumerate(calls):
            a, b = twice(lambda k: call(w, k, c))
            w.equal("C40", "an operation depends on names", a, b)
            w.equal("C40", "tables depend on names", w.snap(1), w.snap(2))
            if j % 3 == 2:
                f = on(m, any_telegram(rng, w, 1, [1, 2, 3]), w.cur(1)["rc"])
                a, b = twice(lambda k: w.dec(k, f)[0])
                w.same("C40", "what is delivered depends on names", [a, b])
                x = request(rng, w, 1, [1, 2])
                if x["k"] in ("groupread", "groupwrite", "groupwriteind"):
                    a, b = twice(lambda k: named_enc(w, k, x))
                    w.same("C40", "what is sent depends on names", [a, b])
        yield w.history()


# ---- what a program holds ------------------------------------------------------
class Telegram:
    tag = "C41"

    def __init__(self, p):
        w, rng, m = p.w, p.rng, p.rng.choice(["usb", "ip"])
        s = p.ss[m]
        p.w.dec(s, on(m, any_telegram(rng, w, 1, p.pool), w.cur(s)["rc"], w.cur(s)["ch"]))
        self.given = w.raw if isinstance(w.raw, list) else []
        self.got = list(self.given)

    def says(self, part):
        return canon_all(self.got[:1]) if part == "message" else canon_all(self.got[1:])

    def alter(self, part, rng):
        if part == "message":
            for m in self.got[:1]:
                spoil(rng, m)
        elif rng.random() < 0.5:
            for m in self.got[1:]:
                spoil(rng, m)
        else:
            lookup(lambda: rng.choice([self.given.clear, self.given.reverse, lambda: self.given.append(None)])(), None)


class Request:
    tag = "C41"

    def __init__(self, p):
        s = p.ss[p.rng.choice(["usb", "ip", "tp"])]
        self.x = request(p.rng, p.w, 1, p.ps)
        p.w.enc(s, self.x)
        self.msg, self.frame = p.w.raw or (None, [])

    def says(self, part):
        if part == "frame":
            return lookup(lambda: octets(self.frame), [])
        return lookup(lambda: unbuild(self.x, self.msg), None) if self.msg is not None else None

    def alter(self, part, rng):
        if part == "given":
            spoil(rng, self.msg)
        elif self.frame:
            lookup(lambda: (setattr(self.frame[rng.randrange(len(self.frame))], "value", rng.randrange(256)), self.frame.append(self.frame[0])), None)


class Lookup:
    tag = "C43"

    def __init__(self, p):
        w, rng, st = p.w, p.rng, p.w.stacks[0]
        q, a = ASAP(rng.choice(p.ps)), GA(free_style=rng.choice(p.pool))
        state = w.sess[p.ss["usb"] - 1][2]

        def telegram():
            state.ldata = knx_stack.layer.L_Data.make_from(knx_stack.Msg.make_from_str("BCE01102%04X010081" % rng.choice(p.pool)))[0]
            state.asap = q
        looks = [lambda: st.at.addresses, lambda: st.at.tsaps, lambda: st.ast.asaps, lambda: st.got.associations,
                 lambda: st.ast.get_asaps(rng.choice(st.at.tsaps)), lambda: st.ast.get_tsaps(q), lambda: st.ast.get_addresses(st.ast.get_tsaps(q)),
                 lambda: st.ast.get_asaps_from_address(a),
                 lambda: (telegram(), state.get_asaps_and_dpts())[1], lambda: (telegram(), state.get_asaps())[1],
                 lambda: (telegram(), state.get_tsaps())[1], lambda: (telegram(), state.get_addresses())[1]]
        got = lookup(rng.choice(looks), None)
        self.point = int(q.value)
        self.list = got if isinstance(got, list) else []
        p.w.asked.clear()

    def says(self, part):
        return repr(self.list)

    def alter(self, part, rng):
        z = rng.randrange(4)
        lookup(lambda: self.list.clear() if z == 0 else self.list.pop() if z == 1 else self.list.append(self.list[0] if self.list else 1) if z == 2 else self.list.reverse(), None)


class Device:
    tag = "C43"

    def __init__(self, p):
        w, rng = p.w, p.rng
        self.w, self.p = w, p
        ia, uni, ps = p.ia, p.pool, p.ps
        self.addrs = [GA(free_style=a) for a in rng.sample(uni, rng.choice([0, 2, len(uni)]))]
        self.assoc = [knx_stack.Association(asap=ASAP(q), address=GA(free_style=a)) for q in rng.sample(ps, rng.choice([0, 2])) for a in rng.sample(uni, 2)]
        self.gobj = {ASAP(q): getattr(D, rng.choice(ALL)) for q in rng.sample(ps, rng.choice([0, 1, 3]))}
        at = knx_stack.AddressTable(Addr(ia), self.addrs, 255)
        ast = knx_stack.AssociationTable(at, self.assoc)
        w.stacks.append(Stack(at, ast, knx_stack.GroupObjectTable(self.gobj)))
        self.k = len(w.stacks)
        w.last.append(w.snap(self.k))
        w.ev.append(dict(op="newstack", k=self.k, ia=ia, addrs=[num_of(a) for a in self.addrs], max=255,
                         assoc=[dict(asap=int(x.asap.value), addr=num_of(x.address)) for x in self.assoc],
                         gobj=[dict(asap=int(q.value), dpt=d.__name__) for q, d in self.gobj.items()], snap=w.last[-1]))

    def says(self, part):
        # what is judged is the device, which changing the lists must not change
        return None

    def alter(self, part, rng):
        q, a = rng.choice(self.p.ps), rng.choice(self.p.pool)
        for act in rng.sample([lambda: self.addrs.append(GA(free_style=a)), lambda: self.addrs.clear(), lambda: self.assoc.clear(),
                               lambda: self.assoc.append(knx_stack.Association(asap=ASAP(q), address=GA(free_style=a))),
                               lambda: self.gobj.clear(), lambda: self.gobj.update({ASAP(q): getattr(D, rng.choice(ALL))})], 3):
            act()


THINGS = dict(telegram=Telegram, request=Request, lookup=Lookup, device=Device)


class Program:
    def __init__(self, rng, name):
        self.rng = rng
        self.w = w = World(name)
        w.reuse = None  # messages are held
        w.blindness = 0
        k, self.pool, self.ps = config(w, rng, n_addr=3, n_asap=5, k_dpt=1, kinds=rng.choice([["DPT_Switch", "DPT_Start"], ["DPT_Value_Temp", "DPT_Float_16"], ["DPT_Float_32", "DPTSetupClima"], ALL]))
        self.ia = w.last[0]["ia"]
        while len(self.pool) < 3:
            self.pool.append(next(a for a in (2, 3, 4, 5) if a not in self.pool and a != self.ia))
        self.ss = {m: w.session(k, m) for m in ("usb", "ip", "tp")}
        w.setcnt(self.ss["ip"], 3, 5, 7)
        self.held = []

    def step(self, c):
        w, rng = self.w, self.rng
        if c["op"] == "reconfigure":
            op = reconfigure(rng, w, 1, self.pool, self.ps, [self.ia])
            getattr(w, op[0])(1, *op[1:])
        elif c["op"] == "make":
            t = THINGS[c["kind"]](self)
            self.held.append((t, {q: t.says(q) for q in PARTS[c["kind"]]}))
        else:
            t, was = self.held[c["i"] - 1]
            was.pop(c["p"], None)
            s, f, x = self.ss["usb"], on("usb", any_telegram(rng, w, 1, self.pool), 0, 0), request(rng, w, 1, self.ps)

            def ask():
                return [w.dec(s, f)[0], w.enc(s, x)[0]]
            if rng.random() < 0.6 and hasattr(t, "point"):  # what was looked up is what is asked for
                x = dict(k="groupread", asap=t.point)
            before = ask() if rng.random() < 0.8 else None
            t.alter(c["p"], rng)
            if before:
                for a, b in zip(before, ask()):
                    w.same(t.tag, "what is done to what a program holds shows", [a, b])
        for tag in ("C41", "C43"):
            mine = [(t, was) for t, was in self.held if t.tag == tag]
            w.equal(tag, "what a program holds changed", [was for _, was in mine], [{q: t.says(q) for q in was} for t, was in mine])
        w.equal("C43", "tables change with what a program holds", w.last, [w.snap(k) for k in range(1, len(w.stacks) + 1)])


PARTS = dict(telegram=("message", "others"), request=("given", "frame"), lookup=("list",), device=("lists",))


def m_held(rng, tier, shard, nshards):
    """C41, C43: everything a program may hold, made and changed in every order"""
    g = graph_of("g_held")
    first = next(s for s in g.states if not s["held"] and s["conf"] == 0)
    targets = [i for i in range(len(g.edges)) if i % nshards == shard]
    n, p = 0, None
    for _, walk in walks(g, g.node(first), targets, rng, 12 if tier == "quick" else 16, 3000 if tier == "quick" else 12000):
        p = Program(rng, "m_held-%d-%d" % (shard, n))
        n += 1
        for e in walk:
            p.step(g.edges[e][1])
        w, m = p.w, rng.choice(["usb", "ip"])
        for _ in range(2):
            w.dec(p.ss[m], on(m, any_telegram(rng, w, 1, p.pool), w.cur(p.ss[m])["rc"], w.cur(p.ss[m])["ch"]))
            w.enc(p.ss[m], request(rng, w, 1, p.ps))
        yield w.history()


SUITES = dict(m_shown=m_shown, m_names=m_names, m_held=m_held)
