"""Histories of the clients: the tunnelling client, the USB client, discovery."""
import asyncio
import socket

from knxlib import *  # noqa
import knxlib
from suites_stack import *  # noqa
from graphs import graph_of, walks
from vloop import Loop, Stuck, Watch

import knx_stack.client.knxnet_ip as ktun
import knx_stack.client.usbhid as kusb
import knx_stack.client.knxnet_ip_discovery as kdis


def table(rng=None, small=False):
    """a configuration as plain data"""
    if small or rng is None:
        return dict(ia=0x1101, addrs=[], max=255, assoc=[(1, 0x0901), (2, 0x0902)], gobj=[(1, "DPT_Switch"), (2, "DPT_Value_Temp")])
    pool = rng.sample(range(1, 65536), 5)
    assoc = list(dict.fromkeys((rng.randint(1, 4), rng.choice(pool)) for _ in range(6)))
    return dict(ia=rng.choice([a for a in (0x1101, 1, 0xFF01) if a not in pool]), addrs=[], max=255, assoc=assoc,
                gobj=[(p, rng.choice(list(DPTS))) for p in range(1, 5)])


def tables_of(t):
    at = knx_stack.AddressTable(Addr(t["ia"]), [GA(free_style=a) for a in t["addrs"]], t["max"])
    ast = knx_stack.AssociationTable(at, [knx_stack.Association(asap=ASAP(p), address=GA(free_style=a)) for p, a in t["assoc"]])
    got = knx_stack.GroupObjectTable({ASAP(p): getattr(D, d) for p, d in t["gobj"]})
    return Stack(at, ast, got)


def as_event(t):
    return dict(t, assoc=[dict(asap=p, addr=a) for p, a in t["assoc"]], gobj=[dict(asap=p, dpt=d) for p, d in t["gobj"]])


def messages(rng, t, n):
    objs = [p for p, a in t["assoc"]]
    g = dict(t["gobj"])
    out = []
    for _ in range(n):
        p = rng.choice(objs)
        z = rng.random()
        if out and rng.random() < 0.2:  # a message once more
            out.append(dict(rng.choice([out[-1], rng.choice(out)])))
            continue
        if z < 0.3:
            out.append(dict(k="groupread", asap=p))
        elif z < 0.8 and p in g:
            out.append(dict(k=rng.choice(["groupwrite", "groupwriteind"]), asap=p, dpt=g[p], val=rand_val(rng, g[p])))
        elif z < 0.9:
            out.append(dict(k="propwrite", asap=0, obj=octet(rng), pid=octet(rng), n=1, ix=rng.randrange(4096),
                            data=[octet(rng) for _ in range(rng.choice([0, 1, 5, 14, 37, 38, 45, 60, 200, 232]))]))
        else:
            out.append(dict(k="propread", asap=0, obj=octet(rng), pid=octet(rng), n=1, ix=rng.randrange(4096)))
    return out


def objects(rng, msgs):
    """the messages, some of the equal ones as one object"""
    out = []
    for n, x in enumerate(msgs):
        same = [out[j] for j in range(n) if msgs[j] == x]
        out.append(same[-1] if same and rng.random() < 0.6 else build(x))
    return out


def end(host, port):
    return dict(ip=list(socket.inet_aton(host)), port=port)


def endpoint(pair):
    try:
        return end(*pair)
    except Exception:  # noqa
        return dict(ip=[], port=-1)


class Recorder:
    kind = ""

    def __init__(self, name):
        self.name = name
        self.ev = []
        self.loop = Loop()
        asyncio.set_event_loop(self.loop)
        self.watch = Watch(knx_stack.decode_msg)
        knxlib.CURRENT[:] = [self]

    def history(self):
        return dict(name=self.name, kind=self.kind, ev=self.ev)

    def close(self):
        for t in asyncio.all_tasks(self.loop):
            t.cancel()
        try:
            self.loop.run_until_complete(asyncio.sleep(0))
        except Exception:  # noqa
            pass
        asyncio.set_event_loop(None)
        self.loop.close()

    def run(self, fn):
        """(extra fields of the event, value)"""
        with self.watch:
            ok, v = guarded(fn)
        return hung(ok, v), ok, v

    def got(self):
        return [canon_all(m) for m in self.watch.take()]


class Tunnel(Recorder):
    kind = "tunnel"

    def __init__(self, name, t, msgs, rng, s=(0, 0, 0), me=("10.0.0.7", 5544), gw=("10.1.2.3", 3671), stack=None):
        super().__init__(name)
        self.stack = stack or tables_of(t)
        self.state = new_state("ip", self.stack)
        self.state.sequence_counter_remote, self.state.sequence_counter_local, self.state.communication_channel_id = s
        objs = objects(rng, msgs)
        self.ev.append(dict(as_event(t), op="new", kind="tunnel", s=World.view(self.state), msgs=msgs, me=end(*me), gw=end(*gw)))
        arg = rng.choice([objs, tuple(objs), iter(objs)])
        self.me, self.gw = me, gw

        def go():
            self.transport, self.protocol = self.loop.run_until_complete(ktun.start_tunneling(me[0], me[1], gw[0], gw[1], self.state, arg))
            self.loop.run_until_complete(asyncio.sleep(0))
        extra, ok, v = self.run(go)
        if not ok and "hang" not in extra:
            raise RuntimeError("the tunnelling client cannot be started: %s" % v)
        self.task = None
        self.ev.append(dict(op="start", local=endpoint(self.transport.local), remote=endpoint(self.transport.remote), outs=self.outs(),
                            s=World.view(self.state), conn=self.conn(), **extra))

    def conn(self):
        """whether the client says it is connected; -1: it does not say"""
        v = getattr(self.protocol, "connected", None)
        return int(v) if isinstance(v, bool) else -1

    def outs(self):
        return [dict(to=endpoint(a), o=list(d)) for d, a in self.transport.take()]

    def start_writer(self):
        if self.task is None:
            self.task = self.loop.create_task(self.protocol.writer())

    def dgram(self, f, src=None):
        def go():
            self.protocol.datagram_received(bytes(f), src or self.gw)
        extra, ok, v = self.run(go)

        def settle():
            self.loop.advance(0)
        extra2, _, _ = self.run(settle)
        e = dict(op="dgram", f=list(f), ok=ok, outs=self.outs(), got=self.got(), s=World.view(self.state), conn=self.conn(), **dict(extra, **extra2))
        self.ev.append(e)
        return e

    def error(self):
        """the transport reports an error of the network: nothing follows from it"""
        self.run(lambda: self.protocol.error_received(OSError(111, "refused")))
        self.wait(0.5)

    def wait(self, seconds, op="wait"):
        extra, ok, v = self.run(lambda: self.loop.advance(seconds))
        self.watch.take()
        e = dict(op=op, outs=self.outs(), s=World.view(self.state), conn=self.conn(), done=bool(self.task is not None and self.task.done()), **extra)
        self.ev.append(e)
        return e

    def end(self, n):
        self.start_writer()
        self.wait(30 + 20 * n, "end")
        self.close()
        return self.history()


def any_link(rng, t, pool):
    """any complete link frame, most of them of no interest to the client"""
    z = rng.random()
    c1 = rng.choice([0xBC, 0xBD, octet(rng)])
    if z < 0.25:  # group telegrams with any service
        l = link(rng.choice(pool + [0, word(rng)]), rng.choice(list(APCI.values()) + [rng.randrange(1024)]), [octet(rng) for _ in range(rng.choice([0, 1, 2, 4]))], low=0, c1=c1)
    elif z < 0.5:  # property and other individual telegrams from and to anybody
        a, b = (rng.choice([t["ia"], t["ia"], word(rng)]) for _ in range(2))
        l = link(a, rng.choice(list(PROP.values()) + [rng.randrange(1024)]), [octet(rng) for _ in range(rng.choice([4, 5, 8]))], group=False, src=b, c1=c1)
    else:  # any transport octet
        l = link(rng.choice(pool + [t["ia"], word(rng)]), 0, [], low=0, group=rng.random() < 0.5, src=rng.choice([t["ia"], 0x1103]), c1=c1)
        l[7] = octet(rng)
    return l


def connect_res(ch, st, ip=(10, 1, 2, 3), port=3671, ia=0x1109, short=False):
    b = [ch, st]
    if not short:
        b += [8, 1] + list(ip) + [port >> 8, port & 255]
        if st == 0:
            b += [4, 4, ia >> 8, ia & 255]
    return [6, 16, 2, 6, 0, 6 + len(b)] + b


def ack_frame(ch, ctr, st=0):
    return [6, 16, 4, 33, 0, 10, 4, ch, ctr, st]


def tunnelling(rng, tier, shard, nshards):
    """C24 - C26: random gateways, good ones and bad ones"""
    for c in range(16 if tier == "quick" else 250):
        t = table(rng)
        msgs = messages(rng, t, rng.choice([0, 1, 2, 3, 5, 8]))
        pool = sorted({a for _, a in t["assoc"]})
        cl = Tunnel("tunnelling-%d-%d" % (shard, c), t, msgs, rng, (rng.choice([0, octet(rng)]), rng.choice([0, 5, 255, octet(rng)]), rng.choice([0, octet(rng)])),
                    rng.choice([("10.0.0.7", 5544), ("127.0.0.1", 1), ("192.168.255.0", 65535)]), rng.choice([("10.1.2.3", 3671), ("172.31.10.250", 3672)]))
        early = rng.random() < 0.6
        if early:
            cl.start_writer()
        ch = rng.choice([0, 255] + 6 * [rng.randrange(1, 256)])

        def noise():
            z = rng.random()
            if z < 0.25:
                return connect_res(octet(rng), rng.choice([0x22, 0x23, 0x24]), short=rng.random() < 0.5)
            if z < 0.4:
                f = connect_res(octet(rng), 0)
                return f[:rng.randrange(6, len(f))]
            if z < 0.5:
                return connect_res(octet(rng), rng.choice([1, 4, 0x20, 0x21, 0x25, 0x26, 0x29, 0xFF]))
            if z < 0.6:
                return [6, 16, 2, 8, 0, 8, ch, rng.choice([0, 0x21, 0x26])]
            if z < 0.7:
                return [6, 16, rng.choice([2, 3, 4]), rng.choice([2, 4, 5, 7, 9]), 0, 8, ch, 0]
            if z < 0.8:
                return [6, 16, 2, 2, 0, 20] + [8, 1, 10, 1, 2, 3, 14, 87, 54, 1, 2, 0, 17, 9]
            if z < 0.9:
                f = connect_res(3, 0)
                f[rng.randrange(4)] ^= 1 << rng.randrange(8)
                return f if f[2] * 256 + f[3] not in (0x0202, 0x0208, 0x020A, 0x0420, 0x0421, 0x0206) or f[:2] != [6, 16] else [6, 16, 2, 7, 0, 8, 1, 0]
            return [octet(rng) for _ in range(rng.randrange(0, 30))]
        def stray():
            """what asks for nothing may come from somebody else"""
            cl.dgram([6, 16, 2, 8, 0, 8, ch, 0], rng.choice([("10.1.2.4", 3671), ("10.0.0.7", 5544), (cl.gw[0], cl.gw[1] + 1), ("10.1.2.3", 40000)]))
        for _ in range(rng.choice([0, 0, 1, 3, 6])):
            cl.dgram(noise())
            if rng.random() < 0.2:
                stray()
            if rng.random() < 0.5:
                cl.wait(rng.choice([0.1, 1, 2.5, 10, 10, 300]))
        if rng.random() < 0.15:
            yield cl.end(len(msgs))
            continue
        cl.dgram(connect_res(ch, 0))
        if rng.random() < 0.8:
            cl.dgram([6, 16, 2, 8, 0, 8, ch, 0])
        if rng.random() < 0.9:
            cl.start_writer()
        gw = 0
        seen = 0
        for _ in range(rng.choice([5, 15, 30])):
            z = rng.random()
            if z < 0.4:
                l = group_frame(rng, rng.choice(pool + [rng.randrange(1, 65536)]), rng.choice(ALL), rng.choice(["read", "write", "response"]))
                if rng.random() < 0.4:
                    l = any_link(rng, t, pool)
                acked = False
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    e = cl.dgram(ipt(cemi(rng.choice([IND, CON, IND, CON, 0x2B]), l), gw, ch))
                    acked = acked or any(o["o"][2:4] == [4, 33] and o["o"][8:9] == [gw] for o in e["outs"])
                if acked:
                    gw = (gw + 1) % 256
            elif z < 0.5:
                cl.dgram(ipt(cemi(IND, link(rng.choice(pool), APCI["write"], low=1)), (gw + rng.choice([-1, -2, 1, 2, 5, 128, 255])) % 256, rng.choice([ch, ch, ch ^ 1])))
                gw = cl.ev[-1]["s"]["rc"]
            elif z < 0.7:
                cl.wait(rng.choice([0.2, 1, 3, 3.5, 7]))
            elif z < 0.85:
                lc = cl.ev[-1]["s"]["lc"]
                cl.dgram(ack_frame(ch, rng.choice([lc, lc, lc, (lc + 255) % 256, (lc + 1) % 256]), rng.choice([0, 0, 0, 1, 3])))
            elif z < 0.93:
                cl.dgram(noise())
            elif z < 0.94:
                cl.error()
            elif z < 0.95:
                stray()
            elif z < 0.98:
                ch = rng.choice([ch, ch, 0, rng.randrange(1, 256)])
                cl.dgram(connect_res(ch, 0))
                gw = 0
            else:
                cl.dgram([6, 16, 2, 10, 0, 8, ch, rng.choice([0x21, 0x26, 0])])
        yield cl.end(len(msgs))


def gateway(rng, tier, shard, nshards):
    """C26, C18: a gateway which repeats what is not acknowledged, over a network which loses and repeats;
    long enough for the counters to wrap"""
    for c in range(2 if tier == "quick" else 20):
        t = table(None, True)
        msgs = messages(rng, t, 2)
        cl = Tunnel("gateway-%d-%d" % (shard, c), t, msgs, rng)
        cl.dgram(connect_res(7, 0))
        cl.start_writer()
        loss, dup = rng.choice([0, 0.1, 0.3]), rng.choice([0, 0.2])
        n, ctr, tries = 0, 0, 0
        total = rng.choice([20, 60, 300])
        while n < total and tries < 2500:
            tries += 1
            l = link(0x0901 + n % 2, APCI["write"], value_payload("DPT_Value_Temp", be4(n))[1] if n % 2 else [], low=0 if n % 2 else (n >> 1) & 1)
            if n % 3 == 2:
                l = any_link(rng, t, [0x0901, 0x0902])
            copies = 0 if rng.random() < loss else 2 if rng.random() < dup else 1
            acked = False
            for _ in range(copies):
                e = cl.dgram(ipt(cemi(IND, l), ctr, 7))
                for o in e["outs"]:
                    if o["o"][2:4] == [4, 33] and rng.random() >= loss and o["o"][6:] == [4, 7, ctr, 0]:
                        acked = True
            if acked:
                n, ctr = n + 1, (ctr + 1) % 256
            if rng.random() < 0.02:
                cl.wait(1)
        yield cl.end(len(msgs))


# ---------------------------------------------------------------------------
class UsbRun(Recorder):
    kind = "usb"

    def __init__(self, name, t, msgs, rng, daemon=("10.9.8.7", 5555), stack=None):
        super().__init__(name)
        self.stack = stack or tables_of(t)
        self.state = new_state("usb", self.stack)
        objs = objects(rng, msgs)
        self.ev.append(dict(as_event(t), op="new", kind="usb", msgs=msgs))
        arg = rng.choice([objs, tuple(objs), iter(objs)])
        extra, ok, v = self.run(lambda: kusb.Client(daemon[0], daemon[1], self.state, arg))
        if not ok and "hang" not in extra:
            raise RuntimeError("the USB client cannot be started: %s" % v)
        self.client = v
        self.protocol, self.transport = self.loop.made[0]
        remote = self.transport.remote
        self.ev.append(dict(op="start", out=self.out(), got=self.got(), remote=dict(ip=str(remote[0]), port=remote[1]), daemon=dict(ip=daemon[0], port=daemon[1]), **extra))

    def out(self):
        return [b for d, _ in self.transport.take() for b in d]

    def step(self, op, seconds, **kw):
        extra, ok, v = self.run(lambda: self.loop.advance(seconds))
        self.ev.append(dict(kw, op=op, out=self.out(), got=self.got(), **extra))

    def feed(self, data):
        self.protocol.data_received(bytes(data))
        self.step("feed", 0, o=list(data))

    def end(self, n):
        self.step("end", 30 + 20 * n)
        self.close()
        return self.history()


def text(o, rng):
    s = "".join("%02x" % b for b in o)
    return [ord(x) for x in (s.upper() if rng.random() < 0.3 else s)] + [10]


def usbclient(rng, tier, shard, nshards):
    """C27: lines cut and glued in every way"""
    for c in range(14 if tier == "quick" else 200):
        t = table(rng)
        msgs = messages(rng, t, rng.choice([0, 1, 3, 6]))
        pool = sorted({a for _, a in t["assoc"]})
        cl = UsbRun("usb-%d-%d" % (shard, c), t, msgs, rng, rng.choice([("10.9.8.7", 5555), ("127.0.0.1", 1)]))
        stream = []
        for _ in range(rng.choice([3, 10, 25])):
            z = rng.random()
            if z < 0.6:
                a = rng.choice(pool)
                l = group_frame(rng, a, rng.choice([d for p, d in t["gobj"] if (p, a) in t["assoc"]] or ALL), rng.choice(["write", "response", "read"]))
                stream += text(usb(cemi(rng.choice([IND, CON]), l), pad=rng.choice([0, 56])), rng)
            elif z < 0.7:
                stream += text([1, 0x13, 10, 0, 8, 0, 2, 0x0F, 4, 0, 0, rng.choice([3, 5, 9]), rng.randrange(4)], rng)
            elif z < 0.8:
                stream += text(usb(cemi(IND, link(t["ia"], PROP["response"], [1, 2, 0x10, 3] + [octet(rng) for _ in range(rng.choice([1, 1, 10, 40, 100]))], group=False, src=t["ia"]))), rng)
            elif z < 0.9:
                f = usb(cemi(IND, link(rng.choice(pool), APCI["write"], low=1)))
                f[rng.choice([0, 4, 7, 8, 11])] ^= 0x40
                stream += text(f, rng) if rng.random() < 0.7 else text(f[:rng.randrange(len(f))], rng)
            else:
                stream += rng.choice([[10], [ord(x) for x in "zz\n"], [ord(x) for x in "hello\n"], [ord(x) for x in "0113xx\n"], [0xFF, 0xC3, 0x28, 10], [0x30, 0x31, 0xE9, 10]])
        if rng.random() < 0.3:
            stream = stream[:-rng.randrange(1, 12)]
        mode = rng.choice(["one", "lines", "random", "all", "crumbs"])
        i = 0
        while i < len(stream):
            if mode == "one" and len(stream) < 400:
                n = 1
            elif mode == "all":
                n = len(stream)
            elif mode == "lines":
                n = stream[i:].index(10) + 1 if 10 in stream[i:] else len(stream)
            elif mode == "crumbs":
                n = rng.choice([1, 2, 3, 7])
                n = n if len(stream) < 1500 else n * 8
            else:
                n = rng.choice([1, 5, 40, 120, 300])
            cl.feed(stream[i:i + n])
            i += n
            if rng.random() < 0.1:
                cl.step("wait", rng.choice([0.5, 1, 3, 4]))
        yield cl.end(len(msgs))


# ---------------------------------------------------------------------------
class FakeSocket:
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, name):
        return lambda *a, **k: None


def multicast_socket(fn):
    real = socket.socket
    fake = type("socket", (FakeSocket,), {})
    socket.socket = fake
    try:
        return fn()
    finally:
        socket.socket = real


class DisRun(Recorder):
    def __init__(self, name, kind, me, helper):
        super().__init__(name)
        self.kind = kind
        self.ev.append(dict(op="new", kind=kind, me=end(*me)))

        def go():
            if helper:
                co = kdis.send_discovery_request(*me) if kind == "request" else kdis.listen_discovery_responses(*me)

                async def start():
                    return await co
                # the loop keeps its own sockets: only the helper's is replaced
                self.transport, self.protocol = multicast_socket(lambda: self.loop.run_until_complete(start()))
                self.loop.run_until_complete(asyncio.sleep(0))
            else:
                async def start():
                    return await self.loop.create_datagram_endpoint(lambda: kdis.Request(*me) if kind == "request" else kdis.Listen())
                self.transport, self.protocol = self.loop.run_until_complete(start())
                self.loop.run_until_complete(asyncio.sleep(0))
        extra, ok, v = self.run(go)
        if not ok and "hang" not in extra:
            raise RuntimeError("discovery cannot be started: %s" % v)
        self.event("start", extra)

    def event(self, op, extra, **kw):
        self.ev.append(dict(kw, op=op, outs=[dict(to=endpoint(a), o=list(d)) for d, a in self.transport.take()], got=self.got(), **extra))

    def dgram(self, f):
        extra, ok, v = self.run(lambda: self.protocol.datagram_received(bytes(f), ("10.0.0.%d" % (len(f) % 200), 3671)))
        extra2, _, _ = self.run(lambda: self.loop.advance(0))
        self.event("dgram", dict(extra, **extra2), f=list(f))

    def wait(self, n):
        extra, _, _ = self.run(lambda: self.loop.advance(n))
        self.event("wait", extra)

    def trouble(self, lost):
        """an error the transport reports, maybe with the end of the connection"""
        def go():
            (self.protocol.connection_lost if lost else self.protocol.error_received)(OSError(111, "refused"))
        extra, _, _ = self.run(go)
        extra2, _, _ = self.run(lambda: self.loop.advance(4))
        self.event("lost" if lost else "error", dict(extra, **extra2))


def discovery(rng, tier, shard, nshards):
    """C28"""
    for c in range(14 if tier == "quick" else 200):
        kind = rng.choice(["request", "listen"])
        me = rng.choice([("10.0.0.7", 5544), ("0.0.0.0", 0), ("255.1.2.3", 65535), (dotted([octet(rng) for _ in range(4)]), word(rng))])
        d = DisRun("discovery-%s-%d-%d" % (kind, shard, c), kind, me, rng.random() < 0.5)
        for _ in range(15):
            z = rng.random()
            if z < 0.5:
                f = [6, 16, 2, 2, 0, 0] + hpai(rng) + [54, 1, 2, 0, octet(rng), octet(rng)] + [octet(rng) for _ in range(rng.choice([0, 50, 60]))]
                f[5] = len(f) & 255
                d.dgram(f)
            elif z < 0.8:
                f = core_frame(rng)
                d.dgram(f[:rng.randrange(len(f) + 1)] if rng.random() < 0.4 else f)
            elif z < 0.9:
                d.dgram([octet(rng) for _ in range(rng.randrange(20))])
            elif z < 0.94:
                d.trouble(False)
            else:
                d.wait(rng.choice([0.5, 5, 100]))
        if rng.random() < 0.5:
            d.trouble(True)
            d.wait(100)
        d.close()
        yield d.history()


def long_tunnel(name, rng, n, late):
    """many messages, a grant which takes its time, traffic between the messages, connections made again"""
    t = table(rng)
    msgs = messages(rng, t, n)
    pool = sorted({a for _, a in t["assoc"]})
    cl = Tunnel(name, t, msgs, rng)
    cl.start_writer()
    for _ in range(late):
        cl.wait(rng.choice([1, 7, 40, 300, 5000]))
        if rng.random() < 0.3:
            cl.dgram(connect_res(octet(rng), 0x24, short=rng.random() < 0.5))
    ch, gw = rng.randrange(256), 0
    cl.dgram(connect_res(ch, 0))
    for k in range(n + n // 4):
        cl.wait(3)
        z = rng.random()
        if z < 0.5:
            cl.dgram(ack_frame(ch, cl.ev[-1]["s"]["lc"]))
        elif z < 0.7:
            e = cl.dgram(ipt(cemi(rng.choice([IND, CON]), group_frame(rng, rng.choice(pool), rng.choice(ALL), "write")), gw, ch))
            if any(o["o"][2:4] == [4, 33] and o["o"][8:9] == [gw] for o in e["outs"]):
                gw = (gw + 1) % 256
        elif z < 0.72:
            ch, gw = rng.randrange(256), 0
            cl.dgram(connect_res(ch, 0))
    return cl.end(4)


def long_usb(name, rng, n, lines):
    t = table(rng)
    pool = sorted({a for _, a in t["assoc"]})
    cl = UsbRun(name, t, messages(rng, t, n), rng)
    left = lines
    while left > 0:
        k = min(left, rng.choice([1, 1, 2, 5, 20]))
        left -= k
        stream = []
        for _ in range(k):
            a = rng.choice(pool)
            stream += text(usb(cemi(rng.choice([IND, CON]), group_frame(rng, a, rng.choice([d for p, d in t["gobj"] if (p, a) in t["assoc"]] or ALL), rng.choice(["write", "read"]))), pad=rng.choice([0, 56])), rng)
        cl.feed(stream)
        if rng.random() < 0.5:
            cl.step("wait", 3)
    return cl.end(n)


def long_discovery(name, rng, kind, n):
    d = DisRun(name, kind, ("10.0.0.7", 5544), rng.random() < 0.5)
    last = None
    for _ in range(n):
        f = [6, 16, 2, 2, 0, 0] + hpai(rng) + [54, 1, 2, 0, octet(rng), octet(rng)] + [octet(rng) for _ in range(50)]
        f[5] = len(f) & 255
        if last and rng.random() < 0.1:
            f = last
        last = f
        d.dgram(f)
    d.wait(1000)
    d.close()
    return d.history()


def longrun(rng, tier, shard, nshards):
    """C24 - C28: many of everything: messages, lines, answers, and long waits"""
    more = 1 if tier == "quick" else 3
    for c in range(more):
        yield long_tunnel("longrun-%d-%d" % (shard, c), rng, rng.choice([1, 20]) if shard % 2 else rng.choice([130, 290]) * more, rng.choice([1, 5, 12]))
        yield long_usb("longrun-usb-%d-%d" % (shard, c), rng, rng.choice([0, 120]) if shard % 2 else 280 * more, rng.choice([280, 600]) * more)
        yield long_discovery("longrun-dis-%d-%d" % (shard, c), rng, rng.choice(["request", "listen", "listen"]) if shard else "listen", 150 * more)


def tunnel_steps(cl, rng, t, n):
    pool = sorted({a for _, a in t["assoc"]})
    ch, gw, on_ = rng.randrange(256), 0, False
    if rng.random() < 0.7:
        cl.start_writer()
    for k in range(rng.choice([8, 20, 35])):
        yield
        z = rng.random()
        if not on_ and z < 0.4 or z < 0.05:
            ch, gw, on_ = rng.randrange(256), 0, True
            cl.dgram(connect_res(ch, 0))
            cl.start_writer()
        elif z < 0.1:
            cl.dgram(connect_res(octet(rng), 0x24, short=rng.random() < 0.5))
        elif z < 0.3:
            cl.wait(rng.choice([0.5, 1, 3, 3, 7]))
        elif z < 0.45:
            cl.dgram(ack_frame(ch, (cl.ev[-1]["s"]["lc"] + rng.choice([0, 0, 0, 1, 255])) % 256, rng.choice([0, 0, 0, 1])))
        elif z < 0.5:
            cl.dgram([6, 16, 2, 10, 0, 8, ch, rng.choice([0x21, 0x26, 0])])
        elif on_:
            e = cl.dgram(ipt(cemi(rng.choice([IND, CON]), any_link(rng, t, pool) if rng.random() < 0.3 else group_frame(rng, rng.choice(pool), rng.choice(ALL), "write")),
                             (gw + rng.choice([0, 0, 0, 0, 255, 1])) % 256, ch))
            gw = e["s"]["rc"]
    yield
    cl.start_writer()
    cl.wait(30 + 20 * n, "end")


def usb_steps(cl, rng, t, n):
    pool = sorted({a for _, a in t["assoc"]})
    stream = []
    for _ in range(rng.choice([3, 8, 14])):
        a = rng.choice(pool)
        stream += text(usb(cemi(rng.choice([IND, CON]), group_frame(rng, a, rng.choice([d for p, d in t["gobj"] if (p, a) in t["assoc"]] or ALL), rng.choice(["write", "read", "response"]))), pad=rng.choice([0, 56])), rng)
    if rng.random() < 0.5:
        stream = stream[:-rng.randrange(1, 30)]
    while stream:
        yield
        if rng.random() < 0.25:
            cl.step("wait", rng.choice([0.5, 1, 3]))
        else:
            k = rng.choice([1, 7, 20, 50, 150])
            cl.feed(stream[:k])
            stream = stream[k:]
    yield
    cl.step("end", 30 + 20 * n)


def discovery_steps(d, rng):
    for _ in range(12):
        yield
        z = rng.random()
        if z < 0.6:
            f = [6, 16, 2, 2, 0, 0] + hpai(rng) + [54, 1, 2, 0, octet(rng), octet(rng)] + [octet(rng) for _ in range(50)]
            f[5] = len(f) & 255
            d.dgram(f)
        elif z < 0.7:
            d.trouble(False)
        elif z < 0.8:
            d.dgram([octet(rng) for _ in range(rng.randrange(20))])
        else:
            d.wait(rng.choice([0.5, 5, 100]))


def together(rng, tier, shard, nshards):
    """C24 - C28: several clients of one program, some with the same tables, none of which knows of the others"""
    for c in range(10 if tier == "quick" else 120):
        t = table(rng)
        shared = tables_of(t) if rng.random() < 0.6 else None
        kinds = rng.choice([["tunnel"] * 2, ["tunnel"] * 3, ["usb"] * 2, ["usb"] * 3, ["tunnel", "tunnel", "usb", "usb"], ["listen", "listen", "request"], ["tunnel", "usb", "request", "listen"]])
        same = messages(rng, t, rng.choice([2, 4])) if rng.random() < 0.3 else None
        all_, runs = [], []
        for i, kind in enumerate(kinds):
            name = "together-%d-%d-%d" % (shard, c, i)
            me = ("10.0.0.%d" % (7 + i), 5544 + rng.choice([0, i]))
            if kind in ("listen", "request"):
                cl = DisRun(name, kind, me, rng.random() < 0.5)
                g = discovery_steps(cl, rng)
            else:
                msgs = same or messages(rng, t, rng.choice([0, 2, 4]))
                if kind == "tunnel":
                    cl = Tunnel(name, t, msgs, rng, me=me, gw=rng.choice([("10.1.2.3", 3671), ("10.1.2.%d" % (4 + i), 3671)]), stack=shared)
                    g = tunnel_steps(cl, rng, t, len(msgs))
                else:
                    cl = UsbRun(name, t, msgs, rng, stack=shared)
                    g = usb_steps(cl, rng, t, len(msgs))
            all_.append(cl)
            runs.append((cl, g))
            knxlib.CURRENT[:] = all_
        while runs:
            cl, g = r = rng.choice(runs)
            asyncio.set_event_loop(cl.loop)
            for _ in range(rng.choice([1, 1, 2, 5])):
                if next(g, cl) is cl:
                    runs.remove(r)
                    break
        for cl in all_:
            asyncio.set_event_loop(cl.loop)
            cl.close()
        for cl in all_:
            yield cl.history()


SUITES = dict(tunnelling=tunnelling, gateway=gateway, usbclient=usbclient, discovery=discovery, longrun=longrun, together=together)


# ---------------------------------------------------------------------------
def m_client(rng, tier, shard, nshards):
    """walks of MCClient on the real tunnelling client"""
    g = graph_of("g_client")
    first = [i for i, s in enumerate(g.states) if not s["on"] and s["k"] == 1 and s["s"] == dict(rc=0, lc=0, ch=0)]
    targets = [i for i in range(len(g.edges)) if i % nshards == shard and g.edges[i][1]["op"] == "dgram"]
    t = dict(ia=0x1101, addrs=[], max=255, assoc=[(1, 0x0901)], gobj=[(1, "DPT_Switch")])
    for n, (s0, walk) in enumerate(walks(g, first, targets, rng, 60)):
        msgs = [dict(k="groupwrite", asap=1, dpt="DPT_Switch", val=[0, 0, 0, i % 2]) for i in range(1, 4)]
        cl = Tunnel("m_client-%d-%d" % (shard, n), t, msgs, rng)
        cl.start_writer()
        for e in walk:
            c = g.edges[e][1]
            if c["op"] == "tick":
                cl.wait(3)
            else:
                cl.dgram(c["f"])
        yield cl.end(len(msgs))


def m_gateway(rng, tier, shard, nshards):
    """walks of MCTunnel on the real tunnelling client"""
    from suites_models import tunnel_walks, tunnel_frames
    t = dict(ia=0x1101, addrs=[], max=255, assoc=[(1, 0x0901)], gobj=[(1, "DPT_Switch")])
    for n, calls in enumerate(tunnel_walks(rng, tier, shard, nshards, 150, 2500 if tier == "quick" else None)):
        msgs = [dict(k="groupwrite", asap=1, dpt="DPT_Switch", val=[0, 0, 0, 1])] * 3
        cl = Tunnel("m_gateway-%d-%d" % (shard, n), t, msgs, rng)
        cl.dgram(connect_res(1, 0))
        # the connection has been used for a while: the counters are near their wrap
        cl.state.sequence_counter_remote = cl.state.sequence_counter_local = 254
        cl.ev.append(dict(op="resume", s=World.view(cl.state)))
        cl.start_writer()
        for c in calls:
            if c["op"] == "send":
                cl.wait(1)
            else:
                cl.dgram(tunnel_frames(c))
        yield cl.end(len(msgs))



def m_lines(rng, tier, shard, nshards):
    """walks of MCLines on the real USB client"""
    g = graph_of("g_lines")
    first = [i for i, s in enumerate(g.states) if s["pos"] == 0 and s["k"] == 1]
    targets = [i for i in range(len(g.edges)) if i % nshards == shard and g.edges[i][1]["op"] == "feed"]
    t = dict(ia=0x1101, addrs=[], max=255, assoc=[(1, 0x0901)], gobj=[(1, "DPT_Switch")])
    for n, (s0, walk) in enumerate(walks(g, first, targets, rng, 40, 2500 if tier == "quick" else 20000)):
        msgs = [dict(k="groupwrite", asap=1, dpt="DPT_Switch", val=[0, 0, 0, i % 2]) for i in range(1, 3)]
        cl = UsbRun("m_lines-%d-%d" % (shard, n), t, msgs, rng)
        for e in walk:
            c = g.edges[e][1]
            if c["op"] == "tick":
                cl.step("wait", 3)
            else:
                cl.feed(c["o"])
        yield cl.end(len(msgs))


def m_discovery(rng, tier, shard, nshards):
    """walks of MCDiscovery on the real services"""
    g = graph_of("g_discovery")
    first = [i for i, s in enumerate(g.states) if s["prev"] == "start"]
    targets = [i for i in range(len(g.edges)) if i % nshards == shard]
    for n, (s0, walk) in enumerate(walks(g, first, targets, rng, 60)):
        d = DisRun("m_discovery-%d-%d" % (shard, n), g.states[s0]["kind"], ("10.0.0.7", 5544), n % 2)
        for e in walk:
            c = g.edges[e][1]
            if c["op"] == "dgram":
                d.dgram(c["f"])
            elif c["op"] == "wait":
                d.wait(10)
            else:
                d.trouble(c["op"] == "lost")
        d.close()
        yield d.history()


SUITES.update(m_client=m_client, m_gateway=m_gateway, m_lines=m_lines, m_discovery=m_discovery)
