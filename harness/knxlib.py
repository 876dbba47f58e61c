"""Driving the real stack and writing down what it did.

World wraps devices (tables) and sessions (states) of knx_stack.  Every method
makes one call of the public interface and appends one event to `ev`; nothing
here judges: spec/KnxTrace.tla does.
"""
import copy
import importlib
import json
import logging
import os
import random
import signal
import socket
import sys

REPO = os.environ.get("KNX_REPO", "/repo")
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/pycache"
sys.path.insert(0, REPO)
logging.disable(logging.CRITICAL)

import giveway  # noqa: E402,F401
import knx_stack  # noqa: E402
from knx_stack import datapointtypes as D  # noqa: E402

assert os.path.realpath(knx_stack.__file__).startswith(os.path.realpath(REPO)), knx_stack.__file__

Addr = knx_stack.Address
GA = knx_stack.GroupAddress


def ASAP(p, *name):
    """a group object of a number of its own: equal numbers need not be one object"""
    return knx_stack.ASAP(int(str(p)), *name)


APP = knx_stack.layer.application
IP = knx_stack.knxnet_ip
MEDIUM = {"usb": knx_stack.Medium.usb_hid, "ip": knx_stack.Medium.knxnet_ip, "tp": knx_stack.Medium.tp}

DPTS = {
    # name: (octets, less than an octet, significant bits)
    "DPT_Switch": (1, True, 1),
    "DPT_Info_Switch": (1, True, 1),
    "DPT_Alarm": (1, True, 1),
    "DPT_UpDown": (1, True, 1),
    "DPT_Start": (1, True, 1),
    "DPT_Control_Dimming": (1, True, 4),
    "DPTVimarScene": (1, False, 8),
    "DPT_SceneControl": (1, False, 8),
    "DPT_Brightness": (1, False, 8),
    "DPTSetupClima": (4, False, 32),
    "DPTInfoClimaReport": (4, False, 32),
    "DPT_Float_16": (2, False, 16),
    "DPT_Value_Wsp": (2, False, 16),
    "DPT_Value_Temp": (2, False, 16),
    "DPT_Value_Lux": (2, False, 16),
    "DPT_Float_32": (4, False, 32),
    "DPT_Value_Power": (4, False, 32),
}


class Hang(BaseException):
    pass


class Stop(BaseException):
    """too many calls which do not return: the recording ends here"""


HANGS = 0
CURRENT = []  # the worlds being recorded


def _alarm(signum, frame):
    raise Hang()


def guarded(fn, seconds=20):
    """(ok, value): a refusal is any exception; a call which does not return is "hang"."""
    global HANGS
    if HANGS > 5:
        raise Stop()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(2 if HANGS else seconds)
    try:
        return True, fn()
    except Hang:
        HANGS += 1
        return False, "hang"
    except Exception as e:  # noqa
        return False, type(e).__name__
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def hung(ok, v):
    return {"hang": True} if not ok and v == "hang" else {}


def be4(n):
    return [(n >> 24) & 255, (n >> 16) & 255, (n >> 8) & 255, n & 255]


def num(o):
    n = 0
    for b in o:
        n = n * 256 + b
    return n


def num_of(v):
    if v is None:
        return -1
    for name in ("free_style", "value"):
        if hasattr(v, name):
            v = getattr(v, name)
            break
    return int(v)


def octet(rng):
    return rng.choice((0, 1, 128, 255)) if rng.random() < 0.3 else rng.randrange(256)


def word(rng):
    return octet(rng) << 8 | octet(rng) if rng.random() < 0.5 else rng.randrange(65536)


def octets(msg):
    return [int(o.value) for o in msg]


def raw_of(dpt):
    return be4(int(dpt.value))


def make_dpt(name, val):
    d = getattr(D, name)()
    d.value = num(val)
    return d


def ip4(text):
    return list(socket.inet_aton(text)) if text is not None else []


def dotted(o):
    return ".".join(str(b) for b in o)


CLASSES = {}
for _svc in ("read", "response", "write"):
    for _dir in ("ind", "con"):
        for _k in ("group", "property"):
            _m = getattr(getattr(APP, "a_%s_value_%s" % (_k, _svc)), _dir, None)
            if _m is not None:
                CLASSES[_m.Msg] = ("group" if _k == "group" else "prop", _svc, _dir)


def canon(m):
    """a decoded message as a record of the specification"""
    try:
        c = type(m)
        if c in CLASSES:
            k, svc, dir_ = CLASSES[c]
            st = int(m.status) if hasattr(m, "status") else -1
            if k == "group":
                return dict(k=k, svc=svc, dir=dir_, asap=int(m.asap.value), dpt=type(m.dpt).__name__, val=raw_of(m.dpt), st=st)
            data = octets(m.data) if hasattr(m, "data") else []
            return dict(k=k, svc=svc, dir=dir_, asap=int(m.asap.value), obj=int(m.object_index), pid=int(m.property_id),
                        n=int(m.number_of_elements), ix=int(m.start_index), data=data, st=st)
        if c is IP.tunneling.req.Msg:
            return dict(k="treq", ctr=int(m.sequence_counter), st=int(m.status))
        if c is IP.tunneling.ack.Msg:
            return dict(k="tack", ctr=int(m.sequence_counter), st=int(m.status))
        if c is IP.core.connect.res.Msg:
            return dict(k="conres", ip=ip4(m.ip), port=num_of(m.port), ia=num_of(m.individual_address), st=int(m.status))
        if c is IP.core.connectionstate.res.Msg:
            return dict(k="csres", st=int(m.status))
        if c is IP.core.disconnect.res.Msg:
            return dict(k="disres", ch=num_of(m.communication_channel_id), st=int(m.status))
        if c is IP.core.search.res.Msg:
            return dict(k="searchres", ip=ip4(m.ip), port=num_of(m.port), ia=num_of(m.individual_address))
        if c.__name__ == "ConnectionStatus":
            return dict(k="feature", what="ConnectionStatus", text=str(m.status))
        if c.__name__ == "EMIType":
            return dict(k="feature", what="EMIType", text=str(m.type))
    except Exception as e:  # noqa
        return dict(k="other", text="%s: %s" % (type(m).__name__, e))
    return dict(k="other", text=type(m).__name__)


def canon_all(ms):
    if ms is None:
        return []
    return [canon(m) for m in ms]


def wire(m, f):
    cls = IP.Msg if m == "ip" else knx_stack.Msg
    return cls.make_from_str("".join("%02X" % b for b in f))


# requests of the transport layer have no message: they are encoded from nothing
CONTROL = {"tconnect": "t_connect", "tdisconnect": "t_disconnect"}


def send(st, x, msg):
    if x["k"] in CONTROL:
        return importlib.import_module("knx_stack.encode.layer.transport.%s.req" % CONTROL[x["k"]]).encode(st, msg)
    return knx_stack.encode_msg(st, msg)


def build(x):
    """the message of the public interface for a record of the specification"""
    k = x["k"]
    if k == "groupread":
        return APP.a_group_value_read.req.Msg(asap=ASAP(x["asap"]))
    if k == "groupwrite":
        return APP.a_group_value_write.req.Msg(asap=ASAP(x["asap"]), dpt=make_dpt(x["dpt"], x["val"]))
    if k == "groupwriteind":
        return APP.a_group_value_write.ind.Msg(asap=ASAP(x["asap"]), dpt=make_dpt(x["dpt"], x["val"]))
    if k == "propread":
        return APP.a_property_value_read.req.Msg(asap=ASAP(x["asap"]), object_index=x["obj"], property_id=x["pid"],
                                                 number_of_elements=x["n"], start_index=x["ix"])
    if k == "propwrite":
        return APP.a_property_value_write.req.Msg(asap=ASAP(x["asap"]), object_index=x["obj"], property_id=x["pid"],
                                                  number_of_elements=x["n"], start_index=x["ix"],
                                                  data="".join(("%02X", "%02x")[sum(x["data"]) * i // 3 % 2] % b for i, b in enumerate(x["data"], 1)))
    if k in CONTROL:
        return knx_stack.Msg([])
    if k == "connect":
        return IP.core.connect.req.Msg(addr_control_endpoint=dotted(x["ip"]), port_control_endpoint=x["port"],
                                       addr_data_endpoint=dotted(x["ip2"]), port_data_endpoint=x["port2"])
    if k == "search":
        return IP.core.search.req.Msg(addr=dotted(x["ip"]), port=x["port"])
    if k == "connstate":
        return IP.core.connectionstate.req.Msg(addr_control_endpoint=dotted(x["ip"]), port_control_endpoint=x["port"])
    if k == "disconnect":
        return IP.core.disconnect.req.Msg(addr_control_endpoint=dotted(x["ip"]), port_control_endpoint=x["port"])
    if k == "ack":
        return IP.tunneling.ack.Msg(sequence_counter=x["ctr"], status=IP.ErrorCodes(x["st"]))
    raise KeyError(k)


def unbuild(x, msg):
    """the record read back from the message, to see whether a call changed it"""
    y = dict(x)
    try:
        if hasattr(msg, "asap"):
            y["asap"] = int(msg.asap.value)
        if hasattr(msg, "dpt"):
            y["dpt"] = type(msg.dpt).__name__
            y["val"] = raw_of(msg.dpt)
        if hasattr(msg, "object_index"):
            y.update(obj=msg.object_index, pid=msg.property_id, n=msg.number_of_elements, ix=msg.start_index)
        if hasattr(msg, "data"):
            y["data"] = [int(msg.data[i:i + 2], 16) for i in range(0, len(msg.data), 2)]
        if x["k"] == "ack":
            y.update(ctr=msg.sequence_counter, st=int(msg.status))
    except Exception:  # noqa
        y["k"] = "broken"
    return y


NSDUS = ["T_Data_Broadcast_PDU", "T_Data_Group_PDU", "T_Data_Tag_Group_PDU", "T_Data_Individual_PDU", "T_Data_Connected_PDU",
         "T_Connect_PDU", "T_Disconnect_PDU", "T_ACK_PDU", "T_NACK_PDU"]
KINDS = ["broadcast", "group", "taggroup", "individual", "connected", "connect", "disconnect", "ack", "nack"]


def learn_places():
    """where the octets of a frame lie in the view's own memory, if it holds them as they are"""
    try:
        probe = list(range(0x21, 0x2A))
        raw = bytes(knx_stack.layer.L_Data.make_from(knx_stack.Msg.make_from_str("".join("%02X" % b for b in probe)))[0])
        return [raw.index(b) for b in probe] if all(raw.count(b) == 1 for b in probe) else None
    except Exception:  # noqa
        return None


PLACES = []


def link_octets(l):
    """the nine octets of the frame the view is of; none if they cannot be seen"""
    if not PLACES:
        PLACES.append(learn_places())
    raw = bytes(l) if PLACES[0] else b""
    return [raw[i] for i in PLACES[0]] if raw else []


def link_view(l):
    r = {f: int(getattr(l, f)) for f in ("source", "destination", "address_type", "status", "apci", "apci_value", "tpci", "data")}
    r["connected"] = bool(l.connected)
    r["nsdu"] = "none" if l.nsdu is None else KINDS[NSDUS.index(l.nsdu.name)]
    return r


class Stack:
    def __init__(self, at, ast, got):
        self.at, self.ast, self.got = at, ast, got


def new_state(m, stack):
    if m == "ip":
        return IP.State(MEDIUM[m], stack.ast, stack.got)
    return knx_stack.State(MEDIUM[m], stack.ast, stack.got)


def lookup(fn, default):
    try:
        return fn()
    except Exception:  # noqa
        return default


class World:
    def __init__(self, name, probes=()):
        self.name = name
        self.ev = []
        self.stacks = []
        self.sess = []  # (k, medium, state)
        self.last = []
        self.probes = sorted(set(probes))
        self.names = 0  # calls so far which could be made in several ways
        self.naming = None  # group object -> name, if every one has its own for good
        self.raw = None  # what the last call returned
        self.blind = random.Random(name)  # some operations are not followed by lookups, which could bring the tables up to date
        self.blindness = 0.4
        self.ways = random.Random("ways " + name)  # how tables are built
        self.plain = False  # some addresses are given as plain ones
        self.asked = {}  # session -> telegram and group object given to it since its last call
        self.mine = {}  # messages sent before, by what they are about
        self.reuse = random.Random("reuse " + name)  # a program may send the same message object again, None: never
        self.light = False  # a big device: few snapshots
        self.dirty = set()  # the stacks whose tables were not looked at since their last operation
        CURRENT[:] = [self]

    def history(self):
        return dict(name=self.name, ev=self.ev)

    # ---- tables ---------------------------------------------------------
    def asap(self, p):
        """a group object, unnamed, with a name of its own or with a name others have too"""
        if self.naming is not None:
            name = self.naming.get(p)
            return ASAP(p) if name is None else ASAP(p, name)
        self.names += 1
        name = (None, "number %d" % p, None, "light", "")[self.names % 5]
        return ASAP(p) if name is None else ASAP(p, name)

    def ga(self, a):
        """an address in one of its notations, or without any"""
        if self.plain and self.ways.random() < 0.25:
            return Addr(a)
        if a % 3 == 0:
            return GA(free_style=a)
        if a % 3 == 1:
            return GA(two_level_style=knx_stack.TwoLevelStyle(main=a >> 11, sub=a & 0x7FF))
        return GA(three_level_style=knx_stack.ThreeLevelStyle(main=a >> 11, middle=(a >> 8) & 7, sub=a & 255))

    def snap(self, k, full=True):
        s = self.stacks[k - 1]
        bad = [-99]
        tsaps = lookup(lambda: [int(n) for n in s.at.tsaps], bad)
        addrs = lookup(lambda: [num_of(a) for a in s.at.addresses], bad)
        asaps = lookup(lambda: [int(p.value) for p in s.ast.asaps], bad)
        r = dict(
            ia=lookup(lambda: num_of(s.at.individual_address), -99),
            ia2=lookup(lambda: num_of(s.ast.individual_address), -99),
            max=lookup(lambda: int(s.at.max_size), -99),
            tsaps=tsaps, addrs=addrs, asaps=asaps,
            byt=[lookup(lambda: num_of(s.at.get_address(n)), -99) for n in tsaps if n >= 0],
            free=lookup(lambda: int(s.ast.get_free_asap_value()), -99),
            gobj=lookup(lambda: [dict(asap=int(p.value), dpt=d.__name__) for p, d in s.got.associations], [dict(asap=-99, dpt="none")]),
            rel=[], rev=[], look=[], bya=[],
        )
        for p in asaps:
            if p > 0:
                ts = lookup(lambda: [num_of(n) for n in s.ast.get_tsaps(ASAP(p))], bad)
                r["rel"].append(dict(p=p, ts=ts, **{"as": lookup(lambda: [num_of(a) for a in s.ast.get_addresses(s.ast.get_tsaps(ASAP(p)))], bad)}))
        if not full:
            return r
        for n in tsaps:
            if n > 0:
                r["rev"].append(dict(n=n, ps=lookup(lambda: [int(p.value) for p in s.ast.get_asaps(n)], bad)))
        for a in sorted(set(self.probes) | {x for x in addrs if x >= 0} | ({r["ia"]} if r["ia"] >= 0 else set())):
            self.names += 1
            key = Addr(a) if self.names % 2 else self.ga(a)
            r["look"].append(dict(a=a, n=lookup(lambda: num_of(s.at.get_tsap(key)), -99)))
            if a != r["ia"]:
                r["bya"].append(dict(a=a, ps=lookup(lambda: [int(p.value) for p in s.ast.get_asaps_from_address(Addr(a) if self.names % 3 else self.ga(a))], bad)))
        return r

    def stack(self, ia, addrs=(), max_=255, assoc=(), gobj=()):
        addrs, assoc, gobj = list(addrs), list(assoc), list(gobj)
        way = self.ways.choice((list, list, tuple, iter))
        at = knx_stack.AddressTable(Addr(ia), way([self.ga(a) for a in addrs]), max_)
        if assoc or self.ways.random() < 0.5:
            ast = knx_stack.AssociationTable(at, way([knx_stack.Association(asap=self.asap(p), address=self.ga(a)) for p, a in assoc]))
        else:
            ast = knx_stack.AssociationTable(at, *self.ways.choice(((), ({},), (None,))))
        if gobj or self.ways.random() < 0.5:
            got = knx_stack.GroupObjectTable({self.asap(p): getattr(D, d) for p, d in gobj})
        else:
            got = knx_stack.GroupObjectTable(*self.ways.choice(((), (None,))))
        self.stacks.append(Stack(at, ast, got))
        k = len(self.stacks)
        self.last.append(self.snap(k))
        self.ev.append(dict(op="newstack", k=k, ia=ia, addrs=addrs, max=max_, assoc=[dict(asap=p, addr=a) for p, a in assoc],
                            gobj=[dict(asap=p, dpt=d) for p, d in gobj], snap=self.last[-1]))
        return k

    def _table(self, k, call, **c):
        ok, v = guarded(call)
        r = dict(k=k, ok=ok, **c, **hung(ok, v))
        if self.blind and self.blind.random() < self.blindness:
            self.dirty.add(k)
            self.last[k - 1] = lookup(lambda: self.aside(k), self.last[k - 1])
        else:
            self.dirty.discard(k)
            r["snap"] = self.last[k - 1] = self.snap(k)
        self.ev.append(r)
        return ok

    def aside(self, k):
        """what a copy of the tables shows; nothing is judged by it"""
        was = self.stacks[k - 1]
        try:
            self.stacks[k - 1] = copy.deepcopy(was)
            return self.snap(k) if not self.light else dict(self.last[k - 1], **{f: v for f, v in self.snap(k, False).items() if f in ("ia", "max", "gobj", "rel")})
        finally:
            self.stacks[k - 1] = was

    def tadd(self, k, a):
        return self._table(k, lambda: self.stacks[k - 1].at.add(self.ga(a)), op="tadd", a=a)

    def tremove(self, k, a):
        return self._table(k, lambda: self.stacks[k - 1].at.remove(self.ga(a)), op="tremove", a=a)

    def setia(self, k, a):
        def call():
            self.stacks[k - 1].at.individual_address = Addr(a)
        return self._table(k, call, op="setia", a=a)

    def _addresses(self, as_):
        r = [self.ga(a) for a in as_]
        self.names += 1
        return (r, tuple(r), (x for x in r))[self.names % 3]

    def assoc(self, k, p, as_):
        as_ = list(as_)
        x = self._addresses(as_)
        return self._table(k, lambda: self.stacks[k - 1].ast.associate(self.asap(p), x), op="assoc", p=p, **{"as": as_})

    def disassoc(self, k, p, as_):
        as_ = list(as_)
        x = self._addresses(as_)
        return self._table(k, lambda: self.stacks[k - 1].ast.disassociate(self.asap(p), x), op="disassoc", p=p, **{"as": as_})

    def setdpt(self, k, p, d):
        return self._table(k, lambda: self.stacks[k - 1].got.associate(self.asap(p), getattr(D, d)), op="setdpt", p=p, d=d)

    def unsetdpt(self, k, p):
        return self._table(k, lambda: self.stacks[k - 1].got.disassociate(self.asap(p)), op="unsetdpt", p=p)

    # ---- sessions -------------------------------------------------------
    def session(self, k, m):
        self.sess.append((k, m, new_state(m, self.stacks[k - 1])))
        self.ev.append(dict(op="newsess", k=k, m=m))
        return len(self.sess)

    def setcnt(self, s, rc, lc, ch=0):
        st = self.sess[s - 1][2]
        st.sequence_counter_remote = rc
        st.sequence_counter_local = lc
        if self.sess[s - 1][1] == "ip":
            st.communication_channel_id = ch
        else:
            ch = 0
        self.ev.append(dict(op="setcnt", s=s, rc=rc, lc=lc, ch=ch))

    @staticmethod
    def view(st):
        return dict(rc=int(st.sequence_counter_remote), lc=int(st.sequence_counter_local), ch=int(getattr(st, "communication_channel_id", 0)))

    def cur(self, s):
        return self.view(self.sess[s - 1][2])

    def _after(self):
        snaps = []
        for k in range(1, len(self.stacks) + 1):
            if (k in self.dirty and self.blind.random() < self.blindness) or (self.light and self.blind.random() < 0.95):
                continue
            n = self.snap(k)
            if n != self.last[k - 1] or k in self.dirty:
                self.dirty.discard(k)
                self.last[k - 1] = n
                snaps.append(dict(k=k, snap=n))
        return dict(ssa=[self.view(st) for _, _, st in self.sess], snaps=snaps)

    def _fresh_state(self, s, stack):
        k, m, st = self.sess[s - 1]
        v = self.view(st)
        n = new_state(m, stack)
        n.sequence_counter_remote, n.sequence_counter_local = v["rc"], v["lc"]
        if m == "ip":
            n.communication_channel_id = v["ch"]
        return n

    def rebuilt(self, k):
        """a stack newly built with the configuration stack k shows now"""
        s, n = self.stacks[k - 1], self.last[k - 1]
        if not all(isinstance(a, int) and 0 <= a < 65536 for a in n["addrs"]) or len(set(n["addrs"])) != len(n["addrs"]) or len(n["addrs"]) > n["max"]:
            return None
        at = knx_stack.AddressTable(Addr(n["ia"]), [GA(free_style=a) for a in n["addrs"]], n["max"])
        ast = knx_stack.AssociationTable(at)
        for e in n["rel"]:
            ast.associate(ASAP(e["p"]), [GA(free_style=a) for a in e["as"] if a >= 0])
        got = knx_stack.GroupObjectTable({ASAP(e["asap"]): getattr(D, e["dpt"]) for e in n["gobj"]})
        return Stack(at, ast, got)

    def _fresh(self, s, call, fs, fr):
        """call(state) -> result dict, on a fresh session / a freshly built stack, before the real call"""
        out = {}
        k = self.sess[s - 1][0]
        if k in self.dirty:
            return out
        if fs:
            st = self._fresh_state(s, self.stacks[k - 1])
            out["fs"] = dict(call(st), ssa1=self.view(st))
        if fr:
            stack = lookup(lambda: self.rebuilt(k), None)
            if stack is not None:
                st = self._fresh_state(s, stack)
                out["fr"] = dict(call(st), ssa1=self.view(st))
        return out

    def dec(self, s, f, fs=False, fr=False):
        self.asked.pop(s, None)
        m = self.sess[s - 1][1]

        def call(st):
            ok, v = guarded(lambda: canon_all(knx_stack.decode_msg(st, wire(m, f))))
            return dict(ok=ok, msgs=v if ok else [])
        extra = self._fresh(s, call, fs, fr)
        frame = wire(m, f)
        self.raw = None

        def real():
            self.raw = knx_stack.decode_msg(self.sess[s - 1][2], frame)
            return canon_all(self.raw)
        ok, v = guarded(real)
        e = dict(op="dec", s=s, f=list(f), ok=ok, msgs=v if ok else [], **extra, **hung(ok, v), **self._after())
        if lookup(lambda: octets(frame), None) != list(f):
            e["x2"] = True
        self.ev.append(e)
        return len(self.ev), e

    def message(self, x):
        """the message for x: a new one, or one sent before with the value it holds changed"""
        if self.reuse is None or x["k"] in CONTROL:
            return build(x)
        group = x["k"] in ("groupwrite", "groupwriteind")
        key = json.dumps([x["k"], x["asap"], x["dpt"]] if group else x, sort_keys=True)
        old = self.mine.get(key)
        if old is None or self.reuse.random() < 0.5:
            old = self.mine[key] = build(x)
        elif group:
            old.dpt.value = num(x["val"])
        return old

    def enc(self, s, x, fs=False, fr=False, msg=None):
        self.asked.pop(s, None)
        def call(st):
            ok, v = guarded(lambda: octets(send(st, x, build(x))))
            return dict(ok=ok, o=v if ok else [])
        extra = self._fresh(s, call, fs, fr)
        msg = self.message(x) if msg is None else msg
        before = unbuild(x, msg)
        self.raw = None

        def real():
            self.raw = (msg, send(self.sess[s - 1][2], x, msg))
            return octets(self.raw[1])
        ok, v = guarded(real)
        e = dict(op="enc", s=s, x=x, ok=ok, o=v if ok else [], **extra, **hung(ok, v), **self._after())
        if unbuild(x, msg) != before:
            e["x2"] = True
        self.ev.append(e)
        return len(self.ev), e

    # ---- what a session answers ------------------------------------------
    def ask(self, s, f=None, p=None):
        """lookups of session s for the telegram with link frame f and group object p (a number);
        without them for those it was given last, which it still holds"""
        k, m, st = self.sess[s - 1]
        given = f is not None
        if given:
            self.asked[s] = (list(f), p)
        else:
            f, p = self.asked[s]
        none = lambda v: -1 if v is None else num_of(v)  # noqa

        def put():
            st.ldata = knx_stack.layer.L_Data.make_from(knx_stack.Msg.make_from_str("".join("%02X" % b for b in f)))[0]
            st.asap = self.asap(p)
        ok, v = guarded(put) if given else (True, None)
        bad = [-99]
        self.ev.append(dict(
            op="ask", s=s, f=list(f), p=p, **hung(ok, v),
            kept=lookup(lambda: [int(st.ldata.destination), int(st.asap.value)], bad),
            tsap=lookup(lambda: none(st.get_tsap()), -99),
            asaps=lookup(lambda: [int(x.value) for x in st.get_asaps()], bad),
            ad=lookup(lambda: [dict(asap=int(x.value), dpt=d.__name__) for x, d in st.get_asaps_and_dpts()], [dict(asap=-99, dpt="none")]),
            tsaps=lookup(lambda: [num_of(n) for n in st.get_tsaps()], []),
            addrs=lookup(lambda: [num_of(a) for a in st.get_addresses()], []),
            dpt=lookup(lambda: st.get_dpt().__name__, "none"),
            ia=lookup(lambda: num_of(st.individual_address), -99)))

    def counters(self, s, a, b):
        """give the counters any numbers; afterwards they are what setcnt says"""
        st = self.sess[s - 1][2]

        def put():
            st.sequence_counter_remote, st.sequence_counter_local = a, b
            return [int(st.sequence_counter_remote), int(st.sequence_counter_local)]
        ok, v = guarded(put)
        self.ev.append(dict(op="counters", s=s, set=[a, b], got=v if ok else [-1, -1]))
        c = self.cur(s)
        self.setcnt(s, c["rc"], c["lc"], c["ch"])

    def stext(self, s):
        k, m, st = self.sess[s - 1]

        def lines(x):
            ok, v = guarded(lambda: [y.strip() for y in str(x).split("\n") if y.strip()])
            return v if ok else ["failed " + str(v)]
        self.ev.append(dict(op="stext", s=s, lines=lines(st), ast=lines(self.stacks[k - 1].ast), got=lines(self.stacks[k - 1].got)))

    # ---- relations ------------------------------------------------------
    def same(self, tag, what, idx, app=False):
        self.ev.append(dict(op="same", tag=tag, what=what, app=app, **{"is": list(idx)}))

    def trip(self, enc, dec, dpt):
        self.ev.append(dict(op="trip", e=enc, d=dec, dpt=dpt))

    def equal(self, tag, what, a, b):
        self.ev.append(dict(op="equal", tag=tag, what=what, a=json.dumps(a, sort_keys=True), b=json.dumps(b, sort_keys=True)))

    # ---- texts ----------------------------------------------------------
    def _names(self):
        return [dict(asap=p, name=n) for p, n in sorted((self.naming or {}).items()) if n]

    def text(self, k):
        s = self.stacks[k - 1]

        def lines(x):
            ok, v = guarded(lambda: str(x).split("\n"))
            return v if ok else ["failed " + str(v)]
        self.ev.append(dict(op="text", k=k, names=self._names(), at=lines(s.at), ast=lines(s.ast), got=lines(s.got)))

    def mtext(self, x, m):
        """the text of message m, which is x in the specification"""
        ok, t = guarded(lambda: str(m))
        self.ev.append(dict(op="mtext", x=x, names=self._names(), text=t if ok else "failed " + str(t),
                            dpt=lookup(lambda: str(m.dpt), ""), data=lookup(lambda: str(m.data), "")))

    def rtext(self, x, m=None):
        ok, t = guarded(lambda: str(build(x) if m is None else m))
        self.ev.append(dict(op="rtext", x=x, text=t if ok else "failed " + str(t)))

    # ---- link frame views -----------------------------------------------
    def link(self, o, sets=()):
        L, out, st = knx_stack.layer.L_Data, [], {}

        def make():
            st["l"], rest = L.make_from(knx_stack.Msg.make_from_str("".join("%02X" % b for b in o)))
            return link_view(st["l"]), octets(rest)
        ok, v = guarded(make)
        if ok:
            for f, x in sets:
                def put():
                    y = x
                    if f == "nsdu":
                        y = knx_stack.layer.NSDU[NSDUS[x - 1]]
                    elif f == "address_type":
                        y = knx_stack.layer.AddressType(x)
                    elif f == "connected":
                        y = bool(x)
                    setattr(st["l"], f, y)
                    return link_view(st["l"]), link_octets(st["l"])
                sok, sv = guarded(put)
                out.append(dict(f=f, v=x, ok=sok, view=sv[0] if sok else {}, o=sv[1] if sok else []))
        self.ev.append(dict(op="link", o=list(o), ok=ok, view=v[0] if ok else {}, rest=v[1] if ok else [], sets=out))

    def same_names(self, p, n, q, m):
        a, b = ASAP(p) if n is None else ASAP(p, n), ASAP(q) if m is None else ASAP(q, m)

        def look():
            return dict(p=p, q=q, eq=a == b, ne=a != b, hash=hash(a) == hash(b), one=len({a, b}) == 1, v=[int(a.value), int(b.value)])
        ok, v = guarded(look)
        self.ev.append(dict(op="names", **(v if ok else dict(p=p, q=q, eq=False, ne=False, hash=False, one=False, v=[-1, -1]))))


# ---- frames ---------------------------------------------------------------
IND, CON, REQ = 0x29, 0x2E, 0x11
APCI = {"read": 0x000, "response": 0x040, "write": 0x080}
PROP = {"read": 0x3D5, "response": 0x3D6, "write": 0x3D7}


def link(dst, apci, payload=(), group=True, src=0x1101, c1=0xBC, c2=0x60, tpci=0, low=0, length=None):
    """ctrl1 ctrl2 src dst length tpci/apci payload; low: data inside the APCI octet"""
    a = apci | low
    p = list(payload)
    return [c1, (c2 & 0x7F) | (0x80 if group else 0), src >> 8, src & 255, dst >> 8, dst & 255,
            (1 + len(p)) & 255 if length is None else length, (tpci & 0xFC) | (a >> 8), a & 255] + p


def cemi(code, l, add=()):
    return [code, len(add)] + list(add) + l


def usb(c, pad=0, seq=1, extra=()):
    body = len(c)
    r = [1, (seq << 4) | 3, 8 + body, 0, 8, body >> 8, body & 255, 1, 3, 0, 0] + list(c) + list(extra)
    return r + [0] * max(0, pad - len(r))


def ipt(c, ctr, ch=1, st=0):
    n = 10 + len(c)
    return [6, 16, 4, 32, n >> 8, n & 255, 4, ch, ctr, st] + list(c)


def on(m, c, ctr=0, ch=1):
    return usb(c) if m == "usb" else ipt(c, ctr, ch)


def value_payload(dpt, val):
    """(low, payload) of a value"""
    size, sub, bits = DPTS[dpt]
    if sub:
        return val[3] & 63, []
    return 0, val[4 - size:]


def rand_val(rng, dpt):
    size, sub, bits = DPTS[dpt]
    n = rng.choice([0, (1 << bits) - 1, rng.getrandbits(bits), rng.getrandbits(bits), 1 << rng.randrange(bits)])
    if dpt in ("DPT_Float_32", "DPT_Value_Power") and (n >> 23) & 255 == 255:
        n &= ~(1 << 23)
    return be4(n)
