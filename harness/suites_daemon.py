"""Histories of the real daemon (daemon/usbhid.c), judged by spec/DaemonTrace.tla.

The daemon runs as a process of its own whose listening socket, connections and
device are unix sockets held by the recorder.  A step stops the process, lets
several things happen at once, lets it go on until it sleeps with nothing left
to read, and writes down what each client and the device got."""
import array
import fcntl
import os
import random
import signal
import socket
import struct
import subprocess
import termios
import time

import graphs
import knxlib
from knxlib import CURRENT, REPO

WORK = os.environ.get("VERIF_WORK", "/tmp")
HERE = os.path.dirname(os.path.abspath(__file__))
BIN = None
STUCK = 0


def build():
    global BIN
    if BIN is None:
        BIN = os.path.join(WORK, "daemon-%d" % os.getpid())
        shim = BIN + "-shim.o"
        base = ["gcc", "-g", "-O1", "-w", "-U_FORTIFY_SOURCE", "-fsanitize=address", "-fno-omit-frame-pointer"]
        for cmd in ([*base, "-c", os.path.join(HERE, "daemon_shim.c"), "-o", shim],
                    [*base, os.path.join(REPO, "daemon", "usbhid.c"), shim, "-o", BIN]):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                raise SystemExit("the daemon does not build:\n" + p.stdout.decode("utf8", "replace")[-3000:])
    return BIN


def unread(s):
    """octets sent on s which the other side has not read"""
    return struct.unpack("i", fcntl.ioctl(s.fileno(), termios.TIOCOUTQ, b"\0\0\0\0"))[0]


class Client:
    def __init__(self, ours):
        self.s = ours
        self.stalled = False


class Daemon:
    def __init__(self, name):
        self.name, self.ev = name, []
        CURRENT[:] = [self]
        self.clients = {}
        self.n = 0
        self.control, c = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        self.device, d = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        self.device.setblocking(False)

        hi = [fcntl.fcntl(x.fileno(), fcntl.F_DUPFD, 200) for x in (c, d)]

        def pre():
            os.dup2(hi[0], 100)
            os.dup2(hi[1], 101)
            for fd in hi:
                os.close(fd)
        self.p = subprocess.Popen([build(), "--dev-hidraw", "/dev/knx-under-test"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=open(os.path.join(WORK, "daemon-stderr-%d" % os.getpid()), "wb"), preexec_fn=pre, close_fds=False,
                                  pass_fds=(), env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99", "LANG": "C"})
        for fd in hi:
            os.close(fd)
        c.close()
        d.close()
        self.settle()
        self.base = self.fds()

    def history(self):
        return dict(name=self.name, ev=self.ev)

    def alive(self):
        return self.p.poll() is None

    def state(self):
        try:
            with open("/proc/%d/stat" % self.p.pid, "rb") as f:
                return f.read().rsplit(b")", 1)[1].split()[0].decode()
        except OSError:
            return "X"

    def fds(self):
        try:
            return len(os.listdir("/proc/%d/fd" % self.p.pid))
        except OSError:
            return -1

    def settle(self):
        """until the daemon sleeps and nothing sent to it is unread; False: something stays unread"""
        global STUCK
        end = time.monotonic() + (8 if STUCK == 0 else 1)
        calm = 0
        sleeping = 0
        while True:
            st = self.state()
            if st in "XZ" and not self.alive():
                return True
            if st == "S":
                busy = any(unread(s) for s in [self.control, self.device] + [c.s for c in self.clients.values()])
                calm = 0 if busy else calm + 1
                if calm >= 3:
                    return True
            else:
                calm = 0
            if calm == 0:
                time.sleep(0.0001)
            if time.monotonic() > end:
                STUCK += 1
                return False

    def stop(self):
        os.kill(self.p.pid, signal.SIGSTOP)
        end = time.monotonic() + 5
        while self.state() not in "TXZ" and time.monotonic() < end:
            time.sleep(0.00005)

    def do(self, op):
        k, c = op["k"], op.get("c", 0)
        if k == "connect":
            ours, theirs = socket.socketpair(socket.AF_UNIX, socket.SOCK_STREAM)
            ours.setblocking(False)
            if op.get("small"):  # little room for what is not read
                theirs.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, op["small"])
            self.control.sendmsg([b"c"], [(socket.SOL_SOCKET, socket.SCM_RIGHTS, array.array("i", [theirs.fileno()]))])
            theirs.close()
            self.clients[c] = Client(ours)
        elif k == "abort":
            self.control.send(b"a")
        elif k == "data":
            try:
                self.clients[c].s.sendall(bytes(op["o"]))
            except OSError:  # the daemon closed this connection: the judge sees the end of it
                pass
        elif k == "report":
            self.device.send(bytes(op["o"]))
        elif k == "stall":  # reads nothing any more
            self.clients[c].stalled = True
        elif k == "half":
            try:
                self.clients[c].s.shutdown(socket.SHUT_WR)
            except OSError:
                pass
        elif k in ("close", "reset"):
            x = self.clients.pop(c)
            if k == "close" and not x.stalled:  # nothing unread: the daemon sees the end of the stream
                self.drain(x)
            x.s.close()

    @staticmethod
    def drain(x):
        """(octets, end of stream)"""
        o = b""
        while True:
            try:
                b = x.s.recv(65536)
            except BlockingIOError:
                return list(o), False
            except OSError:
                return list(o), True
            if not b:
                return list(o), True
            o += b

    def step(self, *ops, lazy=()):
        ops = [dict(c=0, o=[], **{k: v for k, v in op.items() if k not in ("c", "o")}) | {k: v for k, v in op.items()} for op in ops]
        global STUCK
        if STUCK > 3 or not self.alive():
            return False
        together = len(ops) > 1
        if together:
            self.stop()
        before = {c: x for c, x in self.clients.items()}
        pre = []
        for op in ops:
            if op["k"] in ("close", "reset") and op["c"] in self.clients:
                x = self.clients[op["c"]]
                if op["k"] == "close" and not x.stalled:
                    o, eof = self.drain(x)
                    pre.append(dict(c=op["c"], o=o, eof=eof, partial=True))
            self.do(op)
        if together:
            os.kill(self.p.pid, signal.SIGCONT)
        ok = self.settle()
        got = list(pre)
        for c, x in sorted(self.clients.items()):
            if c in lazy or x.stalled:
                continue
            o, eof = self.drain(x)
            if o or eof or c in {op["c"] for op in ops} or any(op["k"] == "report" for op in ops):
                got.append(dict(c=c, o=o, eof=eof, partial=False))
            if eof:
                x.s.close()
                self.clients.pop(c)
        dev = []
        while True:
            try:
                b = self.device.recv(65536)
            except OSError:
                break
            if not b:
                break
            dev.append(list(b))
        alive = self.alive()
        self.ev.append(dict(op="step", ops=ops, lazy=sorted(lazy), got=got, dev=dev, fds=self.fds() - self.base if alive else 0, alive=alive, stuck=not ok))
        return alive

    def new(self):
        self.n += 1
        return self.n

    def end(self):
        if self.alive():
            try:
                os.kill(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
        self.p.wait()
        for s in [self.control, self.device] + [x.s for x in self.clients.values()]:
            s.close()
        return self.history()


# ---- contents -------------------------------------------------------------------
def hexline(rng, o):
    s = "".join(rng.choice(("%02x", "%02X")) % b for b in o)
    return [ord(c) for c in s]


def eol(rng):
    """a line feed, what a terminal sends, or a carriage return"""
    return rng.choice([[10]] * 8 + [[13, 10]] * 3 + [[13]])


def valid(rng, c=None):
    n = rng.choice([1, 2, 3, 10, 20, 30, 55, 56, rng.randrange(1, 57)])
    o = [rng.choice([rng.randrange(256), 0, 255, 10, 13, 0xAB]) for _ in range(n)]
    if c is not None and rng.random() < 0.7:
        o[0] = c & 255
    return hexline(rng, o) + eol(rng)


def invalid(rng):
    k = rng.randrange(8)
    if k == 0:
        return eol(rng)
    if k == 1:  # odd
        o = hexline(rng, [rng.randrange(256) for _ in range(rng.randrange(1, 56))])
        return o[:-1] + eol(rng)
    if k == 2:  # too long
        return hexline(rng, [rng.randrange(256) for _ in range(rng.choice([57, 57, 58, 60, 100, 300, 1000]))]) + eol(rng)
    if k == 3:  # too long by a digit
        return hexline(rng, [rng.randrange(256) for _ in range(57)])[:113] + eol(rng)
    if k == 4:  # too long, ends in the middle of what would be a line
        return hexline(rng, [7] * 56) + [ord("z")] * rng.randrange(1, 9) + eol(rng)
    o = hexline(rng, [rng.randrange(256) for _ in range(rng.randrange(1, 57))])
    for _ in range(rng.choice([1, 1, 2])):
        o[rng.randrange(len(o))] = rng.choice([ord(c) for c in "gGzZ xX+-/:@`.,\t"] + [0, 1, 128, 255])
    return o + eol(rng)


def stream(rng, c=None, n=None):
    o = []
    for _ in range(rng.randrange(1, 5) if n is None else n):
        o += valid(rng, c) if rng.random() < 0.7 else invalid(rng)
    return o


def pieces(rng, o):
    """o cut at random places"""
    k = rng.choice([0, 1, 1, 2, 3, len(o) // 2])
    ends = [i for i in range(1, len(o)) if o[i - 1] in (10, 13)]  # a cut at the end of a line, often
    cuts = sorted(set(rng.sample(range(1, len(o)), min(k, len(o) - 1)) + [i for i in ends if rng.random() < 0.3])) if len(o) > 1 else []
    return [o[a:b] for a, b in zip([0] + cuts, cuts + [len(o)])]


LAST = [[1]]


def report(rng):
    """a report, often the last one again or nearly so"""
    z, o = rng.random(), list(LAST[0])
    if z > 0.3:
        n = rng.choice([56, 56, 56, rng.randrange(1, 57), 1, 2, 19, 55])
        o = [rng.choice([rng.randrange(256), rng.randrange(1, 256), 0, 255, 10, 13]) for _ in range(n)]
    elif z > 0.2:
        o[rng.choice([0, -1, rng.randrange(len(o))])] ^= 1 << rng.randrange(8)
    LAST[0] = o
    return list(o)


# ---- suites -----------------------------------------------------------------------
def reports(rng, tier, shard, nshards):
    for j in range(12 if tier == "quick" else 150):
        d = Daemon("reports-%d-%d" % (shard, j))
        on = []
        for _ in range(rng.randrange(8, 25)):
            ops = []
            k = rng.random()
            if k < 0.3 and len(on) < 6 or not on:
                c = d.new()
                ops.append(dict(k="connect", c=c))
                on.append(c)
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                ops.append(dict(k="report", o=report(rng)))
            if rng.random() < 0.25 and len(on) > 1:
                c = rng.choice(on)
                if not any(op.get("c") == c for op in ops):
                    ops.append(dict(k=rng.choice(["close", "half"]), c=c))
                    on.remove(c)
            if rng.random() < 0.3:
                c = rng.choice(on)
                ops.append(dict(k="data", c=c, o=stream(rng, c)))
            rng.shuffle(ops)
            ops.sort(key=lambda op: op["k"] != "connect")
            if not ops:
                continue
            if rng.random() < 0.5:
                alive = d.step(*ops)
            else:
                alive = all([d.step(op) for op in ops])
            if not alive:
                break
        yield d.end()
    if shard == 0:  # every octet value
        d = Daemon("octets")
        c = d.new()
        d.step(dict(k="connect", c=c))
        for b in range(0, 256, 32):
            d.step(dict(k="report", o=list(range(b, b + 32))))
        yield d.end()


def crowd(rng, tier, shard, nshards):
    """up to the 64 clients the daemon serves, slots freed and taken again"""
    for j in range(1 if tier == "quick" else 12):
        d = Daemon("crowd-%d-%d" % (shard, j))
        on = []
        n = [64, 63, 40, 64][shard % 4] if tier == "quick" else rng.choice([64, 64, 63, 33])
        while len(on) < n:
            cs = [d.new() for _ in range(min(n - len(on), rng.choice([1, 3, 10])))]
            on += cs
            if not d.step(*[dict(k="connect", c=c) for c in cs]):
                break
            if rng.random() < 0.2:
                d.step(dict(k="report", o=report(rng)))
        d.step(dict(k="report", o=report(rng)))
        for _ in range(6):
            if rng.random() < 0.5 and len(on) == 64:  # one too many: the others are not affected
                x = d.new()
                d.step(dict(k="connect", c=x))
                d.step(dict(k="report", o=report(rng)))
                d.step(dict(k="close", c=x))
            gone = rng.sample(on, rng.randrange(1, 6))
            for c in gone:
                on.remove(c)
            d.step(*[dict(k=rng.choice(["close", "half"]), c=c) for c in gone])
            d.step(dict(k="report", o=report(rng)))
            new = [d.new() for _ in gone]
            on += new
            d.step(*[dict(k="connect", c=c) for c in new])
            ops = [dict(k="data", c=c, o=stream(rng, c, 1)) for c in rng.sample(on, 8)]
            d.step(dict(k="report", o=report(rng)), *ops)
        yield d.end()


def lines(rng, tier, shard, nshards):
    for j in range(14 if tier == "quick" else 200):
        d = Daemon("lines-%d-%d" % (shard, j))
        on = [d.new() for _ in range(rng.randrange(1, 5))]
        d.step(*[dict(k="connect", c=c) for c in on])
        todo = {c: [p for _ in range(rng.randrange(1, 4)) for p in pieces(rng, stream(rng, c))] for c in on}
        while any(todo.values()):
            ops = []
            for c in rng.sample(on, rng.randrange(1, len(on) + 1)):
                for _ in range(rng.choice([1, 1, 2])):
                    if todo[c]:
                        ops.append(dict(k="data", c=c, o=todo[c].pop(0)))
            if rng.random() < 0.1:
                ops.append(dict(k="report", o=report(rng)))
            if ops and not d.step(*ops):
                break
        yield d.end()
    # one client, one octet at a time; and everything at once
    d = Daemon("bytes-%d" % shard)
    c = d.new()
    d.step(dict(k="connect", c=c))
    for b in stream(rng, c, 2):
        d.step(dict(k="data", c=c, o=[b]))
    for n in (8, 40):
        d.step(dict(k="data", c=c, o=stream(rng, c, n)))
    for n in range(1, 60):
        if n % nshards == shard:
            d.step(dict(k="data", c=c, o=hexline(rng, [n + k & 255 for k in range(n)]) + [10]))
    for b in range(0, 256, 8):  # every first octet of several
        if b // 8 % nshards == shard:
            d.step(dict(k="data", c=c, o=sum([hexline(rng, [v, 255 - v, rng.randrange(256), v][:rng.choice([2, 3, 4])]) + [10] for v in range(b, b + 8)], [])))
    for n in range(16 if tier == "quick" else 100):  # more than one read takes, cut everywhere
        o = [hexline(rng, [q & 255, q >> 8] + [rng.randrange(256) for _ in range(n % 4)]) + [10] for q in range(rng.choice([110, 130, 150]))]
        if n % 3 == 2:
            o = [rng.choice([x, x, invalid(rng)]) for x in o]
        d.step(dict(k="data", c=c, o=sum(o, [])[:4000]))
        d.step(dict(k="data", c=c, o=[10]))
    for b in range(256):  # every character in a line of two
        if b % nshards == shard and b != 10:
            d.step(dict(k="data", c=c, o=[48, b, 10] if b % 2 else [b, 65, 10]), dict(k="data", c=c, o=hexline(rng, [b]) + [10]))
    yield d.end()


def faults(rng, tier, shard, nshards):
    for j in range(16 if tier == "quick" else 250):
        d = Daemon("faults-%d-%d" % (shard, j))
        on, half, lazy = [], {}, set()
        for _ in range(rng.randrange(10, 25)):
            ops, used = [], set()
            for _ in range(rng.choice([1, 1, 2, 3, 4])):
                k = rng.random()
                c = rng.choice(on) if on else None
                if c is None or k < 0.2 and len(on) < 6:
                    c = d.new()
                    ops.append(dict(k="connect", c=c))
                    on.append(c)
                    if rng.random() < 0.3:
                        ops.append(dict(k="data", c=c, o=stream(rng, c, 1)))
                    if rng.random() < 0.2:
                        ops.append(dict(k=rng.choice(["half", "close"]), c=c))
                        on.remove(c)
                    used.add(c)
                elif c in used:
                    continue
                elif k < 0.3:
                    ops.append(dict(k="abort"))
                elif k < 0.5:
                    ops.append(dict(k="report", o=report(rng)))
                elif k < 0.75:
                    o = stream(rng, c)
                    if rng.random() < 0.5:
                        o = o[:rng.randrange(1, len(o) + 1)]
                    ops.append(dict(k="data", c=c, o=o))
                    used.add(c)
                else:
                    if rng.random() < 0.4:
                        o = stream(rng, c)
                        ops.append(dict(k="data", c=c, o=o[:rng.randrange(1, len(o) + 1)]))
                    ops.append(dict(k="reset" if c in lazy else rng.choice(["close", "half"]), c=c))
                    on.remove(c)
                    lazy.discard(c)
                    used.add(c)
            if not ops:
                continue
            if any(op["k"] == "report" for op in ops):
                lazy |= {c for c in on if c not in used and rng.random() < 0.3}
            if rng.random() < 0.2:
                lazy.clear()
            if not d.step(*ops, lazy=lazy):
                break
        yield d.end()


def stalled(rng, tier, shard, nshards):
    """clients which stop reading, until nothing more fits into their buffers"""
    for j in range(3 if tier == "quick" else 40):
        d = Daemon("stalled-%d-%d" % (shard, j))
        on, dead = [d.new() for _ in range(rng.randrange(2, 6))], []
        will = rng.sample(on, rng.choice([1, 1, len(on) - 1]))
        d.step(*[dict(k="connect", c=c, small=rng.choice([0, 4096, 9000, 30000]) if c in will else 0) for c in on])
        for c in will:
            on.remove(c)
            dead.append(c)
            if rng.random() < 0.5:
                d.step(dict(k="data", c=c, o=stream(rng, c)[:rng.randrange(1, 40)]))
            d.step(dict(k="stall", c=c))
        for _ in range(rng.choice([6, 16, 26])):
            ops = [dict(k="report", o=report(rng)) for _ in range(rng.choice([1, 3, 20, 20]))]
            for c in on:
                if rng.random() < 0.3:
                    ops.append(dict(k="data", c=c, o=stream(rng, c, 1)))
            k = rng.random()
            if k < 0.1 and dead:
                ops.append(dict(k=rng.choice(["close", "half", "reset"]), c=dead.pop(rng.randrange(len(dead)))))
            elif k < 0.2 and len(on) > 1:
                ops.append(dict(k="half", c=on.pop()))
            elif k < 0.3:
                on.append(d.new())
                ops.insert(0, dict(k="connect", c=on[-1]))
            if not d.step(*ops):
                break
        yield d.end()


def longday(rng, tier, shard, nshards):
    """hundreds of reports for a client which says nothing, hundreds of lines of another, clients which come and go"""
    for j in range(1 if tier == "quick" else 6):
        d = Daemon("longday-%d-%d" % (shard, j))
        idle, busy = d.new(), d.new()
        d.step(dict(k="connect", c=idle), dict(k="connect", c=busy))
        def come_and_go():
            c = d.new()
            d.step(dict(k="connect", c=c))
            if rng.random() < 0.6:
                o = stream(rng, c)
                d.step(dict(k="data", c=c, o=o[:rng.randrange(1, len(o) + 1)]))
            d.step(dict(k=rng.choice(["close", "half", "close"]), c=c))
        todo = ["r"] * 50 + ["l"] * 50 + ["c"] * (40 if tier == "quick" else 150)
        if shard % 2:
            rng.shuffle(todo)
        for x in todo:
            if x == "r":
                ok = d.step(*[dict(k="report", o=report(rng)) for _ in range(rng.choice([1, 3, 10, 14]))])
            elif x == "l":
                ok = d.step(dict(k="data", c=busy, o=stream(rng, busy, rng.choice([1, 5, 12]))))
            else:
                ok = come_and_go()
            if ok is False:
                break
        yield d.end()


def m_daemon(rng, tier, shard, nshards):
    """behaviours of MCDaemonRun"""
    g = graphs.graph_of("g_daemon")
    first = next(s for s in g.states if not any(x["on"] for x in s))
    targets = [i for i in range(len(g.edges)) if i % nshards == shard]
    if tier == "quick":
        targets = rng.sample(targets, min(len(targets), 400))
    for j, (_, walk) in enumerate(graphs.walks(g, g.node(first), targets, rng, 60)):
        d = Daemon("model-%d-%d" % (shard, j))
        ids = {}
        for e in walk:
            ops = []
            for op in g.edges[e][1]["ops"]:
                if op["k"] == "connect":
                    ids[op["c"]] = d.new()
                ops.append(dict(k=op["k"], o=op["o"], c=ids[op["c"]] if op["c"] else 0))
            if not d.step(*ops):
                break
        yield d.end()


SUITES = dict(reports=reports, crowd=crowd, lines=lines, faults=faults, stalled=stalled, longday=longday, m_daemon=m_daemon)
