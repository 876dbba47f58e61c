"""Calls of several sessions at the same time, each in a thread of its own (C45).

The threads take turns: only the one whose turn it is runs, and the turn may pass on wherever a line of the library begins
(or between two of its bytecodes), as a seeded generator says.  So any interleaving of the calls can come up, and the same
one comes up again with the same seed.  A thread which waits for something another one holds loses its turn after a while."""
import copy
import os
import sys
import threading
import time

import giveway
import knx_stack
from knxlib import *  # noqa
import knxlib
from suites_stack import ALL, APCI, IA, config, core_event, foreign_frames, outgoing, traffic
from suites_more import any_telegram, reconfigure

ROOT = os.path.dirname(os.path.abspath(knx_stack.__file__)) + os.sep
LIMIT = 20
STALLS = [0]


class Turns:
    def __init__(self, n, rng, p, opcodes):
        self.lock = threading.Condition()
        self.turn, self.left, self.rng, self.p, self.opcodes = rng.randrange(n), set(range(n)), rng, p, opcodes
        self.ticks = 0
        self.over = False

    def tracer(self, i):
        def inside(frame, event, arg):
            if event == ("opcode" if self.opcodes else "line"):
                self.step(i)
            return inside

        def outside(frame, event, arg):
            if not frame.f_code.co_filename.startswith(ROOT):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            self.step(i)
            return inside
        return outside

    def step(self, i):
        with self.lock:
            if self.over:
                raise Hang()
            self.ticks += 1
            if self.turn == i and len(self.left) > 1 and self.rng.random() < self.p:
                self.turn = self.rng.choice(sorted(self.left - {i}))
                self.lock.notify_all()
            self.wait(i)

    def wait(self, i):
        while self.turn != i and not self.over:
            was = self.ticks
            if not self.lock.wait(0.2 if STALLS[0] < 5 else 0.01) and self.ticks == was and self.turn != i:
                STALLS[0] += 1
                self.turn = i  # whoever had it waits for something else
                self.lock.notify_all()

    def stuck(self, i):
        """instead of waiting for a lock which another thread holds"""
        with self.lock:
            if self.over:
                raise Hang()
            self.ticks += 1
            others = sorted(self.left - {i})
            if self.turn == i and others:
                self.turn = self.rng.choice(others)
                self.lock.notify_all()
            elif not others:
                self.lock.wait(0.005)
            self.wait(i)

    def done(self, i):
        with self.lock:
            self.ticks += 1
            self.left.discard(i)
            if self.turn == i and self.left:
                self.turn = self.rng.choice(sorted(self.left))
            self.lock.notify_all()


def together(calls, rng, p, opcodes):
    """the results of the calls, made at the same time, and the order in which they ended"""
    turns, out, order = Turns(len(calls), rng, p, opcodes), [(False, "hang")] * len(calls), []

    def run(i):
        with turns.lock:
            turns.wait(i)
        giveway.asked.wait = lambda: turns.stuck(i)
        sys.settrace(turns.tracer(i))
        try:
            r = (True, calls[i]())
        except Hang:
            r = (False, "hang")
        except Exception as e:  # noqa
            r = (False, type(e).__name__)
        finally:
            sys.settrace(None)
        with turns.lock:
            out[i] = r
            order.append(i)
        turns.done(i)
    threads = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(len(calls))]
    for t in threads:
        t.start()
    for t in threads:
        t.join(LIMIT if not knxlib.HANGS else 2)
    turns.over = True
    if any(t.is_alive() for t in threads):
        knxlib.HANGS += 1
    return list(out), list(order) + [i for i in range(len(calls)) if i not in order]


class Plan:
    """what the suites would do next, one call for a session"""
    def __init__(self, w):
        self.w, self.calls = w, {}

    def __getattr__(self, name):
        return getattr(self.w, name)

    def dec(self, s, f, fs=False, fr=False):
        self.calls[s] = ("dec", list(f))

    def enc(self, s, x, fs=False, fr=False):
        self.calls[s] = ("enc", x)


def before_(w, s, alone):
    """what the call would give alone, on a copy of the device, which brings nothing up to date in the device itself"""
    k = w.sess[s - 1][0]
    stack = lookup(lambda: copy.deepcopy(w.stacks[k - 1]), None)
    if stack is None:
        return {}
    st = w._fresh_state(s, stack)
    return dict(fs=dict(alone(st), ssa1=w.view(st)))


def turn(w, rng, plan):
    """one call of every session in the plan, at the same time"""
    if knxlib.HANGS > 5:
        raise Stop()
    todo, made = [], {}
    for s, (op, y) in plan.calls.items():
        m, st = w.sess[s - 1][1:]
        if op == "dec":
            frame = wire(m, y)

            def alone(st, m=m, y=y):
                ok, v = guarded(lambda: canon_all(knx_stack.decode_msg(st, wire(m, y))))
                return dict(ok=ok, msgs=v if ok else [])
            call = lambda st=st, frame=frame: knx_stack.decode_msg(st, frame)  # noqa
            todo.append((s, op, y, frame, None, call, before_(w, s, alone)))
        else:
            key = json.dumps(y, sort_keys=True)
            if key not in made:
                made[key] = build(y)
            msg = made[key]

            def alone(st, y=y):
                ok, v = guarded(lambda: octets(send(st, y, build(y))))
                return dict(ok=ok, o=v if ok else [])
            call = lambda st=st, y=y, msg=msg: send(st, y, msg)  # noqa
            todo.append((s, op, y, msg, unbuild(y, msg), call, before_(w, s, alone)))
    views = [w.view(st) for _, _, st in w.sess]
    tables = [lookup(lambda: w.aside(k), None) for k in range(1, len(w.stacks) + 1)]
    fine = rng.random() < 0.25
    out, order = together([t[5] for t in todo], rng, rng.choice([0.02, 0.1, 0.5, 0.9]) if not fine else rng.choice([0.005, 0.02, 0.2]), fine)
    for j, i in enumerate(order):
        s, op, y, given, before, _, extra = todo[i]
        ok, v = out[i]
        if ok:
            ok, v = guarded(lambda: canon_all(v) if op == "dec" else octets(v))
        views[s - 1] = w.view(w.sess[s - 1][2])
        after = w._after() if j == len(order) - 1 else dict(snaps=[])
        after["ssa"] = list(views)
        e = dict(op=op, s=s, ok=ok, **({"f": y, "msgs": v if ok else []} if op == "dec" else {"x": y, "o": v if ok else []}), **extra, **hung(ok, v), **after)
        if (lookup(lambda: octets(given), None) != y) if op == "dec" else (unbuild(y, given) != before):
            e["x2"] = True
        w.ev.append(e)
        if "fs" in extra:
            a = extra["fs"]
            w.equal("C45", "told otherwise than alone", [says(a), a["ssa1"]], [says(e), views[s - 1]])
    if None not in tables:
        w.equal("C45", "tables changed by calls at the same time", tables, [w.snap(k) for k in range(1, len(w.stacks) + 1)])


def says(e):
    return sorted(json.dumps(m, sort_keys=True) for m in e["msgs"]) if "msgs" in e else e["o"]


def swept(one, other, opcodes):
    """everything the two calls give when the other one runs, from its first to its last step, before any step of the one"""
    seen, n, patience = [], 0, 2.0
    while n < 4000:
        n += 1
        a, b, count, th = one(), other(), [0], []
        out, ended, gone = [(False, "hang")], threading.Event(), [False]

        def stuck():
            ended.set()  # or nearly: the one has to go on first
            if gone[0]:
                raise Hang()
            time.sleep(0.0005)

        def run():
            giveway.asked.wait = stuck
            try:
                out[0] = (True, b[0]())
            except Exception as e:  # noqa
                out[0] = (False, type(e).__name__)
            finally:
                giveway.asked.wait = None
                ended.set()

        def tracer(frame, event, arg):
            nonlocal patience
            if not frame.f_code.co_filename.startswith(ROOT):
                return None
            frame.f_trace_opcodes = opcodes
            if event == ("opcode" if opcodes else "line"):
                count[0] += 1
                if count[0] == n:
                    th.append(threading.Thread(target=run, daemon=True))
                    th[0].start()
                    if not ended.wait(patience):  # it waits for something the one holds
                        patience = 0.01
            return tracer

        def traced():
            sys.settrace(tracer)
            try:
                return a[0]()
            finally:
                sys.settrace(None)
        r = guarded(traced)
        if th:
            th[0].join(LIMIT)
            gone[0] = True
        else:
            run()
        if "hang" in (r[1], out[0][1]):
            knxlib.HANGS += 1
            n = 4000
        got = [a[1](r), b[1](out[0])]
        if got not in [x for x, _ in seen]:
            seen.append((got, n))
        if count[0] < n:
            break
    return seen


KINDS = ("group", "property", "control", "telegram", "told", "core")


def sweep(w, rng, k, pool, ps, kinds, opcodes=False):
    """two calls of two sessions of a device: every place of the one for the other"""
    plan = Plan(w)
    ss = {m: [w.session(k, m) for _ in (1, 2)] for m in ("usb", "ip")}
    for s in ss["ip"]:
        w.setcnt(s, rng.randrange(256), rng.randrange(256), rng.randrange(1, 256))
    pair = []
    for i, kind in enumerate(kinds):
        m = "ip" if kind == "core" else rng.choice(["usb", "ip"])
        s = ss[m][i]
        if kind == "group":
            outgoing(plan, rng, s, ps, 1)
        elif kind == "property":
            plan.enc(s, rng.choice([dict(k="propread", asap=0, obj=octet(rng), pid=octet(rng), n=1, ix=1), dict(k="propwrite", asap=0, obj=octet(rng), pid=1, n=1, ix=1, data=[1, octet(rng)])]))
        elif kind == "control":
            plan.enc(s, dict(k=rng.choice(["tconnect", "tdisconnect"])))
        elif kind == "telegram":
            traffic(plan, rng, s, pool, 1)
        elif kind == "told":
            plan.dec(s, on(m, any_telegram(rng, w, k, pool), w.cur(s)["rc"], w.cur(s)["ch"]))
        elif rng.random() < 0.5:
            core_event(plan, rng, s)
        else:
            plan.enc(s, dict(k="ack", ctr=w.cur(s)["rc"], st=0))
        pair.append((s, *plan.calls[s]))

    def fresh(s, op, y, stack=None):
        m = w.sess[s - 1][1]
        st = w._fresh_state(s, stack or w.stacks[k - 1])
        if op == "dec":
            given = wire(m, y)

            def said(r):
                ok, v = guarded(lambda: canon_all(r[1])) if r[0] else r
                return [sorted(json.dumps(x, sort_keys=True) for x in v) if ok else [], w.view(st), lookup(lambda: octets(given), None) == y, "hang" in r[1:]]
            return (lambda: knx_stack.decode_msg(st, given)), said
        given = build(y)
        before = unbuild(y, given)

        def said(r):
            ok, v = guarded(lambda: octets(r[1])) if r[0] else r
            return [v if ok else [], w.view(st), unbuild(y, given) == before, "hang" in [x for x in r[1:] if isinstance(x, str)]]
        return (lambda: send(st, y, given)), said

    def alone(s, op, y):
        call, said = fresh(s, op, y, lookup(lambda: copy.deepcopy(w.stacks[k - 1]), None))
        return said(guarded(call))
    was, expected = w.snap(k), [alone(*c) for c in pair]
    for got, n in swept(lambda: fresh(*pair[0]), lambda: fresh(*pair[1]), opcodes):
        w.equal("C45", "at the same time, %s %s before step %d" % (kinds[1], kinds[0], n), expected, got)
    w.equal("C45", "tables changed by calls at the same time", was, w.snap(k))


def sweeps(rng, tier, shard, nshards):
    pairs = [(a, b) for a in KINDS for b in KINDS]
    for c in range(3 if tier == "quick" else 24):
        for i, kinds in enumerate(pairs):
            if i % nshards != shard:
                continue
            w = World("sweeps-%d-%d-%d" % (shard, c, i))
            w.reuse, w.blindness = None, 0
            k, pool, ps = config(w, rng, n_addr=4, n_asap=4)
            if knxlib.HANGS > 3:
                raise Stop()
            for _ in range(2):
                sweep(w, rng, k, pool, ps, kinds, c % 4 == 3)
            yield w.history()


def threads(rng, tier, shard, nshards):
    for c in range(6 if tier == "quick" else 60):
        w = World("threads-%d-%d" % (shard, c))
        w.reuse, w.blindness = None, 0
        k, pool, ps = config(w, rng, n_addr=4, n_asap=4)
        media = ["usb", "ip", "ip", "usb", "tp"]
        ss = [w.session(k, m) for m in media]
        if c % 3 == 2:  # a second device of the same program
            k2, pool2, ps2 = config(w, rng, n_addr=4, n_asap=4)
            ss += [w.session(k2, m) for m in ("ip", "usb")]
        of = {s: (pool, ps) if w.sess[s - 1][0] == k else (pool2, ps2) for s in ss}
        for s in ss:
            if w.sess[s - 1][1] == "ip":
                w.setcnt(s, rng.randrange(256), rng.randrange(256), rng.randrange(1, 256))
        for _ in range(40):
            plan = Plan(w)
            many = rng.sample(ss, rng.choice([2, 2, 3, 4, len(ss)]))
            alike = rng.choice([None] * 5 + [0.3] * 3 + [0.88] * 2)
            for s in many:
                m, kk = w.sess[s - 1][1], w.sess[s - 1][0]
                z = rng.random() if alike is None else alike
                if m == "tp" and z < 0.6:
                    z = 0.7
                if z < 0.45:
                    traffic(plan, rng, s, of[s][0], 1)
                elif z < 0.55:
                    plan.dec(s, on(m, any_telegram(rng, w, kk, of[s][0]), w.cur(s)["rc"], w.cur(s)["ch"]))
                elif z < 0.6:
                    plan.dec(s, rng.choice(foreign_frames(rng, m, link(rng.choice(of[s][0]), APCI["write"], low=1), w.cur(s)["rc"])))
                elif z < 0.85:
                    outgoing(plan, rng, s, of[s][1], 1)
                elif z < 0.92:
                    plan.enc(s, rng.choice([dict(k="tconnect"), dict(k="tdisconnect"), dict(k="propread", asap=0, obj=octet(rng), pid=octet(rng), n=1, ix=1),
                                            dict(k="propwrite", asap=0, obj=octet(rng), pid=1, n=1, ix=1, data=[1, octet(rng)])]))
                elif m == "ip":
                    core_event(plan, rng, s) if rng.random() < 0.5 else plan.enc(s, dict(k="ack", ctr=w.cur(s)["rc"], st=0))
                else:
                    outgoing(plan, rng, s, of[s][1], 1)
            if plan.calls:
                turn(w, rng, plan)
            if rng.random() < 0.3:
                w.blindness = rng.choice([0, 1])  # looked at only by the calls
                op = reconfigure(rng, w, k, pool, ps, [IA, 0x1102]) if rng.random() < 0.7 else ("setia", rng.choice([IA, 0x1102]))
                getattr(w, op[0])(k, *op[1:])
                w.blindness = 0
        yield w.history()


SUITES = dict(threads=threads, sweeps=sweeps)
