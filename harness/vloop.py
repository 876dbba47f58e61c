"""An asyncio event loop whose time is virtual and whose connections are recorded."""
import asyncio
import selectors
import sys


class _Selector(selectors.SelectSelector):
    loop = None

    def select(self, timeout=None):
        r = super().select(0)
        if not r and timeout:
            self.loop.now += timeout
        elif not r and timeout is None:
            raise Stuck()
        return r


class Stuck(Exception):
    """nothing can ever happen any more"""


class Transport(asyncio.Transport):
    """records what is written or sent"""

    def __init__(self, loop, remote=None, local=None):
        super().__init__()
        self.loop, self.remote, self.local = loop, remote, local
        self.log = []
        self.closed = False

    # datagrams
    def sendto(self, data, addr=None):
        self.log.append((bytes(data), tuple(addr) if addr else self.remote))

    # streams
    def write(self, data):
        self.log.append((bytes(data), self.remote))

    def writelines(self, l):
        self.write(b"".join(l))

    def close(self):
        self.closed = True

    abort = close

    def is_closing(self):
        return self.closed

    def get_extra_info(self, name, default=None):
        return {"peername": self.remote, "sockname": self.local}.get(name, default)

    def pause_reading(self):
        pass

    def resume_reading(self):
        pass

    def is_reading(self):
        return True

    def get_write_buffer_size(self):
        return 0

    def can_write_eof(self):
        return False

    def take(self):
        r, self.log = self.log, []
        return r


class Loop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.now = 1000.0
        s = _Selector()
        s.loop = self
        super().__init__(s)
        self.made = []  # (protocol, transport)
        self.set_exception_handler(lambda l, c: None)

    def time(self):
        return self.now

    async def create_datagram_endpoint(self, factory, local_addr=None, remote_addr=None, sock=None, **kw):
        t = Transport(self, remote_addr, local_addr)
        t.sock = sock
        p = factory()
        self.made.append((p, t))
        self.call_soon(p.connection_made, t)
        await asyncio.sleep(0)
        return t, p

    async def create_connection(self, factory, host=None, port=None, **kw):
        t = Transport(self, (host, port))
        p = factory()
        self.made.append((p, t))
        p.connection_made(t)
        await asyncio.sleep(0)
        return t, p

    def advance(self, seconds):
        """let `seconds` of virtual time pass; False if the loop was stopped meanwhile"""
        n = 0
        while True:
            end = self.now + seconds
            try:
                self.run_until_complete(asyncio.sleep(seconds))
                return n == 0
            except RuntimeError:
                n += 1
                seconds = max(0.0, end - self.now)
                if n > 50:
                    return False


class Watch:
    """the results of decode_msg while the code under test runs, however it got hold of it"""

    def __init__(self, fn):
        self.code = fn.__code__
        self.got = []

    def __enter__(self):
        sys.setprofile(self._event)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)

    def _event(self, frame, what, arg):
        if what == "return" and frame.f_code is self.code and arg is not None:
            self.got.append(arg)

    def take(self):
        r, self.got = self.got, []
        return r
