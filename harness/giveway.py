"""Locks of the library which give way: a thread which would wait for one tells the harness instead of standing still.

Imported before the library: the locks the library makes are then of this kind, all others stay as they are."""
import os
import sys
import threading

ROOT = os.path.realpath(os.environ.get("KNX_REPO", "/repo")) + os.sep
asked = threading.local()  # .wait: what a thread of the harness does instead of waiting
REAL = {"Lock": threading.Lock, "RLock": threading.RLock}


class GiveWay:
    def __init__(self, kind):
        self._kind, self._real = kind, REAL[kind]()

    def acquire(self, blocking=True, timeout=-1):
        wait = getattr(asked, "wait", None)
        if wait is None or not blocking:
            return self._real.acquire(blocking, timeout)
        tries = 0
        while not self._real.acquire(False):
            tries += 1
            if timeout >= 0 and tries > 50:
                return False
            wait()
        return True

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self._real.release()

    def __getattr__(self, name):
        return getattr(self.__dict__["_real"], name)

    def __copy__(self):
        return GiveWay(self._kind)

    def __deepcopy__(self, memo):
        return GiveWay(self._kind)


def factory(kind):
    def make():
        f = sys._getframe(1)
        if f.f_code.co_filename == threading.__file__ and f.f_back is not None:  # a condition, an event
            f = f.f_back
        return GiveWay(kind) if os.path.realpath(f.f_code.co_filename).startswith(ROOT) else REAL[kind]()
    return make


threading.Lock, threading.RLock = factory("Lock"), factory("RLock")
