"""Deterministic thread schedules: the code under test runs one thread at a time and changes threads where the case says.

Every line of the package is a point at which the running thread can lose its turn, or, for schedules
in the unit "locks", every point at which it gives a lock free.  A schedule is a list of (points,
choice): after that many of them the turn goes to the choice-th other thread that can run.  Locks the package creates are replaced by ones that hand on the turn instead of blocking.
"""
import sys
import threading
import types

from harness.core import SRC, Violation

_RLock, _Lock = threading.RLock, threading.Lock
ACTIVE = [None]


class Cooperative:
    """A lock that hands on the turn while it is taken."""

    def __init__(self, real):
        self._real = real
        self._depth = 0

    def acquire(self, blocking=True, timeout=-1):
        got = self._acquire(blocking, timeout)
        if got:
            self._depth += 1
        return got

    def _acquire(self, blocking, timeout):
        s = ACTIVE[0]
        if s is None or not s.mine():
            return self._real.acquire(blocking, timeout)
        if self._real.acquire(False):
            return True
        if not blocking:
            return False
        while True:
            s.blocked()
            if self._real.acquire(False):
                return True

    def release(self):
        self._depth -= 1
        free = self._depth == 0
        self._real.release()
        s = ACTIVE[0]
        if free and s is not None and s.mine():
            s.point("locks")

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def __getattr__(self, name):
        return getattr(self._real, name)


def cooperate():
    """Locks created by the package from now on are cooperative."""
    fake = types.ModuleType("threading")
    fake.__dict__.update({k: v for k, v in threading.__dict__.items() if not k.startswith("__")})
    fake.RLock, fake.Lock = (lambda: Cooperative(_RLock())), (lambda: Cooperative(_Lock()))
    for name, m in list(sys.modules.items()):
        if name == "valori" or name.startswith("valori."):
            for k, v in list(vars(m).items()):
                if v is threading:
                    setattr(m, k, fake)
                elif v is _RLock:
                    setattr(m, k, fake.RLock)
                elif v is _Lock:
                    setattr(m, k, fake.Lock)


class Schedule:
    """Runs functions in threads, one at a time, by a list of (lines, choice)."""

    def __init__(self, fns, plan, unit="lines"):
        self.fns, self.plan, self.unit = fns, list(plan), unit
        self.n = len(fns)
        self.go = [threading.Semaphore(0) for _ in fns]
        self.done = [False] * self.n
        self.errors = [None] * self.n
        self.ident = {}
        self.turn = 0
        self.steps = 0
        self.left = self.plan[0][0] if self.plan else None
        self.switches = 0
        self.spins = 0
        self.dead = False
        self.finished = threading.Event()

    def mine(self):
        return threading.get_ident() in self.ident

    def _others(self):
        me = self.turn
        return [(me + i) % self.n for i in range(1, self.n) if not self.done[(me + i) % self.n]]

    def _pass(self, choice):
        others = self._others()
        if not others:
            return False
        me = self.turn
        self.turn = others[choice % len(others)]
        self.go[self.turn].release()
        return me

    def point(self, what="lines"):
        """The running thread reached a line of the package, or gave a lock free."""
        self.steps += 1
        self.spins = 0
        if self.left is None or what != self.unit:
            return
        self.left -= 1
        if self.left <= 0:
            _, choice = self.plan.pop(0)
            self.left = self.plan[0][0] if self.plan else None
            me = self._pass(choice)
            if me is not False:
                self.switches += 1
                self.wait(me)

    def blocked(self):
        """The running thread needs a lock that is taken."""
        self.spins += 1
        if self.spins > 4 * self.n or not self._others():
            self.dead = True
        if self.dead:
            raise Violation("the threads wait for each other for ever")
        me = self._pass(0)
        self.wait(me)

    def wait(self, me):
        if not self.go[me].acquire(timeout=60):
            self.dead = True
            raise Violation("a thread waits for a minute")

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        if event in ("line", "call"):
            self.point()
        return self._trace

    def _main(self, i):
        self.ident[threading.get_ident()] = i
        try:
            self.wait(i)
            sys.settrace(self._trace)
            try:
                self.fns[i]()
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.errors[i] = e
        self.done[i] = True
        self.turn = i
        if self._pass(0) is False:
            self.finished.set()

    def run(self):
        threads = [threading.Thread(target=self._main, args=(i,), daemon=True) for i in range(self.n)]
        ACTIVE[0] = self
        try:
            for t in threads:
                t.start()
            self.go[0].release()
            if not self.finished.wait(80):
                raise Violation("the threads do not finish")
        finally:
            ACTIVE[0] = None
            self.dead = True
        for e in self.errors:
            if isinstance(e, Violation):
                raise e
        for e in self.errors:
            if e is not None:
                raise e
