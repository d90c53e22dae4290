"""A stand-in for mpi4py: ranks as threads, one running at a time.

Which rank runs next, and which sender an ANY_SOURCE receive takes first, come
from the case's schedule, so a run is repeatable.
"""
import copy
import gc
import sys
import threading
import types

from .core import Violation


class Aborted(BaseException):
    pass


class Status:
    def __init__(self):
        self.source, self.tag, self.error = -1, -1, 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class World:
    """COMM_WORLD for `size` ranks."""
    name = "StandInWorld"

    def __init__(self, size, schedule=(0,)):
        self._size = size
        self.schedule = list(schedule) or [0]
        self.pos = 0
        self.local = threading.local()
        self.cond = threading.Condition()
        self.current = 0
        self.waiting = {}           # rank -> predicate (None = ready)
        self.done = set()
        self.inbox = {r: [] for r in range(size)}
        self.arrived = 0
        self.phase = 0
        self.abort = None
        self.sent = 0

    # -- interface used by the code
    @property
    def rank(self):
        return getattr(self.local, "rank", 0)

    @property
    def size(self):
        return self._size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self._size

    def send(self, obj, dest, tag=0):
        self.sent += 1
        self.inbox[dest].append((self.rank, tag, copy.deepcopy(obj)))
        self._switch(None)

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        me = self.rank

        def matching():
            return [k for k, (s, t, _) in enumerate(self.inbox[me])
                    if source in (-1, s) and tag in (-1, t)]
        self._switch(lambda: bool(matching()))
        first = {}
        for k in matching():            # messages of one sender stay in order
            first.setdefault(self.inbox[me][k][0], k)
        src = sorted(first)
        k = first[src[self._choose(len(src))]]
        s, t, obj = self.inbox[me].pop(k)
        if status is not None:
            status.source, status.tag = s, t
        return obj

    def barrier(self):
        if self._size == 1:
            return
        phase = self.phase
        self.arrived += 1
        if self.arrived == self._size:
            self.arrived = 0
            self.phase += 1
            self._switch(None)
        else:
            self._switch(lambda: self.phase != phase)

    Barrier = barrier

    def bcast(self, obj, root=0):
        if self.rank == root:
            for d in range(self._size):
                if d != root:
                    self.send(obj, d, tag=-77)
            return obj
        return self.recv(source=root, tag=-77)

    def gather(self, obj, root=0):
        if self.rank != root:
            self.send(obj, root, tag=-78)
            return None
        return [obj if s == root else self.recv(source=s, tag=-78) for s in range(self._size)]

    def allgather(self, obj):
        return self.bcast(self.gather(obj))

    def scatter(self, objs, root=0):
        if self.rank != root:
            return self.recv(source=root, tag=-79)
        for d in range(self._size):
            if d != root:
                self.send(objs[d], d, tag=-79)
        return objs[root]

    def reduce(self, obj, op=None, root=0):
        got = self.gather(obj, root)
        if got is None:
            return None
        total = got[0]
        for g in got[1:]:
            total = op(total, g) if callable(op) else total + g
        return total

    def allreduce(self, obj, op=None):
        return self.bcast(self.reduce(obj, op))

    def Abort(self, code=1):
        raise RuntimeError("MPI abort %s" % code)

    # -- scheduling
    def _choose(self, n):
        v = self.schedule[self.pos % len(self.schedule)]
        self.pos += 1
        return v % n

    def _pick(self):
        ready = [r for r in range(self._size) if r not in self.done and
                 (self.waiting.get(r) is None or self.waiting[r]())]
        if ready:
            self.current = ready[self._choose(len(ready))]
        elif len(self.done) < self._size:
            self.abort = "all ranks wait for each other"
        self.cond.notify_all()

    def _switch(self, predicate):
        if self._size == 1:
            if predicate is not None and not predicate():
                raise Violation("a single rank waits for a message to itself")
            return
        me = self.rank
        with self.cond:
            self.waiting[me] = predicate
            self._pick()
            self._wait(me)

    def _wait(self, me):
        while self.current != me or self.abort:
            if self.abort:
                raise Aborted()
            self.cond.wait()
        self.waiting[me] = None

    def _finish(self, me):
        with self.cond:
            self.done.add(me)
            self._pick()


class FakeMPI:
    ANY_SOURCE = -1
    ANY_TAG = -1
    Status = Status

    def __init__(self, world):
        self.COMM_WORLD = world

    @staticmethod
    def Init():
        pass

    @staticmethod
    def Finalize():
        pass

    @staticmethod
    def Is_initialized():
        return True


class installed:
    """Put a stand-in for mpi4py in place for a block."""

    def __init__(self, world):
        self.world = world

    def __enter__(self):
        self.keep = sys.modules.get("mpi4py")
        m = types.ModuleType("mpi4py")
        m.MPI = FakeMPI(self.world)
        sys.modules["mpi4py"] = m
        sys.modules["mpi4py.MPI"] = m.MPI
        return m.MPI

    def __exit__(self, *exc):
        sys.modules["mpi4py"] = self.keep
        sys.modules["mpi4py.MPI"] = None


def run_ranks(size, schedule, target):
    """Run target(rank) on every rank; returns the list of results."""
    world = World(size, schedule)
    results, errors = [None] * size, []
    with installed(world):
        if size == 1:
            return [target(0)]

        def body(rank):
            world.local.rank = rank
            try:
                with world.cond:
                    world._wait(rank)
                results[rank] = target(rank)
            except Aborted:
                pass
            except BaseException as exc:
                errors.append(exc)
                with world.cond:
                    world.abort = "rank %d failed" % rank
                    world.cond.notify_all()
            finally:
                world._finish(rank)
        threads = [threading.Thread(target=body, args=(r,), daemon=True)
                   for r in range(size)]
        world.current = world._choose(size)
        # A waiting rank that wakes must not collect (and close) another rank's files while
        # that rank is inside the file library, which is not safe for threads.
        collecting = gc.isenabled()
        gc.disable()
        try:
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        finally:
            if collecting:
                gc.enable()
    if errors:
        raise errors[0]
    if world.abort:
        raise Violation("%d ranks: %s" % (size, world.abort))
    return results
