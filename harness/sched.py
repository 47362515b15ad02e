"""
Threads under a chosen schedule. Each thread runs until it reaches a line (or bytecode) of
the library, where the schedule says which thread goes on. Only one thread runs at a time,
so the outcome depends on the schedule alone. Should the thread whose turn it is wait for a
lock that another one holds (or be slow), it is left alone after a while: the turn moves on
to the others, and it joins them again at the next line it reaches.
"""

import sys
import threading

PATIENCE = 0.05
LIMIT = 180


class Scheduler:
    def __init__(self, choose, where, opcodes=False):
        self.choose, self.where, self.opcodes = choose, where, opcodes
        self.steps, self.switches = 0, 0

    def trace(self, tid):
        def local(frame, event, arg):
            if event == ("opcode" if self.opcodes else "line"):
                self.point(tid)
            return local

        def top(frame, event, arg):
            if event != "call" or not frame.f_code.co_filename.startswith(self.where):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return top

    # all below with self.lock held
    def ready(self):
        return sorted(self.live - self.stuck)

    def give(self, tid):
        """The turn goes to whom the schedule chooses among those that wait for it."""
        rest = self.ready()
        if not rest:
            self.turn = None
            return
        nxt = self.choose(tid, rest)
        self.turn = nxt if nxt in rest else rest[0]
        if self.turn != tid:
            self.switches += 1
            self.go[self.turn].set()

    def point(self, tid):
        with self.lock:
            self.steps += 1
            self.stuck.discard(tid)
            if self.turn is None:
                self.turn = tid
            if self.turn == tid:
                self.give(tid)
                if self.turn == tid:
                    return
        self.wait(tid)

    def wait(self, tid):
        self.go[tid].wait()
        self.go[tid].clear()

    def finish(self, tid):
        with self.lock:
            self.steps += 1
            self.live.discard(tid)
            self.stuck.discard(tid)
            if self.turn == tid:
                self.give(tid)

    def run(self, fns):
        """Runs all; returns the order in which they completed."""
        n = len(fns)
        self.live, self.stuck, self.lock = set(range(n)), set(), threading.Lock()
        self.go = [threading.Event() for _ in range(n)]
        order, errors = [], []

        def body(tid):
            self.wait(tid)
            sys.settrace(self.trace(tid))
            try:
                fns[tid]()
            except BaseException as x:  # pylint: disable=broad-except
                errors.append(x)
            finally:
                sys.settrace(None)
                order.append(tid)
                self.finish(tid)
        ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(n)]
        for t in ts:
            t.start()
        with self.lock:
            self.turn = None
            self.give(None)
        patience(self, ts)
        if errors:
            raise errors[0]
        return order


def patience(s, ts):
    """Waits for the threads; moves the turn on when nothing happens."""
    seen, still = -1, 0
    while any(t.is_alive() for t in ts):
        for t in ts:
            t.join(PATIENCE / len(ts))
        if s.steps != seen:
            seen, still = s.steps, 0
            continue
        still += 1
        if still > LIMIT / PATIENCE:
            raise RuntimeError("threads do not finish")
        with s.lock:
            if s.turn is not None and s.steps == seen and len(s.ready()) > 1:
                s.stuck.add(s.turn)
                s.give(s.turn)


def free(fns):
    """The same without a schedule: as the interpreter switches, very often."""
    old = sys.getswitchinterval()
    order, errors = [], []
    start = threading.Barrier(len(fns))

    def body(k):
        start.wait()
        try:
            fns[k]()
        except BaseException as x:  # pylint: disable=broad-except
            errors.append(x)
        finally:
            order.append(k)
    ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(fns))]
    sys.setswitchinterval(1e-6)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
            if t.is_alive():
                raise RuntimeError("threads do not finish")
    finally:
        sys.setswitchinterval(old)
    if errors:
        raise errors[0]
    return order


def chooser(r, n):
    """A schedule: even mixtures, long runs, or priorities that change at a few points."""
    kind = r.random()
    if kind < 0.35:
        p = r.choice([1.0, 0.5, 0.25])
        return lambda tid, live: r.choice(live) if r.random() < p else tid
    if kind < 0.55:
        p = r.choice([0.1, 0.04])
        return lambda tid, live: r.choice(live) if r.random() < p or tid not in live else tid
    if kind < 0.7:                                   # strict alternation
        return lambda tid, live: live[(live.index(tid) + 1) % len(live)] if tid in live else live[0]
    prio = list(range(n))
    r.shuffle(prio)
    at = {r.randrange(1, 120) for _ in range(r.randint(1, 4))}
    count = [0]

    def pct(tid, live):
        count[0] += 1
        if count[0] in at and tid in live:
            prio[tid] = min(prio) - 1
        return max(live, key=lambda k: prio[k])
    return pct
