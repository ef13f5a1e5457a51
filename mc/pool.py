"""A small process pool whose watchdog survives endless loops in compiled code.

Each worker publishes the index of the item it is working on; the parent charges
the worker's CPU time to that item and kills the worker when the budget is spent.
The item is then reported as HANG and the rest of the chunk is dealt out again.
CPU time, not wall time: a busy machine must not look like an endless loop.
"""

import ctypes
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import signal
import time

HANG = "__HANG__"
CRASH = "__CRASH__"
_TICK = os.sysconf("SC_CLK_TCK")


def _cpu(pid):
    try:
        with open(f"/proc/{pid}/stat") as fh:
            parts = fh.read().rsplit(")", 1)[1].split()
        return (int(parts[11]) + int(parts[12])) / _TICK
    except (OSError, IndexError):
        return 0.0


def _child(conn, pos, init, fn, warm):
    # RawArray pos: [sequence number of the current item, item index]
    import gc

    ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # die with the parent
    if init is not None:
        init()
    conn.send(("ready", None))
    while True:
        msg = conn.recv()
        if msg is None:
            os._exit(0)
        tid, items = msg
        if warm is not None:
            warm(items[0])
        out = []
        for i, item in enumerate(items):
            pos[1] = i
            pos[0] += 1
            out.append(fn(item))
        pos[1] = -1
        pos[0] += 1
        gc.collect(0)
        conn.send((tid, out))


class _Worker:
    def __init__(self, ctx, init, fn, warm):
        self.pos = ctx.RawArray("q", [0, -1])
        self.conn, other = ctx.Pipe()
        self.proc = ctx.Process(target=_child, args=(other, self.pos, init, fn, warm), daemon=True)
        self.proc.start()
        other.close()
        self.task = None
        self.ready = False
        self.seen = -1
        self.cpu0 = 0.0

    def busy_cpu(self):
        """CPU seconds spent on the item in hand."""
        now = _cpu(self.proc.pid)
        if self.pos[0] != self.seen:
            self.seen, self.cpu0 = self.pos[0], now
        return now - self.cpu0

    def kill(self):
        self.proc.kill()
        self.proc.join()
        self.conn.close()


def run(
    chunks,
    fn,
    init=None,
    warm=None,
    nproc=None,
    limit=10.0,
    warm_limit=300.0,
    deadline=None,
    max_dead=12,
):
    """Map fn over every item of every chunk; returns a list of lists.

    ``limit`` is the CPU budget of one item, ``warm_limit`` that of ``warm``, which
    is called with the first item of every chunk (it may compile).  ``deadline`` (time.monotonic value) stops
    dealing out chunks, and so do ``max_dead`` items that hung or crashed: the
    missing ones are None.
    """
    ctx = mp.get_context("fork")
    nproc = min(nproc or os.cpu_count() or 4, max(1, len(chunks)))
    results = [[None] * len(c) for c in chunks]
    dead = [0]
    # queue of (chunk index, list of item indices)
    queue = [(ci, list(range(len(c)))) for ci, c in enumerate(chunks) if len(c)]
    queue.reverse()
    workers = [_Worker(ctx, init, fn, warm) for _ in range(nproc)]

    def deal(w):
        if not queue or (deadline is not None and time.monotonic() > deadline):
            w.task = None
            return
        ci, idx = queue.pop()
        w.task = (ci, idx)
        try:
            w.conn.send((0, [chunks[ci][i] for i in idx]))
        except (BrokenPipeError, OSError):
            pass  # the death is noticed below

    def respawn(k):
        w = _Worker(ctx, init, fn, warm)
        workers[k] = w

    try:
        while True:
            if dead[0] >= max_dead:
                break
            if not queue and not any(w.task for w in workers):
                break
            if not any(w.task for w in workers) and deadline and time.monotonic() > deadline:
                break
            for w in workers:
                if w.task is None and w.ready and queue:
                    deal(w)
            active = [w for w in workers if w.task is not None or not w.ready]
            got = mpc.wait([w.conn for w in active], timeout=0.5)
            for k, w in enumerate(list(workers)):
                if w.conn in got:
                    try:
                        tag, out = w.conn.recv()
                    except (EOFError, OSError):
                        _dead(w, CRASH, results, queue)
                        dead[0] += 1
                        w.kill()
                        respawn(k)
                        continue
                    if tag == "ready":
                        w.ready = True
                        deal(w)
                        continue
                    ci, idx = w.task
                    for i, r in zip(idx, out):
                        results[ci][i] = r
                    w.task = None
                    deal(w)
                elif w.task is not None:
                    lim = warm_limit if w.pos[1] < 0 else limit
                    if w.busy_cpu() > lim:
                        _dead(w, HANG, results, queue)
                        dead[0] += 1
                        w.kill()
                        respawn(k)
    finally:
        for w in workers:
            try:
                w.kill()
            except Exception:
                pass
    return results


def _dead(w, what, results, queue):
    if w.task is None:
        raise RuntimeError("a worker died while starting")
    ci, idx = w.task
    p = max(0, w.pos[1])
    results[ci][idx[p]] = what
    if idx[:p]:
        queue.append((ci, idx[:p]))
    rest = idx[p + 1 :]
    # what is left may hang as often again: share it out
    n = max(1, -(-len(rest) // 8))
    for k in range(0, len(rest), n):
        queue.append((ci, rest[k : k + n]))
    w.task = None
