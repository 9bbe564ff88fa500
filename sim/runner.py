"""Processes: a zygote that has imported everything but never called the code under test, workers forked from it,
and one child per run forked from its worker.  A run therefore starts from the same process state, whatever ran before."""
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

from . import env


class Zygote:
    def __init__(self):
        env.prepare_process()
        import torch  # noqa

        env.warm_up()
        from .kernel import patched_locks

        with patched_locks():
            self.nnj = env.import_nnj()
        self.codes = env.nnj_code_objects()
        from . import arch, case, custom, gen, ref, world  # noqa

        custom.classes(self.nnj)
        import gc

        gc.collect()
        gc.freeze()


def write_all(fd, b):
    while b:
        n = os.write(fd, b)
        b = b[n:]


def in_child(fn, timeout):
    """fn() in a forked child; ("ok", result) | ("error", text) | ("timeout", None) | ("died", status)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException:
                out = ("error", traceback.format_exc())
            write_all(w, pickle.dumps(out))
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    end = time.monotonic() + timeout
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return ("timeout", None)
            rl, _, _ = select.select([r], [], [], left)
            if rl:
                d = os.read(r, 1 << 16)
                if not d:
                    break
                buf += d
        _, st = os.waitpid(pid, 0)
    finally:
        os.close(r)
    if not buf:
        return ("died", st)
    try:
        return pickle.loads(bytes(buf))
    except Exception:
        return ("died", st)


class Pool:
    """Static assignment of jobs to workers is not needed: results are keyed by job, so the order does not matter."""

    def __init__(self, n, handler):
        self.n, self.handler = n, handler

    def map(self, jobs, on_result, stop=lambda: False):
        """jobs: iterator; handler(job) runs in a worker process; on_result(job, result) runs here."""
        jobs = iter(jobs)
        workers = []
        for _ in range(self.n):
            a, b = os.pipe()
            c, d = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(b)
                    os.close(c)
                    for w in workers:
                        os.close(w[1])
                        os.close(w[2])
                    signal.signal(signal.SIGINT, signal.SIG_IGN)
                    self.serve(a, d)
                finally:
                    os._exit(0)
            os.close(a)
            os.close(d)
            workers.append([pid, b, c, None])
        live = 0
        try:
            def feed(w):
                if stop():
                    return False
                j = next(jobs, None)
                if j is None:
                    return False
                w[3] = j
                m = pickle.dumps(j)
                write_all(w[1], struct.pack("<Q", len(m)) + m)
                return True

            for w in workers:
                live += feed(w)
            while live:
                rl, _, _ = select.select([w[2] for w in workers if w[3] is not None], [], [])
                for w in workers:
                    if w[2] in rl:
                        m = self.read_msg(w[2])
                        j, w[3] = w[3], None
                        live -= 1
                        on_result(j, ("died", None) if m is None else m)
                        if m is not None:
                            live += feed(w)
        finally:
            for w in workers:
                os.close(w[1])
                os.close(w[2])
            for w in workers:
                if w[3] is not None:
                    try:
                        os.kill(w[0], signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                os.waitpid(w[0], 0)

    @staticmethod
    def read_exact(fd, n):
        b = bytearray()
        while len(b) < n:
            d = os.read(fd, n - len(b))
            if not d:
                return None
            b += d
        return bytes(b)

    def read_msg(self, fd):
        h = self.read_exact(fd, 8)
        if h is None:
            return None
        b = self.read_exact(fd, struct.unpack("<Q", h)[0])
        return None if b is None else pickle.loads(b)

    def serve(self, rfd, wfd):
        while True:
            j = self.read_msg(rfd)
            if j is None:
                return
            try:
                r = self.handler(j)
            except BaseException:
                r = ("error", traceback.format_exc())
            m = pickle.dumps(r)
            write_all(wfd, struct.pack("<Q", len(m)) + m)
