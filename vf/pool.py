"""Run jobs in forked processes, a few at a time, with a memory limit each and one deadline: a job that dies or does
not end is a result like any other, never an error of the check."""
import os
import pickle
import resource
import select
import signal
import time

MEM = 6 << 30


def pmap(fn, jobs, n=None, deadline=None, mem=MEM):
    """yields (index, result, None) or (index, None, why)"""
    n = n or min(8, os.cpu_count() or 4)
    todo = list(enumerate(jobs))[::-1]
    live = {}
    try:
        while todo or live:
            while todo and len(live) < n and not (deadline and time.time() > deadline):
                i, j = todo.pop()
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        os.setpgid(0, 0)
                        if mem:
                            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
                        try:
                            out = (fn(j), None)
                        except MemoryError:
                            out = (None, "out of memory")
                        except BaseException as e:      # noqa: B902
                            out = (None, "internal: %r" % (e,))
                        with os.fdopen(w, "wb") as f:
                            f.write(pickle.dumps(out))
                        code = 0
                    finally:
                        os._exit(code)
                os.close(w)
                live[r] = (pid, i, [])
            if deadline and time.time() > deadline:
                for r in list(live):
                    kill(live, r)
                    yield live.pop(r)[1], None, "out of time"
                for i, j in todo[::-1]:
                    yield i, None, "out of time"
                return
            wait = 5 if not deadline else max(0.1, min(5, deadline - time.time()))
            for r in select.select(list(live), [], [], wait)[0]:
                b = os.read(r, 1 << 20)
                pid, i, buf = live[r]
                if b:
                    buf.append(b)
                    continue
                os.close(r)
                del live[r]
                os.waitpid(pid, 0)
                try:
                    out, why = pickle.loads(b"".join(buf))
                except Exception:
                    out, why = None, "the solver process died (memory)"
                yield i, out, why
    finally:
        for r in list(live):
            kill(live, r)
            live.pop(r)


def kill(live, r):
    pid = live[r][0]
    for k in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
        try:
            k()
        except OSError:
            pass
    os.waitpid(pid, 0)
    os.close(r)
