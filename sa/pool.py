"""Runs analyses in forked children: each has its own memory and time limit, and several run side by side."""
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

JOBS = int(os.environ.get('SA_JOBS', '0') or 0) or max(1, min(8, os.cpu_count() or 1))
MEM = 5 << 30


class TimeUp(Exception):
    def __str__(self):
        return 'time limit reached'


def timeup(*a):
    raise TimeUp()


def child(fn, w, limit):
    os.setpgid(0, 0)
    signal.alarm(0)
    signal.signal(signal.SIGALRM, timeup)
    signal.setitimer(signal.ITIMER_REAL, limit)
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    sys.setrecursionlimit(60000)
    try:
        r = ('ok', fn())
    except MemoryError:
        r = ('err', 'memory limit reached')
    except RecursionError:
        r = ('err', 'recursion limit reached')
    except BaseException as e:
        if os.environ.get('SA_DEBUG'):
            traceback.print_exc()
        import interp
        from facts import Missing
        if isinstance(e, Missing):
            r = ('err', 'anchor not found: %s' % e)
        elif isinstance(e, interp.Undecided):
            r = ('err', 'outside the abstraction: %s (%s)' % (e, getattr(e, 'sp', None)))
        else:
            r = ('err', 'analysis failed: %s: %s' % (type(e).__name__, str(e)[:300]))
    signal.setitimer(signal.ITIMER_REAL, 0)
    try:
        b = pickle.dumps(r)
    except Exception as e:
        b = pickle.dumps(('err', 'result not transferable: %s' % e))
    with os.fdopen(w, 'wb') as f:
        f.write(b)
    os._exit(0)


def run(jobs, limit, deadline):
    """jobs: [(name, thunk)]; returns {name: ('ok', value) | ('err', reason)}; stops at deadline"""
    sys.stdout.flush()
    sys.stderr.flush()
    out = {}
    todo = list(jobs)[::-1]
    live = {}
    try:
        while todo or live:
            now = time.time()
            while todo and len(live) < JOBS and now < deadline:
                name, fn = todo.pop()
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    child(fn, w, limit)
                os.close(w)
                live[r] = (name, pid, now, [])
            if now >= deadline:
                for name, fn in todo:
                    out[name] = ('err', 'time budget used up')
                todo = []
            rs = select.select(list(live), [], [], 0.5)[0]
            now = time.time()
            for r in list(live):
                name, pid, t, buf = live[r]
                done = False
                if r in rs:
                    b = os.read(r, 1 << 20)
                    if b:
                        buf.append(b)
                    else:
                        done = True
                        try:
                            out[name] = pickle.loads(b''.join(buf))
                        except Exception:
                            out[name] = ('err', 'analysis ended early')
                elif now - t > limit + 6 or now > deadline + 5:
                    done = True
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                    out[name] = ('err', 'time limit of %d s reached' % limit)
                if done:
                    os.close(r)
                    os.waitpid(pid, 0)
                    del live[r]
    finally:
        for r in live:
            try:
                os.kill(live[r][1], signal.SIGKILL)
            except OSError:
                pass
    return out
