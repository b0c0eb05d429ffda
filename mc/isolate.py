"""Run a function in a forked child whose process has built nothing before,
and a controlled scheduler for threads."""
import os
import pickle
import sys
import threading
import traceback


def isolated(fn, *args):
    """result of fn(*args) in a forked child; exceptions come back as ('!', text)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            import signal
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)
            try:
                out = ('=', fn(*args))
            except BaseException as e:
                out = ('!', '%s: %s' % (type(e).__name__, e), traceback.format_exc()[-1500:])
            data = pickle.dumps(out)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        try:
            os.kill(pid, 9)
        except OSError:
            pass
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if not data:
        return ('!', 'no answer', '')
    return pickle.loads(data)


class Scheduler:
    """Runs functions in threads, one at a time; a thread only gives way at a
    scheduling point (the call, or line, of a function of the package), when
    the schedule says so.

    schedule: [n0, n1, n2...]: thread 0 runs n0 points, then thread 1 runs n1
    points, then thread 0 ... ; the last one runs to its end, and the others
    follow."""

    def __init__(self, package, schedule, lines=False, only=None):
        self.package = package
        self.schedule = list(schedule)
        self.lines = lines
        self.only = only
        self.points = None

    def run(self, fns):
        n = len(fns)
        self.points = [0] * n
        batons = [threading.Event() for _ in fns]
        done = [False] * n
        out = [None] * n
        lock = threading.Lock()
        state = {'step': 0, 'left': self.schedule[0] if self.schedule else -1}

        def nxt(cur):
            """next thread after cur that is not done"""
            for k in range(1, n + 1):
                j = (cur + k) % n
                if not done[j]:
                    return j
            return None

        def switch(i):
            state['step'] += 1
            state['left'] = self.schedule[state['step']] if state['step'] < len(self.schedule) else -1
            j = nxt(i)
            if j is not None and j != i:
                batons[i].clear()
                batons[j].set()
                if not done[i]:
                    batons[i].wait()

        def point(i):
            self.points[i] += 1
            if state['left'] == 0:
                switch(i)
            if state['left'] > 0:
                state['left'] -= 1

        package = self.package

        def body(i, fn):
            def local(frame, event, arg):
                if event == 'line':
                    point(i)
                return local

            def tracer(frame, event, arg):
                if event == 'call' and frame.f_code.co_filename.startswith(package):
                    if self.only is None or frame.f_code.co_name in self.only:
                        point(i)
                    return local if self.lines else None
                return None
            batons[i].wait()
            sys.settrace(tracer)
            try:
                out[i] = ('=', fn())
            except BaseException as e:
                out[i] = ('!', '%s: %s' % (type(e).__name__, e), traceback.format_exc()[-1500:])
            finally:
                sys.settrace(None)
                done[i] = True
                switch(i)
        ts = [threading.Thread(target=body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ts:
            t.start()
        batons[0].set()
        for t in ts:
            t.join()
        return out
