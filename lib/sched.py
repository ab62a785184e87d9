"""Controlled scheduler: threads run real code, one at a time, and can be switched only at lines of chosen source files."""
import sys
import threading


class Deadlock(Exception):
    pass


class Run:
    def __init__(self, funcs, switches, files, granularity='line', stop=False):
        """funcs: callables; switches: {global step number: index of the thread to continue}"""
        self.n = len(funcs)
        self.switches = switches
        self.files = files
        self.gran = granularity
        self.last = max(switches) if stop and switches else None      # no tracing after the last switch
        self.known = {}
        self.step = 0
        self.trace = []
        self.locs = []
        self.done = [False] * self.n
        self.result = [None] * self.n
        self.error = [None] * self.n
        self.go = [threading.Semaphore(0) for _ in funcs]
        self.finished = threading.Semaphore(0)
        self.threads = [threading.Thread(target=self._main, args=(i, f), daemon=True) for i, f in enumerate(funcs)]

    def _main(self, i, f):
        self.go[i].acquire()
        sys.settrace(lambda frame, event, arg: self._trace(i, frame, event, arg))
        try:
            self.result[i] = f()
        except BaseException as e:
            self.error[i] = e
        finally:
            sys.settrace(None)
            self.done[i] = True
            nxt = next((j for j in range(self.n) if not self.done[j]), None)
            if nxt is None:
                self.finished.release()
            else:
                self.go[nxt].release()

    def _trace(self, i, frame, event, arg):
        fn = frame.f_code.co_filename
        k = self.known.get(fn)
        if k is None:
            k = self.known[fn] = any(fn.endswith(x) for x in self.files)
        if not k:
            return None
        if self.last is not None and self.step > self.last:
            sys.settrace(None)
            return None
        if event == ('line' if self.gran == 'line' else 'call'):
            self._point(i, (fn, frame.f_lineno))
        if self.gran != 'line':
            return None
        return lambda fr, ev, ar: self._trace(i, fr, ev, ar)

    def _point(self, i, loc=None):
        s = self.step
        self.step += 1
        self.trace.append(i)
        self.locs.append((i, loc))
        j = self.switches.get(s)
        if j is not None and j != i and not self.done[j]:
            self.go[j].release()
            self.go[i].acquire()

    def run(self, timeout=120):
        for t in self.threads:
            t.start()
        self.go[0].release()
        if not self.finished.acquire(timeout=timeout):
            raise Deadlock('schedule %s does not finish' % self.switches)
        for t in self.threads:
            t.join(timeout)
        return self
