"""Deterministic scheduler: real threads, parked and released one at a time by a seeded schedule.

Exactly one task owns the baton.  A task may lose it only at a yield point: a simulated system
call, a terminal write, a simulated lock, a sleep, or (with line tracing on) any executed line
of metaknowledge.  Which yield points switch, and to whom, is the schedule: an explicit list of
[gap, choice] pairs taken from the scenario, so a run is a pure function of the scenario.
"""
import sys
import _thread
import threading

from .seams import HarnessError, SimCrash, Budget, REAL
from . import seams

_alloc = _thread.allocate_lock


class Task:
    __slots__ = ('name', 'sem', 'state', 'wake', 'pred', 'thread', 'result', 'exc', 'order', 'steps')

    def __init__(self, name, order):
        self.name, self.order = name, order
        self.sem = _alloc()
        self.sem.acquire()
        self.state = 'ready'      # ready | sleep | wait | done
        self.wake = None
        self.pred = None
        self.thread = None
        self.result = None
        self.exc = None
        self.steps = 0


class SimLock:
    def __init__(self, sched, reentrant=False):
        self.s, self.re = sched, reentrant
        self.owner, self.n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = self.s
        s.point('lock')
        me = s.current
        if self.re and self.owner is me and self.n:
            self.n += 1
            return True
        if self.n == 0:
            self.owner, self.n = me, 1
            return True
        if not blocking:
            return False
        ok = s.wait_until(lambda: self.n == 0, None if timeout is None or timeout < 0 else timeout)
        if not ok:
            return False
        self.owner, self.n = me, 1
        return True

    def release(self):
        if self.n == 0:
            raise RuntimeError('release unlocked lock')
        self.n -= 1
        if self.n == 0:
            self.owner = None

    def locked(self):
        return self.n > 0

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition with an RLock
    def _release_save(self):
        st = (self.owner, self.n)
        self.owner, self.n = None, 0
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.owner, self.n = st

    def _is_owned(self):
        return self.n > 0 and self.owner is self.s.current

    def _at_fork_reinit(self):
        self.owner, self.n = None, 0


def in_finaliser(frame):
    """Python swallows what is raised in a __del__, so an interrupt there would only test Python."""
    while frame is not None:
        if frame.f_code.co_name == '__del__':
            return True
        frame = frame.f_back
    return False


class Scheduler:
    def __init__(self, world, switches=(), line_prefix=None, line_points=False, max_points=3000000, line_kbd=None):
        self.w = world
        self.switches = [list(s) for s in switches]
        self.si = 0
        self.countdown = self.switches[0][0] if self.switches else None
        self.tasks = []
        self.by_thread = {}
        self.main = Task('main', 0)
        self.tasks.append(self.main)
        self.current = self.main
        self.main_ident = _thread.get_ident()
        self.points = 0
        self.max_points = max_points
        self.switch_count = 0
        self.trace_sig = []
        self.line_prefix = line_prefix
        self.line_points = line_points
        self.line_kbd = line_kbd          # (n) raise KeyboardInterrupt in the main task at its nth traced line
        self.lines_main = 0
        self.call_kbd = None              # (n) the same when it enters its nth function outside the display
        self.calls_main = 0
        self.dead = False
        world.sched = self

    def current_name(self):
        return self.current.name

    # -- tracing -----------------------------------------------------------------------------
    def global_trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.line_prefix):
            if self.call_kbd is not None and self.current is self.main and not frame.f_code.co_filename.endswith('progressBar.py'):
                self.calls_main += 1
                if self.calls_main >= self.call_kbd and not in_finaliser(frame):
                    self.call_kbd = None
                    self.w.fired['call:kbd'] += 1
                    self.w.event('FAULT call kbd', frame.f_code.co_name)
                    raise KeyboardInterrupt()
            return self.local_trace
        return None

    def local_trace(self, frame, event, arg):
        if event == 'line':
            if self.line_kbd is not None and self.current is self.main:
                self.lines_main += 1
                if self.lines_main >= self.line_kbd and not in_finaliser(frame):
                    self.line_kbd = None
                    self.w.fired['line:kbd'] += 1
                    self.w.event('FAULT line kbd', frame.f_code.co_name)
                    raise KeyboardInterrupt()
            if self.line_points:
                self.point('line')
        return self.local_trace

    def trace_on(self):
        if self.line_prefix and (self.line_points or self.line_kbd is not None or self.call_kbd is not None):
            sys.settrace(self.global_trace)

    def trace_off(self):
        sys.settrace(None)

    # -- yield points ------------------------------------------------------------------------
    def point(self, kind):
        self.points += 1
        self.current.steps += 1
        if self.points > self.max_points:
            raise Budget('more than {} scheduling points'.format(self.max_points))
        if self.countdown is None:
            return
        self.countdown -= 1
        if self.countdown > 0:
            return
        choice = self.switches[self.si][1]
        self.si += 1
        self.countdown = self.switches[self.si][0] if self.si < len(self.switches) else None
        self._refresh()
        cand = [t for t in self.tasks if t.state == 'ready' and t is not self.current]
        if not cand:
            # give sleepers a chance: time passes while this task computes
            sl = [t for t in self.tasks if t.state == 'sleep']
            if not sl:
                return
            t = min(sl, key=lambda x: (x.wake, x.order))
            dt = t.wake - self.w.mono
            self.w.advance(max(0.0, dt))
            t.state = 'ready'
            cand = [t]
        self._switch(cand[choice % len(cand)])

    def _refresh(self):
        for t in self.tasks:
            if t.state == 'sleep' and t.wake <= self.w.mono:
                t.state = 'ready'
            elif t.state == 'wait' and (t.pred() or (t.wake is not None and t.wake <= self.w.mono)):
                t.state = 'ready'

    def _switch(self, to):
        me = self.current
        if to is me:
            return
        self.switch_count += 1
        if len(self.trace_sig) < 400:
            self.trace_sig.append((to.name, self.points))
        self.w.event('switch', me.name, '->', to.name)
        self.current = to
        to.sem.release()
        me.sem.acquire()
        if self.w.dead and me is not self.main:
            raise SimCrash('off')

    def _yield_blocked(self):
        """The current task cannot run: hand the baton to someone who can, advancing the clock."""
        me = self.current
        while True:
            self._refresh()
            if me.state == 'ready':
                # prefer others that are ready, so that blocked spinning makes progress
                return
            cand = [t for t in self.tasks if t.state == 'ready']
            if cand:
                self._switch(cand[0])
                if me.state == 'ready' or self.current is me and me.state == 'ready':
                    return
                self._refresh()
                if me.state == 'ready':
                    return
                continue
            sl = [t for t in self.tasks if t.state in ('sleep', 'wait') and t.wake is not None]
            if not sl:
                raise HarnessError('deadlock: no task can run')
            t = min(sl, key=lambda x: (x.wake, x.order))
            self.w.advance(max(0.0, t.wake - self.w.mono))
            self.points += 1
            if self.points > self.max_points:
                raise Budget('clock advanced without end')

    def sleep(self, dt):
        me = self.current
        me.wake = self.w.mono + max(0.0, dt)
        me.state = 'sleep'
        self.points += 1
        if self.points > self.max_points:
            me.state = 'ready'
            raise Budget('too many sleeps')
        self._yield_blocked()
        me.state = 'ready'
        me.wake = None

    def wait_until(self, pred, timeout=None):
        me = self.current
        me.pred = pred
        me.wake = None if timeout is None else self.w.mono + timeout
        me.state = 'wait'
        self._yield_blocked()
        me.state = 'ready'
        me.pred, me.wake = None, None
        return pred()

    # -- threads -----------------------------------------------------------------------------
    def owns(self, thread):
        return thread in self.by_thread

    def start_thread(self, thread):
        if thread in self.by_thread:
            raise RuntimeError('threads can only be started once')
        t = Task('T{}'.format(len(self.tasks)), len(self.tasks))
        t.thread = thread
        self.tasks.append(t)
        self.by_thread[thread] = t
        self.w.event('thread start', t.name)
        ready = _alloc()
        ready.acquire()

        def main():
            thread._ident = _thread.get_ident()
            threading._active[thread._ident] = thread
            ready.release()
            t.sem.acquire()
            try:
                if self.w.dead:
                    raise SimCrash('off')
                self.trace_on()
                thread.run()
            except SystemExit:
                pass
            except BaseException as e:      # noqa: the scheduler must survive anything
                t.exc = e
            finally:
                sys.settrace(None)
                threading._active.pop(thread._ident, None)
                self._finish(t)
        try:
            thread._started._flag = True
        except AttributeError:
            pass
        _thread.start_new_thread(main, ())
        ready.acquire()
        self.point('thread')

    def _finish(self, t):
        t.state = 'done'
        self.w.event('thread end', t.name)
        # hand the baton on
        while True:
            self._refresh()
            cand = [x for x in self.tasks if x.state == 'ready']
            if cand:
                self.current = cand[0]
                cand[0].sem.release()
                return
            sl = [x for x in self.tasks if x.state in ('sleep', 'wait') and x.wake is not None]
            if not sl:
                # only possible when main waits for ever: wake it, it will notice
                self.main.exc = HarnessError('deadlock')
                self.current = self.main
                self.main.state = 'ready'
                self.main.sem.release()
                return
            x = min(sl, key=lambda y: (y.wake, y.order))
            self.w.advance(max(0.0, x.wake - self.w.mono))

    def join_thread(self, thread, timeout=None):
        t = self.by_thread[thread]
        self.point('join')
        if t.state != 'done':
            self.wait_until(lambda: t.state == 'done', timeout)

    def thread_alive(self, thread):
        return self.by_thread[thread].state != 'done'

    # -- simulated callers -------------------------------------------------------------------
    def spawn(self, name, fn):
        """A simulated caller (client thread or process) running fn()."""
        t = Task(name, len(self.tasks))
        self.tasks.append(t)

        def main():
            t.sem.acquire()
            try:
                if self.w.dead:
                    raise SimCrash('off')
                self.trace_on()
                t.result = ('ok', fn())
            except BaseException as e:      # noqa
                sys.settrace(None)
                t.result = ('raise', e)
            finally:
                sys.settrace(None)
                self._finish(t)
        _thread.start_new_thread(main, ())
        return t

    def run_all(self, tasks):
        """Main waits until the given callers are done."""
        self.wait_until(lambda: all(t.state == 'done' for t in tasks))
        if isinstance(self.main.exc, HarnessError):
            raise self.main.exc

    def live(self):
        return [t for t in self.tasks[1:] if t.state != 'done']

    def drain(self, limit=2000):
        """Let everything that is still alive run; returns the tasks that would not stop."""
        self.switches, self.countdown = [], None
        for _ in range(limit):
            if not self.live():
                return []
            try:
                self.sleep(1.0)
            except Budget:
                break
        return self.live()

    def kill_all(self):
        """After a violation or crash: make every parked thread unwind."""
        self.w.dead = True
        for _ in range(1000):
            live = self.live()
            if not live:
                break
            t = live[0]
            t.state = 'ready'
            for o in self.tasks:
                if o is not t and o.state != 'done' and o is not self.main:
                    o.state = 'wait'
                    o.pred = lambda: False
                    o.wake = None
            self.main.state = 'ready'
            self.current = t
            t.sem.release()
            self.main.sem.acquire()
