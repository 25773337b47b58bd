"""Deterministic simulation kernel.

One Python process hosts every simulated process of a redmapper deployment
(parents, forked pool workers, independent batch jobs).  Each simulated process
is a thread, but exactly one thread runs at any time: control is handed over
explicitly at operation points (file-system operations, sleeps, pool task
boundaries), and who runs next is a recorded decision.  Time is virtual.

Every choice goes through Decisions.choose(), so that one seed -- or one
recorded list of integers -- is one exactly repeatable execution.
"""
import copy
import hashlib
import random
import threading
import types


class SimKilled(BaseException):
    """Raised inside a simulated process that has been killed."""


class Violation(Exception):
    """A property violation observed by an oracle."""

    def __init__(self, cls, msg):
        Exception.__init__(self, "%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    """The simulator itself misbehaved (never reported as a violation)."""


class Decisions(object):
    """Source of every choice.  Value 0 is always the 'simplest' choice."""

    def __init__(self, seed=None, replay=None):
        self.replay = None if replay is None else list(replay)
        self.rng = random.Random(seed)
        self.made = []

    def choose(self, n, p0=None):
        """Pick an integer in [0, n).  p0: probability of 0 (default uniform)."""
        if n <= 1:
            return 0
        i = len(self.made)
        if self.replay is not None:
            v = self.replay[i] if i < len(self.replay) else 0
            v = max(0, min(int(v), n - 1))
        elif p0 is None:
            v = self.rng.randrange(n)
        else:
            v = 0 if self.rng.random() < p0 else 1 + self.rng.randrange(n - 1)
        self.made.append(v)
        return v

    def pick(self, seq, p0=None):
        return seq[self.choose(len(seq), p0)]

    def sub_rng(self):
        """A numpy RandomState seeded by one decision (for bulk data)."""
        import numpy as np
        return np.random.RandomState(12345 + self.choose(1 << 16))


class Job(object):
    """A unit that is killed as a whole (a parent and its pool workers)."""

    def __init__(self, name):
        self.name = name
        self.killed = False
        self.nops = 0
        self.procs = []
        self.faultable = True


# simulated time starts after the files prepared by the harness were made
START = 2.0e9

NEW, READY, SLEEPING, WAITING, DONE = 'new', 'ready', 'sleeping', 'waiting', 'done'


class Proc(object):
    def __init__(self, sim, pid, name, fn, job, capsule):
        self.sim = sim
        self.pid = pid
        self.name = name
        self.fn = fn
        self.job = job
        self.capsule = capsule
        self.sem = threading.Semaphore(0)
        self.state = READY
        self.wake = 0.0
        self.waiting_for = None
        self.killed = False
        self.result = None
        self.exc = None
        self.depth = 0
        self.dead_ops = 0
        self.handles = []
        self.pools = []
        self.prio = 0
        self.thread = None

    @property
    def ok(self):
        return self.state == DONE and self.exc is None and not self.killed


_tls = threading.local()


def current_proc():
    return getattr(_tls, 'proc', None)


class StackLimit(object):
    SIZE = 512 * 1024 * 16


class Sim(object):
    """A simulated deployment: processes, clock, faults, event log."""

    OP_COST = 0.001
    pid_base = 1000

    def __init__(self, decisions, root, capsules=None, step_cap=60000, preempt=0.1):
        self.d = decisions
        self.root = root
        self.capsules = capsules
        self.now = START
        self.t0 = self.now
        self.steps = 0
        self.step_cap = step_cap
        self.procs = []
        self.next_pid = Sim.pid_base
        Sim.pid_base += 100
        self.current = None
        self.main_sem = threading.Semaphore(0)
        self.preempt = preempt
        self.log = []
        self.switches = 0
        self.faults = []            # planned faults
        self.fired = {}             # kind -> count
        self.counters = {}          # op class -> count since arm()
        self.fault_hits = []
        self.monitors = []          # callables(sim, kind, path) after each op
        self.on_kill = None
        self.abort_exc = None
        self.base_capsule = capsules.pristine() if capsules is not None else None
        self.probes = {}
        self.hot = None             # callable(kind, path)->bool : more preemption there

    # -- processes ---------------------------------------------------------
    def spawn(self, name, fn, job=None, capsule=None, parent=None):
        if job is None:
            job = Job(name)
        if capsule is None and self.capsules is not None:
            if parent is not None:
                capsule = self.capsules.fork(parent)
            else:
                capsule = self.capsules.fresh(self.base_capsule, self.next_pid)
        p = Proc(self, self.next_pid, name, fn, job, capsule)
        self.next_pid += 1
        job.procs.append(p)
        self.procs.append(p)
        t = threading.Thread(target=self._thread_main, args=(p,), daemon=True)
        p.thread = t
        t.start()
        return p

    def _thread_main(self, p):
        p.sem.acquire()
        _tls.proc = p
        try:
            if p.killed:
                raise SimKilled()
            p.result = p.fn()
        except SimKilled:
            p.killed = True
        except Violation as e:
            p.exc = e
            if self.abort_exc is None:
                self.abort_exc = e
        except HarnessError as e:
            if self.abort_exc is None:
                self.abort_exc = e
        except BaseException as e:          # the code under test failed
            if p.killed:
                p.exc = None
            else:
                e.__traceback__ = _trim(e.__traceback__)
                p.exc = e
        self._finish(p)

    def _finish(self, p):
        # A normal exit runs the interpreter's exit handling: files still open
        # are flushed and closed.
        if not p.killed and self.abort_exc is None:
            for h in list(p.handles):
                try:
                    h.sim_exit()
                except SimKilled:
                    p.killed = True
                    break
                except BaseException:
                    pass
        p.handles = []
        # daemonic pool workers end with the process that owns the pool
        for pool in p.pools:
            pool.abandon()
        p.pools = []
        p.state = DONE
        p.fn = None
        self.event('exit', '%s' % ('killed' if p.killed else ('exc' if p.exc is not None else 'ok')), p)
        _tls.proc = None
        if self.abort_exc is not None:
            for q in self.procs:
                q.killed = True
        if self.capsules is not None:
            self.capsules.save(p)
        try:
            nxt = self._pick(None)
        except BaseException as e:
            if self.abort_exc is None:
                self.abort_exc = e
            for q in self.procs:
                q.killed = True
            nxt = self._pick_dead()
        if nxt is None:
            self.current = None
            self.main_sem.release()
        else:
            self.current = nxt
            if self.capsules is not None:
                self.capsules.load(nxt)
            nxt.sem.release()

    def run(self):
        """Run until every process has finished.  Raises on abort."""
        if self.capsules is not None:
            self.capsules.enter()
        try:
            try:
                nxt = self._pick(None)
            except Violation as e:
                self.abort_exc = e
                nxt = None
            if nxt is not None:
                self.current = nxt
                if self.capsules is not None:
                    self.capsules.load(nxt)
                nxt.sem.release()
                if not self.main_sem.acquire(timeout=self.wall_limit):
                    raise Violation('hang', 'a simulated process computed for %g s without reaching an operation point' % self.wall_limit)
        finally:
            if self.capsules is not None:
                self.capsules.leave()
        if self.abort_exc is not None:
            e, self.abort_exc = self.abort_exc, None
            raise e

    wall_limit = 150.0

    def _pick_dead(self):
        for q in self.procs:
            if q.state != DONE:
                return q
        return None

    def _pick(self, cur):
        """Choose who runs next (cur: the running process, if it can go on)."""
        # Killed processes unwind first, without effects and without decisions.
        for q in self.procs:
            if q.state != DONE and q.killed and q is not cur:
                q.state = READY
                return q
        while True:
            ready = []
            for q in self.procs:
                if q.state == SLEEPING and q.wake <= self.now:
                    q.state = READY
                if q.state == WAITING and q.waiting_for():
                    q.state = READY
                if q.state == READY and q is not cur:
                    ready.append(q)
            if cur is not None:
                ready.insert(0, cur)
            if ready:
                break
            sleepers = [q for q in self.procs if q.state == SLEEPING]
            if sleepers:
                self.now = max(self.now, min(q.wake for q in sleepers))
                continue
            alive = [q for q in self.procs if q.state != DONE]
            if not alive:
                return None
            raise Violation('deadlock', 'processes %s wait forever' % ','.join(q.name for q in alive))
        if len(ready) == 1:
            return ready[0]
        if cur is None:
            return ready[self.d.choose(len(ready))]
        return ready[self.d.choose(len(ready), 1.0 - self._pp)]

    _pp = 0.1

    # -- operation points ---------------------------------------------------
    def event(self, kind, path, p=None):
        p = p or current_proc()
        self.log.append((p.pid if p is not None else 0, kind, path))

    def check_alive(self):
        p = current_proc()
        if p is not None and p.killed:
            p.dead_ops += 1
            if p.dead_ops > 2000:
                # code that swallows everything: park this thread for good
                p.state = DONE
                p.handles = []
                if self.capsules is not None:
                    self.capsules.save(p)
                nxt = self._pick_dead()
                if nxt is None:
                    self.current = None
                    self.main_sem.release()
                else:
                    self.current = nxt
                    if self.capsules is not None:
                        self.capsules.load(nxt)
                    nxt.sem.release()
                threading.Semaphore(0).acquire()
            raise SimKilled()
        return p

    def point(self, kind, path='', classes=()):
        """An operation point of the running process.

        Returns the planned faults that hit this point (excluding crashes,
        which never return).  May switch to another process first.
        """
        p = self.check_alive()
        self.steps += 1
        if self.steps > self.step_cap:
            raise Violation('no-progress', 'more than %d operations without finishing (at %s %s by %s)'
                            % (self.step_cap, kind, path, p.name))
        self.now += self.OP_COST
        hot = self.hot is not None and self.hot(kind, path)
        self._pp = min(0.9, self.preempt * 4) if hot else self.preempt
        self._yield(p)
        self.event(kind, path, p)
        return self._match_faults(p, kind, path, classes)

    def _yield(self, p):
        nxt = self._pick(p)
        if nxt is not p:
            self._handoff(p, nxt)

    def _handoff(self, p, nxt):
        self.switches += 1
        if self.capsules is not None:
            self.capsules.save(p)
            self.capsules.load(nxt)
        self.current = nxt
        nxt.sem.release()
        p.sem.acquire()
        self.check_alive()

    def block(self, state, wake=0.0, pred=None):
        p = self.check_alive()
        p.state = state
        p.wake = wake
        p.waiting_for = pred
        nxt = self._pick(None)
        if nxt is p:
            p.state = READY
            self.check_alive()
            return
        self._handoff(p, nxt)

    def sleep(self, dt):
        p = self.check_alive()
        self.steps += 1
        if self.steps > self.step_cap:
            raise Violation('no-progress', 'more than %d operations (sleeping in %s)' % (self.step_cap, p.name))
        self.event('sleep', repr(round(float(dt), 6)), p)
        self.block(SLEEPING, wake=self.now + max(0.0, float(dt)))

    def wait(self, pred):
        if pred():
            return
        self.block(WAITING, pred=pred)

    # -- faults --------------------------------------------------------------
    def arm(self, faults):
        """Install a list of planned faults: dicts with kind, cls, nth, ..."""
        self.faults = list(faults)
        self.counters = {}

    def _match_faults(self, p, kind, path, classes):
        if not p.job.faultable:
            return ()
        hits = []
        allc = ('any',) + tuple(classes)
        for c in allc:
            self.counters[c] = self.counters.get(c, 0) + 1
        for f in list(self.faults):
            if f.get('fired'):
                continue
            if f.get('job') is not None and f['job'] != p.job.name:
                continue
            if f['cls'] in allc:
                f['seen'] = f.get('seen', 0) + 1
                if f['seen'] > f['nth']:
                    f['fired'] = True
                    self.faults = [g for g in self.faults if g is not f]
                    if f['kind'] == 'stall':
                        self.fire('stall', kind, path)
                        self.sleep(f.get('dt', 10.0))
                    elif f['kind'] == 'crash':
                        if kind in TORN_KINDS and f.get('variant', 0):
                            hits.append(f)
                        else:
                            self.fire('crash', kind, path)
                            self.kill(p.job)
                    else:
                        hits.append(f)
        return hits

    def fire(self, kind, opkind, path):
        key = kind
        self.fired[key] = self.fired.get(key, 0) + 1
        self.fault_hits.append((kind, opkind, path))
        self.event('FAULT-' + kind, '%s %s' % (opkind, path))

    def kill(self, job):
        """Kill a whole job now; if the caller belongs to it, does not return."""
        job.killed = True
        for q in job.procs:
            if q.state != DONE:
                q.killed = True
                for h in list(q.handles):
                    h.sim_tear(self)
                q.handles = []
        self.event('kill', job.name)
        if self.on_kill is not None:
            self.on_kill(job)
        p = current_proc()
        if p is not None and p.killed:
            raise SimKilled()

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    # -- reporting -----------------------------------------------------------
    def log_hash(self):
        h = hashlib.sha256()
        for e in self.log:
            h.update(repr(e).encode())
        return h.hexdigest()[:24]


TORN_KINDS = ('publish', 'clobber')


def _trim(tb):
    return tb
