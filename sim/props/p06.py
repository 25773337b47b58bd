"""P06: distributed zred jobs."""
import os

import numpy as np
import fitsio

from ..common import check, fail, tb, must_finish, quiet, CTX, Job
from .. import survey, zredworld as zw
from ..seams import _o

REAL = ['redmapper.pipeline.zredtask.RunZredPixelTask', 'redmapper.zred_runner.ZredRunPixels', 'redmapper.utilities.make_lockfile', 'redmapper.configuration.Configuration',
        'redmapper.zred_color.ZredColor', 'CFITSIO']
STUBS = ['clock and sleep (virtual)', 'process pools on simulated processes', 'one loaded red-sequence model shared by the jobs']
ASSUMPTIONS = ['jobs of one run use the same pixel size', 'stalls are shorter than the two minutes the last lock attempt waits, in runs where completion is required']


def prepare(ctx):
    zw.prepare(ctx)


class World(object):
    def __init__(self, env, **kw):
        d = env.d
        self.env = env
        self.w = zw.lay_pixels(d, os.path.join(env.root, 'g'), env.root, sizes=(4, 1, 9, 2), many=5, **kw)
        self.zdir = os.path.join(env.root, d.pick(('z', 'g/z_zreds_0000007', 'g')))
        self.zf = os.path.join(self.zdir, self.w['base'] + '_zreds_master_table.fit')
        self.fn = zw.cfg(self.w, os.path.join(env.root, 'c', 'c.yml'), self.zf, calib_nproc=2)
        self.big = sorted(set(self.w['bigof'].values()))
        self.seen = {}          # lock name -> step it was first seen at
        self.sig = None

    def body(self, b, res=None):
        def run():
            from redmapper.pipeline.zredtask import RunZredPixelTask
            RunZredPixelTask(self.fn, b, self.w['big']).run()
        return run

    def pixfiles(self):
        try:
            return sorted(f for f in _o['listdir'](self.zdir) if f.endswith('.fit') and '_zreds_' in f and not f.startswith('.') and 'master' not in f)
        except OSError:
            return []

    def locks(self):
        try:
            return sorted(f for f in _o['listdir'](self.zdir) if f.endswith('.lock'))
        except OSError:
            return []

    def monitor(self, sim, p, kind, path):
        now = set(self.locks())
        for f in list(self.seen):
            if f not in now:
                del self.seen[f]
        for f in now:
            self.seen.setdefault(f, sim.steps)
        try:
            st = _o['stat'](self.zf)
            s = (st.st_ino, st.st_size, st.st_mtime_ns)
        except OSError:
            s = None
        if s is not None and s != self.sig:
            with quiet():
                zw.check_table(self.zf, self.w, self.w['pix'], 'when the table appeared')
            cons = self.seen.get(os.path.basename(self.zf) + '.lock')
            for f, t in self.seen.items():
                if f.endswith('.lock') and not f.endswith('.fit.lock'):
                    check(cons is not None and t > cons, 'writing', 'the zred table appeared while a job that started writing before (%s) is not done' % f)
        self.sig = s

    def final(self, what):
        check(os.path.exists(self.zf), 'no-table', 'every job has finished, and there is no zred table (%s)' % what)
        zw.check_table(self.zf, self.w, self.w['pix'], what)
        check(self.locks() == [], 'lock-left', 'lock files left: %s (%s)' % (self.locks(), what))
        names = sorted('%s_zreds_%07d.fit' % (self.w['base'], q) for q in self.w['pix'])
        check(self.pixfiles() == names, 'files', 'zred files %s instead of %s' % (self.pixfiles(), names))

    def intact(self, what):
        """Whatever happened: files with a final name are complete."""
        for q in self.w['pix']:
            f = os.path.join(self.zdir, '%s_zreds_%07d.fit' % (self.w['base'], q))
            if os.path.exists(f):
                zw.check_zreds(zw.read_zreds(f), self.w['pool'][q], self.w['nsamp'], 'zreds of pixel %d (%s)' % (q, what))
        if os.path.exists(self.zf):
            zw.check_table(self.zf, self.w, self.w['pix'], what)


class Writers(object):
    """Which job is writing which pixel file right now."""

    def __init__(self, world):
        self.w = world
        self.cur = {}
        self.owner = {}

    def monitor(self, sim, p, kind, path):
        pass


def is_lock_refusal(e):
    return isinstance(e, (IOError, OSError)) and 'lock' in str(e).lower()


def jobs(env):
    """All jobs at once, some of them twice, some stalled."""
    d = env.d
    W = World(env)
    sim = env.sim(step_cap=120000)
    sim.hot = lambda kind, path: path.endswith('.lock') or kind in ('publish', 'list')
    sim.monitors.append(W.monitor)
    todo = list(W.big)
    for k in range(d.choose(3)):
        todo.append(d.pick(W.big))
    order = list(range(len(todo)))
    env.d.sub_rng().shuffle(order)
    faults = []
    if d.choose(2) == 1:
        for k in range(1 + d.choose(2)):
            cls = d.pick(('any', 'lock', 'list'))
            faults.append({'kind': 'stall', 'cls': cls, 'nth': d.choose({'any': 60, 'lock': 12, 'list': 6}[cls]), 'dt': d.pick((3.0, 20.0, 45.0))})
    sim.arm(faults)
    inside = {}
    procs = []
    wait = d.pick((0, 0, 5.0, 60.0))

    def job(b, k):
        run = W.body(b)

        def go():
            import time
            if wait:
                time.sleep(wait * (k % 3))
            run()
        return go
    for k, i in enumerate(order):
        procs.append((todo[i], sim.spawn('job%d_%d' % (k, todo[i]), job(todo[i], k))))
    sim.run()
    done = set()
    for b, p in procs:
        if p.exc is not None:
            check(is_lock_refusal(p.exc) and todo.count(b) > 1, 'error', 'job for pixel %d raised although nothing failed: %s' % (b, tb(p.exc)))
        else:
            done.add(b)
    check(done == set(W.big), 'refused', 'no job for pixels %s got to run' % sorted(set(W.big) - done))
    W.final('after all jobs')
    env.key = ('jobs', len(todo), len(W.w['pix']), sim.log_hash())


def mutual(env):
    """Two jobs for the same pixel never write at the same time."""
    d = env.d
    W = World(env)
    b = d.pick(W.big)
    mine = set('%s_zreds_%07d.fit' % (W.w['base'], q) for q in W.w['pix'] if W.w['bigof'][q] == b)
    if d.choose(3) == 1:
        # everything has been computed before, and is computed again
        for c in W.big:
            sim = env.sim(step_cap=120000)
            p = sim.spawn('before', W.body(c))
            sim.run()
            must_finish([p], 'job')
        W.final('before the jobs')
        st = _o['stat'](W.zf)
        W.sig = (st.st_ino, st.st_size, st.st_mtime_ns)
    sim = env.sim(step_cap=120000)
    sim.hot = lambda kind, path: path.endswith('.lock')
    sim.monitors.append(W.monitor)
    spans = {}

    def mon(s, p, kind, path):
        if any(m[:-4] in path for m in mine) and kind in ('publish', 'publish2', 'create', 'rename', 'clobber', 'openw'):
            a = spans.setdefault(p.job.name, [s.steps, s.steps])
            a[1] = s.steps
    sim.monitors.append(mon)
    n = 2 + d.choose(2)
    ps = [sim.spawn('job%d' % k, W.body(b)) for k in range(n)]
    sim.run()
    ok = [p for p in ps if p.exc is None]
    check(ok, 'refused', 'no job could run')
    for p in ps:
        if p.exc is not None:
            check(is_lock_refusal(p.exc), 'error', 'job raised: %s' % tb(p.exc))
    s = sorted(spans.values())
    for x, y in zip(s, s[1:]):
        check(y[0] > x[1], 'overlap', 'two jobs for pixel %d wrote its zred files at the same time (steps %s and %s)' % (b, x, y))
    # the rest, one after the other
    for c in W.big:
        if c != b:
            sim = env.sim(step_cap=120000)
            sim.monitors.append(W.monitor)
            p = sim.spawn('rest', W.body(c))
            sim.run()
            must_finish([p], 'job')
    W.final('after all jobs')
    env.key = ('mutual', n, len(ok), sim.log_hash())


def crashes(env):
    """Jobs killed or failing anywhere; their locks are cleared and they are run again."""
    d = env.d
    W = World(env)
    left = list(W.big)
    rounds = 1 + d.choose(3)
    for r in range(rounds + 1):
        last = r == rounds
        sim = env.sim(step_cap=120000)
        sim.monitors.append(W.monitor)
        if not last:
            fs = []
            for k in range(1 + d.choose(2)):
                kind = d.pick(('crash', 'crash', 'enospc', 'eio', 'eio_r'))
                cls = {'crash': d.pick(('any', 'pub', 'lock', 'unl', 'w')), 'eio_r': 'r'}.get(kind, d.pick(('pub', 'w', 'fop')))
                fs.append({'kind': kind, 'cls': cls, 'nth': d.choose(40 if cls in ('any', 'r') else 10), 'variant': d.choose(2)})
            sim.arm(fs)
        ps = [(b, sim.spawn('r%d_%d' % (r, b), W.body(b))) for b in left]
        sim.run()
        W.intact('after round %d' % r)
        bad = []
        for b, p in ps:
            if not p.ok:
                if p.exc is not None and not p.killed:
                    check(sim.fault_hits, 'error', 'job for pixel %d raised although nothing failed: %s' % (b, tb(p.exc)))
                bad.append(b)
        if last:
            check(not bad, 'error', 'jobs %s failed without a fault: %s' % (bad, [tb(p.exc) for b, p in ps if p.exc is not None][:1]))
        # the operator removes the locks of the dead jobs (nobody runs now)
        for f in W.locks():
            os.unlink(os.path.join(W.zdir, f))
        if bad:
            left = bad
        else:
            # possible: the table is missing because its maker died; any job makes it
            left = [d.pick(W.big)]
        if last and not os.path.exists(W.zf):
            # jobs that finished their pixel but died before consolidation were not in the last round
            fail('no-table', 'all jobs have been rerun without a fault, and there is no zred table')
    W.final('after restarts')
    env.key = ('crashes', rounds, sim.log_hash())


def stale(env):
    """Zred files of an earlier version of the catalog (other lengths) are lying around."""
    d = env.d
    W = World(env)
    os.makedirs(W.zdir, exist_ok=True)
    old = [q for q in W.w['pix'] if d.choose(2)]
    for q in old:
        n = len(W.w['rows'][q]) + d.pick((1, -1, 5))
        a = np.zeros(max(n, 0), dtype=[('zred', 'f4'), ('zred_e', 'f4'), ('zred2', 'f4'), ('zred2_e', 'f4'), ('zred_uncorr', 'f4'), ('zred_uncorr_e', 'f4'),
                                       ('zred_samp', 'f4', (4,)), ('lkhd', 'f4'), ('chisq', 'f4')])
        fitsio.write(os.path.join(W.zdir, '%s_zreds_%07d.fit' % (W.w['base'], q)), a, clobber=True)
    foreign = []
    if d.choose(3) == 1:
        # files of sky pixels that are no longer in the catalog
        for k in range(1 + d.choose(2)):
            q = d.pick([x for x in range(60) if x not in W.w['pix']])
            foreign.append(os.path.join(W.zdir, '%s_zreds_%07d.fit' % (W.w['base'], q)))
            fitsio.write(foreign[-1], np.zeros(3, dtype=[('zred', 'f4')]), clobber=True)
    left = list(W.big)
    env.d.sub_rng().shuffle(left)
    if foreign:
        # while they are there, the jobs may complain; an incomplete table never appears
        for b in left:
            sim = env.sim(step_cap=120000)
            sim.monitors.append(W.monitor)
            sim.spawn('f%d' % b, W.body(b))
            sim.run()
        for f in foreign:
            if os.path.exists(f):
                os.unlink(f)
        for f in W.locks():
            os.unlink(os.path.join(W.zdir, f))
    for r in range(4):
        sim = env.sim(step_cap=120000)
        sim.monitors.append(W.monitor)
        together = d.choose(2)
        ps = []
        for b in left:
            ps.append((b, sim.spawn('r%d_%d' % (r, b), W.body(b))))
            if not together:
                sim.run()
                sim = env.sim(step_cap=120000)
                sim.monitors.append(W.monitor)
        sim.run()
        bad = [b for b, p in ps if not p.ok]
        if r == 0 and not old:
            must_finish([p for b, p in ps], 'job')
        if bad and r:
            check(r < 2, 'error', 'job for pixel %s keeps failing although all zreds are there: %s' % (bad, tb(ps[0][1].exc) if ps[0][1].exc is not None else ''))
        for f in W.locks():
            os.unlink(os.path.join(W.zdir, f))
        if not bad and os.path.exists(W.zf):
            break
        left = bad or [d.pick(W.big)]
    W.final('after stale files')
    env.key = ('stale', len(old), sim.log_hash())


SCENARIOS = {'stale': (stale, (80, 3000)), 'jobs': (jobs, (300, 9000)), 'mutual': (mutual, (120, 4000)), 'crashes': (crashes, (300, 9000))}
LEVEL_NOTE = 'Seeded search over sets of concurrent zred jobs (duplicates, stalls, kills and I/O errors anywhere, cleared locks and reruns) with the real task and zred computation; the table is validated at the step it becomes visible. Sampled.'
