"""P01: lock files."""
import os

from ..common import check, fail, must_finish, tb, current_proc, Job
from .. import seams
from ..kernel import START
from ..seams import x_exists, _o

REAL = ['redmapper.utilities.make_lockfile', 'kernel file system (link, unlink, exclusive create)']
STUBS = ['clock and sleep (virtual)', 'process identity and temporary names (seeded)']


def _ino(path):
    try:
        st = _o['stat'](path)
        return (st.st_ino, st.st_size)
    except OSError:
        return None


class Lock(object):
    """Ground truth about one lock path, updated after every operation."""

    def __init__(self, path):
        self.path = path
        self.ino = None
        self.creator = None
        self.owner = None          # process told it holds the lock
        self.free_since = START
        self.changes = 0           # how often the lock appeared, vanished or changed
        self.free_iv = []          # closed intervals during which it was free


def scenario(env):
    d = env.d
    from redmapper.utilities import make_lockfile
    nlock = 1 + d.choose(2, 0.7)
    relname = d.choose(6, 0.8) == 1
    sim = env.sim(step_cap=30000)
    os.makedirs(env.root + '/locks')
    if relname:
        os.chdir(env.root + '/locks')
    locks = [Lock(('' if relname else env.root + '/locks/') + 'thing%d.lock' % i) for i in range(nlock)]
    full = [env.root + '/locks/thing%d.lock' % i for i in range(nlock)]
    nproc = 2 + d.choose(4)
    # a lock may be present already, left by a dead job
    stale = [False] * nlock
    for i in range(nlock):
        if d.choose(5, 0.85) == 1:
            stale[i] = True
            with open(full[i], 'w') as f:
                f.write('stale')
            locks[i].ino = _ino(full[i])
            locks[i].creator = -1
            locks[i].owner = -1
    sim.hot = lambda kind, path: kind in ('link', 'unlink', 'osopen', 'publish', 'rename')
    maxstall = [0.0]

    def monitor(sim_, p, kind, path):
        for i, L in enumerate(locks):
            now = _ino(full[i])
            if now == L.ino:
                continue
            L.changes += 1
            if L.ino is None:
                L.creator = p.pid
                L.free_iv.append((L.free_since, sim.now))
            elif now is None:
                # removed: only the owner (or an owner's death cleanup) may do that
                if L.owner is not None and L.owner != p.pid:
                    fail('lock-stolen', 'lock held by process %s was removed by process %s (%s)' % (L.owner, p.pid, kind))
                if L.owner is None and L.creator is not None and L.creator != p.pid:
                    fail('lock-stolen', 'lock created by process %s was removed by process %s (%s)' % (L.creator, p.pid, kind))
                L.owner = None
                L.creator = None
                L.free_since = sim.now
            else:
                if L.creator != p.pid or L.owner is not None:
                    fail('lock-altered', 'existing lock (owner %s) was replaced or altered by process %s (%s)' % (L.owner, p.pid, kind))
            L.ino = now
    sim.monitors.append(monitor)
    faulty = {'crash': False, 'eio': False, 'stall': 0.0}

    def client(k, prog):
        def run():
            me = current_proc()
            for (li, block, maxtry, wait, hold) in prog:
                L = locks[li]
                t0 = sim.now
                changes0 = L.changes
                sleeps0 = len([1 for e in sim.log if e[0] == me.pid and e[1] == 'sleep'])
                err = None
                try:
                    if block:
                        got = make_lockfile(L.path, block=True, maxtry=maxtry, waittime=wait)
                    else:
                        got = make_lockfile(L.path, block=False)
                except OSError as e:
                    if not faulty['eio']:
                        raise
                    err = e
                    got = None
                mine = L.ino is not None and L.creator == me.pid and L.owner != me.pid
                if err is not None:
                    continue
                if got:
                    check(L.ino is not None, 'no-lock', 'told it holds the lock, but no lock file exists')
                    check(L.owner is None, 'double-hold', 'process %s told it holds the lock while process %s holds it' % (me.pid, L.owner))
                    check(L.creator == me.pid, 'not-creator', 'process %s told it holds a lock created by %s' % (me.pid, L.creator))
                    L.owner = me.pid
                else:
                    check(not mine, 'leaked-lock', 'process %s told it does not hold the lock, but it created it' % me.pid)
                check(got is True or got is False or got in (0, 1), 'answer', 'answer is %r' % (got,))
                el = sim.now - t0
                slack = 1.0 + faulty['stall'] * 2
                if not block:
                    check(el < slack, 'nonblock-waits', 'non-blocking attempt took %g s' % el)
                    if not got:
                        free = L.ino is None and L.changes == changes0
                        check(not free or faulty['eio'], 'refused-free-lock', 'non-blocking attempt refused although the lock was free throughout')
                else:
                    check(el <= maxtry * wait + slack + 0.3 * maxtry, 'block-too-long', 'blocking attempt with maxtry=%d waittime=%g took %g s' % (maxtry, wait, el))
                    if not got:
                        check(el >= (maxtry - 1) * wait - 1e-6, 'gave-up-early',
                              'gave up after %g s, before %d tries spaced by %g s' % (el, maxtry, wait))
                    ivs = list(L.free_iv) + ([(L.free_since, sim.now)] if L.ino is None else [])
                    for (a, b) in ivs:
                        a = max(a, t0)
                        b = min(b, sim.now)
                        if not faulty['eio']:
                            check(b - a <= wait + slack, 'missed-free-lock',
                                  'blocking attempt (waittime %g) did not take a lock that was free for %g s' % (wait, b - a))
                if got:
                    if hold < 0:
                        return          # exits holding it
                    me.sim.sleep(hold)
                    check(L.owner == me.pid and L.ino is not None, 'lock-lost', 'lock vanished while held')
                    os.unlink(L.path)
        return run

    progs = []
    for k in range(nproc):
        prog = []
        for j in range(1 + d.choose(3)):
            li = d.choose(nlock)
            block = d.choose(2) == 0
            maxtry = d.pick((3, 1, 2, 8, 60))
            wait = d.pick((2, 0.5, 5))
            hold = d.pick((0.05, 0.0, 1.0, 7.0, 90.0, -1, 5000.0), 0.3)
            prog.append((li, block, maxtry, wait, hold))
        progs.append(prog)
    fk = d.pick(('none', 'crash', 'crash', 'stall', 'eio'))
    if fk == 'crash':
        faulty['crash'] = True
        n = 1 + d.choose(2)
        sim.arm([{'kind': 'crash', 'cls': d.pick(('w', 'any')), 'nth': d.choose(20)} for _ in range(n)])
    elif fk == 'stall':
        dts = [d.pick((1.0, 9.0, 200.0)) for _ in range(2)]
        faulty['stall'] = sum(dts)
        sim.arm([{'kind': 'stall', 'cls': 'any', 'nth': d.choose(25), 'dt': x} for x in dts])
    elif fk == 'eio':
        faulty['eio'] = True
        sim.arm([{'kind': 'eio', 'cls': d.pick(('lock', 'unl', 'open')), 'nth': d.choose(8)} for _ in range(1 + d.choose(2))])
    procs = [sim.spawn('c%d' % k, client(k, progs[k])) for k in range(nproc)]
    sim.run()
    for p in procs:
        if p.exc is not None:
            if isinstance(p.exc, OSError) and fk == 'eio':
                continue
            fail('error', 'process %s: %s' % (p.name, tb(p.exc)))
    left = sorted(_o['listdir'](env.root + '/locks'))
    allowed = set(os.path.basename(full[i]) for i in range(nlock) if locks[i].ino is not None)
    tmpleft = sorted(_o['listdir'](env.root + '/tmp'))
    if fk in ('none', 'stall'):
        check(set(left) == allowed, 'leftover', 'files %s left behind beside the lock' % sorted(set(left) - allowed))
        check(not tmpleft, 'leftover', 'files %s left in the temporary directory' % tmpleft)
        for i in range(nlock):
            if stale[i]:
                check(open(full[i]).read() == 'stale', 'lock-altered', 'foreign lock changed')
    else:
        # only what a killed or failing call had in hand
        n = sum(1 for p in procs if p.killed) if fk == 'crash' else sum(1 for h in sim.fault_hits if h[1] != 'link')
        check(len(set(left) - allowed) + len(tmpleft) <= n, 'leftover',
              'files %s left by %d killed processes' % (sorted(set(left) - allowed), n))


SCENARIOS = {'contend': (scenario, (2400, 60000))}

LEVEL_NOTE = 'Seeded random search over interleavings (at every file-system and sleep operation), kill points, hold times, retry settings and I/O errors of real make_lockfile contenders; ground truth is the simulated file system itself. Sampled, not exhaustive; assumes POSIX-atomic link and exclusive create.'
