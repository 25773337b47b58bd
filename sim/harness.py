"""Run driver: seeds -> simulated runs -> oracles -> minimised replay -> evidence."""
import gc
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import time as _time
import traceback

from .kernel import Decisions, Sim, Violation, HarnessError, SimKilled, Job

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
REAL = {'time': _time.time, 'sleep': _time.sleep}


def scratch_base():
    for b in ('/dev/shm', '/tmp'):
        if os.path.isdir(b) and os.access(b, os.W_OK):
            try:
                st = os.statvfs(b)
                if st.f_bavail * st.f_frsize > 2 << 30:
                    return b
            except OSError:
                pass
    return '/tmp'


class Env(object):
    """Everything one simulated run gets."""

    def __init__(self, root, decisions, capsules, params):
        self.base = root
        self.root = os.path.join(root, 'r')
        self.private = os.path.join(root, 'p')
        os.makedirs(self.root + '/tmp')
        os.makedirs(self.private)
        self.d = decisions
        self.capsules = capsules
        self.params = params
        self.sims = []
        self.subn = 0
        self.nfaultruns = 0
        self.key = None
        self.ref_sims = []

    def subroot(self, name):
        r = os.path.join(self.base, name)
        os.makedirs(r + '/tmp')
        return r

    def sim(self, root=None, step_cap=40000, preempt=None, decisions=None, count=True):
        root = root or self.root
        d = decisions if decisions is not None else self.d
        if preempt is None:
            preempt = (0.0, 0.05, 0.2, 0.5)[d.choose(4)]
        s = Sim(d, root, self.capsules, step_cap=step_cap, preempt=preempt)
        s.private = self.private
        s.tmpdir = os.path.join(root, 'tmp')
        if count:
            self.sims.append(s)
        else:
            self.ref_sims.append(s)
        return s

    def dry(self, root, **kw):
        """A sim whose own decisions are all zero (an undisturbed reference)."""
        return self.sim(root=root, preempt=0.0, decisions=Decisions(replay=[]), count=False, **kw)

    def plan(self, counters, kinds, classes=('pub', 'w', 'any'), job=None, p_none=0.0, stall_dt=(3.0, 40.0, 700.0)):
        """Draw one planned fault, aimed at an operation that exists.

        counters: op-class counts of an undisturbed run of the same work.
        """
        d = self.d
        kinds = ['none'] + list(kinds)
        k = kinds[d.choose(len(kinds), p_none)]
        if k == 'none':
            return []
        if k == 'eio_r':
            cl = ['r']
        elif k in ('eio', 'enospc'):
            cl = [c for c in ('pub', 'w', 'fop') if counters.get(c)]
        elif k == 'stall':
            cl = ['any']
        else:
            cl = [c for c in classes if counters.get(c)]
        if not cl:
            return []
        c = d.pick(cl)
        n = counters.get(c, 0)
        if n == 0:
            return []
        f = {'kind': k, 'cls': c, 'nth': d.choose(n)}
        if k == 'crash':
            f['variant'] = 1 - d.choose(2, 0.7)
        if k == 'stall':
            f['dt'] = d.pick(stall_dt)
        if job is not None:
            f['job'] = job
        return [f]


class Outcome(object):
    def __init__(self):
        self.violation = None
        self.harness = None


def execute(workload, params, decisions, base, capsules):
    """One simulated run.  Returns a dict."""
    root = os.path.join(base, 'run')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    env = Env(root, decisions, capsules, params)
    from . import common
    common.CTX.runbase = root
    out = {'violation': None, 'harness': None}
    cwd = os.getcwd()
    from . import seams
    seams.S.counter = 0
    seams.S.names = 0
    Sim.pid_base = 1000
    try:
        workload(env)
    except Violation as e:
        out['violation'] = {'cls': e.cls, 'msg': e.msg}
    except HarnessError as e:
        out['harness'] = traceback.format_exc()
    except MemoryError:
        out['harness'] = traceback.format_exc()
    except Exception as e:
        # An oracle could not even look at what the code left behind.
        out['violation'] = {'cls': 'exception:%s' % type(e).__name__, 'msg': traceback.format_exc()[-3000:]}
    os.chdir(cwd)
    h = hashlib.sha256()
    fired = {}
    probes = {}
    steps = switches = 0
    simt = 0.0
    for s in env.sims:
        h.update(s.log_hash().encode())
        for k, v in s.fired.items():
            fired[k] = fired.get(k, 0) + v
        for k, v in s.probes.items():
            probes[k] = probes.get(k, 0) + v
        steps += s.steps
        switches += s.switches
        simt += s.now - s.t0
    out.update(hash=h.hexdigest()[:24], fired=fired, probes=probes, steps=steps, switches=switches, simt=simt,
               decisions=list(decisions.made), key=env.key,
               sample=[list(e) for s in env.sims for e in s.log[:6]][:12])
    out['trace'] = [list(e) for s in env.sims for e in s.log[-400:]]
    for s in env.sims + env.ref_sims:
        for p in s.procs:
            p.exc = None
            p.capsule = None
        s.procs = []
        s.monitors = []
    env.sims = []
    gc.collect()
    shutil.rmtree(root, ignore_errors=True)
    return out


def minimise(workload, params, decisions, cls, base, capsules, budget=40.0):
    """Shrink a failing decision list while the violation class persists."""
    t0 = REAL['time']()
    best = list(decisions)
    tries = 0

    def fails(cand):
        nonlocal tries
        tries += 1
        o = execute(workload, params, Decisions(replay=cand), base, capsules)
        if o['violation'] is not None and o['violation']['cls'] == cls:
            made = o['decisions']
            while made and made[-1] == 0:
                made = made[:-1]
            return made
        return None

    def left():
        return REAL['time']() - t0 < budget

    r = fails(best)
    if r is None:
        return best, tries, False
    best = r
    changed = True
    while changed and left():
        changed = False
        # truncate
        size = len(best) // 2
        while size >= 1 and left():
            if size <= len(best):
                r = fails(best[:-size])
                if r is not None and len(r) <= len(best) and r != best:
                    best = r
                    changed = True
                    size = min(size, max(1, len(best) // 2))
                    continue
            size //= 2
        # zero chunks
        size = max(1, len(best) // 2)
        while size >= 1 and left():
            i = 0
            while i < len(best) and left():
                seg = best[i:i + size]
                if any(seg):
                    cand = best[:i] + [0] * len(seg) + best[i + size:]
                    r = fails(cand)
                    if r is not None and (len(r), sum(1 for x in r if x), sum(r)) < \
                            (len(best), sum(1 for x in best if x), sum(best)):
                        best = r
                        changed = True
                i += size
            size //= 2
        # decrement values
        for i in range(len(best)):
            if not left():
                break
            if i < len(best) and best[i] > 1:
                for v in (1, best[i] // 2, best[i] - 1):
                    if i >= len(best) or v >= best[i] or v == 0:
                        continue
                    r = fails(best[:i] + [v] + best[i + 1:])
                    if r is not None and len(r) <= len(best):
                        best = r
                        changed = True
                        break
    return best, tries, True


def run_seed(prop, scen, verif_seed, i):
    return int(hashlib.sha256(('%s/%s/%s/%d' % (prop, scen, verif_seed, i)).encode()).hexdigest()[:12], 16)


def schedule(mod, tier):
    """List of (scenario name, index) in run order, deterministic."""
    plan = []
    left = {name: n[0 if tier == 'quick' else 1] for name, (fn, n) in mod.SCENARIOS.items()}
    total = dict(left)
    idx = dict((k, 0) for k in left)
    # interleave scenarios proportionally
    while any(v > 0 for v in left.values()):
        name = max(left, key=lambda k: (left[k] / float(total[k]) if total[k] else -1.0, k))
        plan.append((name, idx[name]))
        idx[name] += 1
        left[name] -= 1
    return plan


def worker(mod, prop, tier, seed, plan, w, nw, base, capsules, outfile, deadline, stopfile):
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    res = {'runs': 0, 'hashes': {}, 'dists': {}, 'fired': {}, 'probes': {}, 'steps': 0, 'switches': 0, 'simt': 0.0, 'per': {},
           'violations': [], 'harness': None, 'keys': {}, 'samples': [], 'faulted': 0, 'timeout': False}
    wbase = os.path.join(base, 'w%02d' % w)
    os.makedirs(wbase)
    for k in range(w, len(plan), nw):
        if os.path.exists(stopfile):
            break
        if REAL['time']() > deadline:
            res['timeout'] = True
            break
        scen, i = plan[k]
        fn = mod.SCENARIOS[scen][0]
        s = run_seed(prop, scen, seed, i)
        params = {'tier': tier, 'index': i}
        o = execute(fn, params, Decisions(seed=s), wbase, capsules)
        res['runs'] += 1
        res['per'][scen] = res['per'].get(scen, 0) + 1
        res['hashes'].setdefault(o['hash'], 0)
        res['hashes'][o['hash']] += 1
        dk = hashlib.sha256(json.dumps([scen, o['decisions'], o['hash']]).encode()).hexdigest()[:16]
        res['dists'][dk] = 1
        if o['key'] is not None:
            res['keys'][str(o['key'])] = res['keys'].get(str(o['key']), 0) + 1
        for a in ('fired', 'probes'):
            for kk, v in o[a].items():
                res[a][kk] = res[a].get(kk, 0) + v
        if o['fired']:
            res['faulted'] += 1
        res['steps'] += o['steps']
        res['switches'] += o['switches']
        res['simt'] += o['simt']
        if len(res['samples']) < 2:
            res['samples'].append({'scenario': scen, 'seed': s, 'log_hash': o['hash'], 'first_events': o['sample'],
                                   'faults': o['fired']})
        if o['harness'] is not None:
            res['harness'] = 'scenario %s index %d seed %d\n%s' % (scen, i, s, o['harness'])
            open(stopfile, 'w').close()
            break
        if o['violation'] is not None:
            cls = o['violation']['cls']
            if cls == 'hang':
                best, tries, same = o['decisions'], 0, True
            else:
                best, tries, same = minimise(fn, params, o['decisions'], cls, wbase, capsules)
            if same and cls != 'hang':
                o2 = execute(fn, params, Decisions(replay=best), wbase, capsules)
            else:
                o2 = o
            res['violations'].append({'scenario': scen, 'index': i, 'seed': s, 'cls': cls,
                                      'msg': (o2['violation'] or o['violation'])['msg'], 'decisions': best,
                                      'original_length': len(o['decisions']), 'tries': tries, 'repeatable': same,
                                      'log_hash': o2['hash'], 'trace': o2['trace']})
            open(stopfile, 'w').close()
            break
    with open(outfile, 'w') as f:
        json.dump(res, f)
    sys.stdout = sys.__stdout__


def load_known(prop):
    """known findings: lines 'known: property=P01 class=<cls> match=<substring> <text>'"""
    out = []
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.isfile(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                parts = line.split(None, 3)
                out.append({'cls': parts[2].split('=', 1)[1], 'text': parts[3] if len(parts) > 3 else ''})
    return out


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--scenario')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--hashes', help='write the event-log hash of every run to this file')
    ap.add_argument('--trace', action='store_true')
    ap.add_argument('--reverse', action='store_true', help='with --hashes: the runs in reverse order')
    a = ap.parse_args(argv)
    t0 = REAL['time']()
    base = os.path.join(scratch_base(), 'vsim-%s-%08d' % (a.prop, os.getpid()))
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    try:
        return _main(a, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _main(a, base, t0):
    import logging
    import importlib
    os.environ['MPLCONFIGDIR'] = os.path.join(base, 'mpl')
    os.makedirs(os.environ['MPLCONFIGDIR'])
    os.environ['XDG_CACHE_HOME'] = os.path.join(base, 'cache')
    os.environ['ASTROPY_CACHE_DIR'] = os.path.join(base, 'cache')
    os.makedirs(os.environ['XDG_CACHE_HOME'])
    from . import seams
    seams.install()
    import warnings
    warnings.simplefilter('ignore')
    prop = a.prop
    try:
        import redmapper
    except Exception:
        # the package cannot even be imported: report against the property
        traceback.print_exc()
        print("VIOLATION property=%s replay=%s" % (prop, write_replay(prop, {'cls': 'import', 'msg': 'redmapper cannot be imported'})))
        return 1
    logging.disable(logging.CRITICAL)
    from .capsule import Capsules
    from . import common
    mod = importlib.import_module('sim.props.%s' % prop.lower())
    capsules = Capsules('redmapper')
    gc.disable()
    shared = os.path.join(base, 'shared')
    os.makedirs(shared)
    common.CTX.setup(base, shared, capsules)
    out0 = sys.stdout
    try:
        sys.stdout = open(os.devnull, 'w')
        if hasattr(mod, 'prepare'):
            mod.prepare(common.CTX)
    except HarnessError:
        sys.stdout = out0
        traceback.print_exc()
        return 2
    except Exception as e:
        sys.stdout = out0
        if not isinstance(e, Violation):
            # the code under test fails on the reference inputs
            e = Violation('prepare:%s' % type(e).__name__, traceback.format_exc()[-3000:])
        print("violation while preparing: %s" % e)
        fn = write_replay(prop, {'cls': e.cls, 'msg': e.msg, 'scenario': 'prepare', 'decisions': []})
        write_evidence(mod, prop, a.tier, a.seed, t0, None, [{'cls': e.cls, 'msg': e.msg}])
        print("VIOLATION property=%s replay=%s" % (prop, fn))
        return 1
    finally:
        sys.stdout = out0
    if a.replay:
        return do_replay(a, mod, prop, base, capsules)
    plan = schedule(mod, a.tier)
    if a.scenario:
        plan = [x for x in plan if x[0] == a.scenario]
    if a.runs:
        plan = plan[:a.runs]
    cap = getattr(mod, 'WALL', {}).get(a.tier, 240 if a.tier == 'quick' else 3000)
    deadline = t0 + cap
    nw = max(1, a.workers)
    if a.hashes:
        lines = []
        for scen, i in (reversed(plan) if a.reverse else plan):
            s = run_seed(prop, scen, a.seed, i)
            out0 = sys.stdout
            sys.stdout = open(os.devnull, 'w')
            o = execute(mod.SCENARIOS[scen][0], {'tier': a.tier, 'index': i}, Decisions(seed=s), base, capsules)
            sys.stdout = out0
            lines.append('%s %d %s %s %s' % (scen, i, o['hash'], len(o['decisions']), (o['violation'] or {}).get('cls')))
        with open(a.hashes, 'w') as f:
            f.write('\n'.join(sorted(lines)) + '\n')
        return 0
    stopfile = os.path.join(base, 'stop')
    pids = []
    for w in range(nw):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                worker(mod, prop, a.tier, a.seed, plan, w, nw, base, capsules,
                       os.path.join(base, 'res%02d.json' % w), deadline, stopfile)
            except BaseException:
                with open(os.path.join(base, 'err%02d' % w), 'w') as f:
                    f.write(traceback.format_exc())
                code = 3
            os._exit(code)
        pids.append(pid)
    died = []
    for w, pid in enumerate(pids):
        _, st = os.waitpid(pid, 0)
        if st != 0:
            died.append((w, st))
    tot = {'runs': 0, 'hashes': {}, 'dists': {}, 'fired': {}, 'probes': {}, 'steps': 0, 'switches': 0, 'simt': 0.0, 'per': {},
           'violations': [], 'harness': [], 'keys': {}, 'samples': [], 'faulted': 0, 'timeout': False}
    for w in range(nw):
        fn = os.path.join(base, 'res%02d.json' % w)
        if not os.path.isfile(fn):
            continue
        r = json.load(open(fn))
        for k in ('runs', 'steps', 'switches', 'simt', 'faulted'):
            tot[k] += r[k]
        for k in ('hashes', 'dists', 'fired', 'probes', 'per', 'keys'):
            for kk, v in r[k].items():
                tot[k][kk] = tot[k].get(kk, 0) + v
        tot['violations'] += r['violations']
        tot['samples'] += r['samples']
        tot['timeout'] = tot['timeout'] or r['timeout']
        if r['harness']:
            tot['harness'].append(r['harness'])
    known = load_known(prop)
    known_cls = set(k['cls'] for k in known)
    viol = [v for v in tot['violations'] if v['cls'] not in known_cls]
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k['text']))
    write_evidence(mod, prop, a.tier, a.seed, t0, tot, viol)
    rate = tot['runs'] / max(1e-9, REAL['time']() - t0)
    print("%s %s: %d simulated runs (%s), %d distinct event logs, %d steps, %d switches, %.0f simulated s, faults %s, %.1f s wall, %.0f runs/h"
          % (prop, a.tier, tot['runs'], tot['per'], len(tot['hashes']), tot['steps'], tot['switches'], tot['simt'],
             tot['fired'], REAL['time']() - t0, rate * 3600))
    if viol:
        viol.sort(key=lambda v: (v['scenario'], v['index']))
        for v in viol[:3]:
            fn = write_replay(prop, v, a.tier)
            print("violation class %s (scenario %s seed %d): %s" % (v['cls'], v['scenario'], v['seed'], v['msg'][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, fn))
        return 1
    if tot['harness'] or died:
        for h in tot['harness']:
            sys.stderr.write(h + '\n')
        for w, st in died:
            fn = os.path.join(base, 'err%02d' % w)
            sys.stderr.write('worker %d died with status %d\n%s\n' % (w, st, open(fn).read() if os.path.isfile(fn) else ''))
        return 2
    if tot['runs'] == 0:
        sys.stderr.write('no simulated run was executed\n')
        return 2
    return 0


def write_replay(prop, v, tier='quick'):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    v = dict(v)
    v['property'] = prop
    v['tier'] = tier
    name = '%s_%s_%s.json' % (prop, v.get('scenario', 'x'),
                              hashlib.sha256(json.dumps(v.get('decisions', []), sort_keys=True).encode()).hexdigest()[:10])
    fn = os.path.join(d, name)
    with open(fn, 'w') as f:
        json.dump(v, f, indent=1)
    return fn


def do_replay(a, mod, prop, base, capsules):
    v = json.load(open(a.replay))
    if v.get('scenario') in (None, 'prepare'):
        print("not reproduced: preparation succeeded")
        return 0
    fn = mod.SCENARIOS[v['scenario']][0]
    out0 = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    o = execute(fn, {'tier': v.get('tier', 'quick'), 'index': v['index']}, Decisions(replay=v['decisions']), base, capsules)
    sys.stdout = out0
    if a.trace:
        for e in o['trace']:
            print('  ', e)
    if o['harness']:
        sys.stderr.write(o['harness'])
        return 2
    if o['violation'] is None:
        print("not reproduced")
        return 0
    same = o['violation']['cls'] == v['cls'] and o['hash'] == v['log_hash']
    print("reproduced %s: %s (event log %s)" % ('exactly' if same else 'differently', o['violation'], o['hash']))
    print("VIOLATION property=%s replay=%s" % (prop, a.replay))
    return 1


def write_evidence(mod, prop, tier, seed, t0, tot, viol):
    wall = REAL['time']() - t0
    fn = os.path.join(VERIF, 'evidence', '%s.json' % prop)
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    t = tot or {'runs': 0, 'hashes': {}, 'dists': {}, 'fired': {}, 'probes': {}, 'steps': 0, 'switches': 0, 'simt': 0.0, 'per': {},
                'keys': {}, 'samples': [], 'faulted': 0, 'timeout': False}
    ev = {'property': prop, 'tier': tier, 'seed': int(seed), 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': {
              'evaluations': t['runs'],
              'distinct_nontrivial': len(t['dists']),
              'distinct_event_logs': len(t['hashes']),
              'rule': 'distinct = different (list of decisions drawn: inputs, schedule, faults; and event log) of a simulated run; distinct_event_logs counts different '
                      'SHA-256 of the event log alone (process, operation, path, in order); every counted run performed at least one file-system or scheduling operation of the code under test',
              'samples': t['samples'][:6],
              'runs_per_hour': round(t['runs'] / max(wall, 1e-9) * 3600),
              'simulated_seconds': round(t['simt'], 1),
              'operation_points': t['steps'],
              'context_switches': t['switches'],
              'faults_injected': t['fired'],
              'runs_with_a_fault': t['faulted'],
              'probes': t['probes'],
              'scenarios': t['per'],
              'workload_keys': len(t['keys']),
              'stopped_by_wall_limit': t['timeout'],
              'real_components': getattr(mod, 'REAL', []),
              'stubbed_components': getattr(mod, 'STUBS', []),
          },
          'assumptions': getattr(mod, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS,
          'wall_s': round(wall, 2),
          'violations': len(viol)}
    if viol:
        ev['coverage']['violation_details'] = [{'cls': v['cls'], 'msg': v['msg'][:400]} for v in viol]
    with open(fn, 'w') as f:
        json.dump(ev, f, indent=1)


COMMON_ASSUMPTIONS = [
    'a crash is a process kill: writes already handed to the operating system survive, a write in progress may be torn at 2880-byte blocks; power loss is not modelled',
    'rename, link and exclusive create are atomic, as POSIX local file systems provide',
    'context switches happen at file-system, sleep and pool operation points, which are the only ways simulated processes can affect each other',
]
