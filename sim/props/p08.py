"""P08: killed multiprocess cluster runs, resumed."""
import os

import numpy as np
import fitsio

from ..common import check, fail, tb, must_finish, quiet, CTX
from .. import stubrun, runworld, survey
from ..seams import _o

REAL = ['redmapper.redmapper_run.RedmapperRun', 'stage classes: construction, file names, output()', 'redmapper.catalog save path',
        'redmapper.configuration.Configuration', 'CFITSIO', 'scenario real: the full numerical stages']
STUBS = ['scenarios resume, recompute: numerical work of a stage replaced by catalogs drawn from a digest of everything the stage was given',
         'numpy random draws pinned per stage and pixel', 'multiprocessing pool on simulated processes']
ASSUMPTIONS = ['Monte-Carlo draws (mask galaxy samples) are held fixed per stage and pixel', 'a kill ends the whole job, parent and workers']


def prepare(ctx):
    survey.prepare(ctx)
    survey.references(ctx)


NAME = {'RunFirstPass': 'firstpass', 'RunLikelihoods': 'like', 'RunPercolation': 'final'}


def listing(out):
    r = {}
    for f in sorted(_o['listdir'](out)) if 'listdir' in _o else sorted(os.listdir(out)):
        if f.endswith('.fit') and not f.startswith('.'):
            with _o['open'](os.path.join(out, f), 'rb') as h:
                r[f] = h.read()
    return r


def stage_file(w, cls, hp, ob):
    n = NAME[cls]
    if n == 'firstpass' and w['spec']:
        n = 'firstpass_spec'
    return '%s_%s_catalog.fit' % (ob, n)


def plan(env, counters):
    return env.plan(counters, ('crash', 'crash', 'crash', 'enospc', 'eio'), classes=('pub', 'pub', 'w', 'any', 'task'))


def resume(env):
    d = env.d
    w = runworld.draw(env, maxpix=4)
    nproc = 1 + d.choose(4)
    ref = runworld.alone(env, w, env.subroot('ref'), runworld.lay(w, os.path.join(env.base, 'ref'), 2))
    # an undisturbed run, for the operation counts and the consolidated reference
    whole = env.subroot('whole')
    fn = runworld.lay(w, whole, nproc)
    s0 = env.dry(whole)
    p = s0.spawn('run', runworld.go(w, whole, fn))
    s0.run()
    must_finish([p], 'undisturbed run')
    counters = dict(s0.counters)
    want = runworld.files(os.path.join(whole, 'out'), w['outbase'])
    fn = runworld.lay(w, env.root, nproc)
    out = os.path.join(env.root, 'out')
    rounds = 1 + d.choose(3)
    for k in range(rounds):
        sim = env.sim()
        sim.arm(plan(env, counters))
        attempt(env, w, sim, fn, out)
    sim = env.sim()
    p = attempt(env, w, sim, fn, out)
    must_finish([p], 'resumed run')
    got = runworld.files(out, w['outbase'])
    runworld.check_run(w, got, ref)
    for n in sorted(want):
        check(n in got, 'missing', '%s is missing after resuming' % n)
        from ..common import rows_equal, diff_rows
        if n.endswith('_members.fit') and n.startswith(w['outbase'] + '_final'):
            continue
        check(rows_equal(got[n], want[n]), 'resume', '%s differs from an uninterrupted run: %s' % (n, diff_rows(got[n], want[n])))
    # once complete, another start changes nothing and redoes nothing
    if d.choose(3) == 1:
        before = listing(out)
        del stubrun.RUNS[:]
        sim = env.sim()
        p = sim.spawn('again', runworld.go(w, env.root, fn))
        sim.run()
        must_finish([p], 'repeated run')
        redone = [r for r in stubrun.RUNS if stage_file(w, r[1], r[3], r[4]) in before]
        check(not redone, 'redone', 'a complete run was redone: %s' % redone[:2])
        check(listing(out) == before, 'changed', 'repeating a complete run changed its catalogs')
    env.key = (len(w['pix']), nproc, w['perc'], w['like'], rounds)


def attempt(env, w, sim, fn, out):
    """One start with checking on; finished stage outputs must not be redone."""
    there = listing(out)
    del stubrun.RUNS[:]
    p = sim.spawn('run', runworld.go(w, env.root, fn))
    sim.run()
    if not sim.fault_hits:
        must_finish([p], 'run')
    else:
        check(p.killed or p.exc is not None or p.ok, 'state', 'run neither ended nor failed')
        if p.exc is not None:
            check(isinstance(p.exc, OSError) or 'FITSIO' in repr(p.exc) or 'Errno' in repr(p.exc), 'error',
                  'after %s: %s' % (sim.fault_hits, tb(p.exc)))
    redone = [r for r in stubrun.RUNS if stage_file(w, r[1], r[3], r[4]) in there]
    check(not redone, 'redone', 'a stage whose output was present was redone: %s' % (redone[:2],))
    return p


def recompute(env):
    """With checking off everything is recomputed and replaced, also after kills."""
    d = env.d
    w = runworld.draw(env, maxpix=3)
    nproc = 1 + d.choose(3)
    fn = runworld.lay(w, env.root, nproc)
    out = os.path.join(env.root, 'out')
    old_empty = dict(stubrun.EMPTY)
    s0 = env.sim()
    p = s0.spawn('old', runworld.go(w, env.root, fn))
    s0.run()
    must_finish([p], 'first run')
    # other settings: everything must come from the new ones
    w2 = dict(w)
    w2['border'] = 0.5
    w2['minlam'] = d.pick((3.0, 10.0))
    ref = runworld.alone(env, w2, env.subroot('ref'), runworld.lay(w2, os.path.join(env.base, 'ref'), 2))
    fn = runworld.lay(w2, env.root, nproc)
    if d.choose(2):
        sim = env.sim()
        sim.arm(plan(env, dict(s0.counters)))
        p = sim.spawn('killed', runworld.go(w2, env.root, fn, check_on=False))
        sim.run()
        if not sim.fault_hits:
            must_finish([p], 'run')
    del stubrun.RUNS[:]
    sim = env.sim()
    p = sim.spawn('new', runworld.go(w2, env.root, fn, check_on=False))
    sim.run()
    must_finish([p], 'second run')
    got = runworld.files(out, w['outbase'])
    runworld.check_run(w2, got, ref)
    ran = set((r[1], r[3]) for r in stubrun.RUNS)
    first = 'RunPercolation' if w['perc'] else 'RunFirstPass'
    for px in w['pix']:
        check((first, (px,)) in ran, 'kept', 'pixel %d was not recomputed although checking was off' % px)
    env.key = ('re', len(w['pix']), nproc)


def real(env):
    """Full numerical stages: killed once or twice, resumed."""
    d = env.d
    stubrun.reset()
    stubrun.MODE[0] = 'real'
    try:
        mode = d.pick(('full', 'perc'))
        nproc = 1 + d.choose(4)
        fn = survey.layout(env.root, mode, nproc)
        n = {'full': {'pub': 15, 'w': 40, 'task': 8, 'any': 400}, 'perc': {'pub': 8, 'w': 20, 'task': 8, 'any': 200}}[mode]
        sim = env.sim()
        sim.arm(env.plan(n, ('crash',), classes=('pub', 'pub', 'w', 'any', 'task')))
        p = sim.spawn('run', survey.body(env.root, fn, mode))
        sim.run()
        sim = env.sim()
        p = sim.spawn('run', survey.body(env.root, fn, mode))
        sim.run()
        must_finish([p], 'resumed run')
        survey.check_products(survey.tables(os.path.join(env.root, 'out')), CTX.data['ref'][mode], CTX.data['survey']['outbase'])
        env.key = ('real', mode, nproc)
    finally:
        stubrun.MODE[0] = 'stub'


SCENARIOS = {'resume': (resume, (500, 12000)), 'recompute': (recompute, (150, 4000)), 'real': (real, (24, 500))}

LEVEL_NOTE = 'Seeded search over kill points (including torn writes), write errors, up to three interruptions, worker schedules and run options; results compared with each pixel run alone and with an uninterrupted run. Some runs use the full numerical stages. Sampled.'
