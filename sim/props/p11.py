"""P11: interrupted and repeated consolidations."""
import os
import shutil

import numpy as np
import fitsio

from ..common import check, fail, tb, must_finish, rows_equal, diff_rows, file_hash, CTX
from .. import consgen
from ..seams import _o, x_exists, x_isdir
from . import p10

REAL = p10.REAL
STUBS = p10.STUBS
ASSUMPTIONS = p10.ASSUMPTIONS + ['a completed write survives a kill (no power loss)']


def prepare(ctx):
    p10.patch_plots()


def inputs(w):
    out = {}
    for f in sorted(_o['listdir'](w['dir'])):
        fn = os.path.join(w['dir'], f)
        if os.path.isfile(fn):
            out[f] = file_hash(fn)
    return out


def outputs(w, before):
    out = {}
    for f in sorted(_o['listdir'](w['dir'])):
        fn = os.path.join(w['dir'], f)
        if os.path.isfile(fn) and f not in before and f.endswith('.fit') and not f.startswith('.'):
            out[f] = consgen.read(fn)
    return out


def move(w, root0, root1):
    """The same work in another directory tree."""
    w2 = dict(w)
    w2['dir'] = w['dir'].replace(root0, root1, 1)
    w2['cfg'] = w['cfg'].replace(root0, root1, 1)
    return w2


def relocate(root0, root1, w):
    for f in _o['listdir'](root0):
        if f == 'tmp':
            continue
        shutil.copytree(root0 + '/' + f, root1 + '/' + f) if os.path.isdir(root0 + '/' + f) else shutil.copy(root0 + '/' + f, root1 + '/' + f)
    w2 = move(w, root0, root1)
    s = open(w2['cfg']).read().replace(root0, root1)
    open(w2['cfg'], 'w').write(s)
    return w2


def task(w, kind, opts):
    def run():
        if kind == 'final':
            from redmapper.pipeline import RedmapperConsolidateTask
            RedmapperConsolidateTask(w['cfg']).run(do_plots=w['plots'], match_spec=w['spec'])
        elif kind == 'runcat':
            from redmapper.pipeline import RuncatConsolidateTask
            RuncatConsolidateTask(w['cfg']).run(do_plots=w['plots'], match_spec=w['spec'], cattype='runcat')
        else:
            from redmapper import Configuration, RedmapperRun
            c = Configuration(w['cfg'])
            c.calib_run_nproc = opts['nproc']
            c.calib_run_min_nside = w['nside']
            if opts['nproc'] == 1:
                c.d.nside = w['nside']
            c.catfile = 'x'
            RedmapperRun(c).run(consolidate_like=opts['like'], check=opts['check'])
    return run


def scenario(kind):
    def fn(env):
        d = env.d
        w = p10.build(env, env.root, kind)
        opts = {'nproc': 1 + d.choose(2), 'like': d.choose(2) == 1, 'check': True}
        if kind == 'runcat':
            for i, (c, m) in enumerate(zip(w['cats'], w['mems'])):
                c['mem_match_id'] += 1000 * i
                m['mem_match_id'] += 1000 * i
        if kind == 'multi':
            if not p10.base_keep(w, lambda c: c['lambda'] / c['scaleval'] > 3.0):
                return
            for n in ('firstpass', 'like', 'final'):
                for i in range(len(w['pix'])):
                    f = p10.pixname(w, i, n)
                    fitsio.write(f, w['cats'][i])
                    if n == 'final':
                        fitsio.write(f[:-4] + '_members.fit', w['mems'][i])
        else:
            p10.lay(w, 'final' if kind == 'final' else 'runcat', range(len(w['pix'])))
        before = inputs(w)
        # an undisturbed consolidation of the same files
        ref = env.subroot('ref')
        w2 = relocate(env.root, ref, w)
        s0 = env.dry(ref)
        p = s0.spawn('cons', task(w2, kind, opts))
        s0.run()
        must_finish([p], 'consolidation')
        want = outputs(w2, before)
        # attempts, disturbed
        npat = 1 + d.choose(3)
        for att in range(npat):
            faults = env.plan(s0.counters, ('crash', 'crash', 'enospc', 'eio', 'eio_r'), classes=('pub', 'w', 'any', 'r'))
            sim = env.sim()
            sim.arm(faults)
            p = sim.spawn('cons%d' % att, task(w, kind, opts))
            sim.run()
            for f, h in before.items():
                check(x_exists(os.path.join(w['dir'], f)) and file_hash(os.path.join(w['dir'], f)) == h, 'input-changed', 'pixel file %s was modified' % f)
            hit = sim.fault_hits
            if p.killed:
                continue
            if hit and p.exc is None and hit[0][0] in ('eio', 'enospc', 'eio_r') and hit[0][1] not in ('unlink', 'mkdir', 'stat', 'list'):
                # reported as success: then everything must be right
                compare(w, before, want, 'after a consolidation that met %s and reported success' % (hit[0],))
            elif not hit:
                must_finish([p], 'consolidation')
                compare(w, before, want, 'undisturbed consolidation')
        # finally an undisturbed one
        sim = env.sim(preempt=0.0)
        p = sim.spawn('last', task(w, kind, opts))
        sim.run()
        must_finish([p], 'repeated consolidation')
        compare(w, before, want, 'repeated consolidation')
        for f, h in before.items():
            check(file_hash(os.path.join(w['dir'], f)) == h, 'input-changed', 'pixel file %s was modified' % f)
        env.key = (kind, len(w['pix']), npat)
    return fn


def compare(w, before, want, label):
    try:
        got = outputs(w, before)
    except Exception as e:
        fail('unreadable', '%s: an output cannot be read: %s' % (label, e))
    check(sorted(got) == sorted(want), 'files', '%s: files %s instead of %s' % (label, sorted(got), sorted(want)))
    for f in want:
        check(rows_equal(got[f], want[f]), 'rows', '%s: %s: %s' % (label, f, diff_rows(got[f], want[f])))


SCENARIOS = {'final': (scenario('final'), (700, 20000)), 'runcat': (scenario('runcat'), (300, 8000)), 'multi': (scenario('multi'), (400, 10000))}

LEVEL_NOTE = 'Seeded search over crash, torn-write, disk-full and I/O-error points in repeated consolidations of generated pixel catalogs; compared row by row with an undisturbed consolidation. Sampled.'
