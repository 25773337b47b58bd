"""P22: the whole distributed workflow, as the command-line scripts run it."""
import glob
import os
import re
import shlex
import subprocess
import sys
import types

import argparse
import numpy as np
import fitsio
import hpgeom as hpg
import yaml

from ..common import check, fail, tb, must_finish, quiet, CTX, rows_equal, diff_rows
from ..harness import REPO
from ..kernel import current_proc
from .. import minicfg, stubrun, survey, consgen, zredworld as zw
from . import p09, p10

REAL = ['bin/redmapper_batch.py', 'bin/redmapper_run_*_pixel.py, redmapper_runcat_pixel.py', 'bin/redmapper_consolidate_run.py, redmapper_consolidate_runcat.py',
        'redmapper.parsl_templates', 'redmapper.pipeline tasks', 'redmapper.mask.gen_maskgals', 'redmapper.Configuration', 'the zred computation', 'CFITSIO', 'bash (evaluates the job file)']
STUBS = ['numerical work of a cluster-finder stage replaced by catalogs drawn from a digest of everything the stage was given',
         'the batch system: every element of the job array is one simulated process', 'parsl (records the commands)', 'healpy (two functions, by hpgeom) where it is not installed', 'diagnostic plots']
ASSUMPTIONS = ['jobs are not finer than the pixels of the galaxy table', 'fewer than ten submissions of a run']

MODES = {0: ('find', 'redmapper_run_redmapper_pixel.py', 'run'), 1: ('zred', 'redmapper_run_zred_pixel.py', 'zred'), 2: ('runcat', 'redmapper_runcat_pixel.py', 'runcat'),
         3: ('zmask', 'redmapper_run_zmask_pixel.py', 'zmask'), 4: ('zscan', 'redmapper_run_zscan_pixel.py', 'zscan')}


def prepare(ctx):
    zw.prepare(ctx)
    stubrun.install_switch()
    stubrun.MODE[0] = 'stub'
    p10.patch_plots()
    try:
        import healpy
    except ImportError:
        h = types.ModuleType('healpy')
        h.pix2ang = lambda nside, pix, nest=False, lonlat=False: hpg.pixel_to_angle(int(nside), pix, nest=nest, lonlat=lonlat)
        h.ang2pix = lambda nside, a, b, nest=False, lonlat=False: hpg.angle_to_pixel(int(nside), a, b, nest=nest, lonlat=lonlat)
        sys.modules['healpy'] = h
    if not getattr(argparse.ArgumentParser, '_sim', False):
        orig = argparse.ArgumentParser.parse_args

        def parse_args(self, args=None, namespace=None):
            p = current_proc()
            if args is None and p is not None and getattr(p, 'argv', None) is not None:
                args = p.argv
            return orig(self, args, namespace)
        argparse.ArgumentParser.parse_args = parse_args
        argparse.ArgumentParser._sim = True
    ctx.data['code'] = {}
    for f in sorted(os.listdir(os.path.join(REPO, 'bin'))):
        if f.endswith('.py'):
            with open(os.path.join(REPO, 'bin', f)) as h:
                src = h.read()
            ctx.data['code'][f] = src


_compiled = {}


def script(name, args):
    """The body of a process that runs a command-line script."""
    src = CTX.data['code'].get(name)
    check(src is not None, 'command', 'a job calls %r, which is not a command of redmapper' % name)
    if name not in _compiled:
        _compiled[name] = compile(src, name, 'exec')

    def run():
        p = current_proc()
        p.argv = [str(a) for a in args]
        try:
            exec(_compiled[name], {'__name__': '__main__', '__file__': name})
        except SystemExit as e:
            if e.code not in (None, 0):
                raise RuntimeError('exit status %s' % e.code)
    return run


def lsf_commands(text):
    """What the elements of a job array run: bash evaluates the file."""
    m = re.search(r'^#BSUB\s+-J\s+(\S+)\[(\d+)-(\d+)\]', text, re.M)
    check(m is not None, 'jobfile', 'no job array in the job file')
    out = []
    lo, hi = int(m.group(2)), int(m.group(3))
    pre = 'PATH=/nonexistent\ncommand_not_found_handle() { printf "CMD"; printf "\\t%s" "$@"; printf "\\n"; }\n'
    body = pre + '\n'.join('(LSB_JOBINDEX=%d\n%s\n)\nprintf "END\\n"' % (k, text) for k in range(lo, hi + 1))
    r = subprocess.run(['/bin/bash', '--norc', '-s'], input=body.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={})
    for part in r.stdout.decode().split('END\n')[:-1]:
        cmds = [x.split('\t')[1:] for x in part.splitlines() if x.startswith('CMD')]
        cmds = [c for c in cmds if c and c[0] != 'setup_env']
        check(len(cmds) == 1, 'jobfile', 'an element of the job array runs %d commands' % len(cmds))
        out.append(cmds[0])
    check(len(out) == hi - lo + 1, 'jobfile', 'the job file does not run: %s' % r.stderr.decode()[-300:])
    return out


def parsl_commands(text):
    out = []

    class Any(object):
        def __init__(self, *a, **k):
            pass

        def __call__(self, *a, **k):
            return self

        def __getattr__(self, n):
            return Any()

        def result(self):
            return None
    mods = {}
    for n in ('parsl', 'parsl.executors', 'parsl.providers', 'parsl.addresses', 'parsl.utils', 'parsl.launchers', 'parsl.config'):
        m = types.ModuleType(n)
        m.__getattr__ = lambda k: Any()
        m.__path__ = []
        mods[n] = m

    def bash_app(**kw):
        def deco(f):
            def call(*a, **k):
                c = shlex.split(f(*a, **k))
                if c and c[0] == 'shifter':
                    # in a container: the shell runs the last command
                    c = shlex.split(c[-1].split('&&')[-1])
                out.append(c)
                return Any()
            return call
        return deco
    mods['parsl'].bash_app = bash_app
    mods['parsl'].config = mods['parsl.config']
    old = {n: sys.modules.get(n) for n in mods}
    sys.modules.update(mods)
    try:
        exec(compile(text, 'job', 'exec'), {'__name__': '__main__'})
    finally:
        for n, m in old.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
    return out


def options(cmd):
    """The command line of a job as the script sees it."""
    ap = argparse.ArgumentParser()
    for s, l in (('-c', '--configfile'), ('-p', '--pixel'), ('-n', '--nside'), ('-d', '--path')):
        ap.add_argument(s, l)
    try:
        return ap.parse_args(cmd[1:])
    except SystemExit:
        fail('command', 'malformed command %s' % cmd)


class World(object):
    def __init__(self, env, mode):
        d = env.d
        self.mode, self.kind = mode, MODES[mode][0]
        self.outbase = d.pick(('run', 'dr8_64_00011', 'my.cat'))
        self.batch = d.pick(('lsf', 'lsf', 'parsl'))
        self.nside = d.pick((None, 4, 2, 8, 16))
        eff = 8 if self.nside is None else self.nside
        if self.kind == 'zred':
            self.w = zw.lay_pixels(d, os.path.join(env.root, 'g'), env.root, sizes=(4, 1, 9, 2), many=5)
            if eff > self.w['nside']:
                self.nside = eff = self.w['nside']
            self.tab, self.pix = self.w['nside'], self.w['pix']
        else:
            rng = d.sub_rng()
            self.tab = d.pick((64, 32, 16, 256))
            if self.tab == 256 and d.choose(2):
                # pixel numbers of six digits
                self.nside = eff = 128
            n = 1 + d.choose(12)
            npix = hpg.nside_to_npixel(self.tab)
            if d.choose(3) == 1:
                self.pix = sorted(rng.choice(npix, n, replace=False).tolist())
            else:
                near = hpg.query_circle(self.tab, d.pick((0.1, 140.0, 359.0)), d.pick((0.0, 65.0, -89.0)), 900.0 / self.tab, nest=False)
                self.pix = sorted(rng.choice(near, min(n, near.size), replace=False).tolist())
            if d.choose(4) == 1:
                rng.shuffle(self.pix)
            self.pix = [int(p) for p in self.pix]
        self.eff = eff
        ra, dec = hpg.pixel_to_angle(self.tab, np.array(self.pix), nest=False)
        self.jobs = sorted(set(int(x) for x in np.atleast_1d(hpg.angle_to_pixel(eff, ra, dec, nest=False))))
        self.lcuts = d.pick((None, ['5', '20'], ['10']))
        self.scale = d.choose(2) == 1
        self.perc = d.choose(2) == 1
        self.sub = d.pick(('out', 'a_64_00012_b/out', 'x-y'))
        self.maskgals = d.choose(2) == 1
        self.outstyle = d.pick(('abs', 'slash'))

    def outdir(self, root):
        return {'abs': os.path.join(root, self.sub), 'slash': os.path.join(root, self.sub) + '/'}[self.outstyle]

    def lay(self, root):
        if self.kind == 'zred':
            zdir = os.path.join(root, 'z')
            self.zf = os.path.join(zdir, self.w['base'] + '_zreds_master_table.fit')
            self.out = zdir
            return zw.cfg(self.w, os.path.join(root, 'c', 'c.yml'), self.zf, calib_nproc=1, outbase=self.outbase)
        gal = minicfg.galtable(os.path.join(root, 'g'), nside=self.tab, pix=self.pix)
        r = lambda n: os.path.join(root, n)
        for i, n in enumerate(('bkg.fit', 'par.fit', 'zl.fit', 'z_zreds_master_table.fit', 'cat.fit', 'rand_master_table.fit', 'seed.fit')):
            a = np.zeros(3, dtype=[('ra', 'f8'), ('x', 'i4')])
            a['x'] = i
            fitsio.write(r(n), a, extname='CHISQBKG', clobber=True)
            if n == 'bkg.fit':
                fitsio.write(r(n), a, extname='ZREDBKG')
        s = np.zeros(1, dtype=[('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('z_err', 'f4')])
        s['ra'], s['dec'], s['z'], s['z_err'] = 200.0, 0.0, 0.3, 1e-4
        fitsio.write(r('spec.fit'), s, clobber=True)
        self.specs = s
        if not self.maskgals:
            fitsio.write(r('maskgals.fit'), np.zeros(2, dtype=[('x', 'f4')]), header={'VERSION': 7}, clobber=True)
        # where the jobs put their files: the folder of the configuration
        self.out = r(self.sub)
        return minicfg.write(os.path.join(self.out, 'c.yml'), gal, outpath=self.outdir(root), outbase=self.outbase, bkgfile=r('bkg.fit'), parfile=r('par.fit'), zlambdafile=r('zl.fit'),
                             zredfile=r('z_zreds_master_table.fit'), catfile=r('cat.fit'), randfile=r('rand_master_table.fit'), seedfile=r('seed.fit'), specfile=r('spec.fit'),
                             maskgalfile=r('maskgals.fit'), maskgal_ngals=40, maskgal_nsamples=3, runcat_percolation_masking=self.perc,
                             consolidate_lambda_cuts=[5.0, 20.0], consolidate_vlim_lstars=[], select_scaleval=self.scale, percolation_minlambda=3.0, max_maskfrac=0.2)


def maskgals_ok(w, root):
    fn = os.path.join(root, 'maskgals.fit')
    if w.kind == 'zred' or not w.maskgals:
        return True
    if not os.path.exists(fn):
        return False
    a = fitsio.read(fn, ext=1, lower=True)
    check(len(a) == 120 and fitsio.read_header(fn, ext=1).get('VERSION') == 7, 'maskgals', 'the mask galaxies are incomplete: %d of 120' % len(a))
    return True


def workflow(env):
    d = env.d
    stubrun.reset()
    w = World(env, d.choose(5))
    work = os.path.join(env.root, 'work')
    os.makedirs(work)
    home = os.path.join(env.root, 'home')
    os.makedirs(home)
    bc = {'mine': {'batch': w.batch, 'setup': d.pick(('setup_env', '')), 'requirements': 'linux64'}}
    if w.batch == 'parsl':
        if d.choose(3) == 1:
            bc['mine'].update(parsl_provider='slurm', constraint='knl', qos='regular')
        if d.choose(3) == 1:
            bc['mine']['image'] = 'redmapper:v1'
    if d.choose(2):
        bc['other'] = {'batch': 'lsf' if w.batch == 'parsl' else 'parsl'}
    with open(os.path.join(home, '.redmapper_batch.yml'), 'w') as f:
        yaml.dump(bc, f)
    os.chdir(work)
    oldhome = os.environ.get('HOME')
    os.environ['HOME'] = home
    try:
        _workflow(env, d, w, work, bc)
    finally:
        if oldhome is None:
            os.environ.pop('HOME', None)
        else:
            os.environ['HOME'] = oldhome


def _workflow(env, d, w, work, bc):
    if w.kind != 'zred':
        for p in w.jobs[1:]:
            if d.choose(8) == 7 and w.kind == 'find':
                stubrun.EMPTY[(w.eff, p)] = d.pick(tuple(s for s, _ in p09.STAGES[w.kind]))
        stubrun.KEEP.add((w.eff, w.jobs[0]))
        refroot = env.subroot('ref')
        fr = w.lay(refroot)
        ref = p09_alone(env, w, refroot, fr)
        del stubrun.RUNS[:]
    fn = w.lay(env.root)
    os.makedirs(w.out, exist_ok=True)
    cfgbytes = open(fn, 'rb').read()
    args = ['-c', fn, '-r', w.mode]
    if len(bc) > 1 or d.choose(2):
        args += ['-b', 'mine']
    if w.nside is not None:
        args += ['-n', w.nside]
    if d.choose(2):
        args += ['-w', 120]
    relative = d.choose(2) == 1
    if relative:
        args[1] = os.path.relpath(fn, work)
    ext = 'py' if w.batch == 'parsl' else 'job'
    seen = {}
    for rnd in range(4):
        last = rnd == 3
        # submission
        sim = env.sim(preempt=0.0)
        if not last and d.choose(4) == 1:
            sim.arm(env.plan({'any': 30, 'w': 4, 'pub': 3, 'fop': 8}, ('crash', 'enospc', 'eio'), classes=('pub', 'w', 'any', 'fop')))
        p = sim.spawn('submit', script('redmapper_batch.py', args))
        sim.run()
        ok = maskgals_ok(w, env.root)
        files = sorted(glob.glob(os.path.join(work, 'jobs', '*.' + ext)))
        for f, b in seen.items():
            check(f in files and open(f, 'rb').read() == b, 'jobfile', 'an earlier job file was altered')
        new = [f for f in files if f not in seen]
        if not p.ok:
            check(sim.fault_hits, 'error', 'submission failed: %s' % (tb(p.exc) if p.exc else p))
            seen.update((f, open(f, 'rb').read()) for f in new)
            continue
        if w.kind != 'zred':
            check(ok, 'maskgals', 'the mask galaxies were not made')
        check(len(new) == 1, 'jobfile', 'submission made %d job files' % len(new))
        text = open(new[0]).read()
        seen[new[0]] = text.encode()
        cmds = lsf_commands(text) if w.batch == 'lsf' else parsl_commands(text)
        opt = [options(c) for c in cmds]
        got = sorted(int(o.pixel) for o in opt)
        check(got == w.jobs, 'coverage', 'jobs for pixels %s; the galaxies need %s at nside %d' % (got, w.jobs, w.eff))
        # the elements of the job array
        sim = env.sim()
        if not last and d.choose(3):
            n = 12 * len(cmds)
            sim.arm(env.plan({'any': 40 * len(cmds), 'w': n, 'pub': n // 2, 'task': 3 * len(cmds)}, ('crash', 'crash', 'enospc', 'eio'), classes=('pub', 'w', 'any', 'task')))
        ps = [sim.spawn('job%d' % k, script(c[0], c[1:])) for k, c in enumerate(cmds)]
        sim.run()
        done = all(p.ok for p in ps)
        for p in ps:
            if p.exc is not None:
                check(sim.fault_hits, 'error', 'job failed although nothing went wrong: %s' % tb(p.exc))
        if w.kind == 'zred':
            for f in glob.glob(os.path.join(w.out, '*.lock')):
                if sim.fault_hits:
                    os.unlink(f)
        if done and not sim.fault_hits:
            break
    check(done, 'error', 'the last submission did not finish')
    check(open(fn, 'rb').read() == cfgbytes, 'config', 'the configuration file was altered')
    env.key = (w.kind, w.batch, w.tab, w.eff, len(w.jobs), relative)
    if w.kind == 'zred':
        check(os.path.exists(w.zf), 'missing', 'all jobs finished but there is no zred table')
        zw.check_table(w.zf, w.w, w.w['pix'])
        return
    have = {f: a for f, a in p09.tables(w.out).items() if '_redmapper_v' not in f}
    p09.compare(have, ref)
    if w.kind == 'zscan':
        return
    # consolidation
    pre = p09.raw(w.out)
    if w.kind == 'find':
        cargs = ['-c', fn] + (['-l'] + w.lcuts if w.lcuts else [])
        cmd = 'redmapper_consolidate_run.py'
    else:
        cargs = ['-c', fn] + (['-r'] if w.kind == 'zmask' else [])
        cmd = 'redmapper_consolidate_runcat.py'
    for rnd in range(2):
        sim = env.sim(preempt=0.0)
        if rnd == 0 and d.choose(2):
            sim.arm(env.plan({'any': 20 * len(w.jobs), 'w': 6 * len(w.jobs), 'pub': 4, 'r': 6 * len(w.jobs)}, ('crash', 'enospc', 'eio', 'eio_r'), classes=('pub', 'w', 'any')))
        p = sim.spawn('cons', script(cmd, cargs))
        sim.run()
        if p.ok:
            break
        check(sim.fault_hits, 'error', 'consolidation failed: %s' % (tb(p.exc) if p.exc else p))
    must_finish([p], 'consolidation')
    after = p09.raw(w.out)
    for f, b in pre.items():
        check(after.get(f) == b, 'input', 'consolidation altered %s' % f)
    v = {'nside': w.eff, 'pix': [], 'cats': [], 'mems': [], 'dir': w.out, 'outbase': w.outbase, 'vl': [], 'scale': w.scale, 'spec': True, 'specs': w.specs,
         'lcuts': [float(x) for x in w.lcuts] if w.lcuts else [5.0, 20.0]}
    ft = p09.STAGES[w.kind][-1][1]
    for q in w.jobs:
        b = '%s_%d_%05d_%s_catalog' % (w.outbase, w.eff, q, ft)
        if b + '.fit' in ref:
            v['pix'].append(q)
            v['cats'].append(ref[b + '.fit'])
            v['mems'].append(ref.get(b + '_members.fit'))
    if w.kind == 'find':
        p10.check_final(v)
        return
    # richness runs and randoms keep everything inside their pixel
    keep, mem = [], []
    for q, c, m in zip(v['pix'], v['cats'], v['mems']):
        ip = hpg.angle_to_pixel(w.eff, c['ra'], c['dec'], nest=False)
        use = ip == q
        keep += c['tag'][use].tolist()
        if m is not None:
            mem += m['tag'][np.isin(m['mem_match_id'], c['mem_match_id'][use])].tolist()
    cons = [f for f in after if '_redmapper_v' in f and f not in pre]
    cats = [f for f in cons if not f.endswith('_members.fit')]
    check(len(cats) == 1, 'missing', 'consolidation made %s' % cons)
    a = consgen.read(os.path.join(w.out, cats[0]))
    check(sorted(a['tag'].tolist()) == sorted(keep), 'rows', 'the consolidated catalog holds %d of %d rows' % (len(a), len(keep)))
    if w.kind == 'runcat':
        mf = [f for f in cons if f.endswith('_members.fit')]
        check(len(mf) == 1, 'missing', 'no consolidated members')
        a = consgen.read(os.path.join(w.out, mf[0]))
        check(sorted(a['tag'].tolist()) == sorted(mem), 'rows', 'the consolidated members hold %d of %d rows' % (len(a), len(mem)))


def p09_alone(env, w, root, fn):
    """Every pixel by itself; outputs go where the jobs' outputs go."""
    os.makedirs(w.out, exist_ok=True)
    y = yaml.safe_load(open(fn))
    y['outpath'] = w.out
    with open(fn, 'w') as f:
        yaml.dump(y, f)
    js = [(w.kind, w.eff, p) for p in w.jobs]
    from redmapper import Configuration
    cl = p09.classes()

    def one(kind, nside, px):
        def run():
            c = Configuration(fn)
            c.border = c.compute_border()
            c.d.hpix, c.d.nside, c.d.outbase = [px], nside, p09.base(c.outbase, nside, px)
            for cls, ft in p09.STAGES[kind]:
                s = cl[cls](c)
                if kind == 'runcat':
                    s.run(do_percolation_masking=c.runcat_percolation_masking)
                else:
                    s.run()
                if s.cat is None or (kind == 'find' and s.cat.size == 0):
                    return
                s.output(savemembers=kind not in ('zmask',) and cls not in ('RunFirstPass', 'RunLikelihoods'), withversion=False, clobber=True)
                if kind == 'find':
                    c.catfile = s.filename
        return run
    for j in js:
        s = env.dry(root)
        p = s.spawn('alone', one(*j))
        s.run()
        must_finish([p], 'reference')
    return p09.tables(w.out)


SCENARIOS = {'workflow': (workflow, (400, 8000))}
LEVEL_NOTE = 'Seeded search over run modes, batch systems, splits, survey layouts, schedules of the job array, kills and write errors during submission, jobs and consolidation, resubmissions; real scripts end to end, compared with each pixel run alone and a brute-force consolidation. Sampled.'
