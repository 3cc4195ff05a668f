"""P03: a stopped and continued run equals the uninterrupted one."""
import glob
import itertools
import math
import os
import shutil
import tempfile
from fractions import Fraction
import numpy as np
from .common import require, require_equal, require_close, Violation, Scratch, quiet
from . import models
from .models import ref_loop, frac

RULE = ('all stopping points: clean stop at every export and abandonment (crash) after every time step, all sets of repeated '
        'interruptions, same/other output directory, all combinations of t/iteration/i_export overrides, with/without dates, '
        'step/interval pairs incl. non-multiples, explicit and implicit integrators; each case is compared with the uninterrupted run '
        'of the same code (fields, files, records) and with the exact reference schedule (times, numbers)')
ASSUMPTIONS = ['prognostic fields elev_2d and uv_2d (documented scope of load_state)',
               'the user sets time-dependent forcing to the restart time before continuing', 'one process']

PAIRS = {'quick': [(2.0, 4.0), (0.1, 0.1), (0.1, 0.3), (3.0, 10.0), (4.0, 6.0), (3.0, 1.0)],
         'thorough': [(2.0, 4.0), (0.1, 0.1), (0.1, 0.3), (0.7, 0.7), (3.0, 10.0), (4.0, 6.0), (3.0, 1.0), (5.0, 12.0), (0.3, 1.0)]}
STEPPERS = {'quick': ['SSPRK33', 'CrankNicolson'], 'thorough': ['SSPRK33', 'CrankNicolson', 'DIRK22', 'ForwardEuler', 'PressureProjectionPicard']}


def groups(tier):
    g = [{'kind': 'points', 'pair': i, 'stepper': st} for st in STEPPERS[tier] for i in range(len(PAIRS[tier]))]
    if tier == 'quick':
        # three of the pairs with each integrator
        g = [x for x in g if (x['stepper'] == 'CrankNicolson') == (x['pair'] in (0, 3, 5))]
    g += [{'kind': 'overrides', 'same': s} for s in (True, False)]
    g += [{'kind': 'nometa'}, {'kind': 'dates'}]
    return g


_mesh = None


def get_mesh(th):
    """The mesh as read from a checkpoint, as restarts require."""
    global _mesh
    if _mesh is None:
        m = models.rect(2, 1, 2000., 1000.)
        d = tempfile.mkdtemp(dir='.')
        os.makedirs(os.path.join(d, 'hdf5'))
        fn = os.path.join(d, 'hdf5', 'mesh.h5')
        with th.CheckpointFile(fn, 'w') as f:
            f.save_mesh(m)
        _mesh = th.read_mesh_from_checkpoint(d)
    return _mesh


class Run:
    """One process of the (possibly interrupted) simulation."""
    def __init__(self, th, out, dt, texp, end, stepper, date=None, enddate=None, **kw):
        self.th = th
        mesh = get_mesh(th)
        fam = 'dg-cg' if stepper == 'PressureProjectionPicard' else 'dg-dg'
        self.s = s = models.solver2d(mesh=mesh, dt=dt, texp=texp, end=end, out=out, stepper=stepper, no_exports=False,
                                     vtk=['elev_2d'], hdf5=['elev_2d', 'uv_2d'], element_family=fam, bath=20., **kw)
        self.bc = th.Constant(0.0)
        s.bnd_functions['shallow_water'] = {1: {'elev': self.bc}}
        if date is not None:
            s.options.simulation_initial_date = date
        if enddate is not None:
            s.options.simulation_end_date = enddate
        self.steps = []
        self.exports = []
        self.limit = 400
        run = self

        class TsDiag(th.DiagnosticCallback):
            name = 'tsdiag'
            variable_names = ['iteration', 'sum']

            def __call__(self):
                so = self.solver_obj
                run.steps.append((so.simulation_time, so.iteration))
                run.limit -= 1
                if run.limit < 0:
                    raise Violation('the continued run does not stop')
                return so.iteration, float(so.fields.elev_2d.dat.data_ro.sum())

            def message_str(self, *a):
                return ''

        class ExDiag(th.DiagnosticCallback):
            name = 'exdiag'
            variable_names = ['i_export', 'sum']

            def __call__(self):
                so = self.solver_obj
                run.exports.append((so.simulation_time, so.iteration, so.i_export))
                return so.i_export, float(so.fields.elev_2d.dat.data_ro.sum())

            def message_str(self, *a):
                return ''
        s.initialize()
        s.add_callback(TsDiag(s, append_to_log=False), eval_interval='timestep')
        s.add_callback(ExDiag(s, append_to_log=False), eval_interval='export')

    def forcing(self, t):
        self.bc.assign(0.5*math.sin(0.7*t + 0.2))

    def fresh(self):
        th = self.th
        xy = th.SpatialCoordinate(self.s.mesh2d)
        self.forcing(0.0)
        self.s.assign_initial_conditions(elev=0.3*th.cos(xy[0]/600.) + 0.01*xy[1]/1000, uv=th.as_vector((0.1*th.sin(xy[0]/500.), 0.02*xy[1]/1000)))

    def go(self, nsteps=None):
        if nsteps is None:
            self.s.iterate(update_forcings=self.forcing)
            return
        # abandoned after nsteps complete steps
        it = self.s.create_iterator(update_forcings=self.forcing)
        for _ in range(nsteps + 1):
            next(it)
        it.close()

    def fields(self):
        return {k: self.s.fields[k].dat.data_ro.copy() for k in ('elev_2d', 'uv_2d')}


def listing(out):
    r = []
    for root, _, files in os.walk(out):
        for f in files:
            p = os.path.relpath(os.path.join(root, f), out)
            if not p.endswith('.pvd') and 'bathymetry' not in p and not p.endswith('log'):
                r.append(p)
    return sorted(r)


def read_diag(out, name):
    import h5py
    with h5py.File(os.path.join(out, 'diagnostic_%s.hdf5' % name), 'r') as f:
        return {k: f[k][...].copy() for k in f}


def h5_values(fn):
    import h5py
    vals = {}
    with h5py.File(fn, 'r') as f:
        def visit(name, obj):
            if isinstance(obj, h5py.Dataset) and '/vecs/' in name and 'coordinates' not in name:
                vals[name.split('/vecs/')[1]] = obj[...].copy()
        f.visititems(visit)
        return f.attrs.get('time'), f.attrs.get('initial_time_iso'), vals


def run_group(group, rec):
    import thetis as th
    quiet()
    with Scratch():
        globals()['g_' + group['kind']](group, rec, th)


def compare_final(a, b, what, tol=1e-10):
    for k in a:
        require_close(b[k], a[k], what + ' ' + k, rtol=tol, atol=tol)


def compare_files(ref, out, tol=1e-10):
    require_equal(listing(out), listing(ref), 'files in the output directory')
    for p in listing(ref):
        if p.endswith('.h5') and 'hdf5' in p.split(os.sep)[0]:
            ta, da, va = h5_values(os.path.join(ref, p))
            tb, db, vb = h5_values(os.path.join(out, p))
            require_close([tb], [ta], 'time stamp of ' + p)
            require_equal(str(db), str(da), 'initial date in ' + p)
            require_equal(sorted(vb), sorted(va), 'contents of ' + p)
            for k in va:
                require_close(vb[k], va[k], 'values in ' + p, rtol=tol, atol=tol)


def compare_diags(ref, out, names=('tsdiag', 'exdiag'), tol=1e-9, skip=()):
    for n in names:
        a, b = read_diag(ref, n), read_diag(out, n)
        require_equal(sorted(b), sorted(a), 'variables of diagnostic ' + n)
        for k in a:
            if k in skip:
                continue
            require_close(b[k], a[k], 'records of diagnostic %s/%s' % (n, k), rtol=tol, atol=tol)


def g_points(group, rec, th):
    dt, texp = PAIRS[rec.tier][group['pair']]
    st = group['stepper']
    nexp = 4 if rec.tier == 'quick' else 5
    # end of the run: half a step after export nexp, so that the last step overshoots
    steps, exports = ref_loop(frac(dt), frac(texp), 10**6*frac(dt) if False else 60*frac(dt))
    n_end = exports[nexp][0]
    end = float(n_end*frac(dt) - frac(dt)/4) if group['pair'] % 2 else float(n_end*frac(dt))
    ref = os.path.join(tempfile.mkdtemp(dir='.'), 'ref')
    r = Run(th, ref, dt, texp, end, st)
    r.fresh()
    r.go()
    steps, exports = ref_loop(frac(dt), frac(texp), frac(end))
    refdata = dict(fields=r.fields(), steps=r.steps, exports=r.exports, dir=ref)
    # the reference run itself follows the schedule
    rec.check({'reference': group}, check_ref, refdata, steps, exports, rec)
    if rec.stop:
        return
    nsteps = len(steps)
    # every crash point (after j complete steps), restart from the last export
    for j in range(0, nsteps):
        rec.check(dict(crash_after=j, dt=dt, texp=texp, stepper=st), crash_case, th, dt, texp, end, st, [j], refdata, exports, False, rec)
    # every clean stop at an export
    for k in range(0, len(exports) - 1):
        rec.check(dict(stop_at=[k], dt=dt, texp=texp, stepper=st), crash_case, th, dt, texp, end, st, [k], refdata, exports, True, rec)
    # repeated interruptions: all increasing sequences of two or three stops
    for m in (2, 3):
        for ks in itertools.combinations(range(0, len(exports) - 1), m):
            rec.check(dict(stop_at=list(ks), dt=dt, texp=texp, stepper=st), crash_case, th, dt, texp, end, st, list(ks), refdata, exports, True, rec)
    # go back to an earlier export after the whole run has finished
    for k in range(0, len(exports) - 1):
        rec.check(dict(rerun_from=k, dt=dt, texp=texp, stepper=st), rerun_case, th, dt, texp, end, st, k, refdata, exports, rec)


def check_ref(refdata, steps, exports, rec):
    require_close([x[0] for x in refdata['steps']], [float(t) for t, _ in steps], 'step times')
    require_close([x[0] for x in refdata['exports']], [float(t) for _, t, _ in exports], 'export times')
    require_equal([x[2] for x in refdata['exports']], [i for _, _, i in exports], 'export numbers')
    rec.step(len(steps))


def continue_and_check(th, out, dt, texp, end, st, k, refdata, exports, rec, upto=None, date=None):
    """Continue from export k (to export upto or the end) and compare the part."""
    n0, t0, _ = exports[k]
    e = end if upto is None else float(exports[upto][1])
    r = Run(th, out, dt, texp, e, st)
    r.forcing(float(t0))
    r.s.load_state(k)
    require_close([r.s.simulation_time], [float(t0)], 'simulation time after loading export %d' % k)
    require_equal(r.s.i_export, k, 'export number after loading export %d' % k)
    n_exp = math.ceil(Fraction(k)*frac(texp)/frac(dt)) if texp >= dt else None
    if texp >= dt:
        require_equal(r.s.iteration, n_exp, 'iteration count after loading export %d' % k)
    r.go()
    last = exports[upto][0] if upto is not None else len(refdata['steps'])
    require_close([x[0] for x in r.steps], [x[0] for x in refdata['steps'][n0:last]], 'times of the steps continued from export %d' % k)
    if texp >= dt:
        require_equal([x[1] for x in r.steps], [x[1] for x in refdata['steps'][n0:last]], 'iteration counts continued from export %d' % k)
    want = [x for x in refdata['exports'] if x[2] > k and (upto is None or x[2] <= upto)]
    require_close([x[0] for x in r.exports], [x[0] for x in want], 'export times continued from export %d' % k)
    require_equal([x[2] for x in r.exports], [x[2] for x in want], 'export numbers continued from export %d' % k)
    rec.step(len(r.steps))
    rec.state(dt, texp, st, k, upto)
    return r


def crash_case(th, dt, texp, end, st, points, refdata, exports, clean, rec):
    out = os.path.join(tempfile.mkdtemp(dir='.'), 'run')
    try:
        if clean:
            ks = points
            if ks[0] == 0:
                # stopped right after the initial export: a single step taken and lost
                r = Run(th, out, dt, texp, end, st)
                r.fresh()
                r.go(0)
            else:
                r = Run(th, out, dt, texp, float(exports[ks[0]][1]), st)
                r.fresh()
                r.go()
            for a, b in zip(ks, list(ks[1:]) + [None]):
                r = continue_and_check(th, out, dt, texp, end, st, a, refdata, exports, rec, upto=b)
        else:
            j = points[0]
            r = Run(th, out, dt, texp, end, st)
            r.fresh()
            r.go(j)
            k = max(ix for n, t, ix in exports if n <= j)
            r = continue_and_check(th, out, dt, texp, end, st, k, refdata, exports, rec)
        compare_final(refdata['fields'], r.fields(), 'final state')
        compare_files(refdata['dir'], out)
        names = ['exdiag']
        if clean:
            names.append('tsdiag')
            if points[0] == 0:
                names.remove('tsdiag')   # no step was recorded before the stop: see below
                b = read_diag(out, 'tsdiag')
                require_close(b['time'], read_diag(refdata['dir'], 'tsdiag')['time'], 'records of diagnostic tsdiag')
        compare_diags(refdata['dir'], out, names, skip=() if texp >= dt else ('iteration',))
        if not clean:
            # records of steps that were taken before the crash are kept
            a, b = read_diag(refdata['dir'], 'tsdiag'), read_diag(out, 'tsdiag')
            jj = points[0]
            require_close(b['time'][:jj], a['time'][:jj], 'records before the crash')
            n0 = exports[k][0]
            require_close(b['time'][jj:], a['time'][n0:], 'records after the restart')
    finally:
        shutil.rmtree(os.path.dirname(out), ignore_errors=True)


def rerun_case(th, dt, texp, end, st, k, refdata, exports, rec):
    out = os.path.join(tempfile.mkdtemp(dir='.'), 'run')
    shutil.copytree(refdata['dir'], out)
    try:
        before = {f: h5_values(os.path.join(out, f)) for f in listing(out) if f.endswith('.h5') and f.startswith('hdf5')
                  and int(f[-8:-3]) <= k}
        r = continue_and_check(th, out, dt, texp, end, st, k, refdata, exports, rec)
        compare_final(refdata['fields'], r.fields(), 'final state')
        compare_files(refdata['dir'], out)
        for f in before:
            a, b = before[f], h5_values(os.path.join(out, f))
            for q in a[2]:
                require(np.array_equal(a[2][q], b[2][q]), 'file {} written before the restart point has changed', f)
        # nothing recorded up to the restart point is lost
        for d in ('exdiag', 'tsdiag'):
            a, b = read_diag(refdata['dir'], d), read_diag(out, d)
            n = (k + 1) if d == 'exdiag' else exports[k][0]
            for q in a:
                require_close(b[q][:n], a[q][:n], 'records of %s before the restart point' % d)
    finally:
        shutil.rmtree(os.path.dirname(out), ignore_errors=True)


def g_overrides(group, rec, th):
    dt, texp, end = 2.0, 4.0, 16.0
    src = os.path.join(tempfile.mkdtemp(dir='.'), 'src')
    r = Run(th, src, dt, texp, end, 'SSPRK33')
    r.fresh()
    r.go()
    snaps = {i: h5_values(os.path.join(src, 'hdf5', 'Elevation2d_%05d.h5' % i))[2] for i in range(5)}
    for k, ix, t, it in itertools.product([0, 2, 3], [None, 0, 1, 7], [None, 0, 0.0, 17.5, 8.0], [None, 0, 9]):
        if rec.tier == 'quick' and k == 3 and it == 9:
            continue
        case = dict(load=k, i_export=ix, t=t, iteration=it, same=group['same'])
        rec.check(case, one_override, th, dt, texp, src, snaps, case, rec)


def one_override(th, dt, texp, src, snaps, case, rec):
    tmp = tempfile.mkdtemp(dir='.')
    same = case['same']
    out = os.path.join(tmp, 'run')
    k, ix, t, it = case['load'], case['i_export'], case['t'], case['iteration']
    try:
        if same:
            shutil.copytree(src, out)
        t_start = 4.0*k if t is None else t
        ix_start = k if ix is None else ix
        end = t_start + 8.0
        r = Run(th, out, dt, texp, end, 'SSPRK33')
        kw = {}
        if ix is not None:
            kw['i_export'] = ix
        if t is not None:
            kw['t'] = t
        if it is not None:
            kw['iteration'] = it
        r.forcing(t_start)
        r.s.load_state(k, outputdir=None if same else src, **kw)
        require_close([r.s.simulation_time], [t_start], 'simulation time')
        require_equal(r.s.i_export, ix_start, 'export number')
        if it is not None:
            require_equal(r.s.iteration, it, 'iteration count')
        elif ix is None:
            require_equal(r.s.iteration, 2*k, 'iteration count')
        it0 = r.s.iteration
        loaded = r.fields()
        r.go()
        require_close([x[0] for x in r.steps], [t_start + 2*i for i in range(1, 5)], 'step times')
        require_equal([x[1] for x in r.steps], [it0 + i for i in range(1, 5)], 'iteration counts')
        first = [] if same else [(t_start, it0, ix_start)]
        want = first + [(t_start + 4*i, it0 + 2*i, ix_start + i) for i in (1, 2)]
        require_close([x[0] for x in r.exports], [x[0] for x in want], 'export times')
        require_equal([tuple(x[1:]) for x in r.exports], [tuple(x[1:]) for x in want], 'iterations and numbers of exports')
        got = set(f for f in listing(out) if f.startswith('hdf5'))
        new = set(os.path.join('hdf5', p + '_%05d.h5' % x[2]) for x in want for p in ('Elevation2d', 'Velocity2d'))
        old = set(f for f in listing(src) if f.startswith('hdf5')) if same else set()
        require_equal(sorted(got), sorted(new | old), 'state files')
        for x in want:
            ti, _, vals = h5_values(os.path.join(out, 'hdf5', 'Elevation2d_%05d.h5' % x[2]))
            require_close([ti], [x[0]], 'time stamp of export %d' % x[2])
        if not same:
            _, _, vals = h5_values(os.path.join(out, 'hdf5', 'Elevation2d_%05d.h5' % ix_start))
            for q in vals:
                require(np.array_equal(vals[q], snaps[k][q]), 'first export differs from the loaded state')
        # records of the diagnostics: continued run keeps the old ones in the same directory
        b = read_diag(out, 'exdiag')
        n_new = len(want)
        require_close(b['time'].reshape(-1)[-n_new:], [x[0] for x in want], 'new diagnostic records')
        if same:
            require_equal(len(b['time']), 5 + n_new, 'number of diagnostic records')
        else:
            require_equal(len(b['time']), n_new, 'number of diagnostic records')
        # the source directory is not touched by a run into another directory
        rec.step(4)
        rec.state(str(case))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def g_nometa(group, rec, th):
    """State files without time stamp: time follows from the model setup."""
    dt, texp, end = 2.0, 4.0, 12.0
    src = os.path.join(tempfile.mkdtemp(dir='.'), 'src')
    r = Run(th, src, dt, texp, end, 'SSPRK33')
    r.fresh()
    r.go()
    import h5py
    for f in glob.glob(os.path.join(src, 'hdf5', '*.h5')):
        with h5py.File(f, 'a') as h:
            del h.attrs['time']
    for k, same in itertools.product([0, 1, 2], [True, False]):
        case = dict(nometa=k, same=same)
        rec.check(case, one_nometa, th, src, k, same, rec)


def one_nometa(th, src, k, same, rec):
    tmp = tempfile.mkdtemp(dir='.')
    out = os.path.join(tmp, 'run')
    if same:
        shutil.copytree(src, out)
    r = Run(th, out, 2.0, 4.0, 4.0*k + 4.0, 'SSPRK33')
    r.forcing(4.0*k)
    r.s.load_state(k, outputdir=None if same else src)
    require(r.s.simulation_time is not None, 'simulation time lost')
    require_close([r.s.simulation_time], [4.0*k], 'simulation time')
    r.go()
    require_close([x[0] for x in r.steps], [4.0*k + 2, 4.0*k + 4], 'step times')
    rec.step(2)
    rec.state('nometa', k, same)
    shutil.rmtree(tmp)


def g_dates(group, rec, th):
    import datetime
    tz = datetime.timezone(datetime.timedelta(hours=-8))
    init = datetime.datetime(2016, 2, 28, 23, 59, 50, tzinfo=tz)
    dt, texp, end = 2.0, 4.0, 16.0
    src = os.path.join(tempfile.mkdtemp(dir='.'), 'src')
    r = Run(th, src, dt, texp, None, 'SSPRK33', date=init, enddate=init + datetime.timedelta(seconds=end))
    r.fresh()
    r.go()
    ref = r.fields()
    refsteps = r.steps
    for k, same, give in itertools.product([0, 1, 2, 3], [True, False], [True, False]):
        case = dict(dates=True, load=k, same=same, user_gives_date=give)
        rec.check(case, one_dates, th, src, k, same, give, init, end, ref, refsteps, rec)


def one_dates(th, src, k, same, give, init, end, ref, refsteps, rec):
    import datetime
    tmp = tempfile.mkdtemp(dir='.')
    out = os.path.join(tmp, 'run')
    if same:
        shutil.copytree(src, out)
    enddate = init + datetime.timedelta(seconds=end)
    r = Run(th, out, 2.0, 4.0, None, 'SSPRK33', date=init if give else None, enddate=enddate)
    r.forcing(4.0*k)
    r.s.load_state(k, outputdir=None if same else src)
    require(r.s.options.simulation_initial_date == init, 'initial date {} after loading', r.s.options.simulation_initial_date)
    require_close([r.s.simulation_time], [4.0*k], 'simulation time')
    r.go()
    require_close([x[0] for x in r.steps], [x[0] for x in refsteps[2*k:]], 'step times')
    compare_final(ref, r.fields(), 'final state')
    t, d, _ = h5_values(os.path.join(out, 'hdf5', 'Elevation2d_%05d.h5' % 4))
    d = d.decode() if isinstance(d, bytes) else d
    if give:
        require(d is not None and datetime.datetime.fromisoformat(str(d)) == init, 'initial date in new files: {}', d)
    rec.step(len(r.steps))
    rec.state('dates', k, same, give)
    shutil.rmtree(tmp)
