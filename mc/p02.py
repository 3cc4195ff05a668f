"""P02: export and callback schedule."""
import glob
import itertools
import os
import re
from fractions import Fraction
from .common import require, require_equal, require_close, Violation, Scratch, quiet
from . import models
from .models import ref_loop, frac

RULE = ('full product of step length x export interval (multiples, fractions and non-multiples of the step) x end time x start time x '
        'callback sets (none/one/two per interval, same callback name in both) x output lists and formats; every case runs the real time loop; '
        'state = (configuration, step, exports so far), transition = one step or one export compared with the reference schedule')
ASSUMPTIONS = ['one process', 'time integrators replaced by a marker stepper where only the schedule matters (real ones in group files2d/diag2d)']

DTS = [0.1, 0.3, 1.0, 3.0, 7.0]
RATIOS = {'quick': ['2/5', '1', '3/2', '2', '10/3', '5'], 'thorough': ['1/10', '2/5', '9/10', '1', '3/2', '2', '7/3', '10/3', '5', '17/2']}
ENDS = {'quick': ['1', '2', '7/2', '7', '11'], 'thorough': ['1/2', '1', '2', '3', '7/2', '7', '11', '20', '41']}
CBS = [(0, 0, False), (1, 1, True), (2, 1, False), (1, 2, True), (0, 1, False)]


def groups(tier):
    g = [{'kind': 'loop2d', 'dt': dt} for dt in DTS]
    g += [{'kind': 'files2d', 'part': p} for p in range(2)]
    g += [{'kind': 'diag2d'}, {'kind': 'loop3d'}]
    return g


def run_group(group, rec):
    import thetis as th
    quiet()
    with Scratch():
        globals()[group['kind']](group, rec, th)


def make_callback(th, log, name, mode):
    cbname = name

    class Cb(th.DiagnosticCallback):
        name = cbname
        variable_names = ['x']

        def __call__(self):
            s = self.solver_obj
            log.append((mode, self.name, s.simulation_time, s.iteration, s.i_export))
            return (0.,)

        def message_str(self, *a):
            return ''
    return Cb


def loop2d(group, rec, th):
    dt = group['dt']
    for ratio, n, t0, cbs, func in itertools.product(RATIOS[rec.tier], ENDS[rec.tier], [0., 100.3], range(len(CBS)), [True, False]):
        if not func and cbs not in (0, 1):
            continue
        if cbs > 1 and rec.tier == 'quick' and t0:
            continue
        case = dict(dt=dt, ratio=ratio, n=n, t0=t0, cbs=cbs, func=func)
        rec.check(case, one_loop, case, rec, th, 2)


def loop3d(group, rec, th):
    for dt, ratio, n, t0, cbs, func in itertools.product([0.1, 3.0], ['1', '2', '5/2'], ['1', '2', '5'], [0., 100.3], [1, 2], [True, False]):
        case = dict(dt=dt, ratio=ratio, n=n, t0=t0, cbs=cbs, func=func)
        rec.check(case, one_loop, case, rec, th, 3)


class FakeExporter:
    """Stands for an output format: counts exports."""
    def __init__(self, log, name):
        self.log, self.name = log, name

    def export(self, time=None):
        self.log.append(('file', self.name, time))

    def export_bathymetry(self, b):
        self.log.append(('bath', self.name))

    def set_next_export_ix(self, i):
        pass


def one_loop(case, rec, th, dim):
    dt, t0 = case['dt'], case['t0']
    texp_f = Fraction(case['ratio'])*frac(dt)
    texp = float(texp_f)
    dtf = frac(dt)
    if dim == 3:
        m = -((-texp_f)//dtf)
        dtf = texp_f/m
    end_f = frac(t0) + Fraction(case['n'])*dtf
    log = []
    limit = [200]

    def hook(t):
        limit[0] -= 1
        if limit[0] < 0:
            raise Violation('time loop does not stop')
        log.append(('step', t))
    if dim == 2:
        s = models.solver2d(dt=dt, texp=texp, end=float(end_f), no_exports=True)
    else:
        from .p01 import solver3d
        s = solver3d(th, dt, dt, texp, float(end_f), 'SSPRK22')
    s.initialize()
    s.timestepper = models.StubStepper(hook)
    s.simulation_time = t0
    s.next_export_t = t0 + texp
    s.exporters['vtk'] = FakeExporter(log, 'vtk')
    s.exporters['hdf5'] = FakeExporter(log, 'hdf5')
    nexp, nts, same = CBS[case['cbs']]
    names_exp = ['b%d' % i for i in range(nexp)]
    names_ts = [('b%d' if same else 'a%d') % i for i in range(nts)]
    for mode, names in (('export', names_exp), ('timestep', names_ts)):
        for nm in names:
            cb = make_callback(th, log, nm, mode)(s, export_to_hdf5=False, append_to_log=False)
            if mode == 'export' and nm == 'b0':
                s.add_callback(cb)     # default interval is export
            else:
                s.add_callback(cb, eval_interval=mode)

    def export_func():
        log.append(('func', s.simulation_time, s.i_export))
    s.iterate(export_func=export_func if case['func'] else None)

    # reference trace
    steps, exports = ref_loop(dtf, texp_f, end_f, t0=frac(t0))
    exp_at = {}
    for n, t, ix in exports:
        require(n not in exp_at, 'reference: two exports in one step')
        exp_at[n] = (t, ix)
    tol = 1e-9*max(1, float(end_f))
    pos = 0

    def take(n, what):
        nonlocal pos
        require(pos + n <= len(log), 'missing events: {} (have {})', what, log[pos:])
        out = log[pos:pos+n]
        pos += n
        return out

    def close(a, b):
        return abs(float(a) - float(b)) <= tol

    for n in range(len(steps) + 1):
        if n > 0:
            (ev,) = take(1, 'step %d' % n)
            require(ev[0] == 'step' and close(ev[1], frac(t0) + (n-1)*dtf), 'expected step {} but saw {}', n, ev)
            t, it = steps[n-1]
            evs = take(len(names_ts), 'timestep callbacks after step %d' % n)
            require_equal(sorted(e[1] for e in evs), sorted(names_ts), 'timestep callbacks evaluated after step %d' % n)
            for e in evs:
                require(e[0] == 'timestep' and close(e[2], t) and e[3] == it, 'timestep callback {} after step {}', e, n)
            rec.step()
        else:
            t = frac(t0)
        if n in exp_at:
            te, ix = exp_at[n]
            evs = take(len(names_exp), 'export callbacks of export %d' % ix)
            require_equal(sorted(str(e[1]) for e in evs), sorted(names_exp), 'export callbacks at export %d' % ix)
            for e in evs:
                require(e[0] == 'export' and close(e[2], te) and e[4] == ix, 'export callback {} at export {} t={}', e, ix, float(te))
            evs = take(2, 'files of export %d' % ix)
            require_equal(sorted(str(e[1]) for e in evs), ['hdf5', 'vtk'], 'formats written at export %d' % ix)
            for e in evs:
                require(e[0] == 'file' and close(e[2], te), 'file event {} at export {} t={}', e, ix, float(te))
            if case['func']:
                (e,) = take(1, 'export function at export %d' % ix)
                require(e[0] == 'func' and close(e[1], te) and e[2] == ix, 'export function event {} at export {}', e, ix)
            rec.step()
            if pos < len(log) and log[pos][0] == 'bath':
                require(n == 0, 'bathymetry exported again at export {}', ix)
                pos += 1
        rec.state(str(case), n, exp_at.get(n, (0, -1))[1])
    require(pos == len(log), 'unexpected further events {}', log[pos:pos+5])
    require_equal(s.i_export, exports[-1][2], 'last export number')


def h5_info(fn):
    """(time, initial date, sorted distinct values of each function's dofs)"""
    import h5py
    import numpy as np
    vals = {}
    with h5py.File(fn, 'r') as f:
        time = f.attrs.get('time')
        date = f.attrs.get('initial_time_iso')

        def visit(name, obj):
            if isinstance(obj, h5py.Dataset) and '/vecs/' in name and 'coordinates' not in name:
                key = name.split('/vecs/')[1].split('/')[0]
                vals[key] = np.unique(obj[...])
        f.visititems(visit)
    return time, date, vals


FILES = [
    (('elev_2d', 'uv_2d'), ('elev_2d', 'uv_2d')),
    (('elev_2d',), ('uv_2d',)),
    ((), ('elev_2d',)),
    (('uv_2d', 'elev_2d', 'tracer_2d'), ('tracer_2d', 'elev_2d')),
    (('elev_2d', 'h_elem_size_2d'), ()),
]
PREFIX = {'elev_2d': 'Elevation2d', 'uv_2d': 'Velocity2d', 'tracer_2d': 'Tracer2d', 'h_elem_size_2d': 'h_elem_size_2d'}


def files2d(group, rec, th):
    for fi, ratio, n, date in itertools.product(range(len(FILES)), ['1', '3/2', '2', '2/5'], ['3', '7/2'], [False, True]):
        if (fi + len(ratio)) % 2 != group['part']:
            continue
        case = dict(files=fi, ratio=ratio, n=n, date=date)
        rec.check(case, one_files, case, rec, th)


def one_files(case, rec, th):
    import datetime
    import numpy as np
    import tempfile
    dt = 2.0
    texp_f = Fraction(case['ratio'])*frac(dt)
    end_f = Fraction(case['n'])*frac(dt)
    vtk, hdf5 = FILES[case['files']]
    out = os.path.join(tempfile.mkdtemp(dir='.'), 'out')
    s = models.solver2d(dt=dt, texp=float(texp_f), end=float(end_f), no_exports=False, vtk=vtk, hdf5=hdf5, out=out)
    if 'tracer_2d' in vtk:
        s.options.add_tracer_2d('tracer_2d', 'tracer', 'Tracer2d')
        s.options.tracer_timestepper_type = 'CrankNicolson'
    init = datetime.datetime(2001, 3, 4, 5, 6, 7, tzinfo=datetime.timezone.utc)
    if case['date']:
        s.options.simulation_initial_date = init
    s.initialize()
    n = [0]

    def put(k):
        s.fields.elev_2d.assign(float(10 + k))
        s.fields.uv_2d.assign(th.Constant((float(20 + k), float(30 + k))))
        if 'tracer_2d' in vtk:
            s.fields.tracer_2d.assign(float(40 + k))

    def hook(t):
        n[0] += 1
        put(n[0])
    s.timestepper = models.StubStepper(hook)
    s.assign_initial_conditions()
    put(0)
    s.iterate()
    steps, exports = ref_loop(frac(dt), texp_f, end_f)
    # state files
    want = sorted('%s_%05d.h5' % (PREFIX[f], ix) for f in hdf5 for _, _, ix in exports)
    got = sorted(os.path.basename(f) for f in glob.glob(os.path.join(out, 'hdf5', '*')))
    require_equal(got, want, 'state files')
    for f in hdf5:
        for k, t, ix in exports:
            time, date, vals = h5_info(os.path.join(out, 'hdf5', '%s_%05d.h5' % (PREFIX[f], ix)))
            require(time is not None and abs(time - float(t)) < 1e-9, 'time stamp {} of export {} instead of {}', time, ix, float(t))
            if case['date']:
                d = date.decode() if isinstance(date, bytes) else date
                require(d is not None and datetime.datetime.fromisoformat(str(d)) == init, 'initial date {} in file', d)
            w = {'elev_2d': [10. + k], 'uv_2d': [20. + k, 30. + k], 'tracer_2d': [40. + k]}[f]
            require(vals, 'no values found in the state file of {}', f)
            flat = sorted(set(np.round(np.concatenate(list(vals.values())), 9).tolist()))
            require_equal(flat, w, 'values of %s in export %d' % (f, ix))
            rec.state(str(case), f, ix)
            rec.step()
    # visualisation files
    for f in vtk:
        if f == 'h_elem_size_2d':
            continue
        d = os.path.join(out, PREFIX[f])
        got = sorted(os.path.basename(x) for x in glob.glob(os.path.join(d, '**', '*.vtu'), recursive=True))
        require_equal(got, sorted('%s_%d.vtu' % (PREFIX[f], ix) for _, _, ix in exports), 'visualisation files of ' + f)
    dirs = sorted(d for d in os.listdir(out) if os.path.isdir(os.path.join(out, d)) and d not in ('hdf5', 'init_bathymetry_2d'))
    require_equal(len(dirs), len(vtk), 'visualisation directories %s' % dirs)
    for f in vtk:
        if f == 'h_elem_size_2d':
            continue
        pvd = glob.glob(os.path.join(out, PREFIX[f], '*.pvd'))
        require_equal(len(pvd), 1, 'series files of ' + f)
        with open(pvd[0]) as fh:
            txt = fh.read()
        got = [os.path.basename(x) for x in re.findall(r'file="([^"]*)"', txt)]
        require_equal(got, ['%s_%d.vtu' % (PREFIX[f], ix) for _, _, ix in exports], 'entries of the series of ' + f)
        rec.step(len(got))
    import shutil
    shutil.rmtree(out, ignore_errors=True)


_serial = [0]


def diag2d(group, rec, th):
    for ratio, n, tr, flags, diags in itertools.product(['1', '3/2', '2'], ['1', '3'], [0, 1, 2], range(4), [True, False]):
        case = dict(ratio=ratio, n=n, tracers=tr, flags=flags, diags=diags)
        rec.check(case, one_diag, case, rec, th)


def one_diag(case, rec, th):
    """Built-in checks leave one record per export, for every tracer, with the export times."""
    import h5py
    import numpy as np
    import tempfile
    import shutil
    dt = 2.0
    texp_f = Fraction(case['ratio'])*frac(dt)
    end_f = Fraction(case['n'])*frac(dt)
    out = os.path.join(tempfile.mkdtemp(dir='.'), 'out')
    s = models.solver2d(dt=dt, texp=float(texp_f), end=float(end_f), no_exports=False, out=out)
    o = s.options
    # labels of earlier models of this process cannot be used again (see KNOWN_FINDINGS, P11)
    _serial[0] += 1
    labels = ['t%dx%d_2d' % (_serial[0], i) for i in range(case['tracers'])]
    for i, l in enumerate(labels):
        o.add_tracer_2d(l, 'tracer %d' % i, 'Tr%d' % i, use_conservative_form=bool(i % 2))
    o.export_diagnostics = case['diags']
    o.check_volume_conservation_2d = bool(case['flags'] & 1)
    o.check_tracer_conservation = bool(case['flags'] & 2)
    o.check_tracer_overshoot = bool(case['flags'] & 2)
    s.initialize()
    s.timestepper = models.StubStepper()
    s.fields.elev_2d.assign(1.0)
    for l in labels:
        s.fields[l].assign(2.0)
    s.iterate()
    _, exports = ref_loop(frac(dt), texp_f, end_f)
    want = set()
    if case['diags']:
        if case['flags'] & 1:
            want.add('diagnostic_volume2d.hdf5')
        if case['flags'] & 2:
            for l in labels:
                want.add('diagnostic_%s_mass.hdf5' % l)
                want.add('diagnostic_%s_overshoot.hdf5' % l)
    got = set(os.path.basename(f) for f in glob.glob(os.path.join(out, 'diagnostic_*')))
    require_equal(got, want, 'diagnostic files')
    for f in sorted(got):
        with h5py.File(os.path.join(out, f), 'r') as h:
            t = h['time'][...].reshape(-1)
            require_close(t, [float(x[1]) for x in exports], 'record times of ' + f)
            for v in h:
                require_equal(h[v].shape[0], len(exports), 'records of %s in %s' % (v, f))
        rec.step(len(exports))
        rec.state(str(case), f)
    require_equal(s.i_export, exports[-1][2], 'last export number')
    shutil.rmtree(out, ignore_errors=True)
