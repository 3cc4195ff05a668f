"""P06: diagnostics report true values."""
import itertools
import math
import numpy as np
from .common import require, require_close, require_equal, Violation, Scratch, quiet
from .models import solver2d
from .p01 import solver3d
from .weak import Weak
from . import p25

RULE = ('all sequences of states from an alphabet x all subsets of steps at which a diagnostic is evaluated, for every conservation and overshoot diagnostic, made by hand or by the solver, and every equation form; '
        'every family of elements x set of fields x list of locations (orderings, duplicates, element boundaries, outside); all sequences of time steps and values for accumulated diagnostics; '
        'every basis function of the field for the linear calculators. Values compared with independent cellwise polynomial integration and evaluation')
ASSUMPTIONS = ['small distorted mesh of both cell types', 'stations where fields are discontinuous may report any adjacent cell', 'linear solvers with the default tolerance of the calculators']
CASE_TIMEOUT = 600
GROUP_TIMEOUT = 3600
FAMS = [('dg-dg', 'tri', 1), ('rt-dg', 'tri', 1), ('dg-cg', 'tri', 1), ('bdm-dg', 'tri', 1), ('dg-dg', 'quad', 1), ('rt-dg', 'quad', 1), ('dg-cg', 'quad', 1)]
MORE = [('bdm-dg', 'quad', 1), ('dg-dg', 'tri', 2), ('rt-dg', 'tri', 2), ('dg-cg', 'tri', 2)]
LX, LY = 20., 10.


def groups(tier):
    quick = tier == 'quick'
    g = []
    for f in (FAMS[::3] if quick else FAMS + MORE):
        for form in ('linear', 'nonlinear', 'wd'):
            g.append({'kind': 'integrals', 'space': f, 'form': form})
    for f in FAMS + ([] if quick else MORE):
        g.append({'kind': 'stations', 'space': f})
    g += [{'kind': 'accumulate'}, {'kind': 'repeat'}]
    for cell in ('tri', 'quad'):
        g += [{'kind': k, 'cell': cell} for k in ('calculators', 'columns')]
    return g


def run_group(group, rec):
    import thetis as th
    quiet()
    with Scratch():
        globals()['g_' + group['kind']](group, rec, th)


def mesh(th, cell, nx=2, ny=1):
    m = th.RectangleMesh(nx, ny, LX, LY, quadrilateral=cell == 'quad')
    m.coordinates.dat.data[:, 0] += .2*m.coordinates.dat.data[:, 1]
    return m


def model(th, space, form, tracers=(('a_2d', False), ('b_2d', True)), **kw):
    fam, cell, deg = space
    m = mesh(th, cell)
    def pre(s):
        o = s.options
        o.element_family = fam
        o.polynomial_degree = deg
        o.use_nonlinear_equations = form != 'linear'
        o.horizontal_viscosity = None
        if form == 'wd':
            o.use_wetting_and_drying = True
            o.wetting_and_drying_alpha = th.Constant(3.)
        for t, cons in tracers:
            from thetis.field_defs import field_metadata
            field_metadata.pop(t, None)
            o.add_tracer_2d(t, t, t, unit='psu', shortname=t, use_conservative_form=cons)
    return solver2d(m, dt=2., texp=2., end=20., stepper='CrankNicolson', bath=lambda x, y: 3. + .1*x - .2*y, pre=pre, **kw)


# states: nodal values of elevation, velocity, tracers
def put(f, k, base, amp):
    n = f.dat.data_ro.size
    f.dat.data.reshape(-1)[:] = base + amp*np.sin(1.7*np.arange(n) + 2.1*k + .3)


def set_state(s, k, tracers=('a_2d', 'b_2d')):
    uv, eta = s.fields.solution_2d.subfunctions
    el, ea = [(0., 0.), (.5, .4), (-2.5, 2.), (1.5, 0.)][k]
    put(eta, k, el, ea)
    put(uv, k, .1*k, .3)
    for j, t in enumerate(tracers):
        put(s.fields[t], k + j, [1., -2., 30., 0.][k], [0., 3., 5., 1e-3][k])


def dofs(s, tracers=('a_2d', 'b_2d')):
    out = [d.data_ro.tobytes() for d in s.fields.solution_2d.dat] + [s.fields[t].dat.data_ro.tobytes() for t in tracers]
    return out + [s.fields.bathymetry_2d.dat.data_ro.tobytes(), s.simulation_time, s.iteration, s.i_export]


def g_integrals(group, rec, th):
    space, form = tuple(group['space']), group['form']
    s = model(th, space, form, check_volume_conservation_2d=True, check_tracer_conservation=True, check_tracer_overshoot=True)
    s.create_equations()
    s.initialize()
    W = Weak(th, s.mesh2d, 10)
    ns = 4

    def H(D, eta, b):
        e, b = D.val(eta), D.val(b)
        h = b + (e if form != 'linear' else 0.)
        if form == 'wd':
            h = h + .5*(np.sqrt(h**2 + 3.**2) - h)
        return h, e, b
    ref = []
    for k in range(ns):
        set_state(s, k)
        eta, b = W.poly(s.fields.elev_2d), W.poly(s.fields.bathymetry_2d)
        a, c = W.poly(s.fields.a_2d), W.poly(s.fields.b_2d)
        wv = lambda fn: float(np.ravel(np.sum(W.cells(fn)))[0])

        def vol(D):
            h, e, bb = H(D, eta, b)
            return h if form == 'wd' else bb + e
        ref.append({'volume2d': wv(vol), 'a_2d mass': wv(lambda D: H(D, eta, b)[0]*D.val(a)), 'b_2d mass': wv(lambda D: D.val(c)),
                    'a_2d overshoot': (s.fields.a_2d.dat.data_ro.min(), s.fields.a_2d.dat.data_ro.max()), 'b_2d overshoot': (s.fields.b_2d.dat.data_ro.min(), s.fields.b_2d.dat.data_ro.max())})

    def fresh():
        cb = th.callback
        kw = dict(export_to_hdf5=False, append_to_log=False)
        return [cb.VolumeConservation2DCallback(s, **kw), cb.TracerMassConservation2DCallback('a_2d', s, **kw), cb.ConservativeTracerMassConservation2DCallback('b_2d', s, **kw),
                cb.TracerOvershootCallBack('a_2d', s, **kw), cb.TracerOvershootCallBack('b_2d', s, **kw)]

    def compare(name, got, first, now):
        if 'overshoot' in name:
            (m0, M0), (m, M) = ref[first][name], ref[now][name]
            require_close(got, (m, M, min(m - m0, 0.), max(M - M0, 0.)), name, rtol=1e-12)
        else:
            v0, v = ref[first][name], ref[now][name]
            tol = 1e-3 if form == 'wd' else 1e-10
            require_close(got[0], v, name, rtol=tol, atol=1e-9)
            if abs(v0) > 1e-6:
                require_close(got[1], (v - v0)/v0, name + ' relative difference', rtol=10*tol, atol=10*tol*(1 + abs(v)/abs(v0)))

    def sequence(seq, evaluated):
        cbs = fresh()
        first = None
        for k, ev in zip(seq, evaluated):
            set_state(s, k)
            if not ev:
                continue
            first = k if first is None else first
            before = dofs(s)
            for c in cbs:
                got = c()
                compare(c.name, got, first, k)
                require(isinstance(c.message_str(*got), str), 'no message')
                rec.step()
            require(dofs(s) == before, 'evaluating a diagnostic changed the model state')
        rec.state(seq, evaluated)
    depth = 3 if rec.tier == 'quick' else 4
    for n in range(1, depth + 1):
        for seq in itertools.product(range(ns), repeat=n):
            for ev in itertools.product((True, False), repeat=n):
                if any(ev) and (rec.tier != 'quick' or n < 3 or ev[-1] and (ev[0] or seq[0] != seq[1])):
                    rec.check({'states': seq, 'evaluated': ev}, sequence, seq, ev)

    # the diagnostics the solver makes itself, over a run with no steps in between
    def own(seq):
        s2 = s
        s2.callbacks.clear()
        s2.options.simulation_end_time = 2.*len(seq) if seq else 2.
        seen = []
        s2.simulation_time = 0.
        s2.i_export = 0
        s2.iteration = 0
        s2.next_export_t = 0.
        log = []
        orig = th.callback.DiagnosticCallback.push_to_log

        def push(self, time, args):
            log.append((self.name, time, args, cur[0]))
        cur = [seq[0]]

        class Steps:
            n = 0

            def advance(self, t, *a, **k):
                Steps.n += 1
                cur[0] = seq[Steps.n]
                set_state(s2, cur[0])

            def initialize(self, *a):
                pass
        set_state(s2, seq[0])
        s2.timestepper = Steps()
        s2.options.simulation_end_time = 2.*(len(seq) - 1)
        s2._initialized = True
        th.callback.DiagnosticCallback.push_to_log = push
        try:
            s2.iterate()
        finally:
            th.callback.DiagnosticCallback.push_to_log = orig
        for name, time, args, k in log:
            compare(name, args, seq[0], k)
            rec.step()
        for name in ref[0]:
            got = [k for n, t, a, k in log if n == name]
            require_equal(got, list(seq), 'states at which {:} was evaluated'.format(name))
        rec.state('own', seq)
    for seq in itertools.product(range(ns), repeat=3 if rec.tier == 'quick' else 4):
        rec.check({'run': seq}, own, seq)


# ---------------------------------------------------------------------------
# stations

def inside(W, p, tol=1e-8):
    """Cells that contain a point."""
    out = []
    for c in range(W.nc):
        xi = W.Ji[c] @ (np.asarray(p[:2]) - W.o[c])
        if xi.min() >= -tol and (xi.max() <= 1 + tol if W.quad else xi.sum() <= 1 + tol):
            out.append(c)
    return out


def values_at(W, poly, p):
    """The value(s) of a piecewise polynomial at a point."""
    from .weak import At
    out = []
    for c in inside(W, p):
        v = At(W, np.array([c]), np.asarray(p[:2], float)[None, None, :]).val(poly)
        out.append(np.ravel(v))
    return out


PTS = {'mid': (6.3, 3.1), 'other': (15.2, 7.7), 'low': (1.2, .4), 'edge': (10. + .2*5., 5.), 'corner': (10., 0.), 'out': (500., 300.)}
FIELDS = ('elev_2d', 'uv_2d', 'bathymetry_2d', 'a_2d')


def g_stations(group, rec, th):
    import h5py
    space = tuple(group['space'])
    s = model(th, space, 'nonlinear')
    s.initialize()
    W = Weak(th, s.mesh2d)
    quick = rec.tier == 'quick'

    def polys():
        return {f: W.poly(s.fields[f], max(space[2], 1) + (1 if space[0][:2] in ('rt', 'bd') or f == 'elev_2d' and space[0].endswith('cg') else 0)) for f in FIELDS}
    refs = []
    for k in range(4):
        set_state(s, k)
        refs.append(polys())

    def want(k, f, p):
        return values_at(W, refs[k][f], p)

    def match(got, k, fields, p, what):
        i = 0
        for f in fields:
            ws = want(k, f, p)
            n = len(ws[0])
            g = np.ravel(got)[i:i + n]
            i += n
            scale = 1 + max(np.abs(w).max() for w in ws)
            require(any(np.abs(g - w).max() <= 1e-9*scale for w in ws), '{:}: field {:} at {:} reported as {:}, is {:}', what, f, p, g.tolist(), [w.tolist() for w in ws])
        require(i == np.size(got), '{:}: {:} values for fields {:}', what, np.size(got), fields)

    count = [0]

    def detectors(pts, fields, names, seq):
        count[0] += 1
        locs = [PTS[p] for p in pts]
        if 'out' in pts:
            try:
                th.DetectorsCallback(s, locs, list(fields), 'out', detector_names=names, export_to_hdf5=False)
            except Exception:
                return
            raise Violation('location outside of the domain accepted')
        name = 'd{:}'.format(count[0])
        d = th.DetectorsCallback(s, locs, list(fields), name, detector_names=names, export_to_hdf5=True, outputdir='det')
        nm = names or ['detector{:0{w}d}'.format(i, w=len(str(len(pts)))) for i in range(len(pts))]
        require_equal(list(d.variable_names), list(nm), 'names')
        for j, k in enumerate(seq):
            set_state(s, k)
            before = dofs(s)
            s.simulation_time = 2.*j
            before[-3] = s.simulation_time
            out = d()
            require_equal(len(out), len(pts), 'number of detectors')
            for row, p in zip(out, pts):
                match(row, k, fields, PTS[p], 'detector')
            d.evaluate()
            require(isinstance(d.message_str(*out), str), 'no message')
            require(dofs(s) == before, 'evaluating a diagnostic changed the model state')
            rec.step(2)
        with h5py.File('det/diagnostic_{:}.hdf5'.format(name), 'r') as f:
            for n, p in zip(nm, pts):
                require_close((f[n].attrs['x'], f[n].attrs['y']), PTS[p], 'location of ' + n)
                for j, k in enumerate(seq):
                    match(f[n][j], k, fields, PTS[p], 'detector file')
            require_equal([x.decode() for x in f.attrs['field_names']], list(fields), 'field names')
        rec.state('detectors', pts, fields, names, seq)

    good = [p for p in PTS if p != 'out']
    sets = []
    for n in (1, 2):
        sets += list(itertools.permutations(good, n)) + ([(p, p) for p in good] if n == 2 else [])
    sets += [('low', 'other', 'mid'), ('mid', 'low', 'mid'), ('out',), ('mid', 'out'), ('out', 'low', 'mid')]
    if not quick:
        sets += list(itertools.permutations(good, 3)) + [tuple(good*3)]
    else:
        sets = sets[:len(good)] + sets[len(good)::3] + sets[-5:]
    fsets = [FIELDS, ('uv_2d', 'elev_2d'), ('a_2d',), ('bathymetry_2d', 'uv_2d')]
    if not quick:
        fsets += list(itertools.permutations(FIELDS, 2))
    for pts in sets:
        for f in (fsets if pts in sets[::4] or not quick else fsets[:1]):
            rec.check({'locations': pts, 'fields': f}, detectors, pts, f, None, (1, 2, 0))
    rec.check({'named': True}, detectors, ('low', 'other', 'mid'), FIELDS, ['z', 'b', 'a'], (0, 3, 1))
    rec.check({'many': True}, detectors, tuple(good*3)[:11], FIELDS[:2], None, (2,))

    def uneven():
        try:
            th.DetectorsCallback(s, [PTS['mid'], PTS['low']], ['elev_2d'], 'x', detector_names=['a'], export_to_hdf5=False)
        except AssertionError:
            return
        raise Violation('fewer names than locations accepted')
    rec.check({'names': 'fewer'}, uneven)

    def station(p, fields, seq, when):
        count[0] += 1
        name = 'st{:}'.format(count[0])
        vector = any(s.fields[f].ufl_shape for f in fields)
        try:
            c = th.TimeSeriesCallback2D(s, list(fields), *PTS[p], name, outputdir='ts', append_to_log=False)
            for j, k in enumerate(seq):
                if not when[j]:
                    continue
                set_state(s, k)
                s.simulation_time = 2.*j
                before = dofs(s)
                out = c()
                for f, v in zip(fields, out):
                    match(v, k, [f], PTS[p], 'station')
                c.evaluate()
                require(dofs(s) == before, 'evaluating a diagnostic changed the model state')
                rec.step()
        except Violation:
            raise
        except Exception:
            if p == 'out' or vector:
                return
            raise
        require(p != 'out', 'station outside of the domain accepted')
        with h5py.File('ts/diagnostic_timeseries_{:}_{:}.hdf5'.format(name, '-'.join(f.split('_')[0] for f in fields)), 'r') as h:
            js = [j for j in range(len(seq)) if when[j]]
            require_close(h['time'][:, 0], [2.*j for j in js], 'times')
            for f in fields:
                for i, j in enumerate(js):
                    match(h[f.split('_')[0]][i], seq[j], [f], PTS[p], 'station file')
            require_close((h.attrs['x'], h.attrs['y']), PTS[p], 'location')
        rec.state('station', p, fields, seq, when)
    for p in PTS:
        for f in (('elev_2d',), ('bathymetry_2d', 'elev_2d', 'a_2d'), ('uv_2d',)):
            for seq in ((0, 1, 2), (3, 2, 1)):
                for when in ((1, 1, 1), (0, 1, 1), (1, 0, 1)):
                    rec.check({'station': p, 'fields': f, 'states': seq, 'evaluated': when}, station, p, f, seq, when)


# ---------------------------------------------------------------------------

def g_accumulate(group, rec, th):
    s = model(th, FAMS[0], 'nonlinear', tracers=())
    s.initialize()
    vals = (0., 1.5, -4.)
    gaps = (.5, 2., 7.)

    def run(t0, seq):
        """Trapezium rule over the times at which it is evaluated."""
        now = [None]
        a = type('Acc', (th.callback.AccumulatorCallback,), {'name': 'acc'})(lambda: now[0], s)
        t, total, old = t0, 0., None
        require_equal(a.get_val(), 0., 'initial')
        for g, v in seq:
            t += g
            s.simulation_time = t
            now[0] = v
            got = a()
            require_close(got, v, 'value')
            if old is not None:
                total += g*(old + v)/2
            old = v
            require_close(a.get_val(), total, 'accumulated', rtol=1e-12, atol=1e-10)
            rec.step()
        rec.state(t0, seq)
    alpha = list(itertools.product(gaps, vals))
    for n in range(1, 4 if rec.tier == 'quick' else 5):
        for seq in itertools.product(alpha, repeat=n):
            rec.check({'sequence': seq, 'start': 0.}, run, 0., seq)
    for seq in itertools.product(alpha, repeat=2):
        rec.check({'sequence': seq, 'start': 40.}, run, 40., seq)

    # driven by the time loop: every step or every export
    def driven(dt, texp, end, interval):
        s = model(th, FAMS[0], 'nonlinear', tracers=())
        s.options.timestep = dt
        s.options.simulation_export_time = texp
        s.options.simulation_end_time = end
        s.initialize()
        f = lambda t: t**2 - 3*t + 1
        a = type('Acc', (th.callback.AccumulatorCallback,), {'name': 'acc'})(lambda: f(s.simulation_time), s)
        times = []
        orig = a.scalar_callback
        a.scalar_callback = lambda: (times.append(s.simulation_time), orig())[1]
        s.add_callback(a, eval_interval=interval)

        class Nothing:
            def advance(self, *a, **k):
                pass

            def initialize(self, *a):
                pass
        s.timestepper = Nothing()
        s.iterate()
        want = sum((b - c)*(f(b) + f(c))/2 for c, b in zip(times, times[1:]))
        require(len(times) > 1, 'not evaluated')
        require_close(a.get_val(), want, 'accumulated over the run')
        if interval == 'timestep':
            require_close(np.diff(times), [dt]*(len(times) - 1), 'steps')
        rec.state('driven', dt, texp, end, interval)
        rec.step(len(times))
    for dt, texp, end in ((1., 2., 6.), (2., 2., 6.), (.5, 2., 3.)):
        for interval in ('timestep', 'export'):
            rec.check({'dt': dt, 'export': texp, 'end': end, 'interval': interval}, driven, dt, texp, end, interval)


def g_repeat(group, rec, th):
    """User supplied scalars: first value is the reference whatever it is."""
    s = model(th, FAMS[0], 'nonlinear', tracers=())
    s.initialize()
    V = (2., -3., 1e-12, 1e9, np.float64(0.))

    def scalar(seq):
        now = [None]
        c = th.callback.ScalarConservationCallback.__new__(type('C', (th.callback.ScalarConservationCallback,), {'name': 'c'}))
        th.callback.ScalarConservationCallback.__init__(c, lambda: now[0], s, export_to_hdf5=False, append_to_log=False)
        for v in seq:
            now[0] = v
            with np.errstate(all='ignore'):
                a, d = c()
            require_close(a, v, 'value')
            if seq[0] != 0:
                require_close(d, (v - seq[0])/seq[0], 'relative difference')
            rec.step()
        rec.state('scalar', seq)

    def minmax(seq):
        now = [None]
        cls = type('M', (th.callback.MinMaxConservationCallback,), {'name': 'm'})
        c = cls(lambda: now[0], s, export_to_hdf5=False, append_to_log=False)
        for v in seq:
            now[0] = v
            require_close(c(), (v[0], v[1], min(v[0] - seq[0][0], 0.), max(v[1] - seq[0][1], 0.)), 'extrema')
            rec.step()
        rec.state('minmax', seq)
    R = ((0., 0.), (-1., 2.), (1., 3.), (-5., -4.))
    for n in (1, 2, 3, 4):
        for seq in itertools.product(V, repeat=n):
            rec.check({'scalars': seq}, scalar, seq)
        for seq in itertools.product(R, repeat=n):
            rec.check({'ranges': seq}, minmax, seq)


# ---------------------------------------------------------------------------

def g_calculators(group, rec, th):
    cell = group['cell']
    quick = rec.tier == 'quick'
    m = mesh(th, cell)
    W = Weak(th, m, 8)
    dg = 'DQ' if cell == 'quad' else 'DG'
    rt = 'RTCF' if cell == 'quad' else 'RT'
    tight = {'solver_parameters': {'ksp_type': 'preonly', 'pc_type': 'lu'}}

    def mass(V):
        B = W.basis(V)
        n = B.coef.shape[0]
        M = np.zeros((n, n))
        for i in range(n):
            x = B[i]
            def f(D):
                a = D.val(B)*D.val(x)
                return a.sum(axis=-1) if B.vector else a
            M[i] = W.cells(f)
        return B, M
    P1 = th.get_functionspace(m, 'CG', 1)
    P1v = th.get_functionspace(m, 'CG', 1, vector=True)
    B1, M1 = mass(P1)
    Bv, Mv = mass(P1v)

    def fields(V):
        n = th.Function(V).dat.data_ro.size
        out = list(range(0, n, 2 if quick and n > 14 else 1)) + ['dense', 'other']
        return out

    def fill(f, i):
        f.assign(0.)
        d = f.dat.data.reshape(-1)
        if i == 'dense':
            d[:] = np.sin(1.7*np.arange(d.size)) + .4
        elif i == 'other':
            d[:] = np.cos(2.9*np.arange(d.size))*3
        else:
            d[i] = 1.
        return f

    # vorticity: weak curl tested with the continuous space
    for V in [th.get_functionspace(m, dg, 1, vector=True), P1v, th.get_functionspace(m, rt, 1 if cell == 'tri' else 1)] + ([] if quick else [th.get_functionspace(m, dg, 2, vector=True)]):
        uv, om = th.Function(V), th.Function(P1)
        calc = {'default': th.diagnostics.VorticityCalculator2D(uv, om)}

        def vorticity(i):
            fill(uv, i)
            before = uv.dat.data_ro.tobytes()
            u = W.poly(uv, 2)
            perp = lambda v: np.stack([-v[..., 1], v[..., 0]], -1)
            b = -W.cells(lambda D: (perp(D.val(u))*D.grad(B1)).sum(-1)) + W.boundary(lambda D, n: (perp(D.val(u))*n).sum(-1)*D.val(B1))
            want = np.linalg.solve(M1, b)
            for k in range(2):
                calc['default'].solve()
                require_close(om.dat.data_ro, want, 'vorticity', rtol=1e-5, atol=1e-5*np.abs(want).max() + 1e-12)
                rec.step()
            require(uv.dat.data_ro.tobytes() == before, 'velocity changed')
            rec.state('vorticity', str(V.ufl_element()), i)
        for i in fields(V):
            rec.check({'vorticity': str(V.ufl_element()), 'field': i}, vorticity, i)

        def known(a, b, c, d):
            x, y = th.SpatialCoordinate(m)
            uv.interpolate(th.as_vector([a*x + b*y, c*x + d*y]))
            if V.ufl_element().family() not in ('Raviart-Thomas', 'RTCF'):
                calc['default'].solve()
                require(np.abs(om.dat.data_ro - (b - c)).max() < 1e-5*(1 + abs(a) + abs(b) + abs(c) + abs(d)), 'vorticity of a linear flow is {:} instead of {:}', om.dat.data_ro.tolist(), b - c)
            rec.state('known', a, b, c, d)
        for co in itertools.product((0., .3, -2.), repeat=4):
            rec.check({'flow': co, 'space': str(V.ufl_element())}, known, *co)

    # gradients and second derivatives
    for V in [P1, th.get_functionspace(m, dg, 1)] + [th.get_functionspace(m, 'CG', 2)]:
        f, g = th.Function(V), th.Function(P1v)
        calc = th.diagnostics.GradientRecoverer2D(f, g)

        def gradient(i):
            fill(f, i)
            p = W.poly(f, 2)
            want = np.linalg.solve(Mv, W.cells(lambda D: (D.grad(p)*D.val(Bv)).sum(-1)))
            calc.solve()
            require_close(g.dat.data_ro.ravel(), want, 'gradient', rtol=1e-5, atol=1e-5*np.abs(want).max() + 1e-12)
            rec.step()
            rec.state('gradient', str(V.ufl_element()), i)
        for i in fields(V)[::1 if not quick else 2]:
            rec.check({'gradient': str(V.ufl_element()), 'field': i}, gradient, i)
    T = th.TensorFunctionSpace(m, 'CG', 1)
    Bs = W.basis(P1)
    for V, withg in ((P1, True), (th.get_functionspace(m, 'CG', 2), False)) if quick else itertools.product((P1, th.get_functionspace(m, dg, 1), th.get_functionspace(m, 'CG', 2)), (True, False)):
        f, h = th.Function(V), th.Function(T)
        g = th.Function(P1v) if withg else None
        calc = th.diagnostics.HessianRecoverer2D(f, h, g)

        def hessian(i):
            fill(f, i)
            p = W.poly(f, 2)
            # gradient by parts, then its gradient by parts
            cont = V.ufl_element().family() not in ('Discontinuous Lagrange', 'DQ')
            div = lambda D: D.grad(Bv)[..., 0, 0] + D.grad(Bv)[..., 1, 1]
            b = -W.cells(lambda D: D.val(p)*div(D)) + W.boundary(lambda D, n: D.val(p)*(D.val(Bv)*n).sum(-1))
            G = np.linalg.solve(Mv, b)
            gp = th.Function(P1v)
            gp.dat.data.reshape(-1)[:] = G
            gp = W.poly(gp)
            want = np.zeros((len(M1), 2, 2))
            for r in range(2):
                for c in range(2):
                    e = -W.cells(lambda D: D.val(gp)[..., r]*D.grad(Bs)[..., c]) + W.boundary(lambda D, n: D.val(gp)[..., r]*D.val(Bs)*n[..., c])
                    want[:, r, c] = np.linalg.solve(M1, e)
            calc.solve()
            got = h.dat.data_ro
            err = min(np.abs(got - want).max(), np.abs(got - want.transpose(0, 2, 1)).max())
            require(err <= 1e-4*(np.abs(want).max() + 1e-9), 'second derivatives {:}, expected {:}', got.tolist(), want.tolist())
            if withg:
                require_close(g.dat.data_ro.ravel(), G, 'gradient', rtol=1e-4, atol=1e-4*np.abs(G).max() + 1e-12)
            rec.step()
            rec.state('hessian', str(V.ufl_element()), i)
        for i in fields(V):
            rec.check({'hessian': str(V.ufl_element()), 'field': i, 'gradient': withg}, hessian, i)

    # kinetic energy
    V1 = th.get_functionspace(m, dg, 1, vector=True)
    for name, K in (('DG2', th.get_functionspace(m, dg, 2)), ('P1', P1)):
        for dens in (None, 1000.5, 'function'):
            for project in (False, True):
                uv, ke = th.Function(V1), th.Function(K)
                rho = {None: None, 'function': th.Function(P1)}.get(dens, th.Constant(dens) if isinstance(dens, float) else None)
                if dens == 'function':
                    rho.dat.data[:] = 900. + np.arange(rho.dat.data.size)
                if project and (dens == 'function' or name == 'P1'):
                    continue
                if name == 'P1' and quick and dens is not None:
                    continue
                calc = th.diagnostics.KineticEnergyCalculator(uv, ke, density=rho, project=project)

                def energy(i):
                    fill(uv, i)
                    calc.solve()
                    u = W.poly(uv)
                    P = p25.positions(th, K)
                    for d, x in enumerate(P):
                        c = [c for c in range(W.nc) if d in K.cell_node_map().values[c]]
                        from .weak import At
                        ws = []
                        for cc in c:
                            D = At(W, np.array([cc]), x[None, None])
                            r = np.ravel(D.val(W.poly(rho)))[0] if dens == 'function' else dens or 1025.
                            if dens is None:
                                r = float(th.physical_constants['rho0'])
                            ws.append(.5*r*(np.ravel(D.val(u))**2).sum())
                        got = ke.dat.data_ro[d]
                        require(min(abs(got - w) for w in ws) <= (1e-5 if project else 1e-10)*(1 + max(ws)), 'kinetic energy {:}, expected {:}', got, ws)
                    rec.step()
                    rec.state('energy', name, dens, project, i)
                for i in ['dense', 0, 1, 5, 'other']:
                    rec.check({'energy': name, 'density': dens, 'project': project, 'field': i}, energy, i)


# ---------------------------------------------------------------------------

CO = [(1., 0., 0., 0.), (2., .3, -.4, .7), (-5., 0., 2., -3.)]


def g_columns(group, rec, th):
    """3D model on a moving mesh; fields linear in space."""
    import h5py
    cell = group['cell']
    quick = rec.tier == 'quick'
    m2 = p25.mesh2d(th, cell)

    def bath(P1):
        X = p25.positions(th, P1)
        return p25.depth(X[:, 0], X[:, 1], 'sloped')
    s = solver3d(th, 1., 1., 100., 100., 'SSPRK22', mesh=m2, layers=2, bathymetry=bath, use_ale_moving_mesh=True, solve_salinity=True, solve_temperature=False,
                 use_baroclinic_formulation=False)
    s.initialize()
    W = Weak(th, m2, 6)
    cb = th.callback
    co = [None, None]

    def geometry(k):
        for f in (s.fields.elev_2d,):
            X = p25.positions(th, f.function_space())
            f.dat.data[:] = p25.elev(X[:, 0], X[:, 1], k)
        s.mesh_updater.update_mesh_coordinates()

    def fields(k):
        x, y, z = th.SpatialCoordinate(s.mesh)
        a, b, c, d = CO[k]
        s.fields.salt_3d.interpolate(a + b*x + c*y + d*z)
        s.fields.uv_3d.interpolate(th.as_vector([b*x + d*z, a + c*y, 0]))

    def true(k, p):
        a, b, c, d = CO[k]
        x, y, z = p
        return {'salt_3d': [a + b*x + c*y + d*z], 'uv_3d': [b*x + d*z, a + c*y, 0.]}

    def bytes_():
        return [s.fields[f].dat.data_ro.tobytes() for f in ('salt_3d', 'uv_3d', 'elev_2d', 'elev_cg_2d', 'bathymetry_2d')] + [s.mesh.coordinates.dat.data_ro.tobytes()]

    def surface(x, y, k):
        return float(p25.elev(np.float64(x), np.float64(y), k))

    def floor(x, y):
        return -float(p25.depth(np.float64(x), np.float64(y), 'sloped'))

    # integrals
    def integrals(seq):
        kw = dict(export_to_hdf5=False, append_to_log=False)
        cs = [cb.VolumeConservation3DCallback(s, **kw), cb.TracerMassConservationCallback('salt_3d', s, **kw), cb.VolumeConservation2DCallback(s, **kw), cb.TracerOvershootCallBack('salt_3d', s, **kw)]
        first = None
        for g, f in seq:
            geometry(g)
            fields(f)
            def both(D):
                x, y = D.x[..., 0], D.x[..., 1]
                return p25.elev(x, y, g), -p25.depth(x, y, 'sloped'), x, y
            a, b, c, d = CO[f]
            def vol(D):
                t, l, x, y = both(D)
                return t - l
            def mass(D):
                t, l, x, y = both(D)
                return (a + b*x + c*y)*(t - l) + d*(t**2 - l**2)/2
            v, q = (float(np.sum(W.cells(fn))) for fn in (vol, mass))
            data = s.fields.salt_3d.dat.data_ro
            now = (v, q, v, (data.min(), data.max()))
            first = first or now
            before = bytes_()
            for c_, n0, n in zip(cs, first, now):
                got = c_()
                if isinstance(n, tuple):
                    require_close(got, n + (min(n[0] - n0[0], 0.), max(n[1] - n0[1], 0.)), c_.name, atol=1e-9)
                else:
                    require_close(got, (n, (n - n0)/n0), c_.name, rtol=1e-8, atol=1e-8)
                rec.step()
            require(bytes_() == before, 'evaluating a diagnostic changed the model state')
        rec.state('integrals', seq)
    alpha = list(itertools.product(range(4), range(3)))
    for n in (1, 2):
        for seq in itertools.product(alpha, repeat=n):
            if n == 1 or not quick or seq[0] in alpha[::3] and seq[1] in alpha[1::2]:
                rec.check({'integrals': seq}, integrals, seq)

    spots = {'mid': (.7, .45), 'far': (1.9, .9), 'low': (.15, .11), 'out': (50., 50.)}
    count = [0]

    def series(spot, zrel, flds, seq):
        count[0] += 1
        name = 's{:}'.format(count[0])
        x, y = spots[spot]
        z = {'deep': -20., 'middle': -1.7, 'above': 5.}[zrel]
        try:
            c = cb.TimeSeriesCallback3D(s, list(flds), x, y, z, name, outputdir='t3', append_to_log=False)
            bottom = floor(x, y)
            at = z if z >= bottom else bottom + .1
            for j, (g, f) in enumerate(seq):
                geometry(g)
                fields(f)
                s.simulation_time = float(j)
                before = bytes_()
                out = c()
                for fl, v in zip(flds, out):
                    require_close(np.ravel(v), true(f, (x, y, at))[fl], '{:} at {:}'.format(fl, (x, y, at)), atol=1e-8)
                c.evaluate()
                require(bytes_() == before, 'evaluating a diagnostic changed the model state')
                rec.step()
        except Violation:
            raise
        except Exception:
            if spot == 'out' or zrel == 'above' or 'uv_3d' in flds:
                return
            raise
        require(spot != 'out' and zrel != 'above', 'station outside of the water accepted')
        with h5py.File('t3/diagnostic_timeseries_{:}_{:}.hdf5'.format(name, '-'.join(f.split('_')[0] for f in flds)), 'r') as h:
            for fl in flds:
                for j, (g, f) in enumerate(seq):
                    require_close(np.ravel(h[fl.split('_')[0]][j]), true(f, (x, y, at))[fl], 'file', atol=1e-8)
        rec.state('series', spot, zrel, flds, seq)
    seqs = [((0, 0), (1, 1), (3, 2)), ((2, 1), (0, 2))] + ([] if quick else list(itertools.permutations([(0, 1), (1, 2), (2, 1), (3, 2)], 3)))
    for spot in spots:
        for z in ('deep', 'middle', 'above'):
            for flds in (('salt_3d',), ('salt_3d', 'uv_3d')):
                for seq in seqs:
                    rec.check({'series': spot, 'z': z, 'fields': flds, 'states': seq}, series, spot, z, flds, seq)

    def profile(spot, npoints, seq):
        count[0] += 1
        x, y = spots[spot]
        try:
            c = cb.VerticalProfileCallback(s, ['salt_3d'], x, y, 'p{:}'.format(count[0]), npoints=npoints, outputdir='p3', append_to_log=False)
            for j, (g, f) in enumerate(seq):
                geometry(g)
                fields(f)
                s.simulation_time = float(j)
                before = bytes_()
                zz, v = c()
                top, bot = surface(x, y, g), floor(x, y)
                if npoints > 1:
                    require(abs(zz[0] - top) < .02 and abs(zz[-1] - bot) < .02 and np.allclose(np.diff(zz), (zz[-1] - zz[0])/(npoints - 1)), 'levels {:} between {:} and {:}', zz.tolist(), top, bot)
                require_close(v, [true(f, (x, y, z))['salt_3d'][0] for z in zz], 'profile', atol=1e-8)
                c.evaluate()
                require(bytes_() == before, 'evaluating a diagnostic changed the model state')
                rec.step()
        except Violation:
            raise
        except Exception:
            if spot == 'out':
                return
            raise
        require(spot != 'out', 'station outside of the domain accepted')
        with h5py.File('p3/diagnostic_vertprofile_p{:}_salt.hdf5'.format(count[0]), 'r') as h:
            for j, (g, f) in enumerate(seq):
                require_close(h['salt'][j], [true(f, (x, y, z))['salt_3d'][0] for z in h['z_coord'][j]], 'file', atol=1e-8)
        rec.state('profile', spot, npoints, seq)
    for spot in spots:
        for npoints in (2, 7, 48):
            for seq in seqs:
                rec.check({'profile': spot, 'points': npoints, 'states': seq}, profile, spot, npoints, seq)

    def transect(xs, ys, nz, lim, flds, seq):
        count[0] += 1
        c = cb.TransectCallback(s, list(flds), xs, ys, 't{:}'.format(count[0]), n_points_z=nz, z_min=lim[0], z_max=lim[1], outputdir='tr', append_to_log=False)
        n = max(np.size(xs), np.size(ys))
        X, Y = np.broadcast_to(np.ravel(xs), n), np.broadcast_to(np.ravel(ys), n)
        for j, (g, f) in enumerate(seq):
            geometry(g)
            fields(f)
            s.simulation_time = float(j)
            before = bytes_()
            out = c()
            zz = out[0]
            require_equal(zz.shape, (nz, n), 'shape')
            for i in range(n):
                top, bot = surface(X[i], Y[i], g), floor(X[i], Y[i])
                top = top if lim[1] is None else min(top, lim[1])
                bot = bot if lim[0] is None else max(bot, lim[0])
                require_close(zz[:, i], np.linspace(top, bot, nz), 'levels', atol=1e-4)
                comps = [q for fl in flds for q in range(len(true(0, (0, 0, 0))[fl]))]
                for k in range(nz):
                    w = np.concatenate([true(f, (X[i], Y[i], zz[k, i]))[fl] for fl in flds])
                    require_close([o[k, i] for o in out[1:]], w, 'transect', atol=1e-8)
            c.evaluate()
            require(bytes_() == before, 'evaluating a diagnostic changed the model state')
            rec.step()
        require_equal(len(c.variable_names), len(out), 'names')
        rec.state('transect', np.size(xs), np.size(ys), nz, lim, flds, seq)
    lines = [([.3, .9, 1.4], [.2, .4, .8]), ([.5], [.3, .5, .6]), (1.1, [.5, .7]), ([.3, .9, 1.4, .3], .4)]
    for xs, ys in lines:
        for nz in (2, 5):
            for lim in ((None, None), (-2., -.9), (None, -.9)):
                for flds in (('salt_3d',), ('uv_3d', 'salt_3d')):
                    for seq in seqs[:1] if quick else seqs:
                        rec.check({'transect': [xs, ys], 'levels': nz, 'limits': lim, 'fields': flds, 'states': seq}, transect, xs, ys, nz, lim, flds, seq)
