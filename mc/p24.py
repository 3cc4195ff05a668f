"""P24: observation misfits and inversion progress."""
import glob
import itertools
import math
import os
import numpy as np
from .common import require_close, Scratch, quiet
from . import common
from .p20 import Violation, require

RULE = ('misfit: every set of up to three stations out of a set of places (also the same place twice) x data kind x activity windows x weights x sequences of times, against the sum over the observations; '
        'gradients of every such misfit against the exact ones, at and away from a perfect match; progress: every history of functional and gradient evaluations and accepted steps to a depth, in memory and in the files; '
        'regularisation on unit states; a real run with observations read from the files of another run')
ASSUMPTIONS = ['fields linear in space, which the projection to linear elements represents exactly', 'one process', 'no PDE between control and field in the progress histories']
CASE_TIMEOUT = 600
GROUP_TIMEOUT = 3600

LX, LY = 200., 100.
PLACES = [(50., 30.), (120., 77.), (0., 0.), (100., 50.), (50., 30.)]      # the last one is the first one again


def groups(tier):
    quick = tier == 'quick'
    g = []
    for vec in (False, True):
        for i in range(3 if quick else 6):
            g.append({'kind': 'misfit', 'vector': vec, 'slice': [i, 3 if quick else 6]})
        g.append({'kind': 'gradient', 'vector': vec})
    g += [{'kind': 'progress', 'slice': [i, 4]} for i in range(4)]
    g += [{'kind': 'controls'}, {'kind': 'regularisation'}, {'kind': 'run'}, {'kind': 'refuse'}]
    return g


def run_group(group, rec):
    import thetis as th
    quiet()
    with Scratch():
        globals()['g_' + group['kind']](group, rec, th)


def inv():
    import thetis.inversion_tools as it
    return it


def tape():
    it = inv()
    t = it.get_working_tape()
    t.clear_tape()
    it.continue_annotation()
    return t


def mesh(th, quad=False):
    return th.RectangleMesh(2, 2, LX, LY, quadrilateral=quad)


# observations of station i: piecewise linear in time
TIMES = [np.array([0., 10., 20., 40.]), np.array([-5., 7., 21., 60.]), np.array([0., 40.])]
DATA = [np.array([1., 3., -2., 0.]), np.array([.5, -.25, 2., 4.]), np.array([2., 2.])]
DATAV = [np.array([0., 1., 1., 3.]), np.array([-1., 2., 0., .3]), np.array([0., 4.])]


def obs(i, t, comp=0):
    """value of the record at a time, by hand"""
    ts, d = TIMES[i % 3], (DATA if comp == 0 else DATAV)[i % 3]*(1 + i//3)
    for a, b, u, v in zip(ts[:-1], ts[1:], d[:-1], d[1:]):
        if a <= t <= b:
            return u + (v - u)*(t - a)/(b - a)
    raise AssertionError


def manager(th, m, stations, vec, windows=None, scale=1., variable=None, outdir='obs', **kw):
    it = inv()
    man = it.StationObservationManager(m, output_directory=outdir)
    xs, ys = [np.array([PLACES[p][a] for p in stations]) for a in (0, 1)]
    n = len(stations)
    d0 = [DATA[i % 3]*(1 + i//3) for i in range(n)]
    d1 = [DATAV[i % 3]*(1 + i//3) for i in range(n)]
    args = {}
    if windows is not None:
        args = dict(start_times=[w[0] for w in windows], end_times=[w[1] for w in windows])
        if kw.get('arrays'):
            args = {k: np.array(v) for k, v in args.items()}
    man.cost_function_scaling = th.Constant(scale) if not kw.get('real_scale') else th.domain_constant(scale, m)
    man.register_observation_data([f'st{i}' for i in range(n)], variable or ('uv' if vec else 'elev'), [TIMES[i % 3] for i in range(n)], xs, ys, data=(d0, d1) if vec else d0, **args)
    man.construct_evaluator()
    return man


WINDOWS = {'none': None, 'all': (-math.inf, math.inf), 'early': (-math.inf, 10.), 'late': (10., math.inf), 'middle': (7., 21.), 'empty': (15., 14.), 'point': (20., 20.)}


def model_value(state, p, comp=0):
    """the model field: linear in space"""
    a, b, c = state
    x, y = PLACES[p]
    return (a + b*x + c*y) if comp == 0 else (b*7. - a*x*.01 + 2*c*y)


def set_field(th, f, state, vec):
    a, b, c = [th.Constant(v) for v in state]
    x, y = th.SpatialCoordinate(f.function_space().mesh())
    e = a + b*x + c*y
    if vec:
        e = th.as_vector((e, b*7. - a*x*.01 + 2*c*y))
    f.project(e) if f.function_space().ufl_element().family() in ('Raviart-Thomas', 'RTCF', 'Brezzi-Douglas-Marini') else f.interpolate(e)


SPACES = {False: [('CG', 1), ('DG', 1), ('CG', 2)], True: [('DG', 1), ('CG', 1), ('RT', 2), ('BDM', 1)]}
STATES = [(0., 0., 0.), (1., .01, -.02), (-2., 0., .05)]


def g_misfit(group, rec, th):
    from firedrake.adjoint import pause_annotation
    inv()
    pause_annotation()
    vec = group['vector']
    quick = rec.tier == 'quick'
    sets = [[0], [1, 0], [2, 0, 1], [0, 4], [0, 4, 3]] if quick else [[0], [1], [0, 1], [1, 0], [2, 0, 1], [0, 4], [4, 1, 0], [0, 4, 3]]
    if rec.tier != 'quick':
        sets += [list(s) for r in (2, 3, 4) for s in itertools.permutations(range(5), r)][::3]
    wins = [None] + [list(w) for w in itertools.product([w for w in WINDOWS if w != 'none'], repeat=2)][::2 if quick else 1]
    for s, w, quad in itertools.product(sets, wins, (False, True)):
        if quad and (len(s) < 2 or w is None or w[0] != 'late'):
            continue
        if rec.tier == 'quick' and w is not None and len(s) == 1 and w[0] != w[1]:
            continue
        case = dict(stations=s, windows=w, quad=quad)
        rec.check(case, one_misfit, case, vec, rec, th)


def one_misfit(case, vec, rec, th):
    m = mesh(th, case['quad'])
    n = len(case['stations'])
    win = None if case['windows'] is None else [WINDOWS[case['windows'][i % 2]] for i in range(n)]
    h = len(case['stations'])*7 + case['stations'][0]*3 + (0 if win is None else len(str(case['windows'])))
    sp = SPACES[vec][h % (3 if case['quad'] and not vec else 2 if case['quad'] else len(SPACES[vec]))]
    scale = [1., .25, 40.][h % 3]
    man = manager(th, m, case['stations'], vec, win, scale, arrays=bool(h % 2), real_scale=bool(h % 3))
    V = th.get_functionspace(m, sp[0], sp[1], vector=vec and sp[0] in ('CG', 'DG'))
    f = th.Function(V)
    man.set_model_field(f)
    weights = [1.]*n
    for times in ([0., 10., 20.], [3., 7.5, 33.], [40., 0., 20., 20., 7.]):
        got = []
        want = []
        for i, t in enumerate(times):
            st = STATES[(i + h) % 3]
            set_field(th, f, st, vec)
            if i == 1 and h % 2:
                # weights may change between evaluations; places are found by coordinates
                xy = man.station_weight_0d.function_space().mesh().coordinates.dat.data_ro
                w = [1. + .5*((x + 2*y) % 3) for x, y in xy]
                man.station_weight_0d.dat.data[:] = w
                weights = [1. + .5*((PLACES[p][0] + 2*PLACES[p][1]) % 3) for p in case['stations']]
            got.append(float(man.eval_cost_function(t)))
            tot = 0.
            for j, p in enumerate(case['stations']):
                a, b = (-math.inf, math.inf) if win is None else win[j]
                if a <= t <= b:
                    for comp in range(2 if vec else 1):
                        tot += weights[j]*(obs(j, t, comp) - model_value(st, p, comp))**2
            want.append(scale*tot)
            rec.step()
        require_close(got, want, rtol=1e-5, atol=1e-6, what='misfit is not the weighted sum of squares over the stations in use')
    require(list(man.simulation_time)[-1] == 7., 'times of evaluation')
    rec.state(vec, tuple(case['stations']), str(case['windows']), sp[0], sp[1])


def g_gradient(group, rec, th):
    vec = group['vector']
    for s, w, val in itertools.product([[0], [0, 1], [0, 4, 3], [1, 0, 2]], [None, ['early', 'late'], ['middle', 'all']], ['match', 'rest', 'away']):
        if rec.tier == 'quick' and (len(s) + len(str(w)) + len(val)) % 2:
            continue
        case = dict(stations=s, windows=w, state=val)
        rec.check(case, one_gradient, case, vec, rec, th)


def one_gradient(case, vec, rec, th):
    """field = c*(basis) with c in the space of constants; J is quadratic in c"""
    it = inv()
    import firedrake as fd
    tp = tape()
    m = mesh(th)
    n = len(case['stations'])
    win = None if case['windows'] is None else [WINDOWS[case['windows'][i % 2]] for i in range(n)]
    man = manager(th, m, case['stations'], vec, win, .5)
    R = fd.FunctionSpace(m, 'R', 0)
    c0 = {'match': 2., 'rest': 0., 'away': 1.3}[case['state']]
    c = fd.Function(R).assign(c0)
    V = th.get_functionspace(m, 'DG', 1, vector=vec)
    u = fd.Function(V)
    x, y = fd.SpatialCoordinate(m)
    b = [lambda X, Y: 1. + .01*X, lambda X, Y: .5 - .02*Y]
    e = c*b[0](x, y)
    if vec:
        e = fd.as_vector((c*b[0](x, y), c*b[1](x, y)))
    u.interpolate(e)
    man.set_model_field(u)
    times = [0., 10., 20.]
    if case['state'] in ('match', 'rest'):
        # observations that the model hits exactly
        from scipy.interpolate import interp1d
        man2 = it.StationObservationManager(m)
        xs, ys = [np.array([PLACES[p][a] for p in case['stations']]) for a in (0, 1)]
        T = np.array([0., 50.])
        d = [[np.full(2, c0*b[k](X, Y)) for X, Y in zip(xs, ys)] for k in range(2)]
        args = {} if win is None else dict(start_times=[w[0] for w in win], end_times=[w[1] for w in win])
        man2.cost_function_scaling = fd.Constant(.5)
        man2.register_observation_data([f's{i}' for i in range(n)], 'uv' if vec else 'elev', [T]*n, xs, ys, data=tuple(d) if vec else d[0], **args)
        man2.construct_evaluator()
        man2.set_model_field(u)
        man = man2
        o = lambda j, t, k: d[k][j][0]
    else:
        o = lambda j, t, k: obs(j, t, k)
    J = 0
    for t in times:
        J += man.eval_cost_function(t)
    rf = it.ReducedFunctional(J, it.Control(c))

    def exact(v):
        val = der = 0.
        for t in times:
            for j, p in enumerate(case['stations']):
                a, e_ = (-math.inf, math.inf) if win is None else win[j]
                if a <= t <= e_:
                    for k in range(2 if vec else 1):
                        bb = b[k](*PLACES[p])
                        val += .5*(o(j, t, k) - v*bb)**2
                        der += -(o(j, t, k) - v*bb)*bb
        return val, der
    for v in (c0, c0 + 1., c0 - .5, c0):
        cc = fd.Function(R).assign(v)
        val = float(rf(cc))
        g = rf.derivative(apply_riesz=False)
        gv = float(g.dat.data_ro[0]) if hasattr(g, 'dat') else float(g)
        w, dw = exact(v)
        rec.step()
        require_close(val, w, rtol=1e-7, atol=1e-9, what='misfit recomputed for another control')
        require_close(gv, dw, rtol=1e-6, atol=1e-8, what='gradient of the misfit')
        require(math.isfinite(gv), 'gradient of the misfit is not finite')
    rec.state(vec, tuple(case['stations']), str(case['windows']), case['state'])
    tp.clear_tape()


# ---------------------------------------------------------------- progress of an inversion

def g_progress(group, rec, th):
    depth = 4 if rec.tier == 'quick' else 5
    ops = ['J0', 'J1', 'G', 'cb']
    for n in range(1, depth + 1):
        for h in itertools.product(ops, repeat=n):
            # a gradient needs an evaluation, an accepted step a gradient
            if not legal(h):
                continue
            case = dict(history=list(h), vector=len(h) % 2 == 0, kind=['field', 'constant', 'masked', 'two'][(len(h) + h.count('J1')) % 4], multi=h.count('cb') % 2 == 1)
            rec.check(case, one_progress, case, rec, th)


def legal(h):
    j = g = False
    for o in h:
        if o in ('J0', 'J1'):
            j, g = True, g
        elif o == 'G':
            if not j:
                return False
            g = True
        elif not g:
            return False
    return True


class Prob:
    """controls -> field at the stations, without PDE"""
    def __init__(self, th, case, reg=True):
        import firedrake as fd
        it = inv()
        self.tp = tape()
        self.th, self.fd, self.it = th, fd, it
        m = self.m = mesh(th)
        kind = case['kind']
        P1 = self.P1 = th.get_functionspace(m, 'CG', 1)
        x, y = fd.SpatialCoordinate(m)
        R = fd.FunctionSpace(m, 'R', 0)
        self.mappings = None
        if kind == 'field':
            self.controls = [fd.Function(P1, name='bath').assign(1.)]
            e = self.controls[0]
        elif kind == 'constant':
            self.controls = [fd.Function(R, name='c').assign(1.)]
            e = self.controls[0]
        elif kind == 'masked':
            self.controls = [fd.Function(R, name='a').assign(1.), fd.Function(R, name='b').assign(.5)]
            self.mappings = [fd.Function(P1).interpolate(fd.conditional(x < 90., 1., 0.)), fd.Function(P1).interpolate(fd.conditional(x < 90., 0., 1.))]
            e = sum(c*k for c, k in zip(self.controls, self.mappings))
        else:
            self.controls = [fd.Function(P1, name='bath').assign(1.), fd.Function(R, name='c').assign(.25)]
            e = self.controls[0] + self.controls[1]
        self.kind = kind
        vec = case['vector']
        self.stations = [0, 1, 3]
        man = manager(th, m, self.stations, vec, None, .5, outdir='inv/obs')
        V = fd.VectorFunctionSpace(m, 'DG', 1) if vec else fd.FunctionSpace(m, 'DG', 1)
        self.f = fd.Function(V)
        self.vec = vec
        man.set_model_field(self.f)
        self.men = [man]
        self.sm = man
        if case['multi']:
            man2 = manager(th, m, [1, 0], False, None, 2., variable='second', outdir='inv/obs')
            self.f2 = fd.Function(fd.FunctionSpace(m, 'DG', 1))
            man2.set_model_field(self.f2)
            self.men.append(man2)
            self.sm = it.MultiStationObservationManager({'one': man, 'two': man2})
        self.e = e
        self.manager = it.InversionManager(self.sm, output_dir='inv', no_exports=False, penalty_parameters=[], test_consistency=False, test_gradient=False)
        if self.mappings:
            self.manager.add_control(self.controls, mappings=self.mappings)
        elif kind == 'two':
            self.manager.add_control(self.controls[0])
            self.manager.add_control(self.controls[1])
        else:
            self.manager.add_control(self.controls[0])
        self.times = [0., 10., 20.]

        solver = object.__new__(th.solver2d.FlowSolver2d)
        object.__setattr__(solver, 'simulation_time', 0.)
        self.solver = solver
        cost = self.manager.get_cost_function(solver)
        for i, t in enumerate(self.times):
            ee = (i + 1.)*e
            self.f.interpolate(fd.as_vector((ee, -ee)) if vec else ee)
            if case['multi']:
                self.f2.interpolate(3.*ee)
            object.__setattr__(solver, 'simulation_time', t)
            cost()
        self.J0 = float(self.manager.J)
        it.pause_annotation()

    def value(self, vals, place, i):
        """value of the expression at a place at time level i"""
        x = PLACES[place][0]
        if self.kind == 'masked':
            # masks are linear elements on columns x = 0, 100, 200: 1 at the first only
            w = max(0., 1 - x/100.)
            v = vals[0]*w + vals[1]*(1 - w)
        elif self.kind == 'two':
            v = vals[0] + vals[1]
        else:
            v = vals[0]
        return (i + 1.)*v

    def ref(self, vals):
        """J and the time series of every station manager"""
        J = 0.
        ser = []
        for q, man in enumerate(self.men):
            st = self.stations if q == 0 else [1, 0]
            sc = .5 if q == 0 else 2.
            out = {}
            for j, p in enumerate(st):
                rows = []
                for i, t in enumerate(self.times):
                    v = self.value(vals, p, i)*(1. if q == 0 else 3.)
                    if q == 0 and self.vec:
                        J += sc*((obs(j, t, 0) - v)**2 + (obs(j, t, 1) + v)**2)
                        rows.append([v, -v])
                    else:
                        J += sc*(obs(j, t, 0) - v)**2
                        rows.append(v)
                out[f'st{j}'] = rows
            ser.append(out)
        return J, ser


def one_progress(case, rec, th):
    with Scratch():
        progress(case, rec, th)


def progress(case, rec, th):
    import h5py
    P = Prob(th, case)
    fd = P.fd
    M = P.manager
    n = len(P.controls)
    start = [float(c.dat.data_ro[0]) for c in P.controls]
    require_close(P.J0, P.ref(start)[0], rtol=1e-7, atol=1e-9, what='cost function of the forward run')
    choices = {'J0': [v + .5 for v in start], 'J1': [v*-1. + .1*i for i, v in enumerate(start)]}
    rf = M.reduced_functional
    cb = M.get_optimization_callback()
    cur = None
    Jp, djp, acc, nev = [], [], [], []
    rows = {}          # iteration -> values last evaluated in it
    grads = 0
    lastg = None
    for op in case['history']:
        rec.step()
        if op in choices:
            cur = choices[op]
            ms = [fd.Function(c.function_space(), name=c.name()).assign(v) for c, v in zip(P.controls, cur)]
            J = float(rf(ms if n > 1 else ms[0]))
            want = P.ref(cur)[0]
            require_close(J, want, rtol=1e-7, atol=1e-9, what='functional')
            require_close(M.J, want, rtol=1e-7, atol=1e-9, what='functional kept by the manager')
            require_close(M.J_misfit, want, rtol=1e-7, atol=1e-9, what='misfit part kept by the manager')
            require(M.J_reg == 0, 'regularisation part without regularisation', got=M.J_reg)
            rows[len(acc)] = cur
        elif op == 'G':
            d = rf.derivative(apply_riesz=True)
            grads += 1
            lastg = [fd.norm(g) for g in (d if isinstance(d, (list, tuple)) else [d])]
            mlast = cur
            require(M.nb_grad_evals == grads, 'number of gradient evaluations', got=M.nb_grad_evals, want=grads)
        else:
            cb(None)
            Jp.append(P.ref(cur)[0])
            djp.append(list(lastg))
            acc.append(mlast)
            grads = 0
            require(M.nb_grad_evals == 0, 'gradient evaluations not reset')
        require(M.i == len(acc), 'iteration number', got=M.i, want=len(acc))
        require_close(M.J_progress, Jp, rtol=1e-7, atol=1e-9, what='history of the functional')
        require_close(M.J_misfit_progress, Jp, rtol=1e-7, atol=1e-9, what='history of the misfit')
        require(len(M.dJdm_progress) == len(djp), 'length of the history of gradients')
        if djp:
            require_close(M.dJdm_progress, djp, rtol=1e-9, atol=1e-12, what='history of the gradient norms')
    rec.state(case['kind'], case['vector'], case['multi'], tuple(case['history']))
    if not acc:
        require(not glob.glob('inv/*.npy'), 'progress written before an accepted step')
        return
    for nm, want in (('J_progress', Jp), ('J_misfit_progress', Jp), ('J_reg_progress', [0.]*len(Jp)), ('dJdm_progress', djp)):
        require_close(np.load(f'inv/{nm}.npy'), want, rtol=1e-7, atol=1e-9, what=f'{nm} in the file')
    # time series: one row for each iteration in which the functional was evaluated; the file is that of the last accepted step
    k = max(i for i, o in enumerate(case['history']) if o == 'cb')
    upto = {}
    done = 0
    for o in case['history'][:k + 1]:
        if o == 'cb':
            done += 1
        elif o in choices:
            upto[done] = choices[o]
    for q, man in enumerate(P.men):
        for name in P.ref(start)[1][q]:
            var = man.variable
            with h5py.File(f'inv/obs/diagnostic_timeseries_progress_{name}_{var}.hdf5', 'r') as h:
                if q == 0 and P.vec:
                    got = np.stack([h[f'{var}_u_component'][:], h[f'{var}_v_component'][:]], axis=-1)
                else:
                    got = h[var][:]
                require_close(h['time'][:], P.times, rtol=0, atol=0, what='times in the file')
                j = int(name[2:])
                p = (P.stations if q == 0 else [1, 0])[j]
                require((h.attrs['x'], h.attrs['y']) == PLACES[p], 'place of the station in the file', got=(h.attrs['x'], h.attrs['y']), want=PLACES[p])
            want = [P.ref(upto[i])[1][q][name] for i in sorted(upto)]
            require_close(got, want, rtol=1e-7, atol=1e-9, what=f'time series of {name} ({var}) over the iterations')
    # exported controls
    ncm = 2 if case['kind'] == 'two' else 1
    for c in range(ncm):
        files = sorted(glob.glob(f'inv/hdf5/control_{c:02d}_*.h5'))
        require(len(files) == len(acc), 'number of exported controls', got=files, want=len(acc))
        for i, f in enumerate(files):
            require(f.endswith(f'_{i:05d}.h5'), 'name of the exported control', got=f)
            with fd.CheckpointFile(f, 'r') as chk:
                mm = chk.load_mesh()
                fld = chk.load_function(mm, P.controls[c].name() if P.kind == 'field' or (P.kind == 'two' and c == 0) else 'control')
            a = acc[i]
            if case['kind'] == 'masked':
                xs = fd.Function(fld.function_space()).interpolate(fd.SpatialCoordinate(mm)[0]).dat.data_ro
                w = np.maximum(0., 1 - xs/100.)
                want = a[0]*w + a[1]*(1 - w)
            else:
                want = np.full(fld.dat.data_ro.shape, a[c])
            require_close(fld.dat.data_ro, want, rtol=1e-7, atol=1e-9, what='exported control')


def g_controls(group, rec, th):
    """order and grouping of controls and their exports; cost function weights"""
    for kind, wv, multi, vec in itertools.product(('field', 'masked', 'two', 'constant'), (False, True), (False, True), (False, True)):
        case = dict(kind=kind, by_variance=wv, multi=multi, vector=vec)
        rec.check(case, one_control, case, rec, th)


def one_control(case, rec, th):
    P = Prob(th, case)
    M = P.manager
    require([c.name() for c in M.control_coeff_list] == [c.name() for c in P.controls], 'order of the controls')
    require(len(M.control_list) == len(P.controls), 'number of controls')
    start = [float(c.dat.data_ro[0]) for c in P.controls]
    # a second forward run with other settings restarts the cost function
    fd, it = P.fd, P.it
    it.pause_annotation()
    cost = M.get_cost_function(P.solver, weight_by_variance=case['by_variance'])
    tot = 0.
    vals = start
    for i, t in enumerate(P.times):
        ee = (i + 1.)*P.e
        P.f.interpolate(fd.as_vector((ee, -ee)) if P.vec else ee)
        if case['multi']:
            P.f2.interpolate(3.*ee)
        object.__setattr__(P.solver, 'simulation_time', t)
        cost()
        for q, man in enumerate(P.men):
            for j, p in enumerate(P.stations if q == 0 else [1, 0]):
                v = P.value(vals, p, i)*(1. if q == 0 else 3.)
                vec = q == 0 and P.vec
                d0, d1 = DATA[j % 3]*(1 + j//3), DATAV[j % 3]*(1 + j//3)
                w = 1.
                if case['by_variance']:
                    x = np.hypot(d0, d1) if vec else d0
                    var = np.mean((x - x.mean())**2)
                    if var == 0.:
                        return
                    w = 1/var
                tot += (.5 if q == 0 else 2.)*w*((obs(j, t, 0) - v)**2 + ((obs(j, t, 1) + v)**2 if vec else 0.))
        require_close(float(M.J), tot, rtol=1e-7, atol=1e-9, what='cost function over the steps')
        rec.step()
    rec.state(*case.values())


def g_refuse(group, rec, th):
    """an observation that does not exist is not made up"""
    for vec, what, t in itertools.product((False, True), ('no window', 'window', 'other window'), (-1., 41., 100.)):
        case = dict(vector=vec, what=what, t=t)
        rec.check(case, one_refuse, case, rec, th)


def one_refuse(case, rec, th):
    from firedrake.adjoint import pause_annotation
    inv()
    pause_annotation()
    m = mesh(th)
    win = {'no window': None, 'window': [(-200., 200.)], 'other window': [(5., 10.)]}[case['what']]
    man = manager(th, m, [0], case['vector'], win)
    f = th.Function(th.get_functionspace(m, 'DG', 1, vector=case['vector'])).assign(3.)
    man.set_model_field(f)
    try:
        J = float(man.eval_cost_function(case['t']))
    except ValueError:
        require(case['what'] != 'other window', 'a station that is not in use needs no observation')
        return
    require(case['what'] == 'other window', 'compared the model with an observation that does not exist', misfit=J)
    require(J == 0., 'a station that is not in use contributes', misfit=J)
    rec.state(*case.values())


# ---------------------------------------------------------------- regularisation

def g_regularisation(group, rec, th):
    for what, local, gam, scale in itertools.product(('gradient', 'hessian', 'constant'), (True, False), (1e-3, .5, 3.), (1., .1)):
        case = dict(what=what, local=local, penalty=gam, scaling=scale)
        rec.check(case, one_reg, case, rec, th)


def one_reg(case, rec, th):
    import firedrake as fd
    it = inv()
    it.pause_annotation()
    m = fd.RectangleMesh(3, 2, LX, LY, quadrilateral=True)
    # columns of different width
    xs = m.coordinates.dat.data[:, 0]
    m.coordinates.dat.data[:, 0] = np.where(xs > LX*.5, LX*.8 + (xs - LX*2/3)*.6, xs*1.2) if case['local'] else xs
    x, y = fd.SpatialCoordinate(m)
    if case['what'] == 'constant':
        R = fd.FunctionSpace(m, 'R', 0)
        for prior, v in itertools.product((0., 1e-4, .5, -2.), (-1., 0., .5, 3.)):
            f = fd.Function(R).assign(prior)
            man = it.ControlRegularizationManager([f], [case['penalty']], case['scaling'], it.RSpaceRegularizationCalculator)
            require_close(float(man.eval_cost_function()), 0., atol=1e-14, what='regularisation of the prior')
            f.assign(v)
            want = case['scaling']*case['penalty']*(v - prior)**2/max(abs(prior), 1e-3)
            require_close(float(man.eval_cost_function()), want, rtol=1e-10, atol=1e-14, what='regularisation of a constant')
            rec.step()
        rec.state(*case.values())
        return
    P1 = fd.FunctionSpace(m, 'CG', 1)
    P1v, P1t = fd.VectorFunctionSpace(m, 'CG', 1), fd.TensorFunctionSpace(m, 'CG', 1)
    cls = it.GradientRegularizationCalculator if case['what'] == 'gradient' else it.HessianRegularizationCalculator
    f, f2 = fd.Function(P1), fd.Function(P1)
    man = it.ControlRegularizationManager([f, f2], [case['penalty'], 2.], case['scaling'], cls, calculator_kwargs={'use_local_element_size': case['local']})
    area = LX*LY if not case['local'] else fd.assemble(fd.Constant(1.)*fd.dx(domain=m))
    h = fd.CellSize(m)
    if not case['local']:
        hmin = fd.Function(fd.FunctionSpace(m, 'DG', 0)).project(h).dat.data_ro.min()
        h = fd.Constant(hmin)
    n = len(f.dat.data_ro)
    states = [np.eye(n)[i] for i in range(0, n, 1 if rec.tier != 'quick' else 3)] + [np.arange(n)*.3]
    lin = fd.Function(P1).interpolate(1. + .02*x - .03*y).dat.data_ro.copy()
    states.append(lin)
    for k, v in enumerate(states):
        f.dat.data[:] = v
        f2.dat.data[:] = -.5*v[::-1]
        got = float(man.eval_cost_function())
        want = 0.
        for fun, gam in ((f, case['penalty']), (f2, 2.)):
            g = fd.Function(P1v)
            t = fd.TestFunction(P1v)
            nrm = fd.FacetNormal(m)
            if case['what'] == 'gradient':
                fd.solve(fd.inner(fd.TrialFunction(P1v), t)*fd.dx == fd.inner(fd.grad(fun), t)*fd.dx, g, solver_parameters={'ksp_rtol': 1e-14})
                want += gam*fd.assemble(fd.inner(g, g)*h**2*fd.dx)
            else:
                fd.solve(fd.inner(fd.TrialFunction(P1v), t)*fd.dx == fd.inner(fd.grad(fun), t)*fd.dx, g, solver_parameters={'ksp_rtol': 1e-14})
                H = fd.Function(P1t)
                s = fd.TestFunction(P1t)
                a = fd.inner(fd.TrialFunction(P1t), s)*fd.dx
                L = -fd.inner(fd.div(s), g)*fd.dx + fd.dot(g, fd.dot(s, nrm))*fd.ds
                fd.solve(a == L, H, solver_parameters={'ksp_rtol': 1e-14})
                want += gam*fd.assemble(fd.inner(H, H)*h**4*fd.dx)
        want *= case['scaling']/area
        require_close(got, want, rtol=1e-4, atol=1e-10, what=f'{case["what"]} regularisation')
        rec.step()
        if k == len(states) - 1 and case['what'] == 'gradient' and not case['local']:
            f2.assign(0.)
            require_close(float(man.eval_cost_function()), case['scaling']*case['penalty']*(.02**2 + .03**2)*hmin**2, rtol=1e-6, atol=1e-14, what='gradient regularisation of a linear control')
    rec.state(*case.values())


# ---------------------------------------------------------------- a real run

def g_run(group, rec, th):
    for where, var, ev, start in itertools.product(('timestep', 'export'), ('elev', 'other'), ((None, None), (10., 30.)), (0., 20.) if rec.tier != 'quick' else (0.,)):
        case = dict(interval=where, variable=var, window=ev, start=start)
        rec.check(case, one_run, case, rec, th)


def one_run(case, rec, th):
    """observations from the station files of one run, compared with another run"""
    with Scratch():
        two_runs(case, rec, th)


def two_runs(case, rec, th):
    it = inv()
    it.pause_annotation()
    names = ['A', 'B']
    xy = [(50., 30.), (120., 77.)]

    def make(out, f):
        m = mesh(th)
        P1 = th.get_functionspace(m, 'CG', 1)
        s = th.solver2d.FlowSolver2d(m, th.Function(P1).assign(10.))
        o = s.options
        o.swe_timestepper_type = 'ForwardEuler'
        o.timestep = 5.
        if hasattr(o.swe_timestepper_options, 'use_automatic_timestep'):
            o.swe_timestepper_options.use_automatic_timestep = False
        o.simulation_export_time = 10.
        o.simulation_end_time = 40.
        o.output_directory = out
        o.no_exports = False
        o.fields_to_export = []
        o.fields_to_export_hdf5 = []
        s.create_fields()
        return s, m
    s, m = make('first', None)
    for nm, (x, y) in zip(names, xy):
        s.add_callback(th.callback.TimeSeriesCallback2D(s, ['elev_2d'], x, y, nm, append_to_log=False), case['interval'])
    a, b = 1.5, -.7

    def value(t, x, y, c):
        return c*(.1 + .01*x - .02*y)*(1 + .05*t)

    def forcing(s, c):
        X = th.SpatialCoordinate(s.mesh2d)

        def upd(t):
            s.fields.elev_2d.interpolate(c*(.1 + .01*X[0] - .02*X[1])*(1 + .05*t))
        return upd

    def drive(s, c):
        """steps that only set the elevation"""
        s.initialize()
        class Step:
            cfl_coeff = 1.

            def initialize(self, *args):
                pass

            def advance(self, t, update_forcings=None):
                forcing(s, c)(t + s.dt)

            def set_dt(self, dt):
                pass
        s.timestepper = Step()
        forcing(s, c)(0.)
        s.iterate()
    drive(s, a)
    files = {nm: glob.glob(f'first/diagnostic_timeseries_{nm}_*.hdf5') for nm in names}
    var = 'elev'
    import h5py
    for nm in names:
        require(len(files[nm]) == 1, 'station file', got=files[nm])
        want = f'first/diagnostic_timeseries_{nm}_{var}.hdf5'
        if case['variable'] == 'other' or files[nm][0] != want:
            with h5py.File(files[nm][0], 'r') as src, h5py.File('x.hdf5', 'w') as dst:
                v2 = 'other' if case['variable'] == 'other' else var
                dst['time'] = src['time'][:]
                dst[v2] = src[[k for k in src if k != 'time'][0]][:]
                dst.attrs['x'], dst.attrs['y'] = src.attrs['x'], src.attrs['y']
            os.replace('x.hdf5', f'first/diagnostic_timeseries_{nm}_{v2}.hdf5')
    var = 'other' if case['variable'] == 'other' else var
    s2, m2 = make('second', None)
    man = it.StationObservationManager(m2, output_directory='second')
    man.cost_function_scaling = th.Constant(.3)
    win = case['window']
    kw = {} if win[0] is None else dict(start_times=[win[0]]*2, end_times=[win[1]]*2)
    man.load_scalar_observation_data('first', names, var, **kw)
    man.set_model_field(s2.fields.elev_2d)
    M = it.InversionManager(man, output_dir='second', no_exports=True, test_consistency=False, test_gradient=False)
    cost = M.get_cost_function(s2)
    s2.add_callback(it.CostFunctionCallback(s2, cost), case['interval'])
    drive(s2, b)
    times = [5.*i for i in range(1, 9)] if case['interval'] == 'timestep' else [10.*i for i in range(5)]
    require(list(man.simulation_time) == times, 'times at which the model was compared', got=man.simulation_time, want=times)
    want = sum(.3*(value(t, x, y, a) - value(t, x, y, b))**2 for t in times for x, y in xy if win[0] is None or win[0] <= t <= win[1])
    require_close(float(M.J), want, rtol=1e-6, atol=1e-9, what='cost function of the run')
    rec.step(len(times))
    rec.state(*[str(v) for v in case.values()])
