"""P16: conservation in 2D."""
import itertools
import numpy as np
from .common import require, require_close, Violation, Scratch, quiet
from .models import solver2d
from . import p23
from .p23 import Model, TracerModel, FAMS, generic, assembled

RULE = ('forms: every family x form of the equations, tested with one, for every basis function of the solution and lagged states with and without drying, every bathymetry of a basis; '
        'runs: every integrator x family x equation option from an alphabet of initial states, all histories of full and half steps to a depth, the budgets checked after every step')
ASSUMPTIONS = ['exact linear solvers', 'small distorted mesh of both cell types']
CASE_TIMEOUT = 900
GROUP_TIMEOUT = 3600

STEPPERS = ['CrankNicolson', 'BackwardEuler', 'SSPRK33', 'ForwardEuler', 'DIRK22', 'DIRK33', 'SSPIMEX', 'PressureProjectionPicard']
TSTEPPERS = ['CrankNicolson', 'BackwardEuler', 'SSPRK33', 'ForwardEuler', 'DIRK22', 'DIRK33']
QUICK = {'CrankNicolson': (0, 1, 2, 3, 4), 'BackwardEuler': (5,), 'SSPRK33': (0, 1), 'ForwardEuler': (4,), 'DIRK22': (3,), 'DIRK33': (0,), 'SSPIMEX': (1,), 'PressureProjectionPicard': (2,)}


def groups(tier):
    quick = tier == 'quick'
    g = []
    for st in STEPPERS:
        for k, f in enumerate(FAMS):
            if st == 'PressureProjectionPicard' and f[0] != 'dg-cg':
                continue
            if not quick or k in QUICK[st]:
                g.append({'kind': 'runs', 'stepper': st, 'space': f})
    for st in TSTEPPERS:
        for fam in ('dg', 'cg'):
            for cons in (True, False):
                # CG with an explicit integrator is not stable, but conserves all the same
                if not quick or (fam == 'dg' or st == 'CrankNicolson') and (cons or st in ('CrankNicolson', 'SSPRK33', 'DIRK33')):
                    g.append({'kind': 'tracers', 'stepper': st, 'family': fam, 'conservative': cons, 'cell': 'tri' if st != 'DIRK22' else 'quad'})
    for f in FAMS + ([] if quick else p23.MORE):
        g.append({'kind': 'forms', 'space': f})
    g += [{'kind': 'tracerforms', 'cell': c, 'family': f} for c, f in (('tri', 'dg'), ('tri', 'cg'), ('quad', 'dg'))]
    return g


def run_group(group, rec):
    import thetis as th
    quiet()
    with Scratch():
        globals()['g_' + group['kind']](group, rec, th)


def g_forms(group, rec, th):
    """The equations tested with one: nothing but the sources changes the volume; still water is not accelerated."""
    space = tuple(group['space'])
    quick = rec.tier == 'quick'
    forms = [dict(nonlinear=True), dict(nonlinear=False), dict(wd=.7), dict(lf=False, graddepth=False), dict(graddiv=True)]
    at = FAMS.index(space) if space in FAMS else 0
    coefs = [(), ('volume_source', 'horizontal_viscosity', 'coriolis_frequency', 'wind_stress', 'quadratic_drag_coefficient', 'atmospheric_pressure')]
    for k, f in enumerate(forms):
        if quick and k > 1 and at and k != 2 + at % 3:
            continue
        for c in coefs:
            names = tuple(n for n in c if n in p23.COEFS)
            M = Model(th, space, coefs=names, **f)
            M.bnd = {}
            n, nu = M.n if hasattr(M, 'n') else M.BU.coef.shape[0] + M.BE.coef.shape[0], M.BU.coef.shape[0]
            src = 0.
            if 'volume_source' in names:
                src = float(th.assemble(M.s.options.volume_source_2d*th.dx))

            def volume(old, i):
                M.set_old(old)
                M.set_sol(i)
                a = M.model()
                require(abs(a[nu:].sum() - src) <= 1e-9*(1 + np.abs(a).max()), 'volume changes at {:} m3/s, sources give {:}', a[nu:].sum(), src)
                rec.step()
                rec.state(space, k, names, old, i)

            def still(eta, b):
                bf = M.s.fields.bathymetry_2d
                save = bf.dat.data_ro.copy()
                bf.dat.data[:] = 10.
                if b is not None:
                    bf.dat.data[b] += 8.
                try:
                    for w in (M.sol, M.old):
                        w.subfunctions[0].assign(0.)
                        w.subfunctions[1].assign(eta)
                    a = M.model()
                finally:
                    bf.dat.data[:] = save
                require(np.abs(a).max() <= 1e-8, 'still water at level {:} over bathymetry node {:} is forced by {:}', eta, b, np.abs(a).max())
                rec.step()
                rec.state(space, k, eta, b)
            for old in ('rest', 'mild', 'strong'):
                for i in [None] + list(range(0, n, 1 if not quick else 3)):
                    rec.check({'form': f, 'coefficients': names, 'lagged': old, 'solution': i}, volume, old, i)
            if not names:
                nb = M.s.fields.bathymetry_2d.dat.data_ro.size
                for eta in (0., .5, -1.):
                    for b in [None] + list(range(nb)):
                        rec.check({'form': f, 'level': eta, 'bathymetry': b}, still, eta, b)


def g_tracerforms(group, rec, th):
    cell, fam = group['cell'], group['family']
    for cons in (True, False):
        for lf, diff, source in ((True, 2., .3), (False, None, None)):
            M = TracerModel(th, cell, fam, cons, lf=lf, diffusivity=diff, source=source)
            M.bnd = {}
            s = M.s
            src = 0.
            H = s.depth.get_total_depth(s.fields.elev_2d) if hasattr(s, 'depth') else None

            def mass(flow, i):
                M.set_flow(flow)
                M.set_sol(i)
                a = M.model()
                src = 0.
                if source is not None:
                    # what the sources of the whole column amount to
                    x = M.c[0]['source']
                    src = (M.W.cells(lambda D: p23.wf.K(x).at(D)*M.refs[0].depth(D, D.val(M.W.poly(M.elev)))) if cons else M.W.cells(lambda D: p23.wf.K(x).at(D)))
                    src = float(np.ravel(src)[0])
                if cons:
                    walls = through_walls(M)
                    require(abs(a.sum() - src + walls) <= 1e-7*(1 + np.abs(a).max()), 'mass changes at {:}, sources give {:}, passing the walls {:}', a.sum(), src, walls)
                rec.step()
                rec.state(cell, fam, cons, lf, flow, i)

            def through_walls(M):
                """Flow through closed boundaries that the velocity does not respect."""
                uv, q = M.W.poly(M.uv), M.W.poly(M.sol)
                return float(np.ravel(M.W.boundary(lambda D, n: D.val(q)*(D.val(uv)*n).sum(-1)))[0])

            def constant(flow, c):
                M.set_flow(flow)
                M.sol.assign(c)
                a = M.model()
                M.sol.assign(0.)
                b = M.model()
                require(np.abs(a - b).max() <= 1e-9*(1 + abs(c)), 'a constant tracer of {:} changes', c)
                rec.step()
                rec.state(cell, fam, cons, lf, flow, 'const', c)
            for flow in ('mild', 'strong', 'back'):
                for i in [None, -1] + list(range(M.nq)):
                    rec.check({'conservative': cons, 'upwind jump': lf, 'flow': flow, 'solution': i}, mass, flow, i)
                if not cons:
                    for c in (1., -3., 1e3):
                        rec.check({'conservative': cons, 'upwind jump': lf, 'flow': flow, 'constant': c}, constant, flow, c)


LU = {'snes_type': 'newtonls', 'snes_linesearch_type': 'basic', 'snes_convergence_test': 'skip', 'snes_max_it': 4, 'ksp_type': 'preonly', 'pc_type': 'lu', 'mat_type': 'aij'}
LUX = {'ksp_type': 'preonly', 'pc_type': 'lu', 'mat_type': 'aij', 'snes_type': 'ksponly'}


def build(th, stepper, space, tracer=None, source=0., vsource=None, forced=False, conservative=True, tfam='dg', limiter=True, bed=None, alpha=None, **opts):
    from thetis.field_defs import field_metadata
    field_metadata.pop('q_2d', None)
    fam, cell, deg = space
    m = p23.mesh(th, cell, 3, 2)
    b = bed(m) if bed else lambda x, y: 10. + 3.*th.sin(x/40.) + 2.*th.cos(y/25.)
    explicit = stepper in ('SSPRK33', 'ForwardEuler')

    def pre(s):
        o = s.options
        o.element_family, o.polynomial_degree = fam, deg
        if stepper == 'PressureProjectionPicard':
            o.swe_timestepper_options.solver_parameters_pressure = {'ksp_type': 'preonly', 'mat_type': 'aij', 'pc_type': 'lu', 'snes_type': 'ksponly'} if not opts.get('use_wetting_and_drying') else dict(LU)
            o.swe_timestepper_options.solver_parameters_momentum = dict(LU)
            o.swe_timestepper_options.picard_iterations = 2
        else:
            o.swe_timestepper_options.solver_parameters = dict(LUX if explicit else LU)
        if alpha is not None:
            o.wetting_and_drying_alpha = alpha(m)
        if vsource is not None:
            o.volume_source_2d = vsource(m)
        if forced:
            x, y = th.SpatialCoordinate(m)
            o.coriolis_frequency = th.Constant(1e-2)
            o.horizontal_viscosity = th.Constant(1.)
            o.wind_stress = th.as_vector((th.Constant(.5), .1*th.sin(x)))
            o.quadratic_drag_coefficient = th.Constant(2.5e-3)
            o.norm_smoother = th.Constant(1e-3)
            o.momentum_source_2d = th.as_vector((th.Constant(1e-3), 1e-3*th.cos(y)))
        if tracer:
            o.tracer_element_family = tfam
            o.use_limiter_for_tracers = limiter
            o.tracer_timestepper_type = tracer
            if hasattr(o.tracer_timestepper_options, 'use_automatic_timestep'):
                o.tracer_timestepper_options.use_automatic_timestep = False
            o.tracer_timestepper_options.solver_parameters = dict(LU)
            kw = {}
            if source:
                kw['source'] = th.Constant(source)
            if diffusion:
                kw['diffusivity'] = th.Constant(diffusion)
            o.add_tracer_2d('q_2d', 'tracer', 'Q2d', use_conservative_form=conservative, **kw)
    diffusion = opts.pop('diffusivity', None)
    s = solver2d(m, dt=.5, texp=1., end=10., bath=b, stepper=stepper, pre=pre, **opts)
    s.initialize()
    return s


def start(s, kind):
    u, e = s.fields.solution_2d.subfunctions
    if kind == 'still':
        u.assign(0.)
        e.assign(.7)
    elif kind == 'dense':
        u.dat.data.reshape(-1)[:] = .1*generic(u.dat.data_ro.size, 3)*(1. if u.dat.data_ro.ndim > 1 else 20.)
        e.dat.data[:] = .1*generic(e.dat.data_ro.size, 4)
    elif kind == 'bump':
        u.assign(0.)
        e.assign(0.)
        e.dat.data[len(e.dat.data)//2] = 1.
    if 'q_2d' in s.fields:
        q = s.fields['q_2d']
        q.dat.data[:] = 2. + generic(q.dat.data_ro.size, 9)
    s.timestepper.initialize(s.fields.solution_2d)


def swirl(th, s, state):
    """A steady flow that does not cross any wall; the level varies."""
    u, e = s.fields.solution_2d.subfunctions
    psi = th.Function(th.get_functionspace(s.mesh2d, 'CG', 1 if 'quad' in str(s.mesh2d.ufl_cell()) else 2))
    psi.dat.data[:] = 2e3*generic(psi.dat.data_ro.size, 5 if state == 'dense' else 8)
    th.DirichletBC(psi.function_space(), 0., 'on_boundary').apply(psi)
    u.project(th.perp(th.grad(psi)))
    e.dat.data[:] = .5*generic(e.dat.data_ro.size, 6)
    s.timestepper.initialize(s.fields.solution_2d)


def volume(th, s):
    f = s.fields
    return float(th.assemble((f.elev_2d + f.bathymetry_2d)*th.dx))


def histories(tier, long=False):
    return list(itertools.product(('step', 'half'), repeat=2 if tier == 'quick' and not long else 3))


def advance(s, t, dt, op, upd=None):
    if op == 'half':
        dt = .25 if dt == .5 else .5
        s.timestepper.set_dt(dt)
    s.timestepper.advance(t, upd)
    return t + dt, dt


def g_runs(group, rec, th):
    st, space = group['stepper'], tuple(group['space'])
    quick = rec.tier == 'quick'
    built = {}
    clock = th.Constant(0.)

    def get(key):
        if key not in built:
            nl, forced, src = key
            vs = {None: None, 'uniform': lambda m: th.Constant(1e-2), 'field': lambda m: th.Function(th.get_functionspace(m, 'CG', 1)).interpolate(1e-2*th.sin(th.SpatialCoordinate(m)[0]/30.)),
                  'time': lambda m: clock*1e-2}[src]
            built[key] = build(th, st, space, vsource=vs, forced=forced, use_nonlinear_equations=nl)
        return built[key]

    def run(key, state, h):
        s = get(key)
        nl, forced, src = key
        s.timestepper.set_dt(.5)
        clock.assign(1.)
        start(s, state)
        area = p23.LX*p23.LY
        V = volume(th, s)
        uniform = 0. if src is None else float(th.assemble(s.options.volume_source_2d*th.dx(domain=s.mesh2d))) if src != 'time' else None
        t, dt = 0., .5
        for k, op in enumerate(h):
            seen = []

            def upd(t):
                seen.append(t)
                clock.assign(1. + t)
            if src == 'time':
                clock.assign(1. + t)
            t, dt = advance(s, t, dt, op, upd)
            w = volume(th, s)
            if src == 'time':
                # the source grows linearly: a step adds between what it is at both ends, exactly the middle for methods of order two
                lo, hi = (w0*1e-2*area*dt for w0 in (1. + t - dt, 1. + t))
                require(lo*(1 - 1e-9) <= w - V <= hi*(1 + 1e-9), 'step {:} of {:} added {:} m3, the source gives between {:} and {:}', k + 1, h, w - V, lo, hi)
                if st in ('SSPRK33', 'DIRK22', 'DIRK33', 'SSPIMEX'):
                    require_close(w - V, .5*(lo + hi), 'volume added by step {:} of {:}'.format(k + 1, h), rtol=1e-6)
            else:
                require(abs(w - V - dt*uniform) <= 1e-12*V + 1e-9*abs(dt*uniform), 'step {:} of {:} from {:} changed the volume by {:} m3, sources give {:}', k + 1, h, state, w - V, dt*uniform)
            V = w
            u, e = s.fields.solution_2d.subfunctions
            if state == 'still' and not forced and src is None:
                require(np.abs(u.dat.data_ro).max() <= 1e-9, 'still water moves at {:} after step {:} of {:}', np.abs(u.dat.data_ro).max(), k + 1, h)
                require_close(e.dat.data_ro, .7 + 0*e.dat.data_ro, 'level of still water', rtol=0, atol=1e-9)
            elif state != 'still':
                require(np.isfinite(u.dat.data_ro).all() and np.abs(u.dat.data_ro).max() > 1e-6, 'nothing moves')
            rec.step()
        rec.state(st, space, key, state, h)
    for nl in (True, False):
        for forced, src in ((False, None), (True, None), (False, 'uniform'), (True, 'field'), (False, 'time')):
            if quick and space != FAMS[0] and (src == 'uniform' or not nl and (forced or src)):
                continue
            for state in ('still', 'dense', 'bump'):
                for h in histories(rec.tier):
                    rec.check({'nonlinear': nl, 'forced': forced, 'source': src, 'state': state, 'history': h}, run, (nl, forced, src), state, h)


def g_tracers(group, rec, th):
    st, fam, cons, cell = group['stepper'], group['family'], group['conservative'], group['cell']
    built = {}

    def get(key):
        if key not in built:
            nl, source, limiter, space, diff = key
            built[key] = build(th, 'CrankNicolson', space, tracer=st, source=source, conservative=cons, tfam=fam, limiter=limiter, use_nonlinear_equations=nl, diffusivity=diff, tracer_only=cons)
        return built[key]

    def mass(s):
        return float(th.assemble(s.fields.q_2d*th.dx))

    def run(key, state, h):
        s = get(key)
        nl, source, limiter, space, diff = key
        s.timestepper.set_dt(.5)
        start(s, state)
        q = s.fields.q_2d
        if cons:
            swirl(th, s, state)
        const = not cons
        if const:
            q.assign(4.)
            s.timestepper.initialize(s.fields.solution_2d)
        M = mass(s)
        t, dt, c = 0., .5, 4.
        for k, op in enumerate(h):
            walls = 0.
            t, dt = advance(s, t, dt, op)
            add = 0.
            if source:
                add = dt*source*float(th.assemble(s.fields.bathymetry_2d*th.dx))
            w = mass(s)
            if cons:
                require(abs(w - M - add) <= 1e-9*abs(M), 'step {:} of {:} from {:} changed the mass by {:}, sources give {:}', k + 1, h, state, w - M, add)
            else:
                c += source*dt
                require_close(q.dat.data_ro, c + 0*q.dat.data_ro, 'constant tracer after step {:} of {:} from {:}'.format(k + 1, h, state), rtol=1e-8)
            M = w
            rec.step()
        rec.state(st, fam, cons, key, state, h)
    # velocities without flow through the walls, for conservation
    flows = [('dg-dg', cell, 1)] if cons else [('dg-dg', cell, 1), ('rt-dg', cell, 1)]
    for space in flows:
        for nl, source, diff in ((True, 0., None), (True, 0., 1.), (False, .1, None), (False, 0., .5)):
            for limiter in ((True, False) if fam == 'dg' and not source else (False,)):
                if rec.tier == 'quick' and limiter and not nl:
                    continue
                for state in ('dense', 'bump'):
                    for h in histories(rec.tier):
                        rec.check({'flow': space, 'nonlinear': nl, 'source': source, 'limiter': limiter, 'diffusivity': diff, 'state': state, 'history': h}, run,
                                  (nl, source, limiter, space, diff), state, h)
