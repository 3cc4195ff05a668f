"""P14: coupling of the 2D components."""
import itertools
import numpy as np
from .common import require, require_equal, require_close, Violation, Scratch, quiet
from .models import solver2d

RULE = ('the coupled advance of real 2D models against the same component integrators driven one by one in the documented order, for all combinations of '
        'components, tracer systems, limiter, Picard sweeps, integrators and histories of steps and step changes')
ASSUMPTIONS = ['the component integrators themselves are right (P13, P16, P23)', 'one small mesh']
CASE_TIMEOUT = 600
GROUP_TIMEOUT = 3600

TRACERS = ['none', 'one', 'two', 'mixed', 'mixed+one']
SEDIMENT = ['none', 'suspended', 'exner', 'both', 'both-conservative']


def groups(tier):
    g = []
    for tr in TRACERS[1:]:
        for st in ('CrankNicolson', 'BackwardEuler', 'SSPRK33', 'ForwardEuler', 'DIRK22'):
            if tier == 'quick' and st in ('BackwardEuler', 'ForwardEuler', 'DIRK22') and tr not in ('two',):
                continue
            g.append({'kind': 'coupled', 'tracers': tr, 'sediment': 'none', 'stepper': st})
    for sd in SEDIMENT[1:]:
        g.append({'kind': 'coupled', 'tracers': 'none', 'sediment': sd, 'stepper': 'CrankNicolson'})
        if sd in ('suspended', 'both'):
            g.append({'kind': 'coupled', 'tracers': 'one', 'sediment': sd, 'stepper': 'CrankNicolson'})
    g += [{'kind': 'passive', 'flow': f} for f in ('CrankNicolson', 'DIRK22', 'SSPRK33', 'SSPIMEX')]
    return [{'kind': 'nh'}] + g


def run_group(group, rec):
    import thetis as th
    quiet()
    with Scratch():
        globals()['g_' + group['kind']](group, rec, th)


def build(th, tracers, sediment, stepper, limiter=True, picard=1, tracer_only=False, degree=1, conservative=False, flow='CrankNicolson', clock=None):
    """A model in which every component influences those that come after it."""
    from thetis.field_defs import field_metadata
    for lab in ('a_2d', 'b_2d', 'c_2d', 'd_2d'):
        field_metadata.pop(lab, None)       # the table is shared by all models (known finding of P11)
    mesh = th.RectangleMesh(4, 2, 16., 4.)
    x, y = th.SpatialCoordinate(mesh)
    s = solver2d(mesh, dt=.2, texp=1., end=1., bath=lambda x, y: .4 + .05*th.sin(x/3.) + .02*th.cos(y), stepper=flow,
                 polynomial_degree=degree, use_limiter_for_tracers=limiter, tracer_picard_iterations=picard, tracer_only=tracer_only)
    o = s.options
    if degree:
        o.horizontal_viscosity = th.Constant(1e-6)
    exact = {'ksp_type': 'preonly', 'pc_type': 'lu', 'mat_type': 'aij', 'snes_rtol': 1e-10}
    if flow != 'PressureProjectionPicard':
        o.swe_timestepper_options.solver_parameters = dict(exact)
    o.tracer_timestepper_type = stepper
    o.tracer_timestepper_options.solver_parameters = dict(exact)
    for z in (o.swe_timestepper_options, o.tracer_timestepper_options):
        if hasattr(z, 'use_automatic_timestep'):
            z.use_automatic_timestep = False
    clock = th.Constant(0.) if clock is None else clock
    if tracers in ('one', 'two', 'mixed+one'):
        o.add_tracer_2d('a_2d', 'A', 'A2d', source=th.Constant(.1)*clock, diffusivity=th.Constant(.01), use_conservative_form=conservative)
    if tracers == 'two':
        a = th.Function(th.get_functionspace(mesh, 'DG', 1, name='Q_2d'))
        o.tracer_fields['a_2d'] = a
        o.tracer['a_2d'].function = a
        # depends on the first tracer
        o.add_tracer_2d('b_2d', 'B', 'B2d', source=.5*a + clock*x, diffusivity=th.Constant(.02))
    if tracers.startswith('mixed'):
        Q = th.FunctionSpace(mesh, 'DG', 1)
        f = th.Function(Q*Q)
        c, d = th.split(f)
        o.add_tracer_system_2d(['c_2d', 'd_2d'], ['C', 'D'], ['C2d', 'D2d'], function=f,
                               c_2d={'diffusivity': th.Constant(.01), 'source': clock - c*d},
                               d_2d={'source': c*d - .3*d})
    so = o.sediment_model_options
    if sediment != 'none':
        so.solve_suspended_sediment = sediment != 'exner'
        so.use_bedload = sediment != 'suspended'
        so.solve_exner = sediment != 'suspended'
        so.use_sediment_conservative_form = sediment.endswith('conservative')
        so.average_sediment_size = th.Constant(160e-6)
        so.bed_reference_height = th.Constant(.025)
        so.morphological_acceleration_factor = th.Constant(300.)
        so.horizontal_diffusivity = th.Constant(.15)
        o.nikuradse_bed_roughness = th.Constant(3*160e-6)
        o.norm_smoother = th.Constant(.1)
        so.sediment_timestepper_options.solver_parameters = dict(exact)
        so.exner_timestepper_options.solver_parameters = dict(exact)
    s.bnd_functions['shallow_water'] = {1: {'flux': -.2*4*(1 + clock)*.4}, 2: {'elev': th.Constant(0.)}}
    if sediment in ('suspended', 'both', 'both-conservative'):
        s.bnd_functions['sediment'] = {1: {'flux': th.Constant(-.32), 'equilibrium': None}, 2: {'elev': th.Constant(0.)}}
    init = dict(elev=.02*th.cos(x/5.), uv=th.as_vector((.5 + .1*th.sin(x/4.), .05*th.cos(y))))
    for lab in o.tracer:
        init[lab] = {'a': th.conditional(x < 8., 1., .2), 'b': th.conditional(y < 2., .5, 1.), 'c': .6 + .2*th.sin(x), 'd': .5 + .1*th.cos(y)}[lab[0]]
    s.assign_initial_conditions(**init)
    return s, clock


def fields(s):
    out = {}
    for n, f in s.fields.items():
        if hasattr(f, 'dat') and n not in ('h_elem_size_2d',):
            d = f.dat
            out[n] = np.concatenate([np.ravel(z.data_ro) for z in d]) if len(f.function_space()) > 1 else np.ravel(d.data_ro).copy()
    return out


def drive(s, t, update):
    """One coupled step from the individual integrators, in the documented order."""
    o, ts = s.options, s.timestepper.timesteppers
    n = o.tracer_picard_iterations

    def limit(name):
        if o.use_limiter_for_tracers:
            s.tracer_limiter.apply(s.fields[name])
    if not o.tracer_only:
        ts.swe2d.advance(t, update_forcings=update)
    for i in range(n):
        for system in o.tracer_fields:
            if n == 1:
                ts[system].advance(t, update_forcings=update)
            else:
                ts[system].advance_picard(t, update_forcings=update, update_lagged=i == 0, update_fields=i == n - 1)
            limit(system)
    so = o.sediment_model_options
    if so.solve_suspended_sediment or so.solve_exner:
        s.sediment_model.update()
    if so.solve_suspended_sediment:
        ts.sediment.advance(t, update_forcings=update)
        limit('sediment_2d')
    if so.solve_exner:
        ts.exner.advance(t, update_forcings=update)


def compare(a, b, what, tol=1e-10):
    require_equal(sorted(a), sorted(b), 'fields of the models')
    for n in a:
        require_close(a[n], b[n], '{:} {:}'.format(n, what), rtol=tol, atol=tol)


def g_coupled(group, rec, th):
    tr, sd, st = group['tracers'], group['sediment'], group['stepper']
    depth = 2 if rec.tier == 'quick' else 3
    mixed = tr.startswith('mixed')
    pic = (1, 2, 3) if st == 'CrankNicolson' and tr != 'none' and sd == 'none' else (1,)
    variants = []
    for lim in ((False,) if mixed else (True, False)):
        for p in pic:
            for only in ((False, True) if tr != 'none' and sd == 'none' else (False,)):
                for deg in ((1, 0) if lim and p == 1 and tr != 'none' and sd == 'none' else (1,)):
                    variants.append((lim, p, only, deg, False))
    if tr == 'one':
        variants.append((True, 1, False, 1, True))

    def run(lim, p, only, deg, cons):
        A, ca = build(th, tr, sd, st, lim, p, only, deg, cons)
        B, cb = build(th, tr, sd, st, lim, p, only, deg, cons)
        compare(fields(A), fields(B), 'initially')
        init = fields(A)
        state0 = {n: v.copy() for n, v in init.items()}
        for h in itertools.product(('step', 'half'), repeat=depth):
            for s in (A, B):
                restore(s, state0)
                s.timestepper.set_dt(.2)
                s.timestepper.initialize(s.fields.solution_2d)
            t, dt = 0., .2
            for k, op in enumerate(h):
                if op == 'half':
                    dt = .1 if dt == .2 else .2
                    A.timestepper.set_dt(dt)
                    for z in B.timestepper.timesteppers.values():
                        z.set_dt(dt)
                ta, tb = [], []

                def ua(t):
                    ta.append(t)
                    ca.assign(.1*t)

                def ub(t):
                    tb.append(t)
                    cb.assign(.1*t)
                before = fields(A)
                A.timestepper.advance(t, ua)
                drive(B, t, ub)
                t += dt
                rec.step()
                require_close(np.unique(np.round(ta, 9)), np.unique(np.round(tb, 9)), 'forcing times')
                fa, fb = fields(A), fields(B)
                compare(fa, fb, 'after step {:} of {:}'.format(k + 1, h))
                if only:
                    require(np.array_equal(fa['solution_2d'], before['solution_2d']), 'a tracer-only run changed the flow')
                if sd in ('none', 'suspended'):
                    require(np.array_equal(fa['bathymetry_2d'], before['bathymetry_2d']), 'the bed moved without a bed model')
                elif k:
                    require(not np.array_equal(fa['bathymetry_2d'], before['bathymetry_2d']), 'the bed does not move')
                for n in ('a_2d', 'b_2d', 'c_2d', 'sediment_2d'):
                    if n in fa and not (n == 'sediment_2d' and sd == 'exner'):
                        require(not np.array_equal(fa[n], before[n]), '{:} did not change', n)
                if not only:
                    require(not np.array_equal(fa['solution_2d'], before['solution_2d']), 'the flow did not change')
                rec.state(tr, sd, st, lim, p, only, deg, cons, h[:k + 1])
    for v in variants:
        rec.check(dict(zip(('limiter', 'picard', 'tracer_only', 'degree', 'conservative'), v)), run, *v)


def restore(s, state):
    for n, v in state.items():
        f = s.fields[n]
        if len(f.function_space()) > 1:
            i = 0
            for z in f.dat:
                m = z.data_ro.size
                z.data[:] = v[i:i + m].reshape(z.data_ro.shape)
                i += m
        else:
            f.dat.data[:] = v.reshape(f.dat.data_ro.shape)


def g_passive(group, rec, th):
    """Passive components do not change the flow, nor one another."""
    def run(flow, tr, sd):
        A, _ = build(th, 'none', 'none', 'CrankNicolson', flow=flow)
        B, _ = build(th, tr, sd, 'CrankNicolson', flow=flow, limiter=not tr.startswith('mixed'))
        C, _ = build(th, 'one', 'none', 'CrankNicolson', flow=flow, limiter=not tr.startswith('mixed')) if tr in ('two', 'mixed+one') else (None, None)
        for n in range(3):
            for s in (A, B, C):
                if s is not None:
                    s.timestepper.advance(n*.2)
            fa, fb = fields(A), fields(B)
            require_close(fb['solution_2d'], fa['solution_2d'], 'flow with passive components after step {:}'.format(n + 1), rtol=1e-9, atol=1e-10)
            if C is not None:
                require_close(fb['a_2d'], fields(C)['a_2d'], 'tracer with other tracers after step {:}'.format(n + 1), rtol=1e-9, atol=1e-10)
            rec.step()
            rec.state('passive', flow, tr, sd, n)
    for flow in [group['flow']]:
        for tr in TRACERS[1:]:
            rec.check({'flow': flow, 'tracers': tr}, run, flow, tr, 'none')


def g_nh(group, rec, th):
    """The non-hydrostatic model: flow, pressure, free surface."""
    def make(flow, fs, update):
        mesh = th.RectangleMesh(6, 1, 30., 5.)
        x, y = th.SpatialCoordinate(mesh)
        s = solver2d(mesh, dt=.1, texp=1., end=1., bath=5., stepper=flow, use_nonlinear_equations=True)
        o = s.options
        o.nh_model_options.solve_nonhydrostatic_pressure = True
        o.nh_model_options.update_free_surface = update
        o.nh_model_options.free_surface_timestepper_type = fs
        exact = {'ksp_type': 'preonly', 'pc_type': 'lu', 'mat_type': 'aij', 'snes_rtol': 1e-10}
        o.swe_timestepper_options.solver_parameters = dict(exact)
        o.nh_model_options.free_surface_timestepper_options.solver_parameters = dict(exact)
        s.assign_initial_conditions(elev=.1*th.cos(th.pi*x/30.))
        return s

    def run(flow, fs, update):
        A = make(flow, fs, update)
        B = make(flow, fs, update)
        C = make(flow, fs, update)
        C.poisson_solver.solve = lambda *a, **k: None
        for n in range(2):
            before = fields(A)
            A.timestepper.advance(n*.1)
            ts = B.timestepper.timesteppers
            e0 = th.Function(B.fields.elev_2d)
            if flow in ('CrankNicolson', 'ForwardEuler', 'SSPIMEX'):
                ts.swe2d.advance(n*.1)
                B.poisson_solver.solve()
                if update:
                    B.fields.elev_2d.assign(e0)
                    ts.fs2d.advance(n*.1)
            else:
                m = ts.swe2d.n_stages
                for i in range(m):
                    ts.swe2d.solve_stage(i, n*.1)
                    B.poisson_solver.solve(solve_w=i == m - 1)
                    if update and fs == flow and fs != 'BackwardEuler':
                        B.fields.elev_2d.assign(e0)
                        ts.fs2d.solve_stage(i, n*.1)
                        e0.assign(B.fields.elev_2d)
                    elif update and i == m - 1:
                        B.fields.elev_2d.assign(e0)
                        ts.fs2d.advance(n*.1)
            compare(fields(A), fields(B), 'after step {:}'.format(n + 1))
            fa = fields(A)
            require(np.abs(fa['q_2d']).max() > 1e-6, 'no non-hydrostatic pressure')
            vol = lambda s: th.assemble(s.fields.elev_2d*th.dx)
            require(abs(vol(A)) < 1e-8, 'volume changed by {:}', vol(A))
            rec.step()
            rec.state('nh', flow, fs, update, n)
    for flow in ('CrankNicolson', 'BackwardEuler', 'DIRK22', 'SSPIMEX', 'SSPRK33', 'ForwardEuler'):
        for fs in ('BackwardEuler', 'CrankNicolson', flow) if flow != 'SSPIMEX' else ('BackwardEuler', 'CrankNicolson'):
            for update in (True, False):
                rec.check({'flow': flow, 'free surface': fs, 'update': update}, run, flow, fs, update)
