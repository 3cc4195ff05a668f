"""P01: simulation clock."""
import datetime
import itertools
from .common import require, require_equal, require_close, Violation, Scratch, quiet
from . import models
from .models import FORCING_TIMES, ref_loop

RULE = ('full product of step length x end time (on, between and just beyond step multiples) x start time '
        'x start/end dates x driving mode x time integrator; non-trivial: every case runs the real time loop; '
        'state = (configuration, step number, clock values), transition = one model step compared with the exact-arithmetic clock')
ASSUMPTIONS = ['one process; ends closer than 1e-5 s after a step multiple count as reached (rounding tolerance)']

DTS = {'quick': [0.1, 0.3, 1.0, 2.5, 7.0], 'thorough': [0.1, 0.3, 0.7, 1.0, 2.5, 3.0, 7.0, 1800.0]}
NS = {'quick': ['0', '0.5', '1', '1.001', '2', '3', '3.5', '7'],
      'thorough': ['0', '0.001', '0.5', '1', '1.001', '2', '2.999', '3', '3.5', '5', '7', '13']}
T0S = ['0', '2dt', '100.3', '86400']
DATES = ['none', 'plus2', 'utc', 'both', 'endonly', 'initonly']
INTEGRATORS = ['ForwardEuler', 'SSPRK33', 'CrankNicolson', 'BackwardEuler', 'DIRK22', 'DIRK33',
               'SSPIMEX', 'PressureProjectionPicard', 'SteadyState']


def groups(tier):
    g = [{'kind': 'loop2d', 'dt': dt} for dt in DTS[tier]]
    g += [{'kind': 'int2d', 'ints': INTEGRATORS[i::2]} for i in range(2)]
    g += [{'kind': 'loop3d', 'mode': m} for m in (['split', '2d'])]
    g.append({'kind': 'auto2d'})
    return g


def run_group(group, rec):
    import thetis as th
    quiet()
    with Scratch():
        {'loop2d': loop2d, 'int2d': int2d, 'loop3d': loop3d, 'auto2d': auto2d}[group['kind']](group, rec, th)


def t0_of(spec, dt):
    return 2*dt if spec == '2dt' else float(spec)


def clock_check(rec, tag, got_steps, ref_steps, tol):
    require_equal(len(got_steps), len(ref_steps), 'number of steps')
    for (gt, gi), (rt, ri) in zip(got_steps, ref_steps):
        require(abs(gt - float(rt)) <= tol, 'simulation time {} instead of {} after {} steps', gt, float(rt), ri)
        require_equal(gi, ri, 'iteration count')
        rec.state(tag, ri, round(float(rt), 9))
    rec.step(len(ref_steps))


def loop2d(group, rec, th):
    dt = group['dt']
    for ns, t0s, dates, drive in itertools.product(NS[rec.tier], T0S, DATES, ['iterate', 'next']):
        if drive == 'next' and dates not in ('none', 'plus2'):
            continue
        if ns == '0' and t0s == '0' and dates not in ('plus2', 'utc'):
            continue   # an end time of zero is not a valid option value
        case = dict(dt=dt, ns=ns, t0=t0s, dates=dates, drive=drive)
        rec.check(case, one_loop2d, case, rec, th)


def one_loop2d(case, rec, th):
    from fractions import Fraction
    dt = case['dt']
    t0 = t0_of(case['t0'], dt)
    end_f = models.frac(t0) + Fraction(case['ns'])*models.frac(dt)
    end = float(end_f)
    dates = case['dates']
    tz = datetime.timezone.utc if dates == 'utc' else datetime.timezone(datetime.timedelta(hours=2))
    init = datetime.datetime(2010, 2, 27, 23, 59, 58, tzinfo=tz)
    s = models.solver2d(dt=dt, texp=5*dt, end=end or None, no_exports=True)
    o = s.options
    if dates != 'none':
        if dates != 'endonly':
            o.simulation_initial_date = init
        if dates != 'initonly':
            # microsecond resolution
            o.simulation_end_date = init + datetime.timedelta(seconds=end)
        if dates == 'both':
            o.simulation_end_time = end + 3.5*dt   # dates take precedence
    if dates in ('plus2', 'utc'):
        s2 = models.solver2d(dt=dt, texp=5*dt, end=None, no_exports=True)
        s2.options.simulation_initial_date = o.simulation_initial_date
        s2.options.simulation_end_date = o.simulation_end_date
        s = s2
    s.initialize()
    stub = models.StubStepper()
    s.timestepper = stub
    s.assign_initial_conditions()
    s.simulation_time = t0
    it0 = 0 if t0 == 0 else 17
    s.iteration = it0
    steps, _ = ref_loop(dt, 5*dt, end_f, t0=t0, it0=it0)
    asked = []
    got = []
    limit = len(steps) + 3

    def forcing(t):
        asked.append(t)
        if len(asked) > limit:
            raise Violation('runs past the end: step at t={} with end time {}'.format(t, end))

    class Cb(th.DiagnosticCallback):
        name = 'clk'
        variable_names = ['x']

        def __call__(self):
            got.append((self.solver_obj.simulation_time, self.solver_obj.iteration))
            return (0.,)

        def message_str(self, *a):
            return ''
    s.add_callback(Cb(s, export_to_hdf5=False, append_to_log=False), eval_interval='timestep')
    expect_err = dates in ('plus2', 'utc', 'both') and end_f <= models.frac(t0)
    if expect_err:
        # an end date that is not after the start is refused
        try:
            s.iterate(update_forcings=forcing)
        except AssertionError:
            require(not asked, 'steps taken before refusing')
            return
        raise Violation('end date {} not after the start was accepted'.format(o.simulation_end_date))
    yields = []
    if case['drive'] == 'iterate':
        s.iterate(update_forcings=forcing)
    else:
        it = s.create_iterator(update_forcings=forcing)
        while True:
            try:
                yields.append(next(it))
            except StopIteration:
                break
            require(len(yields) <= limit, 'iterator runs past the end')
        require_equal(len(yields), len(steps), 'number of steps when driven from outside')
    tol = 1e-9*max(1., abs(end))
    starts = [models.frac(t0) + i*models.frac(dt) for i in range(len(steps))]
    require_equal(len(asked), len(steps), 'number of steps of the integrator')
    require_equal(len(stub.log), len(steps), 'number of steps of the integrator')
    for g, w in zip(asked, starts):
        require(abs(g - float(w)) <= tol, 'step starts at {} instead of {}', g, float(w))
    clock_check(rec, str(case), got, steps, tol)
    if case['drive'] == 'next':
        for y, w in zip(yields, starts):
            # the generator hands over the time of the step being completed
            require(abs(y - float(w)) <= tol or abs(y - float(w) - dt) <= tol,
                    'iterator returned time {} for step from {}', y, float(w))
    last = steps[-1] if steps else (t0, it0)
    require(abs(s.simulation_time - float(last[0])) <= tol, 'final time {} instead of {}',
            s.simulation_time, float(last[0]))
    require_equal(s.iteration, last[1], 'final iteration count')


def int2d(group, rec, th):
    for name in group['ints']:
        for dt, ns, t0 in itertools.product([0.1, 0.5], [1, 3] if rec.tier == 'quick' else [1, 3, 6], [0., 50.]):
            case = dict(integrator=name, dt=dt, n=ns, t0=t0)
            rec.check(case, one_int2d, case, rec, th)
    # non-hydrostatic free surface / coupled integrators ask for forcings of the flow once per stage as well
    for name in group['ints'][:2]:
        case = dict(integrator=name, dt=1.0, n=2, t0=0., tracer=True)
        rec.check(case, one_int2d, case, rec, th)


def one_int2d(case, rec, th):
    dt, n, t0 = case['dt'], case['n'], case['t0']
    name = case['integrator']
    s = models.solver2d(dt=dt, texp=10*dt, end=t0 + n*dt, stepper=name,
                        element_family='dg-cg' if name == 'PressureProjectionPicard' else 'dg-dg')
    if case.get('tracer'):
        s.options.add_tracer_2d('tracer_2d', 'tr', 'tr')
        s.options.tracer_timestepper_type = 'CrankNicolson'
    s.initialize()
    s.assign_initial_conditions(elev=th.Constant(0.), uv=th.Constant((1e-3, 0.)))
    s.simulation_time = t0
    asked = []
    s.iterate(update_forcings=lambda t: asked.append(t))
    per = list(FORCING_TIMES[name])
    if case.get('tracer'):
        per = per + [1.0]
    want = [t0 + k*dt + c*dt for k in range(n) for c in per]
    require_close(asked, want, 'forcing times of ' + name, rtol=1e-10, atol=1e-9*dt)
    require_close([s.simulation_time], [t0 + n*dt], 'final time', rtol=1e-10)
    rec.step(n)
    for k in range(n):
        rec.state(name, dt, t0, k, bool(case.get('tracer')))


def auto2d(group, rec, th):
    """Automatically chosen steps: fixed for the run, positive, CFL-scaled, never past the end rule."""
    for name, cfl, bath, depth_scale in itertools.product(['SSPRK33', 'ForwardEuler'], [0.5, 1.0, 2.0], [1., 10., 1000.], [0., 2.]):
        case = dict(integrator=name, cfl=cfl, bath=bath, u=depth_scale)
        rec.check(case, one_auto2d, case, rec, th)


def one_auto2d(case, rec, th):
    s = models.solver2d(dt=1., texp=1e5, end=10., stepper=case['integrator'], bath=case['bath'])
    o = s.options
    o.swe_timestepper_options.use_automatic_timestep = True
    o.cfl_2d = case['cfl']
    o.horizontal_velocity_scale = th.Constant(case['u'])
    s.initialize()
    dt = s.dt
    # documented: element size over (gravity wave speed + velocity scale), scaled by the CFL option
    h = float(s.fields.h_elem_size_2d.dat.data_ro.min())
    base = h/((9.81*case['bath'])**0.5 + case['u'])
    require(dt > 0 and dt <= case['cfl']*base*1.0001, 'automatic step {} exceeds the CFL limit {}', dt, case['cfl']*base)
    s1 = models.solver2d(dt=1., texp=1e5, end=10., stepper=case['integrator'], bath=case['bath'])
    s1.options.swe_timestepper_options.use_automatic_timestep = True
    s1.options.cfl_2d = 1.0
    s1.options.horizontal_velocity_scale = th.Constant(case['u'])
    s1.initialize()
    require_close([dt], [case['cfl']*s1.dt], 'automatic step scales with the CFL option', rtol=1e-9)
    n = 3
    s.options.simulation_end_time = n*dt
    log = models.StubStepper()
    s.timestepper = log
    s.iterate()
    require_close(log.log, [k*dt for k in range(n)], 'step start times', rtol=1e-9, atol=1e-9)
    rec.step(n)
    rec.state(str(case))


def solver3d(th, dt, dt2d, texp, end, stepper, mesh=None, layers=1, out='out3', bathymetry=None, **kw):
    mesh = mesh or models.rect(1, 1, 2000., 1000.)
    P1 = th.get_functionspace(mesh, 'CG', 1)
    b = th.Function(P1, name='bathymetry').assign(10.)
    if bathymetry is not None:
        b.dat.data[:] = bathymetry(P1)
    s = th.solver.FlowSolver(mesh, b, layers)
    o = s.options
    o.timestepper_type = stepper
    o.timestepper_options.use_automatic_timestep = False
    o.timestep = dt
    o.timestep_2d = dt2d
    o.simulation_export_time = texp
    if end is not None:
        o.simulation_end_time = end
    o.output_directory = out
    o.no_exports = True
    o.fields_to_export = []
    o.fields_to_export_hdf5 = []
    o.use_bottom_friction = False
    o.solve_salinity = False
    o.solve_temperature = False
    o.use_turbulence = False
    o.use_implicit_vertical_diffusion = False
    for k, v in kw.items():
        setattr(o, k, v)
    return s




def loop3d(group, rec, th):
    stepper = {'split': 'SSPRK22', '2d': 'LeapFrog'}[group['mode']]
    for dt, mexp, ns, t0s, dates in itertools.product(
            [0.1, 3.0] if rec.tier == 'quick' else [0.1, 0.7, 3.0, 10.0],
            ['2', '2.5'] if rec.tier == 'quick' else ['0.4', '1', '2', '2.5'],
            ['1', '2', '3.5'] if rec.tier == 'quick' else ['0.5', '1', '2', '3.5', '5'],
            ['0', '100.3'], ['none', 'plus2', 'both']):
        case = dict(dt=dt, mexp=mexp, ns=ns, t0=t0s, dates=dates, stepper=stepper)
        rec.check(case, one_loop3d, case, rec, th)


def one_loop3d(case, rec, th):
    import math
    from fractions import Fraction
    dt0 = case['dt']
    texp = float(models.frac(dt0)*Fraction(case['mexp']))
    m = math.ceil(models.frac(texp)/models.frac(dt0))
    dtf = models.frac(texp)/m
    t0 = float(case['t0'])
    end_f = models.frac(t0) + Fraction(case['ns'])*dtf
    end = float(end_f)
    dates = case['dates']
    init = datetime.datetime(2010, 2, 27, 23, 59, 58, tzinfo=datetime.timezone.utc)
    s = solver3d(th, dt0, dt0, texp, end if dates != 'plus2' else None, case['stepper'])
    o = s.options
    if dates != 'none':
        o.simulation_initial_date = init
        o.simulation_end_date = init + datetime.timedelta(seconds=end)
        if dates == 'both':
            o.simulation_end_time = end + 5*dt0
    s.initialize()
    # the step is the requested one, shortened to divide the export interval
    require_close([s.dt], [float(dtf)], 'time step (integer fraction of the export interval)', rtol=1e-9)
    require(s.dt_2d > 0 and s.dt_2d <= dt0*(1 + 1e-9), '2D step {} exceeds the requested {}', s.dt_2d, dt0)
    require_close([s.dt_2d*round(s.dt/s.dt_2d)], [s.dt], '3D step is a multiple of the 2D step', rtol=1e-9)
    stub = models.StubStepper()
    s.timestepper = stub
    s.simulation_time = t0
    s.next_export_t = t0 + texp
    asked, asked3 = [], []
    steps, _ = ref_loop(dtf, texp, end_f, t0=models.frac(t0))
    limit = len(steps) + 3

    def forcing(t):
        asked.append(t)
        if len(asked) > limit:
            raise Violation('runs past the end: step at t={} with end time {}'.format(t, end))
    s.iterate(update_forcings=forcing, update_forcings3d=lambda t: asked3.append(t))
    tol = 1e-6 if dates != 'none' else 1e-9*max(1., end)
    require_equal(len(asked), len(steps), 'number of steps')
    require_equal(asked3, asked, '3D forcing times')
    require_close(asked, [t0 + float(k*dtf) for k in range(len(steps))], 'step start times', rtol=0, atol=tol)
    require_close([s.simulation_time], [float(steps[-1][0])], 'final time', rtol=0, atol=tol)
    require_equal(s.iteration, len(steps), 'iteration count')
    rec.step(len(steps))
    for k in range(len(steps)):
        rec.state(str(case), k)
