"""Construction of minimal models, and reference models of the time loop."""
import os
from fractions import Fraction

_mesh_cache = {}


def rect(nx=1, ny=1, lx=20., ly=10., quad=False):
    import thetis as th
    k = (nx, ny, lx, ly, quad)
    if k not in _mesh_cache:
        _mesh_cache[k] = th.RectangleMesh(nx, ny, lx, ly, quadrilateral=quad)
    return _mesh_cache[k]


# forcing times of each integrator as fractions of the step (from the literature)
_g22 = (2 - 2**0.5)/2
_g33 = 0.4358665215084589994160194511935568
FORCING_TIMES = {
    'ForwardEuler': [1.0],
    'CrankNicolson': [1.0],
    'SteadyState': [1.0],
    'PressureProjectionPicard': [1.0],
    'BackwardEuler': [1.0],
    'DIRK22': [_g22, 1.0],
    'DIRK33': [_g33, (1 + _g33)/2, 1.0],
    'SSPRK33': [0.0, 1.0, 0.5],
    # all shallow water terms are implicit: the explicit stages need no forcing
    'SSPIMEX': [2./11, 69./154, 67./77],
}


def solver2d(mesh=None, dt=1., texp=2., end=6., out='out', bath=10., stepper='ForwardEuler',
             no_exports=True, vtk=(), hdf5=(), pre=None, keep_log=False, **opts):
    """A small FlowSolver2d, options set, not initialised."""
    import thetis as th
    mesh = mesh or rect()
    P1 = th.get_functionspace(mesh, 'CG', 1)
    b = th.Function(P1, name='bathymetry')
    if isinstance(bath, th.Function):
        b.assign(bath)
    elif hasattr(bath, 'ufl_shape') or callable(bath):
        b.interpolate(bath(*th.SpatialCoordinate(mesh)) if callable(bath) else bath)
    else:
        b.assign(bath)
    s = th.solver2d.FlowSolver2d(mesh, b, keep_log=keep_log)
    o = s.options
    o.swe_timestepper_type = stepper
    if hasattr(o.swe_timestepper_options, 'use_automatic_timestep'):
        o.swe_timestepper_options.use_automatic_timestep = False
    o.timestep = dt
    o.simulation_export_time = texp
    if end is not None:
        o.simulation_end_time = end
    o.output_directory = out
    o.no_exports = no_exports
    o.fields_to_export = list(vtk)
    o.fields_to_export_hdf5 = list(hdf5)
    for k, v in opts.items():
        setattr(o, k, v)
    if pre:
        pre(s)
    return s


class StubStepper:
    """Stands in for the time integrator where only the time loop matters."""
    def __init__(self, hook=None):
        self.log = []
        self.hook = hook

    def advance(self, t, update_forcings=None, update_forcings3d=None):
        self.log.append(t)
        if self.hook:
            self.hook(t)
        if update_forcings is not None:
            update_forcings(t)
        if update_forcings3d is not None:
            update_forcings3d(t)

    def initialize(self, *a, **k):
        pass

    def set_dt(self, *a):
        pass


class TooManySteps(Exception):
    pass


def frac(x):
    """The decimal number a float stands for."""
    return Fraction(repr(float(x))) if not isinstance(x, Fraction) else x


def ref_loop(dt, texp, end, t0=0, i0=0, it0=0, first_next=None, initial=True):
    """Reference time loop in exact arithmetic.

    Returns (steps, exports): steps = list of (time, iteration) after each
    step, exports = list of (after step number, time, export index).
    """
    dt, texp, end, t0 = frac(dt), frac(texp), frac(end), frac(t0)
    nxt = t0 + texp if first_next is None else frac(first_next)
    steps, exports = [], []
    ie = i0
    if initial:
        exports.append((0, t0, ie))
    n = 0
    t = t0
    while t < end:
        n += 1
        t = t0 + n*dt
        steps.append((t, it0 + n))
        if t >= nxt:
            ie += 1
            nxt += texp
            exports.append((n, t, ie))
    return steps, exports
