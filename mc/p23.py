"""P23: terms of the equations."""
import itertools
import numpy as np
from .common import require, require_close, require_equal, Violation, Scratch, quiet
from .models import solver2d
from .weak import Weak
from . import weakforms as wf

RULE = ('every family x cell x form of the equations x subset of coefficients: the assembled terms against independently evaluated documented weak forms, for every test function, '
        'with every basis function of the solution space as solution (the terms are affine in it) and a set of lagged states; all sets of labels')
ASSUMPTIONS = ['lagged states vary mildly or are constant in each cell, so that the quadrature of the model is accurate to the tolerance', 'small distorted mesh of both cell types']
CASE_TIMEOUT = 900
GROUP_TIMEOUT = 3600
TOL = 2e-5      # whole residual; single terms are compared more closely

FAMS = [('dg-dg', 'tri', 1), ('rt-dg', 'tri', 1), ('dg-cg', 'tri', 1), ('bdm-dg', 'tri', 1), ('dg-dg', 'quad', 1), ('rt-dg', 'quad', 1), ('dg-cg', 'quad', 1)]
MORE = [('bdm-dg', 'quad', 1), ('dg-dg', 'tri', 2), ('rt-dg', 'tri', 2), ('dg-cg', 'tri', 2)]


def groups(tier):
    g = []
    for f in FAMS + (MORE if tier != 'quick' else []):
        for k in ('base', 'linear'):
            g.append({'kind': 'swe', 'space': f, 'set': k})
    for f in FAMS[:1] if tier == 'quick' else FAMS:
        for k, n in (('flags', 3), ('slope', 1), ('wd', 2)):
            for i in range(n):
                g.append({'kind': 'swe', 'space': f, 'set': k, 'form': i})
    for cell in ('tri', 'quad'):
        for fam in ('dg', 'cg'):
            for cons in (False, True):
                if cell == 'tri' or fam == 'dg' and (not cons or tier != 'quick'):
                    g.append({'kind': 'tracer', 'cell': cell, 'family': fam, 'conservative': cons})
    g += [{'kind': 'labels'}, {'kind': 'others', 'eq': 'modesplit'}, {'kind': 'others', 'eq': 'split'}, {'kind': 'others', 'eq': 'bottom'}, {'kind': 'constants'}]
    return g


def run_group(group, rec):
    import thetis as th
    quiet()
    with Scratch():
        globals()['g_' + group['kind']](group, rec, th)


LX, LY, SK = 200., 120., .2


def mesh(th, cell, nx=2, ny=1):
    m = th.RectangleMesh(nx, ny, LX, LY, quadrilateral=cell == 'quad')
    m.coordinates.dat.data[:, 0] += SK*m.coordinates.dat.data[:, 1]
    return m


def marker(x, y):
    if abs(y) < 1e-9:
        return 3
    if abs(y - LY) < 1e-9:
        return 4
    return 1 if x - SK*y < LX/2 else 2


def weak(th, m):
    W = Weak(th, m)
    W.set_tags(marker)
    return W


BLEN = {1: LY*(1 + SK**2)**.5, 2: LY*(1 + SK**2)**.5, 3: LX, 4: LX}


def generic(n, k=0):
    return np.sin(1.7*np.arange(n) + .9 + 2.3*k)


def fill(f, base, amp, k=0):
    """Nodal values around a base value."""
    th_space = f.function_space()
    f.interpolate(base)
    f.dat.data.reshape(-1)[:] += amp*generic(f.dat.data_ro.size, k)
    return f


_ASSEMBLERS = {}


def assembled(th, form, n):
    """Vector of a linear form, zero forms included."""
    if isinstance(form, (int, float)) or (hasattr(form, 'empty') and form.empty()):
        return np.zeros(n)
    if id(form) not in _ASSEMBLERS:
        from firedrake.assemble import get_assembler
        if len(_ASSEMBLERS) > 200:
            _ASSEMBLERS.clear()
        # the entry keeps the form alive
        _ASSEMBLERS[id(form)] = form, get_assembler(form)
    v = _ASSEMBLERS[id(form)][1].assemble()
    if hasattr(v, 'dat'):
        d = v.dat
        try:
            parts = [p.data_ro.ravel() for p in d]
        except TypeError:
            parts = [d.data_ro.ravel()]
        return np.concatenate(parts)
    raise Violation('not a linear form')


class Recorder:
    """Stands in for the time integrator: keeps what it was given."""
    def __init__(self, *a):
        self.args = a

    def initialize(self, *a, **k):
        pass


COEFS = {
    # option, field in the weak form, kind, base value, variation
    'horizontal_viscosity': ('viscosity_h', 's', 2.3, .2),
    'coriolis_frequency': ('coriolis', 's', 1e-2, 2e-3),
    'wind_stress': ('wind_stress', 'v', (40., -25.), 4.),
    'atmospheric_pressure': ('atmospheric_pressure', 's', 1e4, 3e3),
    'quadratic_drag_coefficient': ('quadratic_drag_coefficient', 's', 2e-1, 2e-2),
    'manning_drag_coefficient': ('manning_drag_coefficient', 's', .11, .001),
    'nikuradse_bed_roughness': ('nikuradse_bed_roughness', 's', .6, .001),
    'linear_drag_coefficient': ('linear_drag_coefficient', 's', 3e-2, 3e-3),
    'momentum_source_2d': ('momentum_source', 'v', (.02, .03), .01),
    'volume_source_2d': ('volume_source', 's', .04, .01),
}
DRAGS = ('quadratic_drag_coefficient', 'manning_drag_coefficient', 'nikuradse_bed_roughness')


def subsets(tier, full):
    names = list(COEFS)
    yield ()
    for n in names:
        yield (n,)
    if full:
        for d in DRAGS:
            yield tuple(n for n in names if n not in DRAGS or n == d)
    if tier != 'quick':
        for a in itertools.combinations([n for n in names if n not in DRAGS[1:]], 2):
            yield a


class Model:
    """A shallow water model, and the reference for its equations."""
    def __init__(self, th, space, coefs=(), const=False, bnd=None, nonlinear=True, lf=True, graddiv=False, graddepth=True, wd=None, bathymetry=None, mesh_=None, nx=2, ny=1,
                 bnd_ref=None, poly_old=None):
        fam, cell, deg = space
        self.th = th
        m = mesh_ or mesh(th, cell, nx, ny)
        self.m = m
        self.W = W = weak(th, m)
        P1 = th.get_functionspace(m, 'CG', 1)
        bf = th.Function(P1)
        x = th.SpatialCoordinate(m)
        # quadratic velocities: the rule of the model is exact for constant depth only
        self.vary = 1. if fam.startswith('dg') else .02
        bf.interpolate(10. + self.vary*(1e-4*x[0] - 2e-4*x[1]) if bathymetry is None else bathymetry(x))
        self.ref_c = {}

        def pre(s):
            o = s.options
            o.element_family, o.polynomial_degree = fam, deg
            o.use_nonlinear_equations, o.use_lax_friedrichs_velocity = nonlinear, lf
            o.use_grad_div_viscosity_term, o.use_grad_depth_viscosity_term = graddiv, graddepth
            o.lax_friedrichs_velocity_scaling_factor = th.Constant(.7)
            self.ref_c['lax_friedrichs_velocity_scaling_factor'] = .7
            if wd is not None:
                o.use_wetting_and_drying = True
                o.wetting_and_drying_alpha = th.Constant(wd)
            for k, n in enumerate(coefs):
                field, kind, base, var = COEFS[n]
                if const and n != 'atmospheric_pressure':
                    v = th.Constant(base)
                    r = np.array(base)
                else:
                    V = P1 if kind == 's' else th.get_functionspace(m, 'CG', 1, vector=True)
                    v = fill(th.Function(V), th.Constant(base), var, k)
                    r = W.poly(v)
                setattr(o, n, v)
                self.ref_c[field] = r
        # NOTE the bathymetry interpolation of solver2d is replaced
        s = solver2d(mesh=m, bath=10., pre=pre)
        s.fields.bathymetry_2d.assign(bf)
        self.s = s
        self.bnd = dict(bnd or {})
        s.bnd_functions['shallow_water'] = self.bnd
        s.create_equations()
        s.dt = 1.
        r = s.get_swe_timestepper(Recorder)
        self.eq, self.sol, self.fields = r.args[0], r.args[1], r.args[2]
        require(r.args[-1] is self.bnd or r.args[-1] == self.bnd, 'boundary conditions did not reach the time integrator')
        self.old = th.Function(self.sol.function_space())
        U, H = self.sol.function_space().subspaces
        U, H = U.collapse() if hasattr(U, 'collapse') else U, H.collapse() if hasattr(H, 'collapse') else H
        self.U, self.H = s.function_spaces.U_2d, s.function_spaces.H_2d
        self.BU, self.BE = W.basis(self.U), W.basis(self.H)
        e = self.U.ufl_element().degree()
        self.ref = wf.Shallow(W, self.BU, self.BE, fam, wf.Depth(W.poly(bf), nonlinear, wd), bnd=bnd_ref if bnd_ref is not None else {}, blen=BLEN, c=self.ref_c, degree_u=e,
                              nonlinear=nonlinear, lf=lf, graddiv=graddiv, graddepth=graddepth, sipg=float(s.options.sipg_factor))
        self.forms = None

    def collect(self):
        th = self.th
        uv, eta = th.split(self.sol)
        uvo, etao = th.split(self.old)
        self.forms = [t.residual(uv, eta, uvo, etao, self.fields, self.fields, self.bnd) for t in self.eq.terms.values()]
        self.n = self.BU.coef.shape[0] + self.BE.coef.shape[0]

    def model(self):
        if self.forms is None:
            self.collect()
        return sum(assembled(self.th, f, self.n) for f in self.forms)

    def reference(self, smoother=0.):
        W = self.W
        p = lambda f: [W.poly(x) for x in f.subfunctions]
        return self.ref.total(*p(self.sol), *p(self.old), smoother=smoother)

    def compare(self, what, tol=TOL):
        a, b = self.model(), self.reference()
        scale = np.abs(b).max()
        require_close(a, b, what, rtol=tol, atol=tol*scale + 1e-9)
        return a

    # lagged states
    def set_old(self, kind):
        th = self.th
        u, e = self.old.subfunctions
        if kind == 'rest':
            u.assign(0.)
            e.assign(0.)
        elif kind == 'mild':
            # linear, with small jumps where the space has jumps
            x = th.SpatialCoordinate(self.m)
            fam = self.s.options.element_family
            u.interpolate(th.as_vector((.8 + 2e-5*x[0] - 3e-5*x[1], -.5 + 4e-5*x[0] + 1e-5*x[1])))
            if fam.startswith('dg'):
                w = th.Function(th.VectorFunctionSpace(self.m, 'DG', 0))
            else:
                w = th.Function(th.FunctionSpace(self.m, 'RTCF' if self.W.quad else 'RT', 1))
            w.dat.data.reshape(-1)[:] = generic(w.dat.data_ro.size, 1)
            w.dat.data[:] *= .004/np.abs(self.W.poly(w).coef).max()
            u.interpolate(u + w)
            e.interpolate(.3 + self.vary*(1e-4*x[0] - 2e-4*x[1]))
            if not fam.endswith('-cg'):
                q = th.Function(th.FunctionSpace(self.m, 'DG', 0))
                q.dat.data[:] = .02*generic(q.dat.data_ro.size, 2)
                e.interpolate(e + q)
        elif kind == 'strong':
            # constant in each cell, or along each facet
            fam = self.s.options.element_family
            if fam.startswith('dg'):
                P0 = th.VectorFunctionSpace(self.m, 'DG', 0)
            else:
                quad = self.W.quad
                P0 = th.FunctionSpace(self.m, 'RTCF' if quad else 'RT', 1)
            w = th.Function(P0)
            w.dat.data.reshape(-1)[:] = generic(w.dat.data_ro.size, 5)
            w.dat.data[:] /= np.abs(self.W.poly(w).coef).max()
            u.interpolate(w)
            if fam.endswith('-cg'):
                e.assign(.4)
            else:
                q = th.Function(th.FunctionSpace(self.m, 'DG', 0))
                q.dat.data[:] = .5 + .4*generic(q.dat.data_ro.size, 3)
                e.interpolate(q)

    def set_sol(self, i):
        """i = None: a dense state, otherwise basis function i."""
        u, e = self.sol.subfunctions
        nu = u.dat.data_ro.size
        u.assign(0.)
        e.assign(0.)
        if i is None:
            u.dat.data.reshape(-1)[:] = generic(nu, 7)
            e.dat.data.reshape(-1)[:] = generic(e.dat.data_ro.size, 8)
        elif i < 0:
            return
        elif i < nu:
            u.dat.data.reshape(-1)[i] = 1.
        else:
            e.dat.data.reshape(-1)[i - nu] = 1.


def default_bnd(th, const=True):
    """One closed, two open, one with side drag."""
    return ({2: {'elev': th.Constant(.2), 'uv': th.Constant((.4, -.3))}, 3: {'drag': th.Constant(.05)}, 4: {'un': th.Constant(-.2)}},
            {2: {'elev': .2, 'uv': np.array([.4, -.3])}, 3: {'drag': .05}, 4: {'un': -.2}})


def g_swe(group, rec, th):
    space, kind = group['space'], group['set']
    flags = {'base': [dict()], 'linear': [dict(nonlinear=False, const=True, graddepth=False)],
             'flags': [dict(lf=False, const=True), dict(graddiv=True), dict(graddiv=True, graddepth=False, lf=False)],
             'wd': [dict(wd=.8), dict(wd=3., const=True)], 'slope': []}[kind]
    if 'form' in group:
        flags = flags[group['form']:group['form'] + 1]
    plain = {}

    def one(flag, coefs, full):
        bnd, ref = default_bnd(th)
        key = str(flag)
        if key not in plain:
            plain[key] = Model(th, space, coefs=(), bnd=bnd, bnd_ref=ref, **flag)
        M0 = plain[key]
        M = Model(th, space, coefs=coefs, bnd=bnd, bnd_ref=ref, **dict(flag, mesh_=M0.m)) if coefs else M0
        for old in ('mild', 'strong'):
            if old == 'strong' and [c for c in coefs if c in DRAGS] and not space[0].startswith('dg'):
                continue
            M.set_old(old)
            M0.set_old(old)
            for i in ([None, -1] + (list(range(M.BU.coef.shape[0] + M.BE.coef.shape[0])) if full else [])):
                M.set_sol(i)
                what = 'solution {:} and lagged state {:}'.format('dense' if i is None else i, old)
                a, b = M.model(), M.reference()
                require_close(a, b, 'residual with ' + what, rtol=TOL, atol=TOL*np.abs(b).max() + 1e-9)
                if len(coefs) == 1:
                    # what the term adds, closely
                    M0.set_sol(i)
                    d, e = a - M0.model(), b - M0.reference()
                    require_close(d, e, 'contribution of {:} with {:}'.format(coefs[0], what), rtol=TOL, atol=TOL*np.abs(e).max() + 1e-10*np.abs(a).max() + 1e-12)
                rec.step()
            rec.state(space, flag, coefs, old)
        u, e = M.sol.subfunctions
        M.set_sol(None)
        e.dat.data[:] *= .3
        m = assembled(th, M.eq.mass_term(M.sol), M.n)
        require_close(m, np.concatenate(M.ref.mass(*[M.W.poly(f) for f in M.sol.subfunctions])), 'mass term', rtol=1e-5, atol=1e-5*np.abs(m).max())
    for flag in flags:
        for coefs in subsets(rec.tier, True):
            full = len(coefs) in (0, 8)
            if kind == 'linear' and rec.tier == 'quick' and len(coefs) == 1 and space != FAMS[0]:
                continue
            if kind in ('flags', 'wd') and not full and coefs and coefs[0] not in ('horizontal_viscosity', 'wind_stress') + DRAGS:
                continue
            rec.check({'form': flag, 'coefficients': coefs}, one, flag, coefs, full and (kind != 'base' or len(coefs) == 0 or coefs[4] == DRAGS[0]))
    if kind == 'slope':
        for graddiv, const in itertools.product((False, True), (False, True)):
            if rec.tier == 'quick' and graddiv == const:
                continue
            rec.check({'term': 'depth gradient in the viscosity', 'graddiv': graddiv, 'constant viscosity': const}, depth_gradient, th, rec, space, graddiv, const)
        for a, b in itertools.permutations(DRAGS, 2):
            rec.check({'refused': (a, b)}, clash, th, rec, space, a, b)


def depth_gradient(th, rec, space, graddiv, const):
    """Difference with and without the term, on a sloping bottom."""
    Ms = []
    m = mesh(th, space[1])
    for gd in (False, True):
        bnd, ref = default_bnd(th)
        Ms.append(Model(th, space, coefs=('horizontal_viscosity',), const=const, graddiv=graddiv, graddepth=gd, bnd=bnd, bnd_ref=ref, mesh_=m,
                        bathymetry=lambda x: 10. + 3e-3*x[0] - 8e-3*x[1]))
    for old in ('mild', 'strong'):
        for i in [None] + list(range(Ms[0].BU.coef.shape[0])):
            v = []
            for M in Ms:
                M.set_old(old)
                M.set_sol(i)
                v.append((M.model(), M.reference()))
            d, e = v[1][0] - v[0][0], v[1][1] - v[0][1]
            require_close(d, e, 'depth gradient term', rtol=5e-3, atol=5e-3*np.abs(e).max() + 1e-9*np.abs(v[0][0]).max())
            if i is None:
                require(np.abs(e).max() > 0, 'no depth gradient')
            rec.step()
    rec.state(space, graddiv, const)


def clash(th, rec, space, a, b):
    M = Model(th, space, coefs=(a, b))
    M.set_old('mild')
    try:
        M.collect()
    except Exception:
        rec.step()
        return
    raise Violation('two bottom drag laws at once accepted')


# ---------------------------------------------------------------------------

class TracerModel:
    def __init__(self, th, cell, fam, conservative, labels=('a_2d',), diffusivity=None, source=None, const=False, bnd=None, bnd_ref=None, lf=False, factor=None, supg=None,
                 velocity='dg-dg', nonlinear=True, mesh_=None):
        from thetis.field_defs import field_metadata
        for x in labels:
            field_metadata.pop(x, None)
        self.th = th
        m = self.m = mesh_ or mesh(th, cell)
        W = self.W = weak(th, m)
        P1 = th.get_functionspace(m, 'CG', 1)
        self.c = [dict() for x in labels]

        def pre(s):
            o = s.options
            o.element_family = velocity
            o.use_nonlinear_equations = nonlinear
            o.tracer_element_family = fam
            o.use_limiter_for_tracers = fam == 'dg'
            o.use_lax_friedrichs_tracer = lf
            o.lax_friedrichs_tracer_scaling_factor = th.Constant(.6)
            if factor is not None:
                o.tracer_advective_velocity_factor = th.Constant(factor)
            if supg:
                o.use_supg_tracer = True
                o.horizontal_velocity_scale = th.Constant(supg[0])
                o.horizontal_diffusivity_scale = th.Constant(supg[1])
            kw = {}
            if len(labels) > 1:
                V = th.get_functionspace(m, 'DG' if fam == 'dg' else 'CG', 1, name='Q_2d')
                for k, x in enumerate(labels):
                    o.add_tracer_2d(x, 'tracer ' + x, 'T' + x.replace('_', ''), use_conservative_form=conservative, **coef(k))
                o.set_tracer_solver_parameters if False else None
                o.tracer_fields.clear() if hasattr(o.tracer_fields, 'clear') else None
                o.tracer_fields[','.join(labels)] = None
            else:
                o.add_tracer_2d(labels[0], 'tracer ' + labels[0], 'T' + labels[0].replace('_', ''), use_conservative_form=conservative, **coef(0))

        def coef(k):
            kw = {}
            self.c[k].update(lax_friedrichs_tracer_scaling_factor=.6, tracer_advective_velocity_factor=1. if factor is None else factor)
            for name, key, v in (('diffusivity', 'diffusivity', diffusivity), ('source', 'source', source)):
                if v is None:
                    continue
                v = v*(1 + .5*k)
                if const:
                    kw[name] = th.Constant(v)
                    self.c[k][key] = v
                else:
                    f = fill(th.Function(P1), th.Constant(v), .1*v, 3 + k)
                    kw[name] = f
                    self.c[k][key] = W.poly(f)
            return kw
        s = self.s = solver2d(mesh=m, bath=10., pre=pre)
        x = th.SpatialCoordinate(m)
        s.fields.bathymetry_2d.interpolate(10. + 1e-4*x[0] - 2e-4*x[1])
        self.system = ','.join(labels)
        self.labels = labels
        self.bnd = dict(bnd or {})
        s.bnd_functions[self.system] = self.bnd
        s.create_equations()
        s.dt = 1.
        r = s.get_tracer_timestepper(Recorder, self.system)
        self.eq, self.sol, self.fields = r.args[:3]
        require(r.args[-1] is self.bnd or r.args[-1] == self.bnd, 'boundary conditions did not reach the time integrator')
        self.uv, self.elev = s.fields.solution_2d.subfunctions
        Q = s.function_spaces.Q_2d
        self.B = W.basis(Q)
        self.nq = self.B.coef.shape[0]
        depth = wf.Depth(W.poly(s.fields.bathymetry_2d), nonlinear)
        self.refs = [wf.Tracer(W, self.B, depth, conservative, bnd_ref or {}, BLEN, c, cg=fam == 'cg', lf=lf, degree=1, sipg=float(s.options.sipg_factor_tracer)) for c in self.c]
        self.supg = supg

    def set_flow(self, kind):
        th, W = self.th, self.W
        x = th.SpatialCoordinate(self.m)
        u, e = self.uv, self.elev
        e.interpolate(.3 + 1e-4*x[0] - 2e-4*x[1])
        if kind == 'mild':
            u.interpolate(th.as_vector((.8 + 2e-3*x[0] - 3e-3*x[1], -.5 + 4e-3*x[0] + 1e-3*x[1]))*.5)
        else:
            w = th.Function(th.VectorFunctionSpace(self.m, 'DG', 0))
            w.dat.data.reshape(-1)[:] = generic(w.dat.data_ro.size, 5)
            if kind == 'back':
                w.dat.data[:] *= -1
            u.interpolate(w)

    def set_sol(self, i):
        parts = self.sol.subfunctions if len(self.labels) > 1 else [self.sol]
        for k, f in enumerate(parts):
            if i is None:
                f.dat.data[:] = 2 + generic(self.nq, 4 + k)
            else:
                f.dat.data[:] = 0.
                if 0 <= i - k*self.nq < self.nq:
                    f.dat.data[i - k*self.nq] = 1.

    def model(self):
        th = self.th
        n = self.nq*len(self.labels)
        return sum(assembled(th, t.residual(self.sol, self.sol, self.fields, self.fields, self.bnd), n) for t in self.eq.terms.values())

    def reference(self):
        W = self.W
        parts = self.sol.subfunctions if len(self.labels) > 1 else [self.sol]
        uv, el = W.poly(self.uv), W.poly(self.elev)
        out = []
        for r, f in zip(self.refs, parts):
            if self.supg:
                r.B = Streamline(W, self.B, uv, *self.supg)
            out.append(r.total(W.poly(f), uv, el))
        return np.concatenate(out)


class Streamline:
    """Test functions of the streamline upwind method, for linear triangles."""
    vector = False

    def __init__(self, W, B, uv, scale, diff):
        self.W, self.B, self.uv = W, B, uv
        self.coef = B.coef
        s = np.array([np.linalg.svd(j, compute_uv=False)[-1] for j in W.J])
        tau = .5*s/scale
        if diff > 0:
            tau = np.minimum(tau, .5*scale*s/diff/3*1.)
        self.tau = tau*(scale > 0)

    def val_at(self, D):
        return D.val(self.B) + self.tau[D.c][:, None]*(D.val(self.uv)*D.grad(self.B)).sum(-1)

    def grad_at(self, D):
        g = D.grad(self.B)
        return g + self.tau[D.c][:, None, None]*np.einsum('nfqkj,nfqk->nfqj', D.grad(self.uv), g)


TRACER_BND = {2: {'value': 1.5}, 3: {'uv': (.3, -.6), 'value': -.7}, 4: {'diff_flux': .4}}


def tracer_bnd(th):
    return ({k: {n: th.Constant(v) for n, v in d.items()} for k, d in TRACER_BND.items()},
            {k: {n: np.array(v) if isinstance(v, tuple) else v for n, v in d.items()} for k, d in TRACER_BND.items()})


def g_tracer(group, rec, th):
    cell, fam, cons = group['cell'], group['family'], group['conservative']
    subs = [dict(), dict(diffusivity=3.), dict(source=.2), dict(diffusivity=2., source=-.1, factor=.8)]
    if fam == 'dg':
        subs += [dict(lf=True), dict(lf=True, diffusivity=2., source=-.1, factor=1.1, const=True), dict(source=.3, nonlinear=False, const=True)]
    elif cell == 'tri':
        subs += [dict(supg=(.5, 30.)), dict(supg=(.5, 0.)), dict(supg=(1., 1e-3), diffusivity=2., const=True)]
    subs += [dict(labels=('a_2d', 'b_2d'), diffusivity=2., source=.1)]
    if fam == 'cg' and cell == 'tri':
        subs += [dict(labels=('a_2d', 'b_2d'), supg=(.5, 30.))]

    def one(kw):
        b, r = tracer_bnd(th)
        M = TracerModel(th, cell, fam, cons, bnd=b, bnd_ref=r, **kw)
        for flow in ('mild', 'strong', 'back'):
            if flow != 'mild' and kw.get('supg') and kw.get('diffusivity'):
                pass
            M.set_flow(flow)
            for i in [None] + list(range(-1, M.nq*len(M.labels))):
                M.set_sol(i)
                a, e = M.model(), M.reference()
                require_close(a, e, 'residual with solution {:}, flow {:}'.format(i, flow), rtol=1e-6, atol=1e-6*np.abs(e).max() + 1e-10)
                rec.step()
            rec.state(cell, fam, cons, kw, flow)
    for kw in subs:
        rec.check({'tracer': kw}, one, kw)


# ---------------------------------------------------------------------------

def g_labels(group, rec, th):
    """Equations as sums of labelled terms."""
    from thetis.equation import Equation, Term
    m = th.UnitSquareMesh(1, 1)
    m.boundary_len = th.utility.compute_boundary_length(m)
    V = th.FunctionSpace(m, 'DG', 0)
    LABELS = ('source', 'explicit', 'implicit', 'nonlinear')

    def make(coef, cls_name):
        def residual(self, solution, solution_old, fields, fields_old, bnd_conditions):
            return coef*solution*self.test*th.dx
        return type(cls_name, (Term,), {'residual': residual})(V)
    f = th.Function(V).assign(1.)

    def value(form):
        return 0. if isinstance(form, int) else assembled(th, form, 2)[0]*2
    weights = [th.Constant(1.), th.Constant(10.), th.Constant(100.)]

    def sums(labels, relabel):
        eq = Equation(V)
        for k, l in enumerate(labels):
            eq.add_term(make(weights[k], 'A' if k < 2 else 'B'), l, None if k != 1 else 'x')
        now = list(labels)
        if relabel:
            which, to = relabel
            keys = list(eq.terms)
            eq.label_term(keys[which[0]] if len(which) == 1 else tuple(keys[i] for i in which), to)
            for i in which:
                now[i] = to
        require_equal(len(eq.terms), len(labels), 'number of terms')
        asked = list(LABELS) + [tuple(c) for n in range(5) for c in itertools.combinations(LABELS, n)] + ['all', ['source', 'implicit'], {'explicit', 'source'}, ('implicit', 'implicit')]
        for a in asked:
            sel = set(LABELS) if a == 'all' else {a} if isinstance(a, str) else set(a)
            want = sum(10.**k for k, l in enumerate(now) if l in sel)
            require_close(value(eq.residual(a, f, f, {}, {}, {})), want, 'sum of terms labelled {:}'.format(a))
            rec.step()
        rec.state(labels, relabel)
    for n in range(4):
        for labels in itertools.product(LABELS, repeat=n):
            if rec.tier == 'quick' and n == 3 and (LABELS.index(labels[0]) + 2*LABELS.index(labels[1]) + 3*LABELS.index(labels[2])) % 4:
                continue
            rec.check({'labels': labels}, sums, labels, None)
            if n == 2:
                for which in ((0,), (1,), (0, 1)):
                    for to in LABELS:
                        rec.check({'labels': labels, 'relabelled': which, 'to': to}, sums, labels, (which, to))

    def refused():
        eq = Equation(V)
        eq.add_term(make(weights[0], 'A'), 'source')
        for fn in (lambda: eq.add_term(make(weights[0], 'B'), 'sources'), lambda: eq.label_term('A', 'all'), lambda: eq.label_term('Z', 'source')):
            try:
                fn()
            except AssertionError:
                rec.step()
                continue
            raise Violation('wrong label or term accepted')
    rec.check({'refused': 'wrong labels'}, refused)

    def real(space, flag):
        bnd, ref = default_bnd(th)
        coefs = tuple(n for n in COEFS if n not in DRAGS[1:])
        M = Model(th, space, coefs=coefs, bnd=bnd, bnd_ref=ref, **flag)
        M.set_old('mild')
        M.set_sol(None)
        want = M.model()
        args = (M.sol, M.old, M.fields, M.fields, M.bnd)
        tot = 0
        for l in LABELS:
            tot = tot + assembled(th, M.eq.residual(l, *args), M.n)
        require_close(tot, want, 'sum over labels', rtol=1e-9, atol=1e-9*np.abs(want).max())
        require_close(assembled(th, M.eq.residual('all', *args), M.n), want, 'all terms', rtol=1e-9, atol=1e-9*np.abs(want).max())
        require_close(assembled(th, M.eq.residual(('implicit', 'source'), *args), M.n) + assembled(th, M.eq.residual(['explicit', 'nonlinear'], *args), M.n), want, 'two sets of labels',
                      rtol=1e-9, atol=1e-9*np.abs(want).max())
        # the source part does not depend on the solution, the implicit and explicit parts hold no sources
        s0 = assembled(th, M.eq.residual('source', *args), M.n)
        M.set_sol(-1)
        require_close(assembled(th, M.eq.residual('source', *args), M.n), s0, 'sources with another solution', rtol=1e-12)
        rec.step(6)
        rec.state(space, flag)
    for flag in (dict(), dict(nonlinear=False, const=True, graddepth=False)):
        rec.check({'equation': 'shallow water', 'form': flag}, real, FAMS[0], flag)


def g_others(group, rec, th):
    """The other two dimensional equations share the terms."""
    from thetis import shallowwater_eq as swe
    coefs = tuple(n for n in COEFS if n not in DRAGS[1:])

    def setup(space, **kw):
        bnd, ref = default_bnd(th)
        M = Model(th, space, coefs=coefs, bnd=bnd, bnd_ref=ref, **kw)
        return M

    def compare(a, b, what):
        require_close(a, b, what, rtol=TOL, atol=TOL*np.abs(b).max())
        rec.step()

    def modesplit(space):
        M = setup(space)
        eq = swe.ModeSplit2DEquations(M.sol.function_space(), M.s.depth, M.s.options)
        c = M.ref.c
        ref = wf.Shallow(**{k: v for k, v in M.ref.__dict__.items() if k in ('W', 'BU', 'BE', 'family', 'depth', 'blen', 'degree_u')},
                         bnd={k: v for k, v in M.ref.bnd.items() if 'drag' not in v},
                         c={k: c[k] for k in ('coriolis', 'atmospheric_pressure', 'momentum_source', 'volume_source')}, nonlinear=False)
        for old in ('mild', 'strong'):
            M.set_old(old)
            for i in [None] + list(range(-1, M.n if hasattr(M, 'n') else 0)):
                M.set_sol(i)
                M.collect()
                a = sum(assembled(th, eq.residual(l, M.sol, M.old, M.fields, M.fields, M.bnd), M.n) for l in ('implicit', 'explicit', 'source', 'nonlinear'))
                p = lambda f: [M.W.poly(x) for x in f.subfunctions]
                compare(a, ref.total(*p(M.sol), *p(M.old)), 'mode split equations')
        rec.state('mode split', space)

    def split(space, wd):
        M = setup(space, wd=wd)
        M.collect()
        u_t, e_t = th.TestFunction(M.U), th.TestFunction(M.H)
        mom = swe.ShallowWaterMomentumEquation(u_t, M.U, M.H, M.s.depth, M.s.options)
        fs = swe.FreeSurfaceEquation(e_t, M.H, M.U, M.s.depth, M.s.options)
        nu = M.BU.coef.shape[0]
        u, e = M.sol.subfunctions
        uo, eo = M.old.subfunctions
        for old in ('mild', 'strong'):
            if old == 'strong' and not space[0].startswith('dg'):
                continue
            M.set_old(old)
            for i in (None, -1, 0, 1, nu, nu + 1):
                M.set_sol(i)
                r = M.reference()
                f, fo = dict(M.fields, eta=e), dict(M.fields, eta=eo)
                a = sum(assembled(th, mom.residual(l, u, uo, f, fo, M.bnd), nu) for l in ('implicit', 'explicit', 'source'))
                compare(a, r[:nu], 'momentum equation')
                f, fo = dict(M.fields, uv=u), dict(M.fields, uv=uo)
                a = sum(assembled(th, fs.residual(l, e, eo, f, fo, M.bnd), M.n - nu) for l in ('implicit', 'explicit', 'source'))
                compare(a, r[nu:], 'free surface equation')
                compare(assembled(th, fs.mass_term(e), M.n - nu), M.ref.mass(M.W.poly(u), M.W.poly(e))[1], 'mass term of the free surface equation')
                compare(assembled(th, mom.mass_term(u), nu), M.ref.mass(M.W.poly(u), M.W.poly(e))[0], 'mass term of the momentum equation')
        rec.state('split', space, wd)

    def bottom(space, nonlinear):
        M = setup(space, nonlinear=nonlinear)
        P1, P1v = th.get_functionspace(M.m, 'CG', 1), th.get_functionspace(M.m, 'CG', 1, vector=True)
        cd, ub = fill(th.Function(P1), th.Constant(.05), .002, 2), fill(th.Function(P1v), th.Constant((.7, -1.1)), .01, 3)
        M.set_old('mild')
        for given in ((), ('bottom_drag',), ('uv_bottom',), ('bottom_drag', 'uv_bottom')):
            for k in ('bottom_drag', 'uv_bottom'):
                M.fields.pop(k, None)
                M.ref.c.pop(k, None)
            for k in given:
                M.fields[k] = {'bottom_drag': cd, 'uv_bottom': ub}[k]
                M.ref.c[k] = M.W.poly(M.fields[k])
            for i in (None, -1):
                M.set_sol(i)
                M.collect()
                M.compare('bottom drag of the 3D mode')
                rec.step()
            rec.state('bottom', space, nonlinear, given)
    for space in FAMS[:3]:
        if group['eq'] == 'modesplit':
            rec.check({'equation': 'mode split', 'space': space}, modesplit, space)
        for wd in (None, .8):
            if group['eq'] != 'split' or rec.tier == 'quick' and (wd is None) == (space == FAMS[0]):
                continue
            rec.check({'equation': 'momentum and free surface', 'space': space, 'wetting': wd}, split, space, wd)
    for nl in (True, False) if group['eq'] == 'bottom' else ():
        rec.check({'term': '3D bottom drag', 'nonlinear': nl}, bottom, FAMS[0], nl)


def g_constants(group, rec, th):
    """Physical constants assigned or replaced by the user."""
    from thetis.physical_constants import physical_constants as pc
    space = FAMS[0]

    def run(name, how, coef, when):
        old = pc[name]
        v0 = float(old)
        new = {'rho0': 1025., 'von_karman': .38, 'g_grav': 3.7}[name]
        keep = (wf.G, wf.RHO0)

        def change():
            if how == 'assigned':
                pc[name].assign(new)
            else:
                pc[name] = th.Constant(new)
            if name == 'g_grav':
                wf.G = new
            if name == 'rho0':
                wf.RHO0 = new
        try:
            if when == 'before':
                change()
            bnd, ref = default_bnd(th)
            M = Model(th, space, coefs=coef, bnd=bnd, bnd_ref=ref)
            M.set_old('mild')
            M.set_sol(None)
            M.model()
            if when == 'after':
                change()
            a, b = M.model(), M.reference()
            if name == 'von_karman':
                M.set_sol(None)
                M2 = Model(th, space, coefs=(), bnd=bnd, bnd_ref=ref, mesh_=M.m)
                M2.set_old('mild')
                M2.set_sol(None)
                a, b = a - M2.model(), (b - M2.reference())*(new/v0)**2
            require_close(a, b, 'residual with {:} {:}'.format(name, how), rtol=TOL, atol=TOL*np.abs(b).max())
            rec.step()
            rec.state(name, how, coef, when)
        finally:
            old.assign(v0)
            pc[name] = old
            wf.G, wf.RHO0 = keep
    for name, coef in (('rho0', ('wind_stress',)), ('rho0', ('atmospheric_pressure',)), ('rho0', ('wind_stress', 'atmospheric_pressure')),
                       ('von_karman', ('nikuradse_bed_roughness',)), ('g_grav', ()), ('g_grav', ('manning_drag_coefficient',))):
        for how, when in (('assigned', 'before'), ('assigned', 'after')) + ((('replaced', 'before'),) if name != 'g_grav' else ()):
            rec.check({'constant': name, 'how': how, 'when': when, 'coefficients': coef}, run, name, how, coef, when)
