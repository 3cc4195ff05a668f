"""P13: time integrators."""
import itertools
import math
import types
import numpy as np
from .common import require, require_close, Violation, Scratch, quiet
from .models import solver2d

RULE = ('every integrator against an independent implementation of its method (tableaux from the literature) on model equations, over all histories of '
        'steps, stage-wise steps, changes of the step, of the solution and re-initialisations; the same through the 2D solver; moving meshes; algebraic '
        'conditions of all tableaux')
ASSUMPTIONS = ['the model equations have one or two unknowns per cell', 'terms linearised about the lagged solution are explored only where the point of linearisation is documented']
CASE_TIMEOUT = 600
GROUP_TIMEOUT = 3600

# ---------------------------------------------------------------------------
# literature
# ---------------------------------------------------------------------------
_g22 = (2 - math.sqrt(2))/2
_g23 = (3 + math.sqrt(3))/6
_g33 = 0.4358665215084589994160194511935568
_b1 = -1.5*_g33**2 + 4*_g33 - 0.25
_b2 = 1.5*_g33**2 - 5*_g33 + 1.25
# name: (A, b, order, L-stable)
TAB = {
    'ForwardEuler': ([[0]], [1], 1, False),
    'BackwardEuler': ([[1]], [1], 1, True),
    'ImplicitMidpoint': ([[.5]], [1], 2, False),
    'Trapezoid': ([[0, 0], [.5, .5]], [.5, .5], 2, False),
    'ESDIRKMidpoint': ([[0, 0], [0, .5]], [0, 1], 2, False),
    'Midpoint': ([[0, 0], [.5, 0]], [0, 1], 2, False),
    'Heun': ([[0, 0], [1, 0]], [.5, .5], 2, False),
    'DIRK22': ([[_g22, 0], [1 - _g22, _g22]], [1 - _g22, _g22], 2, True),
    'DIRK23': ([[_g23, 0], [1 - 2*_g23, _g23]], [.5, .5], 3, False),
    'DIRK33': ([[_g33, 0, 0], [(1 - _g33)/2, _g33, 0], [_b1, _b2, _g33]], [_b1, _b2, _g33], 3, True),
    'DIRK43': ([[.5, 0, 0, 0], [1/6, .5, 0, 0], [-.5, .5, .5, 0], [1.5, -1.5, .5, .5]], [1.5, -1.5, .5, .5], 3, True),
    'DIRKLSPUM2': ([[2/11, 0, 0], [205/462, 2/11, 0], [2033/4620, 21/110, 2/11]], [24/55, 1/5, 4/11], 2, True),
    'DIRKLPUM2': ([[2/11, 0, 0], [41/154, 2/11, 0], [289/847, 42/121, 2/11]], [1/3, 1/3, 1/3], 2, True),
    'SSPRK33': ([[0, 0, 0], [1, 0, 0], [.25, .25, 0]], [1/6, 1/6, 2/3], 3, False),
    'ERKLSPUM2': ([[0, 0, 0], [5/6, 0, 0], [11/24, 11/24, 0]], [24/55, 1/5, 4/11], 2, False),
    'ERKLPUM2': ([[0, 0, 0], [.5, 0, 0], [.5, .5, 0]], [1/3, 1/3, 1/3], 2, False),
}
# class: (module, kind, tableau / tableaux)
CLASSES = {
    'ForwardEuler': ('timeintegrator', 'fe', None),
    'CrankNicolson': ('timeintegrator', 'theta', None),
    'SteadyState': ('timeintegrator', 'steady', None),
    'LeapFrogAM3': ('timeintegrator', 'leap', None),
    'SSPRK22ALE': ('timeintegrator', 'erk', 'Heun'),
    'BackwardEuler': ('rungekutta', 'dirk', 'BackwardEuler'),
    'ImplicitMidpoint': ('rungekutta', 'dirk', 'ImplicitMidpoint'),
    'CrankNicolsonRK': ('rungekutta', 'dirk', 'Trapezoid'),
    'ESDIRKTrapezoid': ('rungekutta', 'dirk', 'Trapezoid'),
    'ESDIRKMidpoint': ('rungekutta', 'dirk', 'ESDIRKMidpoint'),
    'DIRK22': ('rungekutta', 'dirk', 'DIRK22'),
    'DIRK23': ('rungekutta', 'dirk', 'DIRK23'),
    'DIRK33': ('rungekutta', 'dirk', 'DIRK33'),
    'DIRK43': ('rungekutta', 'dirk', 'DIRK43'),
    'DIRKLSPUM2': ('rungekutta', 'dirk', 'DIRKLSPUM2'),
    'DIRKLPUM2': ('rungekutta', 'dirk', 'DIRKLPUM2'),
    'BackwardEulerUForm': ('rungekutta', 'uform', 'BackwardEuler'),
    'DIRK22UForm': ('rungekutta', 'uform', 'DIRK22'),
    'DIRK33UForm': ('rungekutta', 'uform', 'DIRK33'),
    'SSPRK33': ('rungekutta', 'erk', 'SSPRK33'),
    'ERKLSPUM2': ('rungekutta', 'erk', 'ERKLSPUM2'),
    'ERKLPUM2': ('rungekutta', 'erk', 'ERKLPUM2'),
    'ERKMidpoint': ('rungekutta', 'erk', 'Midpoint'),
    'ERKEuler': ('rungekutta', 'erk', 'ForwardEuler'),
    'IMEXLPUM2': ('implicitexplicit', 'imex', ('DIRKLPUM2', 'ERKLPUM2')),
    'IMEXLSPUM2': ('implicitexplicit', 'imex', ('DIRKLSPUM2', 'ERKLSPUM2')),
    'IMEXMidpoint': ('implicitexplicit', 'imex', ('ESDIRKMidpoint', 'Midpoint')),
    'IMEXEuler': ('implicitexplicit', 'imex', ('BackwardEuler', 'ForwardEuler')),
}
IMEX_ORDER = {'IMEXLPUM2': 2, 'IMEXLSPUM2': 2, 'IMEXMidpoint': 2, 'IMEXEuler': 1}
SWE = {'SSPRK33': ('erk', 'SSPRK33'), 'ForwardEuler': ('fe', None), 'SteadyState': ('steady', None),
       'BackwardEuler': ('uform', 'BackwardEuler'), 'DIRK22': ('uform', 'DIRK22'), 'DIRK33': ('uform', 'DIRK33'),
       'CrankNicolson': ('theta', None), 'SSPIMEX': ('imex', ('DIRKLPUM2', 'ERKLPUM2'))}


DEEP = ('ForwardEuler', 'CrankNicolson', 'LeapFrogAM3', 'SSPRK22ALE', 'SSPRK33', 'DIRK22', 'DIRK22UForm', 'IMEXLPUM2', 'SteadyState')


def groups(tier):
    g = [{'kind': 'tableau'}]
    for name, (_, kind, _) in CLASSES.items():
        g.append({'kind': 'ode', 'name': name, 'mixed': False})
        if kind in ('dirk', 'uform', 'theta', 'imex', 'fe') or name == 'SSPRK33':
            if tier == 'quick' and name not in DEEP:
                continue
            g.append({'kind': 'ode', 'name': name, 'mixed': True})
    g += [{'kind': 'ale'}]
    g += [{'kind': 'solver', 'name': n} for n in SWE if n != 'SteadyState']
    g += [{'kind': 'picard', 'iterations': n, 'bnd': None} for n in (1, 2, 3)]
    g += [{'kind': 'picard', 'iterations': 12, 'bnd': b} for b in ('closed', 'elev', 'un', 'flux')]
    g += [{'kind': 'params'}]
    return g


def run_group(group, rec):
    import thetis as th
    quiet()
    with Scratch():
        globals()['g_' + group['kind']](group, rec, th)


# ---------------------------------------------------------------------------
# tableaux
# ---------------------------------------------------------------------------
def order_of(A, b, tol):
    """Order of a Runge-Kutta method, up to 3."""
    c = A.sum(axis=1)
    if abs(b.sum() - 1) > tol:
        return 0
    if abs(b @ c - .5) > tol:
        return 1
    if abs(b @ c**2 - 1/3) > tol or abs(b @ A @ c - 1/6) > tol:
        return 2
    return 3


def g_tableau(group, rec, th):
    import thetis.rungekutta as rk
    import thetis.implicitexplicit as ie
    import thetis.timeintegrator as ti

    def one(name):
        mod, kind, tab = CLASSES[name]
        cls = getattr({'rungekutta': rk, 'implicitexplicit': ie, 'timeintegrator': ti}[mod], name)
        if kind == 'imex':
            dc, ec = cls.dirk_class, cls.erk_class
            Ai, bi = np.array(dc.a, dtype=float), np.array(dc.b, dtype=float)
            Ae, be = np.array(ec.a, dtype=float), np.array(ec.b, dtype=float)
            require_close(Ai, TAB[tab[0]][0], 'implicit tableau', atol=1e-9)
            require_close(bi, TAB[tab[0]][1], 'implicit weights', atol=1e-9)
            require_close(Ae, TAB[tab[1]][0], 'explicit tableau', atol=1e-9)
            require_close(be, TAB[tab[1]][1], 'explicit weights', atol=1e-9)
            require_close(np.array(dc.c, dtype=float), Ai.sum(axis=1), 'nodes of the implicit scheme', atol=1e-9)
            require_close(np.array(ec.c, dtype=float), Ae.sum(axis=1), 'nodes of the explicit scheme', atol=1e-9)
            o = IMEX_ORDER[name]
            if o == 2:
                for (A, w) in itertools.product((Ai, Ae), (bi, be)):
                    require_close(w.sum(), 1., 'consistency of the pair', atol=1e-9)
                    require_close(w @ A.sum(axis=1), .5, 'second order coupling condition', atol=1e-9)
            return
        if mod == 'timeintegrator':
            return
        A, b, order, lstab = TAB[tab]
        a, w, c = (np.array(x, dtype=float) for x in (cls.a, cls.b, cls.c))
        require_close(a, A, 'tableau', atol=1e-9)
        require_close(w, b, 'weights', atol=1e-9)
        require_close(c, np.array(A).sum(axis=1), 'nodes', atol=1e-9)
        require(order_of(a, w, 1e-8) >= order, 'the method has order {:}, documented {:}', order_of(a, w, 1e-8), order)
        if lstab:
            n = len(w)
            for z in (-1e6, -1e8):
                r = 1 + z*w @ np.linalg.solve(np.eye(n) - z*a, np.ones(n))
                require(abs(r) < 1e-4, 'R({:}) = {:}: not L-stable', z, r)
        if np.diag(a).all() or not np.diag(a).any():
            # the Shu-Osher form is the same method
            al, be = rk.butcher_to_shuosher_form(a, w)
            for z in (-.7, .3, 1.1j, -2.):
                n = len(w)
                u = np.zeros(n + 1, dtype=complex)
                if np.diag(a).all():
                    # column 0 is u^n
                    for i in range(n + 1):
                        rhs = al[i, 0] + sum((al[i, j + 1] + z*be[i, j + 1])*u[j] for j in range(min(i, n)))
                        d = 1 - (al[i, i + 1] + z*be[i, i + 1]) if i < n else 1
                        u[i] = rhs/d
                else:
                    u[0] = 1
                    for i in range(1, n + 1):
                        u[i] = sum((al[i, j] + z*be[i, j])*u[j] for j in range(i))
                r = 1 + z*w @ np.linalg.solve(np.eye(n) - z*a, np.ones(n))
                require(abs(u[n] - r) < 1e-9, 'Shu-Osher form: R({:}) = {:} instead of {:}', z, u[n], r)
        if kind == 'erk' and name in ('SSPRK33', 'ERKLSPUM2', 'ERKLPUM2', 'ERKEuler'):
            # the CFL coefficient is the radius of absolute monotonicity
            K = np.zeros((len(w) + 1,)*2)
            K[:-1, :-1] = a
            K[-1, :-1] = w
            ok = lambda r: (lambda M: (K @ M >= -1e-9).all() and (r*K @ M @ np.ones(len(K)) <= 1 + 1e-9).all())(np.linalg.inv(np.eye(len(K)) + r*K))
            require(ok(cls.cfl_coeff*.999), 'the scheme is not strong stability preserving up to its CFL coefficient {:}', cls.cfl_coeff)
            require(not ok(cls.cfl_coeff*1.1), 'the CFL coefficient {:} is needlessly small', cls.cfl_coeff)
    for name in CLASSES:
        rec.check({'kind': 'tableau', 'name': name}, one, name)
        rec.state('tableau', name)


# ---------------------------------------------------------------------------
# model equations
# ---------------------------------------------------------------------------
class Toy:
    """Right hand side with coefficients; the same for the code (UFL) and the model (numpy).

    one unknown:  u' = L u - Q v u - N u^2 + g(t) u + s(t)        (v: the lagged solution)
    two unknowns: u0' = L u0 + K u1 + g(t) u0 + s(t),  u1' = -K u0 - N u1^2 - Q v1 u1 + s(t)
    """
    names = 'LQNK'

    def __init__(self, coef, mixed):
        self.c = dict(zip('LQNKgs', coef))
        self.mixed = mixed

    def parts(self, x, v, s, g):
        """(implicit, explicit) parts; x, v: (dim, cells)."""
        c = self.c
        if not self.mixed:
            return (c['L']*x - c['Q']*v*x, np.array([-c['N']*x[0]**2 + g*x[0] + s]))
        return (np.array([c['L']*x[0] + c['K']*x[1], -c['K']*x[0] - c['Q']*v[1]*x[1]]),
                np.array([g*x[0] + s, -c['N']*x[1]**2 + s]))

    def full(self, x, v, s, g):
        a, b = self.parts(x, v, s, g)
        return a + b


def make_equation(th, mesh, coef, mixed):
    """An Equation with one term per coefficient."""
    fd = th
    P0 = fd.FunctionSpace(mesh, 'DG', 0)
    V = P0*P0 if mixed else P0
    from thetis.equation import Equation
    C = {k: fd.Constant(v) for k, v in zip('LQNK', coef[:4])}
    test = fd.TestFunction(V)
    dx = fd.dx

    class T:
        def __init__(self, f):
            self.f = f

        def residual(self, sol, old, fields, fields_old, bnd):
            if mixed:
                x = sol if isinstance(sol, list) else fd.split(sol)
                v = old if isinstance(old, list) else fd.split(old)
                return self.f(x, v, fields, fd.split(test))*dx
            return self.f(sol, old, fields, test)*dx

    def cls(name):
        return type(name, (T,), {})
    if mixed:
        terms = [('Lin', 'implicit', lambda x, v, f, w: C['L']*x[0]*w[0] + C['K']*(x[1]*w[0] - x[0]*w[1])),
                 ('Lag', 'implicit', lambda x, v, f, w: -C['Q']*v[1]*x[1]*w[1]),
                 ('Non', 'explicit', lambda x, v, f, w: -C['N']*x[1]**2*w[1]),
                 ('Fld', 'explicit', lambda x, v, f, w: f['g']*x[0]*w[0]),
                 ('Src', 'source', lambda x, v, f, w: f['s']*(w[0] + w[1]))]
    else:
        terms = [('Lin', 'implicit', lambda x, v, f, w: C['L']*x*w),
                 ('Lag', 'implicit', lambda x, v, f, w: -C['Q']*v*x*w),
                 ('Non', 'explicit', lambda x, v, f, w: -C['N']*x**2*w),
                 ('Fld', 'explicit', lambda x, v, f, w: f['g']*x*w),
                 ('Src', 'source', lambda x, v, f, w: f['s']*w)]
    eq = Equation(V)
    test = eq.test
    for n, label, f in terms:
        eq.add_term(cls(n)(f), label)
    return eq, V, P0, C


def newton(fun, x0):
    """Componentwise-coupled Newton iteration with complex step derivatives; x: (dim, cells)."""
    x = np.array(x0, dtype=float)
    d, n = x.shape
    for _ in range(60):
        r = fun(x)
        J = np.zeros((n, d, d))
        for j in range(d):
            xc = x.astype(complex)
            xc[j] += 1e-30j
            J[:, :, j] = (fun(xc).imag/1e-30).T
        dx = np.linalg.solve(J, -r.T[:, :, None])[:, :, 0].T
        x = x + dx
        if np.abs(dx).max() <= 1e-15*(1 + np.abs(x).max()):
            break
    return x


class Model:
    """Reference integrator.  Fields: forcing(t) -> (s, g), arrays per cell."""
    def __init__(self, kind, tab, toy, forcing, dt, theta=.5, semi=True):
        self.kind, self.toy, self.forcing, self.dt, self.theta, self.semi = kind, toy, forcing, dt, theta, semi
        if kind == 'imex':
            (Ai, bi, _, _), (Ae, be, _, _) = TAB[tab[0]], TAB[tab[1]]
            self.A, self.b, self.Ae, self.be = (np.array(z, dtype=float) for z in (Ai, bi, Ae, be))
        elif tab:
            self.A, self.b = (np.array(z, dtype=float) for z in TAB[tab][:2])

    def initialize(self, u, fields):
        self.u, self.old = np.array(u), np.array(u)
        self.fields = fields
        self.fields_old = fields

    def force(self, t, on):
        if on:
            self.fields = self.forcing(t)

    def step(self, t, on=True):
        F, dt, u0 = self.toy.full, self.dt, self.u.copy()
        k = self.kind
        if k == 'fe':
            self.force(t + dt, on)
            self.u = u0 + dt*F(u0, u0, *self.fields_old)
            self.fields_old = self.fields
        elif k == 'theta':
            self.force(t + dt, on)
            th = self.theta
            known = u0 + (1 - th)*dt*F(u0, u0, *self.fields_old)
            self.u = newton(lambda x: x - th*dt*F(x, u0 if self.semi else x, *self.fields) - known, u0)
            self.fields_old = self.fields
        elif k == 'steady':
            self.force(t + dt, on)
            self.u = newton(lambda x: F(x, x, *self.fields), u0)
        elif k == 'leap':
            g = 1/12
            self.force(t + dt, on)
            pred = (.5 - 2*g)*self.old + (.5 + 2*g)*u0 + (1 - 2*g)*dt*F(u0, u0, *self.fields)
            self.old = u0
            self.u = u0 + dt*F(pred, pred, *self.fields)
        elif k in ('erk', 'dirk', 'uform'):
            ks = []
            for i, row in enumerate(self.A):
                self.force(t + row.sum()*dt, on)
                base = u0 + dt*sum((row[j]*ks[j] for j in range(i)), 0*u0)
                if row[i] == 0:
                    # an explicit stage
                    ks.append(F(base, base if k == 'erk' else u0, *self.fields))
                else:
                    st = newton(lambda x: x - base - dt*row[i]*F(x, u0 if self.semi else x, *self.fields), base)
                    ks.append((st - base)/(dt*row[i]))
            self.u = u0 + dt*sum(w*kk for w, kk in zip(self.b, ks))
        elif k == 'imex':
            ki, ke = [], []
            for i in range(len(self.b)):
                base = u0 + dt*sum((self.Ae[i, j]*ke[j] for j in range(i)), 0*u0)
                self.force(t + self.A[i].sum()*dt, on)
                known = base + dt*sum((self.A[i, j]*ki[j] for j in range(i)), 0*u0)
                a = self.A[i, i]
                imp = lambda x: self.toy.parts(x, u0, *self.fields)[0]
                if a == 0:
                    ki.append(imp(known))
                    st = known
                else:
                    st = newton(lambda x: x - known - dt*a*imp(x), known)
                    ki.append((st - known)/(dt*a))
                self.force(t + self.Ae[i].sum()*dt, on)
                ke.append(self.toy.parts(st, st, *self.fields)[1])
            self.u = u0 + dt*sum(w*kk for w, kk in zip(self.b, ki)) + dt*sum(w*kk for w, kk in zip(self.be, ke))


def problems(kind, semi, mixed):
    """Coefficients L, Q, N, K and amplitudes of g and s."""
    K = 1.5 if mixed else 0.
    p = [(-1., 0, 0, K, 0, 0), (0, 0, 0, 0, 0, 1.), (-.8, 0, 0, K, 0, 1.), (-.8, 0, 0, 0, .5, 1.), (-40., 0, 0, K, 0, 1.)]
    # the semi-implicit variants solve one linear system: the quadratic terms are those of the lagged solution
    quad = not (semi and kind in ('dirk', 'uform', 'theta'))
    if quad:
        p += [(0, 0, .5, K, 0, 1.), (-.5, 0, .7, 0, .5, 1.)]
    if kind not in ('dirk', 'imex') or (kind == 'dirk' and semi):
        p += [(0, .3, 0, K, 0, 1.), (-.5, .2, .2 if quad else 0, 0, .4, 1.)]
    if kind == 'steady':
        p = [(-1., 0, 0, 0, 0, 1.), (-.8, 0, .3, 0, -.5, .2), (-.8, .2, .3, 0, -.5, .2)]
    return p


class Options:
    def __init__(self, **k):
        self.ad_block_tag = None
        self.__dict__.update(k)


def histories(depth, has_stages, picard):
    ops = ['step', 'dt', 'kick', 'init', 'quiet'] + (['stages'] if has_stages else []) + (['picard'] if picard else [])
    last = [o for o in ops if o in ('step', 'quiet', 'stages', 'picard')]
    for h in itertools.product(ops, repeat=depth - 1):
        for e in last:
            yield h + (e,)


def g_ode(group, rec, th):
    import thetis.timeintegrator
    import thetis.rungekutta
    import thetis.implicitexplicit
    name, mixed = group['name'], group['mixed']
    mod, kind, tab = CLASSES[name]
    cls = getattr({'timeintegrator': thetis.timeintegrator, 'rungekutta': thetis.rungekutta,
                   'implicitexplicit': thetis.implicitexplicit}[mod], name)
    mesh = th.UnitSquareMesh(1, 1)
    semis = (True, False) if kind in ('theta', 'dirk', 'uform') else (True,)
    thetas = (.5, .6, 1.) if kind == 'theta' else (.5,)
    depth = (2 if mixed or rec.tier == 'quick' and name not in DEEP else 3) + (rec.tier != 'quick')
    U = [np.array([[1.0, -.5]]), np.array([[.3, 2.0]])]
    if mixed:
        U = [np.array([[1., -.5], [.4, .2]]), np.array([[.3, 2.], [-.3, .8]])]

    for semi, theta, given in [(s, t, 'field') for s in semis for t in thetas] + [(semis[-1], thetas[-2:][0], 'expression')]:
        for coef in problems(kind, semi, mixed):
            toy = Toy(coef, mixed)
            if given != 'field' and not any(coef[4:]):
                continue

            def forcing(t, toy=toy, given=given):
                if given != 'field':
                    t = .4      # expressions are not stored from one step to the next
                s = toy.c['s']*(.7 + .4*t + .3*t**2)*np.array([1., -.6])
                g = toy.c['g']*(.5 - .3*t + .2*t**2)*np.array([1., .7])
                return s, g
            eq, V, P0, C = make_equation(th, mesh, coef, mixed)
            sol = th.Function(V)
            fs, fg = th.Function(P0), th.Function(P0)
            fields = {'s': fs, 'g': fg} if given == 'field' else {'s': 1.*fs, 'g': .5*fg + .5*fg}
            par = {'ksp_type': 'preonly', 'pc_type': 'lu', 'snes_rtol': 1e-14, 'snes_atol': 1e-12, 'snes_stol': 0., 'snes_max_it': 30}
            if mixed:
                par['mat_type'] = 'aij'
            opt = Options(solver_parameters=par, implicitness_theta=theta, use_semi_implicit_linearization=semi)
            dt0 = .25
            its = cls(eq, sol, fields, dt0, opt, {})

            def setu(u):
                if mixed:
                    for i in range(2):
                        sol.subfunctions[i].dat.data[:] = u[i]
                else:
                    sol.dat.data[:] = u[0]

            def getu():
                return np.array([d.data_ro.copy() for d in sol.dat]) if mixed else np.array([sol.dat.data_ro.copy()])

            def update(t):
                s, g = forcing(t)
                fs.dat.data[:] = s
                fg.dat.data[:] = g
            has_stages = hasattr(its, 'solve_stage') and (hasattr(its, 'get_final_solution') or name == 'SSPRK33')
            picard = name == 'CrankNicolson'

            def run(h):
                m = Model(kind, tab, toy, forcing, dt0, theta, semi)
                t = 0.
                its.set_dt(dt0)
                update(t)
                setu(U[0])
                its.initialize(sol)
                m.initialize(U[0], forcing(0.))
                for n, op in enumerate(h):
                    if op == 'dt':
                        m.dt = dt0*(.5 if m.dt == dt0 else 1.)
                        its.set_dt(m.dt)
                    elif op == 'kick':
                        m.u = .9*m.u + U[1]*.1
                        setu(m.u)
                    elif op == 'init':
                        setu(U[1])
                        its.initialize(sol)
                        m.initialize(U[1], m.fields)
                    else:
                        on = op != 'quiet'
                        m.step(t, on)
                        if op in ('step', 'quiet'):
                            its.advance(t, update if on else None)
                        elif op == 'picard':
                            its.advance_picard(t, update, update_lagged=True, update_fields=False)
                            its.advance_picard(t, update, update_lagged=False, update_fields=True)
                        else:
                            for i in range(its.n_stages):
                                its.solve_stage(i, t, update)
                            if hasattr(its, 'get_final_solution'):
                                its.get_final_solution()
                        t += m.dt
                        rec.step()
                        tol = 2e-7 if kind == 'uform' else 1e-9
                        require_close(getu(), m.u, 'solution after operation {:} ({:})'.format(n + 1, op), rtol=tol, atol=tol)
                        m.u = getu()
                    rec.state(name, mixed, semi, theta, coef, h[:n + 1])
            for h in histories(depth if given == 'field' else min(2, depth), has_stages, picard):
                rec.check({'semi': semi, 'theta': theta, 'coef': coef, 'history': h, 'forcing': given}, run, h)
                if rec.stop:
                    return


# ---------------------------------------------------------------------------
# moving meshes
# ---------------------------------------------------------------------------
def g_ale(group, rec, th):
    """ALE schemes: the integral of the solution follows the integral of the tendencies."""
    from thetis.timeintegrator import SSPRK22ALE, LeapFrogAM3
    for name, coef, moves in itertools.product(('SSPRK22ALE', 'LeapFrogAM3'),
                                               [(0, 0, 0, 0, 0, 0), (-.8, 0, 0, 0, .5, 1.), (0, 0, .5, 0, 0, 1.)],
                                               itertools.product((1., 1.3, .8), repeat=3)):
        def run(name=name, coef=coef, moves=moves):
            mesh = th.UnitSquareMesh(1, 1)
            eq, V, P0, C = make_equation(th, mesh, coef, False)
            toy = Toy(coef, False)
            sol = th.Function(V)
            fs, fg = th.Function(P0), th.Function(P0)
            opt = Options(solver_parameters={'ksp_type': 'preonly', 'pc_type': 'lu'})
            cls = {'SSPRK22ALE': SSPRK22ALE, 'LeapFrogAM3': LeapFrogAM3}[name]
            dt = .25
            its = cls(eq, sol, {'s': fs, 'g': fg}, dt, opt, {})
            x0 = mesh.coordinates.dat.data_ro.copy()
            u = np.array([1., -.5])
            sol.dat.data[:] = u
            its.initialize(sol)
            vol = np.array([.5, .5])
            old = u.copy()

            def F(x):
                return toy.full(np.array([x]), np.array([x]), fs.dat.data_ro, fg.dat.data_ro)[0]

            def update(t):
                fs.dat.data[:] = coef[5]*(1 + t)
                fg.dat.data[:] = coef[4]*(1 - t*t)

            def move(r):
                y = x0.copy()
                y[:, 0] *= r
                mesh.coordinates.dat.data[:] = y
                return np.array([.5, .5])*r
            r0 = 1.
            for n in range(2):
                t = n*dt
                r1, r2 = moves[n], moves[n + 1]
                if name == 'SSPRK22ALE':
                    its.prepare_stage(0, t, update)
                    update(t)
                    k0 = vol*F(u)
                    v1 = move(r1)
                    its.solve_stage(0)
                    u1 = (vol*u + dt*k0)/v1
                    require_close(sol.dat.data_ro, u1, 'first stage of step {:}'.format(n + 1), rtol=1e-9)
                    its.prepare_stage(1, t, update)
                    update(t + dt)
                    k1 = v1*F(u1)
                    v2 = move(r2)
                    its.solve_stage(1)
                    u = (vol*u + .5*dt*(k0 + k1))/v2
                    vol = v2
                else:
                    update(t + dt)
                    its.predict()
                    g = 1/12
                    pred = (.5 - 2*g)*old + (.5 + 2*g)*u + (1 - 2*g)*dt*F(u)
                    require_close(sol.dat.data_ro, pred, 'prediction in step {:}'.format(n + 1), rtol=1e-4, atol=1e-5)
                    pred = sol.dat.data_ro.copy()
                    its.eval_rhs()
                    new = vol*u + dt*vol*F(pred)
                    v2 = move(r2)
                    its.correct()
                    old = u
                    u = new/v2
                    vol = v2
                tol = 1e-9 if name == 'SSPRK22ALE' else 1e-5
                require_close(sol.dat.data_ro, u, 'solution after step {:}'.format(n + 1), rtol=tol, atol=tol)
                u = sol.dat.data_ro.copy()
                rec.step()
                rec.state(name, coef, moves[:n + 2])
        rec.check({'name': name, 'coef': coef, 'moves': moves}, run)


# ---------------------------------------------------------------------------
# through the solver
# ---------------------------------------------------------------------------
class Rot:
    """Uniform flow: u' = -C u - D |v| u/H + f v + s(t), v' = ... (the source is explicit)."""
    def __init__(self, H, C, D, f):
        self.H, self.C, self.D, self.f = H, C, D, f

    def parts(self, x, v, s, g):
        r = -self.C*x + self.f*np.array([x[1], -x[0]])
        if self.D:
            r = r - self.D*np.sqrt(v[0]**2 + v[1]**2)*x/self.H
        return r, s + 0*x

    def full(self, x, v, s, g):
        return sum(self.parts(x, v, s, g))


def g_solver(group, rec, th):
    """Spatially uniform flow on a doubly periodic mesh is an ordinary differential equation."""
    name = group['name']
    kind, tab = SWE[name]
    variants = [(C, D, f) for C in (0, .02) for D in ((0, .3) if name != 'SSPIMEX' else (0,)) for f in (0, 1e-2)]
    semis = (True, False) if name in ('CrankNicolson', 'BackwardEuler', 'DIRK22', 'DIRK33') else (True,)
    mesh = th.PeriodicRectangleMesh(3, 3, 3e4, 3e4)

    def run(C, D, f, semi, theta):
        H, dt = 10., 20.
        P0v = th.VectorFunctionSpace(mesh, 'DG', 0)
        src = th.Function(P0v)
        s = solver2d(mesh, dt=dt, texp=dt, end=3*dt, bath=H, stepper=name, momentum_source_2d=src,
                     use_nonlinear_equations=bool(D), use_grad_div_viscosity_term=False)
        o = s.options
        o.element_family = 'dg-dg'
        o.use_lax_friedrichs_velocity = True
        if C:
            o.linear_drag_coefficient = th.Constant(C)
        if D:
            o.quadratic_drag_coefficient = th.Constant(D)
        if f:
            o.coriolis_frequency = th.Constant(f)
        so = o.swe_timestepper_options
        if hasattr(so, 'use_semi_implicit_linearization'):
            so.use_semi_implicit_linearization = semi
        if hasattr(so, 'implicitness_theta'):
            so.implicitness_theta = theta
        so.solver_parameters = {'ksp_type': 'preonly', 'pc_type': 'lu', 'mat_type': 'aij', 'snes_rtol': 1e-12, 'snes_atol': 1e-14}
        forcing = lambda t: (np.array([[2e-3*(1 + .05*t)], [1e-3*(1 - (t/30.)**2)]]), 0.)

        def update(t):
            src.dat.data[:] = forcing(t)[0][:, 0]
        update(0.)
        s.assign_initial_conditions(elev=th.Constant(0.), uv=th.Constant((.5, -.2)))
        ts = s.timestepper
        m = Model(kind, tab, Rot(H, C, D, f), forcing, dt, theta, semi)
        m.initialize(np.array([[.5], [-.2]]), forcing(0.))
        for n in range(3):
            ts.advance(n*dt, update)
            m.step(n*dt)
            uv, eta = s.fields.solution_2d.subfunctions
            got = uv.dat.data_ro
            require(np.abs(got - got[0]).max() < 1e-6, 'the flow does not stay uniform')
            require(np.abs(eta.dat.data_ro).max() < 1e-6, 'the surface does not stay flat')
            require_close(got.mean(axis=0), m.u[:, 0], 'velocity after step {:}'.format(n + 1), rtol=2e-6, atol=1e-8)
            m.u = got.mean(axis=0)[:, None]
            rec.step()
            rec.state(name, C, D, f, semi, theta, n)
    for (C, D, f), semi in itertools.product(variants, semis):
        for theta in ((.5, .75, 1.) if kind == 'theta' else (.5,)):
            rec.check({'C': C, 'D': D, 'f': f, 'semi': semi, 'theta': theta}, run, C, D, f, semi, theta)


def g_picard(group, rec, th):
    """The fixed point of the Picard iteration of the projection scheme is the Crank-Nicolson step."""
    mesh = th.RectangleMesh(2, 2, 2e3, 1e3)
    x, y = th.SpatialCoordinate(mesh)
    elev0 = .4*th.cos(x/700.)*th.cos(y/900.)
    uv0 = th.as_vector((.3*th.sin(x/500.), -.2*th.cos(y/400.)))

    def make(name, nonlinear, f, C, theta, its, bnd, dt, setup=None):
        s = solver2d(mesh, dt=dt, texp=dt, end=2*dt, bath=20., stepper=name, use_nonlinear_equations=nonlinear,
                     use_grad_div_viscosity_term=False)
        o = s.options
        o.element_family = 'dg-cg'
        if f:
            o.coriolis_frequency = th.Constant(f)
        if C:
            o.linear_drag_coefficient = th.Constant(C)
        so = o.swe_timestepper_options
        so.implicitness_theta = theta
        if name == 'CrankNicolson':
            so.use_semi_implicit_linearization = False
            so.solver_parameters = {'ksp_type': 'preonly', 'pc_type': 'lu', 'mat_type': 'aij', 'snes_rtol': 1e-13, 'snes_atol': 1e-10}
        else:
            so.picard_iterations = its
            so.solver_parameters_momentum = {'ksp_type': 'preonly', 'pc_type': 'lu'}
            so.solver_parameters_pressure = {'ksp_type': 'gmres', 'ksp_rtol': 1e-12, 'pc_type': 'lu', 'mat_type': 'aij',
                                             'fieldsplit_H_2d': {'ksp_type': 'gmres'}}
        s.bnd_functions['shallow_water'] = bnd
        if setup:
            setup(s)
        s.assign_initial_conditions(elev=elev0, uv=uv0)
        return s
    bnds = {'closed': {}, 'elev': {1: {'elev': th.Constant(.2)}}, 'un': {2: {'un': th.Constant(.1)}},
            'flux': {1: {'flux': th.Constant(50.)}, 2: {'elev': th.Constant(0.)}}}
    its = group['iterations']

    def run(nonlinear, f, C, theta, bnd, dt):
        a = make('CrankNicolson', nonlinear, f, C, theta, its, dict(bnds[bnd]), dt)
        b = make('PressureProjectionPicard', nonlinear, f, C, theta, its, dict(bnds[bnd]), dt)
        for n in range(2):
            # each step from the same state
            b.fields.solution_2d.assign(a.fields.solution_2d)
            a.timestepper.advance(n*dt)
            b.timestepper.advance(n*dt)
            for i, what in enumerate(('velocity', 'elevation')):
                p, q = (z.fields.solution_2d.subfunctions[i].dat.data_ro for z in (a, b))
                tol = 1e-7 if its == 1 else 1e-6
                require_close(q, p, '{:} after step {:}'.format(what, n + 1), rtol=tol, atol=tol)
            rec.step()
            rec.state(its, nonlinear, f, C, theta, bnd, dt, n)
    def memory(nonlinear, f, theta, bnd, dt):
        """A step depends on the present state only: after every history it equals the step of a new integrator."""
        b = make('PressureProjectionPicard', nonlinear, f, 0, theta, its, dict(bnds[bnd]), dt)
        for k, hist in enumerate(HISTORIES):
            for op in hist:
                if op == 'step':
                    b.timestepper.advance(k*dt)
                else:
                    b.fields.solution_2d.assign(.5*b.fields.solution_2d)
            a = make('PressureProjectionPicard', nonlinear, f, 0, theta, its, dict(bnds[bnd]), dt)
            a.fields.solution_2d.assign(b.fields.solution_2d)
            for s in (a, b):
                s.timestepper.advance(k*dt)
            for i, what in enumerate(('velocity', 'elevation')):
                p, q = (z.fields.solution_2d.subfunctions[i].dat.data_ro for z in (a, b))
                require_close(q, p, '{:} of a step after {:}, against the step of a new integrator'.format(what, hist), rtol=1e-8, atol=1e-9)
            rec.step()
            rec.state(its, nonlinear, f, theta, bnd, dt, hist)
    HISTORIES = [h for n in range(1, 3 if rec.tier == 'quick' else 5) for h in itertools.product(('step', 'kick'), repeat=n)]
    if its in (2, 3):
        for nonlinear, theta, bnd in itertools.product((True, False), (.5, 1.), ('closed', 'flux')):
            rec.check({'iterations': its, 'nonlinear': nonlinear, 'theta': theta, 'bnd': bnd}, memory, nonlinear, 1e-3, theta, bnd, 20.)
        return
    for theta, bnd, dt in itertools.product((.5, .8, 1.), [group['bnd']] if group['bnd'] else bnds, (5., 20.)):
        if its == 1:
            # without terms that are treated in the momentum equation only, one iteration is exact
            rec.check({'iterations': its, 'theta': theta, 'bnd': bnd, 'dt': dt}, run, False, 0, 0, theta, bnd, dt)
        elif its > 2:
            for nonlinear, f, C in ((False, 1e-3, 0), (False, 0, 1e-3), (True, 1e-3, 0)):
                rec.check({'iterations': its, 'theta': theta, 'bnd': bnd, 'dt': dt, 'nonlinear': nonlinear, 'f': f, 'C': C},
                          run, nonlinear, f, C, theta, bnd, dt)


def g_params(group, rec, th):
    """The linear solver options of a time integrator reach its solvers."""
    import firedrake
    made = []
    cls = firedrake.NonlinearVariationalSolver
    orig = cls.__init__

    def init(self, *a, **k):
        orig(self, *a, **k)
        made.append(self)

    def run(which, name, how):
        s = solver2d(dt=1., texp=1., end=1., stepper=name if which == 'swe' else 'CrankNicolson')
        o = s.options
        if which == 'tracer':
            o.add_tracer_2d('tracer_2d', 'Tracer', 'Tracer2d')
            o.tracer_timestepper_type = name
            so = o.tracer_timestepper_options
        else:
            so = o.swe_timestepper_options
        if name == 'PressureProjectionPicard':
            o.element_family = 'dg-cg'
        new = {'ksp_type': 'fgmres', 'ksp_rtol': 1.25e-7, 'pc_type': 'jacobi', 'mat_type': 'aij'}
        if name == 'PressureProjectionPicard':
            names = ['solver_parameters_pressure', 'solver_parameters_momentum']
            new['fieldsplit_H_2d'] = {'ksp_type': 'gmres'}
        else:
            names = ['solver_parameters']
        for i, n in enumerate(names):
            p = dict(new, ksp_rtol=1.25e-7*(i + 1))
            if how == 'assign':
                setattr(so, n, p)
            else:
                getattr(so, n).update(p)
        del made[:]
        s.create_timestepper()
        fs = s.fields.solution_2d.function_space() if which == 'swe' else s.fields.tracer_2d.function_space()
        mine = [z for z in made if z._problem.u.function_space() == fs or 'PressureProjection' in z.options_prefix]
        require(len(mine) >= len(names), 'no solver was created for the {:} equation', which)
        seen = set()
        for z in mine:
            if z is not None and '_k_stage' in (z.parameters.get('options_prefix') or z.options_prefix or ''):
                continue        # projection of the tendency, which has its own options
            ksp = z.snes.ksp
            require(ksp.getType() == 'fgmres', 'the solver {:} uses the Krylov method {:}, the options say fgmres', z.options_prefix, ksp.getType())
            seen.add(round(ksp.getTolerances()[0]/1.25e-7))
        require(seen == set(range(1, len(names) + 1)), 'tolerances of the solvers do not follow the options: {:}', seen)
        rec.state('params', which, name, how)
        rec.step()
    cls.__init__ = init
    try:
        for how in ('assign', 'update'):
            for name in list(SWE) + ['PressureProjectionPicard']:
                rec.check({'equation': 'swe', 'name': name, 'how': how}, run, 'swe', name, how)
            for name in SWE:
                if name != 'SSPIMEX':
                    rec.check({'equation': 'tracer', 'name': name, 'how': how}, run, 'tracer', name, how)
    finally:
        cls.__init__ = orig
