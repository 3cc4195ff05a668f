"""P27: equation of state and baroclinic pressure."""
import itertools
import math
import numpy as np
from .common import require, require_close, Violation, Scratch, quiet
from .p01 import solver3d
from . import p25

RULE = ('a lattice of salinity, temperature and pressure in every evaluation form against an independent implementation of the published equation of state (with its check values); '
        'every unit nodal density field and profile on small meshes for the pressure head and its gradient; all sequences of updates and mesh moves up to a depth')
ASSUMPTIONS = ['the model evaluates density at surface pressure, as noted in the code', 'published coefficients of Jackett et al. (2006), validated by the three published check values']
CASE_TIMEOUT = 900
GROUP_TIMEOUT = 3600

# Jackett, McDougall, Feistel, Wright and Griffies (2006), table A2: rho(S, theta, p)
NUM = {(0, 0, 0): 9.9984085444849347e2, (0, 1, 0): 7.3471625860981584e0, (0, 2, 0): -5.3211231792841769e-2, (0, 3, 0): 3.6492439109814549e-4,
       (1, 0, 0): 2.5880571023991390e0, (1, 1, 0): -6.7168282786692355e-3, (2, 0, 0): 1.9203202055760151e-3, (0, 0, 1): 1.1798263740430364e-2,
       (0, 2, 1): 9.8920219266399117e-8, (1, 0, 1): 4.6996642771754730e-6, (0, 0, 2): -2.5862187075154352e-8, (0, 2, 2): -3.2921414007960662e-12}
DEN = {(0, 0, 0): 1., (0, 1, 0): 7.2815210113327091e-3, (0, 2, 0): -4.4787265461983921e-5, (0, 3, 0): 3.3851002965802430e-7, (0, 4, 0): 1.3651202389758572e-10,
       (1, 0, 0): 1.7632126669040377e-3, (1, 1, 0): -8.8066583251206474e-6, (1, 3, 0): -1.8832689434804897e-10, (1.5, 0, 0): 5.7463776745432097e-6,
       (1.5, 2, 0): 1.4716275472242334e-9, (0, 0, 1): 6.7103246285651894e-6, (0, 3, 2): -2.4461698007024582e-17, (0, 1, 3): -9.1534417604289062e-18}


def rho_ref(s, t, p):
    f = lambda co: math.fsum(c*s**i*t**j*p**k for (i, j, k), c in co.items())
    return f(NUM)/f(DEN)


LINEAR = dict(rho_ref=1003., alpha=.31, beta=.8, th_ref=11., s_ref=30.)


def rho_lin(s, t, p):
    L = LINEAR
    return L['rho_ref'] - L['alpha']*(t - L['th_ref']) + L['beta']*(s - L['s_ref'])


def groups(tier):
    g = [{'kind': 'eos'}, {'kind': 'solvers'}]
    for cell, shape in (('tri', 'flat'), ('tri', 'sloped'), ('quad', 'sloped')):
        for quad in (False, True):
            g.append({'kind': 'pressure', 'cell': cell, 'shape': shape, 'quadratic': quad})
    g += [{'kind': 'model', 'eos': e, 'solve': s} for e in ('full', 'linear') for s in ('salt', 'temp', 'both')]
    return g


def run_group(group, rec):
    import thetis as th
    quiet()
    with Scratch():
        globals()['g_' + group['kind']](group, rec, th)


def g_eos(group, rec, th):
    u3 = th.utility3d
    S = (0., 1e-9, .5, 5., 20., 33.3, 35., 42.) if rec.tier == 'quick' else tuple(np.linspace(0, 42, 22)) + (1e-9,)
    T = (-2., 0., 4., 15., 25., 40.) if rec.tier == 'quick' else tuple(np.linspace(-2, 40, 22))
    P = (0., 10., 500., 4000., 10000.)

    def published():
        eos = u3.JackettEquationOfState()
        for s, t, p, r in ((35., 25., 2000., 1031.65056056576), (20., 20., 1000., 1017.72886801964), (40., 12., 8000., 1062.95279820631)):
            for f in (rho_ref, lambda *a: eos.compute_rho(*a), lambda *a: eos.eval(*a)):
                require_close(f(s, t, p), r, 'published check value', rtol=0, atol=1e-9)
            rec.step()
    rec.check({'eos': 'published values'}, published)

    def forms(name):
        eos = u3.JackettEquationOfState() if name == 'full' else u3.LinearEquationOfState(**LINEAR)
        ref = rho_ref if name == 'full' else rho_lin
        mesh = th.UnitIntervalMesh(1)
        R = th.FunctionSpace(mesh, 'R', 0)
        lattice = list(itertools.product(S, T, P))
        want = np.array([ref(*x) for x in lattice])
        A = np.array(lattice)
        for rho0 in (0., 1000., 1025.):
            got = eos.compute_rho(A[:, 0], A[:, 1], A[:, 2], rho0)
            require_close(got, want - rho0, 'density of arrays', rtol=1e-13, atol=1e-9)
            got = eos.compute_rho(A[:, 0].reshape(len(S), -1), A[:, 1].reshape(len(S), -1), A[:, 2].reshape(len(S), -1), rho0=rho0)
            require_close(got.ravel(), want - rho0, 'density of 2D arrays', rtol=1e-13, atol=1e-9)
            for x, w in zip(lattice, want):
                require_close(eos.compute_rho(*x, rho0), w - rho0, 'density at {:}'.format(x), rtol=1e-13, atol=1e-9)
                require_close(eos.eval(*x, rho0=rho0), w - rho0, 'density (eval) at {:}'.format(x), rtol=1e-13, atol=1e-9)
                rec.step()
                rec.state(name, rho0, x)
            e = eos.eval(th.Constant(20.), th.Constant(7.), th.Constant(100.), th.Constant(rho0))
            require_close(float(th.assemble(e*th.dx(domain=mesh))), ref(20., 7., 100.) - rho0, 'density of constants', rtol=1e-13, atol=1e-9)
        default = eos.compute_rho(33., 8., 0.)
        require_close(default, ref(33., 8., 0.), 'density without reference', rtol=1e-13)
        # mixtures of floats and arrays; inputs stay untouched; negative salinity counts as zero in the full equation
        s = np.array([-3., -1e-12, 0., 10.])
        s0 = s.copy()
        got = eos.compute_rho(s, 12., 0.)
        require_close(got, np.array([ref(max(x, 0.) if name == 'full' else x, 12., 0.) for x in s]), 'density of negative salinities', rtol=1e-13)
        require_close(s, s0, 'salinity array after evaluation', rtol=0, atol=0)
    for name in ('full', 'linear'):
        rec.check({'eos': name}, forms, name)


def g_solvers(group, rec, th):
    """DensitySolver and DensitySolverWeak for all kinds of input."""
    u3 = th.utility3d

    def run(name, kinds, rho0, weak):
        mesh = th.ExtrudedMesh(th.UnitSquareMesh(1, 1), 2, layer_height=.5)
        V = th.get_functionspace(mesh, 'DG', 1, 'DG', 1)
        ref = rho_ref if name == 'full' else rho_lin
        eos = u3.JackettEquationOfState() if name == 'full' else u3.LinearEquationOfState(**LINEAR)
        n = len(th.Function(V).dat.data_ro)
        rest = mesh.coordinates.dat.data_ro.copy()
        rho = th.Function(V)
        old = th.physical_constants['rho0']
        fields = []
        for kind, lo in zip(kinds, (10., 4.)):
            fields.append({'function': lambda: th.Function(V), 'constant': lambda: th.Constant(lo), 'float': lambda: lo}[kind]())
        try:
            if rho0 == 'replaced':
                th.physical_constants['rho0'] = 1025.
            elif rho0 == 'assigned':
                th.physical_constants['rho0'].assign(1025.)
            r0 = 1000. if rho0 is None else 1025.
            solver = (u3.DensitySolverWeak if weak else u3.DensitySolver)(fields[0], fields[1], rho, eos)
            states = (0, 1, 2) if rec.tier == 'quick' else range(4)
            for hist in itertools.product(states, repeat=2):
                for stretch, k in zip((1., 1.4), hist):
                    mesh.coordinates.dat.data[:, 2] = rest[:, 2]*stretch       # moving meshes stretch
                    vals = []
                    for f, kind, lo in zip(fields, kinds, (10., 4.)):
                        if kind == 'function':
                            v = {0: np.full(n, lo), 1: lo + np.arange(n)*.3, 2: lo*(1 + .5*np.cos(np.arange(n))), 3: np.where(np.arange(n) % 2, 0., lo)}[k]
                            if weak and k != 0 and name == 'full':
                                v = np.full(n, lo + k)  # the projection is exact for constants only
                            f.dat.data[:] = v
                        elif kind == 'constant':
                            f.assign(lo + k)
                            v = np.full(n, lo + k)
                        else:
                            v = np.full(n, lo)
                        vals.append(v)
                    solver.solve()
                    want = np.array([ref(s, t, 0.) - r0 for s, t in zip(*vals)])
                    require_close(rho.dat.data_ro, want, 'density anomaly', rtol=1e-9, atol=1e-8)
                    for f, kind, v in zip(fields, kinds, vals):
                        if kind == 'function':
                            require_close(f.dat.data_ro, v, 'tracer after the density update', rtol=0, atol=0)
                    rec.step()
                rec.state(name, kinds, rho0, weak, hist)
        finally:
            old.assign(1000.)
            th.physical_constants['rho0'] = old
    for weak in (False, True):
        for kinds in itertools.product(('function', 'constant', 'float'), repeat=2):
            if weak and 'float' in kinds:
                continue
            for name in ('full', 'linear'):
                for rho0 in (None, 'assigned', 'replaced'):
                    rec.check({'solver': 'weak' if weak else 'nodal', 'eos': name, 'inputs': kinds, 'rho0': rho0}, run, name, kinds, rho0, weak)


def model(th, cell, shape, quad, layers=2, **kw):
    m2 = p25.mesh2d(th, cell)
    kw.setdefault('solve_temperature', True)
    def bath(P1):
        X = p25.positions(th, P1)
        return p25.depth(X[:, 0], X[:, 1], shape)
    s = solver3d(th, 10., 5., 100., 100., 'SSPRK22', mesh=m2, layers=layers, bathymetry=bath, use_baroclinic_formulation=True, use_quadratic_pressure=quad,
                 use_quadratic_density=quad, use_ale_moving_mesh=True, **kw)
    return s


def set_elev(th, s, k):
    V = s.fields.elev_2d.function_space()
    X = p25.positions(th, V)
    s.fields.elev_2d.dat.data[:] = p25.elev(X[:, 0], X[:, 1], k)
    s.mesh_updater.update_mesh_coordinates()


def g_pressure(group, rec, th):
    cell, shape, quad = group['cell'], group['shape'], group['quadratic']
    s = model(th, cell, shape, quad, equation_of_state_type='linear')
    s.initialize()
    n = 2
    rho, head, pg = s.fields.density_3d, s.fields.baroc_head_3d, s.fields.int_pg_3d
    Z = p25.positions
    g = 9.81
    x3 = th.SpatialCoordinate(s.mesh)
    col = p25.Column(th, s.mesh2d, s.mesh, n)

    class NoDensity:
        def solve(self):
            pass
    s.density_solver = NoDensity()
    update = lambda: th.utility.compute_baroclinic_head(s)

    def heads(rho0):
        # head at the bottom side of each layer for every unit density
        P = Z(th, head.function_space())
        cols = p25.columns(th, head.function_space(), n)
        D = rho.function_space()
        src = th.Function(col.V3)
        for k in range(4):
            set_elev(th, s, k)
            P = Z(th, head.function_space())
            for e in p25.basis(len(Z(th, col.V3)), rec.tier):
                src.dat.data[:] = e
                rho.project(src) if quad else rho.assign(src) if rho.function_space() == col.V3 else rho.interpolate(src)
                update()
                want = -col.integral(rho_nodes(th, rho, src), False)/rho0
                if quad:
                    continue
                for c, nodes in enumerate(col.cells2):
                    for q in range(n):
                        for i, d in enumerate(nodes):
                            st = sorted([j for j in cols[c][q] if p25.key(P[j]) == p25.key(col.P2[d])], key=lambda j: P[j][2])
                            require_close(head.dat.data_ro[st[0]], want[c, q, i], 'baroclinic head', rtol=1e-9, atol=1e-11)
                rec.step()
            rec.state('head', group, k)

    def rho_nodes(th, rho, src):
        return src.dat.data_ro

    def exact(k, name):
        """Densities whose head is representable: everything follows exactly."""
        set_elev(th, s, k)
        X2 = th.SpatialCoordinate(s.mesh)
        eta = s.fields.elev_cg_2d.view_3d
        a, b, c = {'constant': (3., 0., 0.), 'z': (1., 0., -.5), 'x': (2., .4, 0.), 'xz': (1., -.3, .2)}[name]
        dens = a + b*x3[0] + c*x3[2]
        rho.project(dens, solver_parameters={'ksp_rtol': 1e-14})
        update()
        h = (a + b*x3[0])*(eta - x3[2]) + c*(eta**2 - x3[2]**2)/2
        err = th.assemble((head - h/1000.)**2*th.dx)
        vol = th.assemble(th.Constant(1.)*th.dx(domain=s.mesh))
        require_close(math.sqrt(abs(err)/vol), 0., 'error of the baroclinic head', rtol=0, atol=1e-11)
        # gradient of h at constant z
        ex, ey = th.grad(eta)[0], th.grad(eta)[1]
        gx = (b*(eta - x3[2]) + (a + b*x3[0] + c*eta)*ex)*g/1000.
        gy = (a + b*x3[0] + c*eta)*ey*g/1000.
        err = th.assemble(((pg[0] - gx)**2 + (pg[1] - gy)**2)*th.dx)
        require_close(math.sqrt(abs(err)/vol), 0., 'error of the pressure gradient', rtol=0, atol=1e-11)
        rec.step()
        rec.state('exact', group, k, name)

    def resting():
        """Horizontally uniform stratification on level layers."""
        set_elev(th, s, 0)
        z = col.z()
        levels = np.unique(np.round(z, 7))
        src = th.Function(col.V3)
        cols = col.idx
        for prof in list(np.eye(2*n)) + [np.arange(2*n)*1., np.cos(np.arange(2*n))]:
            for q in range(n):
                for j in (0, 1):
                    src.dat.data[cols[:, q, :, j].ravel()] = prof[2*q + j]
            rho.project(src, solver_parameters={'ksp_rtol': 1e-14}) if quad else rho.interpolate(src)
            update()
            require_close(pg.dat.data_ro, 0*pg.dat.data_ro, 'pressure gradient of a resting fluid', rtol=0, atol=1e-10)
            rec.step()
            rec.state('rest', group, prof.tolist())

    def scalar():
        set_elev(th, s, 0)
        rho.project(x3[0]**2 + x3[2])
        update()
        base = pg.dat.data_ro.copy()
        require(abs(base).max() > 1e-6, 'no gradient')
        s2 = None
        for f in (0., .5, 2.):
            calc = th.momentum_eq.InternalPressureGradientCalculator(s.fields, s.fields.bathymetry_2d.view_3d, s.bnd_functions['momentum'], internal_pg_scalar=th.Constant(f))
            calc.solve()
            require_close(pg.dat.data_ro, f*base, 'scaled pressure gradient', rtol=1e-9, atol=1e-12)
            rec.step()

    def other_rho0(how):
        old = th.physical_constants['rho0']
        try:
            if how == 'replaced':
                th.physical_constants['rho0'] = 1025.
            else:
                old.assign(1025.)
            heads(1025.)
        finally:
            old.assign(1000.)
            th.physical_constants['rho0'] = old

    if not quad:
        rec.check({'head': group['shape'], 'cell': cell}, heads, 1000.)
        for how in ('assigned', 'replaced'):
            rec.check({'head': group['shape'], 'cell': cell, 'rho0': how}, other_rho0, how)
    for k in range(4):
        for name in ('constant', 'z', 'x', 'xz'):
            # representable: linear density needs the quadratic head unless the layers and the surface are level
            level = shape == 'flat' and k in (0, 2)
            if name == 'constant' or level or quad:
                if cell == 'quad' and not level:
                    continue
                if quad and not level and name == 'x' and False:
                    continue
                rec.check({'exact': name, 'surface': k, 'cell': cell, 'shape': shape, 'quadratic': quad}, exact, k, name)
    if shape == 'flat':
        rec.check({'rest': cell, 'quadratic': quad}, resting)
    rec.check({'scalar': cell, 'shape': shape, 'quadratic': quad}, scalar)


def g_model(group, rec, th):
    """The model uses the chosen equation of state, tracers and constants."""
    eos, solve = group['eos'], group['solve']

    def run(quad, given):
        ref = rho_ref if eos == 'full' else rho_lin
        kw = {}
        s = model(th, 'tri', 'sloped', quad, solve_temperature=solve in ('temp', 'both'), solve_salinity=solve in ('salt', 'both'), equation_of_state_type=eos, **kw)
        if eos == 'linear':
            for k, v in LINEAR.items():
                setattr(s.options.equation_of_state_options, k, v)
        sc, tc = (10., 10.)
        if given:
            sc, tc = 31., 6.
            s.options.constant_salinity = th.Constant(sc)
            s.options.constant_temperature = th.Constant(tc)
        else:
            sc, tc = float(s.options.constant_salinity), float(s.options.constant_temperature)
        s.initialize()
        n = len(s.fields.density_3d.dat.data_ro)
        for k in range(3):
            S, T = sc, tc
            if solve != 'temp':
                f = s.fields.salt_3d
                f.dat.data[:] = S = 20. + 3*k + (0 if quad else np.arange(len(f.dat.data_ro))*.1)
            if solve != 'salt':
                f = s.fields.temp_3d
                f.dat.data[:] = T = 8. + 2*k + (0 if quad else np.cos(np.arange(len(f.dat.data_ro))))
            th.utility.compute_baroclinic_head(s)
            want = np.array([ref(a, b, 0.) - 1000. for a, b in zip(np.broadcast_to(S, n), np.broadcast_to(T, n))])
            require_close(s.fields.density_3d.dat.data_ro, want, 'density in the model', rtol=1e-9, atol=1e-7)
            rec.step()
            rec.state('model', group, quad, given, k)
    for quad, given in itertools.product((False, True), repeat=2):
        rec.check(dict(group, quadratic=quad, constants=given), run, quad, given)
