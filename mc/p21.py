"""P21: tidal turbines."""
import itertools
import json
import math
import os
import numpy as np
from .common import require, require_close, require_equal, Violation, Scratch, quiet
from .models import solver2d, StubStepper

RULE = ('every turbine definition over an alphabet of options at a lattice of speeds and depths against independent formulas; farms in sets of subdomains; the force in the assembled '
        'equation; all histories of states up to a depth through the callback; all placements of up to four turbines on a lattice; all turbine files over an alphabet')
ASSUMPTIONS = ['velocity, depth and density constant in each cell, so that the integrals are exact', 'speeds exactly at the cut-out speed are left open']
CASE_TIMEOUT = 900
GROUP_TIMEOUT = 3600

TABLES = [([1., 2.], [.5, .7]), ([.9, 1., 3., 5., 5.001], [.01, .7, .7, .1, .0001]), ([.5, 1.5, 2.], [.8, .2, .6]), ([1., 1.2, 2.5, 4.], [0., .3, .9, .3])]


def groups(tier):
    g = [{'kind': 'curves', 'part': i} for i in range(4)]
    g += [{'kind': k} for k in ('farm', 'force', 'callback', 'loop', 'constraints', 'files', 'refused')]
    return g + [{'kind': 'discrete', 'n': n} for n in range(4)]


def run_group(group, rec):
    import thetis as th
    quiet()
    with Scratch():
        globals()['g_' + group['kind']](group, rec, th)


class Ref:
    """Formulas for one turbine."""
    def __init__(self, diameter=18., projected=None, C_support=0., A_support=0., shear=False, alpha=7., beta=.4, hub=None, structure='bottom-fixed',
                 ct=.8, cp=None, speeds=None, upwind=False):
        self.__dict__.update(locals())
        del self.__dict__['self']
        self.A = math.pi*diameter**2/4
        self.proj = projected or diameter
        if cp is None:
            emp = lambda c: .5*c*(1 + math.sqrt(1 - c))
            self.cp = [emp(c) for c in ct] if speeds else emp(ct)

    def curve(self, values, u):
        if not self.speeds:
            return values
        s = self.speeds
        if u < s[0] or u > s[-1]:
            return 0.
        for i in range(len(s) - 1):
            if u <= s[i + 1]:
                w = (u - s[i])/(s[i + 1] - s[i])
                return (1 - w)*values[i] + w*values[i + 1]

    def effective(self, u, H):
        if not self.shear:
            return u
        w = [0.052, 0.0903, 0.1099, 0.1212, 0.1266, 0.1266, 0.1212, 0.1099, 0.0903, 0.052]
        hub = self.hub if self.structure == 'bottom-fixed' else H - self.hub
        tot = 0.
        for k in range(10):
            z = hub - self.diameter/2 + self.diameter*k/9
            tot += w[k]*(u*(z/(self.beta*H))**(1/self.alpha))**3
        return tot**(1/3)

    def area(self, ue):
        return self.curve(self.ct, ue)*self.A + self.C_support*self.A_support

    def ratio(self, ue, H):
        if not self.upwind:
            return 1.
        return .5*(1 + math.sqrt(1 - self.area(ue)/(self.proj*H)))

    def drag(self, u, H):
        ue = self.effective(u, H)
        return self.area(ue)/2/self.ratio(ue, H)**2

    def power(self, u, H, rho=1000.):
        ue = self.effective(u, H)
        up = ue/self.ratio(ue, H)
        return .5*rho*self.A*self.curve(self.cp, up)*up**3

    def options(self, th, discrete=True):
        from thetis.options import DiscreteTidalTurbineFarmOptions, TidalTurbineFarmOptions
        o = DiscreteTidalTurbineFarmOptions() if discrete else TidalTurbineFarmOptions()
        if self.speeds:
            o.turbine_type = 'table'
            t = o.turbine_options
            t.thrust_speeds, t.thrust_coefficients = list(self.speeds), list(self.ct)
            if self.given_cp:
                t.power_coefficients = list(self.cp)
        else:
            o.turbine_type = 'constant'
            t = o.turbine_options
            t.thrust_coefficient = self.ct
            if self.given_cp:
                t.power_coefficient = self.cp
        t.diameter = self.diameter
        t.projected_diameter = self.projected
        t.C_support, t.A_support = self.C_support, self.A_support
        t.apply_shear_profile = self.shear
        t.shear_alpha, t.shear_beta = self.alpha, self.beta
        t.rel_hub_height = self.hub
        t.structure_type = self.structure
        if discrete:
            o.upwind_correction = self.upwind
        return o

    given_cp = False


def definitions(tier):
    base = [dict(ct=.8), dict(ct=.3, cp=.25)] + [dict(ct=c, speeds=s) for s, c in TABLES]
    base.append(dict(ct=TABLES[1][1], speeds=TABLES[1][0], cp=[.0, .4, .41, .2, .0]))
    for b in base:
        for up, sup, proj, shear in itertools.product((False, True), (False, True), (None, 30.), (None, 'bottom-fixed', 'floating')):
            if tier == 'quick' and proj and not up:
                continue
            d = dict(b, upwind=up, projected=proj)
            if sup:
                d.update(C_support=.7, A_support=12.)
            if shear:
                d.update(shear=True, structure=shear, hub=12.)
                if up != sup:
                    d.update(alpha=5., beta=.32)
            r = Ref(**d)
            r.given_cp = 'cp' in b
            yield d, r


SPEEDS = sorted({.0, .3, .499, .5, .6, .89, .9, .95, .999, 1., 1.0001, 1.1, 1.2, 1.3, 1.5, 1.9999, 2., 2.2, 2.5, 2.9, 3., 3.3, 3.9999, 4.2, 4.99, 5.0005, 5.2, 8.})
DEPTHS = (28., 40.)


def g_curves(group, rec, th):
    import ufl
    from ufl.algorithms.apply_algebra_lowering import apply_algebra_lowering
    pts = list(itertools.product(SPEEDS, DEPTHS))
    n = len(pts)
    mesh = th.UnitIntervalMesh(1)
    # evaluated point by point from the expressions, without compilation
    uv = ufl.Coefficient(th.VectorFunctionSpace(mesh, 'DG', 0, dim=2).ufl_function_space())
    H = ufl.Coefficient(th.FunctionSpace(mesh, 'DG', 0).ufl_function_space())
    ang = np.arange(n)*.9
    sp = np.array([p[0] for p in pts])
    vec = np.stack([sp*np.cos(ang), sp*np.sin(ang)], axis=1)
    sp = np.sqrt((vec**2).sum(axis=1))
    dep = np.array([p[1] for p in pts])
    from thetis.turbines import ConstantThrustTurbine, TabulatedThrustTurbine

    def value(expr):
        if not hasattr(expr, 'ufl_shape'):
            return np.full(n, float(expr))
        e = apply_algebra_lowering(expr)
        return np.array([float(e((), {uv: tuple(v), H: h})) for v, h in zip(vec, dep)])

    def run(d, r):
        o = r.options(th)
        cls = TabulatedThrustTurbine if r.speeds else ConstantThrustTurbine
        t = cls(o.turbine_options, upwind_correction=r.upwind)
        # round-off decides on which side of a jump of the curve a speed lies
        tops = [] if not r.speeds else [r.speeds[0], r.speeds[-1]]

        def clear(values):
            return np.array([all(abs(v - s) > 1e-9 for s in tops) for v in values])
        ok = clear(sp)
        require_close(value(t.thrust_coefficient(uv))[ok], np.array([r.curve(r.ct, u) for u in sp])[ok], 'thrust coefficient', rtol=1e-9, atol=1e-10)
        require_close(value(t.power_coefficient(uv))[ok], np.array([r.curve(r.cp, u) for u in sp])[ok], 'power coefficient', rtol=1e-9, atol=1e-10)
        ue = np.array([r.effective(u, h) for u, h in zip(sp, dep)])
        okd = clear(ue)
        require_close(value(t.friction_coefficient(uv, H))[okd], np.array([r.drag(u, h) for u, h in zip(sp, dep)])[okd], 'drag coefficient', rtol=1e-8, atol=1e-9)
        up = np.array([u/r.ratio(u, h) for u, h in zip(ue, dep)])
        okp = okd & clear(up) & (sp > 0)
        require_close(value(t.power(uv, H))[okp], np.array([r.power(u, h) for u, h in zip(sp, dep)])[okp], 'power', rtol=1e-7, atol=1e-6)
        rec.step(n)
        rec.state(d)
    for i, (d, r) in enumerate(definitions(rec.tier)):
        if i % 4 == group['part']:
            rec.check({'turbine': d}, run, d, r)


# ---------------------------------------------------------------------------

def tagged_mesh(th, tags):
    """Two by two squares split into triangles; every square its own subdomain."""
    m = th.RectangleMesh(2, 2, 400., 400.)
    V = th.FunctionSpace(m, 'DG', 0)
    x, y = th.SpatialCoordinate(m)
    sel = [(0, 0), (1, 0), (0, 1), (1, 1)]
    ind = []
    for i, j in sel:
        f = th.Function(V).interpolate(th.conditional(th.And(th.And(x > 200*i, x < 200*(i + 1)), th.And(y > 200*j, y < 200*(j + 1))), 1., 0.))
        ind.append(f)
    return th.RelabeledMesh(m, ind, tags)


def farm_solver(th, farms, discrete=False, bath=30., mesh=None, **kw):
    """farms: {tag: [(Ref, density)]}"""
    mesh = mesh or tagged_mesh(th, [1, 2, 3, 4])

    def pre(s):
        for tag, fl in farms.items():
            lst = []
            for r, dens, be in fl:
                o = r.options(th, discrete=False)
                o.turbine_density = th.Constant(dens) if isinstance(dens, float) else dens
                o.break_even_wattage = be
                lst.append(o)
            s.options.tidal_turbine_farms[tag] = lst
    s = solver2d(mesh=mesh, bath=bath, pre=pre, **kw)
    return s


R1 = Ref(ct=.8)
R2 = Ref(ct=.6, cp=.4, diameter=10.)
R2.given_cp = True
R3 = Ref(ct=TABLES[2][1], speeds=TABLES[2][0])
AREA = 200.*200.


def g_farm(group, rec, th):
    """Power and number of turbines for sets of farms in subdomains."""
    mesh = tagged_mesh(th, [1, 2, 3, 4])
    pool = [(R1, 1e-4, 0.), (R2, 3e-5, 100.), (R3, 2e-4, 5e3)]

    def run(layout, u, elev):
        farms = {}
        for tag, idx in layout:
            farms.setdefault(tag, []).append(pool[idx])
        s = farm_solver(th, farms, mesh=mesh)
        s.create_equations()
        uv, el = s.fields.solution_2d.subfunctions
        uv.dat.data[:] = (u, 0.)
        el.assign(elev)
        flat = [f for tag in farms for f in farms[tag]]
        require(len(s.tidal_farms) == len(flat), '{:} farms instead of {:}', len(s.tidal_farms), len(flat))
        for farm, (r, d, be) in zip(s.tidal_farms, flat):
            require_close(farm.number_of_turbines(), d*AREA, 'number of turbines', rtol=1e-10)
            require_close(farm.power_output(uv, th.Constant(30.)), r.power(abs(u), 30.)*d*AREA, 'power of a farm', rtol=1e-8, atol=1e-6)
            require_close(farm.break_even_wattage, be, 'break even wattage')
            rec.step()
        cb = th.turbines.TurbineFunctionalCallback(s, append_to_log=False, export_to_hdf5=False)
        s.dt = 1.
        cur, avg, prof = cb()
        require_close(cur, [r.power(abs(u), 30.)*d*AREA for r, d, be in flat], 'current power', rtol=1e-8, atol=1e-6)
        require_close(prof, [r.power(abs(u), 30.)*d*AREA - be*d*AREA for r, d, be in flat], 'profit', rtol=1e-8, atol=1e-6)
        rec.state(layout, u, elev)
    tags = (1, 2, 3)
    layouts = [tuple(zip(t, i)) for k in (1, 2) for t in itertools.product(tags, repeat=k) for i in itertools.product(range(3), repeat=k)]
    if rec.tier == 'quick':
        layouts = layouts[::3] + [((1, 0), (1, 1), (4, 2)), ((2, 0), (3, 1), (1, 2))]
    for layout in layouts:
        for u, e in ((1.7, 0.), (-.8, 1.)):
            rec.check({'farms': layout, 'u': u, 'elevation': e}, run, layout, u, e)


def g_force(group, rec, th):
    """Force on the flow in the assembled momentum equation, cell by cell."""
    mesh = tagged_mesh(th, [1, 2, 3, 4])
    pools = {'constant': R1, 'other': R2, 'table': R3, 'upwind': Ref(ct=.8, upwind=True), 'support': Ref(ct=.5, C_support=.7, A_support=30.)}

    def run(names, u, v, elev, nonlinear):
        farms = {i + 1: [(pools[k], 1e-4*(i + 1), 0.)] for i, k in enumerate(names)}
        s = farm_solver(th, farms, mesh=mesh, use_nonlinear_equations=nonlinear)
        s.create_equations()
        # upwind correction is an option of discrete farms
        for farm, k in zip(s.tidal_farms, names):
            farm.turbine.upwind_correction = pools[k].upwind
        eq = s.equations.sw
        sol = s.fields.solution_2d
        uv, el = sol.subfunctions
        uv.dat.data[:] = (u, v)
        el.assign(elev)
        term = [t for k, t in eq.terms.items() if 'Turbine' in type(t).__name__]
        require(len(term) == 1, 'no turbine term in the equation')
        uu, ee = th.split(sol)
        f = th.assemble(term[0].residual(uu, ee, uu, ee, {}, {}, {}))
        F = f.subfunctions[0].dat.data_ro if hasattr(f, 'subfunctions') and len(f.subfunctions) > 1 else f.dat.data_ro
        # sum over the test functions of each cell = integral over the cell
        V = uv.function_space()
        c = th.Function(th.VectorFunctionSpace(mesh, 'DG', 0)).interpolate(th.SpatialCoordinate(mesh)).dat.data_ro
        H = 30. + (elev if nonlinear else 0.)
        sp = math.hypot(u, v)
        for k, nodes in enumerate(V.cell_node_map().values):
            tag = 1 + int(c[k][0] > 200) + 2*int(c[k][1] > 200)
            want = np.zeros(2)
            if tag <= len(names):
                r, d = pools[names[tag - 1]], 1e-4*tag
                want = -r.drag(sp, H)*d*sp*np.array([u, v])/H*AREA/2
            require_close(F[nodes].sum(axis=0), want, 'force on cell {:}'.format(k), rtol=1e-8, atol=1e-9)
        rec.step()
        rec.state(names, u, v, elev, nonlinear)
    for names in list(itertools.product(pools, repeat=1)) + list(itertools.combinations(pools, 2)) + [('table', 'upwind', 'constant')]:
        for (u, v), elev, nl in itertools.product(((1.7, 0.), (-.6, .9), (.1, .1), (2.5, -2.)), (0., -2.), (True, False)):
            if rec.tier == 'quick' and (elev and (u, v) != (1.7, 0.) or (not nl and not elev)):
                continue
            rec.check({'farms': names, 'uv': (u, v), 'elevation': elev, 'nonlinear': nl}, run, names, u, v, elev, nl)


def bump(x, y, coords, radius):
    tot = 0*x
    with np.errstate(all='ignore'):
        for a, b in coords:
            p, q = (x - a)/radius, (y - b)/radius
            f = np.where(np.abs(p) < 1, np.exp(1 - 1/(1 - p**2)), 0.)*np.where(np.abs(q) < 1, np.exp(1 - 1/(1 - q**2)), 0.)
            tot = tot + f/radius**2/1.45661
    return tot


def g_discrete(group, rec, th):
    mesh = th.RectangleMesh(20, 20, 200., 200.)
    from thetis.turbines import DiscreteTidalTurbineFarm
    P = th.FunctionSpace(mesh, 'DG', 2)
    X = th.Function(th.VectorFunctionSpace(mesh, 'DG', 2)).interpolate(th.SpatialCoordinate(mesh)).dat.data_ro
    f = th.Function(P)
    lattice = [(x, y) for x in (40., 95., 150.) for y in (50., 103.)]

    def run(coords, proj, later, const):
        r = Ref(ct=.8, diameter=18., projected=proj)
        o = r.options(th)
        first = list(coords[:len(coords) - later])
        mk = (lambda c: [th.Constant(c[0]), th.Constant(c[1])]) if const else list
        o.turbine_coordinates = [mk(c) for c in first]
        farm = DiscreteTidalTurbineFarm(mesh, th.dx(degree=10), o)
        if later:
            farm.add_turbines([mk(c) for c in coords[len(first):]])
        dens = farm.turbine_density
        f.interpolate(dens if hasattr(dens, 'ufl_shape') else th.Constant(float(dens)))
        require_close(f.dat.data_ro, bump(X[:, 0], X[:, 1], coords, (proj or 18.)/2), 'turbine density', rtol=1e-9, atol=1e-13)
        if coords:
            require_close(farm.number_of_turbines(), len(coords), 'number of turbines', rtol=.02)
            uv = th.Function(th.VectorFunctionSpace(mesh, 'DG', 0))
            for u in (.5, 1., 3.):
                uv.dat.data[:] = (0., u)
                require_close(farm.power_output(uv, th.Constant(30.)), farm.number_of_turbines()*r.power(u, 30.), 'power', rtol=1e-9)
        rec.step()
        rec.state(coords, proj, later, const)
    for n in (group['n'],):
        for coords in itertools.combinations(lattice, n):
            for later in range(min(n, 2) + 1):
                for proj in (None, 50.):
                    if rec.tier == 'quick' and n == 3 and (proj is None) != (later == 1):
                        continue
                    rec.check({'coordinates': coords, 'projected': proj, 'added later': later}, run, coords, proj, later,
                              coords not in (((40., 50.),), ((40., 50.), (150., 103.))))

    def integral():
        # the normalisation: the bump integrates to one
        g, w = np.polynomial.legendre.leggauss(400)
        i = (w*np.exp(1 - 1/(1 - g**2))).sum()**2
        require_close(i/1.45661, 1., 'integral of one turbine', rtol=1e-5)
    rec.check({'normalisation': 'bump'}, integral)


# ---------------------------------------------------------------------------

def g_callback(group, rec, th):
    """All histories of flow states."""
    import h5py
    mesh = tagged_mesh(th, [1, 2, 3, 4])
    STATES = [(0., 0.), (1.7, 0.), (-.9, 1.2)]
    sets = {'one': {1: [(R1, 1e-4, 0.)]}, 'two': {1: [(R1, 1e-4, 2e3)], 3: [(R2, 3e-5, 10.)]}, 'three': {2: [(R3, 1e-4, 0.), (R1, 2e-5, 50.)], 4: [(R2, 3e-5, 0.)]}}

    def run(name, dt, depth):
        farms = sets[name]
        flat = [f for tag in farms for f in farms[tag]]
        s = farm_solver(th, farms, mesh=mesh, dt=dt, texp=dt, end=dt*10)
        s.create_timestepper()
        uv, el = s.fields.solution_2d.subfunctions
        el.assign(0.)
        for hist in itertools.product(range(3), repeat=depth):
            cb = th.turbines.TurbineFunctionalCallback(s, append_to_log=False, export_to_hdf5=hist == (0, 1, 2), outputdir='d')
            tot = np.zeros(len(flat))
            for k, i in enumerate(hist):
                uv.dat.data[:] = STATES[i]
                before = s.fields.solution_2d.dat.data_ro
                before = [x.copy() for x in before]
                s.simulation_time = (k + 1)*dt
                if cb.append_to_hdf5:
                    cb.evaluate(index=k)
                    cur, avg, prof = cb.instantaneous_power, cb.average_power, cb.average_profit
                else:
                    cur, avg, prof = cb()
                p = np.array([r.power(math.hypot(*STATES[i]), 30.)*d*AREA for r, d, be in flat])
                be = np.array([b*d*AREA for r, d, b in flat])
                tot += p*dt
                require_close(cur, p, 'current power', rtol=1e-8, atol=1e-6)
                require_close(cb.instantaneous_power, p, 'instantaneous power', rtol=1e-8, atol=1e-6)
                require_close(cb.integrated_power, tot, 'integrated power', rtol=1e-8, atol=1e-6)
                require_close(avg, tot/(k + 1)/dt, 'average power', rtol=1e-8, atol=1e-6)
                require_close(prof, tot/(k + 1)/dt - be, 'average profit', rtol=1e-8, atol=1e-6)
                require_close(cb.time_period, (k + 1)*dt, 'time period')
                for a, b in zip(before, s.fields.solution_2d.dat.data_ro):
                    require_close(b, a, 'state after the evaluation', rtol=0, atol=0)
                rec.step()
            rec.state(name, dt, hist)
            if cb.append_to_hdf5:
                with h5py.File('d/diagnostic_turbine.hdf5') as h:
                    require_equal(sorted(h.keys()), ['average_power', 'average_profit', 'current_power', 'time'], 'records')
                    require_close(h['average_power'][-1], tot/depth/dt, 'average power in the file', rtol=1e-8, atol=1e-6)
                    require_close(h['current_power'][:, 0], [flat[0][0].power(math.hypot(*STATES[i]), 30.)*flat[0][1]*AREA for i in hist], 'power in the file', rtol=1e-8, atol=1e-6)
    for name, dt in itertools.product(sets, (1., 7.5)):
        rec.check({'farms': name, 'dt': dt}, run, name, dt, 3 if rec.tier == 'quick' else 4)


def g_loop(group, rec, th):
    """Time integrals in the time loop, with given and automatic time steps."""
    mesh = tagged_mesh(th, [1, 2, 3, 4])

    def run(stepper, auto, nsteps, interval):
        s = farm_solver(th, {1: [(R1, 1e-4, 3.)]}, mesh=mesh, dt=2., texp=1e9, stepper=stepper, end=1.)
        if auto:
            s.options.swe_timestepper_options.use_automatic_timestep = True
            s.options.cfl_2d = 1.
        s.initialize()
        dt = s.dt
        s.options.simulation_end_time = (nsteps - .5)*dt
        uv, el = s.fields.solution_2d.subfunctions
        el.assign(0.)
        uv.dat.data[:] = (1., 0.)
        seen = []

        def hook(t):
            uv.dat.data[:] = (1. + .1*len(seen), 0.)
            seen.append(1. + .1*len(seen))
        s.timestepper = StubStepper(hook)
        cb = th.turbines.TurbineFunctionalCallback(s, append_to_log=False, export_to_hdf5=False)
        s.add_callback(cb, 'timestep')
        s.iterate()
        require_equal(len(seen), nsteps, 'number of steps')
        p = [R1.power(u, 30.)*1e-4*AREA for u in seen]
        require_close(cb.integrated_power, [sum(p)*dt], 'integrated power', rtol=1e-8)
        require_close(cb.average_power, [sum(p)/nsteps], 'average power', rtol=1e-8)
        require_close(cb.time_period, nsteps*dt, 'time period', rtol=1e-10)
        rec.step(nsteps)
        rec.state(stepper, auto, nsteps)
    for stepper, auto in (('CrankNicolson', False), ('SSPRK33', False), ('SSPRK33', True), ('ForwardEuler', True)):
        for nsteps in (1, 2, 5):
            rec.check({'stepper': stepper, 'automatic step': auto, 'steps': nsteps}, run, stepper, auto, nsteps, 1)

    def depth(upwind, shear, elev):
        # power and drag see the same water depth
        r = Ref(ct=.8, upwind=upwind, shear=bool(shear), structure=shear or 'bottom-fixed', hub=14.)
        s = farm_solver(th, {1: [(r, 1e-4, 0.)]}, mesh=mesh)
        s.create_equations()
        s.tidal_farms[0].turbine.upwind_correction = upwind
        s.dt = 1.
        uv, el = s.fields.solution_2d.subfunctions
        uv.dat.data[:] = (1.4, 0.)
        el.assign(elev)
        cb = th.turbines.TurbineFunctionalCallback(s, append_to_log=False, export_to_hdf5=False)
        require_close(cb()[0], [r.power(1.4, 30. + elev)*1e-4*AREA], 'power at elevation {:}'.format(elev), rtol=1e-7)
        rec.step()
        rec.state('depth', upwind, shear, elev)
    for up, sh, e in itertools.product((False, True), (None, 'bottom-fixed', 'floating'), (0., 2., -3.)):
        rec.check({'upwind': up, 'shear': sh, 'elevation': e}, depth, up, sh, e)


def g_constraints(group, rec, th):
    lattice = [(float(x), float(y)) for x in (0, 1, 3) for y in (0, 2, 2.5)]

    def run(n, dist, part):
        for k, pos in enumerate(itertools.product(lattice, repeat=n)):
            if k % 3 != part:
                continue
            con = th.turbines.MinimumDistanceConstraints([(th.Constant(a), b) for a, b in pos] if k % 2 else pos, dist)
            m = np.array(pos).ravel()
            f = con.function(m)
            pairs = list(itertools.combinations(range(n), 2))
            require_equal(con.length(), len(pairs), 'number of constraints')
            require_equal(len(f), len(pairs), 'number of values')
            d = {(i, j): math.hypot(pos[i][0] - pos[j][0], pos[i][1] - pos[j][1]) for i, j in pairs}
            require_close(sorted(f), sorted(x**2 - dist**2 for x in d.values()), 'constraint values', rtol=1e-12, atol=1e-12)
            if all(abs(x - dist) > 1e-9 for x in d.values()):
                require_equal(bool(np.all(f > 0)), all(x > dist for x in d.values()), 'feasibility')
            J = np.asarray(con.jacobian(m))
            require_equal(J.shape, (len(pairs), 2*n), 'shape of the derivative')
            # quadratic functions: central differences are exact
            for q in range(2*n):
                e = np.zeros(2*n)
                e[q] = .5
                require_close(J[:, q], con.function(m + e) - con.function(m - e), 'derivative with respect to coordinate {:}'.format(q), rtol=1e-10, atol=1e-10)
            rec.step()
            rec.state(n, dist, pos)
    for n in (1, 2, 3) + ((4,) if rec.tier != 'quick' else ()):
        for dist in (1., 2.5):
            for part in range(3):
                rec.check({'turbines': n, 'distance': dist, 'part': part}, run, n, dist, part)
    if rec.tier == 'quick':
        lattice[:] = lattice[::2]
        for part in range(3):
            rec.check({'turbines': 4, 'distance': 2.2, 'part': part}, run, 4, 2.2, part)


def g_files(group, rec, th):
    import yaml
    mesh = th.UnitSquareMesh(1, 1)

    def run(ext, table, support, include, discrete, upwind):
        data = {'name': 'T', 'diameter': 21.}
        if table is not False:
            data['turbine_thrust_def'] = 'table'
            data['curves'] = {'speeds': [1., 2., 3.], 'thrust': [.1, .8, .2], 'power': [.05, .4, .1]}
        else:
            if upwind is None:
                data['turbine_thrust_def'] = 'constant'
            data.update(thrust_coefficient=.7, power_coefficient=.45)
        if support:
            data['support_structure'] = {'type': support, 'rel_hub_height': 9., 'C_support': .6, 'A_support': 25.}
        if upwind is not None:
            data['upwind_correction'] = upwind
        path = 't' + ext
        with open(path, 'w') as f:
            (json.dump if ext == '.json' else yaml.safe_dump)(data, f)
        o = th.turbines.load_turbine(path, mesh, include_support=include, discrete=discrete)
        t = o.turbine_options
        require_close(t.diameter, 21., 'diameter')
        if table:
            require_equal((o.turbine_type, t.thrust_speeds, t.thrust_coefficients, t.power_coefficients), ('table', [1., 2., 3.], [.1, .8, .2], [.05, .4, .1]), 'tables')
        else:
            require_equal((o.turbine_type, t.thrust_coefficient, t.power_coefficient), ('constant', .7, .45), 'coefficients')
        want = (support, 9., .6, 25.) if support and include else ('bottom-fixed', None, 0., 0.)
        require_equal((t.structure_type, t.rel_hub_height, t.C_support, t.A_support), want, 'support structure')
        require_equal(type(o).__name__, 'DiscreteTidalTurbineFarmOptions' if discrete else 'TidalTurbineFarmOptions', 'kind of options')
        if discrete:
            require_equal(o.upwind_correction, True if upwind is None else upwind, 'upwind correction')
        require(o.turbine_density.function_space().mesh() is mesh, 'density on another mesh')
        rec.step()
        rec.state(ext, table, support, include, discrete, upwind)
    for c in itertools.product(('.yaml', '.yml', '.json'), (False, True), (None, 'bottom-fixed', 'floating'), (True, False), (True, False), (None, True, False)):
        rec.check({'file': c}, run, *c)


def g_refused(group, rec, th):
    def refuse(what, exc, fn):
        def run():
            try:
                fn()
            except exc:
                rec.step()
                return
            raise Violation('{:} accepted'.format(what))
        rec.check({'refused': what}, run)

    def table(**kw):
        o = Ref(ct=TABLES[2][1], speeds=TABLES[2][0]).options(th)
        for k, v in kw.items():
            setattr(o.turbine_options, k, v)
        return th.turbines.TabulatedThrustTurbine(o.turbine_options)
    refuse('fewer thrust coefficients than speeds', ValueError, lambda: table(thrust_coefficients=[.1, .2]))
    refuse('fewer power coefficients than speeds', ValueError, lambda: table(power_coefficients=[.1, .2]))
    refuse('more power coefficients than speeds', ValueError, lambda: table(power_coefficients=[.1]*4))

    def shear():
        o = Ref(ct=.8, shear=True).options(th)
        t = th.turbines.ConstantThrustTurbine(o.turbine_options)
        t.power(th.Constant((1., 0.)), th.Constant(20.))
    refuse('shear profile without hub height', ValueError, shear)
    mesh = th.UnitSquareMesh(1, 1)

    def farms(attr, value):
        def pre(s):
            getattr(s.options, attr)['everywhere'] = value
        s = solver2d(mesh=mesh, pre=pre)
        s.create_equations()
    refuse('farm options without a list', TypeError, lambda: farms('tidal_turbine_farms', R1.options(th, False)))
    refuse('discrete farm options without a list', TypeError, lambda: farms('discrete_tidal_turbine_farms', R1.options(th, True)))
