"""P18: wetting and drying."""
import itertools
import numpy as np
from .common import require, require_close, Scratch, quiet
from . import p16, p23
from .p23 import generic

RULE = ('depth: lattice of bathymetry, elevation and smoothing including zero and extreme values, each with constant, varying and automatic smoothing parameter and all option combinations; '
        'mass: the mass term of the real equations for every element family over the lattice; '
        'runs: every integrator x family x smoothing x bed from an alphabet x initial state, all histories of full and half steps to a depth, volume and depth checked after every step')
ASSUMPTIONS = ['Newton iterations converge (fixed number of exact linear solves)', 'volume is compared in the quadrature the equations use',
               'depth is decided where double precision resolves it (|bathymetry + elevation| <= 1e5 m)']
CASE_TIMEOUT = 600
GROUP_TIMEOUT = 3600

B = [-1e5, -1e3, -50., -3., -1., -.3, -1e-3, 0., 1e-3, .3, 1., 3., 50., 1e3, 1e5]
E = [-1e3, -60., -3., -1., -.2, -1e-6, 0., 1e-6, .2, 1., 3., 60., 1e3]
A = [1e-3, .05, .5, 2., 40.]
STEPPERS = ['CrankNicolson', 'BackwardEuler', 'DIRK22', 'DIRK33', 'PressureProjectionPicard']
QUICK = {'CrankNicolson': (0, 2, 4), 'BackwardEuler': (1,), 'DIRK22': (3,), 'DIRK33': (6,), 'PressureProjectionPicard': (2,)}


def groups(tier):
    g = []
    for st in STEPPERS:
        for k, f in enumerate(p23.FAMS):
            if st == 'PressureProjectionPicard' and f[0] != 'dg-cg':
                continue
            if tier != 'quick' or k in QUICK[st]:
                for a in ALPHAS:
                    if a == 'automatic' and f[1] == 'quad':
                        continue    # cell widths are for triangles only
                    if tier != 'quick' or a == 'constant' or st == 'CrankNicolson' and k == 0 and a == 'automatic' or st == 'BackwardEuler' and a == 'field':
                        g.append({'kind': 'runs', 'stepper': st, 'space': f, 'alpha': a})
    g += [{'kind': 'depth'}, {'kind': 'solver'}, {'kind': 'tracer', 'family': 'dg'}, {'kind': 'others'}]
    g += [{'kind': 'mass', 'space': f} for f in p23.FAMS[::1 if tier != 'quick' else 3]]
    return g


ALPHAS = ['constant', 'small', 'field', 'automatic']


def run_group(group, rec):
    import thetis as th
    quiet()
    with Scratch():
        globals()['g_' + group['kind']](group, rec, th)


def value(th, V, expr):
    """An expression on every cell."""
    if isinstance(expr, (int, float)):
        return np.full(V.dof_dset.size, float(expr))
    return th.Function(V).interpolate(expr).dat.data_ro.copy()


def judge(wd, nl, b, e, a, D, S):
    """Depth D and displacement S at bathymetry b, elevation e, parameter a."""
    H = b + e
    if not wd:
        require(S == 0, 'displacement of {:} without wetting and drying', S)
        want = H if nl else b
        require(D == want, 'depth {:} instead of {:} at bathymetry {:}, elevation {:}', D, want, b, e)
        return
    rnd = 4e-16*(abs(b) + abs(e) + a)
    require(S > 0, 'displacement {:} at bathymetry {:}, elevation {:}, parameter {:}', S, b, e, a)
    if not nl:
        require(D == b, 'linear depth {:} at bathymetry {:}', D, b)
        return
    # far above the water the depth is below what adding up bathymetry, elevation and displacement resolves
    require(D > 0 or D >= -rnd and a**2/4 < 2*rnd*abs(H), 'depth {:} at bathymetry {:}, elevation {:}, parameter {:}', D, b, e, a)
    require(D >= max(H, 0) - rnd, 'depth {:} below the true depth {:}', D, H)
    require(D - max(H, 0) <= a/2 + rnd, 'depth {:} exceeds the true depth {:} by more than the parameter {:} permits', D, H, a)
    if abs(H) > 100*a:
        require(D - max(H, 0) <= a*.0026 + rnd, 'depth {:} is far from the true depth {:}, parameter {:}', D, H, a)
    if abs(H) <= rnd:
        require_close(D, a/2, 'depth at the waterline', rtol=1e-10, atol=rnd)
    require(abs(D - H - S) <= rnd, 'depth {:} is not true depth {:} and displacement {:}', D, H, S)


def g_depth(group, rec, th):
    from thetis.utility import DepthExpression
    n = len(E)
    m = th.UnitIntervalMesh(n)
    V = th.FunctionSpace(m, 'DG', 0)
    f = th.Function(V)
    f.dat.data[:] = E
    for wd, nl, how in itertools.product((True, False), (True, False), ('constant', 'field', 'mixed')):
        for b, a in itertools.product(B, A):
            def run():
                al = th.Constant(a) if how != 'field' else th.Function(V).assign(a)
                bb = th.Constant(b) if how == 'constant' else th.Function(V).assign(b)
                d = DepthExpression(bb, use_nonlinear_equations=nl, use_wetting_and_drying=wd, wetting_and_drying_alpha=al)
                D = value(th, V, d.get_total_depth(f))
                S = value(th, V, d.wd_bathymetry_displacement(f))
                for k in range(n):
                    judge(wd, nl, b, E[k], a, D[k], S[k])
                    rec.state(wd, nl, b, E[k], a)
                    if wd and nl and k:
                        grow = D[k] - D[k - 1]
                        require(grow > 0 or E[k] - E[k - 1] < 1e-3 and grow > -4e-16*(abs(b) + 1e3) or b + E[k] < -500*a and grow >= -4e-16*(abs(b) + abs(E[k])),
                                'depth falls by {:} when the water rises from {:} to {:} over {:}, parameter {:}', -grow, E[k - 1], E[k], b, a)
                rec.step(n)
            rec.check({'wd': wd, 'nonlinear': nl, 'given': how, 'bathymetry': b, 'alpha': a}, run)


BEDS = {
    'beach': lambda x, y: -1.5 + 4.5*x/p23.LX + .3*y/p23.LY,
    'islands': None,
    'valley': lambda x, y: 2.*abs(2*y/p23.LY - 1) - .8,
}


def bed(th, m, name):
    P1 = th.get_functionspace(m, 'CG', 1)
    f = th.Function(P1)
    if name == 'islands':
        f.dat.data[:] = 2. + 3.*generic(f.dat.data_ro.size, 7)
        f.dat.data[1::4] = -2.
    else:
        x, y = th.SpatialCoordinate(m)
        f.interpolate(BEDS[name](x, y))
    return f


def alpha(th, m, how):
    if how == 'constant':
        return th.Constant(.5)
    if how == 'small':
        return th.Constant(.1)
    f = th.Function(th.get_functionspace(m, 'CG', 1))
    f.dat.data[:] = .4 + .3*generic(f.dat.data_ro.size, 2)
    return f


def build(th, st, space, how, src=None, **kw):
    """A model of the given family; the solver options let Newton's method converge."""
    if how == 'automatic':
        kw.update(use_automatic_wetting_and_drying_alpha=True, wetting_and_drying_alpha_min=th.Constant(.05), wetting_and_drying_alpha_max=th.Constant(.8))
    save = p16.LU['snes_max_it']
    p16.LU['snes_max_it'] = 12
    try:
        s = p16.build(th, st, space, vsource=src, use_wetting_and_drying=True, bed=lambda m: bed(th, m, 'islands'),
                      alpha=None if how == 'automatic' else lambda m: alpha(th, m, how), **kw)
    finally:
        p16.LU['snes_max_it'] = save
    return s


def volume(th, s):
    """The volume as the equations see it."""
    sw = s.timestepper.equation if hasattr(s.timestepper, 'equation') else s.equations.sw
    v = th.assemble(sw.mass_term(s.fields.solution_2d))
    return float(v.subfunctions[1].dat.data_ro.sum()) + float(th.assemble(s.fields.bathymetry_2d*th.dx))


def set_state(th, s, kind):
    u, e = s.fields.solution_2d.subfunctions
    u.assign(0.)
    x, y = th.SpatialCoordinate(s.mesh2d)
    if kind == 'still':
        e.assign(.2)
    elif kind == 'tilt':
        e.interpolate(.3 - .8*x/p23.LX)
    elif kind == 'column':
        e.assign(-.5)
        e.dat.data[len(e.dat.data)//2] = 1.5
    elif kind == 'dry':
        e.assign(-3.)
        e.dat.data[:] += .2*generic(e.dat.data_ro.size, 4)
    s.timestepper.initialize(s.fields.solution_2d)


def g_runs(group, rec, th):
    st, space, how = group['stepper'], tuple(group['space']), group['alpha']
    quick = rec.tier == 'quick'
    built = {}

    def get(src):
        if src not in built:
            built[src] = build(th, st, space, how, src=(lambda m: th.Constant(1e-3)) if src else None)
        return built[src]

    def run(src, bd, state, h):
        s = get(src)
        s.timestepper.set_dt(.5)
        s.fields.bathymetry_2d.assign(bed(th, s.mesh2d, bd))
        s.set_wetting_and_drying_alpha()
        set_state(th, s, state)
        area = p23.LX*p23.LY
        P = th.get_functionspace(s.mesh2d, 'DG', 2)
        H = s.depth.get_total_depth(s.fields.elev_2d)
        V = volume(th, s)
        exact = float(th.assemble(H*th.dx(degree=24)))
        require_close(V, exact, 'volume in the mass term against total depth', rtol=2e-2, atol=.05*area)
        t, dt = 0., .5
        for k, op in enumerate(h):
            t, dt = p16.advance(s, t, dt, op)
            w = volume(th, s)
            add = 1e-3*area*dt if src else 0.
            require(abs(w - V - add) <= 1e-9*abs(V) + 1e-9, 'step {:} of {:} from {:} over {:} changed the volume of {:} by {:}, sources give {:}', k + 1, h, state, bd, V, w - V, add)
            V = w
            D = value(th, P, H)
            require(np.isfinite(D).all() and D.min() > 0, 'depth {:} after step {:} of {:} from {:} over {:}', D.min(), k + 1, h, state, bd)
            if state == 'still' and not src:
                u, e = s.fields.solution_2d.subfunctions
                require(np.abs(u.dat.data_ro).max() <= 1e-9 and np.abs(e.dat.data_ro - .2).max() <= 1e-9, 'still water over dry ground moves at {:}', np.abs(u.dat.data_ro).max())
            rec.step()
            rec.state(st, space, how, src, bd, state, h[:k + 1])
    for src in (False, True):
        for bd in BEDS:
            for state in ('still', 'tilt', 'column', 'dry'):
                if quick and src and state != 'tilt':
                    continue
                for h in p16.histories(rec.tier):
                    if quick and h[-1] == 'half' and state != 'column':
                        continue
                    rec.check({'source': src, 'bed': bd, 'state': state, 'history': h}, run, src, bd, state, h)


def g_mass(group, rec, th):
    space = tuple(group['space'])
    s = build(th, 'CrankNicolson' if space[0] != 'dg-cg' else 'BackwardEuler', space, 'constant')
    area = p23.LX*p23.LY

    def run(b, e, a):
        s.options.wetting_and_drying_alpha.assign(a)
        s.fields.bathymetry_2d.assign(b)
        u, el = s.fields.solution_2d.subfunctions
        u.assign(0.)
        el.assign(e)
        H = b + e
        want = .5*(H + np.hypot(H, a))*area
        require_close(volume(th, s), want, 'volume at bathymetry {:}, elevation {:}, parameter {:}'.format(b, e, a), rtol=1e-9, atol=1e-13*(abs(b) + abs(e))*area)
        d = float(th.assemble(s.depth.get_total_depth(el)*th.dx))
        require_close(d, want, 'total depth at bathymetry {:}, elevation {:}, parameter {:}'.format(b, e, a), rtol=1e-9, atol=1e-13*(abs(b) + abs(e))*area)
        rec.step()
        rec.state(space, b, e, a)
    for b, e, a in itertools.product(B[1:-1], E[1:-1], A):
        rec.check({'bathymetry': b, 'elevation': e, 'alpha': a}, run, b, e, a)


def g_solver(group, rec, th):
    """The depth of a model follows its options; the automatic parameter follows mesh and bathymetry within its bounds."""
    from .models import solver2d
    m = p23.mesh(th, 'tri', 3, 2)

    def options(nl, wd, how):
        a = alpha(th, m, how) if how != 'automatic' else None
        kw = dict(use_automatic_wetting_and_drying_alpha=True) if how == 'automatic' else dict(wetting_and_drying_alpha=a)
        s = solver2d(m, bath=lambda x, y: -1.5 + 4.5*x/p23.LX, use_nonlinear_equations=nl, use_wetting_and_drying=wd, **kw)
        s.create_fields()
        V = th.get_functionspace(m, 'DG', 1)
        for lev in (0., .7, -2.):
            s.fields.elev_2d.assign(lev)
            D, S = value(th, V, s.depth.get_total_depth(s.fields.elev_2d)), value(th, V, s.depth.wd_bathymetry_displacement(s.fields.elev_2d))
            b, al = value(th, V, s.fields.bathymetry_2d), value(th, V, s.options.wetting_and_drying_alpha)
            for q in zip(b, al, D, S):
                H = q[0] + lev
                if wd:
                    require_close(q[3], .5*(np.hypot(H, q[1]) - H), 'displacement', rtol=1e-9, atol=1e-12)
                require_close(q[2], (H + (q[3] if wd else 0.)) if nl else q[0], 'depth', rtol=1e-12, atol=1e-12)
                rec.state(nl, wd, how, lev, float(q[0]))
            rec.step()
    for nl, wd, how in itertools.product((True, False), (True, False), ALPHAS):
        rec.check({'nonlinear': nl, 'wd': wd, 'alpha': how}, options, nl, wd, how)

    def automatic(mesh, slope, lo, hi):
        s = solver2d(mesh, bath=lambda x, y: 5. + slope[0]*x + slope[1]*y, use_wetting_and_drying=True, use_automatic_wetting_and_drying_alpha=True,
                     wetting_and_drying_alpha_min=None if lo is None else th.Constant(lo), wetting_and_drying_alpha_max=None if hi is None else th.Constant(hi))
        s.create_fields()
        a = s.options.wetting_and_drying_alpha.dat.data_ro
        P0v = th.VectorFunctionSpace(mesh, 'DG', 0)
        P1 = th.FunctionSpace(mesh, 'CG', 1)
        X = th.Function(th.VectorFunctionSpace(mesh, 'CG', 1)).interpolate(th.SpatialCoordinate(mesh)).dat.data_ro
        cn = P1.cell_node_map().values
        ok = [[] for _ in range(len(X))]
        for c in cn:
            w = np.ptp(X[c], axis=0)
            v = w[0]*abs(slope[0]) + w[1]*abs(slope[1])
            if hi is not None:
                v = min(v, hi)
            if lo is not None:
                v = max(v, lo)
            for k in c:
                ok[k].append(v)
        for k, v in enumerate(a):
            require(min(ok[k])*(1 - 1e-9) <= v <= max(ok[k])*(1 + 1e-9), 'automatic parameter {:} at node {:}, cells around it give {:}', v, k, sorted(set(ok[k])))
            rec.state(slope, lo, hi, k)
        rec.step()
    for mesh, slope, lo, hi in itertools.product((m, p23.mesh(th, 'tri', 4, 1)), ((0., 0.), (.01, 0.), (0., -.02), (.01, .03), (-.4, .02)), (None, .1, .7), (None, 2., .3)):
        if lo is not None and hi is not None and lo > hi:
            continue
        rec.check({'mesh': mesh is m, 'slope': slope, 'min': lo, 'max': hi}, automatic, mesh, slope, lo, hi)

    def refused(a):
        s = solver2d(m, use_wetting_and_drying=True)
        try:
            s.options.wetting_and_drying_alpha = a(m)
            s.create_fields()
        except Exception:
            rec.step()
            return
        require(False, 'a negative parameter is accepted')
    neg = lambda m: th.Function(th.get_functionspace(m, 'CG', 1)).assign(.5)

    def onedeep(m):
        f = neg(m)
        f.dat.data[3] = -.01
        return f
    for name, a in (('constant', lambda m: th.Constant(-.5)), ('field', onedeep)):
        rec.check({'negative': name}, refused, a)


def g_tracer(group, rec, th):
    """Tracers over drying ground: a constant stays constant, conservative mass is kept."""
    for cons in (False, True):
        s = build(th, 'BackwardEuler', ('dg-dg', 'tri', 1), 'constant', tracer='CrankNicolson', conservative=cons, tfam='dg', limiter=False, tracer_only=False)
        q = s.fields.q_2d

        def run(bd, state, h):
            s.timestepper.set_dt(.5)
            s.fields.bathymetry_2d.assign(bed(th, s.mesh2d, bd))
            set_state(th, s, state)
            q.assign(4.)
            s.timestepper.initialize(s.fields.solution_2d)
            t, dt = 0., .5
            for k, op in enumerate(h):
                t, dt = p16.advance(s, t, dt, op)
                if cons:
                    require(np.isfinite(q.dat.data_ro).all(), 'tracer is not finite')
                else:
                    require_close(q.dat.data_ro, 4. + 0*q.dat.data_ro, 'constant tracer after step {:} of {:} from {:} over {:}'.format(k + 1, h, state, bd), rtol=1e-8)
                rec.step()
                rec.state(cons, bd, state, h[:k + 1])
        for bd, state in itertools.product(BEDS, ('still', 'tilt', 'column', 'dry')):
            for h in p16.histories(rec.tier):
                rec.check({'conservative': cons, 'bed': bd, 'state': state, 'history': h}, run, bd, state, h)


def g_others(group, rec, th):
    """Integrators that cannot treat the nonlinear mass term refuse; none silently loses volume."""
    def run(st):
        try:
            s = build(th, st, ('dg-dg', 'tri', 1), 'constant')
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt) or type(e).__name__ == 'CaseTimeout':
                raise
            rec.note('refused')
            rec.step()
            return
        for state in ('tilt', 'column'):
            s.fields.bathymetry_2d.assign(bed(th, s.mesh2d, 'islands'))
            set_state(th, s, state)
            V = volume(th, s)
            s.timestepper.advance(0.)
            w = volume(th, s)
            require(abs(w - V) <= 1e-9*abs(V), '{:} changed the volume of {:} by {:} over drying ground', st, V, w - V)
            rec.step()
    for st in ('SSPRK33', 'ForwardEuler', 'SSPIMEX'):
        rec.check({'stepper': st}, run, st, key='wd-imex' if st == 'SSPIMEX' else None)
