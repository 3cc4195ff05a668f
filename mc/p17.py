"""P17: boundary conditions."""
import itertools
import numpy as np
from .common import require, require_close, require_equal, Violation, Scratch, quiet
from . import weakforms as wf
from . import p23
from .p23 import Model, TracerModel, FAMS, BLEN, assembled

RULE = ('every combination of boundary keys x boundary x family x cell x form of the equations, with every basis function of the solution space and a set of lagged states with in- and '
        'outflow, against independent forms; totals of prescribed fluxes; equivalence of combinations prescribing the same state; every wrong key in every position')
ASSUMPTIONS = ['the terms are affine in the solution, lagged states from a small alphabet', 'small distorted mesh of both cell types']
CASE_TIMEOUT = 900
GROUP_TIMEOUT = 3600

COMBOS = [('elev',), ('uv',), ('un',), ('flux',), ('elev', 'uv'), ('elev', 'un'), ('elev', 'flux')]


def groups(tier):
    quick = tier == 'quick'
    g = []
    for f in FAMS + ([] if quick else p23.MORE):
        for part in ('single', 'mixed'):
            g.append({'kind': 'sets', 'space': f, 'wetting': None, 'nonlinear': True, 'part': part})
            if f == FAMS[0] or not quick:
                g.append({'kind': 'sets', 'space': f, 'wetting': .8, 'nonlinear': True, 'part': part})
                g.append({'kind': 'sets', 'space': f, 'wetting': None, 'nonlinear': False, 'part': part})
    g += [{'kind': 'tracer', 'cell': c, 'family': f, 'conservative': k} for c, f in (('tri', 'dg'), ('tri', 'cg'), ('quad', 'dg')) for k in (False, True) if not quick or c == 'tri' or k]
    g += [{'kind': 'totals', 'space': f} for f in (FAMS[:3] if quick else FAMS)]
    g += [{'kind': k} for k in ('refused', 'names')]
    return g + [{'kind': 'change', 'stepper': s, 'family': f} for s, f in STEPPERS]


STEPPERS = [('CrankNicolson', 'dg-dg'), ('SSPRK33', 'dg-dg'), ('BackwardEuler', 'rt-dg'), ('DIRK22', 'dg-cg'), ('ForwardEuler', 'dg-dg'), ('SSPIMEX', 'dg-dg'), ('PressureProjectionPicard', 'dg-cg')]


def run_group(group, rec):
    import thetis as th
    quiet()
    with Scratch():
        globals()['g_' + group['kind']](group, rec, th)


VALUES = {'elev': (.2, -.4), 'uv': ((.4, -.3), (-.7, .9)), 'un': (.3, -.5), 'flux': (700., -900.), 'drag': (.03, .03)}


class Conditions:
    """Boundary conditions whose values can be changed, for the model and the reference."""
    def __init__(self, th, M, spec, functions=False, values=VALUES):
        self.values = values
        self.th, self.M, self.spec, self.functions = th, M, spec, functions
        self.bnd = {}
        for k, keys in spec.items():
            self.bnd[k] = {}
            for n in keys:
                v = values[n][0]
                if functions:
                    f = th.Function(th.get_functionspace(M.m, 'CG', 1, vector=isinstance(v, tuple)))
                else:
                    f = th.Constant(v)
                self.bnd[k][n] = f

    def set(self, sign):
        """Other values on each boundary."""
        th, M, ref = self.th, self.M, {}
        for k, keys in self.spec.items():
            ref[k] = {}
            for n in keys:
                v = np.array(self.values[n][(sign + k) % 2])*(1. + .1*k)
                f = self.bnd[k][n]
                if self.functions:
                    x = th.SpatialCoordinate(M.m)
                    c = th.as_vector(tuple(v)) if v.shape else th.Constant(float(v))
                    f.interpolate(c*(1. + 2e-4*(x[0] + x[1])))
                    ref[k][n] = M.W.poly(f)
                else:
                    f.assign(tuple(v) if v.shape else float(v))
                    ref[k][n] = v if v.shape else float(v)
        return ref


def skin(forms):
    """Boundary integrals of the forms."""
    import ufl
    out = []
    for f in forms:
        if isinstance(f, (int, float)):
            continue
        sel = [i for i in f.integrals() if i.integral_type().startswith('exterior')]
        if sel:
            out.append(ufl.Form(sel))
    return out


def g_sets(group, rec, th):
    space = tuple(group['space'])
    M = Model(th, space, wd=group['wetting'], nonlinear=group['nonlinear'], coefs=('horizontal_viscosity',))
    M.collect()
    n = M.n

    def one(spec, functions, whole, olds):
        C = Conditions(th, M, spec, functions)
        M.bnd = C.bnd
        M.collect()
        forms = M.forms if whole else skin(M.forms)
        M.W.skin = not whole
        try:
            for sign in (0, 1):
                M.ref.bnd = C.set(sign)
                for old in olds:
                    M.set_old('mild' if old == 'reversed' else old)
                    if old == 'reversed':
                        M.old.subfunctions[0].dat.data[:] *= -1
                    # the matrix for one of the values only, the right hand side for all
                    full = sign == 0 and old == olds[0]
                    for i in [None, -1] + (list(range(n)) if full else []):
                        M.set_sol(i)
                        # the given flux is divided by the depth
                        M.sol.subfunctions[1].dat.data[:] *= .02
                        a = sum([assembled(th, f, n) for f in forms], np.zeros(n))
                        b = M.reference()
                        require_close(a, b, 'residual with solution {:}, lagged state {:}, values {:}'.format('dense' if i is None else i, old, sign),
                                      rtol=p23.TOL, atol=p23.TOL*np.abs(b).max() + (1e-6 if not whole else 1e-3))
                        rec.step()
                    rec.state(space, group['wetting'], group['nonlinear'], spec, functions, old, sign)
        finally:
            M.W.skin = False
    nl = group['nonlinear']
    olds = ('mild', 'reversed', 'strong') if nl else ('mild',)
    quick = rec.tier == 'quick'
    at = FAMS.index(space) if space in FAMS else 0
    few = quick and (at or not nl or group['wetting'])
    if group['part'] == 'single':
        for j, c in enumerate(COMBOS):
            for k in (1, 2, 3, 4):
                if not quick or (j + at + nl) % 4 == k - 1 and (not few or (j + at + bool(group['wetting'])) % 3 == 0):
                    rec.check({'single': {k: c}}, one, {k: c}, False, False, olds)
        for k in (1, 2, 3, 4):
            # with side drag
            c = COMBOS[(k + at) % len(COMBOS)] + ('drag',)
            if not quick or not few and k == 1 + at % 4:
                rec.check({'single': {k: c}}, one, {k: c}, False, False, olds[:1])
        return
    for r in range(1 if quick else 4):
        for p, part in enumerate((COMBOS[:4], COMBOS[3:])):
            if few and (at + nl) % 2 == p:
                continue
            spec = {1 + (i + r + at) % 4: c for i, c in enumerate(part)}
            rec.check({'mixed': spec}, one, spec, False, r == 0 and not quick, olds[:2])
            if not few and (p or not quick):
                rec.check({'mixed': spec, 'functions': True}, one, spec, True, False, olds[:1])
    rec.check({'conditions': 'closed'}, one, {}, False, not quick, olds[:1])
    rec.check({'conditions': 'empty and drag'}, one, {1: (), 3: (), 2: ('drag',)}, False, False, olds[:1])


OUT = {1: (-1., p23.SK), 2: (1., -p23.SK), 3: (0., -1.), 4: (0., 1.)}


def normal(k):
    n = np.array(OUT[k])
    return n/np.hypot(*n)


def g_totals(group, rec, th):
    """Water passing each boundary: the continuity equation tested with one."""
    space = tuple(group['space'])
    quick = rec.tier == 'quick'
    Ms = {nl: Model(th, space, nonlinear=nl) for nl in (True, False)}
    x = th.SpatialCoordinate(Ms[True].m)
    cache = {}

    def forms(nl, k, keys):
        """Forms and adjustable values of one open boundary."""
        if (nl, k, keys) not in cache:
            M = Ms[nl]
            d = {n: th.Constant((0., 0.) if n == 'uv' else 0.) for n in keys}
            M.bnd = {k: d} if keys else {}
            M.collect()
            cache[nl, k, keys] = M.forms, d
        return cache[nl, k, keys]

    def residual(nl, k, keys, **v):
        f, d = forms(nl, k, keys)
        for n in keys:
            d[n].assign(v[n])
        return sum(assembled(th, a, Ms[nl].n) for a in f)

    def inflow(nl, r):
        # one is the sum of the basis functions of the elevation space
        return r[Ms[nl].BU.coef.shape[0]:].sum()

    def set_state(M, eta, uv, bath=10.):
        M.s.fields.bathymetry_2d.interpolate(bath + 0*x[0])
        for w in (M.sol, M.old):
            u, e = w.subfunctions
            u.interpolate(th.Constant(tuple(uv)))
            e.assign(eta)

    def closed(nl, i):
        M = Ms[nl]
        set_state(M, 0., (0., 0.))
        M.set_old('mild')
        M.set_sol(i)
        for keys in ((), ('drag',)):
            got = inflow(nl, residual(nl, 2, keys, drag=.1))
            require(abs(got) <= 1e-8, 'closed boundaries (conditions {:}) pass {:} m3/s', keys, got)
            rec.step()
        rec.state(space, nl, i)

    def total(nl, k, keys):
        for q, eta in itertools.product((500., -300., 0.), (0., .8)):
            M = Ms[nl]
            H = 10. + (eta if nl else 0.)
            un = q/(H*BLEN[k])
            set_state(M, eta, un*normal(k))
            got = inflow(nl, residual(nl, k, keys, elev=eta, flux=q, un=un, uv=tuple(un*normal(k))))
            require_close(got, -q, 'water entering through boundary {:} with {:}'.format(k, keys), rtol=1e-9, atol=1e-7)
            # the water outside does not move: its elevation differs
            rec.step()
            rec.state(space, nl, k, q, eta, keys)

    def varying(nl, k):
        # sloping bottom: spread along the boundary so that the total is as prescribed
        for q in (500., -300.):
            M = Ms[nl]
            slope = 1e-2*x[0] - 2e-2*x[1]
            set_state(M, 0., (0., 0.), 10. + slope)
            u = th.Function(th.VectorFunctionSpace(M.m, 'DG', 3)).interpolate(th.as_vector(tuple(normal(k)))*q/(M.s.fields.bathymetry_2d*BLEN[k]))
            for w in (M.sol, M.old):
                w.subfunctions[0].project(u)
            for keys in (('flux',), ('elev', 'flux')):
                got = inflow(nl, residual(nl, k, keys, elev=0., flux=q))
                # the velocity inside is approximate
                require_close(got, -q, 'water entering through boundary {:} with {:}, sloping bottom'.format(k, keys), rtol=2e-2)
                rec.step()
            rec.state(space, nl, k, q, 'slope')

    def same(nl, k):
        """Combinations that prescribe the same outer state act alike; prescribing the interior state forces nothing."""
        for eta, u in itertools.product((0., .5), ((.6, -.2), (-.3, -.8))):
            M = Ms[nl]
            un = float(np.dot(u, normal(k)))
            H = 10. + (eta if nl else 0.)
            set_state(M, 0., (0., 0.))
            M.set_old('mild')
            M.set_sol(None)
            M.old.subfunctions[1].assign(eta)
            v = dict(elev=eta, un=un, uv=tuple(un*normal(k)), flux=un*H*BLEN[k])
            vs = [residual(nl, k, keys, **v) for keys in (('elev', 'uv'), ('elev', 'un'), ('elev', 'flux'))]
            for w in vs[1:]:
                require_close(w, vs[0], 'two ways of prescribing the same outer state', rtol=1e-9, atol=1e-9*np.abs(w).max())
            # the interior state itself, prescribed in all ways
            set_state(M, eta, u)
            v['uv'] = u
            vs = [residual(nl, k, keys, **v) for keys in (('elev',), ('uv',), ('elev', 'uv'))]
            for w in vs[1:]:
                require_close(w, vs[0], 'two ways of prescribing the interior state', rtol=1e-9, atol=1e-9*np.abs(w).max())
            rec.step(6)
            rec.state(space, nl, k, eta, u)
    for nl in (True, False):
        n = Ms[nl].BU.coef.shape[0] + Ms[nl].BE.coef.shape[0]
        for i in [None] + list(range(n)):
            rec.check({'closed': i, 'nonlinear': nl}, closed, nl, i)
        for k in (1, 2, 3, 4) if not quick else ((1, 3) if space == FAMS[0] else (2,)) if nl else (4,) if space != FAMS[2] else ():
            for keys in COMBOS[1:]:
                rec.check({'boundary': k, 'keys': keys, 'nonlinear': nl}, total, nl, k, keys)
            rec.check({'boundary': k, 'bottom': 'sloping', 'nonlinear': nl}, varying, nl, k)
            rec.check({'boundary': k, 'equivalent': True, 'nonlinear': nl}, same, nl, k)


# ---------------------------------------------------------------------------

TV = {'value': (1.5, -.7), 'elev': (.4, -.3), 'uv': ((.3, -.6), (-.8, .2)), 'flux': (300., -500.), 'un': (.3, -.4), 'diff_flux': (.4, -.2)}
TCOMBOS = [c for v in ((), ('value',)) for e in ((), ('elev',)) for f in ((), ('uv',), ('flux',), ('un',)) for c in (v + e + f,)] + [('diff_flux',), ('diff_flux', 'value'), ('value', 'uv', 'diff_flux')]


def g_tracer(group, rec, th):
    cell, fam, cons = group['cell'], group['family'], group['conservative']
    Ms = {}

    def one(spec, functions, factor, diff, whole, flows):
        if (factor, diff) not in Ms:
            Ms[factor, diff] = TracerModel(th, cell, fam, cons, factor=factor, diffusivity=diff)
        M = Ms[factor, diff]
        C = Conditions(th, M, spec, functions, TV)
        forms = [t.residual(M.sol, M.sol, M.fields, M.fields, C.bnd) for t in M.eq.terms.values()]
        if not whole:
            forms = skin(forms)
        M.W.skin = not whole
        R = M.refs[0]
        done = 0
        try:
            for sign in (0, 1):
                R.bnd = C.set(sign)
                for flow in flows:
                    M.set_flow(flow)
                    R.mixed = False
                    for i in [None] + (list(range(-1, M.nq)) if not sign else [-1]):
                        M.set_sol(i)
                        b = M.reference()
                        if R.mixed:
                            # both in- and outflow on one edge: quadrature of a discontinuous function
                            break
                        a = sum([assembled(th, f, M.nq) for f in forms], np.zeros(M.nq))
                        require_close(a, b, 'residual with solution {:}, flow {:}, values {:}'.format(i, flow, sign), rtol=2e-6, atol=2e-6*np.abs(b).max() + 1e-10)
                        rec.step()
                        done += 1
                    rec.state(cell, fam, cons, spec, functions, factor, diff, flow, sign)
        finally:
            M.W.skin = False
        require(done, 'no comparison made')
    flows = ('mild', 'strong', 'back')
    n = len(TCOMBOS)
    at = 2*cons + (cell == 'quad') + (fam == 'cg')      # another subset for each
    for j, c in enumerate(TCOMBOS):
        for k in (1, 2, 3, 4):
            if rec.tier != 'quick' or (j + at) % 4 == k - 1 and (not at or j % 3 == at % 3):
                rec.check({'single': {k: c}}, one, {k: c}, False, .7, 2., False, flows)
    for start in range(at*4, n, 4 if rec.tier != 'quick' else 8 if not at else n):
        spec = {1 + (i + start) % 4: TCOMBOS[(start + 5*i) % n] for i in range(4)}
        rec.check({'mixed': spec, 'factor': None}, one, spec, False, None, None, False, flows)
        if rec.tier != 'quick':
            rec.check({'mixed': spec, 'factor': .7, 'functions': True}, one, spec, True, .7, 2., True, flows)
    spec = {1: ('value',), 2: ('value', 'un'), 3: ('value', 'flux')}
    if rec.tier != 'quick' or not at:
        rec.check({'mixed': spec, 'functions': True}, one, spec, True, .7, 2., True, flows)
    rec.check({'conditions': 'none'}, one, {}, False, .7, 2., True, flows)


def g_refused(group, rec, th):
    M = Model(th, FAMS[0])
    good = {'elev': th.Constant(.1), 'uv': th.Constant((.1, .2)), 'un': th.Constant(.1), 'flux': th.Constant(3.), 'drag': th.Constant(.1)}

    def run(keys, k):
        M.set_old('mild')
        M.set_sol(None)
        M.bnd, M.forms = {k: {x: good.get(x, th.Constant(1.)) for x in keys}}, None
        try:
            M.collect()
        except Exception as e:
            require('elv' in str(e) or 'value' in str(e) or 'UV' in str(e), 'refused without naming the key: {:}', e)
            rec.step()
            rec.state(keys, k)
            return
        raise Violation('conditions {:} accepted'.format(keys))
    for bad in ('elv', 'value', 'UV'):
        for others in itertools.chain.from_iterable(itertools.combinations(good, n) for n in range(4)):
            for pos in range(len(others) + 1):
                keys = others[:pos] + (bad,) + others[pos:]
                rec.check({'conditions': keys}, run, keys, 1 + (len(keys) + pos) % 4)

    def accept(keys, order):
        # order of the keys makes no difference
        M.set_old('mild')
        M.set_sol(None)
        M.bnd, M.forms = {2: {x: good[x] for x in keys}}, None
        a = M.model()
        M.bnd, M.forms = {2: {x: good[x] for x in order}}, None
        require_close(M.model(), a, 'conditions in another order', rtol=1e-12, atol=1e-12*np.abs(a).max())
        rec.step()
        rec.state(keys, order)
    for c in COMBOS:
        for d in ((), ('drag',)):
            for order in itertools.permutations(c + d):
                rec.check({'conditions': c + d, 'order': order}, accept, c + d, order)


def g_names(group, rec, th):
    """Conditions given to the solver reach the equation they are for."""
    from thetis.field_defs import field_metadata

    def run(labels, given):
        M = TracerModel(th, 'tri', 'dg', False, labels=labels)
        s = M.s
        for k in list(s.bnd_functions):
            if k not in ('shallow_water', 'sediment', 'momentum'):
                del s.bnd_functions[k]
        marks = {}
        for k, g in enumerate(given):
            marks[g] = {1: {'value': th.Constant(float(k))}}
            s.bnd_functions[g] = marks[g]
        for sysname in ([','.join(labels)]):
            r = s.get_tracer_timestepper(p23.Recorder, sysname)
            want = marks.get(sysname, marks.get(sysname[:-3] if sysname.endswith('_2d') else None, {}))
            require(r.args[-1] == want, 'conditions for {:} of {:} are {:}'.format(sysname, list(marks), r.args[-1]))
            rec.step()
        rec.state(labels, given)
    for labels in (('salt_2d',), ('temp_2d',), ('salt_2d', 'temp_2d')):
        for given in ((), ('salt_2d',), ('salt',), ('salt', 'salt_2d'), ('temp_2d', 'salt_2d'), ('salt_2d,temp_2d',), ('shallow_water',)):
            if len(labels) == 2 and given not in ((), ('salt_2d,temp_2d',)):
                continue
            rec.check({'tracers': labels, 'given': given}, run, labels, given)


def g_change(group, rec, th):
    """Values changed during the run are felt at once, in every integrator."""
    from .models import solver2d

    def run(stepper, family, keys):
        res = []
        for how in ('changed', 'fresh'):
            vals = {'elev': th.Constant(.1), 'uv': th.Constant((.1, .2)), 'un': th.Constant(.1), 'flux': th.Constant(30.)}
            late = {'elev': .3, 'uv': (-.2, .1), 'un': -.2, 'flux': -90.}

            def pre(s):
                if how == 'fresh':
                    for k, v in late.items():
                        vals[k].assign(v)
                s.bnd_functions['shallow_water'] = {1: {k: vals[k] for k in keys}}
            s = solver2d(dt=.5, texp=1., end=2., stepper=stepper, pre=pre, element_family=family)
            s.initialize()
            if how == 'changed':
                for k, v in late.items():
                    vals[k].assign(v)
            s.timestepper.initialize(s.fields.solution_2d)
            s.timestepper.advance(0.)
            res.append([f.dat.data_ro.copy() for f in s.fields.solution_2d.subfunctions])
        for a, b in zip(*res):
            require_close(a, b, 'state after a step', rtol=1e-9, atol=1e-12)
        require(max(np.abs(x).max() for x in res[0]) > 1e-6, 'the boundary has no effect')
        rec.step(2)
        rec.state(stepper, family, keys)
    stepper, family = group['stepper'], group['family']
    for keys in COMBOS[1:]:
        if rec.tier == 'quick' and (COMBOS.index(keys) + [x[0] for x in STEPPERS].index(stepper)) % 6:
            continue
        rec.check({'stepper': stepper, 'family': family, 'keys': keys}, run, stepper, family, keys)
