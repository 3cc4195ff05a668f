"""P20: turbulence closures."""
import itertools
import math
import numpy as np
from .common import require_close, Scratch, quiet
from . import common


def Violation(what, **kw):
    return common.Violation(what + ': ' + ', '.join(f'{k}={v}' for k, v in kw.items()) if kw else what)


def require(cond, what, **kw):
    if not cond:
        raise Violation(what, **kw)


RULE = ('stability functions: every family x limiter setting x point of a lattice of (shear, buoyancy frequency, k, eps), against an independent evaluation and against the second published form of the same closure; '
        'closure fields: every closure x stability function x subset of limiters x every state of a lattice of (k, psi, N2, M2), one water column per state; '
        'production/destruction: every state of a lattice, one implicit step, against the exact solution of the discrete column; all step histories of short coupled runs')
ASSUMPTIONS = ['columns do not exchange anything horizontally in the closure', 'lattice points, not the continuum of states', 'stable steady state Richardson numbers in the range the family can reach']
CASE_TIMEOUT = 600
GROUP_TIMEOUT = 3600

G, RHO0, KAPPA = 9.81, 1000., .4
FAMS = {'Canuto A': 'c', 'Canuto B': 'c', 'Cheng': 'h', 'Kantha-Clayson': 'g'}
CLOSURES = {'k-epsilon': (3., 1.5, -1.), 'k-omega': (-1., .5, -1.), 'Generic Length Scale': (2., 1., -.67)}
CANUTO = {'Canuto A': (.107, .0032, .0864, .12, 11.9, .4, 0., .48), 'Canuto B': (.127, .00336, .0906, .101, 11.2, .4, 0., .318)}
CHENG = (.107, .0032, .0864, .1, 11.04, .786, .643, .547)
GOTM = {'Canuto A': (5., .8, 1.968, 1.136, 0., .4, 5.95, .6, 1., 0., .3333, .72),
        'Canuto B': (5., .6983, 1.9664, 1.094, 0., .495, 5.6, .6, 1., 0., .3333, .477),
        'Kantha-Clayson': (6., .32, 0., 0., 0., 0., 3.728, .7, .7, 0., .2, .6102),
        'Cheng': (5., .7983, 1.968, 1.136, 0., .5, 5.52, .2134, .357, 0., .3333, .82)}
# c_mu^0 and smallest alpha_N of the families, as published (to the digits given there)
CMU0 = {'Canuto A': .527, 'Canuto B': .554, 'Kantha-Clayson': .5544, 'Cheng': .5316}


class Stab:
    """coefficients of S_m, S_h as rational functions of (a_N, a_M), derived independently of thetis"""
    def __init__(self, name, gotm=False):
        if name in CANUTO and not gotm:
            l1, l2, l3, l4, l5, l6, l7, l8 = CANUTO[name]
            s = (1.5*l1*l5**2, -l4*(l6 + l7) + 2*l4*l5*(l1 - l2/3 - l3) + 1.5*l1*l5*l8, -.375*l1*(l6**2 - l7**2))
            h = (2*l5, 2*l4, 2/3*l5*(3*l3**2 - l2**2) - .5*l5*l1*(3*l3 - l2) + .75*l1*(l6 - l7))
            e = 3*l3**2 - l2**2
            d = (3*l5**2, l5*(7*l4 + 3*l8), l5**2*e - .75*(l6**2 - l7**2), l4*(4*l4 + 3*l8),
                 l4*(l2*l6 - 3*l3*l7 - l5*(l2**2 - l3**2)) + l5*l8*e, -.25*e*(l6**2 - l7**2))
            self.scaled(s, h, d)
        elif name == 'Cheng' and not gotm:
            # Cheng et al is the same system divided by 3 l5^2
            l1, l2, l3, l4, l5, l6, l7, l8 = CHENG
            e = l3**2 - l2**2/3
            s = (.5*l1, -l4*(l6 + l7)/3/l5**2 + 2/3*l4/l5*(l1 - l2/3 - l3) + .5*l1*l8/l5, .125*l1*(l6**2 - l7**2)/l5**2)
            h = (2/3/l5, 2/3*l4/l5**2, 2/3*e/l5 - .5*l1/l5*(l3 - l2/3))
            d = (1., (7/3*l4 + l8)/l5, e - .25*(l6**2 - l7**2)/l5**2, l4*(4*l4 + 3*l8)/3/l5**2,
                 l4/3/l5**2*(l2*l6 - 3*l3*l7 - l5*(l2**2 - l3**2)) + l8*e/l5, -.25*e*(l6**2 - l7**2)/l5**2)
            self.scaled(s, h, d)
        else:
            c1, c2, c3, c4, c5, c6, b1, b2, b3, b4, b5, bb = GOTM[name]
            a1, a2, a3, a5 = 2/3 - c2/2, 1 - c3/2, 1 - c4/2, (1 - c6)/2
            t1, t2, t3, t5 = 1 - b2, 1 - b3, 2*(1 - b4), 2*bb*(1 - b5)
            N, B = c1/2, b1
            q = a2**2 - 3*a3**2
            self.d = (36*N**3*B**2, 84*a5*t3*N**2*B + 36*t5*N**3*B, 9*(t2**2 - t1**2)*N**3 - 12*q*N*B**2,
                      12*a5*t3*(a2*t1 - 3*a3*t2)*N + 12*a5*t3*(a3**2 - a2**2)*B + 12*t5*(3*a3**2 - a2**2)*N*B,
                      48*a5**2*t3**2*N + 36*a5*t3*t5*N**2, 3*q*(t1**2 - t2**2)*N)
            self.n = (36*a1*N**2*B**2, -12*a5*t3*(t1 + t2)*N**2 + 8*a5*t3*(6*a1 - a2 - 3*a3)*N*B + 36*a1*t5*N**2*B, 9*a1*(t2**2 - t1**2)*N**2)
            self.h = (12*t3*N**3*B, 12*a5*t3**2*N**2, 9*a1*t3*(t1 - t2)*N**2 + (6*a1*(a2 - 3*a3) - 4*q)*t3*N*B)

    def scaled(self, s, h, d):
        # Canuto and Cheng use the time scale 2k/eps and q^2 = 2k
        self.d = (d[0], 4*d[1], 4*d[2], 16*d[4], 16*d[3], 16*d[5])
        self.n = (2*s[0], 8*s[1], 8*s[2])
        self.h = (2*h[0], 8*h[1], 8*h[2])

    def __call__(self, an, am):
        d, n, h = self.d, self.n, self.h
        den = d[0] + d[1]*an + d[2]*am + d[3]*an*am + d[4]*an**2 + d[5]*am**2
        return (n[0] + n[1]*an + n[2]*am)/den, (h[0] + h[1]*an + h[2]*am)/den

    def steady(self, ri):
        """smallest positive a_M with S_m a_M - S_h a_N = 1, a_N = ri a_M; None if there is none"""
        d, n, h = self.d, self.n, self.h
        p = [(n[2] + n[1]*ri) - ri*(h[2] + h[1]*ri) - (d[5] + d[3]*ri + d[4]*ri**2), n[0] - ri*h[0] - d[2] - d[1]*ri, -d[0]]
        r = [x.real for x in np.roots(p) if abs(x.imag) < 1e-12*abs(x) and x.real > 0]
        return min(r) if r else None

    def amin(self):
        d, h = self.d, self.h
        return (-(d[1] + h[0]) + math.sqrt((d[1] + h[0])**2 - 4*d[0]*(d[4] + h[1])))/2/(d[4] + h[1])

    def ammax(self, an):
        d, n = self.d, self.n
        return ((d[0] + d[1]*an + d[4]*an**2)*(n[0] + n[1]*an))/((d[2] + d[3]*an)*(n[0] + n[1]*an))

    def limited(self, m2, n2, k, eps, ls, lb, smooth, crit=-1.2):
        an, am = k**2/eps**2*n2, k**2/eps**2*m2
        if lb:
            lo = self.amin()
            if smooth:
                low = an < crit
                x = np.where(low, an, crit - 1)
                an = np.where(low, x - (x - crit)**2/(x + lo - 2*crit), an)
            else:
                an = np.maximum(an, lo)
        if ls:
            am = np.minimum(am, self.ammax(an))
        return self(an, am)

    def cmu0(self):
        am = self.steady(0.)
        return self(0., am)[0]**.25


def groups(tier):
    g = [{'kind': 'stab'}, {'kind': 'constants'}, {'kind': 'gradients'}, {'kind': 'pacanowski'}]
    for c in CLOSURES:
        g += [{'kind': 'closure', 'closure': c}, {'kind': 'column', 'closure': c}]
        for st in ('SSPRK22', 'LeapFrog'):
            g.append({'kind': 'runs', 'closure': c, 'stepper': st})
    for st in ('SSPRK22', 'LeapFrog'):
        g.append({'kind': 'runs', 'closure': 'pacanowski', 'stepper': st})
    return g


def run_group(group, rec):
    import thetis as th
    quiet()
    np.seterr(all='ignore')
    with Scratch():
        globals()['g_' + group['kind']](group, rec, th)


# ---------------------------------------------------------------- stability functions

def classes(th):
    import thetis.stability_functions as sf
    return [('Canuto A', False, sf.StabilityFunctionCanutoA), ('Canuto B', False, sf.StabilityFunctionCanutoB), ('Cheng', False, sf.StabilityFunctionCheng),
            ('Canuto A', True, sf.GOTMStabilityFunctionCanutoA), ('Canuto B', True, sf.GOTMStabilityFunctionCanutoB), ('Cheng', True, sf.GOTMStabilityFunctionCheng),
            ('Kantha-Clayson', True, sf.GOTMStabilityFunctionKanthaClayson)]


def g_stab(group, rec, th):
    fine = rec.tier != 'quick'
    n2 = np.concatenate([-np.logspace(-8, -1, 15 if fine else 8)[::-1], [0.], np.logspace(-8, -1, 15 if fine else 8)])
    m2 = np.concatenate([[1e-12], np.logspace(-8, -1, 15 if fine else 8)])
    k = np.logspace(-6, 0, 13 if fine else 7)
    tau = np.array([.1, 1., 3., 10., 30., 100., 1e3, 1e5, 1e7])
    M2, N2, K, T = [a.ravel() for a in np.meshgrid(m2, n2, k, tau)]
    E = K/T
    for (name, gotm, cls), ls, lb, smooth in itertools.product(classes(th), (False, True), (False, True), (False, True)):
        if smooth and not lb:
            continue
        case = dict(name=name, gotm=gotm, lim_shear=ls, lim_buoy=lb, smooth=smooth)
        rec.check(case, one_stab, case, rec, cls, M2, N2, K, E)


def one_stab(case, rec, cls, M2, N2, K, E):
    f = cls(lim_alpha_shear=case['lim_shear'], lim_alpha_buoy=case['lim_buoy'], smooth_alpha_buoy_lim=case['smooth'])
    ins = [a.copy() for a in (M2, N2, K, E)]
    sm, sh = f.evaluate(*ins)
    for a, b in zip(ins, (M2, N2, K, E)):
        require(np.array_equal(a, b), 'evaluating the stability functions changed its arguments')
    ref = Stab(case['name'], case['gotm'])
    rm, rh = ref.limited(M2, N2, K, E, case['lim_shear'], case['lim_buoy'], case['smooth'])
    rec.step(len(M2))
    for what, a, b in (('S_m', sm, rm), ('S_h', sh, rh)):
        bad = ~(np.abs(a - b) <= 1e-7*np.abs(b) + 1e-12)
        # near a pole of the unlimited functions rounding is amplified
        if not (case['lim_shear'] and case['lim_buoy']):
            bad &= np.abs(b) < 10.
        if bad.any():
            i = int(np.argmax(bad))
            raise Violation(f'{what} differs from the published algebra', M2=M2[i], N2=N2[i], k=K[i], eps=E[i], got=a[i], want=b[i])
    # the shear limit keeps the functions from falling with growing shear into negative values; it is meant for the limited range of buoyancy
    if case['lim_shear'] and case['lim_buoy']:
        rec.state('stab', case['name'], case['gotm'], case['smooth'])
        for what, a in (('S_m', sm), ('S_h', sh)):
            ok = np.isfinite(a) & (a > 0)
            if not ok.all():
                i = int(np.argmin(ok))
                raise Violation(f'{what} is not positive within the limits', M2=M2[i], N2=N2[i], k=K[i], eps=E[i], got=a[i])
        if case['gotm'] and case['name'].startswith('Canuto') and not case['smooth']:
            om, oh = Stab(case['name'], False).limited(M2, N2, K, E, True, True, False)
            for what, a, b in (('S_m', sm, om), ('S_h', sh, oh)):
                err = np.abs(a - b)/np.abs(b)
                require(err.max() < .03, f'the two published forms of {case["name"]} give a different {what}', error=err.max())


def g_constants(group, rec, th):
    ris = [.02, .05, .1, .15, .2, .25, .3] if rec.tier == 'quick' else [round(x, 3) for x in np.arange(.01, .4, .01)]
    for name, gotm, cls in classes(th):
        rec.check(dict(name=name, gotm=gotm, what='log layer'), one_log, name, gotm, cls, rec)
        for ri in ris:
            rec.check(dict(name=name, gotm=gotm, what='steady', ri=ri), one_steady, name, gotm, cls, ri, rec)
    rec.check(dict(what='steady state out of reach'), one_unreachable, rec, th)
    for closure, fam, o in itertools.product(CLOSURES, FAMS, ('default', 'kappa', 'fixed')):
        case = dict(closure=closure, stability=fam, option=o)
        rec.check(case, one_options, case, rec, th)


def one_log(name, gotm, cls, rec):
    f = cls()
    ref = Stab(name, gotm)
    for an in (True, False):
        c = float(f.compute_cmu0(analytical=an))
        require_close(c, ref.cmu0(), rtol=1e-4, atol=0., what='c_mu^0 does not follow from the log layer equilibrium')
        if not (name == 'Cheng' and not gotm):
            require_close(c, CMU0[name], rtol=1e-2, atol=0., what='c_mu^0 is not the published one')
    # local equilibrium in a log layer: P = eps with M2 = (u*/(kappa z))^2, k = u*^2/cmu0^2, eps = u*^3/(kappa z)
    ust, z = .01, .37
    c = float(f.compute_cmu0())
    k, eps, m2 = ust**2/c**2, ust**3/(KAPPA*z), (ust/KAPPA/z)**2
    sm, _ = f.evaluate(np.array([m2]), np.array([0.]), np.array([k]), np.array([eps]))
    nu = float(sm[0])*k**2/eps
    require_close(nu, KAPPA*ust*z, rtol=1e-5, atol=0., what='the eddy viscosity of the logarithmic layer is not kappa u* z')
    require_close(nu*m2, eps, rtol=1e-5, atol=0., what='production does not balance dissipation in the logarithmic layer')
    rec.state('log', name, gotm)
    for n, c1, c2, s in itertools.product((-1., -.67, 1., 2.), (1., 1.44), (1.92, 2.2), (.5, 1.3)):
        kap = f.compute_kappa(s, c, n, c1, c2)
        require_close(n**2*kap**2, s*c**2*(c2 - c1), rtol=1e-12, atol=0., what='von Karman constant and Schmidt number do not satisfy the log layer relation')
        require_close(f.compute_sigma_psi(kap, c, n, c1, c2), s, rtol=1e-12, atol=0., what='Schmidt number and von Karman constant are not inverses')
        rec.step()


def one_steady(name, gotm, cls, ri, rec):
    f = cls()
    ref = Stab(name, gotm)
    am = ref.steady(ri)
    if am is None or am > 35.:
        return          # out of reach of this family (or so close that rounding decides)
    a = float(f.compute_alpha_shear_steady(ri))
    require_close(a, am, rtol=1e-9, atol=0., what='steady state shear number')
    sm, sh = f.eval_funcs(ri*a, a)
    require_close(sm*a - sh*ri*a, 1., rtol=1e-9, atol=0., what='production and dissipation do not balance in the steady state')
    b = float(f.compute_alpha_shear_steady(ri, analytical=False))
    require_close(b, am, rtol=2e-3, atol=0., what='numerical steady state')
    rec.state('steady', name, gotm, ri)
    rm, rh = ref(ri*am, am)
    for c1, c2 in ((1.44, 1.92), (.555, .833), (1., 1.22)):
        c3 = float(f.compute_c3_minus(c1, c2, ri))
        # psi stays in balance as well: c1 P + c3 B = c2 eps
        res = c1*rm*am - c3*rh*ri*am - c2
        require(abs(res) < 1e-3*c2, 'the length scale equation does not balance at the steady state Richardson number', residual=res, c3=c3)
        rec.step()
    cm = float(f.compute_cmu0())
    # l = cmu0^3 k^1.5/eps with N2 k^2/eps^2 = ri am, clim = l N/sqrt(2k)
    require_close(f.compute_length_clim(cm, ri), cm**3*math.sqrt(ri*am/2), rtol=1e-9, atol=0., what='length scale limit')


# ---------------------------------------------------------------- closure model on columns

class Columns:
    """one column per state; N2 and M2 set through density and velocity"""
    def __init__(self, th, n, layers=1, height=1.):
        nx = int(math.ceil(math.sqrt(n/2)))
        ny = int(math.ceil(n/2/nx))
        self.th, self.n = th, n
        m2 = th.RectangleMesh(nx, ny, 100.*nx, 100.*ny)
        self.mesh = th.ExtrudedMesh(m2, layers=layers, layer_height=height/layers)
        self.mesh.boundary_len = th.utility.compute_boundary_length(m2)
        self.P0 = th.get_functionspace(self.mesh, 'DG', 0, vfamily='DG', vdegree=0)
        self.P1 = th.get_functionspace(self.mesh, 'DG', 1, vfamily='DG', vdegree=1)
        self.V1 = th.get_functionspace(self.mesh, 'DG', 1, vfamily='DG', vdegree=1, vector=True)
        self.z = th.Function(self.P1).interpolate(th.SpatialCoordinate(self.mesh)[2]).dat.data_ro.copy()
        self.layers, self.height = layers, height
        # number of the column of every P0 value and of every P1 value
        a = self.P0.cell_node_list
        off = int(self.P0.offset[0]) if layers > 1 else 0
        self.cells = np.array([a[:, 0] + i*off for i in range(layers)]).T          # column, layer
        b = self.P1.cell_node_list
        off1 = np.asarray(self.P1.offset)
        self.nodes = np.array([b + i*off1 for i in range(layers)]).transpose(1, 0, 2)     # column, layer, node
        self.ncol = len(a)

    def f(self, space=None, v=None, name=None):
        f = self.th.Function(space or self.P0, name=name)
        if v is not None:
            f.assign(v)
        return f

    def put(self, f, values):
        """values: per column (n,) or per column and layer"""
        v = np.asarray(values, float)
        full = np.empty((self.ncol,) + v.shape[1:])
        full[:self.n] = v
        full[self.n:] = v[0]
        f.dat.data[self.cells] = full if v.ndim > 1 else full[:, None]

    def get(self, f):
        v = f.dat.data_ro[self.cells][:self.n]
        return v[:, 0] if self.layers == 1 else v

    def profile(self, f, slope, const=0., comp=None):
        """linear profile in each column"""
        v = np.zeros(self.ncol)
        v[:self.n] = slope
        arr = f.dat.data if comp is None else f.dat.data[:, comp]
        for j in range(self.layers):
            for q in range(self.nodes.shape[2]):
                ix = self.nodes[:, j, q]
                arr[ix] = const + v*self.z[ix]


class Solver:
    _simulation_continued = False


def build(th, c, options, rho=True):
    """a closure model on columns, with its fields"""
    d = {k: c.f(name=k) for k in ('k', 'psi', 'l', 'eps', 'diff', 'visc', 'n2', 'm2')}
    d['uv'] = c.f(c.V1)
    d['rho'] = c.f(c.P1) if rho else None
    sol = Solver()
    model = th.turbulence.GenericLengthScaleModel(sol, d['k'], d['psi'], d['uv'], d['rho'], d['l'], d['eps'], d['diff'], d['visc'], d['n2'], d['m2'], options=options)
    model._keep = sol
    return model, d


def gls(th, closure='k-epsilon', fam='Canuto A', **kw):
    o = th.options.GLSModelOptions()
    o.apply_defaults(closure)
    o.stability_function_name = fam
    if fam == 'Kantha-Clayson':
        o.ri_st = .1
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def one_unreachable(rec, th):
    '''a steady state Richardson number the family cannot reach is refused instead of giving nan'''
    c = Columns(th, 2)
    for fam, ri in itertools.product(FAMS, (.25, .3, .9, 2., 5.)):
        o = gls(th, fam=fam)
        o.ri_st = ri
        a = Stab(fam, fam == 'Kantha-Clayson').steady(ri)
        if a is not None and a > 1e3:
            continue
        try:
            model, d = build(th, c, o)
        except Exception:
            require(a is None or a > 35., 'a steady state Richardson number in reach was refused', family=fam, ri=ri)
            continue
        require(np.isfinite(o.galperin_clim), 'length scale limit is not finite', family=fam, ri=ri)
        require(a is not None, 'accepted a steady state Richardson number out of reach', family=fam, ri=ri)
        rec.step()


def one_options(case, rec, th):
    """constants derived when the model is set up"""
    c = Columns(th, 2)
    kw = {'default': {}, 'kappa': dict(compute_kappa=True), 'fixed': dict(compute_cmu0=False, compute_schmidt_nb_psi=False, compute_c3_minus=False, compute_galperin_clim=False)}[case['option']]
    kw.update(compute_psi_min=True, compute_len_min=True)
    pc = th.physical_constants['von_karman']
    old = float(pc)
    try:
        o = gls(th, case['closure'], case['stability'], **kw)
        p, m, n = CLOSURES[case['closure']]
        require((o.p, o.m, o.n) == (p, m, n), 'parameters of the closure', got=[o.p, o.m, o.n])
        before = {k: getattr(o, k) for k in ('cmu0', 'schmidt_nb_psi', 'kappa', 'c3_minus', 'galperin_clim', 'c1', 'c2', 'k_min', 'eps_min')}
        build(th, c, o)
        ref = Stab(case['stability'], case['stability'] == 'Kantha-Clayson')
        if case['option'] == 'fixed':
            for k, v in before.items():
                require(getattr(o, k) == v, f'{k} changed although it was not to be computed', got=getattr(o, k), want=v)
        else:
            require_close(o.cmu0, ref.cmu0(), rtol=1e-6, atol=0., what='c_mu^0')
            require_close(n**2*o.kappa**2, o.schmidt_nb_psi*o.cmu0**2*(o.c2 - o.c1), rtol=1e-9, atol=0., what='log layer relation')
            if case['option'] == 'kappa':
                require(o.schmidt_nb_psi == before['schmidt_nb_psi'], 'Schmidt number changed')
                require_close(float(pc), o.kappa, rtol=1e-12, atol=0., what='von Karman constant of the mean flow model')
            else:
                require(o.kappa == before['kappa'], 'von Karman constant changed')
            am = ref.steady(o.ri_st)
            rm, rh = ref(o.ri_st*am, am)
            require(abs(o.c1*rm*am - o.c3_minus*rh*o.ri_st*am - o.c2) < 1e-3*o.c2, 'c3_minus does not give the steady state Richardson number', c3=o.c3_minus)
            require_close(o.galperin_clim, o.cmu0**3*math.sqrt(o.ri_st*am/2), rtol=1e-6, atol=0., what='galperin_clim')
        # smallest psi and length from the smallest k and eps
        eps = o.cmu0**(3 + p/n)*o.k_min**(1.5 + m/n)*o.psi_min**(-1/n)
        require_close(eps, o.eps_min, rtol=1e-9, atol=0., what='psi_min does not belong to k_min and eps_min')
        require_close(o.len_min, o.cmu0**3*o.k_min**1.5/o.eps_min, rtol=1e-9, atol=0., what='len_min')
        rec.state('options', *case.values())
    finally:
        pc.assign(old)


def g_closure(group, rec, th):
    ks = [-1e-3, 0., 1e-12, 1e-6, 1e-4, 1e-2, 1.]
    ls = [1e-10, 1e-3, .1, 10., 1e4, -1., 0.]        # length that belongs to psi; <= 0: psi itself is not positive
    n2 = [-1e-1, -1e-3, -1e-6, 0., 1e-10, 1e-7, 1e-5, 1e-3, 1e-1]
    m2 = [0., 1e-8, 1e-5, 1e-3, .1]
    if rec.tier != 'quick':
        ks += [1e-8, 1e-5, 1e-3, .1]
        ls += [1e-6, 1e-2, 1.]
        n2 += [-1e-5, 1e-9, 1e-6, 1e-4, 1e-2]
        m2 += [1e-7, 1e-6, 1e-4, 1e-2]
    K, L, N, M = [a.ravel() for a in np.meshgrid(ks, ls, n2, m2)]
    c = Columns(th, len(K))
    subsets = list(itertools.product((False, True), repeat=4))
    for fam in FAMS:
        for sub in subsets if rec.tier != 'quick' or fam == 'Canuto A' else subsets[:1] + subsets[6:7] + subsets[-1:]:
            case = dict(stability=fam, limit_len=sub[0], limit_psi=sub[1], limit_eps=sub[2], limit_len_min=sub[3])
            rec.check(case, one_closure, group['closure'], case, rec, th, c, K, L, N, M)
    rec.check(dict(what='mins'), one_closure, group['closure'], dict(stability='Canuto A', limit_len=True, limit_psi=True, limit_eps=True, limit_len_min=True, k_min=1e-5, psi_min=1e-7, eps_min=1e-9, len_min=1e-4, visc_min=1e-5, diff_min=3e-5),
              rec, th, c, K, L, N, M)
    rec.check(dict(what='no density'), one_closure, group['closure'], dict(stability='Canuto B', limit_len=True, limit_psi=True, limit_eps=False, limit_len_min=True, density=False), rec, th, c, K, L, N, M)


def psi_of(o, k, l):
    return o.cmu0**o.p*k**o.m*l**o.n


def one_closure(closure, case, rec, th, c, K, L, N, M):
    kw = {k: v for k, v in case.items() if k not in ('stability', 'density')}
    o = gls(th, closure, case['stability'], **kw)
    dens = case.get('density', True)
    model, d = build(th, c, o, dens)
    model.initialize(l_init=.02)
    # initial state belongs to the length scale given
    for nm, want in (('k', o.k_min), ('l', .02), ('psi', psi_of(o, o.k_min, .02))):
        v = c.get(d[nm])
        if nm == 'psi' and want < o.psi_min or nm == 'l' and case['limit_len']:
            continue
        if case.get('eps_min') or (nm != 'k' and case['limit_psi'] or case['limit_eps']):
            continue       # already limited by the stratification assumed at the start
        require_close(v.min(), want, rtol=1e-9, atol=0., what=f'initial {nm}')
    d['uv'].assign(0.)
    c.profile(d['uv'], .6*np.sqrt(M), comp=0)
    c.profile(d['uv'], -.8*np.sqrt(M), comp=1)
    if dens:
        c.profile(d['rho'], -RHO0/G*N, const=0.)
    k0 = K.copy()
    lpos = np.where(L > 0, L, 1.)
    psi0 = np.where(L > 0, psi_of(o, np.maximum(K, 1e-9), lpos), L*1e-3)
    c.put(d['k'], k0)
    c.put(d['psi'], psi0)
    model.preprocess()
    model.postprocess()
    g = {n: c.get(d[n]) for n in ('k', 'psi', 'l', 'eps', 'diff', 'visc', 'n2', 'm2')}
    rec.step(len(K))
    rec.state(closure, *[case.get(x) for x in ('stability', 'limit_len', 'limit_psi', 'limit_eps', 'limit_len_min')])

    def ok(cond, what, **kw):
        cond = np.asarray(cond)
        if not cond.all():
            i = int(np.argmin(cond))
            raise Violation(what, k0=K[i], psi0=psi0[i], N2=N[i], M2=M[i], **{n: g[n][i] for n in g}, **{a: (b[i] if np.ndim(b) else b) for a, b in kw.items()})

    for n in g:
        ok(np.isfinite(g[n]), f'{n} is not finite')
    rel = 1e-9
    ok(np.abs(g['m2'] - np.maximum(M, 1e-12)) <= 1e-9*M + 1e-13, 'M2 is not the squared shear')
    if dens:
        ok(np.abs(g['n2'] - N) <= 1e-9*np.abs(N) + 1e-14, 'N2 is not the stratification')
        npos = np.where(g['n2'] >= 0, g['n2'], 1e-12)
    else:
        npos = np.full(len(K), 1e-12)
    k, psi, l, eps = (g[n] for n in ('k', 'psi', 'l', 'eps'))
    cm, p, m, n, cl = o.cmu0, o.p, o.m, o.n, o.galperin_clim
    # limits
    ok(k >= o.k_min, 'k below its minimum')
    ok(psi >= o.psi_min*(1 - rel), 'psi below its minimum')
    ok(eps >= o.eps_min*(1 - rel), 'eps below its minimum')
    ok(g['visc'] >= o.visc_min*(1 - rel), 'viscosity below its minimum')
    ok(g['diff'] >= o.diff_min*(1 - rel), 'diffusivity below its minimum')
    lmax = cl*np.sqrt(2*k/(npos + 1e-12))
    ok(l > 0, 'length scale not positive')
    if case['limit_len']:
        ok(l <= lmax*(1 + rel), 'length scale above the stratification limit', limit=lmax)
    if case['limit_len_min']:
        ok(l >= np.minimum(o.len_min, lmax if case['limit_len'] else np.inf)*(1 - rel), 'length scale below its minimum')
    if case['limit_eps']:
        ok(eps >= cm**3/(math.sqrt(2)*cl)*np.sqrt(npos)*k*(1 - rel), 'dissipation below the stratification limit')
    if case['limit_psi']:
        # length scale that belongs to psi
        lp = (psi/(cm**p*k**m))**(1/n)
        ok(lp <= lmax*(1 + 1e-8), 'psi beyond the stratification limit', limit=lmax, length=lp)
    # relations
    wk = np.maximum(k0, o.k_min)
    ok(np.abs(k - wk) <= rel*wk, 'k changed beyond its minimum')
    wpsi = psi0
    if case['limit_psi']:
        lim = cm**p*k**m*lmax**n
        wpsi = np.maximum(wpsi, lim) if n < 0 else np.minimum(wpsi, lim)
    wpsi = np.maximum(wpsi, o.psi_min)
    ok(np.abs(psi - wpsi) <= 1e-8*wpsi, 'psi is not the limited one', want=wpsi)
    we = cm**(3 + p/n)*k**(1.5 + m/n)*psi**(-1/n)
    if case['limit_eps']:
        we = np.maximum(we, cm**3/(math.sqrt(2)*cl)*np.sqrt(npos)*k)
    we = np.maximum(we, o.eps_min)
    ok(np.abs(eps - we) <= 1e-8*we, 'dissipation does not belong to k and psi', want=we)
    wl = cm**3*k**1.5/eps
    if case['limit_len_min']:
        wl = np.maximum(wl, o.len_min)
    if case['limit_len']:
        wl = np.minimum(wl, lmax)
    ok(np.abs(l - wl) <= 1e-8*wl, 'length scale does not belong to k and dissipation', want=wl)
    sm, sh = Stab(case['stability'], case['stability'] == 'Kantha-Clayson').limited(g['m2'], g['n2'], k, eps, True, True, False)
    for nm, s, lo in (('visc', sm, o.visc_min), ('diff', sh, o.diff_min)):
        w = np.maximum(np.sqrt(k)*l*s/cm**3, lo)
        ok(np.abs(g[nm] - w) <= 1e-5*w, f'{nm} is not sqrt(k) l S/cmu0^3', want=w)


def g_gradients(group, rec, th):
    """M2 and N2 of every unit profile of a layered column"""
    nl = 4
    ndof = 2*nl
    prof = [[0.]*ndof]
    for i in range(ndof):
        for s in (1., -.5):
            v = [0.]*ndof
            v[i] = s
            prof.append(v)
    for i, j in itertools.combinations(range(ndof), 2):
        v = [0.]*ndof
        v[i], v[j] = 1., .7
        prof.append(v)
    for a, b in itertools.product((-1., .5, 2.), (0., 3.)):
        prof.append([a*z + b for j in range(nl) for z in (.5*j, .5*j + .5)])
    for bits in itertools.product((0., 1.), repeat=nl) if rec.tier == 'quick' else itertools.product((0., 1., -1.), repeat=nl):
        prof.append([v for b in bits for v in (b, b + .3)])
    prof = np.array(prof)
    c = Columns(th, len(prof), layers=nl, height=2.)
    for kind in ('uv-x', 'uv-y', 'rho', 'both'):
        rec.check(dict(kind=kind, profiles=len(prof)), one_gradient, kind, rec, th, c, prof, nl)


def one_gradient(kind, rec, th, c, prof, nl):
    h = 2./nl

    def fill(f, v, comp=None):
        arr = f.dat.data if comp is None else f.dat.data[:, comp]
        for j in range(nl):
            for q in range(c.nodes.shape[2]):
                ix = c.nodes[:c.n, j, q]
                top = c.z[ix] > (j + .5)*h
                arr[ix] = np.where(top, v[:, 2*j + 1], v[:, 2*j])
    o = gls(th)
    model, d = build(th, c, o)
    model.initialize()

    def grad(v):
        """difference of the values at the faces, which are the means of both sides"""
        out = np.zeros((len(v), nl))
        for j in range(nl):
            lo = v[:, 0] if j == 0 else .5*(v[:, 2*j] + v[:, 2*j - 1])
            hi = v[:, -1] if j == nl - 1 else .5*(v[:, 2*j + 1] + v[:, 2*j + 2])
            out[:, j] = (hi - lo)/h
        return out
    gx = gy = np.zeros((len(prof), nl))
    gr = np.zeros((len(prof), nl))
    if kind in ('uv-x', 'both'):
        fill(d['uv'], prof, 0)
        gx = grad(prof)
    if kind in ('uv-y', 'both'):
        v = prof[::-1] if kind == 'both' else prof
        fill(d['uv'], v, 1)
        gy = grad(v)
    if kind in ('rho', 'both'):
        fill(d['rho'], 1000.*prof[:, ::-1])
        gr = grad(1000.*prof[:, ::-1])
    rest = c.mesh.coordinates.dat.data_ro.copy()
    try:
        for rep, stretch in enumerate((1., 1., 1.3, .6)):       # moving meshes stretch
            c.mesh.coordinates.dat.data[:, 2] = rest[:, 2]*stretch
            model.preprocess()
            model.postprocess()
            m2, n2 = c.get(d['m2']), c.get(d['n2'])
            rec.step(len(prof))
            wm = np.maximum((gx**2 + gy**2)/stretch**2, 1e-12)
            wn = -G/RHO0*gr/stretch
            for what, a, b in (('M2', m2, wm), ('N2', n2, wn)):
                err = np.abs(a - b)
                if err.max() > 1e-9*(1 + np.abs(b).max()):
                    i, j = np.unravel_index(np.argmax(err), err.shape)
                    raise Violation(f'{what} is not the vertical gradient', profile=prof[i].tolist(), layer=int(j), got=a[i, j], want=b[i, j], call=rep)
            require(c.get(d['visc']).min() >= o.visc_min and np.isfinite(c.get(d['visc'])).all(), 'viscosity')
    finally:
        c.mesh.coordinates.dat.data[:] = rest
    rec.state(kind)


# ---------------------------------------------------------------- production and destruction

def g_column(group, rec, th):
    """one implicit step of k and psi from every lattice state"""
    vs = [1e-8, 1e-4, 1e-1]
    ks = [1e-6, 1e-3, 1.]
    ps = [1e-12, 1e-6, 1e-2]
    es = [1e-14, 1e-6, 1e-2]
    n2 = [-1e-2, 0., 1e-4, 1e-1]
    m2 = [1e-12, 1e-4, 1e-1]
    V, K, P, E, N, M = [a.ravel() for a in np.meshgrid(vs, ks, ps, es, n2, m2)]
    D = V*np.where(np.arange(len(V)) % 2, .3, 2.)
    for layers in (1, 3):
        c = Columns(th, len(V), layers=layers, height=1.5)
        for dt, c3, z0 in itertools.product((.5, 60., 1e4), (None, .4, -.6), (0., .01)):
            if rec.tier == 'quick' and (z0 == 0.) == (c3 is None):
                continue
            case = dict(layers=layers, dt=dt, c3_minus=c3, roughness=z0)
            rec.check(case, one_column, group['closure'], case, rec, th, c, V, D, K, P, E, N, M)


def one_column(closure, case, rec, th, c, V, D, K, P, E, N, M):
    from thetis.rungekutta import BackwardEuler
    o = gls(th, closure)
    if case['c3_minus'] is not None:
        o.compute_c3_minus, o.c3_minus = False, case['c3_minus']
    model, d = build(th, c, o)
    lay, dt = case['layers'], case['dt']
    h = c.height/lay
    ncol = len(V)

    def spread(a, k):
        """different states in the layers of a column: state i in layer 0, and the one k further on in the next"""
        return np.array([np.roll(a, -k*j) for j in range(lay)]).T if lay > 1 else a
    step = 37
    v, dd, k, ps, e, n, m = [spread(a, step) for a in (V, D, K, P, E, N, M)]
    f = {x: c.f() for x in ('visc', 'diff', 'eps', 'm2', 'neg', 'pos', 'k', 'psi')}
    for x, a in (('visc', v), ('diff', dd), ('eps', e), ('m2', m), ('neg', np.minimum(n, 0.)), ('pos', np.maximum(n, 1e-12)), ('k', k), ('psi', ps)):
        c.put(f[x], a)
    helem = th.Function(c.P0).assign(h)
    fields = {'viscosity_v': f['visc'], 'diffusivity_v': f['diff'], 'k': f['k'], 'epsilon': f['eps'], 'shear_freq2': f['m2'],
              'buoy_freq2_neg': f['neg'], 'buoy_freq2_pos': f['pos'], 'bottom_roughness': th.Constant(case['roughness'])}
    args = dict(bathymetry=th.Constant(1.5), v_elem_size=helem, h_elem_size=th.Constant(10.))
    topt = th.options.ImplicitTracerTimeStepperOptions3d()
    topt.solver_parameters = {'mat_type': 'aij', 'ksp_type': 'preonly', 'pc_type': 'lu', 'snes_type': 'ksponly'}
    tke = BackwardEuler(th.turbulence.TKEEquation(c.P0, model, **args), f['k'], fields, dt, topt, {})
    psi = BackwardEuler(th.turbulence.PsiEquation(c.P0, model, **args), f['psi'], fields, dt, topt, {})
    psi.initialize(f['psi'])
    tke.initialize(f['k'])
    psi.advance(0.)
    tke.advance(0.)
    rec.step(ncol)
    rec.state(closure, *case.values())
    k1, p1 = c.get(f['k']).reshape(ncol, lay), c.get(f['psi']).reshape(ncol, lay)
    v, dd, k, ps, e, n, m = [a.reshape(ncol, lay) for a in (v, dd, k, ps, e, n, m)]
    prod = v*m
    bs = -dd*np.minimum(n, 0.)
    bk = -dd*np.maximum(n, 1e-12)
    c3 = o.c3_minus
    psrc = o.c1*prod + o.c3_plus*bs + (c3*bk if c3 <= 0 else 0.)
    psnk = (c3*bk if c3 > 0 else 0.) - o.c2*o.f_wall*e
    cm, p_, m_, n_ = o.cmu0, o.p, o.m, o.n

    def flux(z, kk, vv):
        return -n_*vv/o.schmidt_nb_psi*cm**p_*kk**m_*KAPPA**n_*z**(n_ - 1)
    add = np.zeros((ncol, lay))
    add[:, 0] += flux(.5*h + case['roughness'], k[:, 0], v[:, 0])/h
    add[:, -1] += flux(.5*h + .05, k[:, -1], v[:, -1])/h

    def solve(old, src, sink, sch):
        A = np.zeros((ncol, lay, lay))
        for j in range(lay):
            A[:, j, j] += 1 - dt*sink[:, j]
            if j + 1 < lay:
                w = dt*.5*(v[:, j] + v[:, j + 1])/sch/h**2
                A[:, j, j] += w
                A[:, j + 1, j + 1] += w
                A[:, j, j + 1] -= w
                A[:, j + 1, j] -= w
        return np.linalg.solve(A, (old + dt*src)[..., None])[..., 0]
    want = {'k': solve(k, prod + bs, (bk - e)/k, o.schmidt_nb_tke), 'psi': solve(ps, ps/k*psrc + add, psnk/k, o.schmidt_nb_psi)}
    for nm, got, old in (('k', k1, k), ('psi', p1, ps)):
        for what, bad in ((f'{nm} is not finite', ~np.isfinite(got)), (f'{nm} is not positive after the step', ~(got > 0)),
                          (f'{nm} does not follow from production, destruction, diffusion and boundary flux', ~(np.abs(got - want[nm]) <= (1e-7*np.abs(want[nm]).max(axis=1, keepdims=True) + 1e-13*old.max(axis=1, keepdims=True))*np.ones_like(got)))):
            if bad.any():
                i, j = np.unravel_index(int(np.argmax(bad)), bad.shape)
                raise Violation(what, layer=int(j), visc=v[i].tolist(), diff=dd[i].tolist(), k=k[i].tolist(), psi=ps[i].tolist(), eps=e[i].tolist(), N2=n[i].tolist(), M2=m[i].tolist(),
                                got=got[i].tolist(), want=want[nm][i].tolist())


# ---------------------------------------------------------------- Pacanowski and Philander

def g_pacanowski(group, rec, th):
    n2 = [-.1, -1e-4, 0., 1e-8, 1e-5, 1e-3, .1]
    m2 = [0., 1e-8, 1e-5, 1e-3, .1]
    N, M = [a.ravel() for a in np.meshgrid(n2, m2)]
    c = Columns(th, len(N))
    for vmax, alpha, ex, dens in itertools.product((5e-2, 1e-3), (10., 1.), (2.0, 1.0, 3.0), (True, False)):
        case = dict(max_viscosity=vmax, alpha=alpha, exponent=ex, density=dens)
        rec.check(case, one_pp, case, rec, th, c, N, M)


def one_pp(case, rec, th, c, N, M):
    o = th.options.PacanowskiPhilanderModelOptions()
    for k in ('max_viscosity', 'alpha', 'exponent'):
        setattr(o, k, case[k])
    d = {k: c.f(name=k) for k in ('diff', 'visc', 'n2', 'm2')}
    uv, rho = c.f(c.V1), c.f(c.P1) if case['density'] else None
    sol = Solver()
    model = th.turbulence.PacanowskiPhilanderModel(sol, uv, rho, d['diff'], d['visc'], d['n2'], d['m2'], options=o)
    for rev in (False, True, False):
        n, m = (N[::-1], M[::-1]) if rev else (N, M)
        c.profile(uv, np.sqrt(m), comp=1)
        if rho is not None:
            c.profile(rho, -RHO0/G*n)
        model.preprocess()
        model.postprocess()
        rec.step(len(N))
        ri = np.where(n > 0, n, 0.)/np.maximum(m, 1e-12) if rho is not None else np.zeros(len(n))
        den = 1 + case['alpha']*ri
        for nm, w in (('visc', case['max_viscosity']/den**case['exponent']), ('diff', case['max_viscosity']/den**(case['exponent'] + 1))):
            got = c.get(d[nm])
            # without buoyancy or shear the model works with 1e-12 instead of zero
            tol = 1e-8*w + w*(1 - 1/(1 + 2*case['alpha']*1e-12/np.maximum(m, 1e-12))**(case['exponent'] + 1))*(n <= 0 if rho is not None else 1.)
            bad = ~(np.abs(got - w) <= tol)
            if (n <= 0).any() and rho is not None:
                bad &= ~((m < 1e-11) & (n <= 0))       # Ri of still unstratified water is undefined
            elif rho is None:
                bad &= ~(m < 1e-11)
            if bad.any():
                i = int(np.argmax(bad))
                raise Violation(f'{nm} does not follow the Richardson number', N2=n[i], M2=m[i], got=got[i], want=w[i])
            require(np.isfinite(got).all() and (got >= 0).all() and (got <= case['max_viscosity']*(1 + 1e-12)).all(), f'{nm} out of range')
    rec.state(*case.values())


# ---------------------------------------------------------------- coupled runs

def g_runs(group, rec, th):
    for impl, adv, fam in itertools.product((True,), (False, True), ('Canuto A', 'Cheng')):
        if group['closure'] == 'pacanowski' and (adv or fam == 'Cheng'):
            continue
        for wind in ('pulse', 'none'):
            for strat in ('stable', 'unstable') if rec.tier == 'quick' else ('stable', 'unstable', 'none'):
                if rec.tier == 'quick' and ((wind == 'none') != (strat == 'unstable') or (fam == 'Cheng') != adv):
                    continue
                case = dict(advection=adv, stability=fam, wind=wind, stratification=strat)
                rec.check(case, one_run, group, case, rec, th)


def one_run(group, case, rec, th):
    from .p01 import solver3d
    closure = group['closure']
    wind = th.Constant((0., 0.))
    kw = dict(use_turbulence=True, use_turbulence_advection=case['advection'], use_implicit_vertical_diffusion=True, use_bottom_friction=True, bottom_roughness=th.Constant(.01),
              wind_stress=wind, solve_salinity=case['stratification'] != 'none', use_baroclinic_formulation=case['stratification'] != 'none',
              vertical_viscosity=th.Constant(1e-5), vertical_diffusivity=th.Constant(1e-6), use_limiter_for_tracers=True)
    s = solver3d(th, 10., 5., 1e6, 60., group['stepper'], layers=5, **{k: v for k, v in kw.items()})
    o = s.options
    if closure == 'pacanowski':
        o.turbulence_model_type = 'pacanowski'
    else:
        o.turbulence_model_type = 'gls'
        o.turbulence_model_options.apply_defaults(closure)
        o.turbulence_model_options.stability_function_name = case['stability']
    s.create_equations()
    salt = None
    if case['stratification'] != 'none':
        x = th.SpatialCoordinate(s.mesh)
        sg = -1. if case['stratification'] == 'stable' else .2
        salt = 20. + th.Constant(sg)*x[2]*th.Constant(.5)
    s.assign_initial_conditions(salt=salt, **({'uv_2d': th.Constant((.4, .1))}))
    ts = s.timestepper
    ts.initialize()
    go = getattr(o, 'turbulence_model_options')
    t = 0.
    F = s.fields
    for i in range(4):
        if case['wind'] == 'pulse':
            wind.assign((.2*(i % 2), -.1))
        ts.advance(t)
        t += s.dt
        rec.step()
        vals = {n: F[n].dat.data_ro.copy() for n in ('eddy_visc_3d', 'eddy_diff_3d', 'shear_freq_3d', 'buoy_freq_3d')}
        if closure != 'pacanowski':
            vals.update({n: F[n].dat.data_ro.copy() for n in ('tke_3d', 'psi_3d', 'eps_3d', 'len_3d')})
        for n, a in vals.items():
            require(np.isfinite(a).all(), f'{n} is not finite', step=i)
            if n != 'buoy_freq_3d':
                require((a > 0).all(), f'{n} is not positive', step=i, least=a.min())
        if closure == 'pacanowski':
            require(vals['eddy_visc_3d'].max() <= go.max_viscosity*(1 + 1e-12), 'viscosity above its maximum', step=i)
            ri = np.where(vals['buoy_freq_3d'] >= 0, vals['buoy_freq_3d'], 1e-12)/vals['shear_freq_3d']
            if case['stratification'] == 'none':
                ri = 1e-12/vals['shear_freq_3d']
            require_close(vals['eddy_visc_3d'], go.max_viscosity/(1 + go.alpha*ri)**go.exponent, rtol=1e-9, atol=1e-16, what='viscosity of the run does not follow the Richardson number')
            continue
        k, psi, eps, l = (vals[x] for x in ('tke_3d', 'psi_3d', 'eps_3d', 'len_3d'))
        require(k.min() >= go.k_min and psi.min() >= go.psi_min and eps.min() >= go.eps_min*(1 - 1e-12), 'minimum values', step=i)
        p, m, n = CLOSURES[closure]
        cm = go.cmu0
        require((go.p, go.m, go.n) == (p, m, n), 'parameters of the closure')
        we = np.maximum(cm**(3 + p/n)*k**(1.5 + m/n)*psi**(-1/n), go.eps_min)
        require_close(eps, we, rtol=1e-8, atol=0., what='dissipation of the run does not belong to k and psi')
        require_close(l, np.maximum(cm**3*k**1.5/eps, go.len_min), rtol=1e-8, atol=0., what='length scale of the run does not belong to k and dissipation')
        n2 = vals['buoy_freq_3d']
        npos = np.where(n2 >= 0, n2, 1e-12) if case['stratification'] != 'none' else np.full_like(n2, 1e-12)
        lp = (psi/(cm**p*k**m))**(1/n)
        require((lp <= go.galperin_clim*np.sqrt(2*k/(npos + 1e-12))*(1 + 1e-8)).all(), 'psi of the run beyond the stratification limit', step=i)
        sm, sh = Stab(case['stability']).limited(vals['shear_freq_3d'], n2, k, eps, True, True, False)
        require_close(vals['eddy_visc_3d'], np.maximum(np.sqrt(k)*l*sm/cm**3, go.visc_min), rtol=1e-6, atol=0., what='viscosity of the run')
        require_close(vals['eddy_diff_3d'], np.maximum(np.sqrt(k)*l*sh/cm**3, go.diff_min), rtol=1e-6, atol=0., what='diffusivity of the run')
    rec.state(closure, group['stepper'], *case.values())
