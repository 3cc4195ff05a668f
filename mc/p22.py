"""P22: sediment and bed."""
import itertools
import math
import numpy as np
from .common import require, require_close, require_equal, Violation, Scratch, quiet
from .models import solver2d
from .weak import Weak
from . import p23
from .p23 import assembled

RULE = ('closures: every combination of flow speed, direction, depth, grain size and option set on a lattice against an independent implementation of the formulas; '
        'exchange and bed forms: every combination of options x flow x boundary x basis function of the concentration; runs: every pair of integrators x option set, all histories of steps to a depth from several initial states')
ASSUMPTIONS = ['flow constant in space where closures are compared point by point', 'small distorted mesh of both cell types', 'exact linear solvers']
CASE_TIMEOUT = 600
GROUP_TIMEOUT = 3600
STEPPERS = ['CrankNicolson', 'BackwardEuler', 'SSPRK33', 'ForwardEuler', 'DIRK22', 'DIRK33']
LU = {'mat_type': 'aij', 'ksp_type': 'preonly', 'pc_type': 'lu', 'snes_type': 'newtonls', 'snes_rtol': 1e-10, 'snes_atol': 1e-10, 'snes_stol': 1e-14, 'snes_max_it': 30}
LIN = {'mat_type': 'aij', 'ksp_type': 'preonly', 'pc_type': 'lu', 'snes_type': 'ksponly'}
LX, LY, SK = 200., 120., .2


def groups(tier):
    quick = tier == 'quick'
    g = [{'kind': 'closures', 'cell': 'tri', 'slice': [i, 2]} for i in range(2)]
    if not quick:
        g.append({'kind': 'closures', 'cell': 'quad'})
    for cell in ('tri', 'quad'):
        for cons in (False, True):
            if not quick or cell == 'tri':
                g.append({'kind': 'exchange', 'cell': cell, 'conservative': cons})
        g.append({'kind': 'bed', 'cell': cell})
    for st in STEPPERS:
        for cons in (False, True):
            if not quick or cons == (st in STEPPERS[::2]):
                g.append({'kind': 'runs', 'stepper': st, 'conservative': cons})
    g += [{'kind': 'coupled'}, {'kind': 'still'}]
    return g


def run_group(group, rec):
    import thetis as th
    quiet()
    with Scratch():
        globals()['g_' + group['kind']](group, rec, th)


def mesh(th, cell, nx=2, ny=1):
    m = th.RectangleMesh(nx, ny, LX, LY, quadrilateral=cell == 'quad')
    m.coordinates.dat.data[:, 0] += SK*m.coordinates.dat.data[:, 1]
    return m


def model(th, m, bed=lambda x, y: 5., suspended=True, exner=True, bedload=False, conservative=False, angle=False, mag=False, secondary=False, slide=False, velcor=False,
          d50=2e-4, ks=.025, nu=1e-6, rhos=2650., porosity=.4, morfac=1., dt=2., stepper='CrankNicolson', exner_stepper=None, tracer_only=True, pre=None, diff=None, **kw):
    def opts(s):
        o = s.options
        o.element_family = 'dg-dg'
        o.horizontal_viscosity = None
        o.use_limiter_for_tracers = False
        o.tracer_only = tracer_only
        so = o.sediment_model_options
        so.solve_suspended_sediment = suspended
        so.solve_exner = exner
        so.use_bedload = bedload
        so.use_sediment_conservative_form = conservative
        so.use_angle_correction = angle
        so.use_slope_mag_correction = mag
        so.use_secondary_current = secondary
        so.use_sediment_slide = slide
        so.use_advective_velocity_correction = velcor
        so.average_sediment_size = th.Constant(d50)
        so.bed_reference_height = th.Constant(ks)
        so.morphological_viscosity = th.Constant(nu)
        so.sediment_density = th.Constant(rhos)
        so.porosity = porosity if hasattr(porosity, 'ufl_shape') else th.Constant(porosity)
        so.morphological_acceleration_factor = th.Constant(morfac)
        if diff is not None:
            so.horizontal_diffusivity = th.Constant(diff)
        if slide:
            so.sed_slide_length_scale = th.Constant(20.)
            so.max_angle = th.Constant(1.)
        so.sediment_timestepper_type = stepper
        so.sediment_timestepper_options.solver_parameters = dict(LIN)
        so.exner_timestepper_type = exner_stepper or stepper
        # the depth depends on the bed: the equation is not linear
        so.exner_timestepper_options.solver_parameters = dict(LIN if (exner_stepper or stepper) in ('SSPRK33', 'ForwardEuler') else LU)
        for o2 in (so.sediment_timestepper_options, so.exner_timestepper_options, o.swe_timestepper_options):
            if hasattr(o2, 'use_automatic_timestep'):
                o2.use_automatic_timestep = False
        if pre:
            pre(s)
    return solver2d(m, dt=dt, texp=dt, end=100*dt, stepper=kw.pop('swe', 'CrankNicolson'), bath=bed, pre=opts, **kw)


def uniform(th, s, u, v, h=None, eta=None):
    """Constant velocity; constant depth h or a given surface."""
    uv, el = s.fields.solution_2d.subfunctions
    uv.interpolate(th.as_vector([th.Constant(u), th.Constant(v)]))
    if h is not None:
        el.interpolate(h - s.fields.bathymetry_2d)
    elif eta is not None:
        el.interpolate(eta(*th.SpatialCoordinate(s.mesh2d)) if callable(eta) else th.Constant(eta))


# ---------------------------------------------------------------------------
# van Rijn, Soulsby, Meyer-Peter and Mueller, as in Clare et al. (2021)

G, RHO, KAPPA = 9.81, 1000., .4


class Closure:
    def __init__(self, speed, h, d50, ks, nu, rhos, rho0, kappa):
        G_, self.speed, self.h = G, speed, h
        R = rhos/rho0 - 1
        ksp, a = 3*d50, ks/2
        D = d50*(G_*R/nu**2)**(1/3)
        self.dstar = D
        th = .24/D if D < 4 else .14*D**-.64 if D < 10 else .04*D**-.1 if D < 20 else .013*D**.29 if D < 150 else .055
        self.thetacr = th
        self.taucr = (rhos - rho0)*G_*d50*th
        if d50 <= 1e-4:
            ws = G_*d50**2*R/(18*nu)
        elif d50 <= 1e-3:
            ws = 10*nu/d50*(math.sqrt(1 + .01*R*G_*d50**3/nu**2) - 1)
        else:
            ws = 1.1*math.sqrt(G_*d50*R)
        self.ws = ws
        aux = max(11.036*max(h, 1e-3)/ks, 1.001)
        qfc = 2/(math.log(aux)/kappa)**2
        cf = 2*(math.log(11.036*h/ksp)/kappa)**-2 if h > ksp else 0.
        self.mu = cf/qfc
        self.stress = .5*rho0*qfc*speed**2
        self.qfc = qfc
        ustar = math.sqrt(.5*qfc)*speed
        B = 1. if a > h else a/h
        rouse = ws/(kappa*ustar) - 1 if ustar > 0 else math.inf
        if abs(rouse) > 1e-4:
            r = min(rouse, 3.)
            I = B*(1 - B**r)/r
        else:
            I = -B*math.log(B)
        self.conc = max(1/I if I > 1e-12 else 1e12, 1.)
        T = max((self.stress*self.mu - self.taucr)/self.taucr, 0.)
        self.erosion = ws*.015*d50/a*T**1.5/D**.3
        self.deposition = ws*self.conc
        self.equilibrium = self.erosion/self.deposition
        # velocity correction
        A = max(ksp/h if h > 1.1*ksp else 1/1.1, a/h if h > 1.1*a else 1/1.1)
        r1 = 1 - (1/kappa)*min(ws/ustar if ustar > 0 else 1., 1.)
        if abs(r1) > 1e-8:
            I1 = (1 - A**r1)/r1
            I2 = -(I1 + math.log(A)*A**r1)/r1
        else:
            I1, I2 = math.log(A), -.5*math.log(A)**2
        al = -(I2 - (math.log(A) - math.log(30))*I1)/(I1*(math.log(A) - math.log(30) + 1))
        self.factor = max(min(al, 1.), 0.)
        thp = self.mu*self.stress/((rhos - rho0)*G_*d50)
        self.phi = 8*(thp - th)**1.5 if thp >= th else 0.
        self.qscale = math.sqrt(G_*R*d50**3)
        self.d50, self.R, self.rhos, self.rho0, self.ustar = d50, R, rhos, rho0, ustar

    def bedload(self, direction, grad, angle, mag, secondary, beta=1.3, surbeta=2/3, alpha_s=.75, depth_grad=(0., 0.)):
        """Transport vector over a bathymetry (positive down) of a given gradient."""
        if self.phi == 0.:
            return np.zeros(2)
        c, s = direction
        u, v = self.speed*c, self.speed*s
        slope = 1 + beta*(grad[0]*c + grad[1]*s) if mag else 1.
        cm, sm = c, s
        if angle:
            tt = math.sqrt((self.rhos - self.rho0)*G*self.d50*surbeta**2/max(self.stress, 1e-10))
            v_ = np.array([c + tt*grad[0], s + tt*grad[1]])
            cm, sm = v_/max(np.hypot(*v_), 1e-10)
        if secondary:
            fs = np.array(depth_grad) - np.array(grad)
            slide = u*fs[1] - v*fs[0]
            t = 7*G*self.rho0*self.h*self.qfc/(2*alpha_s*(u*u + v*v))
            q = np.array([self.stress*slope*cm + v*t*slide, self.stress*slope*sm - u*t*slide])
            return q/self.stress*self.phi*self.qscale
        return slope*self.phi*self.qscale*np.array([cm, sm])


DIRS = [(1., 0.), (.6, .8), (0., -1.), (-.8, .6)]
FLAGS = list(itertools.product((False, True), repeat=3))


def g_closures(group, rec, th):
    quick = rec.tier == 'quick'
    m = mesh(th, group['cell'])
    W = Weak(th, m)
    sizes = (9e-5, 2e-4, 1.5e-3) if quick else (9e-5, 1e-4, 2e-4, 5e-4, 1e-3, 1.5e-3, 5e-3)
    others = [dict(), dict(ks=.4, rhos=2000., nu=1.3e-6)] + ([] if quick else [dict(ks=.002), dict(rhos=3000.)])
    speeds = (0., 1e-7, .05, .3, 1., 3.) if quick else (0., 1e-7, 1e-3, .05, .1, .2, .3, .5, 1., 2., 3., 6.)
    depths = (.01, .15, 8.) if quick else (.01, .05, .15, .5, 2., 10., 40.)
    for d50 in sizes:
        for p in others:
            q = dict(dict(ks=.025, rhos=2650., nu=1e-6), **p)
            key = {'d50': d50, 'parameters': p}
            s = None

            def setup():
                s = model(th, m, bed=lambda x, y: 1., bedload=True, angle=True, velcor=True, d50=d50, **q)
                s.create_equations()
                return s

            def point(speed, h, d):
                sm = s.sediment_model
                uniform(th, s, speed*d[0], speed*d[1], h)
                before = [x.data_ro.tobytes() for x in s.fields.solution_2d.dat] + [s.fields.bathymetry_2d.dat.data_ro.tobytes()]
                for again in range(1 if h != .15 else 2):
                    sm.update()
                after = [x.data_ro.tobytes() for x in s.fields.solution_2d.dat] + [s.fields.bathymetry_2d.dat.data_ro.tobytes()]
                require(before == after, 'updating the sediment model changed the state')
                c = Closure(speed, h, d50, rho0=RHO, kappa=KAPPA, **q)
                tol = 2e-5 if h < 2*q['ks'] else 2e-6

                def same(f, want, what):
                    got = np.array(f.dat.data_ro)
                    require(np.isfinite(got).all(), '{:} is {:}', what, got.tolist())
                    require(np.abs(got - want).max() <= tol*abs(want) + 1e-14*(1 + abs(want)), '{:}: got {:}, expected {:}', what, got.tolist(), want)
                V = sm.erosion_concentration.function_space()
                f = th.Function(V)
                # positions in the validity limit of each closure are no use: the depth is projected
                if abs(h - 3*d50) < 1e-6*h:
                    return
                same(sm.taucr, c.taucr, 'critical stress')
                same(sm.settling_velocity, c.ws, 'settling velocity')
                same(sm.bed_stress, c.stress, 'bed stress')
                same(f.interpolate(sm.get_erosion_term()), c.erosion, 'erosion')
                same(f.interpolate(sm.get_deposition_coefficient()), c.deposition, 'deposition coefficient')
                same(sm.get_equilibrium_tracer(), c.equilibrium, 'equilibrium concentration')
                same(sm.get_advective_velocity_correction_factor(), c.factor, 'velocity factor')
                require(f.interpolate(sm.get_erosion_term()).dat.data_ro.min() >= -1e-15, 'negative erosion')
                if c.stress*c.mu < .999*c.taucr:
                    require(np.abs(f.interpolate(sm.get_erosion_term()).dat.data_ro).max() <= 1e-12*c.ws, 'erosion below the critical stress')
                rec.step()
                rec.state(d50, p, speed, h, d)
            for speed in speeds:
                for h in depths:
                    for d in DIRS if not quick else DIRS[1:3]:
                        def case():
                            nonlocal s
                            if s is None:
                                s = setup()
                            point(speed, h, d)
                        rec.check(dict(key, speed=speed, depth=h, direction=d), case)


# ---------------------------------------------------------------------------

def parts(th, eq, sol, fields, label, n, tests, bnd=None):
    return assembled(th, eq.residual(label, sol, sol, fields, fields, bnd or {}), n)


FLOWS = [(0., 0.), (.4, .1), (-.9, .8)]


def g_exchange(group, rec, th):
    """Erosion and deposition in the sediment equation and in the bed equation."""
    cell, cons = group['cell'], group['conservative']
    quick = rec.tier == 'quick'
    m = mesh(th, cell)
    W = Weak(th, m, 8)
    for porosity, morfac, velcor in ((.4, 1., False), (.15, 1., True), (.4, 10., False), ('field', 3., False)):
        pf = porosity
        if porosity == 'field':
            pf = th.Function(th.get_functionspace(m, 'CG', 1)).interpolate(.3 + .1*th.SpatialCoordinate(m)[0]/LX)
        key = {'porosity': porosity, 'morfac': morfac, 'velocity correction': velcor}
        box = {}

        def setup():
            s = model(th, m, bed=lambda x, y: 5. + x/100. - y/80., conservative=cons, porosity=pf, morfac=morfac, velcor=velcor)
            s.create_equations()
            s.create_timestepper()
            box['s'] = s
            Q, E = s.equations.sediment, s.equations.exner
            nq, ne = s.fields.sediment_2d.dat.data_ro.size, s.fields.bathymetry_2d.dat.data_ro.size
            sed, bath = s.timestepper.timesteppers.sediment, s.timestepper.timesteppers.exner
            box.update(Q=Q, E=E, nq=nq, ne=ne, fs=sed.fields, fe=bath.fields)
            box['B'] = W.basis(s.fields.sediment_2d.function_space())
            box['P'] = W.basis(s.fields.bathymetry_2d.function_space())

        def balance(flow, surf, i):
            if not box:
                setup()
            s = box['s']
            uniform(th, s, *flow, eta=(lambda x, y: .3 + x/300.) if surf else 0.)
            s.sediment_model.update()
            c = s.fields.sediment_2d
            c.dat.data[:] = 0.
            if i == 'eq':
                c.interpolate(s.sediment_model.get_equilibrium_tracer()*(s.depth.get_total_depth(s.fields.elev_2d) if cons else 1.))
            elif i is not None:
                c.dat.data[i] = 1.
            bf = s.fields.bathymetry_2d
            Q, E = box['Q'], box['E']
            out = {}
            for name, eq, sol, f, n in (('sediment', Q, c, box['fs'], box['nq']), ('bed', E, bf, box['fe'], box['ne'])):
                out[name] = sum(assembled(th, eq.residual(l, sol, sol, f, f, {}), n) for l in (('source', 'implicit') if name == 'sediment' else ('source',)))
            # the same, evaluated here: net upward flux per unit of area
            b, e = W.poly(bf), W.poly(s.fields.elev_2d)
            ep = W.poly(th.Function(c.function_space()).project(s.sediment_model.get_erosion_term()))
            C = W.poly(c)
            sm = s.sediment_model
            H = lambda D: D.val(b) + D.val(e)
            # deposition coefficient from the closures is not polynomial: integrate it on the quadrature of the model
            dx = th.dx(degree=2*1 + 1)
            cof = sm.get_deposition_coefficient()
            tot = s.depth.get_total_depth(s.fields.elev_2d)
            up = sm.get_erosion_term() - cof*c/(tot if cons else 1.)
            scale = 1e-12 + abs(float(th.assemble(abs(cof*c)*dx))) + abs(float(th.assemble(sm.get_erosion_term()*dx)))
            # weights of the sediment tests that make up the depth
            hq = th.Function(c.function_space()).interpolate(tot)
            w = np.ones(box['nq']) if cons else hq.dat.data_ro
            inwater = float((w*out['sediment']).sum())
            fac = morfac/(1 - pf)
            want = th.assemble(up*fac*th.TestFunction(bf.function_space())*dx).dat.data_ro
            require_close(out['bed'], want, 'bed', rtol=1e-8, atol=1e-10*np.abs(want).max() + 1e-18)
            tol = 2e-3
            total = float(th.assemble(up*dx))
            require(abs(inwater - total) <= tol*scale, 'sediment gains {:} from a bed that loses {:}', inwater, total)
            if porosity != 'field':
                require(abs(out['bed'].sum()/fac - inwater) <= tol*scale, 'sediment gains {:}, the bed loses {:}', inwater, out['bed'].sum()/fac)
            if i is None:
                require(inwater >= -1e-15, 'negative erosion {:}', inwater)
                if flow == (0., 0.):
                    require(abs(inwater) <= 1e-15, 'still water erodes {:}', inwater)
            if i not in (None, 'eq') and flow == (0., 0.):
                require(inwater <= 1e-15, 'still water does not deposit {:}', inwater)
            if i == 'eq' and flow != (0., 0.):
                require(abs(total) <= .05*scale, 'at equilibrium the bed loses {:} of {:}', total, scale)
            rec.step()
            rec.state(key, flow, surf, i)
        nq = len(W.area)*(3 if cell == 'tri' else 4)
        for flow in FLOWS:
            for surf in (False, True):
                for i in [None, 'eq'] + list(range(0, nq, 5 if quick else 1)):
                    rec.check(dict(key, flow=flow, tilted=surf, concentration=i), balance, flow, surf, i)


BOUNDS = {'closed': {}, 'wall': {1: {'un': 0.}}, 'walls': {1: {'un': 0.}, 2: {'uv': (0., 0.)}}, 'outflow': {2: {'elev': 0.}}, 'inflow': {1: {'flux': -3.}, 2: {'elev': 0.}},
          'moving': {1: {'uv': (.4, .1)}, 2: {'elev': 0., 'uv': (.4, .1)}}, 'field': {1: {'un': 'field'}, 2: {'elev': 'field'}}, 'vector': {1: {'uv': 'field'}, 3: {'un': 0.}}, 'constant': {1: {'uv': 'constant'}, 2: {'flux': 'field'}}}


def g_bed(group, rec, th):
    """Bedload and slides: the weak form, its balance and its boundaries."""
    cell = group['cell']
    quick = rec.tier == 'quick'
    m = mesh(th, cell)
    W = Weak(th, m, 4)
    W.set_tags(p23.marker)
    grads = [(0., 0.), (.02, 0.), (-.015, .03)]
    for angle, mag, sec in FLAGS:
        key = {'angle': angle, 'magnitude': mag, 'secondary': sec}
        box = {}

        def setup():
            s = model(th, m, bed=lambda x, y: 5., suspended=False, bedload=True, angle=angle, mag=mag, secondary=sec, porosity=.3, morfac=2.)
            s.create_equations()
            s.create_timestepper()
            box['s'] = s
            box['B'] = W.basis(s.fields.bathymetry_2d.function_space())

        def closed(speed, d, grad, h, bnd):
            if not box:
                setup()
            s = box['s']
            bf = s.fields.bathymetry_2d
            x, y = th.SpatialCoordinate(m)
            bf.interpolate(8. + grad[0]*(x - LX/2) + grad[1]*(y - LY/2))
            uniform(th, s, speed*d[0], speed*d[1], h)
            s.sediment_model.update()
            vals = {}

            def value(key, v):
                if v == 'constant':
                    return th.Constant(th.as_vector((.2, .1)))
                if v == 'field':
                    if key == 'uv':
                        return th.Function(th.get_functionspace(m, 'CG', 1, vector=True)).interpolate(th.as_vector((x/LX, y/LY)))
                    return th.Function(th.get_functionspace(m, 'CG', 1)).interpolate(1. + x/LX)
                return th.Constant(th.as_vector(v)) if isinstance(v, tuple) and bnd == 'moving' else th.Constant(v) if not isinstance(v, tuple) else th.as_vector(v)
            bc = {k: {q: value(q, v) for q, v in f.items()} for k, f in BOUNDS[bnd].items()}
            ts = s.timestepper.timesteppers.exner
            E = s.equations.exner
            got = sum(assembled(th, E.residual(l, bf, bf, ts.fields, ts.fields, bc), len(bf.dat.data_ro)) for l in ('implicit', 'explicit', 'source'))
            c = Closure(speed, h, 2e-4, .025, 1e-6, 2650., RHO, KAPPA)
            q = c.bedload(d, grad, angle, mag, sec)*2./.7
            B = box['B']
            want = -W.cells(lambda D: (q*D.grad(B)).sum(-1))
            closed_ids = {k for k, f in BOUNDS[bnd].items() if any(kk in ('un', 'flux') and v == 0. or kk == 'uv' and v == (0., 0.) for kk, v in f.items())}
            for k in BOUNDS[bnd]:
                if k not in closed_ids:
                    want = want + W.boundary(lambda D, n: (q*n).sum(-1)*D.val(B), k)
            scale = 1e-15 + np.hypot(*q)*LY
            require(np.isfinite(got).all(), 'bed changes by {:}', got.tolist())
            # here the rate of change of the bathymetry (positive down) is the divergence of the transport
            err = np.abs(got - want).max()
            require(err <= 2e-5*scale, 'bedload transport {:} gives {:}, expected {:}', q.tolist(), got.tolist(), want.tolist())
            if bnd in ('closed', 'wall', 'walls'):
                require(abs(got.sum()) <= 1e-9*scale, 'closed basin: bed volume changes by {:}', got.sum())
            rec.step()
            rec.state(key, speed, d, grad, h, bnd)
        for speed in (0., .1, .8, 2.):
            for d in DIRS:
                for grad in grads:
                    for bnd in BOUNDS:
                        if bnd == 'closed' or speed == .8 and (not quick or d in DIRS[:2] and grad is grads[2]) and (not quick or (angle, mag, sec) in FLAGS[::7]):
                            if not quick or bnd != 'closed' or d in DIRS[1:3]:
                                rec.check(dict(key, speed=speed, direction=d, slope=grad, boundaries=bnd), closed, speed, d, grad, 3., bnd)

    # slides level the bed and keep its volume
    box = {}

    def slide(grad, i):
        if not box:
            s = model(th, m, bed=lambda x, y: 5., suspended=False, bedload=False, slide=True)
            s.create_equations()
            s.create_timestepper()
            box['s'] = s
        s = box['s']
        bf = s.fields.bathymetry_2d
        x, y = th.SpatialCoordinate(m)
        bf.interpolate(30. + grad[0]*x + grad[1]*y)
        if i is not None:
            bf.dat.data[i] += 4.
        uniform(th, s, 0., 0., 20.)
        s.sediment_model.update()
        ts = s.timestepper.timesteppers.exner
        got = assembled(th, s.equations.exner.residual('implicit', bf, bf, ts.fields, ts.fields, {}), len(bf.dat.data_ro))
        p = W.poly(bf)
        g = np.stack([p23_grad(W, p, c) for c in range(W.nc)])
        require(np.isfinite(got).all(), 'bed changes by {:}', got.tolist())
        require(abs(got.sum()) <= 1e-9*(1 + np.abs(got).max()), 'slides change the volume of the bed by {:}', got.sum())
        if cell == 'tri' and np.hypot(g[:, 0], g[:, 1]).max() < math.tan(math.pi/180):
            require(np.abs(got).max() == 0., 'slides on a gentle slope: {:}', got.tolist())
        elif cell == 'tri' and np.hypot(g[:, 0], g[:, 1]).max() > 1.01*math.tan(math.pi/180):
            # energy falls
            require((got*bf.dat.data_ro).sum() < 0, 'a steep bed gets steeper: {:}', got.tolist())
        rec.step()
        rec.state('slide', grad, i)
    for grad in ((0., 0.), (.005, 0.), (.01, -.01), (.1, 0.), (-.05, .3)):
        for i in [None] + list(range(6)):
            rec.check({'slide': grad, 'raised': i}, slide, grad, i)


def p23_grad(W, p, c):
    from .weak import At
    return np.ravel(At(W, np.array([c]), W.P[c].mean(0)[None, None]).grad(p))


# ---------------------------------------------------------------------------

STEP = .04        # deposition is fast in still water


def periodic(th, quad=False):
    return th.PeriodicRectangleMesh(3, 2, LX, LY, direction='x', quadrilateral=quad)


def amounts(th, s, cons, morfac, porosity, bed=None):
    H = s.depth.get_total_depth(s.fields.elev_2d) if bed is None else bed + s.fields.elev_2d
    c = s.fields.sediment_2d
    return float(th.assemble((c if cons else c*H)*th.dx)), float(th.assemble(s.fields.bathymetry_2d*(1 - porosity)/morfac*th.dx))


def g_runs(group, rec, th):
    """Uniform flow in a channel without ends: water plus bed."""
    st, cons = group['stepper'], group['conservative']
    quick = rec.tier == 'quick'
    m = periodic(th)
    sets = [dict(), dict(porosity=.2, morfac=5.), dict(velcor=True, exner=False), dict(bedload=True), dict(exner_stepper='BackwardEuler' if st != 'BackwardEuler' else 'CrankNicolson')]
    if not quick:
        sets += [dict(bedload=True, mag=True, angle=True), dict(bedload=True, mag=True, angle=True, secondary=True), dict(slide=True), dict(diff=2.)]
    for opts in sets:
        p, mf = opts.get('porosity', .4), opts.get('morfac', 1.)
        box = {}

        def history(flow, start, factors):
            if not box:
                s = model(th, m, bed=lambda x, y: 4. + .3*th.cos(2*th.pi*y/LY) if hasattr(th, 'cos') else 4., conservative=cons, stepper=st, dt=STEP, **opts)
                s.initialize()
                box['s'] = s
                box['bed'] = s.fields.bathymetry_2d.copy(deepcopy=True)
            s = box['s']
            bed0 = box['bed']
            s.fields.bathymetry_2d.assign(bed0)
            uniform(th, s, *flow, eta=0.)
            x, y = th.SpatialCoordinate(m)
            H = s.depth.get_total_depth(s.fields.elev_2d)
            eq = float(Closure(np.hypot(*flow), 4., 2e-4, .025, 1e-6, 2650., RHO, KAPPA).equilibrium)
            c0 = {'clean': 0., 'dirty': 5*eq + 1e-3, 'band': 1e-3*(1 + th.cos(2*th.pi*y/LY))}[start]
            s.fields.sediment_2d.project(c0*(H if cons else 1.)) if start == 'band' or cons and c0 else s.fields.sediment_2d.assign(c0)
            s.timestepper.initialize(s.fields.solution_2d)
            w0, b0 = amounts(th, s, cons, mf, p)
            t = 0.
            moved = 0.
            for f in factors:
                wa, ba = amounts(th, s, cons, mf, p)
                before = s.fields.bathymetry_2d.copy(deepcopy=True)
                s.timestepper.set_dt(STEP*f)
                s.timestepper.advance(t)
                t += STEP*f
                # the concentration equation keeps the depth while it steps
                wb, bb = amounts(th, s, cons, mf, p, before)
                require(np.isfinite([wb, bb]).all(), 'not finite')
                if opts.get('exner', True) is False:
                    require(s.fields.bathymetry_2d.dat.data_ro.tobytes() == bed0.dat.data_ro.tobytes(), 'bed moves although its equation is not solved')
                    exchanged = wb - wa
                    c = Closure(np.hypot(*flow), 4., 2e-4, .025, 1e-6, 2650., RHO, KAPPA)
                else:
                    # the bathymetry points down: it grows by what the water gains
                    c = Closure(np.hypot(*flow), 4., 2e-4, .025, 1e-6, 2650., RHO, KAPPA)
                    gross = STEP*f*(c.erosion*LX*LY + c.deposition*(abs(wa) + abs(wb))/4.)
                    lag = STEP*f*c.deposition/4.*1.2
                    exact = st == (opts.get('exner_stepper') or st) and st in ('CrankNicolson', 'BackwardEuler') and not cons
                    tol = (1e-7 if exact else 2e-2 + lag)*gross + 1e-9*abs(wa) + 1e-12*abs(ba) + 1e-8
                    require(abs((wb - wa) - (bb - ba)) <= tol, 'water gains {:}, the bed loses {:} (of {:} exchanged)', wb - wa, bb - ba, gross)
                rec.step()
            rec.state(opts, flow, start, factors)
        for flow in ((0., 0.), (.5, 0.), (-1., 0.)):
            for start in ('clean', 'dirty', 'band'):
                for factors in ((1., .5),) + (((1.,), (1., 1.), (.5, 1.)) if not opts else ()) if quick else [f for n in (1, 2, 3) for f in itertools.product((1., .5), repeat=n)]:
                    rec.check({'options': opts, 'flow': flow, 'start': start, 'steps': factors}, history, flow, start, factors)


def g_coupled(group, rec, th):
    """With the flow solved for: nothing but the flow moves sediment; still water stays still."""
    m = mesh(th, 'tri')
    for cons in (False, True):
        for opts in (dict(), dict(bedload=True), dict(bedload=True, angle=True, mag=True, velcor=True)):
            box = {}

            def run(n, level):
                if not box:
                    s = model(th, m, bed=lambda x, y: 5. + x/100., conservative=cons, tracer_only=False, stepper='BackwardEuler', dt=2., **opts)
                    s.initialize()
                    box['s'] = s
                    box['bed'] = s.fields.bathymetry_2d.copy(deepcopy=True)
                s = box['s']
                s.fields.bathymetry_2d.assign(box['bed'])
                uniform(th, s, 0., 0., eta=level)
                s.fields.sediment_2d.assign(1e-3)
                s.timestepper.initialize(s.fields.solution_2d)
                for k in range(n):
                    wa, ba = amounts(th, s, cons, 1., .4)
                    s.timestepper.advance(2.*k)
                    wb, bb = amounts(th, s, cons, 1., .4)
                    require(np.isfinite([wb, bb]).all() and all(np.isfinite(f.dat.data_ro).all() for f in s.fields.solution_2d.subfunctions), 'still water: state is not finite')
                    require(wb < wa and bb < ba, 'sediment in still water does not settle: {:} to {:}, bed {:} to {:}', wa, wb, ba, bb)
                    require(abs((wb - wa) - (bb - ba)) <= .02*abs(wb - wa), 'water loses {:}, the bed gains {:}', wa - wb, ba - bb)
                    rec.step()
                rec.state(opts, cons, n, level)
            for n in (1, 2, 3):
                for level in (0., .7):
                    rec.check({'options': opts, 'conservative': cons, 'steps': n, 'level': level}, run, n, level)


def g_still(group, rec, th):
    """Bedload with still water: nothing moves, whatever options are on."""
    m = mesh(th, 'tri')
    for angle, mag, sec in FLAGS:
        for st in ('CrankNicolson', 'BackwardEuler', 'SSPRK33'):
            def run(grad, dry):
                s = model(th, m, bed=lambda x, y: 6. + grad[0]*x + grad[1]*y, suspended=False, bedload=True, angle=angle, mag=mag, secondary=sec, stepper=st, tracer_only=True)
                s.initialize()
                s.assign_initial_conditions(elev=th.Constant(0.), uv=th.Constant(th.as_vector((0., 0.))))
                before = s.fields.bathymetry_2d.dat.data_ro.copy()
                for k in range(2):
                    s.timestepper.advance(2.*k)
                    require_close(s.fields.bathymetry_2d.dat.data_ro, before, 'bed under still water', rtol=1e-13)
                    rec.step()
                rec.state(angle, mag, sec, st, grad)
            for grad in ((0., 0.), (.02, -.01)):
                if rec.tier == 'quick' and grad == (0., 0.) and st != 'BackwardEuler':
                    continue
                rec.check({'angle': angle, 'magnitude': mag, 'secondary': sec, 'stepper': st, 'slope': grad}, run, grad, False)
