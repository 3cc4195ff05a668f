"""P15: consistency of the 3D model: 2D mode, moving mesh, tracers, depth averages."""
import itertools
import numpy as np
from .common import require_close, Violation, Scratch, quiet
from . import models
from .p01 import solver3d

RULE = ('full product of element family and cell type x 3D time integrator x moving or fixed mesh x physics variant '
        '(plain, implicit vertical diffusion with closures, baroclinic, open boundaries, sources, limiters) x initial state (surface x depth-averaged flow x vertical shear); '
        'every step of every run is compared with the invariants; state = (configuration, initial state, step), transition = one 3D step')
ASSUMPTIONS = ['small meshes, rough bathymetry, three layers', 'steps well within the stability limits',
               'the surface of the moving mesh is the projection of the elevation to continuous elements (as documented), so tracer mass is compared for uniform tracers and still water only',
               'H(div) velocities: depth averages to 1e-5 (the projections between 2D and 3D spaces are not exact over sloping beds)']
CASE_TIMEOUT = 600
GROUP_TIMEOUT = 3600
LX, LY, DT = 2000., 1000., 5.

FAMS = [('dg-dg', False, 1), ('dg-dg', True, 1), ('rt-dg', True, 1), ('rt-dg', False, 1), ('bdm-dg', False, 1), ('dg-dg', False, 0), ('rt-dg', False, 0)]
VARIANTS = ['', 'implicit+baroclinic', 'open', 'source', 'saltsource', 'limiter', 'physics+implicit', 'open+limiter+implicit', 'source+baroclinic']
# quick tier: every family, integrator, mesh motion and variant, in a covering selection
QUICK = [('dg-dg', False, 'SSPRK22', True, ['', 'implicit+baroclinic', 'open+limiter', 'source', 'saltsource', 'physics+implicit']),
         ('dg-dg', False, 'LeapFrog', True, ['limiter', 'implicit+baroclinic', 'open', 'source']),
         ('dg-dg', False, 'SSPRK22', False, ['implicit']), ('dg-dg', False, 'LeapFrog', False, ['open']),
         ('dg-dg', True, 'SSPRK22', True, ['open']), ('dg-dg', True, 'LeapFrog', True, ['saltsource']),
         ('rt-dg', True, 'SSPRK22', True, ['implicit+source']), ('rt-dg', True, 'LeapFrog', True, ['open']),
         ('rt-dg', True, 'SSPRK22', False, [''])]
STATES = [('rest', 0, 0), ('raised', 0, 0), ('bump', 0, 0), ('bump', 1, 0), ('raised', 1, 1), ('bump', 1, 1), ('raised', 0, 1)]


def groups(tier):
    g = []
    if tier == 'quick':
        for fam, quad, st, ale, vs in QUICK:
            g += [{'fam': fam, 'quad': quad, 'deg': 1, 'st': st, 'ale': ale, 'var': v} for v in vs]
        return g
    for (fam, quad, deg), st, ale, v in itertools.product(FAMS, ['SSPRK22', 'LeapFrog'], [True, False], VARIANTS):
        if 'limiter' in v and (fam != 'dg-dg' or deg == 0):
            continue
        g.append({'fam': fam, 'quad': quad, 'deg': deg, 'st': st, 'ale': ale, 'var': v})
    return g


def run_group(group, rec):
    import thetis as th
    quiet()
    with Scratch():
        m = Model(th, group)
        for st in STATES:
            case = dict(group, state=list(st))
            rec.check(case, m.run, case, rec)


LU = {'snes_type': 'newtonls', 'snes_linesearch_type': 'basic', 'snes_convergence_test': 'skip', 'snes_max_it': 4, 'ksp_type': 'preonly', 'pc_type': 'lu', 'mat_type': 'aij'}


class Capture:
    def __init__(self, fn):
        self.fn = fn
        self.got = []

    def export(self, time=None):
        self.got.append(self.fn())


class Model:
    def __init__(self, th, g):
        import firedrake as fd
        self.th, self.g = th, g
        var = g['var'].split('+')
        self.hdiv = g['fam'] != 'dg-dg'
        mesh = self.mesh2d = th.RectangleMesh(2, 2, LX, LY, quadrilateral=g['quad'])
        opts = dict(element_family=g['fam'], polynomial_degree=g['deg'], use_ale_moving_mesh=g['ale'],
                    use_limiter_for_tracers='limiter' in var, use_limiter_for_velocity='limiter' in var,
                    solve_salinity=True, solve_temperature=True)
        if 'implicit' in var:
            opts.update(use_implicit_vertical_diffusion=True, vertical_diffusivity=th.Constant(1e-3), vertical_viscosity=th.Constant(1e-2))
        if 'physics' in var:
            opts.update(use_turbulence=True, quadratic_drag_coefficient=th.Constant(2.5e-3), use_bottom_friction=True, coriolis_frequency=th.Constant(1e-4),
                        use_smagorinsky_viscosity=True, horizontal_diffusivity=th.Constant(2.), horizontal_viscosity=th.Constant(2.))
        if 'baroclinic' in var:
            opts.update(use_baroclinic_formulation=True)
        if 'source' in var:
            opts.update(volume_source_2d=th.Constant(2e-4))
        if 'saltsource' in var:
            opts.update(salinity_source_3d=th.Constant(1e-3), temperature_source_3d=th.Constant(-2e-3))
        s = self.s = solver3d(th, DT, DT, 1e6, 1e6, g['st'], mesh=mesh, layers=3,
                              bathymetry=lambda P: 10. + np.sin(1. + np.arange(P.dof_count)), **opts)
        if 'baroclinic' in var:
            s.options.equation_of_state_type = 'linear'
            s.options.equation_of_state_options.alpha = 0.   # density from the (constant) salinity only
            s.options.equation_of_state_options.rho_ref = 1025.
        s.options.timestepper_options.swe_options.solver_parameters = dict(LU)
        if 'open' in var:
            self.bc = th.Constant(0.)
            s.bnd_functions['shallow_water'] = {1: {'elev': self.bc}, 2: {'flux': th.Constant(0.)}}
            s.bnd_functions['momentum'] = {1: {'symm': None}, 2: {'symm': None}}
            s.bnd_functions['salt'] = {1: {'value': th.Constant(7.3)}, 2: {'value': th.Constant(7.3)}}
            s.bnd_functions['temp'] = {1: {'symm': None}, 2: {'symm': None}}
        s.initialize()
        self.stale = 0.
        if self.hdiv and g['ale']:
            self.refresh(s.uv_averager, s.fields.uv_dav_3d)
        F = self.F = s.fields
        x, y, z = self.xyz = th.SpatialCoordinate(s.mesh)
        X, Y = self.XY = th.SpatialCoordinate(mesh)
        b2 = F.bathymetry_2d
        b3 = b2.view_3d
        self.c = [th.Constant(0.) for _ in range(4)]
        self.a = [th.Constant(0.) for _ in range(2)]

        def psi(x, y):
            return self.c[0] + self.c[1]*x/LX + self.c[2]*y/LY + self.c[3]*x*y/LX/LY
        D2 = (F.elev_cg_2d if g['ale'] else th.Constant(0.)) + b2
        self.f_vol3 = psi(x, y)*fd.dx(domain=s.mesh)
        self.f_vol2 = psi(X, Y)*(F.elev_2d + b2)*fd.dx(domain=mesh)
        self.f_volcg = psi(X, Y)*D2*fd.dx(domain=mesh)
        self.f_u2 = (self.a[0]*F.uv_2d[0] + self.a[1]*F.uv_2d[1])*psi(X, Y)*D2*fd.dx
        self.f_udav = (self.a[0]*F.uv_dav_3d[0] + self.a[1]*F.uv_dav_3d[1])*psi(x, y)*fd.dx
        self.f_udev = (self.a[0]*F.uv_3d[0] + self.a[1]*F.uv_3d[1])*psi(x, y)*fd.dx
        self.f_salt = F.salt_3d*fd.dx
        eta3 = F.elev_cg_2d.view_3d
        zref = F.z_coord_ref_3d
        self.f_z = (z - zref - (eta3*(zref + b3)/b3 if g['ale'] else 0.))**2*fd.dx
        self.fd = fd

    def refresh(self, averager, out):
        """The matrix of the depth average depends on the element height in
        H(div) spaces, but is assembled only once (known finding): note the
        difference and carry on with the average of the present mesh, so that
        everything else is still checked."""
        solve = averager.solve

        def wrapped():
            solve()
            old = out.dat.data_ro.copy()
            averager.solver.invalidate_jacobian()
            solve()
            new = out.dat.data_ro
            self.stale = max(self.stale, np.abs(new - old).max()/max(np.abs(new).max(), 1e-8))
        averager.solve = wrapped

    # ---- observations
    def psis(self):
        for k in range(4):
            for j in range(4):
                self.c[j].assign(1. if j == k else 0.)
            yield k

    def vec(self, *forms):
        """moments of velocities against (1, x, y, xy) in both directions"""
        out = [[] for _ in forms]
        for d in range(2):
            self.a[0].assign(1. - d)
            self.a[1].assign(float(d))
            for k in self.psis():
                for o, f in zip(out, forms):
                    o.append(self.fd.assemble(f))
        return [np.array(o)/(LX*LY*10.) for o in out]

    def scalar(self, form):
        return np.array([self.fd.assemble(form) for k in self.psis()])/(LX*LY*10.)

    # ---- one run
    def run(self, case, rec):
        th, s, F, g = self.th, self.s, self.F, self.g
        ekind, flow, shear = case['state']
        var = g['var'].split('+')
        X, Y = self.XY
        x, y, z = self.xyz
        elev = {'rest': th.Constant(0.), 'raised': th.Constant(.4),
                'bump': .3*th.cos(np.pi*X/LX) + .1*th.sin(np.pi*Y/LY)}[ekind]
        uv2 = th.as_vector((.1*th.sin(np.pi*X/LX), .1*th.sin(np.pi*Y/LY)*th.cos(np.pi*X/LX))) if flow else th.Constant((0., 0.))
        if 'open' in var:
            self.bc.assign({'rest': 0., 'raised': .4, 'bump': .1}[ekind])
        for f in (F.uv_3d, F.uv_dav_3d, F.w_3d, F.uv_2d, F.elev_2d):
            f.assign(0.)
        if g['ale']:
            F.w_mesh_3d.assign(0.)
        s.simulation_time, s.iteration = 0., 0
        F.split_residual_2d.assign(0.)
        s.assign_initial_conditions(elev=elev, uv_2d=uv2, salt=th.Constant(7.3), temp=10. + .002*x - .001*y + .2*z)
        ts = s.timestepper
        self.compare(case, 'initially', avg=True)
        if shear:
            # a deviation from the depth average, consistent with the present mesh
            b3 = F.bathymetry_2d.view_3d
            sig = (z + b3)/((F.elev_cg_2d.view_3d if g['ale'] else 0.) + b3) - .5
            F.uv_3d.project(th.as_vector((.2*sig, -.1*sig, 0.)))
            ts._update_2d_coupling()
            ts._update_vertical_velocity()
            ts.initialize()
            F.split_residual_2d.assign(0.)
            self.compare(case, 'initially', avg=True)
        still = not flow and not shear and ekind != 'bump' and 'source' not in var
        T0 = F.temp_3d.copy(deepcopy=True)
        vol0 = self.scalar(self.f_vol2)
        e0 = F.elev_2d.dat.data_ro.copy()
        t = 0.
        for i in range(3 if rec.tier == 'quick' else 8):
            ts.advance(t)
            t += DT
            what = 'after step {}'.format(i + 1)
            self.compare(case, what, avg=True)
            rec.step()
            rec.state(case, i)
            vol = self.scalar(self.f_vol2)
            if 'source' in var:
                require_close(vol[0], vol0[0] + 2e-4*t/10., 'water volume ' + what + ' (volume source)', rtol=1e-9)
            elif 'open' not in var:
                require_close(vol[0], vol0[0], 'water volume ' + what, rtol=1e-9)
            want, tol = 7.3, 2e-7
            if 'saltsource' in var:
                # the source is integrated over the mesh at slightly different times
                want, tol = want + 1e-3*t, 2e-7 if still else 1e-5*t
            require_close(F.salt_3d.dat.data_ro, np.full_like(F.salt_3d.dat.data_ro, want), 'constant salinity ' + what, rtol=0, atol=tol)
            if not np.all(np.isfinite(F.uv_3d.dat.data_ro)):
                raise Violation('3D velocity is not finite ' + what)
            if still:
                require_close(F.elev_2d.dat.data_ro, e0, 'elevation of still water ' + what, rtol=0, atol=1e-8)
                for n in ('uv_2d', 'uv_3d', 'uv_dav_3d', 'w_3d'):
                    f = F[n]
                    nrm = (self.fd.assemble(self.fd.inner(f, f)*self.fd.dx)/(LX*LY))**.5
                    require_close(nrm, 0., 'velocity {} of still water {}'.format(n, what), rtol=0, atol=1e-8)
                if 'implicit' not in var and 'limiter' not in var:
                    require_close(F.temp_3d.dat.data_ro, T0.dat.data_ro - (2e-3*t if 'saltsource' in var else 0.), 'temperature of still water ' + what, rtol=0, atol=1e-7)
        # exported velocity
        old = s.exporters
        u0 = F.uv_3d.dat.data_ro.copy()
        cap = Capture(lambda: self.vec(self.f_u2, self.f_udev))
        try:
            s.exporters = {'capture': cap}
            s.export()
        finally:
            s.exporters = old
        (a, b), = cap.got
        if 'physics' not in g['var']:
            self.close(b, a, 'transport of the exported 3D velocity')
        require_close(F.uv_3d.dat.data_ro, u0, 'deviation velocity after an export', rtol=1e-12, atol=1e-12*np.abs(F.uv_dav_3d.dat.data_ro).max())
        stale, self.stale = self.stale, 0.
        if stale > 1e-6:
            raise Violation('depth average of the H(div) velocity uses the element heights of an earlier mesh: relative difference {:.2g}'.format(stale), key='hdiv-average-moving-mesh')

    def close(self, got, want, what):
        scale = max(np.abs(want).max(), .01)
        require_close(got, want, what, rtol=0, atol=(2e-5 if self.hdiv else 1e-9)*scale)

    def compare(self, case, what, avg):
        g = self.g
        v3, v2, vc = self.scalar(self.f_vol3), self.scalar(self.f_vol2), self.scalar(self.f_volcg)
        require_close(v3, vc, 'volume and moments of the 3D mesh against the depth of the water column ' + what, rtol=1e-9)
        if g['ale']:
            require_close(v3[0], v2[0], 'volume of the 3D mesh against the 2D volume ' + what, rtol=1e-9)
            require_close(v3[:3], v2[:3], 'moments of the 3D volume against the 2D ones ' + what, rtol=1e-9)
        dz = (self.fd.assemble(self.f_z)/(LX*LY*10.))**.5
        require_close(dz, 0., 'layer positions of the 3D mesh ' + what, rtol=0, atol=1e-9)
        if avg:
            u2, ud, dev = self.vec(self.f_u2, self.f_udav, self.f_udev)
            self.close(ud, u2, 'depth-averaged velocity on the 3D mesh against the 2D velocity ' + what)
            if 'physics' not in g['var']:
                # bottom friction acts on the deviation until it is passed on to the 2D mode
                self.close(dev, 0.*dev, 'depth average of the deviation velocity ' + what)
