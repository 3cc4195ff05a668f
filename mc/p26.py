"""P26: atmospheric, ocean and tidal forcings."""
import itertools
import math
import numpy as np
from .common import require, require_equal, require_close, Violation, Scratch, quiet
from .p09 import plain_coords, write_grid, domain

RULE = ('wind stress: lattice of wind vectors x three formulations x input kinds; atmospheric data: every interpolator class x files split in every way '
        'x all query sequences up to depth 3 (thorough 4) over the record and mid-record times x coordinate systems; tides: TPXO and FES layouts x all '
        'constituent subsets up to size 3 in every order x zones of the initial date x boundary sets x query sequences')
ASSUMPTIONS = ['nodal factors and astronomical arguments of single constituents are taken from uptide',
               'outside of the tidal data the documented zero is expected for elevation']


def groups(tier):
    gs = [{'kind': 'stress', 'method': m} for m in ('LargePond1981', 'SmithBanke1975', 'LargeYeager2009')]
    gs += [{'kind': 'atm', 'cls': c} for c in ('ERA5Interpolator', 'TCHazardsInterpolator', 'ATMInterpolator', 'AtmosphericForcingInterpolator')]
    gs += [{'kind': 'tpxo', 'part': i} for i in range(4)]
    gs += [{'kind': 'fes'}, {'kind': 'ocean'}]
    gs = [{'kind': 'generic', 'slice': [i, 4]} for i in range(4)] + gs
    return gs


def run_group(group, rec):
    import thetis as th
    import thetis.forcing
    quiet()
    with Scratch():
        globals()['g_' + group['kind']](group, rec, th)


# --- wind stress -------------------------------------------------------------------

def cd(method, w):
    """The published drag coefficients."""
    if method == 'LargePond1981':
        return 1.2e-3 if w <= 11 else 1e-3*(0.49 + 0.065*w)
    if method == 'SmithBanke1975':
        return (0.63 + 0.066*w)*1e-3
    if w > 33:
        return 2.34e-3
    return 1e-3*(2.7/(w + 1e-3) + 0.142 + w/13.09 - 3.14807e-10*w**6)


def g_stress(group, rec, th):
    m = group['method']
    mags = [0., 1e-6, 0.3, 1., 5., 10.999, 11., 11.001, 20., 32.999, 33., 33.001, 50., 70.]
    angles = [k*math.pi/12 for k in range(24)]
    f = th.forcing.compute_wind_stress
    rho = 1.22

    def want(u, v):
        w = math.hypot(u, v)
        t = rho*cd(m, w)*w
        return t*u, t*v

    def one(pts, dtype):
        u = np.array([p[0] for p in pts], dtype=dtype)
        v = np.array([p[1] for p in pts], dtype=dtype)
        u0, v0 = u.copy(), v.copy()
        tx, ty = f(u, v, method=m)
        ref = np.array([want(float(a), float(b)) for a, b in zip(u0, v0)])
        require_close(tx, ref[:, 0], 'stress x', rtol=1e-12 if dtype != 'float32' else 1e-5, atol=1e-15 if dtype != 'float32' else 1e-8)
        require_close(ty, ref[:, 1], 'stress y', rtol=1e-12 if dtype != 'float32' else 1e-5, atol=1e-15 if dtype != 'float32' else 1e-8)
        require(np.array_equal(u, u0) and np.array_equal(v, v0), 'the wind was modified')
        rec.step(len(pts))
        rec.state(m, dtype, pts)
    polar = [(w*math.cos(a), w*math.sin(a)) for w in mags for a in angles]
    rec.check(dict(method=m, all='float64'), one, polar, 'float64')
    rec.check(dict(method=m, all='float32'), one, [p for p in polar if min(abs(math.hypot(*p) - c) for c in (11, 33)) > 0.01], 'float32')
    ints = list(itertools.product(range(-36, 37, 6), repeat=2)) + [(0, 11), (11, 0), (0, 12), (33, 0), (0, 34)]
    rec.check(dict(method=m, all='int'), one, ints, 'int64', key='P26-integer-wind')
    for p in polar:
        rec.check(dict(method=m, one=p), one, [p], 'float64')
    # each entry on its own, in all orders of a mixed wind field
    for perm in itertools.permutations([(0., 0.), (3., 4.), (0., -11.5), (-40., 1.), (12., 0.)]):
        rec.check(dict(method=m, field=perm), one, list(perm), 'float64')

    def grow():
        w = np.linspace(0.5, 32, 400) if m == 'LargeYeager2009' else np.linspace(0.01, 60, 600)
        tx, ty = f(w, 0*w, method=m)
        require(np.all(np.diff(tx) > 0), 'stress does not grow with the wind')
        require(np.all(ty == 0), 'cross-wind stress')
        rec.state(m, 'growth')
    rec.check(dict(method=m, growth=1), grow)

    def default():
        u, v = np.array([7., 30., 12.]), np.array([1., -9., 0.])
        require(np.array_equal(f(u, v)[0], f(u, v, method='LargeYeager2009')[0]), 'default formulation')
        try:
            f(u, v, method='foo')
        except Exception:
            return
        raise Violation('unknown formulation accepted')
    rec.check('default', default)


# --- atmospheric data ----------------------------------------------------------------

ATM = {'u': lambda x, y, t: 0.5*(x - 10) - (y - 50) + 0.01*t + 3, 'v': lambda x, y, t: (x - 10) + 0.3*(y - 50) - 0.02*t - 7,
       'p': lambda x, y, t: 100000 + 10*(x - 10) - 20*(y - 50) + t}
CLS = {'ERA5Interpolator': (('u10', 'v10', 'msl'), 'valid_time', 1.),
       'TCHazardsInterpolator': (('Uw', 'Vw', 'Pr'), 'time', 100.),
       'ATMInterpolator': (('uwind', 'vwind', 'prmsl'), 'time', 1.),
       'AtmosphericForcingInterpolator': (('a', 'b', 'c'), 'tt', 1.)}
TIMES = [0., 60., 120., 240.]


def write_atm(pat, names, tname, splits, hgt):
    import netCDF4
    lon, lat = 10 + np.arange(4.), 50 + np.arange(3.)
    X, Y = np.meshgrid(lon, lat)
    for k, idx in enumerate(splits):
        with netCDF4.Dataset(pat % k, 'w') as d:
            d.createDimension(tname, None)
            d.createDimension('lat', 3)
            d.createDimension('lon', 4)
            v = d.createVariable(tname, 'f8', (tname,))
            v.units = 'seconds since 2000-01-01 00:00:00'
            v.calendar = 'standard'
            v[:] = [TIMES[i] for i in idx]
            for n, a in (('lat', lat), ('lon', lon)):
                v = d.createVariable(n, 'f8', (n,))
                v.standard_name = {'lat': 'latitude', 'lon': 'longitude'}[n]
                v[:] = a
            for n, key in zip(names, 'uvp'):
                v = d.createVariable(n, 'f8', (tname, 'lat', 'lon'))
                for j, i in enumerate(idx):
                    v[j] = ATM[key](X, Y, TIMES[i])/(hgt if key == 'p' else 1.)


def splittings(n):
    for bits in range(2**(n-1)):
        s, cur = [], [0]
        for i in range(1, n):
            if bits >> (i-1) & 1:
                s.append(cur)
                cur = []
            cur.append(i)
        yield s + [cur]


def fields_at(th, fs, coords=None):
    x, y = th.SpatialCoordinate(fs.mesh())
    return th.Function(fs).interpolate(x).dat.data_ro.copy(), th.Function(fs).interpolate(y).dat.data_ro.copy()


def sequences(ts, depth):
    for n in range(1, depth + 1):
        yield from itertools.product(ts, repeat=n)


def g_atm(group, rec, th):
    import datetime
    import pytz
    names, tname, hgt = CLS[group['cls']]
    init = datetime.datetime(2000, 1, 1, tzinfo=pytz.utc)
    m = domain(th, 10.1, 50.1, 2.6, 1.7, nx=2, ny=2)
    P1 = th.get_functionspace(m, 'CG', 1)
    P1v = th.VectorFunctionSpace(m, 'CG', 1)
    X, Y = fields_at(th, P1)
    depth = 3 if rec.tier == 'quick' else 4
    qs = [0., 30., 60., 100., 180.]

    class Turned(type(plain_coords(th))):
        def get_vector_rotator(self, lon, lat):
            a = 0.1*lon + 0.03*lat
            return lambda u, v, i_node=None: (np.cos(a)*u - np.sin(a)*v, np.sin(a)*u + np.cos(a)*v)

    kw = {}
    if group['cls'] == 'AtmosphericForcingInterpolator':
        kw = dict(east_wind_var_name='a', north_wind_var_name='b', pressure_var_name='c', time_var_name='tt')
    for n, split in enumerate(splittings(4)):
        pat = 'a%d_%%d.nc' % n
        write_atm(pat, names, tname, split, hgt)
        for rot, shift in itertools.product((0, 1, 2), (0., 3600.)):
            cs = Turned() if rot == 1 else plain_coords(th)
            k = dict(kw)
            if rot == 2:
                k['vect_rotator'] = lambda u, v: (-v, u)
            it0 = init + datetime.timedelta(seconds=-shift)
            if shift:
                it0 = it0.astimezone(th.timezone.FixedTimeZone(-8, 'PST'))
            deep = rot == 0 and not shift and (n in (2, 5) or rec.tier != 'quick')
            for seq in sequences(qs, depth if deep else 2):
                rec.check(dict(cls=group['cls'], split=split, rot=rot, shift=shift, seq=seq), one_atm, th, group['cls'], P1, P1v, cs,
                          pat.replace('%d', '*'), it0, k, [s + shift for s in seq], shift, X, Y, rot, rec)
    if group['cls'] == 'AtmosphericForcingInterpolator':
        rec.check('hpa', one_hpa, th, P1, P1v, plain_coords(th), init, X, Y, rec)
        rec.check('three components', one_sphere, th, P1, m, init, X, Y, rec)


def one_atm(th, cls, P1, P1v, cs, pat, init, kw, seq, shift, X, Y, rot, rec):
    tau, p = th.Function(P1v), th.Function(P1)
    it = getattr(th.forcing, cls)(P1, tau, p, cs, pat, init, **kw)
    for t in seq:
        it.set_fields(t)
        check_atm(th, tau, p, X, Y, t - shift, rot)
        rec.step()
        rec.state(cls, t, rot)
    # times that are not covered
    for t in (-1. + shift, 241. + shift):
        try:
            it.set_fields(t)
        except Exception:
            continue
        raise Violation('time {} outside of the data is answered'.format(t))
    # and the data are still right afterwards
    it.set_fields(seq[0])
    check_atm(th, tau, p, X, Y, seq[0] - shift, rot)


def check_atm(th, tau, p, X, Y, t, rot):
    u, v = ATM['u'](X, Y, t), ATM['v'](X, Y, t)
    w = np.hypot(u, v)
    c = np.array([cd('LargeYeager2009', a) for a in w])*1.22*w
    sx, sy = c*u, c*v
    if rot == 1:
        a = 0.1*X + 0.03*Y
        sx, sy = np.cos(a)*sx - np.sin(a)*sy, np.sin(a)*sx + np.cos(a)*sy
    elif rot == 2:
        sx, sy = -sy, sx
    require_close(tau.dat.data_ro[:, 0], sx, 'wind stress x at {}'.format(t), rtol=1e-7, atol=1e-9)
    require_close(tau.dat.data_ro[:, 1], sy, 'wind stress y at {}'.format(t), rtol=1e-7, atol=1e-9)
    require_close(p.dat.data_ro, ATM['p'](X, Y, t), 'pressure at {}'.format(t), rtol=1e-9)


def one_hpa(th, P1, P1v, cs, init, X, Y, rec):
    write_atm('h_%d.nc', ('a', 'b', 'c'), 'tt', [[0, 1, 2, 3]], 100.)
    tau, p = th.Function(P1v), th.Function(P1)
    it = th.forcing.AtmosphericForcingInterpolator(P1, tau, p, cs, 'h_*.nc', init, east_wind_var_name='a', north_wind_var_name='b',
                                                   pressure_var_name='c', time_var_name='tt', pressure_units='hpa')
    it.set_fields(33.)
    check_atm(th, tau, p, X, Y, 33., 0)
    rec.step()
    rec.state('hpa')


def one_sphere(th, P1, m, init, X, Y, rec):
    write_atm('s_%d.nc', ('a', 'b', 'c'), 'tt', [[0, 1], [2, 3]], 1.)
    V3 = th.VectorFunctionSpace(m, 'CG', 1, dim=3)
    tau, p = th.Function(V3), th.Function(P1)
    it = th.forcing.AtmosphericForcingInterpolator(P1, tau, p, plain_coords(th), 's_*.nc', init, east_wind_var_name='a',
                                                   north_wind_var_name='b', pressure_var_name='c', time_var_name='tt',
                                                   vect_rotator=lambda u, v: (v, 2*u, u - v))
    it.set_fields(90.)
    t2, p2 = th.Function(th.VectorFunctionSpace(m, 'CG', 1)), th.Function(P1)
    i2 = th.forcing.AtmosphericForcingInterpolator(P1, t2, p2, plain_coords(th), 's_*.nc', init, east_wind_var_name='a',
                                                   north_wind_var_name='b', pressure_var_name='c', time_var_name='tt')
    i2.set_fields(90.)
    check_atm(th, t2, p2, X, Y, 90., 0)
    a, b = t2.dat.data_ro.T
    require_close(tau.dat.data_ro, np.array([b, 2*a, a - b]).T, 'three components')
    rec.step()
    rec.state('3')


# --- generic fields -------------------------------------------------------------------

GEN = {'s': lambda x, y, t: x + 0.1*t, 'q': lambda x, y, t: y - 0.3*t, 'ue': lambda x, y, t: 2*x - y + t, 'vn': lambda x, y, t: -x + 0.5*t + y}


def g_generic(group, rec, th):
    import datetime
    import pytz
    init = datetime.datetime(2000, 1, 1, tzinfo=pytz.utc)
    m = domain(th, 10.1, 50.1, 2.6, 1.7, nx=2, ny=2)
    P1 = th.get_functionspace(m, 'CG', 1)
    P1v = th.VectorFunctionSpace(m, 'CG', 1)
    X, Y = fields_at(th, P1)
    lon, lat = 10 + np.arange(4.), 50 + np.arange(4.)
    mask = np.zeros((4, 4), dtype=bool)
    mask[3, 3] = True
    for n, split in enumerate(splittings(4)):
        for k, idx in enumerate(split):
            write_grid('g%d_%d.nc' % (n, k), lon, lat, GEN, times=[TIMES[i] for i in idx], masks={k2: mask for k2 in GEN})
        for names, vec, rot in itertools.product([[], ['s'], ['q'], ['s', 'q'], ['q', 's']], [None, ('ue', 'vn'), ('vn', 'ue')], [False, True]):
            if vec is None and (rot or not names):
                continue
            for seq in sequences([0., 30., 60., 200.], 2 if n % 3 else 3):
                rec.check(dict(split=split, fields=names, vector=vec, rot=rot, seq=seq), one_generic, th, P1, P1v, X, Y, 'g%d_*.nc' % n, init,
                          names, vec, rot, seq, rec)


def one_generic(th, P1, P1v, X, Y, pat, init, names, vec, rot, seq, rec):
    fs = [th.Function(P1) for _ in names]
    V = th.Function(P1v)
    user = list(names)
    kw = {}
    if vec:
        kw = dict(vector_field=V, vector_components=vec)
        if rot:
            kw['vector_rotator'] = lambda u, v: (-v, u)
    it = th.forcing.GenericInterpolator2D(P1, fs, user, pat, init, plain_coords(th), **kw)
    require_equal(user, list(names), 'list of the caller')
    for t in seq:
        it.set_fields(t)
        for f, n in zip(fs, names):
            require_close(f.dat.data_ro, GEN[n](X, Y, t), 'field {} at {}'.format(n, t), atol=1e-7)
        if vec:
            e, n = GEN[vec[0]](X, Y, t), GEN[vec[1]](X, Y, t)
            if rot:
                e, n = -n, e
            require_close(V.dat.data_ro[:, 0], e, 'east component at {}'.format(t), atol=1e-7)
            require_close(V.dat.data_ro[:, 1], n, 'north component at {}'.format(t), atol=1e-7)
        rec.step()
        rec.state(t, names, vec, rot)


def g_ocean(group, rec, th):
    """NCOM fields are set from the right day, in place and direction."""
    import datetime
    import os
    import netCDF4
    import pytz
    from .p09 import box3d, wants3, ncom_files, NCOM_D
    D = NCOM_D
    os.makedirs('w')
    ncom_files('w/src', 'corner')
    base = 'w/n'
    os.makedirs(base)
    for f in ('model_lat.nc', 'model_lon.nc', 'model_zm.nc'):
        os.rename('w/src/' + f, base + '/' + f)
    full_lon, full_lat = np.meshgrid(200. + D*np.arange(0., 4), 40. + D*np.arange(0., 4))
    z = np.array([1.5, -20., -50., -100.])
    F = {'Salinity': ('s3d', lambda x, y, z, t: 2*x - y + 0.1*z + t), 'U_Velocity': ('u3d', lambda x, y, z, t: x - y + 0.01*z + 2*t),
         'V_Velocity': ('v3d', lambda x, y, z, t: -x + 2*y - t), 'Surface_Elevation': ('ssh', lambda x, y, z, t: x + y + 3*t)}
    for var, (fn, f) in F.items():
        for day in range(1, 5):
            p = '%s/2000/%s' % (base, fn)
            os.makedirs(p, exist_ok=True)
            with netCDF4.Dataset('%s/%s.x_2000010%d00.nc' % (p, fn, day), 'w') as h:
                h.createDimension('X_Index', 4)
                h.createDimension('Y_Index', 4)
                h.createDimension('level', 4)
                h.createVariable('X_Index', 'f8', ('X_Index',))[:] = [1, 2, 3, 4]
                h.createVariable('Y_Index', 'f8', ('Y_Index',))[:] = [1, 2, 3, 4]
                if fn == 'ssh':
                    h.createVariable(var, 'f8', ('Y_Index', 'X_Index'), fill_value=1e20)[:] = f(full_lon, full_lat, 0., day)
                else:
                    h.createVariable(var, 'f8', ('level', 'Y_Index', 'X_Index'), fill_value=1e20)[:] = f(full_lon[None], full_lat[None], z[:, None, None], day)
    init = datetime.datetime(2000, 1, 1, 12, tzinfo=pytz.utc)
    m2, m3 = box3d(th, 200 + 0.5*D, 40 + 0.7*D, D, D, 45.)
    fs2, fs3 = th.get_functionspace(m2, 'CG', 1), th.get_functionspace(m3, 'CG', 1)
    X, Y, Z = wants3(th, fs3)
    X2, Y2 = wants3(th, fs2)

    class Turned(type(plain_coords(th))):
        def get_vector_rotator(self, lon, lat):
            return lambda u, v, i_node=None: (0.6*u - 0.8*v, 0.8*u + 0.6*v)
    for sel in (['Salinity'], ['Surface_Elevation', 'Salinity'], ['U_Velocity', 'Salinity', 'V_Velocity'],
                ['V_Velocity', 'Surface_Elevation', 'U_Velocity', 'Salinity'], ['U_Velocity']):
        for seq in sequences([0., 43200., 86400., 200000.], 2 if rec.tier == 'quick' else 3):
            def one():
                fields = [th.Function(fs2 if n == 'Surface_Elevation' else fs3) for n in sel]
                it = th.forcing.NCOMInterpolator(fs2, fs3, fields, list(sel), [F[n][0] for n in sel], Turned(), base,
                                                 '{year:04d}/{fieldstr:}/{fieldstr:}.x_{year:04d}{month:02d}{day:02d}00.nc', init)
                for t in seq:
                    it.set_fields(t)
                    d = 1 + t/86400.
                    val = {n: (F[n][1](X2, Y2, 0., d) if n == 'Surface_Elevation' else F[n][1](X, Y, Z, d)) for n in F}
                    if 'U_Velocity' in sel and 'V_Velocity' in sel:
                        u, v = val['U_Velocity'], val['V_Velocity']
                        val['U_Velocity'], val['V_Velocity'] = 0.6*u - 0.8*v, 0.8*u + 0.6*v
                    for n, f in zip(sel, fields):
                        require_close(f.dat.data_ro, val[n], '{} at {}'.format(n, t), atol=1e-6)
                    rec.step()
                    rec.state(sel, t)
            rec.check(dict(ncom=sel, seq=seq), one)


# --- tides -----------------------------------------------------------------------------

CON = ['M2', 'S2', 'K1', 'O1']


def hc(c, x, y, which):
    """Amplitude and phase (degrees) of constituent c: complex amplitude is linear in space."""
    i = CON.index(c) + 1
    k = 'huv'.index(which)
    re = 0.5*i + 0.1*(x - 200) - 0.05*i*(y - 40) + 0.3*k
    im = -0.2*i + 0.02*i*(x - 200) + 0.1*(y - 40) - 0.1*k
    return re, im


def tide(uptide, c, re, im, date, t):
    """One constituent: f A cos(w t + phi + u - g), A exp(-i g) = re + i im."""
    T = uptide.Tides([c])
    T.set_initial_time(date)
    a = T.omega[0]*t + T.phi[0] + T.u[0]
    return T.f[0]*np.real((re + 1j*im)*np.exp(1j*a))


def write_tpxo(uv_phase=True):
    import netCDF4
    nx, ny = 6, 5
    lon, lat = 199. + np.arange(nx), 39. + np.arange(ny)
    pos = {'z': (0., 0.), 'u': (-0.5, 0.), 'v': (0., -0.5)}
    with netCDF4.Dataset('grid.nc', 'w') as d:
        d.createDimension('nx', nx)
        d.createDimension('ny', ny)
        for p, (a, b) in pos.items():
            X, Y = np.meshgrid(lon + a, lat + b, indexing='ij')
            d.createVariable('lon_' + p, 'f8', ('nx', 'ny'))[:] = X
            d.createVariable('lat_' + p, 'f8', ('nx', 'ny'))[:] = Y
            d.createVariable('m' + p, 'f8', ('nx', 'ny'))[:] = 1.
    for fn, comps in (('h.nc', 'h'), ('uv.nc', 'uv')):
        with netCDF4.Dataset(fn, 'w') as d:
            d.createDimension('nx', nx)
            d.createDimension('ny', ny)
            d.createDimension('nc', len(CON))
            d.createDimension('nct', 4)
            v = d.createVariable('con', 'S1', ('nc', 'nct'))
            # stored in another order than the constituents are numbered
            order = ['K1', 'M2', 'O1', 'S2']
            for i, c in enumerate(order):
                v[i, :] = np.array(list(c.lower().ljust(4)), dtype='S1')
            for k in comps:
                a, b = pos['z' if k == 'h' else k]
                X, Y = np.meshgrid(lon + a, lat + b, indexing='ij')
                re, im = zip(*[hc(c, X, Y, k) for c in order])
                re, im = np.array(re), np.array(im)
                if k == 'h':
                    d.createVariable('hRe', 'f8', ('nc', 'nx', 'ny'))[:] = re
                    d.createVariable('hIm', 'f8', ('nc', 'nx', 'ny'))[:] = im
                else:
                    z = re + 1j*im
                    d.createVariable(k + 'a', 'f8', ('nc', 'nx', 'ny'))[:] = abs(z)
                    d.createVariable(k + 'p', 'f8', ('nc', 'nx', 'ny'))[:] = np.degrees(-np.angle(z))


def dates(th):
    import datetime
    import pytz
    return [datetime.datetime(2006, 5, 1, tzinfo=pytz.utc),
            datetime.datetime(2006, 5, 1, 0, 0, tzinfo=th.timezone.FixedTimeZone(-8, 'PST')),
            pytz.timezone('Europe/Helsinki').localize(datetime.datetime(2011, 7, 3, 12, 30))]


def subsets():
    for n in (1, 2, 3):
        yield from itertools.permutations(CON, n)


def g_tpxo(group, rec, th):
    import uptide
    write_tpxo()
    m = domain(th, 200.2, 40.2, 2.5, 1.6, nx=3, ny=2)
    P1 = th.get_functionspace(m, 'CG', 1)
    P1v = th.VectorFunctionSpace(m, 'CG', 1)
    X, Y = fields_at(th, P1)
    allc = list(subsets())
    bnds = [None, [1], [2], [1, 3], (4, 2, 1)]
    seqs = [(0.,), (3600., 0.), (0., 7200., 86400.), (1e6, 5., 1e6)]
    for n, cons in enumerate(allc):
        if n % 4 != group['part']:
            continue
        for d, (j, b) in itertools.product(range(3), enumerate(bnds)):
            for vel, seq in ((0, seqs[(n + j) % 4]), (1, seqs[(n + j + 1) % 4]), (2, seqs[(n + j + 2) % 4])):
                rec.check(dict(constituents=cons, date=d, boundaries=b, velocity=vel, seq=seq), one_tpxo, th, uptide, P1, P1v, X, Y, cons,
                          dates(th)[d], b, vel, seq, rec)
    if group['part'] == 0:
        rec.check('refused', refused, th, P1, rec)


def on_boundary(X, Y, ids):
    s = np.zeros_like(X, dtype=bool)
    for i in ids:
        s |= {1: X < 200.2 + 1e-6, 2: X > 202.7 - 1e-6, 3: Y < 40.2 + 1e-6, 4: Y > 41.8 - 1e-6}[i]
    return s


def one_tpxo(th, uptide, P1, P1v, X, Y, cons, date, bnd, vel, seq, rec):
    import pytz
    elev, uv = th.Function(P1), th.Function(P1v)
    elev.assign(-99.)
    uv.dat.data[:] = -55.
    kw = {}
    if vel:
        kw['uv_field'] = uv
    if vel == 2:
        kw['vect_rotator'] = lambda u, v: (0.6*u - 0.8*v, 0.8*u + 0.6*v)
    it = th.forcing.TPXOTidalBoundaryForcing(elev, date, plain_coords(th), constituents=list(cons), boundary_ids=bnd, data_dir='.',
                                             elev_file='h.nc', uv_file='uv.nc', grid_file='grid.nc', **kw)
    on = on_boundary(X, Y, bnd) if bnd is not None else np.ones_like(X, dtype=bool)
    d0 = date.astimezone(pytz.utc)
    for t in seq:
        it.set_tidal_field(t)
        w = {k: sum(tide(uptide, c, *hc(c, X, Y, k), d0, t) for c in cons) for k in 'huv'}
        e = elev.dat.data_ro
        require_close(e[on], w['h'][on], 'elevation at {}'.format(t), atol=1e-8)
        require(np.all(e[~on] == -99.), 'elevation away from the boundary was changed')
        if vel:
            u, v = w['u'], w['v']
            if vel == 2:
                u, v = 0.6*u - 0.8*v, 0.8*u + 0.6*v
            require_close(uv.dat.data_ro[on, 0], u[on], 'u at {}'.format(t), atol=1e-8)
            require_close(uv.dat.data_ro[on, 1], v[on], 'v at {}'.format(t), atol=1e-8)
        else:
            require(np.all(uv.dat.data_ro == -55.), 'velocity changed')
        rec.step()
        rec.state(cons, str(date), bnd, vel, t)


def refused(th, P1, rec):
    import datetime
    e = th.Function(P1)
    for date, kw in ((datetime.datetime(2006, 5, 1), {}), (dates(th)[0], dict(data_dir='nowhere')), (dates(th)[0], dict(constituents=['XX']))):
        try:
            k = dict(data_dir='.', elev_file='h.nc', uv_file='uv.nc', grid_file='grid.nc')
            k.update(kw)
            th.forcing.TPXOTidalBoundaryForcing(e, date, plain_coords(th), **k)
        except Exception:
            rec.step()
            continue
        raise Violation('accepted: {} {}'.format(date, kw))


def g_fes(group, rec, th):
    import netCDF4
    import uptide
    nx, ny = 6, 5
    lon, lat = 199. + np.arange(nx), 39. + np.arange(ny)
    X, Y = np.meshgrid(lon, lat)
    with netCDF4.Dataset('tide.fes2004.nc', 'w') as d:
        d.createDimension('X', nx)
        d.createDimension('Y', ny)
        d.createDimension('spectrum', len(CON))
        d.createDimension('L', 4)
        d.createVariable('lon', 'f8', ('X',))[:] = lon
        d.createVariable('lat', 'f8', ('Y',))[:] = lat
        v = d.createVariable('spectrum', 'S1', ('spectrum', 'L'))
        order = ['O1', 'S2', 'M2', 'K1']
        for i, c in enumerate(order):
            v[i, :] = np.array(list(c.ljust(4)), dtype='S1')
        z = np.array([complex(1, 0)*hc(c, X, Y, 'h')[0] + 1j*hc(c, X, Y, 'h')[1] for c in order])
        for n, a in (('Ha', abs(z)), ('Hg', np.degrees(-np.angle(z)))):
            v = d.createVariable(n, 'f8', ('spectrum', 'Y', 'X'))
            v.missing_value = 18446744073709551616.
            v[:] = a
    m = domain(th, 200.2, 40.2, 2.5, 1.6, nx=3, ny=2)
    P1 = th.get_functionspace(m, 'CG', 1)
    P1v = th.VectorFunctionSpace(m, 'CG', 1)
    Xm, Ym = fields_at(th, P1)
    seqs = [(0.,), (3600., 0.), (0., 7200., 86400.), (1e6, 5., 1e6)]
    for n, cons in enumerate(subsets()):
        for d, b in itertools.product(range(3), [None, [2], [1, 3]]):
            def one():
                import pytz
                elev, uv = th.Function(P1).assign(-99.), th.Function(P1v)
                date = dates(th)[d]
                it = th.forcing.FES2004TidalBoundaryForcing(elev, date, plain_coords(th), constituents=list(cons), boundary_ids=b, data_dir='.',
                                                            uv_field=uv if n % 2 else None)
                on = on_boundary(Xm, Ym, b) if b is not None else np.ones_like(Xm, dtype=bool)
                for t in seqs[n % 4]:
                    it.set_tidal_field(t)
                    w = sum(tide(uptide, c, *hc(c, Xm, Ym, 'h'), date.astimezone(pytz.utc), t) for c in cons)
                    require_close(elev.dat.data_ro[on], w[on], 'elevation at {}'.format(t), atol=1e-8)
                    require(np.all(elev.dat.data_ro[~on] == -99.), 'elevation away from the boundary was changed')
                    require(np.all(uv.dat.data_ro == 0.), 'velocity was changed')
                    rec.step()
                    rec.state(cons, d, b, t)
            rec.check(dict(fes=cons, date=d, boundaries=b), one)
