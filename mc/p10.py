"""P10: coordinate systems."""
import itertools
import math
import numpy as np
from .common import require, require_equal, require_close, Violation, Scratch, quiet

RULE = ('all 60 zones x both hemispheres x a lattice of locations in and around the zone x all axis/diagonal vectors x scalar, array, integer '
        'and partly undefined input; compared with an independent transverse Mercator projection')
ASSUMPTIONS = ['latitudes from -80 to 84 degrees, up to 6 degrees from the central meridian']


def groups(tier):
    return [{'zones': list(range(1 + i, 61, 6))} for i in range(6)] + [{'mesh': True}]


# --- oracle: Krueger series, WGS84 ---------------------------------------------

A_, F_ = 6378137.0, 1/298.257223563
N_ = F_/(2 - F_)
RECT = A_/(1 + N_)*(1 + N_**2/4 + N_**4/64 + N_**6/256)
ALPHA = [N_/2 - 2*N_**2/3 + 5*N_**3/16 + 41*N_**4/180 - 127*N_**5/288,
         13*N_**2/48 - 3*N_**3/5 + 557*N_**4/1440 + 281*N_**5/630,
         61*N_**3/240 - 103*N_**4/140 + 15061*N_**5/26880,
         49561*N_**4/161280 - 179*N_**5/168,
         34729*N_**5/80640]


def utm(zone, south, lon, lat):
    lam = math.radians((lon - (6*zone - 183) + 180) % 360 - 180)
    phi = math.radians(lat)
    e = math.sqrt(F_*(2 - F_))
    s = math.sin(phi)
    t = math.sinh(math.atanh(s) - e*math.atanh(e*s))
    xi = math.atan2(t, math.cos(lam))
    eta = math.atanh(math.sin(lam)/math.sqrt(1 + t*t))
    x, y = eta, xi
    for j, a in enumerate(ALPHA, 1):
        x += a*math.cos(2*j*xi)*math.sinh(2*j*eta)
        y += a*math.sin(2*j*xi)*math.cosh(2*j*eta)
    return 500000. + 0.9996*RECT*x, (1e7 if south else 0.) + 0.9996*RECT*y


def axes(zone, south, lon, lat):
    """Unit vectors of true east and north in map coordinates."""
    h = 1e-4
    n = np.array(utm(zone, south, lon, lat + h)) - np.array(utm(zone, south, lon, lat - h))
    e = np.array(utm(zone, south, lon + h, lat)) - np.array(utm(zone, south, lon - h, lat))
    return e/np.hypot(*e), n/np.hypot(*n)


DLON = {'quick': [-5.5, -3., -0.7, 0., 1.3, 4.], 'thorough': [-6., -5.5, -4., -3., -1.5, -0.7, 0., 0.2, 1.3, 2.9, 4., 6.]}
LAT_N = {'quick': [0., 0.001, 17.3, 45., 59.9, 84.], 'thorough': [0., 0.001, 5., 17.3, 30., 45., 59.9, 70., 79., 84.]}
LAT_S = {'quick': [-80., -51.2, -0.5, 0.], 'thorough': [-80., -63., -51.2, -33., -12., -0.5, 0.]}
VECS = [(1., 0.), (0., 1.), (-1., 0.), (0., -1.), (3., 4.), (-2., 0.5), (0., 0.)]


def run_group(group, rec):
    import thetis as th
    quiet()
    with Scratch():
        if 'mesh' in group:
            for zone, south in itertools.product([10, 30, 54, 60], [False, True]):
                rec.check(dict(mesh=zone, south=south), one_mesh, th, zone, south, rec)
            rec.check('refused meshes', refused, th, rec)
            return
        for zone in group['zones']:
            for south in (False, True):
                rec.check(dict(zone=zone, south=south), one_zone, th, zone, south, rec)


def one_zone(th, zone, south, rec):
    cs = th.coordsys.UTMCoordinateSystem(zone, south=south)
    lon0 = 6*zone - 183
    lats = (LAT_S if south else LAT_N)[rec.tier]
    pts = [(((lon0 + a) + 180) % 360 - 180, b) for a in DLON[rec.tier] for b in lats]
    ref = np.array([utm(zone, south, *p) for p in pts])
    lon = np.array([p[0] for p in pts])
    lat = np.array([p[1] for p in pts])
    # arrays
    x, y = cs.to_xy(lon, lat)
    require_close(x, ref[:, 0], 'x', rtol=0, atol=1e-3)
    require_close(y, ref[:, 1], 'y', rtol=0, atol=1e-3)
    lo, la = cs.to_lonlat(x, y)
    require_close((lo - lon + 180) % 360 - 180, 0*lon, 'longitude after round trip', rtol=0, atol=1e-8)
    require_close(la, lat, 'latitude after round trip', rtol=0, atol=1e-8)
    lo2, la2 = cs.to_lonlat(x, y, positive_lon=True)
    require(np.all((lo2 >= 0) & (lo2 <= 360)), 'longitude not positive')
    require_close((lo2 - lon + 180) % 360 - 180, 0*lon, 'positive longitude', rtol=0, atol=1e-8)
    require_close(la2, lat, 'latitude', rtol=0, atol=1e-8)
    # two-dimensional arrays
    sh = (len(DLON[rec.tier]), len(lats))
    x2, y2 = cs.to_xy(lon.reshape(sh), lat.reshape(sh))
    require_close(x2, x.reshape(sh), 'x, 2D array')
    require_close(y2, y.reshape(sh), 'y, 2D array')
    # undefined points
    for bad in (np.nan, np.inf):
        for k in range(0, len(pts), 5):
            for which in (0, 1):
                a = [x.copy(), y.copy()]
                a[which][k] = bad
                lo3, la3 = cs.to_lonlat(*a)
                require(np.isnan(lo3[k]) and np.isnan(la3[k]), 'undefined point becomes {} {}', lo3[k], la3[k])
                ok = np.arange(len(pts)) != k
                require(np.array_equal(lo3[ok], lo[ok]) and np.array_equal(la3[ok], la[ok]), 'undefined point changes others')
    # integers
    xi, yi = np.round(x).astype(int), np.round(y).astype(int)
    lo4, la4 = cs.to_lonlat(xi, yi)
    lo5, la5 = cs.to_lonlat(xi.astype(float), yi.astype(float))
    require_close(lo4, lo5, 'longitude from integers')
    require_close(la4, la5, 'latitude from integers')
    # scalars
    for i, p in enumerate(pts):
        xs, ys = cs.to_xy(*p)
        require(np.ndim(xs) == 0 and np.ndim(ys) == 0, 'scalar input gives {}', type(xs))
        require_close([xs, ys], ref[i], 'scalar to_xy', rtol=0, atol=1e-3)
        ls, as_ = cs.to_lonlat(xs, ys)
        require_close([(ls - p[0] + 180) % 360 - 180, as_], [0., p[1]], 'scalar round trip', rtol=0, atol=1e-8)
        rec.step()
        rec.state(zone, south, p)
    # rotation (the rotator looks northwards: not at the end of the valid range)
    sel = [i for i in range(len(pts)) if pts[i][1] < 83.9]
    rot = cs.get_vector_rotator(lon[sel], lat[sel])
    ax = [axes(zone, south, lon[i], lat[i]) for i in sel]
    for v in VECS:
        u, w = rot(np.full(len(sel), v[0]), np.full(len(sel), v[1]))
        want = np.array([v[0]*e + v[1]*n for e, n in ax])
        require_close(u, want[:, 0], 'x component of rotated %s' % (v,), rtol=0, atol=2e-6)
        require_close(w, want[:, 1], 'y component of rotated %s' % (v,), rtol=0, atol=2e-6)
        require_close(np.hypot(u, w), np.full(len(sel), math.hypot(*v)), 'length', rtol=1e-12, atol=1e-14)
        for i in range(len(sel)):
            a, b = rot(v[0], v[1], i_node=i)
            require(np.size(a) == 1 and np.size(b) == 1, 'rotation of vector {} alone gives {} values', i, np.size(a))
            require_close([np.ravel(a)[0], np.ravel(b)[0]], [u[i], w[i]], 'rotation of vector %d alone' % i)
        rec.step(len(sel))


def one_mesh(th, zone, south, rec):
    from math import isclose  # noqa
    x0, y0 = utm(zone, south, 6*zone - 184., -40. if south else 40.)
    mesh = th.RectangleMesh(2, 2, 3e4, 2e4)
    mesh.coordinates.dat.data[:, 0] += x0
    mesh.coordinates.dat.data[:, 1] += y0
    cs = th.coordsys.UTMCoordinateSystem(zone, south=south)
    f = cs.get_mesh_lonlat_function(mesh)
    xy = mesh.coordinates.dat.data_ro
    ll = f.dat.data_ro
    require_equal(ll.shape, xy.shape, 'shape')
    for i in range(len(xy)):
        a = utm(zone, south, ll[i, 0], ll[i, 1])
        require_close(a, xy[i], 'location of node %d' % i, rtol=0, atol=2e-3)
        rec.step()
        rec.state('mesh', zone, south, i)


def refused(th, rec):
    cs = th.coordsys.UTMCoordinateSystem(10)
    for m in (th.UnitCubeMesh(1, 1, 1), th.UnitIntervalMesh(2), th.UnitIcosahedralSphereMesh(0)):
        try:
            cs.get_mesh_lonlat_function(m)
        except ValueError:
            continue
        raise Violation('mesh of dimension {} accepted'.format(m.geometric_dimension))
    for a, b in ((np.array([1., 2.]), 3.), (3., np.array([1., 2.])), (np.zeros(2), np.zeros(3))):
        try:
            cs.to_lonlat(a, b)
        except AssertionError:
            continue
        raise Violation('coordinates of different shape accepted')
    rec.step()
