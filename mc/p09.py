"""P09: interpolation in space."""
import itertools
import numpy as np
from .common import require, require_equal, require_close, Violation, Skip, Scratch, quiet

RULE = ('all point sets chosen from a 3x3 lattice (3-6 points; thorough 3-9) x three scalings x a lattice of locations (interior, edges, data points, '
        'outside) x the basis of all data (one unit value per data point) x fill modes; 3D boxes with and without scaling; gridded files of every '
        'axis order x every placement of the model domain over the grid x every request order; all 2^9 masks of a 3x3 grid; NCOM and ROMS style 3D files '
        'with masks')
ASSUMPTIONS = ['linearity is decided on the basis of the data space and two further data vectors',
               'which triangulation of the source points is used is not fixed: only its defining properties are required']

SCALES = [((1., 1.), (0., 0.)), ((0.1, 0.3), (0.7, -33.3)), ((1/3., 0.25), (-124.3, 45.1))]
NFULL = 9


def groups(tier):
    sizes = [3, 4, 5, 6] if tier == 'quick' else [3, 4, 5, 6, 7, 8, 9]
    gs = [{'kind': 'subsets', 'sizes': sizes, 'scale': i} for i in range(len(SCALES))]
    gs += [{'kind': 'boxes'}, {'kind': 'names'}]
    gs += [{'kind': 'latlon', 'layout': l} for l in ('1d', '1d-desc', '2d')]
    gs += [{'kind': 'masks', 'part': i} for i in range(2)]
    gs += [{'kind': 'ncom'}, {'kind': 'roms'}]
    return gs


def run_group(group, rec):
    import thetis as th
    import thetis.forcing
    quiet()
    with Scratch():
        globals()['g_' + group['kind']](group, rec, th)


# --- scattered points ------------------------------------------------------------

def cross(o, a, b):
    return (a[0]-o[0])*(b[1]-o[1]) - (a[1]-o[1])*(b[0]-o[0])


def hull(pts):
    """Strictly convex hull, counter-clockwise, integer arithmetic."""
    pts = sorted(pts)
    if len(pts) < 3:
        return pts

    def half(ps):
        h = []
        for p in ps:
            while len(h) > 1 and cross(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        return h
    lo, up = half(pts), half(pts[::-1])
    return lo[:-1] + up[:-1]


def where(h, p):
    """1 strictly inside, 0 on the boundary, -1 outside of hull h."""
    r = 1
    for i in range(len(h)):
        c = cross(h[i], h[(i+1) % len(h)], p)
        if c < -1e-6:
            return -1
        if c < 1e-6:
            r = 0
    return r


def g_subsets(group, rec, th):
    from thetis.interpolation import GridInterpolator
    lattice = [(4*i, 4*j) for i in range(3) for j in range(3)]
    for n in group['sizes']:
        for sub in itertools.combinations(lattice, n):
            rec.check(dict(points=sub, scale=group['scale']), one_subset, GridInterpolator, sub, SCALES[group['scale']], rec)


def one_subset(GI, sub, scale, rec):
    h = hull(list(sub))
    tg = [(i, j) for i in range(-2, 11) for j in range(-2, 11)]

    def xy(p):
        a = np.array(p, dtype=float)/4
        return a*np.array(scale[0]) + np.array(scale[1])
    src, trg = xy(sub), xy(tg)
    if len(h) < 3:
        # all points on a line: no triangulation exists
        try:
            GI(src, trg)
        except Exception:
            pass
        else:
            raise Violation('collinear source points are accepted')
        v = GI(src, trg, dont_raise=True, fill_value=-7.)(np.arange(len(sub))*1.)
        require(np.all(v == -7.) and v.shape == (len(tg),), 'collinear points: not the fill value')
        vals = 10. + np.arange(len(sub))
        v = GI(src, trg, dont_raise=True, fill_mode='nearest')(vals)
        check_nearest(sub, tg, range(len(tg)), v, vals, scale)
        rec.state('line')
        return
    pos = [where(h, p) for p in tg]
    inside = np.array([k > 0 for k in pos])
    onb = np.array([k == 0 for k in pos])
    outside = np.array([k < 0 for k in pos])
    node = {p: k for k, p in enumerate(sub)}
    near = GI(src, trg, fill_mode='nearest')
    fills = [GI(src, trg), GI(src, trg, fill_value=-7.)]
    # weights: value of each unit vector
    W = np.array([near(np.eye(len(sub))[k]) for k in range(len(sub))]).T
    for g, fv in zip(fills, (np.nan, -7.)):
        Wf = np.array([g(np.eye(len(sub))[k]) for k in range(len(sub))]).T
        filled = np.all((Wf == fv) | (np.isnan(Wf) & np.isnan(fv)), axis=1)
        require(not np.any(filled & inside), 'fill value inside the data region at {}', first(tg, filled & inside))
        require(np.all(filled[outside]), 'no fill value outside of the data region at {}', first(tg, ~filled & outside))
        ok = ~filled
        require_close(Wf[ok], W[ok], 'weights with fill value and with nearest mode differ', atol=1e-12)
        linear(Wf, ok, sub, src, trg, tg, node, 'fill')
        vec = np.cos(np.arange(len(sub))*1.7)*3
        require_close(g(vec)[ok], (Wf @ vec)[ok], 'not linear in the data', atol=1e-11)
        require_close(g(2*vec - 1)[ok], (2*(Wf @ vec) - 1)[ok], 'not linear in the data', atol=1e-11)
    ok = inside | (onb & ~np.isnan(fills[0](np.zeros(len(sub)))))
    linear(W, ok, sub, src, trg, tg, node, 'nearest')
    # data points give their value, whatever the mode
    for p, k in node.items():
        i = tg.index(p)
        require(abs(W[i, k] - 1) < 1e-9 and np.sum(np.abs(W[i])) - 1 < 1e-9, 'value at data point {} is not the data', p)
    vals = 10. + np.arange(len(sub))
    check_nearest(sub, tg, np.nonzero(outside)[0], near(vals), vals, scale)
    rec.step(len(tg)*len(sub))
    rec.state(sub)


def first(tg, m):
    return [tg[i] for i in np.nonzero(m)[0]][:1]


def linear(W, ok, sub, src, trg, tg, node, what):
    W = W[ok]
    require(np.all(W > -1e-9), what + ': negative weights')
    require(np.all((np.abs(W) > 1e-9).sum(axis=1) <= src.shape[1] + 1), what + ': more data points contribute than a simplex has')
    require_close(W.sum(axis=1), np.ones(ok.sum()), what + ': constant field is not reproduced', atol=1e-9)
    # relative to the origin of the data, where round-off is small
    o, s = src.min(axis=0), np.ptp(src, axis=0)
    require_close(W @ ((src - o)/s), ((trg - o)/s)[ok], what + ': linear field is not reproduced', atol=1e-9)


def check_nearest(sub, tg, idx, v, vals, scale):
    P = np.array(sub)*np.array(scale[0])
    for i in idx:
        d = np.hypot(*(P - np.array(tg[i])*np.array(scale[0])).T)
        k = np.nonzero(vals == v[i])[0]
        require(len(k) == 1 and d[k[0]] <= d.min() + 1e-9, 'location {} outside of the data does not get the nearest value', tg[i])


def g_boxes(group, rec, th):
    from thetis.interpolation import GridInterpolator
    for n, sc, norm, fill in itertools.product([(2, 2, 2), (3, 2, 2), (2, 3, 4), (3, 3, 3)],
                                               [((1., 1., 1.), (0., 0., 0.)), ((0.1, 0.3, 250.), (-124.3, 45.1, -1000.))],
                                               [False, True], [None, 'nearest']):
        rec.check(dict(box=n, scale=sc, normalize=norm, fill=fill), one_box, GridInterpolator, n, sc, norm, fill, rec)


def one_box(GI, n, sc, norm, fill, rec):
    sub = [p for p in itertools.product(*[range(0, 4*k, 4) for k in n])]
    # keep the points in general position: no four corners of a rectangle
    tg = [p for p in itertools.product(*[range(-2, 4*k, 1 if k == 2 else 2) for k in n])]

    def xyz(p):
        return np.array(p)/4.*np.array(sc[0]) + np.array(sc[1])
    src, trg = xyz(sub), xyz(tg)
    g = GI(src, trg, normalize=norm, fill_mode=fill)
    W = np.array([g(np.eye(len(sub))[k]) for k in range(len(sub))]).T
    T = np.array(tg)
    top = 4*(np.array(n) - 1)
    inside = np.all((T > 0) & (T < top), axis=1)
    closed = np.all((T >= 0) & (T <= top), axis=1)
    if fill is None:
        nan = np.isnan(W[:, 0])
        require(not np.any(nan & inside), 'fill value inside the data region at {}', first(tg, nan & inside))
        require(np.all(nan[~closed]), 'no fill value outside of the data region at {}', first(tg, ~nan & ~closed))
        ok = ~nan
    else:
        ok = inside
        P = np.array(sub)*(np.array(sc[0]) if not norm else 1/(np.ptp(T, axis=0)*1.))
        Q = T*(np.array(sc[0]) if not norm else 1/(np.ptp(T, axis=0)*1.))
        for i in np.nonzero(~closed)[0]:
            d = np.sqrt(((P - Q[i])**2).sum(axis=1))
            k = np.nonzero(W[i] == 1)[0]
            require(len(k) == 1 and np.abs(W[i]).sum() == 1 and d[k[0]] <= d.min()*(1 + 1e-9), 'not the nearest value at {}', tg[i])
    linear(W, ok, sub, src, trg, tg, None, 'box')
    vec = np.cos(np.arange(len(sub))*1.7)*3
    require_close(g(vec)[ok], (W @ vec)[ok], 'not linear in the data', atol=1e-11)
    rec.step(len(tg)*len(sub))
    rec.state(n, norm, fill)


# --- gridded files ---------------------------------------------------------------

def plain_coords(th):
    class Plain(th.coordsys.CoordinateSystem):
        """Model coordinates are longitude and latitude."""
        def to_lonlat(self, x, y, positive_lon=False):
            return np.array(x), np.array(y)

        def get_vector_rotator(self, x, y):
            return lambda u, v, i_node=None: (u, v)
    return Plain()


def write_grid(fn, lon, lat, fields, layout='1d', times=(0., 10.), masks=None, std=True):
    """fields: name -> f(lon, lat, t); masks: name -> bool (lat, lon) or (t, lat, lon), True where missing."""
    import netCDF4
    with netCDF4.Dataset(fn, 'w') as d:
        d.createDimension('time', None)
        d.createDimension('y', len(lat))
        d.createDimension('x', len(lon))
        v = d.createVariable('time', 'f8', ('time',))
        v.units = 'seconds since 2000-01-01 00:00:00'
        v.calendar = 'standard'
        v[:] = times
        X, Y = np.meshgrid(lon, lat)
        for name, val, val2 in (('lat', lat, Y), ('lon', lon, X)):
            v = d.createVariable(name, 'f8', ('y', 'x') if layout == '2d' else (('y',) if name == 'lat' else ('x',)))
            v.standard_name = {'lat': 'latitude', 'lon': 'longitude'}[name]
            v[:] = val2 if layout == '2d' else val
        for name, f in fields.items():
            v = d.createVariable(name, 'f8', ('time', 'y', 'x'), fill_value=1e20)
            for k, t in enumerate(times):
                a = np.ma.array(f(X, Y, t)*np.ones_like(X))
                if masks is not None and name in masks:
                    m = np.asarray(masks[name])
                    a = np.ma.array(a, mask=m[k] if m.ndim == 3 else m)
                v[k, :, :] = a


FIELDS = {'one': lambda x, y, t: 1. + t + 0*x, 'east': lambda x, y, t: x + t, 'north': lambda x, y, t: y - t,
          'mix': lambda x, y, t: 3*x - 2*y + 5 + t}


def domain(th, x0, y0, lx, ly, nx=1, ny=1):
    m = th.RectangleMesh(nx, ny, lx, ly)
    m.coordinates.dat.data[:] += np.array([x0, y0])
    return m


def g_latlon(group, rec, th):
    layout = group['layout']
    cs = plain_coords(th)
    lay = '2d' if layout == '2d' else '1d'
    reqs = [['mix'], ['east', 'north'], ['north', 'east'], ['mix', 'one', 'east']]
    for nlon, nlat in ([(3, 4), (5, 3)] if rec.tier == 'quick' else [(3, 4), (5, 3), (2, 2), (6, 6), (2, 7)]):
        lon = -124. + 0.25*np.arange(nlon)
        lat = 45. + 0.5*np.arange(nlat)
        if layout == '1d-desc':
            lat = lat[::-1]
        fn = 'g_%s_%d_%d.nc' % (layout, nlon, nlat)
        write_grid(fn, lon, lat, FIELDS, lay)
        gx = (nlon - 1)*0.25
        gy = (nlat - 1)*0.5
        # every placement of a domain of several sizes over the grid
        for fx, fy, sx, sy in itertools.product([0., 0.3, 0.5, 0.77], [0., 0.25, 0.6], [0.05, 0.2, 1.], [0.05, 0.3, 1.]):
            x0, y0 = -124. + fx*gx, 45. + fy*gy
            lx, ly = sx*gx, sy*gy
            if fx + sx > 1.0001 or fy + sy > 1.0001:
                continue
            rec.check(dict(layout=layout, grid=(nlon, nlat), place=(fx, fy), size=(sx, sy)), one_latlon, th, cs, fn,
                      (x0, y0, lx, ly), reqs, True, rec)
        # reaching out of the grid
        for fx, fy in [(-0.3, 0.2), (0.8, 0.2), (0.2, -0.4), (0.2, 0.9), (-0.5, -0.5)]:
            rec.check(dict(layout=layout, grid=(nlon, nlat), out=(fx, fy)), one_latlon, th, cs, fn,
                      (-124. + fx*gx, 45 + fy*gy, 0.6*gx, 0.6*gy), reqs, False, rec)
    if layout != '1d-desc':
        lon, lat = -124. + np.arange(4.), 45. + np.arange(4.)
        for i, j in itertools.product(range(4), range(4)):
            rec.check(dict(layout=layout, masked=(i, j)), one_latlon_mask, th, cs, lon, lat, lay, i, j, rec)


def one_latlon(th, cs, fn, box, reqs, inside, rec):
    m = domain(th, *box, nx=2, ny=2)
    for fam, deg in (('CG', 1), ('DG', 1), ('DG', 0)) if inside else (('CG', 1),):
        fs = th.get_functionspace(m, fam, deg)
        x, y = th.SpatialCoordinate(m)
        X = th.Function(fs).interpolate(x).dat.data_ro
        Y = th.Function(fs).interpolate(y).dat.data_ro
        for mode in (None, 'nearest'):
            it = th.interpolation.NetCDFLatLonInterpolator2d(fs, cs, fill_mode=mode)
            rd = th.interpolation.NetCDFSpatialInterpolator(it, ['mix', 'one'])
            for req, k in itertools.product(reqs, (1, 0)):
                got = it.interpolate(fn, req, k)
                require_equal(len(got), len(req), 'number of fields')
                for name, g in zip(req, got):
                    want = FIELDS[name](X, Y, 10.*k)
                    g = np.ma.filled(np.ma.asarray(g), 1e36)
                    require_equal(g.shape, X.shape, 'shape')
                    if inside:
                        require_close(g, want, 'field ' + name, atol=1e-8)
                    else:
                        check_out(g, want, name, X, Y, fn, mode, 10.*k)
                    rec.step()
            if inside:
                a, b = rd(fn, 0)
                require_close(a, FIELDS['mix'](X, Y, 0.), 'reader', atol=1e-8)
                require_close(b, FIELDS['one'](X, Y, 0.), 'reader', atol=1e-8)
    rec.state(box)


def check_out(g, want, name, X, Y, fn, mode, t):
    import netCDF4
    with netCDF4.Dataset(fn) as d:
        lon, lat = np.array(d['lon'][:]), np.array(d['lat'][:])
    if lon.ndim == 1:
        lon, lat = np.meshgrid(lon, lat)
    lon, lat = lon.ravel(), lat.ravel()
    data = FIELDS[name](lon, lat, t)*np.ones_like(lon)
    ins = (X > lon.min() - 1e-9) & (X < lon.max() + 1e-9) & (Y > lat.min() - 1e-9) & (Y < lat.max() + 1e-9)
    require_close(g[ins], (want*np.ones_like(X))[ins], 'field {} inside'.format(name), atol=1e-8)
    if mode is None:
        require(np.all(np.isnan(g[~ins])), 'values outside of the data: {}', g)
    else:
        for i in np.nonzero(~ins)[0]:
            d = np.hypot(lon - X[i], lat - Y[i])
            near = data[d <= d.min() + 1e-9]
            require(np.any(np.abs(near - g[i]) < 1e-8), 'location outside of the data gets {} instead of nearest {}', g[i], near)


def one_latlon_mask(th, cs, lon, lat, lay, i, j, rec):
    fn = 'm_%d%d.nc' % (i, j)
    mask = np.zeros((4, 4), dtype=bool)
    mask[j, i] = True
    write_grid(fn, lon, lat, {'mix': FIELDS['mix']}, lay, masks={'mix': mask})
    m = domain(th, -124 + 0.1, 45.1, 2.8, 2.8, nx=7, ny=7)
    fs = th.get_functionspace(m, 'CG', 1)
    x, y = th.SpatialCoordinate(m)
    X = th.Function(fs).interpolate(x).dat.data_ro
    Y = th.Function(fs).interpolate(y).dat.data_ro
    g = th.interpolation.NetCDFLatLonInterpolator2d(fs, cs, fill_mode='nearest').interpolate(fn, ['mix'], 0)[0]
    g = np.ma.filled(np.ma.asarray(g), np.nan)
    far = (abs(X - lon[i]) >= 1) | (abs(Y - lat[j]) >= 1)
    want = FIELDS['mix'](X, Y, 0.)
    require_close(g[far], want[far], 'values away from the missing point', atol=1e-8)
    require(np.all(np.isnan(g) | (np.abs(g) < 1e3)), 'a missing source value contributes: {}', np.nanmax(np.abs(g)), key='P09-latlon-missing')
    rec.state(i, j)
    rec.step(len(X))


def g_names(group, rec, th):
    """The variable found is the one that matches, whatever the order of variables."""
    import netCDF4
    specs = [('a', 'standard_name', 'latitude'), ('b', 'standard_name', 'longitude'), ('c', 'long_name', 'Sea level'), ('lon', None, None)]
    for n, perm in enumerate(itertools.permutations(specs)):
        def one():
            fn = 'n%d.nc' % n
            with netCDF4.Dataset(fn, 'w') as d:
                d.createDimension('x', 1)
                for name, att, val in perm:
                    v = d.createVariable(name, 'f8', ('x',))
                    if att:
                        v.setncattr(att, val)
            get = th.interpolation.get_ncvar_name
            with netCDF4.Dataset(fn) as d:
                require_equal(get(d, 'latitude'), 'a', 'standard name')
                require_equal(get(d, ['foo', 'latitude']), 'a', 'standard name in a list')
                require_equal(get(d, 'longitude'), 'b', 'standard name')
                require_equal(get(d, long_name='sea level'), 'c', 'long name')
                require_equal(get(d, 'foo', 'bar', ['lon']), 'lon', 'variable name')
                for args in (('foo',), ('foo', 'bar'), (None, 'latitude'), ('foo', 'bar', 'baz')):
                    try:
                        get(d, *args)
                    except ValueError:
                        continue
                    raise Violation('{} is found'.format(args))
            rec.state(perm)
            rec.step(9)
        rec.check(dict(order=[p[0] for p in perm]), one)


# --- masked files ------------------------------------------------------------------

def g_masks(group, rec, th):
    cs = plain_coords(th)
    lon, lat = np.array([10., 11., 12.]), np.array([50., 51., 52.])
    m = domain(th, 10.1, 50.1, 1.8, 1.8, nx=2, ny=2)
    fs = th.get_functionspace(m, 'CG', 1)
    x, y = th.SpatialCoordinate(m)
    X = th.Function(fs).interpolate(x).dat.data_ro.copy()
    Y = th.Function(fs).interpolate(y).dat.data_ro.copy()
    for bits in range(512):
        if bits % 2 != group['part']:
            continue
        mask = np.array([(bits >> k) & 1 for k in range(9)], dtype=bool).reshape(3, 3)
        rec.check(dict(mask=bits), one_mask, th, cs, fs, X, Y, lon, lat, mask, rec)
    if group['part'] == 0:
        for a, b in itertools.product(range(9), range(9)):
            rec.check(dict(masks_differ=(a, b)), two_masks, th, cs, fs, X, Y, lon, lat, a, b, rec)


def one_mask(th, cs, fs, X, Y, lon, lat, mask, rec):
    import os
    fn = 'mask.nc'
    write_grid(fn, lon, lat, {k: FIELDS[k] for k in ('mix', 'east')}, masks={'mix': mask, 'east': mask})
    good = [(i, j) for i in range(3) for j in range(3) if not mask[j, i]]
    h = hull([(4*i, 4*j) for i, j in good])
    it = th.forcing.GenericSpatialInterpolator2D(fs, cs)
    try:
        if len(h) < 3:
            try:
                it.interpolate(fn, ['mix'], 0)
            except Exception:
                return
            raise Violation('data on a line are accepted')
        for k, names in ((1, ['mix', 'east']), (0, ['east', 'mix'])):
            got = it.interpolate(fn, names, k)
            for name, g in zip(names, got):
                g = np.ma.filled(np.ma.asarray(g), 1e36)
                want = FIELDS[name](X, Y, 10.*k)
                data = {p: float(FIELDS[name](lon[p[0]], lat[p[1]], 10.*k)) for p in good}
                for n in range(len(X)):
                    p = (4*(X[n] - 10), 4*(Y[n] - 50))
                    w = where(h, p)
                    if w > 0:
                        require_close(g[n], want[n], 'field {} at {}'.format(name, p), atol=1e-8)
                    elif w < 0:
                        d = {q: np.hypot(4*q[0] - p[0], 4*q[1] - p[1]) for q in good}
                        dm = min(d.values())
                        require(any(abs(data[q] - g[n]) < 1e-8 for q in good if d[q] <= dm + 1e-6),
                                'field {} at {} is {}, not the nearest valid value', name, p, g[n])
                    rec.step()
    finally:
        os.remove(fn)
    rec.state(mask.tolist())


def two_masks(th, cs, fs, X, Y, lon, lat, a, b, rec):
    """Fields of one file with different missing points: none of them may contribute."""
    ma, mb = np.zeros(9, dtype=bool), np.zeros(9, dtype=bool)
    ma[a] = mb[b] = True
    write_grid('two.nc', lon, lat, {k: FIELDS[k] for k in ('mix', 'east')}, masks={'mix': ma.reshape(3, 3), 'east': mb.reshape(3, 3)})
    it = th.forcing.GenericSpatialInterpolator2D(fs, cs)
    for name in ('mix', 'east'):
        g = np.ma.filled(np.ma.asarray(it.interpolate('two.nc', [name], 1)[0]), np.nan)
        require(np.all(np.isnan(g) | (np.abs(g) < 1e3)), 'a missing value of field {} contributes: {}', name, np.nanmax(np.abs(g)),
                key='P09-mask-differs')
    rec.step(2)
    rec.state(a, b)


# --- 3D ocean model files ------------------------------------------------------------

def box3d(th, x0, y0, lx, ly, depth, nz=2, nx=1):
    m2 = domain(th, x0, y0, lx, ly, nx, nx)
    m3 = th.ExtrudedMesh(m2, layers=nz, layer_height=1./nz)
    m3.coordinates.dat.data[:, 2] = (m3.coordinates.dat.data_ro[:, 2] - 1)*depth
    return m2, m3


def wants3(th, fs):
    xyz = th.SpatialCoordinate(fs.mesh())
    return [th.Function(fs).interpolate(c).dat.data_ro.copy() for c in xyz]


NCOM_D = 0.125   # degrees; coarser grids than twice the 0.2 degree search box are not meant


def g_ncom(group, rec, th):
    for n, (mask, place) in enumerate(itertools.product(['none', 'corner', 'land', 'bottom', 'side'], [(0.5, 0.5, 1.), (1.1, 0.7, 0.6), (0.2, 1.2, 0.4)])):
        rec.check(dict(ncom=mask, place=place), one_ncom, th, mask, place, n, rec)


def ncom_files(d, mask):
    import netCDF4
    import os
    os.makedirs(d)
    ny, nx, nz = 4, 4, 4
    # the data file holds a window of the full grid, in its own order
    full_lon, full_lat = np.meshgrid(200. + NCOM_D*np.arange(-1., nx + 1), 40. + NCOM_D*np.arange(-1., ny + 1))
    xi, yi = np.arange(1, nx + 1), np.arange(1, ny + 1)
    z = np.array([0., -20., -50., -100.])
    for fn, var, a in (('model_lat.nc', 'Lat', full_lat), ('model_lon.nc', 'Long', full_lon)):
        with netCDF4.Dataset(os.path.join(d, fn), 'w') as f:
            f.createDimension('y', ny + 2)
            f.createDimension('x', nx + 2)
            f.createVariable(var, 'f8', ('y', 'x'), fill_value=1e20)[:] = a
    with netCDF4.Dataset(os.path.join(d, 'model_zm.nc'), 'w') as f:
        f.createDimension('z', nz)
        f.createDimension('y', ny + 2)
        f.createDimension('x', nx + 2)
        f.createVariable('zm', 'f8', ('z', 'y', 'x'), fill_value=1e20)[:] = z[:, None, None]*np.ones((nz, ny + 2, nx + 2))
    m = np.zeros((nz, ny, nx), dtype=bool)
    if mask == 'corner':
        m[:, 0, 0] = True
    elif mask == 'land':
        m[:, :, 3] = True
    elif mask == 'bottom':
        m[3, :, :] = True
    elif mask == 'side':
        m[2:, 0, :] = True
    zz = z.copy()
    zz[0] = 1.5    # the documented shift of the surface level
    lon, lat = full_lon[1:-1, 1:-1], full_lat[1:-1, 1:-1]
    f3 = {'Salinity': lambda x, y, z: 2*x - y + 0.1*z, 'Temperature': lambda x, y, z: -x + 3*y - 0.2*z + 4}
    for day, t in ((1, 0.), (2, 100.)):
        for name, f in f3.items():
            with netCDF4.Dataset(os.path.join(d, '%s_%d.nc' % (name, day)), 'w') as h:
                h.createDimension('X_Index', nx)
                h.createDimension('Y_Index', ny)
                h.createDimension('level', nz)
                h.createVariable('X_Index', 'f8', ('X_Index',))[:] = xi
                h.createVariable('Y_Index', 'f8', ('Y_Index',))[:] = yi
                h.createVariable('level', 'f8', ('level',))[:] = z
                v = h.createVariable(name, 'f8', ('level', 'Y_Index', 'X_Index'), fill_value=1e20)
                v[:] = np.ma.array(f(lon[None], lat[None], zz[:, None, None]) + t, mask=m)
        with netCDF4.Dataset(os.path.join(d, 'ssh_%d.nc' % day), 'w') as h:
            h.createDimension('X_Index', nx)
            h.createDimension('Y_Index', ny)
            h.createVariable('X_Index', 'f8', ('X_Index',))[:] = xi
            h.createVariable('Y_Index', 'f8', ('Y_Index',))[:] = yi
            v = h.createVariable('Surface_Elevation', 'f8', ('Y_Index', 'X_Index'), fill_value=1e20)
            v[:] = np.ma.array(0.5*lon - lat + t, mask=m[0])
    return f3, m, lon, lat, zz


def one_ncom(th, mask, place, n, rec):
    d = 'ncom%d' % n
    f3, m, lon, lat, z = ncom_files(d, mask)
    D = NCOM_D
    m2, m3 = box3d(th, 200. + D*place[0], 40. + D*place[1], D*place[2], D*place[2], 45.)
    cs = plain_coords(th)
    fs3 = th.get_functionspace(m3, 'CG', 1)
    fs2 = th.get_functionspace(m2, 'CG', 1)
    X, Y, Z = wants3(th, fs3)
    it = th.forcing.SpatialInterpolatorNCOM3d(fs3, cs, d)
    it2 = th.forcing.SpatialInterpolatorNCOM2d(fs2, cs, d)
    if mask in ('corner', 'land', 'side'):
        # locations surrounded by valid data
        ok = (X > 200 + D) & (X < 200 + 2*D) & (Y > 40 + D) & (Y < 40 + 3*D)
    else:
        ok = np.ones_like(X, dtype=bool)
    for day, t in ((1, 0.), (2, 100.)):
        for name, f in f3.items():
            g = np.ma.filled(np.ma.asarray(it.interpolate(d + '/%s_%d.nc' % (name, day), [name], 0)[0]), 1e36)
            require_close(g[ok], (f(X, Y, Z) + t)[ok], name, atol=1e-6)
            data = (f(lon[None], lat[None], z[:, None, None]) + t)[~m]
            require(g.min() >= data.min() - 1e-6 and g.max() <= data.max() + 1e-6, '{}: masked values contribute', name)
            rec.step(len(g))
    X2, Y2 = wants3(th, fs2)
    for day, t in ((2, 100.), (1, 0.)):
        g = np.ma.filled(np.ma.asarray(it2.interpolate(d + '/ssh_%d.nc' % day, ['Surface_Elevation'], 0)[0]), 1e36)
        ok2 = np.ones_like(X2, dtype=bool) if mask in ('none', 'bottom', 'side') else (X2 > 200 + D) & (X2 < 200 + 2*D) & (Y2 > 40 + D)
        require_close(g[ok2], (0.5*X2 - Y2 + t)[ok2], 'elevation', atol=1e-6)
        require(np.all(np.abs(g) < 1e3), 'masked elevation contributes')
        rec.step(len(g))
    rec.state(mask, place)


def g_roms(group, rec, th):
    for n, (mask, place, flat) in enumerate(itertools.product(['none', 'corner', 'side'], [(0.5, 0.5, 1.), (1.1, 0.7, 0.6)], [True, False])):
        rec.check(dict(roms=mask, place=place, flat=flat), one_roms, th, mask, place, flat, n, rec)


def one_roms(th, mask, place, flat, n, rec):
    import netCDF4
    fn = 'roms%d.nc' % n
    ny, nx, nz = 4, 5, 4
    lon, lat = np.meshgrid(10. + np.arange(nx), 40. + np.arange(ny))
    h = 100.*np.ones_like(lon) if flat else 80. + 10*(lon - 10) + 5*(lat - 40)
    m = np.ones((ny, nx))
    if mask == 'corner':
        m[0, 0] = 0
    elif mask == 'side':
        m[:, 4] = 0
    s = np.linspace(-1, 0, nz + 1)
    cs_w = -(s**2)
    hc = 20.
    S = (hc*s[:, None, None] + h*cs_w[:, None, None])/(hc + h)
    # the documented ROMS vertical coordinate for a constant elevation of 0.1 m
    zw = 0.1*(1 + S) + h*S
    z = 0.5*(zw[1:] + zw[:-1])
    z[0], z[-1] = zw[0], zw[-1]
    fields = {'salt': lambda x, y, z: 2*x - y + 0.1*z, 'temp': lambda x, y, z: -x + 3*y - 0.2*z + 4}
    with netCDF4.Dataset(fn, 'w') as f:
        for k, v in dict(ocean_time=2, eta=ny, xi=nx, s_rho=nz, s_w=nz + 1).items():
            f.createDimension(k, v)
        f.createVariable('ocean_time', 'f8', ('ocean_time',))[:] = [0., 10.]
        for k, a in dict(lat_rho=lat, lon_rho=lon, mask_rho=m, h=h).items():
            f.createVariable(k, 'f8', ('eta', 'xi'))[:] = a
        f.createVariable('Cs_w', 'f8', ('s_w',))[:] = cs_w
        f.createVariable('s_w', 'f8', ('s_w',))[:] = s
        f.createVariable('hc', 'f8', ())[:] = hc
        f.createVariable('zeta', 'f8', ('ocean_time', 'eta', 'xi'), fill_value=1e37)[:] = np.ma.array(np.zeros((2, ny, nx)), mask=[m == 0]*2)
        for k, func in fields.items():
            v = f.createVariable(k, 'f8', ('ocean_time', 's_rho', 'eta', 'xi'), fill_value=1e37)
            for i in range(2):
                v[i] = np.ma.array(func(lon, lat, z) + 50*i, mask=[m == 0]*nz)
    _, m3 = box3d(th, 10. + place[0], 40. + place[1], place[2], place[2], 60.)
    cs = plain_coords(th)
    fs3 = th.get_functionspace(m3, 'CG', 1)
    X, Y, Z = wants3(th, fs3)
    it = th.forcing.SpatialInterpolatorROMS3d(fs3, cs)
    ok = (X > 11) if mask == 'corner' else np.ones_like(X, dtype=bool)
    for i, names in ((1, ['temp', 'salt']), (0, ['salt', 'temp'])):
        got = it.interpolate(fn, names, i)
        for name, g in zip(names, got):
            g = np.ma.filled(np.ma.asarray(g), 1e36)
            require_close(g[ok], (fields[name](X, Y, Z) + 50*i)[ok], name, atol=1e-6)
            data = (fields[name](lon, lat, z) + 50*i)[:, m == 1]
            require(g.min() >= data.min() - 1e-6 and g.max() <= data.max() + 1e-6, '{}: masked values contribute', name)
            rec.step(len(g))
    rec.state(mask, place, flat)
