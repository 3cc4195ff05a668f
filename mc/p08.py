"""P08: linear interpolation in time."""
import datetime
import itertools
import os
import shutil
import tempfile
import numpy as np
from .common import require, require_equal, require_close, Violation, Scratch, quiet
from .p07 import UTC, compositions

RULE = ('all query sequences up to length 4 (5) over a lattice of times on, between and outside of the records of regular and irregular series, '
        'with scalar/array/several variables, in memory and in all splittings in files; returned arrays are overwritten by the caller between '
        'queries; every answer is compared with the exact interpolant')
ASSUMPTIONS = ['a query exactly on the last record may be refused']

SERIES = [[0., 1., 2.], [0., 1., 4., 4.5], [-3., 10., 10.125]]


def groups(tier):
    g = [{'kind': 'mem', 'series': s, 'shape': sh} for s in range(len(SERIES)) for sh in range(3)]
    g += [{'kind': 'files', 'series': s, 'layout': i} for s in range(len(SERIES)) for i in range(3)]
    return g


def run_group(group, rec):
    import thetis as th  # noqa
    quiet()
    with Scratch():
        globals()['g_' + group['kind']](group, rec)


def lattice(series):
    q = [series[0] - 0.5]
    for i, t in enumerate(series):
        q.append(t)
        if i + 1 < len(series):
            q.append(t + 0.25*(series[i+1] - t))
    q.append(0.5*(series[-1] + series[-2]))
    q.append(series[-1] + 0.5)
    return q


def record(i, shape, var):
    a = np.cos(np.arange(int(np.prod(shape)) or 1)*2.1 + 5*i + 3*var)*10**(var % 3) + i*i
    return a.reshape(shape) if shape else float(a[0])


def expected(series, shape, var, t):
    for i in range(len(series) - 1):
        if series[i] <= t <= series[i+1]:
            a = (t - series[i])/(series[i+1] - series[i])
            return (1 - a)*np.asarray(record(i, shape, var)) + a*np.asarray(record(i+1, shape, var))
    return None


def g_mem(group, rec):
    series = SERIES[group['series']]
    shape = [(), (3,), (2, 2)][group['shape']]
    n = 4 if rec.tier == 'quick' else 5
    q = lattice(series)
    for seq in itertools.product(range(len(q)), repeat=n):
        rec.check(dict(series=series, shape=shape, seq=[q[i] for i in seq]), one_mem, series, shape, [q[i] for i in seq], rec)


def one_mem(series, shape, seq, rec):
    from thetis.interpolation import LinearTimeInterpolator, TimeSearch, FileTreeReader
    nvars = 2

    class Search(TimeSearch):
        def find(self, time, previous=False):
            c = [i for i, x in enumerate(series) if (x <= time if previous else x > time)]
            if not c:
                raise Exception('out of bounds')
            i = c[-1] if previous else c[0]
            return ('mem', i, series[i])

    class Reader(FileTreeReader):
        def __call__(self, fn, i):
            return [np.array(record(i, shape, v)) for v in range(nvars)]
    f = LinearTimeInterpolator(Search(), Reader())
    run_queries(f, series, [shape]*nvars, seq, rec, [1]*nvars)


def run_queries(f, series, shapes, seq, rec, scalars, keep=False):
    for t in seq:
        want = [expected(series, sh, v, t) for v, sh in enumerate(shapes)]
        try:
            got = f(t)
        except Exception as e:
            if want[0] is not None and t != series[-1]:
                raise Violation('query {} inside the data fails: {}: {}'.format(t, type(e).__name__, e))
            continue
        if want[0] is None:
            raise Violation('query {} beyond the data gives {}'.format(t, got))
        require_equal(len(got), len(shapes), 'number of variables')
        for v, sh in enumerate(shapes):
            g = np.asarray(got[v], dtype=float)
            require_equal(g.size, int(np.prod(sh)), 'size of variable %d' % v)
            require_close(g.reshape(sh), scalars[v]*want[v], 'variable %d at t=%r' % (v, t), rtol=1e-7, atol=1e-6)
        # the caller owns what it got
        for g in got:
            if isinstance(g, np.ndarray) and g.flags.writeable:
                g[...] = -9e9
        rec.step()
    rec.state(series, str(shapes), seq[-1], seq[-2] if len(seq) > 1 else None)


def g_files(group, rec):
    series = SERIES[group['series']]
    layout = group['layout']
    shapes = [[(), ()], [(3,), (3,)], [(2, 2)]][layout]
    q = lattice(series)
    n = 2 if rec.tier == 'quick' else 3
    init = datetime.datetime(2011, 3, 11, 5, 46, tzinfo=UTC)
    for parts in compositions(len(series)):
        for pos in range(1 + len(shapes[0])):
            d = tempfile.mkdtemp(dir='.')
            sub = (len(parts) + pos + layout) % 2 == 0    # equal file names in one directory per file
            for j, p in enumerate(parts):
                os.makedirs(os.path.join(d, 'p%d' % j if sub else '.'), exist_ok=True)
                write(os.path.join(d, 'p%d' % j, 'f.nc') if sub else os.path.join(d, 'f%d.nc' % j), series, p, shapes, pos, init)
            for scal in (None, [2.0, -0.5][:len(shapes)]):
                for seq in itertools.product(range(len(q)), repeat=n):
                    rec.check(dict(series=series, shapes=shapes, parts=parts, timedim=pos, subdirs=sub, scalars=scal, seq=[q[i] for i in seq]),
                              one_files, os.path.join(d, '*', 'f.nc') if sub else os.path.join(d, '*.nc'), series, shapes, scal, [q[i] for i in seq], init, rec)
            shutil.rmtree(d)
            if rec.stop:
                return


def write(fn, series, ids, shapes, pos, init):
    import netCDF4
    with netCDF4.Dataset(fn, 'w') as d:
        d.createDimension('time', len(ids))
        v = d.createVariable('time', 'f8', ('time',))
        v.units = 'seconds since ' + init.strftime('%Y-%m-%d %H:%M:%S')
        v.calendar = 'standard'
        v[:] = [series[i] for i in ids]
        dims = []
        for k, n in enumerate(shapes[0]):
            d.createDimension('d%d' % k, n)
            dims.append('d%d' % k)
        dims = dims[:pos] + ['time'] + dims[pos:]
        for k, sh in enumerate(shapes):
            x = d.createVariable('v%d' % k, 'f8', tuple(dims))
            x[...] = np.stack([np.asarray(record(i, sh, k)) for i in ids], axis=pos)


def one_files(files, series, shapes, scal, seq, init, rec):
    from thetis.interpolation import NetCDFTimeSeriesInterpolator
    f = NetCDFTimeSeriesInterpolator(files, ['v%d' % k for k in range(len(shapes))], init, scalars=scal, allow_gaps=True)
    run_queries(f, series, shapes, seq, rec, scal or [1]*len(shapes))
