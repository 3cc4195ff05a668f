"""P04: state files and visualization files."""
import datetime
import glob
import itertools
import os
import re
import shutil
import tempfile
import numpy as np
from .common import require, require_equal, require_close, Violation, Scratch, quiet
from . import models

RULE = ('all operation sequences up to depth 4 (5) over {export, export as number, set next number, load} on one writer and over two '
        'writers of two managers, for state files and visualization files; after every sequence the whole directory is read back and '
        'compared with a dictionary model; all function spaces x time stamps x dates x numbers for the round trip; 2D and 3D restart states')
ASSUMPTIONS = ['one process']

SPACES2D = [('CG', 1, False), ('CG', 2, False), ('DG', 0, False), ('DG', 1, False), ('DG', 1, True), ('RT', 1, False), ('BDM', 1, False),
            ('CG', 1, True), ('DG', 2, True)]
SPACES3D = [('CG', 1, 'CG', 1, False, False), ('DG', 1, 'DG', 1, False, False), ('DG', 1, 'DG', 1, True, False), ('DG', 0, 'DG', 0, False, False),
            ('DG', 1, 'CG', 2, False, False), ('RT', 1, 'DG', 1, False, True), ('CG', 1, 'DG', 0, False, False)]


def groups(tier):
    g = [{'kind': 'roundtrip', 'dim': 2}, {'kind': 'roundtrip', 'dim': 3}]
    g += [{'kind': 'seq', 'first': a} for a in SEQ_OPS]
    g += [{'kind': 'vtkseq', 'first': a} for a in VTK_OPS]
    g += [{'kind': 'managers', 'type': t, 'slice': [i, 4]} for t in ('hdf5', 'vtk') for i in range(4)]
    g += [{'kind': 'restart2d'}, {'kind': 'restart3d', 'turb': 0}, {'kind': 'restart3d', 'turb': 1}, {'kind': 'visu'}]
    return g


def run_group(group, rec):
    import thetis as th
    quiet()
    with Scratch():
        globals()['g_' + group['kind']](group, rec, th)


def ck_mesh(th, base):
    """Write and read back, so that functions can be loaded on it."""
    d = tempfile.mkdtemp(dir='.')
    fn = os.path.join(d, 'm.h5')
    with th.CheckpointFile(fn, 'w') as f:
        f.save_mesh(base)
    return th.read_mesh_from_checkpoint(fn)


def pattern(n, seed):
    return np.sin(np.arange(n)*1.7 + 13.*seed)*10.**(seed % 5 - 2) + seed


def fill(f, seed):
    d = f.dat.data
    d[...] = pattern(d.size, seed).reshape(d.shape)


# --- round trip ---------------------------------------------------------------

def g_roundtrip(group, rec, th):
    mesh = ck_mesh(th, th.RectangleMesh(2, 2, 3., 2.))
    if group['dim'] == 3:
        m3 = th.ExtrudedMesh(mesh, 2, 0.5)
        m3.name = 'ext'
        base = tempfile.mkdtemp(dir='.')
        with th.CheckpointFile(os.path.join(base, 'm.h5'), 'w') as f:
            f.save_mesh(m3)
        with th.CheckpointFile(os.path.join(base, 'm.h5'), 'r') as f:
            mesh = f.load_mesh('ext')
        spaces = SPACES3D
    else:
        spaces = SPACES2D
    utc = datetime.timezone.utc
    dates = [None, datetime.datetime(2020, 2, 29, 23, 59, 59, 999999, tzinfo=utc),
             datetime.datetime(1999, 12, 31, 0, 0, tzinfo=datetime.timezone(datetime.timedelta(hours=-9, minutes=-30)))]
    times = [0.0, 0.1, 1e9 + 1./3, -5.0]
    for sp in spaces:
        fam = sp[0]
        if group['dim'] == 2:
            V = th.get_functionspace(mesh, fam, sp[1], vector=sp[2])
        elif sp[5]:
            V = th.get_functionspace(mesh, fam, sp[1], sp[2], sp[3], hdiv=True)
        else:
            V = th.get_functionspace(mesh, fam, sp[1], sp[2], sp[3], vector=sp[4])
        for i, (t, date, ix) in enumerate(itertools.product(times, dates, [0, 7, 99999, 123456])):
            if ix > 7 and date is not None:
                continue
            case = dict(space=list(sp), time=t, date=str(date), number=ix)
            rec.check(case, one_roundtrip, th, V, t, date, ix, i, rec)
        rec.check(dict(space=list(sp), notime=True), one_notime, th, V, rec)
        if group['dim'] == 2 and sp in SPACES2D[:4]:
            rec.check(dict(space=list(sp), mismatch=True), one_mismatch, th, mesh, V, rec)


def sp_exact(V):
    """Stored by point values (others go through another basis)."""
    return V.ufl_element().family() not in ('Raviart-Thomas', 'Brezzi-Douglas-Marini', 'HDiv', 'EnrichedElement')


def one_roundtrip(th, V, t, date, ix, seed, rec):
    from thetis.exporter import HDF5Exporter
    d = tempfile.mkdtemp(dir='.')
    try:
        f = th.Function(V, name='thing_2d')
        fill(f, seed)
        want = f.dat.data_ro.copy()
        e = HDF5Exporter(V, d, 'Thing', next_export_ix=ix, include_time=True, initial_time=date)
        e.export(f, time=t)
        require_equal(sorted(os.listdir(d)), ['Thing_%05d.h5' % ix], 'files')
        fill(f, seed + 1)
        g = th.Function(V, name='thing_2d')
        meta = HDF5Exporter(V, d, 'Thing').load(ix, g)
        require_close(g.dat.data_ro, want, 'values read back', rtol=1e-12, atol=1e-12*np.abs(want).max() if sp_exact(V) else 1e-9*np.abs(want).max())
        require_equal(float(meta['time']), t, 'time stamp')
        if date is None:
            require(meta['initial_time_iso'] is None, 'initial date {}', meta['initial_time_iso'])
        else:
            require(meta['initial_time_iso'] == date and meta['initial_time_iso'].utcoffset() == date.utcoffset(),
                    'initial date {} instead of {}', meta['initial_time_iso'], date)
        rec.step(2)
        rec.state('rt', str(V.ufl_element()), t, str(date), ix)
    finally:
        shutil.rmtree(d)


def one_notime(th, V, rec):
    """Without time stamps nothing is reported; a missing time is refused."""
    from thetis.exporter import HDF5Exporter
    d = tempfile.mkdtemp(dir='.')
    try:
        f = th.Function(V, name='thing_2d')
        fill(f, 3)
        e = HDF5Exporter(V, d, 'Thing')
        e.export(f)
        g = th.Function(V, name='thing_2d')
        meta = e.load(0, g)
        require_close(g.dat.data_ro, f.dat.data_ro, 'values read back', rtol=1e-9, atol=1e-6)
        require(meta.get('time') is None and meta.get('initial_time_iso') is None, 'time stamp {} in a file without', meta)
        e = HDF5Exporter(V, d, 'Thing', include_time=True)
        try:
            e.export(f)
        except ValueError:
            return
        raise Violation('missing time stamp accepted')
    finally:
        shutil.rmtree(d)


def one_mismatch(th, mesh, V, rec):
    from thetis.exporter import HDF5Exporter
    other = th.get_functionspace(mesh, 'DG', 2)
    d = tempfile.mkdtemp(dir='.')
    try:
        e = HDF5Exporter(V, d, 'Thing')
        for op in (lambda: e.export(th.Function(other, name='thing_2d')), lambda: e.load(0, th.Function(other, name='thing_2d'))):
            try:
                op()
            except AssertionError:
                continue
            raise Violation('field of another function space accepted')
        require_equal(os.listdir(d), [], 'files written by a refused export')
        # no file under that number
        try:
            e.load(4, th.Function(V, name='thing_2d'))
        except Exception:
            return
        raise Violation('load of a number never exported succeeds')
    finally:
        shutil.rmtree(d)


# --- operation sequences: one writer -----------------------------------------

SEQ_OPS = ['E', 'A0', 'A3', 'S0', 'S2', 'L']


def g_seq(group, rec, th):
    mesh = ck_mesh(th, th.RectangleMesh(1, 1, 3., 2.))
    V = th.get_functionspace(mesh, 'DG', 1)
    depth = 4 if rec.tier == 'quick' else 5
    for rest in itertools.product(SEQ_OPS, repeat=depth - 1):
        seq = [group['first']] + list(rest)
        rec.check(seq, one_seq, th, V, seq, rec)


def one_seq(th, V, seq, rec):
    from thetis.exporter import HDF5Exporter
    d = tempfile.mkdtemp(dir='.')
    try:
        f = th.Function(V, name='thing_2d')
        g = th.Function(V, name='thing_2d')
        e = HDF5Exporter(V, d, 'Thing', include_time=True)
        model, nxt, k = {}, 0, 0
        for op in seq:
            k += 1
            if op in ('E', 'A0', 'A3'):
                fill(f, k)
                if op == 'E':
                    ix = nxt
                    e.export(f, time=0.5*k)
                else:
                    ix = int(op[1:])
                    e.export_as_index(ix, f, time=0.5*k)
                model[ix] = (k, 0.5*k)
                nxt = ix + 1
            elif op[0] == 'S':
                nxt = int(op[1:])
                e.set_next_export_ix(nxt)
            elif op == 'L':
                if not model:
                    continue
                ix = sorted(model)[-1]
                m = e.load(ix, g)
                require(np.array_equal(g.dat.data_ro, pattern(g.dat.data_ro.size, model[ix][0])), 'wrong values from number {}', ix)
                require_equal(float(m['time']), model[ix][1], 'time of number %d' % ix)
            require_equal(sorted(os.listdir(d)), sorted('Thing_%05d.h5' % i for i in model), 'files')
            rec.step()
            rec.state('seq', sorted(model.items()), nxt)
        e2 = HDF5Exporter(V, d, 'Thing')
        for ix, (s, t) in model.items():
            m = e2.load(ix, g)
            require(np.array_equal(g.dat.data_ro, pattern(g.dat.data_ro.size, s)), 'number {} does not hold what was exported last under it', ix)
            require_equal(float(m['time']), t, 'time of number %d' % ix)
    finally:
        shutil.rmtree(d)


# --- visualization files ---------------------------------------------------------

def read_pvd(fn):
    with open(fn) as f:
        s = f.read()
    return [(float(t), p) for t, p in re.findall(r'<DataSet timestep="([^"]*)"[^>]*file="([^"]*)"', s)]


def read_vtu(fn):
    """Points and point data of a VTU file with raw appended data."""
    with open(fn, 'rb') as f:
        raw = f.read()
    i = raw.index(b'<AppendedData')
    head = raw[:i].decode()
    j = raw.index(b'_', raw.index(b'>', i)) + 1
    types = {'Float64': np.float64, 'Float32': np.float32, 'Int32': np.int32, 'UInt8': np.uint8, 'Int64': np.int64}

    def arr(tag):
        a = dict(re.findall(r'(\w+)="([^"]*)"', tag))
        o = j + int(a['offset'])
        n = int(np.frombuffer(raw[o:o + 4], np.uint32)[0])
        d = np.frombuffer(raw[o + 4:o + 4 + n], types[a['type']])
        nc = int(a['NumberOfComponents'] or 1)
        return a['Name'], d.reshape(-1, nc) if nc > 1 else d
    pts = arr(re.search(r'<Points>\s*(<DataArray[^>]*>)', head).group(1))[1]
    pd = re.search(r'<PointData.*?</PointData>', head, re.S)
    data = dict(arr(t) for t in re.findall(r'<DataArray[^>]*>', pd.group(0)))
    return pts, data


VTK_OPS = ['f', 'g', 'S0', 'S2', 'S7']


def lin(th, V, c):
    x = th.SpatialCoordinate(V.mesh())
    return th.Function(V).interpolate(c[0] + c[1]*x[0] + c[2]*x[1])


def coeffs(k):
    return (1.0*k, 0.25*k - 1, 3.0 - k)


def g_vtkseq(group, rec, th):
    mesh = th.RectangleMesh(1, 1, 3., 2.)
    V = th.get_functionspace(mesh, 'DG', 1)
    base = [lin(th, V, (1, 0, 0)).dat.data_ro.copy(), lin(th, V, (0, 1, 0)).dat.data_ro.copy(), lin(th, V, (0, 0, 1)).dat.data_ro.copy()]
    depth = 4 if rec.tier == 'quick' else 5
    for start, project, names in ((0, False, 'ab'), (3, False, 'aa'), (0, True, 'aa'), (1, True, 'ab')):
        for rest in itertools.product(VTK_OPS, repeat=depth - 1):
            seq = [group['first']] + list(rest)
            rec.check(dict(start=start, project=project, names=names, seq=seq), one_vtkseq, th, V, base, start, project, names, seq, rec)


def one_vtkseq(th, V, base, start, project, names, seq, rec):
    from thetis.exporter import VTKExporter, get_visu_space
    d = tempfile.mkdtemp(dir='.')
    try:
        fs = {'f': th.Function(V, name=names[0]), 'g': th.Function(V, name=names[1])}
        e = VTKExporter(get_visu_space(V), 'Short name', d, 'Thing', next_export_ix=start, project_output=project)
        nxt, model, order = start, {}, []
        for k, op in enumerate(seq):
            if op[0] == 'S':
                nxt = int(op[1:])
                e.set_next_export_ix(nxt)
            else:
                c = coeffs(k)
                fs[op].dat.data[:] = sum(ci*b for ci, b in zip(c, base))
                other = fs['g' if op == 'f' else 'f']
                other.dat.data[:] = -77.0
                e.export(fs[op])
                model[nxt] = c
                order.append(nxt)
                nxt += 1
            rec.step()
            rec.state('vtk', sorted(model.items()), order, nxt)
        if not order:
            return
        pvd = os.path.join(d, 'Thing', 'Thing.pvd')
        got = read_pvd(pvd)
        require_equal([t for t, _ in got], [float(i) for i in order], 'time steps of the series')
        require_equal([p for _, p in got], [os.path.join('Thing', 'Thing_%d.vtu' % i) for i in order], 'files of the series')
        files = sorted(os.listdir(os.path.join(d, 'Thing', 'Thing')))
        require_equal(files, sorted('Thing_%d.vtu' % i for i in model), 'files written')
        for i, c in model.items():
            pts, data = read_vtu(os.path.join(d, 'Thing', 'Thing', 'Thing_%d.vtu' % i))
            require_equal(list(data), ['Short name'], 'name of the field')
            require_close(data['Short name'], c[0] + c[1]*pts[:, 0] + c[2]*pts[:, 1], 'values of export %d' % i, rtol=1e-9, atol=1e-9)
    finally:
        shutil.rmtree(d)


def g_visu(group, rec, th):
    """Every kind of field is shown with its values at the right points."""
    from thetis.exporter import VTKExporter, get_visu_space
    mesh = th.RectangleMesh(2, 2, 3., 2.)
    m3 = th.ExtrudedMesh(mesh, 2, 0.5)
    spaces = [(2, sp, th.get_functionspace(mesh, sp[0], sp[1], vector=sp[2])) for sp in SPACES2D if sp[0] not in ('RT', 'BDM')]
    spaces += [(3, sp, th.get_functionspace(m3, sp[0], sp[1], sp[2], sp[3], vector=sp[4])) for sp in SPACES3D if not sp[5] and sp[0] != 'CR']
    for name in ('Thing', 'T.pvd', 'pvd', 'a.b'):
        for dim, sp, V in spaces:
            for project in (False, True):
                if name != 'Thing' and (sp != SPACES2D[0] or project):
                    continue
                if 0 in (sp[1], sp[3] if dim == 3 else 1) and project:
                    continue
                rec.check(dict(space=list(sp), project=project, name=name), one_visu, th, V, dim, sp, project, name, rec)


def one_visu(th, V, dim, sp, project, name, rec):
    from thetis.exporter import VTKExporter, get_visu_space
    d = tempfile.mkdtemp(dir='.')
    try:
        x = th.SpatialCoordinate(V.mesh())
        const = 0 in (sp[1], sp[3] if dim == 3 else 1)
        fun = (lambda p, i: 2.0 + i + 0*p[0]) if const else (lambda p, i: 2.0 + i + (0.5 - i)*p[0] - p[1] + (0.7*p[2] if dim == 3 else 0))
        n = V.value_shape[0] if V.value_shape else 0
        f = th.Function(V, name='x')
        rest = V.mesh().coordinates.dat.data_ro.copy()
        e = VTKExporter(get_visu_space(V), 'Shown', d, name, project_output=project)
        stem = name[:-4] if name.endswith('.pvd') else name
        try:
            for k, stretch in enumerate((1., 1.5)):      # the mesh may move between exports
                V.mesh().coordinates.dat.data[:, -1] = rest[:, -1]*stretch
                f.interpolate(th.as_vector([fun(x, i) for i in range(n)]) if n else fun(x, 0))
                e.export(f)
                pvds = glob.glob(os.path.join(d, '**', '*.pvd'), recursive=True)
                pvds = [p for p in pvds if os.path.isfile(p)]
                require_equal([os.path.basename(p) for p in pvds], [stem + '.pvd'], 'series files')
                rows = read_pvd(pvds[0])
                require_equal(len(rows), k + 1, 'entries in the series')
                pts, data = read_vtu(os.path.join(os.path.dirname(pvds[0]), rows[k][1]))
                val = data['Shown']
                want = np.stack([fun(pts.T, i) + 0*pts[:, 0] for i in range(n)], 1) if n else fun(pts.T, 0) + 0*pts[:, 0]
                require_close(val[:, :n] if n else val, want, 'values shown', rtol=1e-8, atol=1e-8)
        finally:
            V.mesh().coordinates.dat.data[:] = rest
        rec.step()
        rec.state('visu', list(sp), project, name)
    finally:
        shutil.rmtree(d)


# --- managers --------------------------------------------------------------------

MAN_OPS = ['e1', 'e2', 'a1', 'a2', 's1', 'm']


def g_managers(group, rec, th):
    mesh = ck_mesh(th, th.RectangleMesh(1, 1, 3., 2.))
    V = th.get_functionspace(mesh, 'DG', 1)
    P1 = th.get_functionspace(mesh, 'CG', 1)
    depth = 4 if rec.tier == 'quick' else 5
    typ = group['type']
    for seq in itertools.product(MAN_OPS, repeat=depth):
        if 'e1' not in seq and 'e2' not in seq:
            continue
        rec.check(list(seq), one_managers, th, V, P1, typ, list(seq), rec)


def one_managers(th, V, P1, typ, seq, rec):
    from thetis.exporter import ExportManager, HDF5Exporter
    d = tempfile.mkdtemp(dir='.')
    try:
        f, g, h = (th.Function(V, name='f_2d'), th.Function(P1, name='g_2d'), th.Function(V, name='h_2d'))
        fns = {'f_2d': f, 'g_2d': g, 'h_2d': h}
        meta = {'f_2d': {'shortname': 'F field', 'filename': 'Ffile'}, 'g_2d': {'shortname': 'G field', 'filename': 'Gfile'}}
        calls = []
        mans, model = {}, {}
        given = {'f_2d': f, 'g_2d': g}
        for i, fields in ((1, ['f_2d', 'g_2d']), (2, ['f_2d'])):
            mans[i] = ExportManager(os.path.join(d, 'm%d' % i), list(fields), given, meta, export_type=typ, next_export_ix=(0 if i == 1 else 5),
                                    include_time=True)
            model[i] = {k: [0 if i == 1 else 5, {}, False] for k in fields}
        names = {'f_2d': 'Ffile', 'g_2d': 'Gfile', 'h_2d': 'Hfile'}
        cur = {'f_2d': 0., 'g_2d': 0., 'h_2d': 0.}
        val = 0

        def pre(i):
            def p():
                calls.append(i)
                h.assign(h.dat.data_ro.reshape(-1)[0] + 100.)
            return p
        for op in seq:
            val += 1
            if op[0] == 'e':
                i = int(op[1])
                ncalls = list(calls)
                mans[i].export(time=1.5*val)
                want_calls = list(ncalls)
                for k, st in model[i].items():
                    if st[2]:
                        want_calls.append(i)
                        cur['h_2d'] += 100.
                    st[1][st[0]] = (cur[k], 1.5*val)
                    st[0] += 1
                require_equal(calls, want_calls, 'pre-processors run')
            elif op[0] == 'a':
                i = int(op[1])
                if 'h_2d' in model[i]:
                    continue
                mans[i].add_export('h_2d', h, export_type=typ, next_export_ix=2, shortname='H field', filename='Hfile',
                                   preproc_func=pre(i) if i == 1 else None)
                model[i]['h_2d'] = [2, {}, i == 1]
            elif op == 's1':
                mans[1].set_next_export_ix(9)
                for st in model[1].values():
                    st[0] = 9
            elif op == 'm':
                for k, fn in fns.items():
                    cur[k] = cur[k] + val
                    fn.assign(cur[k])
            rec.step()
            rec.state('man', typ, str(sorted((i, k, st[0], sorted(st[1].items())) for i in model for k, st in model[i].items())))
        require_equal(sorted(given), ['f_2d', 'g_2d'], 'dictionary of fields given by the user')
        for i in model:
            for k, st in model[i].items():
                fn = fns[k]
                if typ == 'hdf5':
                    got = sorted(p for p in os.listdir(os.path.join(d, 'm%d' % i)) if p.startswith(names[k]))
                    require_equal(got, sorted('%s_%05d.h5' % (names[k], n) for n in st[1]), 'files of %s, manager %d' % (k, i))
                    e = HDF5Exporter(fn.function_space(), os.path.join(d, 'm%d' % i), names[k])
                    t = th.Function(fn.function_space(), name=k)
                    for n, (v, tm) in st[1].items():
                        m = e.load(n, t)
                        require_close(t.dat.data_ro, v + 0*t.dat.data_ro, 'values of %s_%d, manager %d' % (k, n, i))
                        require_equal(float(m['time']), tm, 'time of %s_%d' % (k, n))
                else:
                    base = os.path.join(d, 'm%d' % i, names[k])
                    if not st[1]:
                        continue
                    files = sorted(os.listdir(os.path.join(base, names[k])))
                    require_equal(files, sorted('%s_%d.vtu' % (names[k], n) for n in st[1]), 'files of %s, manager %d' % (k, i))
                    for n, (v, tm) in st[1].items():
                        pts, data = read_vtu(os.path.join(base, names[k], '%s_%d.vtu' % (names[k], n)))
                        require_equal(list(data), [names[k][0] + ' field'], 'name of the field')
                        a = list(data.values())[0]
                        require_close(a, v + 0*a, 'values of %s_%d, manager %d' % (k, n, i))
    finally:
        shutil.rmtree(d)


# --- restart states ------------------------------------------------------------------

def g_restart2d(group, rec, th):
    mesh = ck_mesh(th, th.RectangleMesh(2, 1, 20., 10.))
    for fam, tr, k in itertools.product(['dg-dg', 'rt-dg', 'dg-cg', 'bdm-dg'], [0.0, 7.5], [0, 3]):
        rec.check(dict(family=fam, time=tr, number=k), one_restart2d, th, mesh, fam, tr, k, rec)


def one_restart2d(th, mesh, fam, t, k, rec):
    d = tempfile.mkdtemp(dir='.')
    try:
        want = None
        for phase in (0, 1):
            s = models.solver2d(mesh=mesh, out=d, element_family=fam, no_exports=False, hdf5=['elev_2d', 'uv_2d'], stepper='CrankNicolson')
            s.initialize()
            if phase == 0:
                s.assign_initial_conditions(elev=th.Constant(0.1))
                fill(s.fields.elev_2d, k)
                fill(s.fields.uv_2d, k + 1)
                want = [s.fields[n].dat.data_ro.copy() for n in ('elev_2d', 'uv_2d')]
                s.simulation_time = t
                for e in s.exporters.values():
                    e.set_next_export_ix(k)
                s.i_export = k
                s.export(time=t)
            else:
                s.load_state(k)
                got = [s.fields[n].dat.data_ro.copy() for n in ('elev_2d', 'uv_2d')]
                for a, b in zip(got, want):
                    require_close(a, b, 'restored field', rtol=1e-10, atol=1e-9)
                require_equal(float(s.simulation_time), t, 'time')
                require_equal(s.i_export, k, 'export number')
        rec.step(2)
        rec.state('restart2d', fam, t, k)
    finally:
        shutil.rmtree(d)


def g_restart3d(group, rec, th):
    mesh = ck_mesh(th, th.RectangleMesh(2, 1, 2000., 1000.))
    fams = ['dg-dg', 'rt-dg'] if rec.tier == 'thorough' or not group['turb'] else ['dg-dg']
    for fam, ale, k in itertools.product(fams, [True, False], [0, 3]):
        rec.check(dict(family=fam, ale=ale, number=k, turb=group['turb']), one_restart3d, th, mesh, fam, ale, k, bool(group['turb']), rec)


def one_restart3d(th, mesh, fam, ale, k, turb, rec):
    d = tempfile.mkdtemp(dir='.')
    try:
        names = ['elev_2d', 'uv_2d', 'uv_3d', 'salt_3d', 'temp_3d'] + (['tke_3d', 'psi_3d'] if turb else [])
        want, t = {}, 50.0*k
        for phase in (0, 1):
            P1 = th.get_functionspace(mesh, 'CG', 1)
            b = th.Function(P1, name='bathymetry').assign(20.)
            s = th.solver.FlowSolver(mesh, b, 2)
            o = s.options
            o.element_family = fam
            o.timestepper_type = 'SSPRK22'
            o.timestepper_options.use_automatic_timestep = False
            o.timestep = 10.
            o.timestep_2d = 10.
            o.simulation_export_time = 50.
            o.simulation_end_time = 100.
            o.output_directory = d
            o.fields_to_export = []
            o.fields_to_export_hdf5 = names
            o.use_ale_moving_mesh = ale
            o.solve_salinity = True
            o.solve_temperature = True
            o.use_baroclinic_formulation = False
            o.use_limiter_for_tracers = False
            o.use_limiter_for_velocity = False
            o.use_turbulence = turb
            o.use_bottom_friction = False
            s.initialize()
            if phase == 0:
                x, y, z = th.SpatialCoordinate(s.mesh)
                X = th.SpatialCoordinate(s.mesh2d)
                s.assign_initial_conditions(elev=0.1 + 0.1*X[0]/2000, salt=20 + x/500 + z/10, temp=5 + y/1000 + z*z/100)
                fill(s.fields.elev_2d, 0)
                s.fields.elev_2d.assign(0.1*s.fields.elev_2d)
                # depth-averaged velocity and deviation as the time loop leaves them
                s.fields.uv_2d.assign(0.)
                s.fields.uv_3d.project(th.as_vector((0.1 + x/20000, 0.05 + 0.01*z, 0.0*z)))
                fill(s.fields.salt_3d, 3)
                fill(s.fields.temp_3d, 2)
                if turb:
                    fill(s.fields.tke_3d, 1)
                    fill(s.fields.psi_3d, 1)
                want = {n: s.fields[n].dat.data_ro.copy() for n in names}
                s.simulation_time = t
                for e in s.exporters.values():
                    e.set_next_export_ix(k)
                s.i_export = k
                s.export(time=t)
            else:
                s.load_state(k)
                for n in names:
                    if n == 'uv_3d':
                        continue
                    require_close(s.fields[n].dat.data_ro, want[n], 'restored ' + n, rtol=1e-12, atol=1e-12)
                require_equal(float(s.simulation_time), t, 'time')
                require_equal(s.i_export, k, 'export number')
        rec.step(2)
        rec.state('restart3d', fam, ale, turb, k)
    finally:
        shutil.rmtree(d)
