"""P05: diagnostic time series."""
import datetime
import itertools
import os
import shutil
import tempfile
import numpy as np
from .common import require, require_equal, require_close, Violation, Scratch, quiet
from . import models

RULE = ('all operation sequences up to depth 5 over {evaluate, evaluate with an index, advance time, new process creating, new process '
        'appending, evaluation that fails} and all sequences up to depth 3 for every array shape, precision, time column, attribute and date '
        'combination; all activity windows x evaluation times; two diagnostics sharing a directory; the file is reopened and compared with '
        'a list model after every operation')
ASSUMPTIONS = ['one process', 'crashes inside a HDF5 library call are not modelled']

OPS = ['E', 'I0', 'I2', 'T', 'C', 'A', 'X']


def groups(tier):
    g = [{'kind': 'seq', 'first': a, 'second': b} for a in OPS for b in (['EI', 'TCAX'] if tier == 'quick' else ['EI', 'T', 'CA', 'X'])]
    g += [{'kind': 'shapes', 'dim': i} for i in range(4)]
    g += [{'kind': 'window'}, {'kind': 'pair'}, {'kind': 'file'}]
    return g


def run_group(group, rec):
    import thetis as th
    quiet()
    with Scratch():
        globals()['g_' + group['kind']](group, rec, th)


class Boom(Exception):
    pass


def make_class(th, nm, variables, state):
    class Diag(th.DiagnosticCallback):
        name = nm
        variable_names = variables

        def __call__(self):
            if state.get('boom'):
                raise Boom()
            return state['value']

        def message_str(self, *a):
            return 'x'
    return Diag


def values(k, dim, nvars, dtype):
    shape = (dim,) if isinstance(dim, int) else tuple(dim)
    out = []
    for v in range(nvars):
        n = int(np.prod(shape))
        a = (k*100. + 10*v + np.arange(n)*0.5).reshape(shape)
        if k % 3 == 2:
            a = -a
        out.append(a if shape != (1,) else float(a[0]))
    return tuple(out)


def read(fn):
    import h5py
    with h5py.File(fn, 'r') as f:
        return ({k: f[k][...] for k in f}, {k: dict(f[k].attrs) for k in f}, dict(f.attrs), {k: f[k].dtype for k in f})


def text(x):
    return x.decode() if isinstance(x, bytes) else x


def run_seq(th, s, seq, rec, dim=1, nvars=2, dtype='d', include_time=True, attrs=None, date=None, direct=False, name='my diag'):
    d = tempfile.mkdtemp(dir='.')
    variables = ['b_var', 'a_var', 'c'][:nvars]
    try:
        s.options.output_directory = d
        state = {}
        cls = make_class(th, name, variables, state)
        fn = os.path.join(d, 'diagnostic_%s.hdf5' % name.replace(' ', '_'))

        def new(mode):
            c = cls(s, array_dim=dim, hdf5_dtype=dtype, include_time=include_time, attrs=dict(attrs) if attrs else None, append_to_log=False)
            c.set_write_mode(mode)
            return c
        cb = new('create')
        opened = False      # this object has written
        mode = 'create'
        rows = None         # content of the file: list of (time, values index)
        t = 0.25
        k = 0
        for op in seq:
            s.simulation_time = t
            if op == 'T':
                t += 1.5
            elif op in 'CA':
                mode = 'create' if op == 'C' else 'append'
                cb = new(mode)
                opened = False
            elif op == 'X':
                state['boom'] = True
                try:
                    cb.evaluate()
                except Boom:
                    pass
                else:
                    raise Violation('error inside a diagnostic is swallowed')
                state['boom'] = False
            else:
                k += 1
                state['value'] = values(k, dim, nvars, dtype)
                ix = None if op == 'E' else int(op[1:])
                cb.evaluate(index=ix)
                if rows is None or (not opened and mode == 'create'):
                    rows = []
                opened = True
                if ix is None or ix >= len(rows):
                    rows.append((t, k))
                else:
                    rows[ix] = (t, k)
            rec.step()
            if rows is None:
                require(not os.path.exists(fn), 'file created without a record')
                continue
            require_equal(sorted(os.listdir(d)), [os.path.basename(fn)], 'files')
            data, va, at, ty = read(fn)
            require_equal(sorted(data), sorted(variables + (['time'] if include_time else [])), 'variables')
            shape = (dim,) if isinstance(dim, int) else tuple(dim)
            if include_time:
                require_equal(data['time'].shape, (len(rows), 1), 'shape of time')
                require_close(data['time'][:, 0], [r[0] for r in rows], 'times')
            for v, nm in enumerate(variables):
                require_equal(data[nm].shape, (len(rows),) + shape, 'shape of ' + nm)
                want = np.array([np.reshape(values(r[1], dim, nvars, dtype)[v], shape) for r in rows]).reshape((len(rows),) + shape)
                require_close(data[nm], want, 'values of ' + nm)
                require(ty[nm] == np.dtype('f8' if dtype == 'd' else 'f4'), 'precision of {}: {}', nm, ty[nm])
            for a, b in (attrs or {}).items():
                require(a in at and np.all(at[a] == b), 'attribute {}: {} instead of {}', a, at.get(a), b)
            if date is not None and include_time:
                require_equal(text(at.get('simulation_initial_date')), date.isoformat(), 'initial date attribute')
                require_equal(text(va['time'].get('units')), 'seconds since ' + date.isoformat(), 'time units')
            elif date is None:
                require('units' not in va.get('time', {}), 'time units without a date')
            rec.state(dim, nvars, dtype, include_time, rows, opened, mode, t)
    finally:
        shutil.rmtree(d)


def g_seq(group, rec, th):
    s = models.solver2d()
    depth = 5 if rec.tier == 'quick' else 6
    for rest in itertools.product(OPS, repeat=depth - 1):
        if rest[0][0] not in group['second']:
            continue
        seq = [group['first']] + list(rest)
        if seq[-1] == 'T' or not any(o[0] in 'EI' for o in seq):
            continue
        rec.check(seq, run_seq, th, s, seq, rec)


def g_shapes(group, rec, th):
    dim = [1, 3, (2, 3), (1,)][group['dim']]
    utc = datetime.timezone.utc
    seqs = [q for q in itertools.product(['E', 'I0', 'A', 'C', 'T'], repeat=3 if rec.tier == 'quick' else 4) if 'E' in q or 'I0' in q]
    for nvars, dtype, inc, attrs, date in itertools.product([1, 3], ['d', 'f'], [True, False], [None, {'site': 'here', 'n': 3}],
                                                            [None, datetime.datetime(2021, 1, 2, 3, 4, 5, tzinfo=utc)]):
        s = models.solver2d()
        if date is not None:
            s.options.simulation_initial_date = date
        for q in seqs:
            rec.check(dict(nvars=nvars, dtype=dtype, time=inc, attrs=attrs, date=str(date), seq=q, dim=dim), run_seq, th, s, q, rec,
                      dim, nvars, dtype, inc, attrs, date)


TIMES = [-1.5, 0.0, 1.5, 3.0, 4.5]


def g_window(group, rec, th):
    s = models.solver2d()
    for a, b in itertools.product([None, -1.5, 0, 0.0, 1.0, 1.5, 4.5], repeat=2):
        for sel in itertools.product([0, 1], repeat=len(TIMES)):
            if not any(sel):
                continue
            times = [t for t, q in zip(TIMES, sel) if q]
            for index in (False, True):
                rec.check(dict(start=a, end=b, times=times, index=index), one_window, th, s, a, b, times, index, rec)


def one_window(th, s, a, b, times, index, rec):
    d = tempfile.mkdtemp(dir='.')
    try:
        s.options.output_directory = d
        state = {}
        calls = []
        cls = make_class(th, 'win', ['v'], state)
        cb = cls(s, append_to_log=False, start_time=a, end_time=b)
        orig = cls.__call__

        def call(self):
            calls.append(s.simulation_time)
            return orig(self)
        cls.__call__ = call
        want = [t for t in times if (a is None or t >= a) and (b is None or t <= b)]
        for i, t in enumerate(times):
            s.simulation_time = t
            state['value'] = (10.*i,)
            cb.evaluate(index=i if index else None)
            rec.step()
        fn = os.path.join(d, 'diagnostic_win.hdf5')
        require_equal(calls, want, 'times the diagnostic was computed')
        if want:
            data = read(fn)[0]
            require_close(data['time'][:, 0], want, 'recorded times')
            require_close(data['v'][:, 0], [10.*times.index(t) for t in want], 'recorded values')
        else:
            require(not os.path.exists(fn) or len(read(fn)[0]['time']) == 0, 'record outside of the window')
        rec.state('win', a, b, times)
    finally:
        shutil.rmtree(d)


def g_pair(group, rec, th):
    """Two diagnostics and two intervals in one manager."""
    s = models.solver2d()
    ops = ['e', 't', 'A', 'B']
    for seq in itertools.product(ops, repeat=5):
        rec.check(list(seq), one_pair, th, s, seq, rec)


def one_pair(th, s, seq, rec):
    from thetis.callback import CallbackManager
    d = tempfile.mkdtemp(dir='.')
    try:
        s.options.output_directory = d
        m = CallbackManager()
        state = {'x': {}, 'y': {}, 'z': {}}
        cls = {n: make_class(th, n, ['v'], state[n]) for n in state}
        reg = {'export': {}, 'timestep': {}}
        rows = {}
        s.simulation_time = 0.

        def add(n, mode, new):
            cb = cls[n](s, append_to_log=False)
            cb.set_write_mode('create' if new else 'append')
            m.add(cb, mode)
            reg[mode][n] = new
        add('x', 'export', True)
        add('y', 'timestep', True)
        k = 0
        for op in seq:
            k += 1
            s.simulation_time = 1.*k
            for i, n in enumerate(state):
                state[n]['value'] = (100.*i + k,)
            if op in 'et':
                mode = 'export' if op == 'e' else 'timestep'
                m.evaluate(mode)
                for n in reg[mode]:
                    if reg[mode][n]:
                        rows[n] = []
                    reg[mode][n] = False
                    rows.setdefault(n, []).append((1.*k, state[n]['value'][0]))
            elif op == 'A':
                add('z', 'export', False)      # joins later, keeps old records
            else:
                add('x', 'export', True)       # replaced by a new diagnostic of that name
            rec.step()
            for n in rows:
                data = read(os.path.join(d, 'diagnostic_%s.hdf5' % n))[0]
                require_close(data['time'][:, 0], [r[0] for r in rows[n]], 'times of ' + n)
                require_close(data['v'][:, 0], [r[1] for r in rows[n]], 'values of ' + n)
            require_equal(sorted(os.listdir(d)), sorted('diagnostic_%s.hdf5' % n for n in rows), 'files')
            rec.state('pair', str(rows))
    finally:
        shutil.rmtree(d)


def g_file(group, rec, th):
    """The file class by itself."""
    for seq in itertools.product(['a', 'i0', 'i1', 'i4', 'N', 'O'], repeat=4):
        for inc in (True, False):
            rec.check(dict(seq=seq, time=inc), one_file, th, seq, inc, rec)


def one_file(th, seq, inc, rec):
    from thetis.callback import DiagnosticHDF5
    d = tempfile.mkdtemp(dir='.')
    try:
        fn = os.path.join(d, 'f.hdf5')

        def op_(new):
            return DiagnosticHDF5(fn, ['p', 'q'], array_dim=2, attrs={'k': 'v'}, var_attrs={'p': {'units': 'm'}}, new_file=new, include_time=inc)
        f = op_(True)
        rows = []
        for k, op in enumerate(seq):
            if op == 'N':
                f = op_(True)
                rows = []
            elif op == 'O':
                f = op_(False)
            else:
                vals = (np.array([k, 1.]), np.array([2., -k]))
                ix = None if op == 'a' else int(op[1:])
                f.export(vals, time=0.5*k if inc else None, index=ix)
                if ix is None or ix >= len(rows):
                    rows.append((0.5*k, vals))
                else:
                    rows[ix] = (0.5*k, vals)
            data, va, at, ty = read(fn)
            if inc:
                require_close(data['time'][:, 0], [r[0] for r in rows], 'times')
            else:
                require('time' not in data, 'time column present')
            for i, v in enumerate('pq'):
                require_close(data[v], np.array([r[1][i] for r in rows]).reshape(-1, 2), 'values of ' + v)
            require_equal(text(at.get('k')), 'v', 'attribute')
            require_equal(text(va['p'].get('units')), 'm', 'variable attribute')
            require('units' not in va['q'], 'attribute on the wrong variable')
            rec.step()
            rec.state('file', inc, [r[0] for r in rows])
        # a record without time is refused and leaves the file readable
        if inc:
            try:
                f.export((np.zeros(2), np.zeros(2)))
            except AssertionError:
                read(fn)
            else:
                raise Violation('record without time accepted')
    finally:
        shutil.rmtree(d)
