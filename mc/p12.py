"""P12: run logs."""
import contextlib
import io
import itertools
import logging
import os
import shutil
import sys
import types
import warnings
from .common import require, require_equal, Violation, Scratch, quiet
from .models import rect, solver2d

RULE = ('all sequences of print / warn / set directory (new, kept, same, other, impossible) / reset of the streams, against a model of the files; '
        'the same with pairs and triples of real 2D and 3D models')
ASSUMPTIONS = ['one process', 'setting the directory that is already in use changes nothing']

NOTICE = 'Setting a log file'      # printed by a change of directory
OPS = ['print', 'warn', 'set A w', 'set A a', 'set B w', 'set B a', 'set bad']


def groups(tier):
    g = [{'kind': 'ops', 'first': [o], 'old': old} for o in OPS for old in (False, True)]
    g += [{'kind': 'reset'}]
    g += [{'kind': 'models', 'first': f, 'dim': d} for f in range(4) for d in (2, 3)]
    return g


def run_group(group, rec):
    import thetis as th
    globals()['g_' + group['kind']](group, rec, th)


class Log:
    """A fresh instance of the logging module, with the terminal captured."""
    def __init__(self, th):
        with open(sys.modules['thetis.log'].__file__) as f:
            self.code = compile(f.read(), 'log.py', 'exec')
        self.handlers()

    def handlers(self):
        for n in ('thetis', 'thetis_output'):
            lg = logging.getLogger(n)
            for h in list(lg.handlers):
                lg.removeHandler(h)
                if isinstance(h, logging.FileHandler):
                    h.close()

    def fresh(self):
        self.handlers()
        m = types.ModuleType('thetis.log')
        m.__dict__['__file__'] = 'log.py'
        exec(self.code, m.__dict__)
        m.set_thetis_loggers()
        return m


@contextlib.contextmanager
def terminal():
    old, sys.stderr = sys.stderr, io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield sys.stderr
    finally:
        sys.stderr = old


def lines(fn):
    with open(fn) as f:
        return [x for x in f.read().split('\n') if x and NOTICE not in x]


def g_ops(group, rec, th):
    depth = 5 if rec.tier == 'quick' else 6
    with Scratch():
        L = Log(th)
        for rest in itertools.product(OPS, repeat=depth - 1):
            seq = group['first'] + list(rest)
            rec.check(dict(seq=seq, old=group['old']), one_seq, L, seq, group['old'], rec)
            if rec.stop:
                break
        L.handlers()


def g_reset(group, rec, th):
    """The streams are set up again (as for another communicator)."""
    ops = ['print', 'warn', 'reset', 'set A a', 'set B w']
    with Scratch():
        L = Log(th)
        for seq in itertools.product(ops, repeat=5 if rec.tier == 'quick' else 6):
            if 'reset' in seq:
                rec.check(dict(seq=seq, old=False), one_seq, L, seq, False, rec)
            if rec.stop:
                break
        L.handlers()


def one_seq(L, seq, old, rec):
    for d in ('A', 'B'):
        shutil.rmtree(d, ignore_errors=True)
    files = {}
    if old:
        for d in ('A', 'B'):
            os.makedirs(d)
            with open(f'{d}/log', 'w') as f:
                f.write(f'old {d}\n')
            files[d] = [f'old {d}']
    if not os.path.exists('bad'):
        open('bad', 'w').close()
    active, early, shown = None, [], []
    with terminal() as err:
        m = L.fresh()
        for i, op in enumerate(seq):
            if op in ('print', 'warn'):
                text = f'message {i}'
                (m.print_output if op == 'print' else m.warning)(text)
                line = text if op == 'print' else 'thetis:WARNING ' + text
                shown.append(line)
                (early if active is None else files[active]).append(line)
            elif op == 'reset':
                m.set_thetis_loggers()
            else:
                _, d, *mode = op.split()
                try:
                    m.set_log_directory(d, mode=mode[0] if mode else 'w')
                    require(d != 'bad', 'a directory that cannot be made was accepted')
                except Violation:
                    raise
                except Exception:
                    require(d == 'bad', 'the directory was refused')
                    continue
                if d != active:
                    files[d] = (files.get(d, []) if mode == ['a'] else []) + early
                    active, early = d, []
            rec.step()
            for d in files:
                require_equal(lines(f'{d}/log'), files[d], f'log in {d} after {list(seq[:i + 1])}')
        require_equal([x for x in err.getvalue().split('\n') if x and NOTICE not in x], shown, 'lines on the terminal')
    rec.state(active, sorted(files.items()), early)


# --- real models ----------------------------------------------------------------

MODELS = [('A', False), ('A', True), ('B', False), ('B', True)]


def g_models(group, rec, th):
    from . import p01
    depth = 2 if rec.tier == 'quick' else 3
    with Scratch():
        L = Log(th)
        for rest in itertools.product(MODELS, repeat=depth - 1):
            for on in itertools.product([True, False], repeat=depth):
                seq = [MODELS[group['first']]] + list(rest)
                rec.check(dict(models=seq, log_output=on, dim=group['dim']), one_models, th, L, seq, on, group['dim'], rec)
                if rec.stop:
                    return


def fresh_in_place(L):
    """Resets the module used by the models."""
    L.handlers()
    lg = sys.modules['thetis.log']
    exec(L.code, lg.__dict__)
    lg.set_thetis_loggers()
    return lg


def make(th, dim, out, keep, on):
    if dim == 2:
        return solver2d(end=2., out=out, no_exports=False, keep_log=keep, log_output=on)
    mesh = rect()
    b = th.Function(th.get_functionspace(mesh, 'CG', 1)).assign(10.)
    s = th.solver.FlowSolver(mesh, b, 1, keep_log=keep)
    o = s.options
    o.timestepper_options.use_automatic_timestep = False
    o.timestep, o.timestep_2d = 1., 1.
    o.simulation_export_time, o.simulation_end_time = 2., 2.
    o.use_bottom_friction = o.solve_salinity = o.solve_temperature = o.use_limiter_for_velocity = o.use_limiter_for_tracers = False
    o.output_directory, o.no_exports, o.log_output, o.fields_to_export = out, False, on, []
    return s


def one_models(th, L, seq, on, dim, rec):
    for d in ('A', 'B'):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(f'{d}/log', 'w') as f:
            f.write(f'old {d}\n')
    files = {d: [f'old {d}'] for d in 'AB'}
    active, early, n = None, [], [0]
    with terminal() as err:
        lg = fresh_in_place(L)
        pos = [0]

        def new():
            out = [x for x in err.getvalue()[pos[0]:].split('\n') if x and NOTICE not in x]
            pos[0] = len(err.getvalue())
            return out

        def say():
            n[0] += 1
            lg.print_output(f'message {n[0]}')
            if n[0] % 2:
                lg.warning(f'message {n[0]}')

        for i, ((d, keep), log) in enumerate(zip(seq, on)):
            s = make(th, dim, d, keep, log)
            say()
            s.create_function_spaces()
            say()
            (early if active is None else files[active]).extend(new())
            s.create_fields()
            if log and d != active:
                files[d] = (files[d] if keep else []) + early
                active, early = d, []
            say()
            s.create_equations()
            say()
            s.assign_initial_conditions()
            s.iterate()
            say()
            (early if active is None else files[active]).extend(new())
            rec.step(5)
            for x in files:
                got = lines(f'{x}/log')
                k = next((k for k, (a, b) in enumerate(zip(got, files[x])) if a != b), min(len(got), len(files[x])))
                require(got == files[x], f'log in {x} after model {i + 1}: line {k} is {got[k:k + 2]}, expected {files[x][k:k + 2]}')
    rec.state(active, seq, on)
    require(n[0] > 0 and (active is None or len(files[active]) > 3), 'nothing was logged')
