"""P11: options."""
import copy
import datetime
import itertools
import json
import os
import numpy as np
from .common import require, require_equal, Violation, Scratch, quiet
from .models import rect, solver2d

RULE = ('every option of every option group x an alphabet of 45 values; all assignment histories on every paired option; all orders of loading a '
        'container; every leaf of every group of one model changed while another model and the defaults are watched; failing operations on frozen objects')
ASSUMPTIONS = ['documented types, ranges, choices and defaults are those in mc/p11_spec.json, reviewed against the documentation',
               'values whose acceptance the documentation leaves open (bool for a number, numpy scalars other than float64) may go either way, '
               'but must be stored unchanged or refused without effect']

SPEC = json.load(open(os.path.join(os.path.dirname(__file__), 'p11_spec.json')))


def groups(tier):
    names = sorted(SPEC)
    g = [{'kind': 'values', 'classes': names[i::6]} for i in range(6)]
    pairs = [(c, t) for c in names for t, e in SPEC[c].items() if 'pair' in e and c not in ('CommonModelOptions',)]
    g += [{'kind': 'pairs', 'pairs': pairs[i::5]} for i in range(5)]
    g += [{'kind': 'isolation', 'slice': [i, 4]} for i in range(4)]
    g += [{'kind': 'frozen'}, {'kind': 'tracers'}, {'kind': 'solver'}]
    return g


def run_group(group, rec):
    import thetis as th
    quiet()
    with Scratch():
        globals()['g_' + group['kind']](group, rec, th)


# --- values ---------------------------------------------------------------------

def alphabet(th):
    from firedrake import Constant, Function, SpatialCoordinate, as_tensor
    import thetis.options as O
    mesh = rect()
    P1 = th.get_functionspace(mesh, 'CG', 1)
    P1v = th.get_functionspace(mesh, 'CG', 1, vector=True)
    f, v = Function(P1), Function(P1v)
    x = SpatialCoordinate(mesh)
    utc = datetime.timezone.utc
    A = [('None', None), ('True', True), ('False', False), ('0', 0), ('1', 1), ('-1', -1), ('7', 7), ('0.0', 0.), ('-0.0', -0.), ('0.5', .5),
         ('0.75', .75), ('1.0', 1.), ('1.5', 1.5), ('0.4999', .4999), ('1.0001', 1.0001), ('-2.5', -2.5), ('tiny', 1e-300), ('-tiny', -1e-300),
         ('big', 1e300), ('nan', float('nan')), ('inf', float('inf')), ('-inf', -float('inf')), ('np.float64', np.float64(2.25)),
         ('np.int64', np.int64(3)), ('np.float32', np.float32(.5)), ('complex', 1 + 0j), ('empty str', ''), ('str', 'text'), ('str number', '1.0'),
         ('list', ['elev_2d']), ('empty list', []), ('list of numbers', [1., 2.]), ('tuple', (1., 2.)), ('dict', {'ksp_type': 'cg'}),
         ('Constant', Constant(3.)), ('vector Constant', Constant((1., 2.))), ('Function', f), ('vector Function', v), ('scalar expr', f*f + 1),
         ('vector expr', 2*x), ('tensor expr', as_tensor([[f, f], [f, 1]])), ('naive', datetime.datetime(2020, 1, 1)),
         ('aware', datetime.datetime(2020, 1, 1, tzinfo=utc)), ('date', datetime.date(2020, 1, 1)), ('class', dict),
         ('sediment class', type('S', (th.sediment_model.SedimentModel,), {})), ('object', object()), ('lambda', lambda: 1), ('array', np.array([1., 2.]))]
    for s in sorted({v for d in SPEC.values() for e in d.values() for v in e.get('values', [])}):
        A.append((repr(s), s))
    for c in sorted(SPEC):
        A.append((c + '()', getattr(O, c)()))
    return A


REALS = (int, float)


def accepts(e, name, v, O):
    """True, False, or None if the documentation leaves it open."""
    k = e['kind']
    if v is None:
        return e['none']
    isb = isinstance(v, bool)
    npnum = isinstance(v, np.generic) and not isinstance(v, float)
    if k == 'Bool':
        return True if isb else (None if isinstance(v, (int, float, complex)) and v in (0, 1) else False)
    if k in ('Int', 'Integer', 'PositiveInteger', 'NonNegativeInteger', 'BoundedInteger'):
        if isb or npnum:
            return None
        if not isinstance(v, int):
            if isinstance(v, (float, complex)) and v == v and abs(v) < float('inf') and v == int(v.real):
                return None
            return False
    elif k in ('Float', 'PositiveFloat', 'NonNegativeFloat', 'BoundedFloat'):
        if isb or npnum:
            return None
        if not isinstance(v, REALS):
            return False
    if k in ('Int', 'Integer', 'Float'):
        return True
    if k.startswith('Positive'):
        return bool(v > 0)
    if k.startswith('NonNegative'):
        return bool(v >= 0)
    if k.startswith('Bounded'):
        return bool(e['bounds'][0] <= v <= e['bounds'][1])
    if k == 'Enum':
        return isinstance(v, str) and v in e['values']
    if k == 'Unicode':
        return isinstance(v, str)
    if k == 'Instance':
        return isinstance(v, getattr(O, e['class']))
    if k in ('Dict', 'PETScSolverParameters'):
        return (isinstance(v, dict) and (k != 'Dict' or not e.get('nested'))) or (None if isinstance(v, dict) else False)
    if k == 'List':
        if isinstance(v, (tuple, str)):
            return None
        if not isinstance(v, list):
            return False
        return all(isinstance(i, str) for i in v) if e.get('item') == 'str' else True
    if k == 'Type':
        return isinstance(v, type) and any(c.__name__ == e['class'] for c in v.__mro__)
    from firedrake import Constant, Function
    import ufl
    const, func = isinstance(v, Constant), isinstance(v, Function)
    if k == 'FiredrakeConstantTraitlet':
        return const
    if k == 'FiredrakeCoefficient':
        return const or func
    if k == 'DatetimeTraitlet':
        return isinstance(v, datetime.datetime) and v.tzinfo is not None
    ex = isinstance(v, ufl.core.expr.Expr)
    if k == 'FiredrakeScalarExpression':
        return ex and v.ufl_shape == ()
    if k == 'FiredrakeVectorExpression':
        return ex and len(v.ufl_shape) == 1
    raise RuntimeError('no rule for ' + k)


for _d in SPEC.values():
    for _n, _e in _d.items():
        if _n.startswith('fields_to_export'):
            _e['item'] = 'str'
        if _n.endswith('_turbine_farms'):
            _e['nested'] = True


def same(a, b):
    if a is b:
        return True
    if type(a).__module__.startswith(('firedrake', 'ufl')) or type(b).__module__.startswith(('firedrake', 'ufl')):
        return False
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    try:
        return bool(a == b) and (isinstance(a, bool) == isinstance(b, bool))
    except Exception:
        return False


def snap(o, cls):
    return {n: copy.copy(getattr(o, n)) if isinstance(getattr(o, n), (dict, list)) else getattr(o, n) for n in SPEC[cls]}


def default_ok(e, v):
    d = e['default']
    if isinstance(d, dict):
        (k, w), = d.items()
        if k == 'Constant':
            return float(v) == w
        if k == 'group':
            return type(v).__name__ == w
        if k == 'class':
            return v.__name__ == w
        return v == w
    return same(v, d)


def g_values(group, rec, th):
    import thetis.options as O
    A = alphabet(th)
    for c in group['classes']:
        rec.check(dict(group=c, options='defaults'), defaults, O, c)
        for n in SPEC[c]:
            rec.check(dict(group=c, option=n), one_option, O, c, n, A, rec)


def defaults(O, c):
    o = getattr(O, c)()
    for n, e in SPEC[c].items():
        require(default_ok(e, getattr(o, n)), f'{c}.{n} starts as {getattr(o, n)!r}, documented {e["default"]!r}')


def one_option(O, c, n, A, rec):
    e = SPEC[c][n]
    o = getattr(O, c)()
    pair = e.get('pair')
    for name, v in A:
        want = accepts(e, name, v, O)
        rec.state(c, n, name)
        before = snap(o, c)
        try:
            setattr(o, n, v)
            ok = True
        except Exception:
            ok = False
        after = snap(o, c)
        rec.step()
        if want is not None:
            require_equal(ok, want, f'{c}.{n} = {name}: accepted')
        for m in SPEC[c]:
            if m == n and ok:
                require(same(after[m], v) or (want is None and after[m] == ([v] if isinstance(v, str) else list(v) if isinstance(v, tuple) else v)), f'{c}.{n} = {name}: now holds {after[m]!r}')
                if 'Int' in e['kind'] and v is not None:
                    require(isinstance(after[m], int), f'{c}.{n} = {name}: an integer option holds {after[m]!r}')
            elif m == pair and ok:
                require_equal(type(after[m]).__name__, e['groups'][v], f'{c}.{n} = {name}: type of {pair}')
                if before[n] == v:
                    require(after[m] is before[m], f'{c}.{n} = {name} (no change): {pair} was reset')
            else:
                require(after[m] is before[m] or same(after[m], before[m]), f'{c}.{n} = {name}: {m} changed to {after[m]!r}')
    # a refused value does not stop later valid ones, and unknown names are refused throughout
    for bad in (n + 'x', n[:-1], 'thetis_unknown', n.upper()):
        if bad in SPEC[c] or bad in ('', 'nam'):
            continue
        before = snap(o, c)
        try:
            setattr(o, bad, 1)
            raise Violation(f'{c}.{bad} = 1 was accepted (no such option)')
        except (TypeError, AttributeError):
            pass
        require(not hasattr(o, bad), f'{c}.{bad} exists after being refused')


# --- paired options -------------------------------------------------------------

def marker(cls):
    """An option of this group and two values different from its default."""
    d = SPEC[cls]
    if 'ad_block_tag' in d:
        return 'ad_block_tag', 'one', 'two', None
    for n, e in sorted(d.items()):
        if e['kind'] in ('PositiveFloat', 'Float', 'NonNegativeFloat') and e['default'] is not None:
            return n, 11., 22., e['default']
    return None


def pair_values(e, limit):
    """Representatives: the default and one or two values per group class."""
    out, seen = [e['default']], {e['groups'][e['default']]: 1}
    for v in e['values']:
        g = e['groups'][v]
        if v != e['default'] and seen.get(g, 0) < limit:
            out.append(v)
            seen[g] = seen.get(g, 0) + 1
    return out


def g_pairs(group, rec, th):
    import thetis.options as O
    for c, t in group['pairs']:
        e = SPEC[c][t]
        vals = pair_values(e, 1)[:4]
        depth = 4 if rec.tier == 'quick' else 5
        ops = [('type', v) for v in vals] + [('type', 'no such kind'), ('read',), ('mark', 1), ('mark', 2), ('bad',)]
        for hist in itertools.product(ops, repeat=depth):
            if hist[-1][0] in ('read', 'bad') and depth > 3:
                continue
            rec.check(dict(group=c, option=t, history=hist), one_history, O, c, t, [(0,) + h for h in hist], rec)
            if rec.stop:
                return
        two = [(k,) + o for k in (0, 1) for o in [('type', vals[0]), ('type', vals[-1]), ('mark', 1), ('read',)]]
        for hist in itertools.product(two, repeat=3 if rec.tier == 'quick' else 4):
            rec.check(dict(group=c, option=t, two=hist), one_history, O, c, t, hist, rec)
        loads(O, c, t, e, vals, rec)


class PairModel:
    def __init__(self, e):
        self.e, self.type, self.mark = e, e['default'], None

    def apply(self, op):
        if op[0] == 'type' and op[1] in self.e['values']:
            if op[1] != self.type:
                self.type, self.mark = op[1], None
        elif op[0] == 'mark' and marker(self.group):
            self.mark = op[1]

    @property
    def group(self):
        return self.e['groups'][self.type]


def check_pair(o, m, t, e, ctx):
    require_equal(getattr(o, t), m.type, f'{ctx}: {t}')
    g = getattr(o, e['pair'])
    require_equal(type(g).__name__, m.group, f'{ctx}: group in {e["pair"]}')
    mk = marker(m.group)
    if mk:
        require_equal(getattr(g, mk[0]), mk[m.mark] if m.mark else mk[3], f'{ctx}: {e["pair"]}.{mk[0]}')


def one_history(O, c, t, hist, rec):
    e = SPEC[c][t]
    objs = [getattr(O, c)() for _ in range(2)]
    mods = [PairModel(e) for _ in objs]
    for i, (k, *op) in enumerate(hist):
        o, m = objs[k], mods[k]
        m_before = m.group
        if op[0] == 'type':
            good = op[1] in e['values']
            try:
                setattr(o, t, op[1])
                require(good, f'{c}.{t} = {op[1]!r} was accepted')
            except Violation:
                raise
            except Exception:
                require(not good, f'{c}.{t} = {op[1]!r} was refused')
        elif op[0] == 'read':
            getattr(o, e['pair'])
        elif op[0] == 'mark':
            mk = marker(m_before)
            if mk:
                setattr(getattr(o, e['pair']), mk[0], mk[op[1]])
        elif op[0] == 'bad':
            for target, name in ((o, 'bogus'), (getattr(o, e['pair']), 'bogus')):
                try:
                    setattr(target, name, 1)
                    raise Violation(f'unknown option accepted by {type(target).__name__}')
                except TypeError:
                    pass
        m.apply(op)
        rec.step()
    for k in (0, 1):
        check_pair(objs[k], mods[k], t, e, f'object {k} at the end')
        rec.state(c, t, k, mods[k].type, mods[k].mark)
    check_pair(getattr(O, c)(), PairModel(e), t, e, 'a new object afterwards')


def loads(O, c, t, e, vals, rec):
    """All orders of the entries of a dictionary or of another container."""
    other = next((n for n, x in sorted(SPEC[c].items()) if x['kind'] == 'Bool'), None)
    for v in vals:
        for subset in ([t], [e['pair']], [t, e['pair']], [t, e['pair'], other]):
            if None in subset:
                continue
            for perm in itertools.permutations(subset):
                for how in ('dict', 'group', 'constructor'):
                    for prior in ([], [('type', vals[-1])], [('type', vals[-1]), ('mark', 2)], [('read',), ('mark', 2)]):
                        if how == 'constructor' and prior:
                            continue
                        rec.check(dict(group=c, option=t, load=perm, value=v, how=how, prior=prior), one_load, O, c, t, e, v, perm, how, prior, other, rec)


def one_load(O, c, t, e, v, perm, how, prior, other, rec):
    cls = getattr(O, c)
    grp = getattr(O, e['groups'][v])()
    mk = marker(e['groups'][v])
    if mk:
        setattr(grp, mk[0], mk[1])
    content = {t: v, e['pair']: grp}
    if other:
        content[other] = not SPEC[c][other]['default']
    m = PairModel(e)
    if how == 'constructor':
        o = cls(**{k: content[k] for k in perm})
    else:
        o = cls()
        for op in prior:
            if op[0] == 'type':
                setattr(o, t, op[1])
            elif op[0] == 'read':
                getattr(o, e['pair'])
            elif marker(m.group):
                setattr(getattr(o, e['pair']), marker(m.group)[0], marker(m.group)[2])
            m.apply(op)
        if how == 'dict':
            src = {k: content[k] for k in perm}
            o.update(src)
            require_equal(list(src), list(perm), 'the dictionary given')
        else:
            src = cls()
            for k in perm:
                if k == e['pair'] and t not in perm:
                    setattr(src, k, grp)
                elif k == e['pair']:
                    # the group is touched at this point of the history and set last
                    getattr(src, k)
                else:
                    setattr(src, k, content[k])
            if e['pair'] in perm and t in perm:
                setattr(src, e['pair'], grp)
            o.update(src)
            if t not in perm:
                m.type = getattr(o, t)
    rec.step()
    if t in perm:
        require_equal(getattr(o, t), v, f'{t} after loading')
        m.apply(('type', v))
    if e['pair'] in perm:
        require(getattr(o, e['pair']) is grp, f'{e["pair"]} after loading is not the group that was loaded '
                f'(it is a {type(getattr(o, e["pair"])).__name__})')
    elif how != 'group':
        check_pair(o, m, t, e, 'after loading')
    if other and other in perm:
        require_equal(getattr(o, other), content[other], f'{other} after loading')


# --- isolation ------------------------------------------------------------------

def walk(o, path=''):
    """(path, owner, name, value) of every leaf option reachable from o."""
    import traitlets
    cls = type(o).__name__
    names = set(SPEC.get(cls, {}))
    # groups that are reachable as attributes
    for n in dir(type(o)):
        if not n.startswith('_') and isinstance(getattr(o, n, None), traitlets.HasTraits) and n not in ('parent', 'config', 'traits'):
            names.add(n)
    for n in sorted(names):
        v = getattr(o, n)
        if isinstance(v, traitlets.HasTraits):
            yield from walk(v, f'{path}.{n}')
        else:
            yield f'{path}.{n}', o, n, v


def content(o):
    """Deep content of all leaves."""
    from firedrake import Constant
    return {p: (copy.deepcopy(v) if isinstance(v, (dict, list)) else float(v) if isinstance(v, Constant) else v) for p, _, _, v in walk(o)}


def settings(O, c):
    """Histories that select every combination of paired kinds once."""
    pairs = [(n, e) for n, e in SPEC[c].items() if 'pair' in e]
    yield []
    for n, e in pairs:
        for v in pair_values(e, 9):
            yield [(n, v)]


def g_isolation(group, rec, th):
    import thetis.options as O
    for c in ('ModelOptions2d', 'ModelOptions3d', 'SedimentModelOptions', 'NonhydrostaticModelOptions', 'TidalTurbineFarmOptions',
              'DiscreteTidalTurbineFarmOptions'):
        for st in settings(O, c):
            a = getattr(O, c)()
            for n, v in st:
                setattr(a, n, v)
            for p, _, _, _ in list(walk(a)):
                for inplace in (False, True):
                    rec.check(dict(group=c, kinds=st, option=p, inplace=inplace), isolated, O, c, st, p, inplace, rec)


def make(O, c, st):
    a = getattr(O, c)()
    for n, v in st:
        setattr(a, n, v)
    return a


def isolated(O, c, st, p, inplace, rec):
    from firedrake import Constant
    a, b = make(O, c, st), make(O, c, st)
    ref = content(b)
    owner, n, v = next((ow, n, v) for q, ow, n, v in walk(a) if q == p)
    e = SPEC[type(owner).__name__].get(n)
    # in place, as is usual for dictionaries and lists of options
    if isinstance(v, dict):
        v['mark'] = 1
        for w in v.values():
            if isinstance(w, dict):
                w['mark'] = 1
    elif isinstance(v, list):
        v.append('mark')
    elif inplace:
        if not isinstance(v, Constant):
            return
        v.assign(float(v) + 3.)
    else:
        new = {'Bool': lambda: not v, 'Enum': lambda: next(x for x in e['values'] if x != v), 'Unicode': lambda: 'mark',
               'FiredrakeConstantTraitlet': lambda: Constant(9.), 'FiredrakeCoefficient': lambda: Constant(9.),
               'FiredrakeScalarExpression': lambda: Constant(9.), 'FiredrakeVectorExpression': lambda: Constant((9., 9.)),
               'DatetimeTraitlet': lambda: datetime.datetime(2001, 1, 1, tzinfo=datetime.timezone.utc), 'BoundedFloat': lambda: .875,
               'Type': lambda: type('S', (v,), {})}.get(e['kind'], lambda: 9)()
        setattr(owner, n, new)
        require(same(getattr(owner, n), new), f'{p} does not hold the new value')
    for what, o in (('another object', b), ('a new object', make(O, c, st))):
        got = content(o)
        rec.step()
        for q in ref:
            require(same(got[q], ref[q]), f'changing {p} changed {q} of {what} to {got[q]!r}')
    rec.state(c, st, p)


# --- frozen objects -------------------------------------------------------------

def g_frozen(group, rec, th):
    from thetis.utility import FrozenClass, unfrozen

    class Obj(FrozenClass):
        def __init__(self):
            self.known = 0
            self._isfrozen = True

        @unfrozen
        def good(self, name, inner=None):
            setattr(self, name, 1)
            if inner:
                try:
                    getattr(self, inner)('n_' + name)
                except RuntimeError:
                    pass
            setattr(self, name + '_after', 1)

        @unfrozen
        def fail(self, name, inner=None):
            if inner:
                try:
                    getattr(self, inner)('n_' + name)
                except RuntimeError:
                    pass
            setattr(self, name, 1)
            raise RuntimeError('planned')

    ops = ['good', 'fail', 'good/fail', 'good/good', 'fail/fail', 'fail/good', 'set', 'known']
    depth = 4 if rec.tier == 'quick' else 5
    for hist in itertools.product(ops, repeat=depth):
        rec.check(dict(frozen=hist), frozen_history, Obj, hist, rec)
        if rec.stop:
            return


def frozen_history(Obj, hist, rec):
    o = Obj()
    for i, op in enumerate(hist):
        name, inner = (op.split('/') + [None])[:2]
        if name in ('good', 'fail'):
            try:
                getattr(o, name)(f'a{i}', inner)
                require(name == 'good', 'no error from the failing method')
            except RuntimeError:
                require(name == 'fail', 'error from the good method')
            require(hasattr(o, f'a{i}'), 'attribute set by the method is missing')
        elif name == 'known':
            o.known = i
            require_equal(o.known, i, 'known attribute')
        try:
            setattr(o, f'unknown{i}', 1)
            raise Violation(f'a new attribute was accepted after {hist[:i + 1]}')
        except TypeError:
            pass
        rec.step()
    rec.state(hist)


# --- tracers --------------------------------------------------------------------

_n = [0]


def g_tracers(group, rec, th):
    import thetis.options as O
    from firedrake import Constant, FunctionSpace, Function
    mesh = rect()
    f = Function(FunctionSpace(mesh, 'DG', 1))
    good = [('add', 'a'), ('add', 'b'), ('system', ('c', 'd')), ('system kw', ('c', 'd')), ('partial kw', ('c', 'd'))]
    bad = [('add', 'a b'), ('add', 'a,b'), ('bad file', 'e'), ('bad type', 'e'), ('bad source', 'e'), ('bad diffusivity', 'e'), ('unknown kw', ('c', 'd')),
           ('short', ('c', 'd'))]
    depth = 3 if rec.tier == 'quick' else 4
    for hist in itertools.product([(k,) + o for k in (0, 1) for o in good[:4]] + [(0,) + o for o in bad + good[4:]], repeat=depth):
        rec.check(dict(tracers=hist), tracer_history, O, hist, f, Constant(2.), rec)
        if rec.stop:
            return


def tracer_history(O, hist, f, D, rec):
    objs = [O.ModelOptions2d(), O.ModelOptions2d()]
    models = [({}, []), ({}, [])]
    for k, op, lab in hist:
        o, (tr, fields) = objs[k], models[k]
        labels = [lab] if isinstance(lab, str) else list(lab)
        new = {x: dict(name='N' + x, diff=None) for x in labels}
        kw, ok = {}, True
        if op == 'add':
            call = lambda: o.add_tracer_2d(lab, 'N' + lab, 'F' + lab)
            ok = ' ' not in lab and ',' not in lab
        elif op == 'bad file':
            call, ok = (lambda: o.add_tracer_2d(lab, 'N', 'F F')), False
        elif op == 'bad type':
            call, ok = (lambda: o.add_tracer_2d(lab, 5, 'F')), False
        elif op == 'bad source':
            call, ok = (lambda: o.add_tracer_2d(lab, 'N', 'F', source='s')), False
        elif op == 'bad diffusivity':
            call, ok = (lambda: o.add_tracer_2d(lab, 'N', 'F', function=f, diffusivity=3.)), False
        else:
            if op == 'system kw':
                kw = {x: {'diffusivity': D} for x in labels}
            elif op == 'partial kw':
                kw = {labels[1]: {'diffusivity': D}}
            elif op == 'unknown kw':
                kw, ok = {'z': {}}, False
            names = ['N' + x for x in labels]
            files = ['F' + x for x in labels]
            if op == 'short':
                files, ok = files[:1], False
            for x in kw:
                if x in new:
                    new[x]['diff'] = kw[x].get('diffusivity')
            keep = {x: dict(y) for x, y in kw.items()}
            call = lambda: o.add_tracer_system_2d(labels, names, files, **kw)
        if set(labels) & set(tr):
            ok = False
        try:
            call()
            done = True
        except Exception:
            done = False
        rec.step()
        require_equal(done, ok, f'{op} {lab}: accepted')
        if kw:
            require_equal(kw, keep, f'{op} {lab}: dictionaries of the caller')
        if ok:
            tr.update(new)
            fields.append(','.join(labels))
        for j in (0, 1):
            require_equal(list(objs[j].tracer), list(models[j][0]), f'tracers of model {j} after {op} {lab}')
            require_equal(list(objs[j].tracer_fields), models[j][1], f'tracer equations of model {j} after {op} {lab}')
            for x, y in models[j][0].items():
                t = objs[j].tracer[x]
                require_equal((t.metadata['name'], t.metadata['shortname'], t.metadata['filename'], t.metadata['unit']),
                              (y['name'], y['name'], 'F' + x, '-'), f'metadata of tracer {x}')
                require(t.diffusivity is y['diff'], f'diffusivity of tracer {x} is {t.diffusivity!r}')
    rec.state(hist)


# --- solvers --------------------------------------------------------------------

def g_solver(group, rec, th):
    import thetis.options as O
    from .p01 import solver3d
    for st in settings(O, 'ModelOptions2d'):
        for how in ('options', 'update'):
            rec.check(dict(solver='2d', kinds=st, how=how), solver_load, th, O, st, how, rec)
    for case in itertools.product(['ok', 'fail'], repeat=3):
        rec.check(dict(solver='2d', frozen=case), solver_frozen, th, case, rec)
    for names in (['tracer_2d'], ['salt_2d'], ['own_2d']):
        for late in (False, True):
            rec.check(dict(solver='two models', tracer=names[0], late=late), two_models, th, names, late, rec,
                      key='tracer-label-reuse' if names[0] != 'tracer_2d' else 'tracer-metadata-shared' if late else None)
    rec.check(dict(solver='set_timestepper_type'), set_types, th, O, rec)


def solver_load(th, O, st, how, rec):
    from firedrake import Constant
    mesh = rect()
    b = th.Function(th.get_functionspace(mesh, 'CG', 1)).assign(10.)
    src = O.ModelOptions2d()
    src.swe_timestepper_options, src.tracer_timestepper_options   # looked at before they are chosen
    for n, v in st:
        setattr(src, n, v)
        setattr(getattr(src, SPEC['ModelOptions2d'][n]['pair']), 'ad_block_tag', 'mark')
    src.timestep = 3.5
    src.nh_model_options.update_free_surface = False
    src.add_tracer_2d('t_2d', 'T', 'T2d', diffusivity=Constant(2.))
    if how == 'options':
        s = th.solver2d.FlowSolver2d(mesh, b, options=src)
    else:
        s = th.solver2d.FlowSolver2d(mesh, b)
        s.options.update(src)
    o = s.options
    require_equal(o.timestep, 3.5, 'timestep')
    require_equal(o.nh_model_options.update_free_surface, False, 'nh_model_options.update_free_surface')
    require_equal(list(o.tracer), ['t_2d'], 'tracers loaded')
    require_equal(list(o.tracer_fields), ['t_2d'], 'tracer equations loaded')
    for n, e in SPEC['ModelOptions2d'].items():
        if 'pair' in e:
            v = dict(st).get(n, e['default'])
            require_equal(getattr(o, n), v, n)
            require_equal(type(getattr(o, e['pair'])).__name__, e['groups'][v], e['pair'])
            require_equal(getattr(o, e['pair']).ad_block_tag, 'mark' if n in dict(st) else None, e['pair'] + '.ad_block_tag')
    rec.step()


def solver_frozen(th, case, rec):
    """A failed operation must not open the solver object for unknown attributes."""
    def bogus(s, when):
        for name in ('optionz', 'bnd_function', 'timestepp'):
            try:
                setattr(s, name, 1)
                raise Violation(f'solver attribute {name} accepted {when}')
            except TypeError:
                pass
    s = solver2d(end=2.)
    bogus(s, 'after construction')
    for i, c in enumerate(case):
        if c == 'fail':
            s.options.swe_timestepper_type = 'PressureProjectionPicard'   # not available for this element pair
        else:
            s.options.swe_timestepper_type = 'CrankNicolson'
        for call in ('create_equations', 'create_timestepper'):
            try:
                if call == 'create_equations' and i:
                    continue
                getattr(s, call)()
            except (Exception, SystemExit):
                pass
            bogus(s, f'after {call} ({c})')
            rec.step()
        try:
            s.add_new_field(None, 'x y', 'name', 'file')
        except AssertionError:
            pass
        bogus(s, 'after add_new_field')


def two_models(th, names, late, rec):
    models = []
    for i in range(2):
        s = solver2d(end=2., out=f'm{i}{names[0]}{late}', no_exports=False, vtk=['elev_2d'] + names)
        s.options.tracer_only = True
        for n in names:
            s.options.add_tracer_2d(n, f'name {i}', f'File{i}')
        s.options.swe_timestepper_type = 'ForwardEuler'
        s.options.tracer_timestepper_type = 'ForwardEuler'
        s.options.tracer_timestepper_options.use_automatic_timestep = False
        s.create_equations()
        if not late:
            s.assign_initial_conditions()
        models.append(s)
        rec.step()
    for i, s in enumerate(models):
        if late:
            s.assign_initial_conditions()
        s.iterate()
        f = f'm{i}{names[0]}{late}/File{i}'
        require(os.path.isdir(f), f'model {i} did not write {f}')
    for n in names:
        from thetis.field_defs import field_metadata
        field_metadata.pop(n, None)


def set_types(th, O, rec):
    for v in ('SSPRK33', 'ForwardEuler', 'BackwardEuler', 'CrankNicolson', 'DIRK22', 'DIRK33'):
        for sed, exn, nh in itertools.product([False, True], repeat=3):
            o = O.ModelOptions2d()
            o.sediment_model_options.solve_suspended_sediment = sed
            o.sediment_model_options.solve_exner = exn
            o.nh_model_options.solve_nonhydrostatic_pressure = nh
            o.set_timestepper_type(v, ad_block_tag='x')
            for c, obj, t, used in (('ModelOptions2d', o, 'swe_timestepper_type', True), ('ModelOptions2d', o, 'tracer_timestepper_type', True),
                                    ('SedimentModelOptions', o.sediment_model_options, 'sediment_timestepper_type', sed),
                                    ('SedimentModelOptions', o.sediment_model_options, 'exner_timestepper_type', exn),
                                    ('NonhydrostaticModelOptions', o.nh_model_options, 'free_surface_timestepper_type', nh)):
                e = SPEC[c][t]
                w = v if used else e['default']
                require_equal(getattr(obj, t), w, t)
                g = getattr(obj, e['pair'])
                require_equal((type(g).__name__, g.ad_block_tag), (e['groups'][w], 'x' if used else None), e['pair'])
            rec.step()
