"""Shared machinery of the model-checking harness.

A property module (mc/pNN.py) provides

    groups(tier) -> list of JSON-able group specifications
    run_group(group, rec) -> explores everything in the group

and, inside run_group, calls ``rec.check(case, fn, ...)`` for every enumerated
case (an operation history, a configuration, an input vector ...).  Each group
runs in its own fresh process, so that global state of the code under test
(loggers, taping, class attributes) cannot leak from one group to the next.
"""
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO_UNDER_TEST', '/repo')


class Violation(Exception):
    """The observed behaviour differs from the reference model."""
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class CaseTimeout(BaseException):
    """Raised by the watchdog: the code under test does not terminate."""


class Skip(Exception):
    """The case is outside of the explored domain."""


def require(cond, msg, *args, key=None):
    if not cond:
        raise Violation(msg.format(*args) if args else msg, key=key)


def require_equal(got, want, what, key=None):
    if not (got == want):
        raise Violation('{:}: got {!r}, expected {!r}'.format(what, got, want), key=key)


def require_close(got, want, what, rtol=1e-9, atol=1e-12, key=None):
    import numpy as np
    g = np.asarray(got, dtype=float)
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Violation('{:}: shape {:} instead of {:}'.format(what, g.shape, w.shape), key=key)
    with np.errstate(invalid='ignore'):
        ok = (np.abs(g - w) <= atol + rtol*np.abs(w)) | (np.isnan(g) & np.isnan(w)) | (g == w)
    if not np.all(ok):
        i = int(np.argmin(ok.reshape(-1)))
        raise Violation('{:}: got {!r}, expected {!r} (entry {:} of {:}, {:} differ)'.format(
            what, float(g.reshape(-1)[i]), float(w.reshape(-1)[i]), i, g.size,
            int((~ok).sum())), key=key)


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


def digest(x):
    return hashlib.sha1(json.dumps(jsonable(x), sort_keys=True).encode()).hexdigest()[:20]


class Recorder:
    """Collects what a group explored and which violations it found."""
    MAX_VIOLATIONS = 12

    def __init__(self, out, group, tier, only=None, case_timeout=300):
        self.out = out
        self.group = group
        self.tier = tier
        self.only = only
        self.case_timeout = case_timeout
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.nviol = 0
        self.keyed = {}
        self.notes = {}
        self._case_states = 0

    # counters -------------------------------------------------------------
    def state(self, *key):
        """A state of the system was observed (and compared to the model)."""
        self.states.add(digest(key))

    def step(self, n=1):
        """n transitions of the implementation were executed and compared."""
        self.transitions += n

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    # cases ----------------------------------------------------------------
    @property
    def stop(self):
        return self.nviol >= self.MAX_VIOLATIONS

    def check(self, case, fn, *args, key=None, timeout=None):
        """Run one case; anything but a clean return is a violation."""
        case = jsonable(case)
        if self.only is not None and case != self.only:
            return None
        if self.stop:
            return None
        # a group may be spread over several processes
        part, parts = self.group.get('slice') or (0, 1)
        self.nth = getattr(self, 'nth', -1) + 1
        if self.only is None and self.nth % parts != part:
            return None
        self.evaluations += 1
        self.distinct.add(digest(case))

        def alarm(signum, frame):
            raise CaseTimeout()
        old = signal.signal(signal.SIGALRM, alarm)
        signal.alarm(int(timeout or self.case_timeout))
        msg, vkey = None, None
        res = None
        try:
            res = fn(*args)
            self.traces += 1
        except Skip:
            self.note('skipped')
        except Violation as e:
            msg, vkey = str(e), e.key
        except CaseTimeout:
            msg = 'does not terminate (watchdog)\n' + traceback.format_exc(limit=-4)
        except (Exception, SystemExit) as e:
            msg = 'unexpected {:}: {:}\n{:}'.format(
                type(e).__name__, e, traceback.format_exc(limit=-6))
            vkey = getattr(e, 'key', None)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        if len(self.samples) < 3:
            self.samples.append(case)
        if msg is not None:
            self.violation(case, msg, vkey or key)
        return res

    def violation(self, case, msg, key=None):
        if key:
            # possibly a known finding: must not end the exploration
            self.keyed[key] = self.keyed.get(key, 0) + 1
            if self.keyed[key] > self.MAX_VIOLATIONS:
                return
        else:
            self.nviol += 1
        self.emit({'violation': {'case': jsonable(case), 'message': msg[-4000:],
                                 'key': key, 'group': self.group}})

    def emit(self, d):
        with open(self.out, 'a') as f:
            f.write(json.dumps(d) + '\n')

    def finish(self):
        self.emit({'done': {
            'states': sorted(self.states), 'transitions': self.transitions,
            'traces': self.traces, 'evaluations': self.evaluations,
            'distinct': len(self.distinct), 'samples': self.samples,
            'notes': self.notes}})


class Scratch:
    """A scratch directory that becomes the working directory."""
    def __init__(self, prefix='vp-'):
        self.prefix = prefix

    def __enter__(self):
        self.old = os.getcwd()
        self.path = tempfile.mkdtemp(prefix=self.prefix, dir=os.environ.get('VERIF_SCRATCH'))
        os.chdir(self.path)
        return self.path

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.path, ignore_errors=True)


def quiet():
    """Silence PETSc/Firedrake/thetis chatter in workers."""
    import logging
    logging.getLogger('thetis').setLevel(logging.CRITICAL)
    logging.getLogger('thetis_output').setLevel(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
