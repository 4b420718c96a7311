"""Shared machinery: Hypothesis-driven generated-input search with explicit oracles.

A check module defines  PROPERTY, RULE, SUBS = [Sub(...), ...].
A Sub couples a Hypothesis strategy (JSON-able cases) with a check function
check(case, ctx) that raises Violation through ctx.fail/ctx.ok/ctx.close.
"""
import hashlib
import json
import os
import sys
import traceback

REPO = os.environ.get('VT_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def import_hypothesis():
    cands = ['/opt/veriftools/pyvenv/lib/python3.12/site-packages']
    for c in cands:
        if os.path.isdir(os.path.join(c, 'hypothesis')) and c not in sys.path:
            sys.path.append(c)
    import hypothesis  # noqa
    thin_mutations()
    return hypothesis


def thin_mutations(every=8):
    """Hypothesis follows each fresh case with up to five variants of it with parts copied over
    other parts. Useful, but at a few hundred cases per check it leaves few fresh ones: do so
    for one case in eight only."""
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner
        orig = ConjectureRunner.generate_mutations_from
    except (ImportError, AttributeError):
        return
    count = [0]

    def thinned(self, data):
        count[0] += 1
        if count[0] % every == 0:
            orig(self, data)
    ConjectureRunner.generate_mutations_from = thinned


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """case turned out to be outside of the domain (counted)"""


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    return x


class Ctx(object):
    def __init__(self):
        self.labels = {}
        self.nontriv = None
        self.known = None

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nontrivial(self, flag=True):
        if flag:
            self.nontriv = True

    def skip(self, why='skip'):
        self.label('skipped: ' + why)
        raise Skip(why)

    def fail(self, msg):
        raise Violation(msg)

    def ok(self, cond, msg, *args):
        try:
            c = bool(cond)
        except Exception:
            c = False
        if not c:
            raise Violation((msg % args) if args else msg)

    def close(self, a, b, msg, tol=1e-7, scale=None):
        """a (code) equals b (oracle) within tol*(1+max|b|)"""
        import numpy as np
        try:
            a = np.asarray(a, dtype=float)
        except Exception as e:
            raise Violation('%s: value is not numeric: %r (%s)' % (msg, a, e))
        b = np.asarray(b, dtype=float)
        if a.size != b.size:
            raise Violation('%s: has %d values, expected %d' % (msg, a.size, b.size))
        a, b = a.ravel(), b.ravel()
        if a.size == 0:
            return
        s = 1. + (float(np.max(np.abs(b))) if scale is None else scale)
        d = np.abs(a - b)
        if not np.all(np.isfinite(a)):
            if not np.array_equal(np.isfinite(a), np.isfinite(b)):
                raise Violation('%s: non-finite value' % msg)
        k = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
        if not d[k] <= tol*s:
            raise Violation('%s: got %.12g, expected %.12g (index %d, tolerance %.3g)' %
                            (msg, a[k], b[k], k, tol*s))


class Sub(object):
    def __init__(self, name, strategy, check, quick=200, thorough=None, shards=1,
                 thorough_shards=8, budget=100., thorough_budget=3000., shrink_budget=40.,
                 case_limit=150, rule=''):
        self.name = name
        self.strategy = strategy      # callable st -> strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough or quick*10
        self.shards = shards
        self.thorough_shards = max(shards, thorough_shards)
        self.budget = budget
        self.thorough_budget = thorough_budget
        self.shrink_budget = shrink_budget
        self.case_limit = case_limit
        self.rule = rule


def case_key(case):
    return hashlib.md5(json.dumps(jsonable(case), sort_keys=True).encode()).hexdigest()


def reset_code_state():
    """reset global state of the code under test between cases"""
    m = sys.modules.get('omgtools.basics.optilayer')
    if m is not None:
        lab = getattr(getattr(m, 'OptiChild', None), '_labels', None)
        if isinstance(lab, list):
            lab[:] = []


def is_code_exception(exc):
    """does the exception come from inside the code under test?"""
    tb = exc.__traceback__
    frames = traceback.extract_tb(tb)
    rp = os.path.realpath(REPO) + os.sep
    hit = False
    for f in frames:
        fn = os.path.realpath(f.filename)
        if fn.startswith(rp):
            hit = True
    # a callback from code back into the harness that fails is a harness error
    if hit:
        last = None
        for f in frames:
            fn = os.path.realpath(f.filename)
            if fn.startswith(rp) or fn.startswith(VERIF + os.sep):
                last = fn
        if last is not None and not last.startswith(rp):
            return False
    return hit


SIGNATURE = ('positional argument', 'unexpected keyword', 'missing required', 'multiple values for', 'is not callable',
             'Wrong number or type of arguments')


def malformed(e):
    """Did the check stumble over a value the code handed out (None, too short, not a number, a missing entry), as
    opposed to an interface that is gone (harness error)?"""
    if isinstance(e, (ImportError, NameError, OSError, MemoryError)):
        return False
    if isinstance(e, AttributeError):
        return "'NoneType' object" in str(e)
    if isinstance(e, (TypeError, NotImplementedError)):
        return not any(t in str(e) for t in SIGNATURE)
    return isinstance(e, (LookupError, ValueError, ArithmeticError, AssertionError, RuntimeError))


def run_case(sub, case, ctx):
    """returns None or violation message; raises on harness errors"""
    reset_code_state()
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            sub.check(case, ctx)
    except Skip:
        return None
    except Violation as e:
        return str(e)
    except Exception as e:
        if isinstance(e, MemoryError):
            raise
        if is_code_exception(e):
            tb = traceback.extract_tb(e.__traceback__)
            rp = os.path.realpath(REPO) + os.sep
            loc = [f for f in tb if os.path.realpath(f.filename).startswith(rp)][-1]
            return '%s raised inside the code: %s (%s:%d)' % (
                type(e).__name__, e, os.path.relpath(loc.filename, REPO), loc.lineno)
        if malformed(e):
            last = traceback.extract_tb(e.__traceback__)[-1]
            return 'the code returned something that cannot be what it stands for: %s: %s (%s:%d)' % (
                type(e).__name__, e, os.path.basename(last.filename), last.lineno)
        raise
    return None
