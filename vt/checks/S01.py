import numpy as np
from core import Sub
import ref
import gen

PROPERTY = 'S01'
RULE = ('Hypothesis draws clamped (and, for evaluation and sums, open) bases (degree 0-5, 1-7 intervals, uniform or not, interior multiplicity up to '
        'the degree), coefficients and operations; the value of the code at knots, next to knots and inside every '
        'interval is compared with an independent de Boor evaluation. Non-trivial: more than one interval or more '
        'than one operation.')


def _spl():
    from omgtools.basics.spline import BSpline, BSplineBasis
    return BSpline, BSplineBasis


# ---------------------------------------------------------------- basis functions
def g_basis(st):
    @st.composite
    def s(draw):
        k = draw(gen.knots_case(st, min_deg=0))
        xs = draw(st.lists(gen.num(st, 0., 1., 1000), max_size=4))
        return {'k': k, 'xs': xs, 'aslist': draw(st.booleans()), 'factor': draw(st.sampled_from([1., 2., 0.5, 3.75])),
                'shift': draw(st.sampled_from([0., 1., -2.5]))}
    return s()


def c_basis(case, ctx):
    BSpline, BSplineBasis = _spl()
    k = case['k']
    kn, deg = gen.knots_of(k), k['deg']
    ctx.nontrivial(len(k['gaps']) > 1)
    ctx.label('repeated interior knot', int(any(m > 1 for m in k['mult'])))
    b = BSplineBasis(kn.tolist() if case['aslist'] else kn, deg)
    xs = ref.sample_points(kn, case['xs'])
    ctx.ok(len(b) == len(kn) - deg - 1, 'basis length')
    B = b(np.array(xs)).toarray()
    R = ref.basis_matrix(kn, deg, xs)
    ctx.ok(B.shape == R.shape, 'basis matrix has shape %s, expected %s', B.shape, R.shape)
    ctx.close(B, R, 'basis functions differ from the reference', 1e-9)
    ctx.ok((B >= -1e-9).all(), 'negative basis function')
    ctx.close(B.sum(axis=1), np.ones(len(xs)), 'basis functions do not sum to one', 1e-9)
    for i, sup in enumerate(b.support()):
        ctx.close(sup, [kn[i], kn[i+deg+1]], 'support interval')
        for j, x in enumerate(xs):
            if x < kn[i] or x > kn[i+deg+1]:
                ctx.ok(B[j, i] == 0, 'basis function %d non-zero outside its support', i)
    x0 = xs[len(xs)//2]
    ctx.close(b(x0).toarray(), ref.basis_matrix(kn, deg, [x0]), 'basis evaluated at a scalar', 1e-9)
    if deg > 0:
        gr = [np.mean(kn[i+1:i+deg+1]) for i in range(len(b))]
        ctx.close(b.greville(), gr, 'Greville abscissae', 1e-10)
    # identity transform and time scaling
    b2 = b.scale(case['factor'], shift=case['shift'])
    ctx.close(b2.knots, kn*case['factor'] + case['shift'], 'scaled knots', 1e-12)
    ctx.close(b2(np.array(b2.knots[0])).toarray(), ref.basis_matrix(kn, deg, [kn[0]]), 'scaled basis at start', 1e-9)
    for f in (0.13, 0.5, 0.91):
        x = kn[0] + f*(kn[-1] - kn[0])
        if min(abs(x - kn)) < 1e-6:
            continue
        ctx.close(b2(x*case['factor'] + case['shift']).toarray(), ref.basis_matrix(kn, deg, [x]), 'scaled basis', 1e-7)


# ---------------------------------------------------------------- algebra
OPS = ['add', 'sub', 'mul', 'neg', 'adds', 'radds', 'subs', 'rsubs', 'muls', 'rmuls', 'pow', 'scale_np']


def lattice_basis(st, N, max_deg, max_mult_disc=True):
    """basis with break points on a common lattice 0..N"""
    @st.composite
    def s(draw):
        deg = draw(st.integers(1, max_deg))
        inner = sorted(draw(st.sets(st.integers(1, N-1), max_size=min(4, N-1))))
        mu = draw(st.lists(st.one_of(st.just(1), st.integers(1, deg)), min_size=len(inner), max_size=len(inner)))
        return {'deg': deg, 'inner': inner, 'mult': mu}
    return s()


def lat_knots(c, N, start, length):
    f = lambda i: start + length*(i/float(N))
    kn = [f(0)]*(c['deg']+1)
    for i, m in zip(c['inner'], c['mult']):
        kn += [f(i)]*m
    kn += [f(N)]*(c['deg']+1)
    return np.array(kn)


def g_alg(st):
    @st.composite
    def s(draw):
        N = draw(st.integers(2, 12))
        same = draw(st.booleans())
        b0 = draw(lattice_basis(st, N, 3))
        bs = [b0]
        for _ in range(draw(st.integers(0, 2))):
            bs.append(b0 if same else draw(lattice_basis(st, N, 3)))
        cs = [draw(gen.coeffs(st, b['deg'] + 1 + sum(b['mult']), -5., 5.)) for b in bs]
        ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, len(bs)-1), gen.num(st, -4., 4., 10)),
                            min_size=1, max_size=4))
        return {'N': N, 'start': draw(st.sampled_from([0., 0., 1.])), 'length': draw(st.sampled_from([1., 1., 4., 10.])),
                'b': bs, 'c': cs, 'ops': [list(o) for o in ops], 'kind': draw(st.sampled_from(['np', 'np', 'np', 'mx']))}
    return s()


def c_alg(case, ctx):
    import casadi as cas
    BSpline, BSplineBasis = _spl()
    spl, vals = [], []
    allk = set()
    kns = [lat_knots(b, case['N'], case['start'], case['length']) for b in case['b']]
    for kn in kns:
        allk |= set(kn.tolist())
    xs = np.array(ref.sample_points(sorted(allk), (0.123, 0.456, 0.871)))
    mx = case['kind'] == 'mx'
    syms = []
    for b, c, kn in zip(case['b'], case['c'], kns):
        if mx:
            s = cas.MX.sym('c', len(c))
            syms.append(s)
            spl.append(BSpline(BSplineBasis(kn, b['deg']), s))
        else:
            spl.append(BSpline(BSplineBasis(kn, b['deg']), np.array(c)))
        vals.append(ref.evals(kn, b['deg'], c, xs))
    cur, val, deg = spl[0], vals[0].copy(), case['b'][0]['deg']
    mag = max(1., np.abs(val).max(), max(abs(np.array(case['c'][0]))))
    nops = 0
    for op, j, a in case['ops']:
        o, ov, od, oc = spl[j], vals[j], case['b'][j]['deg'], max(1., np.abs(case['c'][j]).max())
        if op == 'add':
            cur, val, deg, mag = cur + o, val + ov, max(deg, od), mag + oc
        elif op == 'sub':
            cur, val, deg, mag = cur - o, val - ov, max(deg, od), mag + oc
        elif op == 'mul':
            if deg + od > 7:
                continue
            cur, val, deg, mag = cur*o, val*ov, deg + od, mag*oc
        elif op == 'neg':
            cur, val = -cur, -val
        elif op == 'adds':
            cur, val, mag = cur + a, val + a, mag + abs(a)
        elif op == 'radds':
            cur, val, mag = a + cur, val + a, mag + abs(a)
        elif op == 'subs':
            cur, val, mag = cur - a, val - a, mag + abs(a)
        elif op == 'rsubs':
            cur, val, mag = a - cur, a - val, mag + abs(a)
        elif op == 'muls':
            cur, val, mag = cur*a, val*a, max(mag*abs(a), 1.)
        elif op == 'rmuls':
            cur, val, mag = a*cur, val*a, max(mag*abs(a), 1.)
        elif op == 'pow':
            p = 1 + (abs(int(a)) % 3)
            if deg*p > 7:
                continue
            cur, val, deg, mag = cur**p, val**p, deg*p, mag**p
        elif op == 'scale_np':
            cur, val, mag = cur*int(a), val*int(a), max(mag*abs(int(a)), 1.)
        nops += 1
        ctx.label('op ' + op)
    ctx.nontrivial(nops > 1 or any(len(b['inner']) for b in case['b']))
    got = cur(xs)
    if mx:
        f = cas.Function('f', syms, [got])
        got = np.array(f(*[cas.DM(c) for c in case['c']])).ravel()
    ctx.close(got, val, 'value after %s' % [o[0] for o in case['ops']], 1e-7, scale=mag)
    # the operands are not changed
    for s, b, c, kn, v in zip(spl, case['b'], case['c'], kns, vals):
        if not mx:
            ctx.close(s.coeffs, c, 'operand coefficients were modified', 1e-12)
        ctx.close(s.basis.knots, kn, 'operand knots were modified', 1e-12)
    # the result is a well-formed spline over the same domain
    ctx.close([cur.basis.knots[0], cur.basis.knots[-1]], [kns[0][0], kns[0][-1]], 'domain of the result', 1e-12)
    shape = cur.coeffs.shape[0]
    ctx.ok(shape == len(cur.basis), 'result has %s coefficients for %s basis functions', shape, len(cur.basis))


# ---------------------------------------------------------------- nearly coincident knots
def g_near(st):
    @st.composite
    def s(draw):
        n = draw(st.integers(2, 5))
        degs = [draw(st.integers(1, 3)), draw(st.integers(1, 3))]
        at = draw(st.lists(st.integers(1, n-1), min_size=1, max_size=2, unique=True))
        return {'n': n, 'deg': degs, 'at': at, 'eps': draw(st.sampled_from([1e-2, 2e-3, 7e-4, 4e-4, 1e-4, 1e-5])),
                'sg': draw(st.sampled_from([1, -1])), 'len': draw(st.sampled_from([1., 10.])), 'end': draw(st.booleans()),
                'c': [draw(gen.coeffs(st, d + n, -5., 5.)) for d in degs], 'op': draw(st.sampled_from(['add', 'sub', 'mul']))}
    return s()


def c_near(case, ctx):
    """splines whose break points differ by less than a thousandth of the domain"""
    BSpline, BSplineBasis = _spl()
    n = case['n']
    br = np.linspace(0, 1, n+1)
    br2 = br.copy()
    for k in case['at']:
        br2[k] += case['sg']*case['eps']
    if case['end']:
        br2[n-1] = 1. - case['eps']
    kns = [np.r_[np.zeros(d), b, np.ones(d)]*case['len'] for d, b in zip(case['deg'], (br, br2))]
    a, b = [BSpline(BSplineBasis(k, d), np.array(c)) for k, d, c in zip(kns, case['deg'], case['c'])]
    ctx.nontrivial(case['eps'] < 1e-3)
    r = a + b if case['op'] == 'add' else a - b if case['op'] == 'sub' else a*b
    xs = np.array(ref.sample_points(sorted(set(kns[0].tolist()) | set(kns[1].tolist())), (0.123, 0.871)))
    va, vb = [ref.evals(k, d, c, xs) for k, d, c in zip(kns, case['deg'], case['c'])]
    want = va + vb if case['op'] == 'add' else va - vb if case['op'] == 'sub' else va*vb
    ctx.close(r(xs), want, '%s of splines with nearly coincident knots' % case['op'], 1e-6, scale=25.)


# ---------------------------------------------------------------- caching histories
def g_cache(st):
    @st.composite
    def s(draw):
        base = draw(gen.knots_case(st, min_deg=1, max_deg=3, max_int=4))
        steps = draw(st.lists(st.tuples(
            st.sampled_from(['same', 'nudge', 'deg', 'swapgap', 'int', 'scaled']), st.integers(0, 3),
            st.sampled_from(['grid', 'grid2', 'knots', 'scalar', 'list', 'one'])), min_size=2, max_size=8))
        return {'k': base, 'steps': [list(x) for x in steps]}
    return s()


def c_cache(case, ctx):
    BSpline, BSplineBasis = _spl()
    k = case['k']
    made = []
    ctx.nontrivial(len(case['steps']) > 2)
    for kind, a, ev in case['steps']:
        c = dict(k)
        if kind == 'nudge':
            c['length'] = k['length']*(1 + 1e-9*(a+1))
        elif kind == 'deg':
            c['deg'] = k['deg'] + 1 + a % 2
        elif kind == 'swapgap':
            c['gaps'] = k['gaps'][a % len(k['gaps']):] + k['gaps'][:a % len(k['gaps'])]
        elif kind == 'scaled':
            c['length'] = k['length']*(a+2)
        kn = gen.knots_of(c)
        deg = c['deg']
        if kind == 'int':
            kn = np.r_[[0]*(deg+1), np.arange(1, a+2), [a+2]*(deg+1)]
        b = BSplineBasis(kn, deg)
        ctx.ok(b.degree == deg and np.array_equal(np.array(b.knots, dtype=float), kn.astype(float)),
               'a basis with other knots or degree was returned from the cache')
        T = float(kn[-1] - kn[0])
        x = {'grid': np.linspace(kn[0], kn[-1], 7), 'grid2': kn[0] + T*np.linspace(0.05, 0.95, 7),
             'knots': np.array(sorted(set(kn.tolist()))), 'scalar': kn[0] + 0.37*T,
             'list': [float(kn[0]), float(kn[0] + 0.61*T)], 'one': np.array([kn[0] + 0.37*T])}[ev]
        fk = kn.astype(float)
        xl = np.clip(np.atleast_1d(np.array(x, dtype=float)), fk[0], fk[-1])
        x = x if ev in ('scalar', 'list', 'one') else xl
        R = ref.basis_matrix(fk, deg, xl)
        ctx.close(b(x).toarray(), R, 'evaluation (%s) after history' % ev, 1e-9)
        ctx.close(b(x).toarray(), R, 'repeated evaluation (%s)' % ev, 1e-9)
        for (b2, kn2, deg2) in made:
            eq = deg2 == deg and len(kn2) == len(kn) and bool(np.all(kn2 == kn))
            ctx.ok((b == b2) == eq, 'equality of bases is wrong')
            if eq:
                ctx.ok(hash(b) == hash(b2), 'equal bases have different hashes')
        cf = np.arange(1., len(b)+1)
        s1, s2 = BSpline(b, cf), BSpline(BSplineBasis(kn.copy(), deg), cf.copy())
        ctx.ok(s1 == s2, 'equal splines compare unequal')
        cf3 = cf.copy()
        cf3[a % len(cf3)] += 1.
        ctx.ok(not (s1 == BSpline(b, cf3)), 'different splines compare equal')
        made.append((b, kn, deg))
    ctx.label('steps', len(case['steps']))


# ---------------------------------------------------------------- change of basis
def g_transform(st):
    @st.composite
    def s(draw):
        N = draw(st.integers(2, 10))
        b = draw(lattice_basis(st, N, 4))
        raise_deg = draw(st.integers(0, 2))
        extra = sorted(draw(st.sets(st.integers(1, N-1), max_size=3)))
        return {'N': N, 'b': b, 'raise': raise_deg, 'extra': extra, 'length': draw(st.sampled_from([1., 10.])),
                'c': draw(gen.coeffs(st, b['deg'] + 1 + sum(b['mult'])))}
    return s()


def c_transform(case, ctx):
    BSpline, BSplineBasis = _spl()
    b, r = case['b'], case['raise']
    kn = lat_knots(b, case['N'], 0., case['length'])
    mult = dict(zip(b['inner'], [m + r for m in b['mult']]))
    for e in case['extra']:
        mult[e] = min(mult.get(e, 0) + 1, b['deg'] + r)
        if e in b['inner']:
            mult[e] = max(mult[e], b['mult'][b['inner'].index(e)] + r)
    inner = sorted(mult)
    big = {'deg': b['deg'] + r, 'inner': inner, 'mult': [mult[i] for i in inner]}
    kn2 = lat_knots(big, case['N'], 0., case['length'])
    ctx.nontrivial(len(kn2) > len(kn))
    B1, B2 = BSplineBasis(kn, b['deg']), BSplineBasis(kn2, big['deg'])
    c2 = B2.transform(B1).dot(np.array(case['c']))
    xs = np.array(ref.sample_points(kn2, (0.31, 0.77)))
    want = ref.evals(kn, b['deg'], case['c'], xs)
    ctx.close(ref.evals(kn2, big['deg'], c2, xs), want, 'curve after change of basis', 1e-7, scale=10.)
    ctx.close(BSpline(B2, c2)(xs), want, 'code evaluation after change of basis', 1e-7, scale=10.)


# ---------------------------------------------------------------- open (not fully clamped) knot vectors
def g_open(st):
    @st.composite
    def s(draw):
        deg = draw(st.integers(1, 4))
        n = draw(st.integers(deg + 1, deg + 7))               # number of coefficients
        first, last = draw(st.integers(1, deg + 1)), draw(st.integers(1, deg + 1))
        uni = draw(st.booleans())
        m = n + deg + 1 - (first - 1) - (last - 1)            # distinct positions before repeating the ends
        gaps = [2]*(m - 1) if uni else draw(st.lists(st.sampled_from([1, 2, 3, 0]), min_size=max(m - 1, 1), max_size=max(m - 1, 1)))
        return {'deg': deg, 'n': n, 'first': first, 'last': last, 'gaps': gaps,
                'start': draw(st.sampled_from([0., 0., -1.25, 2.])), 'length': draw(st.sampled_from([1., 1., 2.5, 10.])),
                'c': draw(gen.coeffs(st, n, -5., 5.)), 'c2': draw(gen.coeffs(st, n, -5., 5.)),
                'xs': draw(st.lists(gen.num(st, 0., 1., 1000), max_size=3)), 'k': draw(gen.num(st, -4., 4., 10))}
    return s()


def c_open(case, ctx):
    BSpline, BSplineBasis = _spl()
    deg, n = case['deg'], case['n']
    g = list(case['gaps'])
    br, seen = [0], 1
    for d in g:                                                # no more than `deg` equal knots in the middle
        if d == 0 and (seen >= deg or len(br) == 1 or len(br) == len(g)):
            d = 1
        seen = seen + 1 if d == 0 else 1
        br.append(br[-1] + d)
    kn = [br[0]]*(case['first'] - 1) + br + [br[-1]]*(case['last'] - 1)
    if len(kn) != n + deg + 1 or br[-1] == 0:
        return
    kn = case['start'] + case['length']*np.array(kn)/float(br[-1])
    a, b = kn[deg], kn[n]
    if not b > a:
        return
    ctx.nontrivial(case['first'] <= deg or case['last'] <= deg)
    ctx.label('first knots do not all coincide', int(case['first'] <= deg))
    xs = sorted(set([x for x in kn if a <= x <= b] + [a + (b - a)*f for f in case['xs']]
                    + [u + f*(v - u) for u, v in zip(kn[deg:n], kn[deg+1:n+1]) if v > u for f in (0.03, 0.5, 0.91)]))

    def ev(c, x):
        j = max([i for i in range(deg, n) if kn[i] < kn[i+1] and kn[i] <= x] or [deg])
        return ref.deboor(kn, deg, c, x, span=j)
    B = BSplineBasis(kn, deg)
    M = B(np.array(xs)).toarray()
    R = np.array([ev(np.eye(n), x) for x in xs])
    ctx.close(M, R, 'basis functions on an open knot vector differ from the reference', 1e-8)
    ctx.close(M.sum(axis=1), np.ones(len(xs)), 'basis functions do not sum to one inside the domain', 1e-8)
    c, c2 = np.array(case['c']), np.array(case['c2'])
    s, s2 = BSpline(B, c), BSpline(B, c2)
    X = np.array(xs)
    v, v2 = R.dot(c), R.dot(c2)
    ctx.close((s + s2)(X), v + v2, 'sum of splines on an open knot vector', 1e-7, scale=10.)
    ctx.close((s - case['k']*s2)(X), v - case['k']*v2, 'difference of splines on an open knot vector', 1e-7, scale=10.)
    ctx.close((s + case['k'])(X), v + case['k'], 'spline plus number on an open knot vector', 1e-7, scale=10.)


SUBS = [
    Sub('basis', g_basis, c_basis, quick=6000, shards=2, rule='more than one knot interval'),
    Sub('open_knots', g_open, c_open, quick=3000, shards=1, rule='not fully clamped at both ends'),
    Sub('algebra', g_alg, c_alg, quick=4800, shards=3, rule='more than one operation or interior knots'),
    Sub('near_knots', g_near, c_near, quick=1000, shards=1, rule='knots closer than a thousandth of the domain'),
    Sub('cache_history', g_cache, c_cache, quick=2000, shards=1, rule='more than two bases in the history'),
    Sub('change_of_basis', g_transform, c_transform, quick=2800, shards=2, rule='target basis strictly richer'),
]
