import numpy as np
from core import Sub
import ref
import gen

PROPERTY = 'S03'
RULE = ('Hypothesis draws clamped bases (equidistant where a horizon shift requires it, with interior multiplicity), '
        'coefficients, shifts and intervals, and sequences of operations; the transformed curve is compared with an '
        'independent de Boor evaluation of the original (its last polynomial piece continued beyond the end). '
        'Non-trivial: several knot intervals and a non-zero shift.')


def _m():
    import omgtools.basics.spline as sp
    import omgtools.basics.spline_extra as se
    return sp, se


def ext_eval(kn, deg, c, x):
    """curve with its last polynomial piece continued beyond the end"""
    last = ref.find_span(kn, deg, kn[-1])
    if x > kn[-1]:
        return ref.deboor(kn, deg, c, x, span=last)
    return ref.deboor(kn, deg, c, x)


def sym_apply(fun, n, c, typ, *num):
    """fun(coeff_symbol) -> evaluates at c"""
    import casadi as cas
    s = typ.sym('c', n)
    f = cas.Function('f', [s], [fun(s)])
    return np.array(f(cas.DM(c))).ravel()


# ---------------------------------------------------------------- horizon shift
def g_shift(st):
    @st.composite
    def s(draw):
        deg = draw(st.integers(1, 5))
        n = draw(st.integers(2, 10))
        m = draw(st.sampled_from([1, 1, 1, 2]))
        m = min(m, deg)
        k = {'deg': deg, 'gaps': [1]*n, 'mult': [m]*(n-1), 'start': 0., 'length': draw(st.sampled_from([1., 1., 10., 0.5]))}
        return {'k': k, 'c': draw(gen.coeffs(st, gen.n_coeffs(k))), 'rep': draw(st.integers(1, 3)),
                'mx': draw(st.booleans())}
    return s()


def c_shift(case, ctx):
    import casadi as cas
    sp, se = _m()
    k = case['k']
    kn, deg = gen.knots_of(k), k['deg']
    dt = k['length']/len(k['gaps'])
    b = sp.BSplineBasis(kn, deg)
    c = np.array(case['c'])
    ctx.nontrivial()
    ctx.label('interior multiplicity %d' % k['mult'][0])
    ctx.label('shifts', case['rep'])
    fr = [0., 0.02, 0.3, 0.5, 0.81, 0.99, 1.]
    for r in range(case['rep']):
        if case['mx']:
            c2 = sym_apply(lambda s: cas.mtimes(cas.DM(se.shiftoverknot_T(b)), s), len(c), c, cas.MX)
        else:
            c2 = se.shift_over_knot(c, b)
        ctx.ok(np.size(c2) == len(c), 'shifted spline has another number of coefficients')
        xs = [kn[0] + dt*(i + f) for i in range(len(k['gaps'])) for f in fr[1:-1]]
        want = [ext_eval(kn, deg, c, x + dt) for x in xs]
        got = ref.evals(kn, deg, c2, xs)
        sc = max(10., np.abs(c).max())
        ctx.close(got, want, 'curve after shifting the horizon over one knot interval (shift %d)' % (r+1), 1e-7,
                  scale=sc*(4.**deg))
        # tight on the part that stays inside of the old horizon
        ins = [j for j, x in enumerate(xs) if x + dt < kn[-1]]
        ctx.close(np.array(got)[ins], np.array(want)[ins], 'curve in the retained horizon (shift %d)' % (r+1), 1e-8, scale=sc)
        c = np.asarray(c2).ravel()
        if np.abs(c).max() > 1e6:
            break


# ---------------------------------------------------------------- extrapolation
def g_extra(st):
    @st.composite
    def s(draw):
        k = draw(gen.knots_case(st, min_deg=1, max_deg=5, min_int=2, max_int=6))
        return {'k': k, 'c': draw(gen.coeffs(st, gen.n_coeffs(k))), 'f': draw(st.sampled_from([0.1, 0.5, 1., 1., 1.7]))}
    return s()


def c_extra(case, ctx):
    sp, se = _m()
    k = case['k']
    kn, deg = gen.knots_of(k), k['deg']
    b = sp.BSplineBasis(kn, deg)
    u = sorted(set(kn.tolist()))
    te = case['f']*(u[-1] - u[-2])
    c = np.array(case['c'])
    c2 = se.extrapolate(c, te, b)
    m = k['mult'][-1]
    ctx.nontrivial()
    ctx.label('last multiplicity %d' % m)
    kn2 = np.r_[kn[:-deg-1], [kn[-1]]*m, [kn[-1]+te]*(deg+1)]
    ctx.ok(len(c2) == len(kn2) - deg - 1, 'extrapolated spline has %d coefficients, expected %d', len(c2), len(kn2) - deg - 1)
    xs = ref.sample_points(kn2)
    want = np.array([ext_eval(kn, deg, c, x) for x in xs])
    got = ref.evals(kn2, deg, c2, xs)
    ctx.close(got, want, 'extrapolated curve', 1e-6, scale=10.*(2.*(1+case['f']))**deg)
    ins = [i for i, x in enumerate(xs) if x <= kn[-1]]
    ctx.close(got[ins], want[ins], 'curve on the original domain', 1e-7, scale=10.)


# ---------------------------------------------------------------- first knots forward/backward
def g_first(st):
    @st.composite
    def s(draw):
        k = draw(gen.knots_case(st, min_deg=1, max_deg=5, min_int=2, max_int=6))
        return {'k': k, 'c': draw(gen.coeffs(st, gen.n_coeffs(k))), 'f': draw(gen.num(st, 0., 0.95, 100)),
                'kind': draw(st.sampled_from(['np', 'mx', 'mxt', 'sx']))}
    return s()


def c_first(case, ctx):
    import casadi as cas
    sp, se = _m()
    k = case['k']
    kn, deg = gen.knots_of(k), k['deg']
    u = sorted(set(kn.tolist()))
    t = u[0] + case['f']*(u[1] - u[0])
    b = sp.BSplineBasis(kn, deg)
    c = np.array(case['c'])
    kind = case['kind']
    ctx.nontrivial(case['f'] > 0)
    ctx.label('kind ' + kind)
    if kind == 'np':
        c2 = se.shift_knot1_fwd(c, b, t)
        c3 = se.shift_knot1_bwd(c2, b, t)
        c4 = se.shift_knot1_bwd(c, b, t)
    else:
        typ = cas.SX if kind == 'sx' else cas.MX
        s = typ.sym('c', len(c))
        ts = typ.sym('t') if kind != 'mx' else t
        args = [s] + ([ts] if kind != 'mx' else [])
        val = [cas.DM(c)] + ([t] if kind != 'mx' else [])
        fw = se.shift_knot1_fwd(s, b, ts)
        f = cas.Function('f', args, [fw, se.shift_knot1_bwd(fw, b, ts), se.shift_knot1_bwd(s, b, ts)])
        c2, c3, c4 = [np.array(x).ravel() for x in f(*val)]
    kn2 = np.r_[[t]*(deg+1), kn[deg+1:]]
    xs = [x for x in ref.sample_points(kn2) if x >= t]
    ctx.close(ref.evals(kn2, deg, c2, xs), ref.evals(kn, deg, c, xs), 'curve after moving the first knots forward', 1e-8,
              scale=10.)
    amp = (1./(1.-case['f']))**deg
    ctx.close(c3, c, 'coefficients after moving the knots forward and back', 1e-9, scale=10.*amp*4)
    # backwards: c is given on [t, end]; continued backwards to the original start
    sp0 = ref.find_span(kn2, deg, kn2[-1] if len(u) == 2 else 0.5*(t+u[1]))
    xs3 = [x for x in ref.sample_points(kn) if x >= t]
    ctx.close(ref.evals(kn, deg, c4, xs3), ref.evals(kn2, deg, c, xs3), 'curve after moving the first knots backward', 1e-8,
              scale=10.*amp*4)
    Tm = se.shiftfirstknot_T(b, t, inverse=True)
    ctx.close(Tm[0].dot(Tm[1]), np.eye(len(b)), 'forward and backward matrices are inverse', 1e-9, scale=amp*4)


# ---------------------------------------------------------------- crop / insertion / scale
def g_crop(st):
    @st.composite
    def s(draw):
        k = draw(gen.knots_case(st, min_deg=1, max_deg=5, max_int=6))
        a, b = sorted([draw(st.integers(0, 100)), draw(st.integers(0, 100))])
        if a == b:
            a, b = (a-1, b) if a > 0 else (a, b+1)
        snap = draw(st.sampled_from(['none', 'none', 'lo', 'hi', 'full']))
        return {'k': k, 'c': draw(gen.coeffs(st, gen.n_coeffs(k))), 'a': a/100., 'b': b/100., 'snap': snap,
                'mx': draw(st.booleans())}
    return s()


def c_crop(case, ctx):
    import casadi as cas
    sp, se = _m()
    k = case['k']
    kn, deg = gen.knots_of(k), k['deg']
    u = sorted(set(kn.tolist()))
    L = u[-1] - u[0]
    lo, hi = u[0] + case['a']*L, u[0] + case['b']*L
    if case['snap'] == 'lo':
        lo = max(q for q in u if q <= lo + 1e-12)
    elif case['snap'] == 'hi':
        hi = min([q for q in u if q >= hi - 1e-12] or [u[-1]])
    elif case['snap'] == 'full':
        lo, hi = u[0], u[-1]
    # keep away from knots by float noise only
    for q in u:
        if 0 < abs(lo - q) < 1e-9:
            lo = q
        if 0 < abs(hi - q) < 1e-9:
            hi = q
    b = sp.BSplineBasis(kn, deg)
    c = np.array(case['c'])
    if case['mx']:
        s = cas.MX.sym('c', len(c))
        r = se.crop_spline(sp.BSpline(b, s), lo, hi)
        f = cas.Function('f', [s], [r.coeffs])
        c2 = np.array(f(cas.DM(c))).ravel()
    else:
        r = se.crop_spline(sp.BSpline(b, c), lo, hi)
        c2 = r.coeffs
    kn2 = np.array(r.basis.knots)
    ctx.nontrivial(len(u) > 2 and (lo > u[0] or hi < u[-1]))
    ctx.label('snap ' + case['snap'])
    ctx.close([kn2[0], kn2[-1]], [lo, hi], 'domain of the cropped spline', 1e-12)
    ctx.close(kn2[:deg+1], [lo]*(deg+1), 'start knots are not clamped', 1e-12)
    ctx.close(kn2[-deg-1:], [hi]*(deg+1), 'end knots are not clamped', 1e-12)
    ctx.ok(len(c2) == len(kn2) - deg - 1, 'cropped spline has %s coefficients for %s knots', len(c2), len(kn2))
    xs = [x for x in ref.sample_points(kn2) if lo < x <= hi]
    ctx.close(ref.evals(kn2, deg, c2, xs), ref.evals(kn, deg, c, xs), 'cropped curve', 1e-8, scale=10.)


def g_ins(st):
    @st.composite
    def s(draw):
        k = draw(gen.knots_case(st, min_deg=1, max_deg=5, max_int=5))
        pts = draw(st.lists(st.integers(1, 39), min_size=0, max_size=4))
        return {'k': k, 'c': draw(gen.coeffs(st, gen.n_coeffs(k))), 'pts': pts,
                'factor': draw(st.sampled_from([0.5, 2., 7.5])), 'shift': draw(st.sampled_from([0., 1., -3.]))}
    return s()


def c_ins(case, ctx):
    sp, se = _m()
    k = case['k']
    kn, deg = gen.knots_of(k), k['deg']
    u = sorted(set(kn.tolist()))
    L = u[-1] - u[0]
    pts = sorted(set(u[0] + L*p/40. for p in case['pts']))
    pts = [p for p in pts if min(abs(p - q) for q in u) > 1e-3*L or p in u]
    b = sp.BSplineBasis(kn, deg)
    c = np.array(case['c'])
    s = sp.BSpline(b, c)
    xs = ref.sample_points(kn, (0.11, 0.72))
    want = ref.evals(kn, deg, c, xs)
    ctx.nontrivial(len(pts) > 0)
    # matrix based insertion (allows repeated knots)
    rep = [p for p in pts if p not in u]
    T, kn2 = se.knot_insertion_T(b, rep)
    kn2 = np.array(kn2)
    ctx.close(kn2, sorted(kn.tolist() + rep), 'knots after insertion', 1e-12)
    ctx.close(ref.evals(kn2, deg, T.dot(c), xs), want, 'curve after knot insertion', 1e-8, scale=10.)
    if deg >= 2 and rep:
        T, kn3 = se.knot_insertion_T(b, [rep[0], rep[0]])
        ctx.close(ref.evals(np.array(kn3), deg, T.dot(c), xs), want, 'curve after double knot insertion', 1e-8, scale=10.)
    # spline method: new knots only
    r = s.insert_knots(pts)
    ctx.close(r.basis.knots, kn2, 'knots after inserting into the spline', 1e-12)
    ctx.close(ref.evals(kn2, deg, r.coeffs, xs), want, 'curve after inserting knots into the spline', 1e-6, scale=10.)
    q = s.scale(case['factor'], shift=case['shift'])
    ctx.close(q.basis.knots, kn*case['factor'] + case['shift'], 'knots after time scaling', 1e-12)
    ctx.close(q.coeffs, c, 'coefficients after time scaling', 1e-12)
    xin = [x for x in xs if min(abs(x - w) for w in u) > 1e-4*L]
    ctx.close(q(np.array(xin)*case['factor'] + case['shift']), ref.evals(kn, deg, c, xin), 'curve after time scaling', 1e-7,
              scale=10.)


# ---------------------------------------------------------------- shift to [t, T] on equidistant knots
def g_piece(st):
    @st.composite
    def s(draw):
        deg = draw(st.integers(1, 5))
        n = draw(st.integers(1, 8))
        return {'deg': deg, 'n': n, 'poly': draw(gen.coeffs(st, deg + 1, -3., 3.)), 'f': draw(gen.num(st, 0., 0.9, 100)),
                'length': draw(st.sampled_from([1., 1., 4.]))}
    return s()


def c_piece(case, ctx):
    """a motion that is one polynomial is representable on any knots: extracting [t, T] is exact"""
    sp, se = _m()
    deg, n, L = case['deg'], case['n'], case['length']
    kn = np.r_[[0.]*deg, np.linspace(0., L, n+1), [L]*deg]
    # coefficients of a global polynomial (blossom through interpolation at Greville points)
    p = np.array(case['poly'])
    N = len(kn) - deg - 1
    xs = np.linspace(0.003*L, 0.997*L, 4*N)
    c = np.linalg.lstsq(ref.basis_matrix(kn, deg, xs), np.polynomial.polynomial.polyval(xs/L, p), rcond=None)[0]
    t = case['f']*L
    ctx.nontrivial(t > 0 and n > 1)
    c2 = se.shift_spline(c, t, sp.BSplineBasis(kn, deg))
    kn2 = np.r_[[t]*deg, np.linspace(t, L, n+1), [L]*deg]
    ctx.ok(len(c2) == N, 'number of coefficients changed')
    q = np.linspace(t, L, 23)
    ctx.close(ref.evals(kn2, deg, c2, q), np.polynomial.polynomial.polyval(q/L, p), 'extracted piece', 1e-6, scale=3.*deg)


# ---------------------------------------------------------------- receding-horizon history
def g_hist(st):
    @st.composite
    def s(draw):
        deg = draw(st.integers(1, 4))
        n = draw(st.integers(3, 8))
        k = {'deg': deg, 'gaps': [1]*n, 'mult': [1]*(n-1), 'start': 0., 'length': draw(st.sampled_from([1., 8.]))}
        ops = draw(st.lists(st.tuples(st.sampled_from(['fwd', 'bwd', 'shift', 'eval']), gen.num(st, 0.05, 0.9, 100)),
                            min_size=2, max_size=6))
        return {'k': k, 'c': draw(gen.coeffs(st, gen.n_coeffs(k), -3., 3.)), 'ops': [list(o) for o in ops]}
    return s()


def c_hist(case, ctx):
    """model: the curve on absolute time; operations move the window but never the curve"""
    sp, se = _m()
    k = case['k']
    kn, deg = gen.knots_of(k), k['deg']
    n, L = len(k['gaps']), k['length']
    dt = L/n
    b = sp.BSplineBasis(kn, deg)
    c0 = np.array(case['c'])
    c, off, t1 = c0.copy(), 0., 0.    # window start offset; first-knot position within the first interval
    done = 0
    for op, f in case['ops']:
        if op == 'fwd' and t1 == 0.:
            t1 = f*dt
            c = se.shift_knot1_fwd(c, b, t1)
        elif op == 'bwd' and t1 > 0.:
            c = se.shift_knot1_bwd(c, b, t1)
            t1 = 0.
        elif op == 'shift' and t1 == 0. and off + dt < L*0.75:
            c = se.shift_over_knot(c, b)
            off += dt
        else:
            continue
        done += 1
        knc = np.r_[[t1]*(deg+1), kn[deg+1:]]
        xs = np.linspace(t1, L, 30)
        xs = [x for x in xs if x + off <= L]
        sc = 10.*(1./(1.-0.9))**deg
        ctx.close(ref.evals(knc, deg, c, xs), [ref.deboor(kn, deg, c0, min(x + off, L)) for x in xs],
                  'curve after %s' % case['ops'], 1e-9, scale=sc)
    ctx.nontrivial(done >= 2)


SUBS = [
    Sub('horizon_shift', g_shift, c_shift, quick=2400, shards=2, rule='every case'),
    Sub('extrapolate', g_extra, c_extra, quick=2000, rule='every case'),
    Sub('first_knots', g_first, c_first, quick=2800, shards=2, rule='non-zero shift'),
    Sub('crop', g_crop, c_crop, quick=2400, rule='proper sub-interval of several intervals'),
    Sub('insert_scale', g_ins, c_ins, quick=2000, rule='at least one knot inserted'),
    Sub('piece', g_piece, c_piece, quick=1200, rule='non-zero start and several intervals'),
    Sub('history', g_hist, c_hist, quick=1600, rule='at least two window operations'),
]
