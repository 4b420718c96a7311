import numpy as np
from core import Sub
import ref
import gen

PROPERTY = 'S02'
RULE = ('Hypothesis draws clamped bases, coefficients, derivative orders and intervals; code results (numeric, and '
        'symbolic through CasADi functions) are compared with per-piece polynomial differentiation and Gauss-Legendre '
        'integration of an independent de Boor evaluation. Non-trivial: several knot intervals.')


def _m():
    import omgtools.basics.spline as sp
    import omgtools.basics.spline_extra as se
    return sp, se


def g_der(st):
    @st.composite
    def s(draw):
        k = draw(gen.knots_case(st, min_deg=1, max_deg=5))
        # an order-o derivative needs interior multiplicity <= degree - o + 1
        mm = max([1] + k['mult'])
        o = draw(st.integers(0, k['deg'] - mm + 1))
        return {'k': k, 'o': o, 'c': draw(gen.coeffs(st, gen.n_coeffs(k))), 'kind': draw(st.sampled_from(['np', 'mx', 'steps']))}
    return s()


def c_der(case, ctx):
    import casadi as cas
    sp, se = _m()
    k, o = case['k'], case['o']
    kn, deg = gen.knots_of(k), k['deg']
    ctx.nontrivial(len(k['gaps']) > 1 and o > 0)
    ctx.label('order %d' % o)
    xs = ref.sample_points(kn, (0.123, 0.777))
    # at a knot where the derivative jumps, one-sided: the code is left-continuous
    want = np.array([ref.deriv_eval(kn, deg, case['c'], x, o) for x in xs])
    h = min(np.diff(sorted(set(kn.tolist()))))
    sc = 10.*(2.*max(deg, 1)/h)**o*2**o
    if case['kind'] == 'mx':
        sym = cas.MX.sym('c', len(case['c']))
        s = sp.BSpline(sp.BSplineBasis(kn, deg), sym)
        f = cas.Function('f', [sym], [s.derivative(o)(np.array(xs))])
        got = np.array(f(cas.DM(case['c']))).ravel()
    else:
        s = sp.BSpline(sp.BSplineBasis(kn, deg), np.array(case['c']))
        if case['kind'] == 'steps' and o > 0:
            d = s
            for _ in range(o):
                d = d.derivative()
        else:
            d = s.derivative(o)
        got = d(np.array(xs))
        ctx.close(d.basis.knots, kn[o:len(kn)-o], 'knots of the derivative', 1e-12)
        ctx.ok(d.basis.degree == deg - o, 'degree of the derivative')
    ctx.close(got, want, 'derivative of order %d' % o, 1e-9, scale=sc)


def g_int(st):
    @st.composite
    def s(draw):
        k = draw(gen.knots_case(st, min_deg=0, max_deg=4))
        n = gen.n_coeffs(k)
        a, b = draw(gen.num(st, 0., 1., 1000)), draw(gen.num(st, 0., 1., 1000))
        snap = draw(st.sampled_from(['none', 'none', 'start', 'end', 'both', 'knot']))
        return {'k': k, 'c': draw(gen.coeffs(st, n)), 'a': a, 'b': b, 'snap': snap,
                'kind': draw(st.sampled_from(['mx', 'mxt', 'sx', 'np', 'dm']))}
    return s()


def c_int(case, ctx):
    import casadi as cas
    sp, se = _m()
    k = case['k']
    kn, deg = gen.knots_of(k), k['deg']
    ctx.nontrivial(len(k['gaps']) > 1)
    ctx.label('kind ' + case['kind'])
    L = kn[-1] - kn[0]
    a, b = kn[0] + case['a']*L, kn[0] + case['b']*L
    if case['snap'] in ('start', 'both'):
        a = kn[0]
    if case['snap'] in ('end', 'both'):
        b = kn[-1]
    if case['snap'] == 'knot':
        a = kn[len(kn)//2]
    a, b = min(max(a, kn[0]), kn[-1]), min(max(b, kn[0]), kn[-1])
    kind = case['kind']
    c = np.array(case['c'])
    basis = sp.BSplineBasis(kn, deg)
    want_s = ref.integral(kn, deg, c, kn[0], kn[-1])
    want_ab = ref.integral(kn, deg, c, a, b)
    grid = [x for x in ref.sample_points(kn)]
    want_run = [ref.integral(kn, deg, c, kn[0], x) for x in grid]
    sc = 10.*max(L, 1.)
    if kind == 'np':
        s = sp.BSpline(basis, c)
        ctx.close(float(s.integral()), want_s, 'integral over the support', 1e-9, scale=sc)
        ctx.close(se.running_integral(s)(np.array(grid)), want_run, 'running integral', 1e-9, scale=sc)
        r = se.running_integral(s)
        ctx.close(float(se.evalspline(sp.BSpline(basis, c), a)), ref.deboor(kn, deg, c, a), 'numeric evaluation', 1e-9,
                  scale=10.)
        col = sp.BSpline(basis, c.reshape(-1, 1))    # coefficients as a column, as returned by the solver
        ctx.close(float(se.definite_integral(col, a, b)), want_ab, 'definite integral (column coefficients)', 1e-9, scale=sc)
        ctx.ok(r.basis.degree == deg + 1, 'degree of the running integral')
        return
    if kind == 'dm':
        s = sp.BSpline(basis, cas.DM(c))
        got = float(se.definite_integral(sp.BSpline(basis, c), a, b))
        ctx.close(got, want_ab, 'definite integral', 1e-9, scale=sc)
        return
    typ = cas.SX if kind == 'sx' else cas.MX
    sym = typ.sym('c', len(c))
    s = sp.BSpline(basis, sym)
    if kind == 'mxt':
        ta, tb = cas.MX.sym('a'), cas.MX.sym('b')
        f = cas.Function('f', [sym, ta, tb], [se.definite_integral(s, ta, tb), s.integral(), se.evalspline(s, ta)])
        got = f(cas.DM(c), a, b)
        ctx.close(float(got[2]), ref.deboor(kn, deg, c, a), 'symbolic evaluation at a symbolic point', 1e-9, scale=10.)
    else:
        f = cas.Function('f', [sym], [se.definite_integral(s, a, b), s.integral()])
        got = f(cas.DM(c))
    ctx.close(float(got[0]), want_ab, 'definite integral [%.4g, %.4g]' % (a, b), 1e-9, scale=sc)
    ctx.close(float(got[1]), want_s, 'integral over the support (symbolic)', 1e-9, scale=sc)
    run = se.running_integral(s)
    g = cas.Function('g', [sym], [run(np.array(grid))])
    ctx.close(np.array(g(cas.DM(c))).ravel(), want_run, 'running integral (symbolic)', 1e-9, scale=sc)


def g_eval(st):
    @st.composite
    def s(draw):
        k = draw(gen.knots_case(st, min_deg=0, max_deg=5))
        return {'k': k, 'c': draw(gen.coeffs(st, gen.n_coeffs(k))), 'xs': draw(st.lists(gen.num(st, 0., 1., 1000), max_size=3)),
                'kind': draw(st.sampled_from(['mx', 'xnum', 'sx']))}
    return s()


def c_eval(case, ctx):
    import casadi as cas
    sp, se = _m()
    k = case['k']
    kn, deg = gen.knots_of(k), k['deg']
    ctx.nontrivial(len(k['gaps']) > 1)
    xs = ref.sample_points(kn, case['xs'])
    c = case['c']
    want = ref.evals(kn, deg, c, xs)
    basis = sp.BSplineBasis(kn, deg)
    typ = cas.SX if case['kind'] == 'sx' else cas.MX
    sym, x = typ.sym('c', len(c)), typ.sym('x')
    s = sp.BSpline(basis, sym)
    if case['kind'] == 'xnum':
        xs2 = xs[::3]
        f = cas.Function('f', [sym], [cas.vertcat(*[se.evalspline(s, float(q)) for q in xs2])])
        ctx.close(np.array(f(cas.DM(c))).ravel(), want[::3], 'evaluation with symbolic coefficients', 1e-9)
    else:
        f = cas.Function('f', [sym, x], [se.evalspline(s, x)])
        ctx.close([float(f(cas.DM(c), q)) for q in xs], want, 'evaluation with symbolic coefficients and point', 1e-9)
    ns = sp.BSpline(basis, np.array(c))
    # sampling helper (right-continuous at jumps, so only continuous curves at knots)
    if deg >= 1 and max([1] + k['mult']) <= deg:
        inside = [q for q in xs]
        ctx.close(se.sample_splines(ns, inside), want, 'sampled spline', 1e-9)
        r = se.sample_splines([ns, -ns], inside)
        ctx.close(r[1], -want, 'sampled list of splines', 1e-9)


def g_comb(st):
    @st.composite
    def s(draw):
        k1 = draw(gen.knots_case(st, min_deg=1, max_deg=3, mult='one'))
        return {'k': k1, 'c1': draw(gen.coeffs(st, gen.n_coeffs(k1), -4., 4.)), 'c2': draw(gen.coeffs(st, gen.n_coeffs(k1), -4., 4.))}
    return s()


def c_comb(case, ctx):
    """integral of squares/products as used in cost functions, and d/dt of running integral"""
    sp, se = _m()
    k = case['k']
    kn, deg = gen.knots_of(k), k['deg']
    ctx.nontrivial(len(k['gaps']) > 1)
    b = sp.BSplineBasis(kn, deg)
    s1, s2 = sp.BSpline(b, np.array(case['c1'])), sp.BSpline(b, np.array(case['c2']))
    # exact: Gauss on each piece with enough nodes
    xg, wg = np.polynomial.legendre.leggauss(deg + 1)
    u = sorted(set(kn.tolist()))
    tot = 0.
    for lo, hi in zip(u[:-1], u[1:]):
        m, h = 0.5*(lo+hi), 0.5*(hi-lo)
        for x, w in zip(xg, wg):
            tot += w*h*ref.deboor(kn, deg, case['c1'], m+h*x)*ref.deboor(kn, deg, case['c2'], m+h*x)
    L = kn[-1] - kn[0]
    ctx.close(float((s1*s2).integral()), tot, 'integral of a product', 1e-7, scale=16*max(L, 1.))
    d = se.running_integral(s1).derivative(1)
    xs = np.array(ref.sample_points(kn))
    ctx.close(d(xs), ref.evals(kn, deg, case['c1'], xs), 'derivative of the running integral', 1e-8, scale=4.)


SUBS = [
    Sub('derivative', g_der, c_der, quick=4800, shards=2, rule='order >= 1 and several intervals'),
    Sub('integrals', g_int, c_int, quick=4000, shards=3, rule='several intervals'),
    Sub('symbolic_eval', g_eval, c_eval, quick=2400, shards=2, rule='several intervals'),
    Sub('product_integral', g_comb, c_comb, quick=1600, shards=1, rule='several intervals'),
]
