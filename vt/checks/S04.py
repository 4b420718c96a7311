import numpy as np
from core import Sub
import ref
import gen

PROPERTY = 'S04'
RULE = ('Hypothesis draws 1-4 segments of 1-3 spline components of a common degree with 1-6 knot intervals each, '
        'durations over two orders of magnitude, and per junction and component an order of continuity (-1: jump, '
        '0: value, 1.. : that many derivatives in real time); each slot of the concatenated spline is compared with an '
        'independent evaluation of the segment. Non-trivial: at least two segments.')


def _m():
    import omgtools.basics.spline as sp
    import omgtools.basics.spline_extra as se
    return sp, se


def g_cat(st):
    @st.composite
    def s(draw):
        deg = draw(st.integers(1, 4))
        nseg = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 4]))
        ncomp = draw(st.integers(1, 3))
        nint = [draw(st.integers(1, 6)) for _ in range(nseg)]
        if draw(st.booleans()):
            nint = [nint[0]]*nseg
        times = [draw(st.sampled_from([1., 1., 0.5, 2., 3.3, 0.21, 12.])) for _ in range(nseg)]
        c = [[draw(gen.coeffs(st, nint[k] + deg, -8., 8.)) for _ in range(ncomp)] for k in range(nseg)]
        mode = draw(st.sampled_from(['same', 'same', 'mixed']))
        o = draw(st.integers(-1, deg))
        cont = [[o if mode == 'same' else draw(st.integers(-1, deg)) for _ in range(ncomp)] for k in range(nseg-1)]
        off = draw(st.sampled_from([0., 0., -20., 20.]))
        return {'deg': deg, 'nint': nint, 'times': times, 'c': c, 'cont': cont, 'off': off,
                'forced': draw(st.booleans()), 'column': draw(st.sampled_from([False, False, True])),
                'flat': draw(st.sampled_from([False, False, False, True]))}
    return s()


def end_derivs(kn, deg, c, T, o, at_end):
    """derivatives up to order o in real time at the start/end of a segment on [0, 1] lasting T"""
    span = ref.find_span(kn, deg, kn[-1] if at_end else kn[0])
    return [ref.deriv_eval(kn, deg, c, kn[-1] if at_end else kn[0], r, span=span)/T**r for r in range(o+1)]


def build(case):
    """coefficients with the prescribed orders of continuity"""
    deg = case['deg']
    kns = [np.r_[[0.]*deg, np.linspace(0, 1, n+1), [1.]*deg] for n in case['nint']]
    C = [[np.array(c)*1. + case['off'] for c in seg] for seg in case['c']]
    if case['flat']:
        C = [[np.ones(len(c))*c[0] for c in seg] for seg in C]
    jumps = []
    for k in range(1, len(C)):
        row = []
        for l in range(len(C[k])):
            o = case['cont'][k-1][l]
            prev = end_derivs(kns[k-1], deg, C[k-1][l], case['times'][k-1], deg, True)
            # derivative r at the start depends on coefficients 0..r only
            T = case['times'][k]
            for r in range(o+1):
                d = C[k][l].copy()
                d[r] = 0.
                v0 = end_derivs(kns[k], deg, d, T, r, False)[r]
                d[r] = 1.
                v1 = end_derivs(kns[k], deg, d, T, r, False)[r]
                C[k][l][r] = (prev[r] - v0)/(v1 - v0)
            new = end_derivs(kns[k], deg, C[k][l], T, deg, False)
            row.append((prev, new, o))
        jumps.append(row)
    return kns, C, jumps


def c_cat(case, ctx):
    sp, se = _m()
    deg, times = case['deg'], case['times']
    kns, C, jumps = build(case)
    mag = max(np.abs(c).max() for seg in C for c in seg)
    if mag > 1e4:
        ctx.skip('coefficients grew')
    # the concatenation deliberately treats derivatives equal within the solver tolerance as equal:
    # keep away from derivatives that are almost but not exactly equal
    for row in jumps:
        for prev, new, o in row:
            for r in range(o+1, deg+1):
                d = abs(prev[r]-new[r])
                if d <= 2e-2*(abs(prev[r]) + abs(new[r])) and d > 1e-12*max(1., abs(prev[r])):
                    ctx.skip('nearly equal derivatives')
                if r > o+1 or d > 1e-12:
                    break
    ctx.nontrivial(len(C) > 1)
    ctx.label('segments %d' % len(C))
    for row in case['cont']:
        for o in row:
            ctx.label('continuity %d' % o)
    col = case.get('column', False)
    segs = [[sp.BSpline(sp.BSplineBasis(kn, deg), c.reshape(-1, 1).copy() if col else c.copy()) for c in seg]
            for kn, seg in zip(kns, C)]
    orders = [o for row in case['cont'] for o in row]
    if case.get('forced') and orders and min(orders) == max(orders):
        # the caller states the continuity himself
        ctx.label('stated continuity')
        res = se.concat_splines(segs, list(times), n_insert=deg - orders[0])
    else:
        res = se.concat_splines(segs, list(times))
    ctx.ok(len(res) == len(C[0]), 'number of components')
    tot = sum(times)
    for l, s in enumerate(res):
        kn = np.array(s.basis.knots)
        cf = np.array(s.coeffs).ravel()
        ctx.close([kn[0], kn[-1]], [0., tot], 'domain of component %d' % l, 1e-9)
        ctx.ok(s.basis.degree == deg, 'degree changed')
        ctx.ok(len(cf) == len(kn) - deg - 1, 'component %d has %d coefficients for %d knots and degree %d', l, len(cf), len(kn), deg)
        ctx.ok(np.all(np.diff(kn) >= -1e-12), 'knots are not sorted')
        t0 = 0.
        for k, T in enumerate(times):
            f = np.array([0.003, 0.05, 0.21, 0.33, 0.5, 0.68, 0.81, 0.95, 0.997])
            want = ref.evals(kns[k], deg, C[k][l], f)
            got = ref.evals(kn, deg, cf, t0 + f*T)
            ctx.close(got, want, 'segment %d of component %d in the concatenated spline' % (k, l), 1e-6, scale=mag)
            ctx.close(np.array(s(t0 + f*T)).ravel(), want, 'segment %d of component %d evaluated by the code' % (k, l), 1e-6, scale=mag)
            t0 += T
    # operands untouched
    for seg, cs in zip(segs, C):
        for s, c in zip(seg, cs):
            ctx.close(s.coeffs, c, 'segment coefficients were modified', 1e-12)


SUBS = [
    Sub('concat', g_cat, c_cat, quick=3600, shards=3, rule='at least two segments'),
]
