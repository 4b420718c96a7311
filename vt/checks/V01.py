from importlib import import_module as im
import numpy as np
from core import Sub
import gen
import veh

PROPERTY = 'V01'
RULE = ('Hypothesis draws a vehicle type, its dimensions, the number of knot intervals, the horizon time, all spline '
        'coefficients, the start of the time axis and the sampling; signals are compared with reference kinematics '
        '(Gauss integration of the documented model per polynomial piece), simulation and prediction with an RK4 '
        'integration of the documented equations under linearly interpolated inputs, over histories of several plans. '
        'Non-trivial: the motion moves and (where the model has one) turns.')

RANGE = {  # per spline: coefficient range
    'holonomic': [(-5, 5)]*2, 'orient': [(-5, 5), (-5, 5), (-1.5, 1.5)], 'holo1d': [(-5, 5)], 'holo3d': [(-5, 5)]*3, 'tool': [(-5, 5)]*3,
    'dubins': [(0.05, 1.), (-2, 2)], 'bicycle': [(0.05, 1.), (-1.5, 1.5)], 'agv': [(0.05, 1.), (-1.5, 1.5)],
    'quad': [(-3, 3)]*2, 'quad3d': [(5., 14.), (-.3, .3), (-.3, .3)], 'squad3d': [(-3, 3)]*3, 'trailer': [(-1, 1), (0.05, 1.), (-1.5, 1.5)]}


def g_coeffs(st, kind, n):
    @st.composite
    def s(draw):
        out = []
        for lo, hi in RANGE[kind]:
            mode = draw(st.integers(0, 5))
            if mode == 0:
                out.append([draw(gen.num(st, lo, hi))]*n)
            elif mode == 1:
                a, b = draw(gen.num(st, lo, hi)), draw(gen.num(st, lo, hi))
                out.append([round(float(x), 6) for x in np.linspace(a, b, n)])
            else:
                out.append(draw(gen.coeffs(st, n, lo, hi)))
        return out
    return s()


def g_motion(st, kinds=veh.KINDS):
    @st.composite
    def s(draw):
        kind = gen.pick(draw, st, kinds)
        deg = veh.DEG[kind]
        if kind == 'dubins':
            deg = draw(st.sampled_from([3, 3, 2, 4]))
        m = draw(st.integers(1, 8))
        T = draw(st.sampled_from([1., 5., 10., 3.3, 0.7, 20.]))
        if kind in ('quad', 'squad3d'):
            T = draw(st.sampled_from([5., 10., 3.3]))
        return {'kind': kind, 'deg': deg, 'm': m, 'T': T, 'c': draw(g_coeffs(st, kind, m+deg)), 'L': draw(st.sampled_from([0.4, 0.2, 1.])),
                't0': draw(st.sampled_from([0., 0., 0.03, 0.1, 0.37, 0.62])), 'N': draw(st.integers(5, 40)),
                'pos': [draw(gen.num(st, -5, 5)) for _ in range(3)], 'vel': [draw(gen.num(st, -1, 1)) for _ in range(3)]}
    return s()


def setup(case, options=None):
    v = veh.make(case['kind'], length=case['L'], knots=case['m'], degree=case['deg'] if case['kind'] == 'dubins' else None, options=options)
    mo = veh.Motion(case['deg'], case['m'], case['c'], case['T'])
    return v, mo


def x_init(case, mo, t0):
    """requested state at t0, consistent with the splines"""
    kind = case['kind']
    base = list(case['pos'][:2])
    if kind == 'quad3d':
        base = list(case['pos']) + list(case['vel'])
    if kind == 'trailer':
        base = [0., 0., 0.] + base
    return veh.states(kind, mo, [t0], base, case['L'])[:, 0]


def set_init(v, kind, x, u=None):
    if kind == 'trailer':
        v.lead_veh.set_initial_conditions(np.array(x[3:]), None if u is None else np.array(u))
        v.set_initial_conditions(float(x[2]))
    elif kind == 'holo1d':
        v.set_initial_conditions(np.array(x), None if u is None else np.array(u))
    else:
        v.set_initial_conditions(np.array(x), None if u is None else np.array(u))


def bsplines(v, case, c=None):
    BSpline = im('omgtools.basics.spline').BSpline
    return [BSpline(v.basis, np.array(cc, dtype=float)) for cc in (case['c'] if c is None else c)]


def smooth(case, mo, t, o):
    """does the o-th derivative exist at t?"""
    return o < case['deg'] or not mo.at_knot(t)


ORDER = {'bicycle': 2, 'agv': 2, 'quad': 3, 'squad3d': 3}    # highest derivative in the input


def thrust_ok(case, mo, times):
    if case['kind'] == 'quad':
        return all(np.hypot(mo.s(0, t, 2), mo.s(1, t, 2)+veh.G) > 0.5 for t in times)
    if case['kind'] == 'squad3d':
        return all(np.hypot(mo.s(0, t, 2), mo.s(2, t, 2)+veh.G) > 0.5 for t in times)
    return True


def wrap(a):
    return (a+np.pi) % (2*np.pi) - np.pi


ANG = {'quad': [4], 'quad3d': [6, 7], 'squad3d': [6, 7], 'orient': [2], 'dubins': [2], 'bicycle': [2, 3], 'agv': [2, 3], 'trailer': [2, 5]}


def c_signals(case, ctx):
    kind, T = case['kind'], case['T']
    v, mo = setup(case)
    ctx.label(kind)
    t0 = case['t0']*T
    x0 = x_init(case, mo, t0)
    set_init(v, kind, x0)
    h = (T-t0)/case['N']
    if case['t0'] == 0. and case['N'] % 2:
        ta = None
        times = np.linspace(0., case['N']*h, case['N']+1)
    else:
        ta = times = np.linspace(t0, t0+case['N']*h, case['N']+1)
    dense = np.linspace(t0, T, 100)
    if not thrust_ok(case, mo, dense):
        ctx.skip('free fall')
    cur = case['pos'][0]
    v.store(cur, h, [bsplines(v, case)], [T], ta)
    tr = v.trajectories
    X = veh.states(kind, mo, times, x0, case['L'])
    n = len(times)
    for key in tr:
        ctx.ok(tr[key].shape[-1] == n, '%s: signal %s has %s samples, time axis %d', kind, key, tr[key].shape, n)
    ctx.close(tr['time'].ravel(), times-times[0]+cur, kind+': time')
    ctx.ok(tr['state'].shape == X.shape, '%s: state has shape %s, expected %s', kind, tr['state'].shape, X.shape)
    sc = 1. + np.max(np.abs(X), axis=1)
    for i in range(X.shape[0]):
        d = tr['state'][i]-X[i]
        if i in ANG.get(kind, []):
            d = wrap(d)
        ok = np.array([smooth(case, mo, t, 2) for t in times]) if kind in ('quad', 'squad3d') else np.ones(n, bool)
        if kind in ('bicycle', 'agv') and i == 3:
            ok = np.array([smooth(case, mo, t, 1) for t in times])
        d = np.where(ok, d, 0.)
        ctx.ok(np.all(np.abs(d) < 1e-6*sc[i]), '%s: state %d differs from the motion equations by %.3g (at t=%.4g of %.4g)', kind, i,
               np.max(np.abs(d)), times[int(np.argmax(np.abs(d)))], T)
    for k, t in enumerate(times):
        if smooth(case, mo, t, ORDER.get(kind, 1)):
            ctx.close(tr['input'][:, k], veh.inputs(kind, mo, t, case['L']), '%s: input at t=%.4g' % (kind, t), 1e-6)
        ctx.close(tr['pose'][:, k], veh.pose(kind, tr['state'][:, k]), '%s: pose at t=%.4g' % (kind, t), 1e-9)
        ctx.close(tr['splines'][:, k], [mo.s(j, t) for j in range(len(case['c']))], '%s: splines at t=%.4g' % (kind, t), 1e-8)
        if 'v_tot' in tr:
            ctx.close(tr['v_tot'][0, k], np.linalg.norm([mo.s(j, t, 1) for j in range(2 if kind == 'orient' else len(case['c']))]),
                      '%s: total speed at t=%.4g' % (kind, t), 1e-7)
        nl = 2 if kind == 'orient' else len(case['c'])
        for key, o in (('a', 2), ('dinput', 2), ('ddinput', 3), ('dspl', 1), ('ddspl', 2), ('dddspl', 3)):
            if key in tr and smooth(case, mo, t, o):
                ctx.close(tr[key][:, k], [mo.s(j, t, o) for j in range(nl)], '%s: %s at t=%.4g' % (kind, key, t), 1e-6)
        if 'acc' in tr and kind == 'dubins':
            a = mo.s(0, t, 1)*(1+mo.s(1, t)**2) + 2*mo.s(0, t)*mo.s(1, t)*mo.s(1, t, 1)
            ctx.close(tr['acc'][:, k], [a], '%s: acceleration at t=%.4g' % (kind, t), 1e-6)
        if 'delta' in tr:
            ctx.close(tr['delta'][0, k], tr['state'][3, k], 'steering signal', 1e-12)
        if 'r1' in tr:
            ctx.close(tr['r1'][:, k], [mo.s(0, t), mo.s(0, t, 1)], 'trailer angle signal', 1e-7)
    # signals at the knots describe the same motion
    kn = v.trajectories_kn
    tk = kn['time'].ravel()-cur+times[0]
    want = [times[0]] + [b for b in mo.brk[1:] if b > times[0]+1e-12]
    ctx.ok(len(tk) == len(want), '%s: knot signals have %d instants, expected %d', kind, len(tk), len(want))
    ctx.close(tk, want, kind+': knot instants')
    XK = veh.states(kind, mo, want, x0, case['L'])
    for i in range(X.shape[0]):
        if (kind in ('quad', 'squad3d') and i >= 4 and case['deg'] < 3) or (kind in ('bicycle', 'agv') and i == 3 and case['deg'] < 2):
            continue
        d = kn['state'][i]-XK[i]
        d = wrap(d) if i in ANG.get(kind, []) else d
        ctx.ok(np.all(np.abs(d) < 1e-6*sc[i]), '%s: state %d at the knots differs by %.3g', kind, i, np.max(np.abs(d)))
    # the vehicle's own equations are the documented ones
    rng = np.random.RandomState(case['N'])
    for _ in range(3):
        x = rng.uniform(-1, 1, X.shape[0])
        u = rng.uniform(-1, 1, tr['input'].shape[0])
        ctx.close(v.ode(x, u), veh.ode(kind, x, u, case['L']), kind+': motion equations', 1e-9)
    ctx.nontrivial(np.max(np.abs(X-X[:, :1])) > 0.05 and (kind not in ANG or np.max(np.abs(X[ANG[kind]]-X[ANG[kind], :1])) > 0.02))


# ------------------------------------------------------------------ standstill

def g_still(st):
    @st.composite
    def s(draw):
        kind = draw(st.sampled_from(['bicycle', 'agv']))
        m = draw(st.integers(3, 8))
        n = m+2
        sc = draw(st.sampled_from([1., 0.2, 0.02]))
        v = [round(sc*x, 6) for x in draw(gen.coeffs(st, n, 0.05, 1.))]
        lo, hi = draw(st.integers(0, 2)), draw(st.integers(0, 2))
        for k in range(lo):
            v[k] = 0.
        for k in range(hi):
            v[n-1-k] = 0.
        # orientation: constant steering-like profile, flat where the vehicle stands still
        q = [draw(gen.num(st, -1, 1))]
        for k in range(1, n):
            w = min(v[k-1], v[k]) if k < n else 0.
            q.append(q[-1] + draw(gen.num(st, -0.5, 0.5))*w/sc)
        if lo:
            q[1] = q[0]
        if hi:
            q[n-2] = q[n-1]
        return {'kind': kind, 'deg': 2, 'm': m, 'T': draw(st.sampled_from([2., 5., 10.])), 'c': [v, q], 'L': draw(st.sampled_from([0.4, 0.2, 1.])),
                't0': 0., 'N': draw(st.sampled_from([50, 100, 500, 1500])), 'pos': [0., 0., 0.], 'vel': [0., 0., 0.]}
    return s()


def c_still(case, ctx):
    """steering angle around standstill"""
    kind, T = case['kind'], case['T']
    v, mo = setup(case)
    ctx.label(kind)
    x0 = x_init(case, mo, 0.)
    sg = 1. if kind == 'bicycle' else -1.
    dv, ddq = mo.s(0, 0., 1), mo.s(1, 0., 2)
    set_init(v, kind, x0)
    h = T/case['N']
    v.store(0., h, [bsplines(v, case)], [T])
    tr = v.trajectories
    d = tr['state'][3]
    ctx.ok(np.all(np.isfinite(tr['state'])) and np.all(np.isfinite(tr['input'])), '%s: signals are not finite', kind)
    ctx.ok(np.all(np.abs(d) <= np.pi/2+1e-9), '%s: driving forward with a steering angle of %.4g rad (beyond 90 degrees)', kind, d[int(np.argmax(np.abs(d)))])
    for k in range(case['N']+1):
        t = k*h
        vt, dq, q = mo.s(0, t), mo.s(1, t, 1), mo.s(1, t)
        if vt > 1.1e-3 or (0 < k < case['N'] and abs(dq) > 1.1e-3):
            ctx.close(d[k], np.arctan2(sg*2*case['L']*dq, vt*(1+q*q)**2), '%s: steering angle at t=%.4g (speed %.3g)' % (kind, t, vt), 1e-6)
    if mo.s(0, 0.) == 0. and abs(mo.s(1, 0., 1)) < 1e-12 and dv > 1e-3:
        q = mo.s(1, 0.)
        ctx.label('start from standstill')
        ctx.close(d[0], np.arctan(sg*2*case['L']*ddq/(dv*(1+q*q)**2)), '%s: steering angle at the start from standstill' % kind, 1e-6)
    ctx.nontrivial((case['c'][0][0] == 0. or case['c'][0][-1] == 0.) and np.ptp(case['c'][1]) > 0.02)


# ------------------------------------------------------------------ simulation and prediction history

def g_hist(st):
    @st.composite
    def s(draw):
        base = draw(g_motion(st))
        kind, n = base['kind'], base['m']+base['deg']
        ts = draw(st.sampled_from([0.01, 0.02, 0.1, 0.05, 0.03]))
        base['T'] = draw(st.sampled_from([2., 3., 1.5] if ts >= 0.05 else [1., 0.6]))
        if kind in ('quad', 'squad3d'):
            base['T'] = max(base['T'], 2.)
            base['c'] = [[x/10. for x in c] for c in base['c']]
        N = int(base['T']/ts + 1e-9)
        rounds = []
        for _ in range(draw(st.integers(1, 3))):
            rounds.append({'c': draw(g_coeffs(st, kind, n)) if kind not in ('quad', 'squad3d') else
                           [[x/10. for x in c] for c in draw(g_coeffs(st, kind, n))],
                           'n': draw(st.integers(1, max(1, min(12, N-6)))), 'delay': draw(st.integers(0, 2))})
        base['ts'], base['rounds'] = ts, rounds
        base['ideal'] = draw(st.sampled_from([None, None, None, 'update', 'prediction', 'both', 'lag']))
        return base
    return s()


def c_hist(case, ctx):
    kind, T, ts = case['kind'], case['T'], case['ts']
    opt = {}
    if case['ideal'] in ('update', 'both'):
        opt['ideal_update'] = True
    if case['ideal'] in ('prediction', 'both'):
        opt['ideal_prediction'] = True
    if case['ideal'] == 'lag':
        opt['1storder_delay'], opt['time_constant'] = True, 0.2
    v, mo = setup(case, opt)
    ctx.label(kind)
    ctx.label('mode: %s' % case['ideal'])
    L = case['L']
    x0 = x_init(case, mo, 0.)
    set_init(v, kind, x0)
    rec = None
    now = 0.
    for r, rd in enumerate(case['rounds']):
        c = case['c'] if r == 0 else rd['c']
        mo = veh.Motion(case['deg'], case['m'], c, T)
        if not thrust_ok(case, mo, np.linspace(0, T, 60)):
            ctx.skip('free fall')
        if r and kind == 'trailer':
            # the leading vehicle is not simulated itself; the trailer hands over its part of the record when drawn
            v.lead_veh.update_signals({k: v.signals[k][3:] if k != 'input' else v.signals[k] for k in ('state', 'pose', 'input')})
        v.store(now, ts, [bsplines(v, case, c)], [T])
        tr = v.trajectories
        N = tr['state'].shape[1]-1
        ctx.ok(N == int(T/ts+1e-9), '%s: %d samples in a plan of %g s at %g s', kind, N, T, ts)
        n = min(rd['n'], N)
        sim = n*ts if r % 2 else round(n*ts, 6)
        if rec is None:
            rec = {k: tr[k][:, :1].copy() for k in tr}
        before = {k: rec[k].shape[1] for k in rec}
        U = tr['input'].copy()
        v.simulate(sim, ts)
        for key in tr:
            ctx.ok(v.signals[key].shape[1] == before[key]+n, '%s: after simulating %g s at %g s the record of %s has %d new samples, expected %d', kind,
                   sim, ts, key, v.signals[key].shape[1]-before[key], n)
            ctx.ok(np.array_equal(v.signals[key][:, :before[key]], rec[key]), '%s: simulation changed the past of %s', kind, key)
            if key not in ('state', 'input', 'pose') or case['ideal'] in ('update', 'both'):
                ctx.close(v.signals[key][:, before[key]:], tr[key][:, 1:n+1], '%s: recorded %s' % (kind, key), 1e-12)
        xs = rec['state'][:, -1]
        if case['ideal'] not in ('update', 'both'):
            Ua = U
            if case['ideal'] == 'lag':
                Ua = veh.rk(kind, rec['input'][:, -1], U, ts, f=lambda x, u: (u-x)/0.2, n=n)
                ctx.close(v.signals['input'][:, before['input']:], Ua[:, 1:n+1], '%s: lagging input' % kind, 2e-5)
            else:
                ctx.close(v.signals['input'][:, before['input']:], U[:, 1:n+1], '%s: applied input' % kind, 1e-12)
            want = veh.rk(kind, xs, Ua, ts, L, n=n)
            bad = np.max(np.abs(want))
            if np.isfinite(bad) and bad < 50 and (kind not in ('bicycle', 'agv') or np.max(np.abs(want[3])) < 1.3):
                ctx.close(v.signals['state'][:, before['state']:], want[:, 1:], '%s: simulated state' % kind, 3e-5)
                if r == 0 and case['ideal'] is None and kind not in ('bicycle', 'agv', 'trailer', 'orient', 'dubins'):
                    ctx.label('reproduces plan')
                    # |error| <= interpolation error of the inputs: h^2/8 max|u''| integrated (twice for quadrotors)
                    lim = 0.05*(1+np.max(np.abs(tr['state']))) if ts <= 0.02 else np.inf
                    if case['m'] <= 3:
                        d = np.abs(v.signals['state'][:, :n+1]-tr['state'][:, :n+1])
                        if kind in ('quad', 'squad3d', 'quad3d'):
                            d = d[:, 1:]
                        ctx.ok(np.max(d) < lim, '%s: simulation with the planned inputs ends %.3g from the plan', kind, np.max(d))
            else:
                ctx.label('state too large to compare')
            for k in range(before['pose'], v.signals['pose'].shape[1]):
                ctx.close(v.signals['pose'][:, k], veh.pose(kind, v.signals['state'][:, k]), '%s: recorded pose' % kind, 1e-9)
        # prediction over the stretch just executed (what the planner does before it plans again)
        dly = min(rd['delay'], N-n)
        v.prediction = dict(v.prediction)
        v.predict(now+sim, sim, ts, delay=dly)
        if case['ideal'] in ('prediction', 'both'):
            for key in tr:
                ctx.close(v.prediction[key], tr[key][:, n+dly], '%s: ideal prediction of %s' % (kind, key), 1e-12)
        else:
            want = veh.rk(kind, xs, U[:, dly:], ts, L, n=n)
            if np.all(np.abs(want) < 50) and (kind not in ('bicycle', 'agv') or np.max(np.abs(want[3])) < 1.3):
                ctx.close(v.prediction['state'], want[:, -1], '%s: predicted state after %d samples (delay %d)' % (kind, n, dly), 3e-5)
            ctx.close(v.prediction['input'], U[:, n+dly], '%s: predicted input' % kind, 1e-12)
            ctx.close(v.prediction['pose'], veh.pose(kind, v.prediction['state']), '%s: predicted pose' % kind, 1e-12)
        for key in ('traj_storage', 'pred_storage', 'traj_storage_kn'):
            tot = v.signals['time'].shape[1]-1
            st_ = getattr(v, key)['state' if key != 'pred_storage' else 'state'] if 'state' in getattr(v, key) else []
            if key != 'pred_storage':
                ctx.ok(len(st_) == tot, '%s: %s holds %d plans for %d executed samples', kind, key, len(st_), tot)
        rec = {k: v.signals[k].copy() for k in v.signals}
        now += n*ts
        # next plan of integrating vehicles starts where the record ends
        if kind == 'quad3d':
            v.prediction['state'] = v.signals['state'][:, -1].copy()
    ctx.nontrivial(len(case['rounds']) > 1 and np.max(np.abs(rec['state']-rec['state'][:, :1])) > 0.02)


# ------------------------------------------------------------------ boundary conditions

REST = {'holonomic': 4, 'orient': 4, 'holo1d': 4, 'holo3d': 4, 'tool': 4, 'quad': 5, 'squad3d': 5}


def g_bnd(st):
    @st.composite
    def s(draw):
        kinds = [k for k in veh.KINDS if k != 'holo1d']
        base = draw(g_motion(st, kinds))
        kind, n = base['kind'], base['m']+base['deg']
        if n < 2*base['deg']+2:
            base['m'] = base['deg']+3
            n = base['m']+base['deg']
            base['c'] = draw(g_coeffs(st, kind, n))
        if kind == 'dubins':
            pass
        c = base['c']
        # motion at rest at the end
        if kind in REST:
            for k in range(len(c)):
                c[k][-base['deg']-1:] = [c[k][-1]]*(base['deg']+1)
        elif kind in ('dubins', 'trailer'):
            o = 1 if kind == 'trailer' else 0
            c[o][-1] = 0.
            c[o+1][-2] = c[o+1][-1]
        elif kind in ('bicycle', 'agv'):
            c[0][-1] = c[0][-2] = 0.
            c[1][-3] = c[1][-2] = c[1][-1]
        base['problem'] = draw(st.sampled_from(['freeT', 'freeT', 'fixedT', 'hard', 'freeend']))
        base['pert'] = draw(st.integers(0, 11))
        base['who'] = draw(st.sampled_from(['start', 'goal', 'input', 'none']))
        base['t0'] = draw(st.sampled_from([0., 0., 0.05, 0.2]))
        return base
    return s()


def c_bnd(case, ctx):
    kind, T, L = case['kind'], case['T'], case['L']
    if kind in ('quad3d',) and case['problem'] in ('freeT', 'hard'):
        # the motion would have to stop exactly at the goal: not constructible by drawing coefficients
        case = dict(case, problem='fixedT')
    sh = im('omgtools.basics.shape')
    Env = im('omgtools.environment.environment').Environment
    P = im('omgtools.problems.point2point')
    v, mo = setup(case)
    ctx.label(kind)
    t0 = case['t0']*T
    x0 = x_init(case, mo, t0)
    u0 = veh.inputs(kind, mo, t0, L)
    X = veh.states(kind, mo, [t0, T], x0, L)
    xT = X[:, 1]
    if not thrust_ok(case, mo, [t0]):
        ctx.skip('free fall')
    three = kind in ('holo3d', 'quad3d', 'squad3d')
    env = Env(room={'shape': sh.Cube(100.) if three else sh.Square(100.)})
    opts = {'verbose': 0, 'horizon_time': T}
    prob = case['problem']
    if prob == 'freeend' and kind in ('tool', 'quad3d', 'trailer', 'dubins', 'bicycle', 'agv'):
        prob = 'fixedT'
    if kind == 'tool':
        # a tool is planned inside segments of its program; only its boundary conditions are looked at
        v.options['room_constraints'] = False
        v.define_collision_constraints = lambda *a, **k: None
    if prob == 'freeT':
        p = P.Point2point(v, env, options=opts, freeT=True)
    elif prob == 'freeend':
        fi = None if case['pert'] % 2 else {v: [0]}
        p = P.FreeEndPoint2point(v, env, opts, fi)
    else:
        opts['hard_term_con'] = prob == 'hard'
        p = P.Point2point(v, env, options=opts, freeT=False)
    ctx.label('problem ' + prob)

    def conditions(x0, u0, xT):
        if kind == 'quad':
            v.set_initial_conditions(np.array(x0[:2]))
            v.prediction['dspl'] = np.array([mo.s(k, t0, 1) for k in range(2)])+x0[2:4]-X[2:4, 0]
            v.prediction['ddspl'] = np.array([mo.s(k, t0, 2) for k in range(2)])+u0[:2]-veh.inputs(kind, mo, t0, L)[:2]
        elif kind == 'tool':
            v.set_initial_conditions(np.array(x0), np.array(u0), np.array([mo.s(k, t0, 2) for k in range(3)]))
        else:
            set_init(v, kind, x0, u0)
        if kind == 'trailer':
            v.lead_veh.set_terminal_conditions(np.array(xT[3:]))
            if case['pert'] % 3 == 0 or hasattr(v, 'theta_trT'):
                v.set_terminal_conditions(float(xT[2]))
        elif kind in ('quad', ):
            v.set_terminal_conditions(np.array(xT[:2]))
        elif kind in ('bicycle', 'agv'):
            v.set_terminal_conditions(np.array(xT[:3]))
        elif kind in ('quad3d',):
            v.set_terminal_conditions(np.array(xT[:3]), float(xT[6]), float(xT[7]))
        elif kind in ('squad3d',):
            v.set_terminal_conditions(np.array(xT[:3]))
        else:
            v.set_terminal_conditions(np.array(xT))

    conditions(x0, u0, xT)
    if kind == 'trailer':
        # the way the leading vehicle is handed to the problem in the examples
        p.father.add(v.lead_veh)
        p.vehicles.append(v.lead_veh)
    with veh.quiet():
        m = veh.Model(p)
    p.set_init_time(t0)

    def resid(eq_only=True):
        m.set(v, 'splines_seg0', np.array(case['c']).T)
        if kind == 'trailer':
            m.set(v.lead_veh, 'splines_seg0', np.array(case['c'][1:]).T)
        if prob == 'freeT':
            m.set(p, 'T', T)
        con, obj = m.eval(0.)
        out = {}
        for (lab, name), (val, lb, ub) in con.items():
            if np.all(lb == 0) and np.all(ub == 0):
                out[lab, name] = float(np.max(np.abs(val)))
        return out
    r = resid()
    scale = 1+np.max(np.abs(case['c']))*(1+T)**0
    if kind in ('bicycle', 'agv') and mo.s(0, t0) <= 1e-3:
        ctx.skip('standstill start')
    need = {'freeT': 3, 'hard': 3, 'fixedT': 2, 'freeend': 2}[prob]
    ctx.ok(len(r) >= need, '%s: only %d boundary conditions imposed', kind, len(r))
    ignore = set()
    if kind == 'quad3d':
        # thrust and speed at the goal are requested to be those of hovering, which the drawn motion does not reach
        f, p_, q_ = mo.s(0, T), mo.s(1, T), mo.s(2, T)
        vals = sorted(r.values())
        names = [k for k in r if r[k] > 1e-5*scale]
        ctx.ok(len(names) <= 4, 'quad3d: boundary conditions differ from the requested state: %s', names)
        ignore = set(names)
    for k in r:
        if k not in ignore:
            ctx.ok(r[k] < 1e-5*scale*max(1., T), '%s (%s): the motion has the requested boundary conditions but condition %s is off by %.3g', kind, prob, k, r[k])
    # FreeEnd: the free components may take any value, the others are soft like in the fixed time problem
    if prob == 'freeend':
        n_free = int(m.father.get_variables(p, 'conT0').shape[0])
        want = (len(case['c']) if case['pert'] % 2 else 1)
        ctx.ok(n_free == want, '%s: %d free end components, expected %d', kind, n_free, want)
    # soft end conditions: bound by the slack splines
    if prob in ('fixedT', 'hard'):
        con, _ = m.eval(0.)
        for g, lim in ((1e4, True), (-1., False)):
            k = 0
            for nm in list(p._variables):
                if nm.startswith('g1_'):
                    m.set(p, nm, g*np.ones(p._variables[nm].shape))
            while 'g0_%d' % k in p._variables:
                sz = p._variables['g0_%d' % k].shape
                m.set(p, 'g0_%d' % k, g*np.ones(sz))
                k += 1
            con, obj = m.eval(0.)
            ok = all(np.all(v_ <= ub+1e-9) for (lab, nm), (v_, lb, ub) in con.items() if lab == p.label and not np.all(lb == ub))
            ctx.ok(ok == lim, '%s: slack %g on the end condition %s', kind, g, 'is not accepted' if lim else 'accepts any end')
            if kind != 'trailer':      # the leading vehicle brings its own slacks
                ctx.close(obj/(1-case['t0']), k*g, '%s: objective for constant slack' % kind, 1e-6)
    # metamorphic: a different request is not satisfied by the same motion
    d = 0.2
    x1, u1, xT1 = x0.copy(), u0.copy(), xT.copy()
    who = case['who']
    if who == 'start':
        idx = {'trailer': [2, 5], 'quad': [0, 1, 2, 3], 'squad3d': [0, 1, 2, 3, 4, 5, 6, 7], 'quad3d': [6, 7], 'dubins': [2], 'bicycle': [2, 3],
               'agv': [2, 3]}.get(kind, list(range(len(x0))))
        i = idx[case['pert'] % len(idx)]
        x1[i] += d
    elif who == 'input':
        idx = {'quad3d': [0], 'squad3d': [0], 'tool': [0, 1, 2], 'quad': [0, 1], 'bicycle': [0], 'agv': [0]}.get(kind, list(range(len(u0))))
        i = idx[case['pert'] % len(idx)]
        u1[i] += d
    elif who == 'goal' and prob in ('freeT', 'hard'):
        idx = {'trailer': [3, 4, 5], 'bicycle': [0, 1, 2], 'agv': [0, 1, 2], 'quad': [0, 1], 'squad3d': [0, 1, 2]}.get(kind, list(range(len(xT))))
        i = idx[case['pert'] % len(idx)]
        xT1[i] += d
    else:
        who = 'none'
    if who != 'none':
        conditions(x1, u1, xT1)
        r2 = resid()
        ctx.ok(max(v_ for k, v_ in r2.items() if k not in ignore) > 1e-3, '%s (%s): the motion still satisfies every boundary condition after the requested %s component '
               '%d changed by %g', kind, prob, who, i, d)
        ctx.label('request changed: ' + who)
        # and the hints: an orientation request that differs by a full turn is the same request
    ctx.nontrivial(np.max(np.abs(x0-xT)) > 0.05)


# ------------------------------------------------------------------ arrival test

def g_arr(st):
    return st.fixed_dictionaries({'kind': st.sampled_from([k for k in veh.KINDS if k not in ('trailer', 'quad3d', 'holo1d')]), 'dp': gen.num(st, 0, 3), 'du': gen.num(st, 0, 3),
                                  'dir': st.integers(0, 5), 'pos': st.lists(gen.num(st, -5, 5), min_size=3, max_size=3), 'tol': st.sampled_from([None, 1e-3, 0.05])})


def c_arr(case, ctx):
    """arrival is reported exactly when the recorded motion is within tolerance of the goal and at rest"""
    kind = case['kind']
    opt = {} if case['tol'] is None else {'stop_tol': case['tol']}
    v = veh.make(kind, options=opt)
    tol = v.options['stop_tol']
    n = {'holonomic': 2, 'orient': 3, 'holo3d': 3, 'tool': 3, 'dubins': 3, 'bicycle': 4, 'agv': 4, 'quad': 5, 'squad3d': 8}[kind]
    goal = np.array((case['pos']*2)[:{'bicycle': 3, 'agv': 3, 'quad': 2, 'squad3d': 3}.get(kind, n)])
    if kind in ('orient', 'dubins', 'bicycle', 'agv'):
        goal[2] = goal[2]/3.
    v.set_terminal_conditions(goal)
    x = np.zeros(n)
    x[:len(goal)] = goal
    e = case['dir'] % len(goal)
    x[e] += tol*case['dp']
    nu = {'holonomic': 2, 'orient': 3, 'holo3d': 3, 'tool': 3, 'quad': 2, 'squad3d': 3}.get(kind, 2)
    u = np.zeros(nu)
    u[case['dir'] % nu] = -tol*case['du'] if case['dir'] % 2 else tol*case['du']
    v.signals = {'state': np.c_[np.ones(n)*7, x], 'input': np.c_[np.ones(nu), u], 'pose': np.c_[veh.pose(kind, np.ones(n)), veh.pose(kind, x)], 'dspl': np.c_[np.ones(nu), u]}
    if min(abs(case['dp']-1), abs(case['du']-1)) < 1e-6:
        ctx.skip('tie')
    want = case['dp'] < 1 and case['du'] < 1
    ctx.ok(bool(v.check_terminal_conditions()) == want, '%s: %.2g tolerances from the goal moving at %.2g tolerances: arrival reported as %s', kind, case['dp'], case['du'],
           v.check_terminal_conditions())
    ctx.label('arrived' if want else 'not arrived')
    ctx.nontrivial(case['dp'] > 0 or case['du'] > 0)


SUBS = [Sub('signals', g_motion, c_signals, quick=250, thorough=6000, shards=2),
        Sub('still', g_still, c_still, quick=120, thorough=3000),
        Sub('history', g_hist, c_hist, quick=150, thorough=4000, shards=2),
        Sub('boundary', g_bnd, c_bnd, quick=150, thorough=3000, shards=3),
        Sub('arrival', g_arr, c_arr, quick=150, thorough=2000)]
