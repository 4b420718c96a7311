import importlib
from importlib import import_module as im
import numpy as np
from core import Sub
import gen
import geo
import veh

V2 = importlib.import_module('checks.V02')

PROPERTY = 'P01'
RULE = ('Hypothesis draws vehicle type, limits, figure, room, still, moving and turning obstacles, start and goal poses clear of them, horizon type, '
        'knots and options; the real problem is assembled and solved with the real solver (ipopt). Whenever it reports success the plan is evaluated '
        'by reference kinematics and geometry at a dense grid of instants, independent of the constraints the problem was built from; a second part '
        'runs several updates of simulator or deployer and checks the executed motion in the same way. Non-trivial: the solver succeeded and the plan '
        'reaches a limit, the border, an obstacle, or replans while moving.')

K2 = ['holonomic', 'holonomic', 'orient', 'dubins', 'dubins', 'bicycle', 'agv', 'quad', 'trailer', 'holo1d']
K3 = ['holo3d', 'squad3d', 'quad3d']
DEFB = {'holonomic': {'vmin': -.5, 'vmax': .5, 'amin': -1., 'amax': 1.}, 'orient': {'vmin': -.5, 'vmax': .5, 'amin': -1., 'amax': 1., 'wmin': -.6, 'wmax': .6},
        'holo3d': {'vmin': -.5, 'vmax': .5, 'amin': -1., 'amax': 1.}, 'holo1d': {'vmin': -.5, 'vmax': .5, 'amin': -1., 'amax': 1.},
        'dubins': {'vmax': .7, 'wmin': -.8, 'wmax': .8}, 'trailer': {'vmax': .7, 'wmin': -.8, 'wmax': .8, 'tmin': -.8, 'tmax': .8},
        'bicycle': {'vmax': .8, 'amax': 1., 'dmin': -.5, 'dmax': .5, 'ddmin': -.8, 'ddmax': .8},
        'agv': {'vmax': .8, 'amax': 1., 'dmin': -.8, 'dmax': .8, 'ddmin': -.8, 'ddmax': .8},
        'quad': {'u1min': 4., 'u1max': 15., 'u2min': -5., 'u2max': 5.},
        'squad3d': {'u1min': 4., 'u1max': 15., 'u2min': -3., 'u2max': 3., 'u3min': -3., 'u3max': 3., 'phimin': -.5, 'phimax': .5, 'thetamin': -.5, 'thetamax': .5},
        'quad3d': {'u1min': 4., 'u1max': 15., 'u2min': -3., 'u2max': 3., 'u3min': -3., 'u3max': 3., 'phimin': -.5, 'phimax': .5, 'thetamin': -.5, 'thetamax': .5}}
FIX = {'u1min', 'u1max'}


def g_case(st, kinds, run):
    @st.composite
    def s(draw):
        seed = draw(st.integers(0, 10**9))
        kind = kinds[(seed*2654435761 % 2**32) // 65536 % len(kinds)]
        three = kind in K3
        c = {'kind': kind, 'seed': seed % 2**31, 'm': draw(st.sampled_from([5, 7, 10])), 'free': draw(st.booleans()),
             'shape': draw(V2.vshape(st, three)), 'L': draw(st.sampled_from([0.4, 0.2])), 'scale': draw(st.sampled_from([1., 1., 0.6, 1.5])),
             'norm2': draw(st.booleans()), 'sd': draw(st.sampled_from([0., 0., 0.1, 0.3])), 'n_obs': draw(st.sampled_from([0, 1, 1, 2, 3])),
             'T': draw(st.sampled_from([10., 12., 15., 20., 8.])), 'hard': draw(st.booleans()), 'noder': draw(st.integers(0, 5)) == 0,
             'mode': [draw(st.sampled_from(['still', 'still', 'v', 'va', 'turn'])) for _ in range(3)],
             'sub': draw(st.sampled_from(['', '', 'approx', 'exact'])),
             'ori': draw(st.sampled_from([0., 0., 0., 0.4])), 'off': draw(st.sampled_from([[0., 0., 0.], [0., 0., 0.], [3., -2., 1.]]))}
        if run:
            c['Ts'] = draw(st.sampled_from([0.01, 0.05, 0.1]))
            c['nu'] = draw(st.sampled_from([1, 2, 5, 10]))
            c['n'] = draw(st.integers(2, 5))
            c['lost'] = draw(st.sampled_from([0, 0, 1, 2]))      # the guess is reset (as after running out of solver time) before this update
            c['sd'] = 0.
        return c
    return s()


def sub_eps(c):
    """the position appears in the program as a spline of its own, this far from the one the vehicle drives"""
    if not c.get('sub') or c['kind'] not in ('dubins', 'bicycle'):
        return None
    return 0. if c['sub'] == 'exact' else {'dubins': 1.5e-3, 'bicycle': 1.5e-2}[c['kind']]


def scene(c):
    """start, goal, obstacles (harness), room figure"""
    rng = np.random.RandomState(c['seed'])
    kind = c['kind']
    three = kind in K3
    off = np.array(c['off'])
    half = rng.uniform(2.5, 4., 3)
    if kind in ('quad', 'squad3d', 'quad3d'):
        half = half*1.5
    rad = 0.9 if kind in ('trailer',) else 0.75
    shp = dict(c['shape'])
    # figures stay small with respect to the room
    for k in ('r', 'w', 'h'):
        if k in shp:
            shp[k] = min(shp[k], 0.5)
    if 'd' in shp:
        shp['d'] = [min(x, 0.5) for x in shp['d']]
    lim = half-rad-0.05
    n = 3 if three else 2
    p = rng.uniform(-1, 1, 3)*lim
    for _ in range(50):
        q = rng.uniform(-1, 1, 3)*lim
        if np.linalg.norm((q-p)[:n]) > 1.5:
            break
    h0 = rng.uniform(-1., 1.)
    d = q-p
    if kind in ('dubins', 'bicycle', 'agv', 'trailer'):
        # roughly towards the goal, avoiding the singular heading
        h0 = float(np.clip(np.arctan2(d[1], d[0]), -2.2, 2.2))+rng.uniform(-.3, .3)
    h1 = h0+rng.uniform(-.5, .5)
    obs = []
    T = c['T']
    for i in range(c['n_obs']):
        for _ in range(30):
            mode = c['mode'][i]
            if three and mode == 'turn':
                mode = 'v'
            if c['free'] and mode in ('turn', 'va'):
                mode = 'v'
            o = {'x': list(rng.uniform(-1, 1, 3)*half), 'v': [0.]*3, 'a': [0.]*3, 'w': 0., 'o': 0., 'n': 2, 'mode': mode}
            if mode in ('v', 'va'):
                o['v'] = list(rng.uniform(-.15, .15, 3))
            if mode == 'va':
                o['a'] = list(rng.uniform(-.01, .01, 3))
            if mode == 'turn':
                o['w'] = float(rng.choice([-0.3, 0.2, 0.4]))
            if three and rng.rand() > 0.2:
                o['n'] = 3
                o['shape'] = [{'kind': 'sphere', 'r': rng.uniform(.1, .5)}, {'kind': 'cube', 'd': [rng.uniform(.2, 1.)]*3},
                              {'kind': 'cuboid', 'd': list(rng.uniform(.2, 1., 3))}][rng.randint(3)]
            else:
                o['shape'] = [{'kind': 'circle', 'o': 0., 'r': rng.uniform(.1, .5)}, {'kind': 'rect', 'o': 0., 'w': rng.uniform(.1, 1.2), 'h': rng.uniform(.1, 1.2)},
                              {'kind': 'regular', 'o': 0., 'r': rng.uniform(.1, .6), 'n': int(rng.randint(3, 7))},
                              {'kind': 'beam', 'o': 0., 'w': rng.uniform(.3, 1.5), 'h': rng.uniform(.05, .2)}][rng.randint(4)]
                o['o'] = float(rng.uniform(-1.5, 1.5))
            if i < 2 and rng.rand() < 0.8:
                # on the way
                w = rng.uniform(.3, .7)
                y = p+w*(q-p)+rng.uniform(-.4, .4, 3)-np.array(o['v'])*rng.uniform(2., 6.)
                o['x'] = list(y)
            # start free at the begin, goal free all along
            ok = True
            for k, t in enumerate(np.linspace(0., 1.5*T, 25)):
                f = V2.obst_at(o, t, 0., T)
                for x in ([p, q] if k == 0 else [q]):
                    pt = {'v': x[:f['v'].shape[0]].reshape(-1, 1), 'r': rad}
                    g = V2.gap3(pt, f) if f['v'].shape[0] == 3 else V2.gap(pt, f)
                    ok = ok and g > 0.1+c['sd']
            if ok:
                o['x'] = list(np.array(o['x'])+off)
                obs.append(o)
                break
    return {'p': p+off, 'q': q+off, 'h0': h0, 'h1': h1, 'obs': obs, 'half': half, 'off': off, 'shape': shp, 'rng': rng}


def build(c, sc):
    sh = im('omgtools.basics.shape')
    Env = im('omgtools.environment.environment').Environment
    P = im('omgtools.problems.point2point')
    kind = c['kind']
    three = kind in K3
    b = {k: (x if k in FIX else x*c['scale']) for k, x in DEFB[kind].items()}
    opt = {'safety_distance': c['sd']}
    if c['norm2'] and kind in ('holonomic', 'holo3d', 'orient'):
        opt['syslimit'] = 'norm_2'
        b = {k: x for k, x in b.items() if k in ('vmax', 'amax', 'wmin', 'wmax')}
    if kind == 'quad' and c['free']:
        opt['ideal_prediction'] = True
    if sub_eps(c) is not None:
        opt['substitution'] = True
        opt['exact_substitution'] = c['sub'] == 'exact'
    shape, fig = None, sc['shape']
    if kind in ('holonomic', 'orient', 'dubins', 'trailer'):
        shape = geo.build(sh, fig)
    elif kind == 'holo3d':
        shape = V2.build3(sh, fig)
    elif kind == 'holo1d':
        fig = {'kind': 'rect', 'w': 0.2, 'h': 0.2, 'o': 0.}
    elif kind == 'agv':
        fig = {'kind': 'rect', 'w': 0.8, 'h': 0.2, 'o': 0.}
    elif kind in ('bicycle', 'quad'):
        fig = {'kind': 'circle', 'r': c['L']/2., 'o': 0.}
    else:
        fig = {'kind': 'sphere', 'r': c['L']/2.}
    v = veh.make(kind, bounds=b, options=opt, shape=shape, length=c['L'], knots=c['m'])
    p, q, h0, h1 = sc['p'], sc['q'], sc['h0'], sc['h1']
    L = c['L']
    if kind in ('holonomic', 'quad'):
        x0, xT = p[:2], q[:2]
    elif kind == 'holo1d':
        x0, xT = p[:1], q[:1]
    elif kind in ('orient', 'dubins'):
        x0, xT = np.r_[p[:2], h0], np.r_[q[:2], h1]
    elif kind == 'holo3d':
        x0, xT = p, q
    elif kind in ('squad3d', 'quad3d'):
        x0, xT = np.r_[p, np.zeros(5)], q
    elif kind == 'trailer':
        t0 = h0+sc['rng'].uniform(-.2, .2)
        lead0 = np.r_[p[:2]+L*np.array([np.cos(t0), np.sin(t0)]), h0]
        leadT = np.r_[q[:2]+L*np.array([np.cos(h1), np.sin(h1)]), h1]
        v.lead_veh.set_initial_conditions(lead0)
        v.lead_veh.set_terminal_conditions(leadT)
        x0, xT = [t0], [h1]
    else:
        d0 = sc['rng'].uniform(-.3, .3)*c['scale']
        x0, xT = np.r_[p[:2], h0, d0], np.r_[q[:2], h1]
    v.set_initial_conditions(x0[0] if kind == 'trailer' else np.array(x0))
    v.set_terminal_conditions(xT[0] if kind == 'trailer' else np.array(xT))
    # room
    if three:
        room = {'shape': sh.Cuboid(*(2*sc['half'])), 'position': list(sc['off'])}
    else:
        room = {'shape': sh.Rectangle(2*sc['half'][0], 2*sc['half'][1], orientation=c['ori']), 'position': list(sc['off'][:2])}
    if kind == 'holo1d':
        room = {'shape': sh.Rectangle(2*sc['half'][0], 2*sc['half'][1]), 'position': list(sc['off'][:2])}
    env = Env(room=room, obstacles=[V2.obstacle(o, c['T']) for o in sc['obs']])
    o = {'verbose': 0, 'solver_options': {'ipopt': {'ipopt.tol': 1e-6, 'ipopt.constr_viol_tol': 1e-6, 'ipopt.max_iter': 150, 'ipopt.max_cpu_time': 12.}}}
    if not c['free']:
        o['horizon_time'] = c['T']
        o['hard_term_con'] = c['hard']
    o['no_term_con_der'] = c['noder']
    pr = P.Point2point(v, env, options=o, freeT=c['free'])
    if sub_eps(c) is not None:
        v.problem = pr                                       # as in the examples that use the option
    if kind == 'trailer':
        pr.father.add(v.lead_veh)
        pr.vehicles.append(v.lead_veh)
    with veh.quiet():
        pr.init()
    # state as written in states()
    if kind == 'trailer':
        xs = np.r_[p[:2], x0[0], lead0]
        goal = np.r_[q[:2], xT[0], leadT]
    else:
        xs, goal = np.array(x0, dtype=float), np.array(xT, dtype=float)
        if kind == 'quad':
            xs = np.r_[xs, 0., 0., 0.]
    return v, pr, env, b, opt, fig, xs, goal


def succeeded(pr):
    return pr.problem.stats()['return_status'] == 'Solve_Succeeded'


def motion(c, v, pr):
    T = float(np.array(pr.father.get_variables(pr, 'T')).ravel()[0]) if c['free'] else c['T']
    C = np.array(pr.father.get_variables(v, 'splines_seg0', spline=False)).reshape(-1, veh.NSPL[c['kind']])
    return veh.Motion(v.degree, c['m'], C.T, T), T


def goal_error(kind, X, goal):
    """difference of the final state (as in states()) with the requested terminal pose"""
    if kind in ('bicycle', 'agv'):
        d = X[:3]-goal
    elif kind in ('quad', 'squad3d', 'quad3d', 'holonomic', 'holo3d', 'holo1d'):
        d = X[:len(goal)]-goal
    else:
        d = X-goal
    ang = {'orient': [2], 'dubins': [2], 'bicycle': [2], 'agv': [2], 'trailer': [2, 5]}.get(kind, [])
    for k in ang:
        d[k] = (d[k]+np.pi) % (2*np.pi)-np.pi
    return d


ORD = {'holonomic': 2, 'holo1d': 2, 'holo3d': 2, 'orient': 2, 'quad': 3, 'squad3d': 3}


def judge(c, ctx, v, b, opt, fig, sc, mo, T, xs, t0, now0=0., motion_start=0.):
    """limits, room and obstacles along one plan; xs: state at t0 of the plan. now0: absolute time minus time in the plan"""
    kind = c['kind']
    three = kind in K3
    L = c['L']
    ts = [t0]+[t for t in V2.times(T, c['m'], 5) if t > t0]+[T*(1-1e-9)]
    X = veh.states(kind, mo, ts, xs, L)
    near = set()
    for t in ts:
        slow = kind in ('bicycle', 'agv') and veh.inputs('dubins', mo, t, L)[0] < 0.1
        for name, val, lo, hi in V2.limits(kind, b, opt, mo, t, L):
            if slow and ('steering' in name or 'turning' in name):
                continue
            w = max([abs(z) for z in (lo, hi) if np.isfinite(z)])
            tol = 1e-3*(1+w) if 'hitch' not in name else 2e-3
            ctx.ok(val <= hi+tol, '%s: plan exceeds the %s limit: %.5g > %.5g at t=%.4g of %.4g', kind, name, val, hi, t, T)
            ctx.ok(val >= lo-tol, '%s: plan exceeds the %s limit: %.5g < %.5g at t=%.4g of %.4g', kind, name, val, lo, t, T)
            if np.isfinite(hi) and val > 0.99*hi and hi > 0.01 or np.isfinite(lo) and val < 0.99*lo and lo < -0.01:
                near.add('limit')
    half, off = sc['half'], sc['off']
    R = geo.rot(c['ori']) if kind != 'holo1d' else np.eye(2)
    slack = 1e-3+(sub_eps(c) or 0.)
    if sub_eps(c) is not None:
        ctx.label('substitution: %s' % c['sub'])
    for k, t in enumerate(ts):
        if kind == 'holo1d':
            x = np.r_[X[0, k], 0.]
            m = half[0]-abs(X[0, k]-off[0])-0.1
            # one dimensional: its figure in the plane
            ctx.ok(m >= -1e-3, 'holo1d: plan leaves the room by %.4g at t=%.4g', -m, t)
            continue
        if three:
            f = V2.solid(fig, X[:3, k])
            m = float(np.min(half.reshape(3, 1)-np.abs(f['v']-off.reshape(3, 1))))-f['r']
        else:
            th = X[2, k] if kind in ('orient', 'dubins', 'bicycle', 'agv', 'trailer') else 0.
            f = V2.fig2(fig, X[:2, k], th)
            y = R.T.dot(f['v']-off[:2].reshape(2, 1))
            m = float(np.min(half[:2].reshape(2, 1)-np.abs(y)))-f['r']
        ctx.ok(m >= -slack, '%s (%s): plan leaves the room by %.4g at t=%.4g of %.4g', kind, fig['kind'], -m, t, T)
        if m < 0.02:
            near.add('border')
        for o in sc['obs']:
            g = V2.obst_at(o, now0+t, 0., c['T'])
            d = V2.clearance(f, g)
            ctx.ok(d >= -slack, '%s (%s) and %s %s obstacle: plan collides by %.4g at t=%.4g of %.4g', kind, fig['kind'], o['mode'], o['shape']['kind'], -d, t, T)
            if d < 0.05+c['sd']:
                near.add('obstacle')
    for z in near:
        ctx.label('reached: '+z)
    return ts, X, near


def check_start(c, ctx, mo, T, xs, t0, what):
    """the plan contains the requested state at t0"""
    kind = c['kind']
    if kind in ('dubins', 'quad3d', 'trailer'):
        x = veh.states(kind, mo, [t0], xs, c['L'])[:, 0]
        sel = {'dubins': [2], 'quad3d': [6, 7], 'trailer': [2, 5]}[kind]
    elif kind in ('bicycle', 'agv'):
        x = veh.states(kind, mo, [t0], xs, c['L'])[:, 0]
        sel = [2]
    else:
        x = veh.states(kind, mo, [t0], xs, c['L'])[:, 0]
        sel = list(range(len(x)))
    ctx.close(np.array(x)[sel], np.array(xs)[sel], '%s: %s differs from the state requested' % (kind, what), tol=1e-4)


def check_end(c, ctx, v, mo, T, X, goal, ts):
    kind = c['kind']
    must = c['free'] or c['hard']
    if must:
        d = goal_error(kind, X[:, -1].copy(), goal)
        tol = 2e-3 if kind in ('dubins', 'bicycle', 'agv', 'trailer', 'quad3d') else 1e-3
        tol += sub_eps(c) or 0.
        ctx.ok(np.max(np.abs(d)) < tol, '%s: the plan ends %.4g away from the requested pose', kind, np.max(np.abs(d)))
    if not c['noder']:
        if kind in ORD:
            for o in range(1, ORD[kind]+1):
                for k in range(veh.NSPL[kind]):
                    e = mo.s(k, T*(1-1e-12), o)
                    ctx.ok(abs(e) < 1e-3*(1+(c['m']/T)**o), '%s: derivative %d of spline %d is %.4g at the end of the plan', kind, o, k, e)
        elif kind in ('dubins', 'bicycle', 'agv', 'trailer'):
            u = veh.inputs('trailer' if kind == 'trailer' else 'dubins', mo, T*(1-1e-12), c['L'])
            ctx.ok(abs(u[0]) < 1e-3, '%s: arrives with speed %.4g', kind, u[0])
        else:
            u = veh.inputs(kind, mo, T*(1-1e-12))
            ctx.ok(np.max(np.abs(X[3:6, -1])) < 3e-3, 'quad3d: arrives with velocity %s', X[3:6, -1])


def slack_objective(c, v, pr, mo, goal):
    """integral over the horizon of the distance splines minimal for the plan: the L1 distance to the goal, on the coefficients"""
    kind = c['kind']
    if kind not in ('holonomic', 'holo1d', 'holo3d', 'quad', 'squad3d', 'orient'):
        return None
    w = (mo.knots[v.degree+1:]-mo.knots[:-v.degree-1])/(v.degree+1.)
    g = np.array(goal, dtype=float)
    if kind == 'orient':
        g[2] = np.tan(g[2]/2.)
    return sum(float(w.dot(np.abs(mo.c[k]-g[k]))) for k in range(len(g)))


def c_plan(c, ctx):
    sc = scene(c)
    v, pr, env, b, opt, fig, xs, goal = build(c, sc)
    kind = c['kind']
    ctx.label(kind)
    with veh.quiet():
        dep = im('omgtools.execution.deployer').Deployer(pr, sample_time=0.1, update_time=0.5)
        tr = dep.update(0.)
    if not succeeded(pr):
        ctx.label('solver: %s (%s)' % (pr.problem.stats()['return_status'], kind))
        return
    mo, T = motion(c, v, pr)
    ctx.label('solved')
    check_start(c, ctx, mo, T, xs, 0., 'the begin of the plan')
    if kind not in ('quad3d',):
        for k in range(veh.NSPL[kind]):
            if kind in ('dubins', 'bicycle', 'agv', 'trailer'):
                o = 1 if kind == 'trailer' else 0
                ctx.ok(abs(mo.s(o, 0.)) < 1e-4, '%s: starts with speed %.3g', kind, mo.s(o, 0.))
            else:
                # at standstill
                ctx.ok(abs(mo.s(k, 0., 1)) < 1e-4*(1+c['m']/T), '%s: starts with velocity %.3g', kind, mo.s(k, 0., 1))
    ts, X, near = judge(c, ctx, v, b, opt, fig, sc, mo, T, xs, 0.)
    check_end(c, ctx, v, mo, T, X, goal, ts)
    # samples
    traj = v.trajectories
    st = traj['state']
    n = st.shape[1]
    ctx.ok(n == int(np.floor(T/0.1+1e-6))+1 or n == int(round(T/0.1, 6))+1, '%d samples for a motion time of %.4g at 0.1', n, T)
    tt = np.arange(n)*0.1
    ctx.close(np.ravel(traj['time']), tt, 'time of the samples', tol=1e-9)
    R = veh.states(kind, mo, list(np.minimum(tt, T*(1-1e-12))), xs, c['L'])
    sel = [0, 1, 2] if kind in ('bicycle', 'agv') else list(range(R.shape[0]))
    mine, ref = st[sel].copy(), R[sel].copy()
    for k in {'orient': [2], 'dubins': [2], 'bicycle': [2], 'agv': [2], 'trailer': [2, 5]}.get(kind, []):
        d = mine[k]-ref[k]
        mine[k] = ref[k]+(d+np.pi) % (2*np.pi)-np.pi
    ctx.close(mine, ref, '%s: sampled states of the plan' % kind, tol=2e-4 if kind not in ('quad3d', 'trailer') else 2e-3)
    # motion time and objective
    if c['free']:
        ctx.ok(T > 0, 'motion time %g', T)
        f = float(pr.problem.stats()['iterations']['obj'][-1]) if 'iterations' in pr.problem.stats() else None
    else:
        J = pr.compute_objective()
        ob = slack_objective(c, v, pr, mo, goal)
        if ob is not None:
            ctx.ok(abs(J-ob) < 5e-3*(1+abs(ob)), '%s: reported objective %.6g, while the plan has %.6g', kind, J, ob)
            ctx.label('objective compared')
    ctx.nontrivial(bool(near))


def c_run(c, ctx):
    sc = scene(c)
    v, pr, env, b, opt, fig, xs, goal = build(c, sc)
    v.options['ideal_prediction'] = True
    v.options['ideal_update'] = True
    kind = c['kind']
    ctx.label(kind)
    Sim = im('omgtools.execution.simulator').Simulator
    Ts, up = c['Ts'], c['Ts']*c['nu']
    if up < 0.05:
        up = 0.1 if Ts < 0.1 else Ts
    sim = Sim(pr, sample_time=Ts, update_time=up)
    kt = c['T']/c['m']
    t_abs, plan, solved = 0., None, 0
    N = int(round(up/Ts))
    ang = {'orient': [2], 'dubins': [2], 'bicycle': [2], 'agv': [2], 'trailer': [2, 5]}.get(kind, [])
    cur = xs
    done = 0.
    J = 0.
    for i in range(c['n']):
        with veh.quiet():
            if i and c['lost'] == i:
                pr.reset_init_guess()
                g0 = np.array(pr.father.get_variables(v, 'splines_seg0', spline=False))
                ctx.close(g0, np.array(v.get_init_spline_value()[0]), '%s: starting guess after a reset' % kind)
                ctx.label('guess reset')
            stop = sim.update()
        if not succeeded(pr):
            ctx.label('solver: %s' % pr.problem.stats()['return_status'])
            break
        solved += 1
        mo, T = motion(c, v, pr)
        if c['free']:
            rel = 0.
            if T < up+2*Ts:
                break
        else:
            rel = t_abs-np.floor(round(t_abs/kt, 6))*kt
            rel = max(rel, 0.)
        if i == 0:
            check_start(c, ctx, mo, T, xs, 0., 'the begin of the plan')
        # the state now
        ts, X, near = judge(c, ctx, v, b, opt, fig, sc, mo, T, cur, rel, now0=t_abs-rel)
        x0 = veh.states(kind, mo, [rel], cur, c['L'])[:, 0]
        if i > 0:
            sel = [0, 1, 2] if kind in ('bicycle', 'agv') else list(range(len(x0)))
            d = x0-cur
            for k in ang:
                d[k] = (d[k]+np.pi) % (2*np.pi)-np.pi
            ctx.ok(np.max(np.abs(d[sel])) < 3e-4, '%s: update %d starts %.3g away from where the previous plan leads', kind, i, np.max(np.abs(d[sel])))
            ctx.label('replanned in motion')
            near = near or True
        check_end(c, ctx, v, mo, T, X, goal, ts)
        if not c['free']:
            # executed part of the objective
            fa = pr.father
            k = 0
            while (pr.label, 'g0_%d' % k) and 'g0_%d' % k in pr._variables:
                g = np.array(fa.get_variables(pr, 'g0_%d' % k, spline=False)).ravel()
                deg = (len(g)-1)
                spl = fa.get_variables(pr, 'g0_%d' % k)[0]
                kn, dg = np.array(spl.basis.knots), spl.basis.degree
                J += T*integ_spline(kn, dg, g, rel/T, (rel+up)/T)
                k += 1
        # state at the end of the executed stretch
        S = v.signals['state']
        te = rel+up
        cur = veh.states(kind, mo, [rel, te], cur, c['L'])[:, -1]
        fin = S[:, -1].copy()
        d = fin-cur
        for k in ang:
            d[k] = (d[k]+np.pi) % (2*np.pi)-np.pi
        sel = [0, 1, 2] if kind in ('bicycle', 'agv') else list(range(len(cur)))
        ctx.ok(np.max(np.abs(d[sel])) < 1e-3, '%s: recorded state after update %d is %.3g away from the plan', kind, i, np.max(np.abs(d[sel])))
        ctx.ok(S.shape[1] == 1+(i+1)*N, '%d samples recorded after %d updates of %d', S.shape[1], i+1, N)
        t_abs += up
        sim.update_timing()
        for o, ob in zip(sc['obs'], env.obstacles):
            f = V2.obst_at(o, t_abs, 0., c['T'])
            ctx.close(ob.signals['position'][:, -1], np.array([o['x'][k]+o['v'][k]*t_abs+0.5*o['a'][k]*t_abs**2 for k in range(o['n'])]), 'recorded obstacle position', tol=1e-6)
        if stop:
            break
    if solved:
        ctx.label('solved', solved)
        if c['free']:
            if solved == c['n'] and i == c['n']-1:
                ctx.close(pr.compute_objective(), t_abs, 'free end time: elapsed motion time reported', tol=1e-6)
        elif J > 0 and solved == i+1:
            ctx.close(pr.compute_objective(), J, 'objective accumulated over the executed motion', tol=1e-5)
    ctx.nontrivial(solved > 1)


def integ_spline(kn, deg, c, a, b):
    import ref
    tot = 0.
    br = np.unique(kn[deg:-deg])
    x, w = np.polynomial.legendre.leggauss(deg//2+1)
    for lo, hi in zip(br[:-1], br[1:]):
        l, h = max(lo, a), min(hi, b)
        if h > l:
            for xi, wi in zip(x, w):
                u = 0.5*(l+h)+0.5*(h-l)*xi
                tot += 0.5*(h-l)*wi*ref.deboor(kn, deg, c, u)
    return tot


SUBS = [Sub('plan', lambda st: g_case(st, K2+K3[:2], False), c_plan, quick=140, thorough=4000, shards=5, budget=110., case_limit=60),
        Sub('execution', lambda st: g_case(st, K2[:3]+['dubins', 'holo3d', 'orient', 'quad'], True), c_run, quick=36, thorough=1500, shards=3, budget=110., case_limit=90)]
