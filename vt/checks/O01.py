import numpy as np
from core import Sub
import gen
import geo

PROPERTY = 'O01'
RULE = ('Hypothesis draws obstacles (2D/3D) with initial position/velocity/acceleration/orientation/turn rate, programmed '
        'jumps of position, velocity and acceleration at arbitrary times and jerk inputs, simulated over a drawn list of '
        'chunks and sampling times, plus environments of several obstacles, and prediction states at drawn times in the '
        'horizon. Recorded signals are compared with the closed-form motion law. Non-trivial: a programmed change falls '
        'inside the simulated time, or a rotating/accelerating prediction.')


def _e():
    from importlib import import_module as im
    ob, en, sh = [im('omgtools.' + n) for n in ('environment.obstacle', 'environment.environment', 'basics.shape')]
    return ob, en, sh


KEYS = ['position', 'velocity', 'acceleration']


def g_traj(st, nd, T):
    @st.composite
    def s(draw):
        traj = {}
        for k in draw(st.lists(st.sampled_from(KEYS), max_size=3, unique=True)):
            n = draw(st.integers(1, 4))
            zero = draw(st.sampled_from([False, False, True]))
            t = draw(st.lists(st.one_of(gen.num(st, 0.01, T), gen.num(st, 0.1, T, 10), st.sampled_from([1., 2., 2.5, 3.])),
                              min_size=n, max_size=n, unique=True))
            if draw(st.sampled_from([True, True, False])):
                t = sorted(t)
            t = ([0.] if zero else []) + t
            traj[k] = {'time': t, 'values': [[draw(gen.num(st, -2, 2)) for _ in range(nd)] for _ in t]}
        return traj
    return s()


def g_obs(st, nd=None, T=8.):
    @st.composite
    def s(draw):
        n = nd or draw(st.sampled_from([2, 2, 3]))
        ini = {k: [draw(gen.num(st, -3, 3)) for _ in range(n)] for k in KEYS if k == 'position' or draw(st.booleans())}
        c = {'nd': n, 'ini': ini, 'traj': draw(g_traj(st, n, T))}
        if n == 2 and draw(st.booleans()):
            c['th'] = [draw(gen.num(st, -4, 4)), draw(gen.num(st, -3, 3))]
        if draw(st.sampled_from([False, False, True])):
            tt = sorted(draw(st.lists(gen.num(st, 0.1, T, 10), min_size=1, max_size=3, unique=True)))
            c['jerk'] = {'time': [0.] + tt, 'values': [[draw(gen.num(st, -1, 1)) for _ in range(n)] for _ in range(len(tt)+1)]}
        return c
    return s()


def g_chunks(st):
    return st.tuples(st.sampled_from([0.01, 0.05, 0.1, 0.1, 0.2, 0.5, 0.03]), st.lists(st.integers(1, 60), min_size=1, max_size=6))


def make(c, ob, sh):
    nd = c['nd']
    shape = sh.Circle(0.3) if nd == 2 else sh.Sphere(0.3)
    ini = {k: list(v) for k, v in c['ini'].items()}
    if 'th' in c:
        ini['orientation'], ini['angular_velocity'] = c['th']
    sim = {}
    if c['traj'] or 'jerk' in c:
        sim['trajectories'] = {k: {'time': list(v['time']), 'values': [list(x) for x in v['values']]} for k, v in c['traj'].items()}
    if 'jerk' in c:
        B = np.vstack([np.zeros((2*nd, nd)), np.eye(nd)])
        sim['model'] = {'B': B}
        sim['trajectories']['input'] = {'time': list(c['jerk']['time']), 'values': [list(x) for x in c['jerk']['values']]}
    return ob.Obstacle(ini, shape, simulation=sim), ini


def law(c, times):
    """total position, velocity, acceleration at the (increasing) times; and the times of the changes"""
    nd = c['nd']
    cur = [np.array(c['ini'].get(k, [0.]*nd), dtype=float) for k in KEYS]
    jumps = []
    for i, k in enumerate(KEYS):
        if k in c['traj']:
            for t, v in zip(c['traj'][k]['time'], c['traj'][k]['values']):
                if t == 0.:
                    cur[i] = np.array(v, dtype=float)
                else:
                    jumps.append((t, i, np.array(v, dtype=float)))
    ut = c['jerk']['time'] if 'jerk' in c else [0.]
    uv = np.array(c['jerk']['values'], dtype=float) if 'jerk' in c else np.zeros((1, nd))
    ev = sorted([(t, 1, None, None) for t in ut[1:]] + [(t, 0, i, v) for t, i, v in jumps], key=lambda e: e[:2])

    def u(t):
        return np.array([np.interp(t, ut, uv[:, k]) for k in range(nd)])
    out = []
    t = 0.
    e = 0

    def adv(dt, t):
        if dt <= 0:
            return
        u0 = u(t)
        s = (u(t + dt) - u0)/dt
        p, v, a = cur
        cur[0] = p + v*dt + a*dt**2/2 + u0*dt**3/6 + s*dt**4/24
        cur[1] = v + a*dt + u0*dt**2/2 + s*dt**3/6
        cur[2] = a + u0*dt + s*dt**2/2
    for T in times:
        while e < len(ev) and ev[e][0] <= T:
            adv(ev[e][0] - t, t)
            t = ev[e][0]
            if ev[e][1] == 0:
                cur[ev[e][2]] = cur[ev[e][2]] + ev[e][3]
            e += 1
        adv(T - t, t)
        t = T
        out.append([x.copy() for x in cur])
    return out, [(tt, i) for tt, i, _ in jumps]


def check_record(ctx, o, c, times, tol=2e-5):
    sig = o.signals
    n = len(times)
    ctx.ok(sig['time'].shape[0] == n, 'number of recorded times: %d, expected %d', sig['time'].shape[0], n)
    ctx.close(sig['time'], times, 'recorded times', 1e-9)
    for k in KEYS + (['orientation', 'angular_velocity'] if c['nd'] == 2 else []):
        ctx.ok(sig[k].shape[1] == n, 'signal %s has %d samples for %d times', k, sig[k].shape[1], n)
    want, jumps = law(c, times)
    for i, k in enumerate(KEYS):
        w = np.array([x[i] for x in want]).T
        keep = [m for m, t in enumerate(times) if not any(abs(t - tj) < 1e-6 and j == i for tj, j in jumps)]
        if keep:
            ctx.close(sig[k][:, keep], w[:, keep], 'recorded %s' % k, tol)
    if c['nd'] == 2:
        th = c.get('th', [0., 0.])
        ctx.close(sig['orientation'][0], th[0] + th[1]*np.array(times), 'recorded orientation', 1e-8)
        ctx.close(sig['angular_velocity'][0], th[1]*np.ones(n), 'recorded turn rate', 1e-12)


def g_motion(st):
    return st.fixed_dictionaries({'o': g_obs(st), 'ch': g_chunks(st)})


def times_of(Ts, chunks):
    t = [0.]
    for n in chunks:
        t0 = t[-1]
        t += [t0 + Ts*(i+1) for i in range(n)]
    return t


def c_motion(case, ctx):
    ob, en, sh = _e()
    c = case['o']
    o, ini = make(c, ob, sh)
    ctx.ok(ini == {**{k: list(v) for k, v in c['ini'].items()},
                   **({'orientation': c['th'][0], 'angular_velocity': c['th'][1]} if 'th' in c else {})},
           'the user\'s initial conditions were changed')
    Ts, chunks = case['ch']
    for n in chunks:
        o.simulate(n*Ts, Ts)
    times = times_of(Ts, chunks)
    ev = [t for v in c['traj'].values() for t in v['time'] if 0 < t < times[-1]]
    ctx.nontrivial(len(ev) > 0 or 'jerk' in c)
    ctx.label('programmed changes', min(1, len(ev)))
    ctx.label('%dD' % c['nd'])
    check_record(ctx, o, c, times)
    # what the planner is told is the current state
    par = o.set_parameters(times[-1])[o]
    want, jumps = law(c, times)
    for i, (nm, k) in enumerate(zip('xva', KEYS)):
        ctx.close(par[nm], o.signals[k][:, -1], 'parameter %s' % nm, 1e-12)
    chck, rad = o.shape.get_checkpoints()
    ctx.close(par['checkpoints'], np.array(chck).ravel(), 'checkpoint parameters', 1e-12)
    ctx.close(par['rad'], rad, 'radius parameters', 1e-12)
    if c['nd'] == 2:
        ctx.close(par['theta'], o.signals['orientation'][:, -1], 'orientation parameter', 1e-12)
    # a measured state replaces the simulated one
    new = {'position': [1.5]*c['nd'], 'velocity': [-0.25]*c['nd']}
    o.set_state(dict(new))
    par = o.set_parameters(0.)[o]
    ctx.close(np.array(par['x']).ravel(), new['position'], 'position after set_state', 1e-12)
    ctx.close(np.array(par['v']).ravel(), new['velocity'], 'velocity after set_state', 1e-12)
    ctx.close(np.array(par['a']).ravel(), [0.]*c['nd'], 'acceleration after set_state', 1e-12)


# ---------------------------------------------------------------- prediction
def g_pred(st):
    @st.composite
    def s(draw):
        nd = draw(st.sampled_from([2, 2, 2, 3]))
        c = {'nd': nd, 'x': [draw(gen.num(st, -5, 5)) for _ in range(nd)], 'v': [draw(gen.num(st, -2, 2)) for _ in range(nd)],
             'a': [draw(gen.num(st, -1, 1)) for _ in range(nd)], 'T': draw(st.sampled_from([1., 5., 10., 12.3])),
             't': draw(gen.num(st, 0., 1.)), 'Ts': draw(st.lists(st.sampled_from([1., 4., 10., 2.7]), min_size=1, max_size=3)),
             'mode': draw(st.sampled_from(['T', 'T', 'number', 'list', 'spline'])),
             'th': [draw(gen.num(st, -4, 4)), draw(st.sampled_from([0., 0., 0.3, -0.3, 1.1, -2., 2*np.pi/5., -np.pi/10]))],
             'deg': draw(st.integers(1, 4)), 'nint': draw(st.integers(1, 4)), 'salt': draw(st.integers(0, 99))}
        return c
    return s()


def c_pred(case, ctx):
    import casadi as cas
    ob, en, sh = _e()
    nd = case['nd']
    shape = sh.Rectangle(0.6, 0.2) if nd == 2 else sh.Cuboid(0.2, 0.3, 0.4)
    x, v, a = [np.array(case[k]) for k in 'xva']
    ini = {'position': x.tolist(), 'velocity': v.tolist(), 'acceleration': a.tolist()}
    opt = {}
    mode = case['mode']
    T = case['T']
    if nd == 2:
        ini['orientation'] = case['th'][0]
        if mode in ('T', 'number') and case['th'][1] != 0.:
            ini['angular_velocity'] = case['th'][1]
            opt['horizon_time'] = T
    omega = ini.get('angular_velocity', 0.)
    if mode == 'spline':
        deg, n = case['deg'], case['nint']
        kn = np.r_[np.zeros(deg+1), np.arange(1, n)/float(n), np.ones(deg+1)]
        C = np.sin(np.arange(1, (deg+n)*nd+1)*1.3 + case['salt']).reshape(deg+n, nd)*3
        opt['spline_traj'] = True
        opt['spline_params'] = {'knots': kn, 'degree': deg, 'coeffs': C}
    o = ob.Obstacle(ini, shape, options=opt)
    if mode == 'number':
        o.init(horizon_times=T)
    elif mode == 'list':
        o.init(horizon_times=list(case['Ts']))
    else:
        o.init()
    par = o.set_parameters(0.)[o]
    ctx.label(mode + (' rotating' if omega else ''))
    ctx.nontrivial(bool(omega) or np.abs(a).max() > 0)
    names = list(o._parameters)
    ctx.ok(set(names) <= set(par), 'parameters %s are declared, %s are given', sorted(names), sorted(par))
    syms = [o._parameters[n] for n in names]
    vals = [np.asarray(par[n], dtype=float).reshape(o._parameters[n].shape, order='F') if np.ndim(par[n]) < 2 else par[n] for n in names]
    t = case['t']*T*0.1
    if mode == 'spline':
        t = 0.
    else:
        syms.append(o.t)
        vals.append(t)
    if mode == 'T':
        syms.append(o.T)
        vals.append(T)
    off = 0.
    H = T
    if mode == 'list':
        off, H = sum(case['Ts'][:-1]), case['Ts'][-1]
        ctx.label('segments %d' % len(case['Ts']))

    def ev(c):
        return np.array(cas.Function('f', syms, [cas.MX(c)])(*vals)).ravel()
    from omgtools.basics.spline import BSpline
    ps = [BSpline(s.basis, ev(s.coeffs)) for s in o.pos_spline]
    tau = np.linspace(0., 1., 13)
    for k in range(nd):
        if mode == 'spline':
            import ref
            w = [ref.deboor(kn, deg, C[:, k], u) for u in tau]
        else:
            dt = tau*H + off - t
            w = x[k] + v[k]*dt + 0.5*a[k]*dt**2
        ctx.close([float(ps[k](u)) for u in tau], w, 'predicted position', 1e-8)
    if nd == 2:
        def evs(s):
            return BSpline(s.basis, ev(s.coeffs)) if isinstance(s, BSpline) else (lambda u: float(ev(s)[0]))
        cs, sn, w = evs(o.cos), evs(o.sin), evs(o.gon_weight)
        # rational quadratic arcs per quarter turn: angle exact at multiples of an eighth turn, within 0.0161 rad elsewhere
        eighth = [] if not omega else [q*np.pi/4/abs(omega)/H for q in range(20)]
        for u in sorted([q for q in eighth if q <= 1.] + list(tau)):
            th = case['th'][0] + omega*(u*H - t)
            W = float(w(u))
            ctx.ok(W > 1e-3, 'weight of the rotation is not positive')
            C, S = float(cs(u))/W, float(sn(u))/W
            ctx.close(C**2 + S**2, 1., 'rotation is not a rotation at %g' % u, 1e-8)
            tol = 1e-7 if not omega or u in eighth else 0.0161
            ctx.ok(abs(np.arctan2(S*np.cos(th) - C*np.sin(th), C*np.cos(th) + S*np.sin(th))) < tol,
                   'predicted orientation at %g of the horizon differs from the constant-rate rotation', u)


# ---------------------------------------------------------------- environments
def g_env(st):
    @st.composite
    def s(draw):
        nd = draw(st.sampled_from([2, 2, 3]))
        return {'obs': draw(st.lists(g_obs(st, nd), min_size=1, max_size=4)), 'ch': draw(g_chunks(st)),
                'late': draw(st.booleans()), 'draw': draw(st.booleans())}
    return s()


def c_env(case, ctx):
    ob, en, sh = _e()
    nd = case['obs'][0]['nd']
    obs = [make(c, ob, sh)[0] for c in case['obs']]
    room = {'shape': sh.Square(20.) if nd == 2 else sh.Cube(20.), 'draw': case['draw']}
    late = case['late'] and len(obs) > 1
    env = en.Environment(room, obs[:-1] if late else obs)
    if late:
        env.add_obstacle([obs[-1]])
    ctx.ok(env.obstacles == obs and env.n_obs == len(obs), 'obstacles of the environment')
    Ts, chunks = case['ch']
    for n in chunks:
        env.simulate(n*Ts, Ts)
    times = times_of(Ts, chunks)
    ctx.nontrivial(len(obs) > 1)
    for o, c in zip(obs, case['obs']):
        check_record(ctx, o, c, times)
    if nd == 2:
        obs[0].options['draw'] = False
    for k in (0, len(times)//2, -1):
        surf, _ = env.draw(k)
        i = 0
        if case['draw']:
            i += len(room['shape'].surfaces)
        for o in obs[1 if nd == 2 else 0:]:
            for f in o.shape.surfaces:
                p = np.array(o.signals['position'][:, k])
                th = o.signals['orientation'][0, k] if nd == 2 else 0.
                w = (geo.rot(th).dot(f) if nd == 2 else f) + p[:, None]
                ctx.close(surf[i], w, 'drawn obstacle', 1e-9)
                i += 1
        ctx.ok(i == len(surf), 'number of drawn surfaces')
    # the copy starts again from the obstacles' initial conditions and leaves the original alone
    cp = env.copy()
    before = [o.signals['position'].copy() for o in obs]
    cp.simulate(chunks[0]*Ts, Ts)
    ctx.ok(all(np.array_equal(b, o.signals['position']) for b, o in zip(before, obs)), 'simulating a copy changed the original')
    for o, c in zip(cp.obstacles, case['obs']):
        check_record(ctx, o, c, times_of(Ts, chunks[:1]))


# ---------------------------------------------------------------- bouncing
def g_bounce(st):
    @st.composite
    def s(draw):
        return {'w': draw(st.sampled_from([4., 7.])), 'h': draw(st.sampled_from([4., 5.5])),
                'ctr': [draw(gen.num(st, -3, 3)), draw(gen.num(st, -3, 3))],
                'p': [draw(gen.num(st, -0.4, 0.4)), draw(gen.num(st, -0.4, 0.4))],
                'v': [draw(gen.num(st, -1, 1)), draw(gen.num(st, -1, 1))],
                'shape': draw(st.sampled_from(['circle', 'rect'])), 'size': draw(st.sampled_from([0.2, 0.4])),
                'n': draw(st.integers(20, 90)), 'bounce': draw(st.sampled_from([True, True, True, False]))}
    return s()


def c_bounce(case, ctx):
    import io
    import contextlib
    ob, en, sh = _e()
    w, h, ctr, r = case['w'], case['h'], np.array(case['ctr']), case['size']
    half = np.array([w, h])/2.
    p0 = ctr + np.array(case['p'])*np.array([w, h])
    v0 = np.array(case['v'])
    v0 = np.where(np.abs(v0) < 0.05, 0., v0)
    if not v0.any():
        ctx.skip('at rest')
    lim = half - r
    if np.any(np.abs(p0 - ctr) > lim - 0.3):
        ctx.skip('starts near the border')
    shape = sh.Circle(r) if case['shape'] == 'circle' else sh.Square(2*r)
    o = ob.Obstacle({'position': p0.tolist()}, shape,
                    simulation={'trajectories': {'velocity': {'time': [0.], 'values': [v0.tolist()]}}},
                    options={'bounce': case['bounce']})
    env = en.Environment({'shape': sh.Rectangle(w, h), 'position': ctr.tolist()}, [o])
    Ts = 0.1
    p, v = p0.copy(), v0.copy()
    hits = 0
    for _ in range(case['n']):
        d = np.abs(p - ctr) - lim
        if case['bounce']:
            if np.any(np.abs(d) < 1e-6):
                break
            out = d > 0
            # other wall closer than the probing distance: which wall is hit is ambiguous
            if np.any(out) and v.all() and np.sum(d > -0.3) > 1:
                ctx.label('corner')
                break
            if np.any(out):
                hits += 1
                v = -v if not v.all() else np.where(out, -v, v)
        with contextlib.redirect_stdout(io.StringIO()):
            env.simulate(Ts, Ts)
        p = p + v*Ts
        ctx.close(o.signals['position'][:, -1], p, 'position of the bouncing obstacle', 1e-6)
        ctx.close(o.signals['velocity'][:, -1], v, 'velocity of the bouncing obstacle', 1e-6)
    ctx.nontrivial(hits > 0)
    ctx.label('bounces', hits)


# ---------------------------------------------------------------- bouncing off other obstacles
def g_reb(st):
    @st.composite
    def s(draw):
        return {'gap': [draw(st.sampled_from([1.6, 3.])), draw(st.sampled_from([1.6, 2.4]))],
                'walls': draw(st.lists(st.sampled_from(['l', 'r', 'b', 't']), min_size=1, max_size=4, unique=True)),
                'p': [draw(gen.num(st, -0.3, 0.3)), draw(gen.num(st, -0.3, 0.3))],
                'v': [draw(gen.num(st, -1, 1)), draw(gen.num(st, -1, 1))], 'axis': draw(st.sampled_from([None, None, 0, 1])),
                'shape': draw(st.sampled_from(['circle', 'rect'])), 'size': draw(st.sampled_from([0.2, 0.4])),
                'ctr': [draw(gen.num(st, -3, 3)), draw(gen.num(st, -3, 3))], 'first': draw(st.booleans()),
                'ball': draw(st.sampled_from([False, False, True])),
                'n': draw(st.integers(20, 60)), 'bounce': draw(st.sampled_from([True, True, True, False]))}
    return s()


def c_reb(case, ctx):
    """A moving obstacle between blocks reflects off the face it hits, turns around when it meets an
    obstacle of its own shape head on, and goes straight on when it does not bounce.  The room is far away."""
    import io
    import contextlib
    ob, en, sh = _e()
    ctr, r = np.array(case['ctr']), case['size']
    half = np.array(case['gap'])/2. + r
    p = ctr + np.array(case['p'])
    v = np.array(case['v'])
    v = np.where(np.abs(v) < 0.05, 0., v)
    if case['axis'] is not None:
        v[1 - case['axis']] = 0.
    if not v.any():
        ctx.skip('at rest')

    def mover(q, u):
        shape = sh.Circle(r) if case['shape'] == 'circle' else sh.Square(2*r)
        return ob.Obstacle({'position': np.array(q).tolist()}, shape, options={'bounce': case['bounce']},
                           simulation={'trajectories': {'velocity': {'time': [0.], 'values': [np.array(u).tolist()]}}})
    obs, walls = [], {}
    for w in case['walls']:
        # thick blocks, long enough that their corners are never met
        ax, sg = (0, -1.) if w == 'l' else (0, 1.) if w == 'r' else (1, -1.) if w == 'b' else (1, 1.)
        off = np.zeros(2)
        off[ax] = sg*(half[ax] + 2.)
        size = [4., 60.] if ax == 0 else [60., 4.]
        walls[w] = (ax, sg)
        obs.append(ob.Obstacle({'position': (ctr + off).tolist()}, sh.Rectangle(*size), options={'bounce': True}))
    mv = mover(p, v)
    ball = None
    if case['ball'] and not v.all():
        ax = 0 if v[0] else 1
        ball = ctr.copy()
        ball[1 - ax] = p[1 - ax]
        ball[ax] = p[ax] + np.sign(v[ax])*(2*r + 0.3)
        obs.append(ob.Obstacle({'position': ball.tolist()}, sh.Circle(r) if case['shape'] == 'circle' else sh.Square(2*r)))
    obs = [mv] + obs if case['first'] else obs + [mv]
    env = en.Environment({'shape': sh.Square(400.), 'position': ctr.tolist()}, obs)
    Ts, hits = 0.1, 0
    for _ in range(case['n']):
        if case['bounce']:
            stop, faces = False, []
            for ax, sg in walls.values():
                d = sg*(p - ctr)[ax] + r - half[ax]
                stop |= abs(d) < 1e-6
                if d > 0:
                    faces.append(ax)
                # touching one block while within the probing distance of another is ambiguous
                stop |= bool(v.all()) and d > -0.3 and any(a != ax and s*(p - ctr)[a] + r - half[a] > -0.3
                                                         for a, s in walls.values())
            met = False
            if ball is not None:
                d = 2*r - np.abs(p - ball).max()
                stop |= abs(d) < 1e-6
                met = d > 0
            if stop:
                ctx.label('ambiguous')
                break
            if faces or met:
                hits += 1
                v = -v if not v.all() else np.where(np.arange(2) == faces[0], -v, v)
        with contextlib.redirect_stdout(io.StringIO()):
            env.simulate(Ts, Ts)
        p = p + v*Ts
        ctx.close(mv.signals['position'][:, -1], p, 'position of the rebounding obstacle', 1e-6)
        ctx.close(mv.signals['velocity'][:, -1], v, 'velocity of the rebounding obstacle', 1e-6)
        for o in obs:
            if o is not mv:
                ctx.close(o.signals['position'][:, -1], o.signals['position'][:, 0], 'position of a block', 1e-9)
    ctx.nontrivial(hits > 0)
    ctx.label('ball' if ball is not None else 'blocks')
    ctx.label('bounces', hits)


# ---------------------------------------------------------------- overlap of obstacles
def g_ov(st):
    sh = st.one_of(st.fixed_dictionaries({'kind': st.just('circle'), 'r': st.sampled_from([0.2, 0.7, 1.5]), 'o': st.just(0.)}),
                   geo.shape2d(st, True))
    return st.fixed_dictionaries({'a': sh, 'b': sh, 'pa': st.tuples(gen.num(st, -3, 3), gen.num(st, -3, 3)),
                                  'dir': gen.num(st, 0, 6.28), 'gap': gen.num(st, -1., 1.), 'unrot': st.booleans()})


def c_ov(case, ctx):
    ob, en, sh = _e()
    a, b = dict(case['a']), dict(case['b'])
    ca, cb = a['kind'] == 'circle', b['kind'] == 'circle'
    if not ca and not cb:
        for c in (a, b):
            if c['kind'] not in ('rect', 'square', 'ufo'):
                c.clear()
                c.update({'kind': 'rect', 'w': 1.3, 'h': 0.6})
            c['o'] = 0.
    # place b so that the gap between the bounding discs along a direction is drawn
    d = np.array([np.cos(case['dir']), np.sin(case['dir'])])
    sa, sb = geo.size(a), geo.size(b)
    pa = np.array(case['pa'])
    pb = pa + d*max(0., 0.55*(sa + sb)*(1. + case['gap']))
    fa, fb = geo.figure(a), geo.figure(b)
    va, vb = fa['v'] + pa[:, None], fb['v'] + pb[:, None]
    gap = geo.convex_gap(va, vb) - fa['r'] - fb['r']
    if abs(gap) < 1e-5*(1 + sa + sb):
        ctx.skip('tie')
    oa = ob.Obstacle({'position': pa.tolist()}, geo.build(sh, a))
    obb = ob.Obstacle({'position': pb.tolist()}, geo.build(sh, b))
    ctx.nontrivial(abs(gap) < 0.5*(sa + sb))
    ctx.label('overlap' if gap < 0 else 'clear')
    if gap < 0 and not (ca or cb):
        pass
    elif gap < 0:
        pass
    for x, y in ((oa, obb), (obb, oa)):
        ctx.ok(bool(x.overlaps_with(y)) == (gap < 0), '%s at %s and %s at %s: overlap reported %s, gap %g', a, pa.tolist(), b, pb.tolist(),
               x.overlaps_with(y), gap)


SUBS = [
    Sub('motion', g_motion, c_motion, quick=1200, shards=4, rule='programmed change or jerk input inside the simulated time'),
    Sub('prediction', g_pred, c_pred, quick=1200, shards=1, rule='rotating or accelerating'),
    Sub('environment', g_env, c_env, quick=400, shards=2, rule='two or more obstacles'),
    Sub('bounce', g_bounce, c_bounce, quick=320, shards=1, rule='at least one bounce'),
    Sub('rebound', g_reb, c_reb, quick=700, shards=1, rule='at least one bounce'),
    Sub('overlap', g_ov, c_ov, quick=3200, shards=1, rule='close to contact'),
]
