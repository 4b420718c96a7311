import importlib
from importlib import import_module as im
import numpy as np
from core import Sub
import gen
import geo
import veh

V2 = importlib.import_module('checks.V02')
P1 = importlib.import_module('checks.P01')
F1 = importlib.import_module('checks.F01')

PROPERTY = 'F02'
RULE = ('Hypothesis draws chains of one to four overlapping rooms, still and moving obstacles attributed to the rooms, a circular or rectangular vehicle, limits, '
        'start and goal; the multi-room problem is solved with the real solver. Whenever it reports success, every part of the plan is evaluated with '
        'reference splines: own room, own obstacles (at the time the part is driven), limits, begin and end, all joins, and the stored samples against the chain '
        'of parts. A second part runs updates through the simulator, a third runs complete scheduled motions through drawn environments and judges the '
        'recorded motion against room, obstacles, limits, the frames in use and the goal. Non-trivial: more than one room and the plan reaches a limit, border or obstacle.')


# ------------------------------------------------------------------ chains of rooms

def g_chain(st, run=False):
    @st.composite
    def s(draw):
        seed = draw(st.integers(0, 10**9))
        n = [1, 2, 2, 2, 3, 3, 4][(seed*2654435761 % 2**32) // 65536 % 7]
        c = {'seed': seed % 2**31, 'n': n, 'm': draw(st.sampled_from([5, 7, 10])), 'norm2': draw(st.booleans()),
             'shape': draw(st.sampled_from(['circle', 'circle', 'rect', 'square', 'tri'])),
             'dir': draw(st.lists(st.integers(0, 3), min_size=4, max_size=4)), 'scale': draw(st.sampled_from([1., 0.6, 2.])),
             'obs': draw(st.lists(st.tuples(st.integers(0, n-1), st.sampled_from(['still', 'v', 'va'])).map(list), max_size=3)),
             'attr': draw(st.integers(0, 3)) > 0, 'late': draw(st.booleans()), 'guess': draw(st.booleans()),
             'off': draw(st.sampled_from([[0., 0.], [0., 0.], [3., -2.]])), 'v0': draw(st.sampled_from([0., 0., 0.3])),
             'extra': draw(st.booleans())}
        if run:
            c['Ts'] = draw(st.sampled_from([0.01, 0.05, 0.1]))
            c['nu'] = draw(st.sampled_from([1, 2, 5]))
            c['nupd'] = draw(st.integers(2, 4))
        return c
    return s()


def chain_scene(c):
    rng = np.random.RandomState(c['seed'])
    dx = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    rooms = []
    x = np.array(c['off'])
    half = rng.uniform(1.5, 3., 2)
    rooms.append((x.copy(), half.copy()))
    prev = None
    n = c['n']+(1 if c['extra'] else 0)
    for k in range(1, n):
        d = c['dir'][k % 4]
        if prev is not None and d == (prev+2) % 4:
            d = prev
        prev = d
        e = np.array(dx[d], dtype=float)
        h = rng.uniform(1.2, 3., 2)
        o = rng.uniform(1.1, 1.6)          # width of the overlap
        a = abs(e) > 0
        y = x.copy()
        y[a] = x[a]+e[a]*(half[a]+h[a]-o)
        lim = abs(half[~a]+h[~a]-1.2)
        y[~a] = x[~a]+np.clip(rng.uniform(-1., 1.), -1, 1)*min(float(lim[0]), float(max(half[~a][0], h[~a][0])))*.7
        rooms.append((y.copy(), h.copy()))
        x, half = y, h
    r = rng.uniform(.1, .35)
    if c['shape'] == 'circle':
        fig = {'kind': 'circle', 'r': r, 'o': 0.}
    elif c['shape'] == 'rect':
        fig = {'kind': 'rect', 'w': r*1.5, 'h': r*.8, 'o': 0.}
    elif c['shape'] == 'square':
        fig = {'kind': 'square', 'w': r*1.4, 'o': 0.}
    else:
        fig = {'kind': 'regular', 'n': 3, 'r': r, 'o': 0.3}
    rad = geo.size(fig)

    def inroom(k, margin):
        z, h = rooms[k]
        return z+rng.uniform(-1, 1, 2)*(h-margin)

    p = inroom(0, rad+0.1)
    q = inroom(c['n']-1, rad+0.1)
    if np.hypot(*(q-p)) < 0.8:
        q = 2*rooms[c['n']-1][0]-p
        z, h = rooms[c['n']-1]
        q = np.clip(q, z-h+rad+0.1, z+h-rad-0.1)
    mids = []
    for k in range(c['n']-1):
        (z, h), (z2, h2) = rooms[k], rooms[k+1]
        lo, hi = np.maximum(z-h, z2-h2), np.minimum(z+h, z2+h2)
        mids.append((lo+hi)/2.)
    obs = []
    for k, mode in c['obs']:
        for _ in range(30):
            o = {'x': list(np.r_[inroom(k, 0.2), 0.]), 'v': [0.]*3, 'a': [0.]*3, 'w': 0., 'o': 0., 'n': 2, 'mode': mode, 'room': k}
            if mode in ('v', 'va'):
                o['v'] = list(rng.uniform(-.15, .15, 3))
            if mode == 'va':
                o['a'] = list(rng.uniform(-.01, .01, 3))
            o['shape'] = [{'kind': 'circle', 'o': 0., 'r': rng.uniform(.1, .4)}, {'kind': 'rect', 'o': 0., 'w': rng.uniform(.1, .8), 'h': rng.uniform(.1, .8)},
                          {'kind': 'regular', 'o': 0., 'r': rng.uniform(.1, .5), 'n': int(rng.randint(3, 7))}][rng.randint(3)]
            o['o'] = float(rng.uniform(-1.5, 1.5))
            ok = True
            for i, t in enumerate(np.linspace(0., 25., 20)):
                f = V2.obst_at(o, t, 0., 10.)
                for y in ([p, q]+mids if i == 0 else [q]):
                    ok = ok and V2.gap({'v': np.array(y).reshape(2, 1), 'r': rad}, f) > 0.15
            if ok:
                obs.append(o)
                break
    return {'rooms': rooms, 'p': p, 'q': q, 'fig': fig, 'obs': obs, 'rng': rng, 'mids': mids, 'rad': rad}


OPT = {'verbose': 0, 'solver_options': {'ipopt': {'ipopt.tol': 1e-6, 'ipopt.constr_viol_tol': 1e-6, 'ipopt.max_iter': 150, 'ipopt.max_cpu_time': 12.}}}


def chain_build(c, sc):
    sh = im('omgtools.basics.shape')
    Env = im('omgtools.environment.environment').Environment
    MF = im('omgtools.problems.multiframeproblem').MultiFrameProblem
    s = c['scale']
    b = {'vmin': -.5*s, 'vmax': .5*s, 'amin': -1.*s, 'amax': 1.*s}
    opt = {}
    if c['norm2']:
        opt['syslimit'] = 'norm_2'
        b = {'vmax': .5*s, 'amax': s}
    v = veh.make('holonomic', bounds=b, options=opt, shape=geo.build(sh, sc['fig']), knots=c['m'])
    u0 = np.zeros(2)
    if c['v0']:
        d = sc['rooms'][0][0]-sc['p']
        u0 = c['v0']*s*.5*d/max(np.hypot(*d), 1e-3)
    v.set_initial_conditions(sc['p'].copy(), input=u0)
    v.set_terminal_conditions(list(sc['q']))
    rooms = [{'shape': sh.Rectangle(2*h[0], 2*h[1]), 'position': list(z)} for z, h in sc['rooms']]
    obs = [V2.obstacle(o, 10.) for o in sc['obs']]
    env = Env(room=rooms, obstacles=[] if c['attr'] else obs)
    if c['attr']:
        for k, r in enumerate(env.room):
            env.fill_room(r, [ob for o, ob in zip(sc['obs'], obs) if o['room'] == k])
    pr = MF(v, env, n_frames=c['n'], options=dict(OPT))
    with veh.quiet():
        pr.init()
    return v, pr, env, obs, b, opt, u0


def parts(c, v, pr):
    out = []
    for k in range(c['n']):
        T = float(np.array(pr.father.get_variables(pr, 'T%d' % k)).ravel()[0])
        C = np.array(pr.father.get_variables(v, 'splines_seg%d' % k, spline=False)).reshape(-1, 2)
        out.append(veh.Motion(v.degree, c['m'], C.T, max(T, 1e-12)))
        out[-1].T0 = T
    return out


def chain_judge(c, ctx, sc, v, ps, b, opt, x0, u0, now=0., what='plan'):
    near = set()
    fig = sc['fig']
    deg = v.degree
    s = c['scale']
    for k, mo in enumerate(ps):
        ctx.ok(mo.T0 >= -1e-6, '%s: motion time of part %d is %.4g', what, k, mo.T0)
    vec = lambda mo, t, o: np.array([mo.s(0, t, o), mo.s(1, t, o)])
    ctx.close(vec(ps[0], 0., 0), x0, '%s: begin' % what, tol=1e-4)
    if ps[0].T > 0.05:
        ctx.close(vec(ps[0], 0., 1), u0, '%s: begin velocity' % what, tol=1e-3*(1+c['m']/ps[0].T))
    end = ps[-1].T*(1-1e-12)
    ctx.close(vec(ps[-1], end, 0), sc['q'], '%s: end' % what, tol=1e-4)
    # joins
    joined = True
    for k in range(len(ps)-1):
        a, d = ps[k], ps[k+1]
        if min(a.T, d.T) < 0.05:
            joined = False
            continue
        for o in range(deg):
            # tolerance of the solver on coefficient level
            w = (c['m']/a.T)**o+(c['m']/d.T)**o
            ctx.close(vec(a, a.T*(1-1e-12), o), vec(d, 0., o), '%s: derivative %d at the transition from part %d to %d' % (what, o, k, k+1), tol=1e-3 if o < 2 else 2e-4*(1+w))
        ctx.label('join checked')
    if min(mo.T for mo in ps) > 0.05:
        for o in range(1, deg):
            ctx.ok(np.max(np.abs(vec(ps[-1], end, o))) < 1e-3*(1+(c['m']/ps[-1].T)**o), '%s: derivative %d at the end is %s', what, o, vec(ps[-1], end, o))
    t0 = 0.
    for k, mo in enumerate(ps):
        z, h = sc['rooms'][k]
        if mo.T < 0.05:
            ts = [0., end if k == len(ps)-1 else mo.T*(1-1e-12)]
        else:
            ts = V2.times(mo.T, c['m'], 5)
        for t in ts:
            if mo.T >= 0.05:
                for name, val, lo, hi in V2.limits('holonomic', b, opt, mo, t, 0.4):
                    tol = 2e-3*(1+max([abs(y) for y in (lo, hi) if np.isfinite(y)]))
                    ctx.ok(lo-tol <= val <= hi+tol, '%s: part %d exceeds the %s limit: %.5g not in %.5g..%.5g at %.4g of %.4g', what, k, name, val, lo, hi, t, mo.T)
                    if np.isfinite(hi) and val > 0.99*hi or np.isfinite(lo) and val < 0.99*lo:
                        near.add('limit')
            p = vec(mo, t, 0)
            f = V2.fig2(fig, p, 0.)
            m = float(np.min(h.reshape(2, 1)-np.abs(f['v']-z.reshape(2, 1))))-f['r']
            ctx.ok(m >= -1e-3, '%s: part %d leaves its room by %.4g at %.4g of %.4g', what, k, -m, t, mo.T)
            if m < 0.02:
                near.add('border')
            for o in sc['obs']:
                if c['attr'] and o['room'] != k:
                    continue
                d = V2.clearance(f, V2.obst_at(o, now+t0+t, 0., 10.))
                ctx.ok(d >= -1e-3, '%s: part %d collides with its %s %s obstacle by %.4g at %.4g of %.4g', what, k, o['mode'], o['shape']['kind'], -d, t, mo.T)
                if d < 0.05:
                    near.add('obstacle'+(' in a later room' if k else ''))
        t0 += mo.T
    for y in near:
        ctx.label('reached: '+y)
    return near


def whole(ps, t, o=0):
    for k, mo in enumerate(ps):
        if t < mo.T or k == len(ps)-1:
            t = min(max(t, 0.), mo.T*(1-1e-12))
            return np.array([mo.s(0, t, o), mo.s(1, t, o)])
        t -= mo.T


def chain_stored(c, ctx, v, ps, Ts, now):
    T = sum(mo.T for mo in ps)
    if T < Ts or min(mo.T for mo in ps) < 0.05:
        return
    tr = v.trajectories
    n = int(np.round(T/Ts, 6))+1
    ctx.ok(tr['state'].shape == (2, n), 'stored state %s for a total motion time of %.5g sampled at %g', tr['state'].shape, T, Ts)
    tt = np.arange(n)*Ts
    ctx.close(np.ravel(tr['time']), now+tt, 'stored time', tol=1e-9)
    for key, o, tol in (('state', 0, 2e-3), ('input', 1, 5e-3), ('splines', 0, 2e-3)):
        ref = np.array([whole(ps, t, o) for t in tt]).T
        got = np.array(tr[key], dtype=float)
        ctx.ok(got.shape == ref.shape, 'stored %s has shape %s, expected %s', key, got.shape, ref.shape)
        e = np.abs(got-ref)
        i = int(np.argmax(np.max(e, axis=0)))
        ctx.ok(np.max(e) < tol*(1+np.max(np.abs(ref))), 'stored %s at %.5g of %.5g (parts %s): %s, the plan has %s', key, tt[i], T, ['%.4g' % mo.T for mo in ps], got[:, i], ref[:, i])
    # part per part
    rs = v.result_spline_segments
    ctx.ok(len(rs) == len(ps), '%d parts stored, expected %d', len(rs), len(ps))
    for k, mo in enumerate(ps):
        for l in range(2):
            ctx.close(np.ravel(rs[k][l].coeffs), mo.c[l], 'stored part %d' % k, tol=1e-9)
    ctx.label('samples compared', n)


def c_chain(c, ctx):
    sc = chain_scene(c)
    v, pr, env, obs, b, opt, u0 = chain_build(c, sc)
    ctx.label('%d rooms' % c['n'])
    Ts = 0.05
    with veh.quiet():
        dep = im('omgtools.execution.deployer').Deployer(pr, sample_time=Ts, update_time=0.5)
        dep.reset()
        g = [np.array(pr.father.get_variables(v, 'splines_seg%d' % k, spline=False)).reshape(-1, 2) for k in range(c['n'])]
        dep.update(0.)
    # the first guess is connected
    via = [sc['p']]+sc['mids']+[sc['q']]
    for k in range(c['n']):
        ctx.close(g[k][[0, -1]], np.array([via[k], via[k+1]]), 'first guess of part %d' % k, tol=1e-9)
    if not P1.succeeded(pr):
        ctx.label('solver: %s' % pr.problem.stats()['return_status'])
        return
    ctx.label('solved')
    ps = parts(c, v, pr)
    near = chain_judge(c, ctx, sc, v, ps, b, opt, sc['p'], u0)
    chain_stored(c, ctx, v, ps, Ts, 0.)
    ctx.nontrivial(c['n'] > 1 and bool(near))


def c_chainrun(c, ctx):
    sc = chain_scene(c)
    c = dict(c, v0=0.)
    v, pr, env, obs, b, opt, u0 = chain_build(c, sc)
    v.options['ideal_prediction'] = True
    v.options['ideal_update'] = True
    ctx.label('%d rooms' % c['n'])
    Sim = im('omgtools.execution.simulator').Simulator
    Ts, up = c['Ts'], c['Ts']*c['nu']
    if up < 0.05:
        up = 0.1
    N = int(round(up/Ts))
    with veh.quiet():
        sim = Sim(pr, sample_time=Ts, update_time=up)
        sim.deployer.reset()
    x, u, now, solved = sc['p'], u0, 0., 0
    for i in range(c['nupd']):
        with veh.quiet():
            stop = sim.update()
        if not P1.succeeded(pr):
            ctx.label('solver: %s' % pr.problem.stats()['return_status'])
            break
        ps = parts(c, v, pr)
        if ps[0].T < up+0.1:
            # a longer stretch than the first part: the problem no longer covers the motion (a scheduler drops the room before)
            ctx.label('first part almost done')
            break
        solved += 1
        chain_judge(c, ctx, sc, v, ps, b, opt, x, u, now, 'update %d' % i)
        chain_stored(c, ctx, v, ps, Ts, now)
        S = v.signals
        ctx.ok(S['state'].shape[1] == 1+(i+1)*N, '%d samples recorded after %d updates of %d', S['state'].shape[1], i+1, N)
        x, u = whole(ps, up), whole(ps, up, 1)
        ctx.close(S['state'][:, -1], x, 'recorded state after update %d' % i, tol=2e-3)
        ctx.close(S['input'][:, -1], u, 'recorded input after update %d' % i, tol=5e-3)
        x, u = S['state'][:, -1].copy(), S['input'][:, -1].copy()
        now += up
        sim.update_timing()
        if stop:
            break
    if solved:
        ctx.label('solved', solved)
    if solved > 1:
        ctx.label('replanned in motion')
    ctx.nontrivial(solved > 1 and c['n'] > 1)


# ------------------------------------------------------------------ scheduled motions

def g_sched(st):
    @st.composite
    def s(draw):
        c = draw(F1.g_layout(st))
        c['n'] = [draw(st.integers(7, 12)), draw(st.integers(7, 12))]
        c['wh'] = gen.pick(draw, st, [[6., 6.], [10., 10.], [10., 6.], [8., 12.]])
        c['veh'] = min(c['wh'][0]/c['n'][0], c['wh'][1]/c['n'][1])*gen.pick(draw, st, [0.44, 0.3, 0.2])
        seed = draw(st.integers(0, 10**9))
        h = (seed*2654435761 % 2**32) // 65536
        c['seed'] = seed % 2**31
        c['dubins'] = h % 12 == 0
        c['nf'] = [1, 2, 2, 3][h // 7 % 4] if not c['dubins'] else 1
        c['type'] = ['corridor', 'corridor', 'shift'][h // 28 % 3]
        c['fine'] = draw(st.booleans())
        c['l'] = draw(st.booleans())
        c['norm2'] = draw(st.booleans())
        c['shape'] = gen.pick(draw, st, ['circle', 'circle', 'rect']) if not c['dubins'] else 'circle'
        c['fs'] = gen.pick(draw, st, [0.35, 0.5, 0.8])
        c['Ts'] = gen.pick(draw, st, [0.05, 0.1])
        c['up'] = gen.pick(draw, st, [0.5, 0.3, 1.])
        c['ideal'] = draw(st.booleans())
        c['mov'] = gen.pick(draw, st, [0, 0, 1])
        c['obs'] = [o for o in c['obs'] if o['k'] != 'cell'][:4]
        return c
    return s()


class Enough(Exception):
    pass


def c_sched(c, ctx):
    import time
    figs, (a, b), room = F1.place(c)
    size = c['veh']
    clear = 1.1*size+1e-3
    for p in (a, b):
        for f in figs:
            if F1.box_gap(p-clear, p+clear, f['lo'], f['hi']) <= 0:
                ctx.skip('start or goal too close to an obstacle')
    if np.hypot(*(a-b)) < 4*size:
        ctx.skip('start and goal too close')
    rng = np.random.RandomState(c['seed'])
    sh = im('omgtools.basics.shape')
    Ob = im('omgtools.environment.obstacle').Obstacle
    movers, extra = [], []
    if c['mov'] and c['type'] == 'corridor':
        for _ in range(20):
            r = rng.uniform(.3, .8)*size
            p = a+rng.uniform(.3, .8)*(b-a)+rng.uniform(-1., 1., 2)*size
            v = rng.uniform(-.1, .1, 2)
            if np.any(np.abs(p-(room[0]+room[1])/2.) > (room[1]-room[0])/2.-r):
                continue
            if np.hypot(*(p-a)) < 4*size+r or any(np.hypot(*(p+v*t-b)) < 3*size+r for t in np.linspace(0., 80., 60)):
                continue
            movers.append((p, v, r))
            extra.append(Ob({'position': list(p)}, shape=sh.Circle(r), simulation={'trajectories': {'velocity': {'time': [0.], 'values': [list(v)]}}}))
            break
    env, obs = F1.build_env(c, figs, extra)
    opt = {'freeT': True, 'frame_type': c['type'], 'n_frames': c['nf']}
    if c['type'] == 'corridor':
        opt.update({'scale_up_fine': c['fine'], 'l_shape': c['l']})
    else:
        opt['frame_size'] = c['fs']*min(c['wh'])
        if opt['frame_size'] < 6*size:
            ctx.skip('frame too small')
    try:
        s, v = F1.make_scheduler(c, env, a, b, 'dubins' if c['dubins'] else 'holonomic', opt)
    except Exception as e:
        if 'too small' in str(e) or 'occupied' in str(e):
            ctx.skip('no global path')
        raise
    s.global_planner.grid.draw = lambda *a, **k: None
    s.global_planner.plot_path = lambda *a, **k: None
    s.set_options({'solver_options': {'ipopt': dict(OPT['solver_options']['ipopt'], **{'ipopt.max_iter': 400})}})
    v.options['stop_tol'] = 1e-2
    if c['ideal']:
        v.options.update({'ideal_prediction': True, 'ideal_update': True})
    Sim = im('omgtools.execution.simulator').Simulator
    Ts, up = c['Ts'], c['up']
    with veh.quiet():
        sim = Sim(s, sample_time=Ts, update_time=up)
    wall = time.time()
    st = {'n': 0, 'n_s': 0, 'probs': 0, 'last': None, 'near': set(), 'T': 0., 'len': None}
    if c.get('shape', 'circle') == 'circle':
        fig = {'kind': 'circle', 'r': size, 'o': 0.}
    else:
        fig = {'kind': 'rect', 'w': size, 'h': size*.7, 'o': 0.}
    figv = geo.figure(fig)
    orig = sim.update
    init = s.reinitialize

    def reinit():
        try:
            init()
        except (ValueError, RuntimeError) as e:
            if 'path' in str(e).lower() or 'No waypoint' in str(e) or 'free neighbors' in str(e):
                raise Enough('no global path')
            raise
        # domain: the vehicle can follow the global path
        F1.legs_free(ctx, c, s, figs)
        st['len'] = sum(np.hypot(*(np.array(x)-y)) for x, y in zip(s.global_path[:-1], s.global_path[1:]))

    def update():
        if time.time()-wall > 50.:
            raise Enough('cut short')
        try:
            stop = orig()
        except RuntimeError as e:
            if 'goal = current position' in str(e) or 'No waypoint' in str(e) or 'free neighbors' in str(e):
                raise Enough('frames: %s' % str(e)[:30])
            raise
        except AttributeError:
            if s.local_problem.problem.stats()['return_status'] != 'Solve_Succeeded':
                raise Enough('solver: %s' % s.local_problem.problem.stats()['return_status'])
            raise
        P = s.local_problem
        if P.problem.stats()['return_status'] != 'Solve_Succeeded':
            raise Enough('solver: %s' % P.problem.stats()['return_status'])
        if P is not st['last']:
            st['probs'] += 1
            st['last'] = P
        st['n'] += 1
        sig = v.signals
        n0, n1 = st['n_s'], sig['state'].shape[1]
        new = list(range(n0, n1))
        st['n_s'] = n1
        Tk = [float(np.array(P.father.get_variables(P, 'T%d' % k)).ravel()[0]) for k in range(P.n_frames)]
        t0 = float(sig['time'][0, max(n0-1, 0)])
        for i in new:
            x = sig['state'][:2, i]
            t = float(sig['time'][0, i])
            m = float(min(np.min(x.reshape(2, 1)+figv['v']-room[0].reshape(2, 1)), np.min(room[1].reshape(2, 1)-x.reshape(2, 1)-figv['v'])))-figv['r']
            ctx.ok(m > -5e-3, 'recorded motion leaves the room by %.4g at t=%.4g', -m, t)
            # the frame the motion is in
            k, T = 0, Tk[0]
            while t-t0 > T+1e-6 and k < len(Tk)-1:
                k += 1
                T += Tk[k]
            lim = np.array(s.frames[k].border['limits'], dtype=float)
            m2 = float(min(np.min(x.reshape(2, 1)+figv['v']-lim[:2].reshape(2, 1)), np.min(lim[2:].reshape(2, 1)-x.reshape(2, 1)-figv['v'])))-figv['r']
            ctx.ok(m2 > -5e-3, 'recorded motion leaves frame %d of %d (limits %s) by %.4g at t=%.4g (update %d)', k, len(Tk), lim, -m2, t, st['n'])
            if m2 < 0.02*size:
                st['near'].add('frame border')
            f = {'v': figv['v']+x.reshape(2, 1), 'r': figv['r']}
            for g in figs:
                if g['o']['k'] == 'circle':
                    d = V2.gap(f, {'v': g['p'].reshape(2, 1), 'r': g['o']['r']})
                else:
                    h = g['half']
                    d = V2.gap(f, {'v': g['p'].reshape(2, 1)+np.array([[-1, 1, 1, -1], [-1, -1, 1, 1]])*h.reshape(2, 1), 'r': 0.})
                ctx.ok(d > -5e-3, 'recorded motion hits a stationary obstacle by %.4g at t=%.4g', -d, t)
            for p, w, r in movers:
                d = V2.gap(f, {'v': (p+w*t).reshape(2, 1), 'r': r})
                ctx.ok(d > -5e-3, 'recorded motion hits a moving obstacle by %.4g at t=%.4g', -d, t)
                if d < 0.1*size:
                    st['near'].add('moving obstacle')
            u = sig['input'][:, i]
            if c['dubins']:
                ctx.ok(-1e-3 < u[0] < 1.+5e-3 and abs(u[1]) < np.pi/3+5e-3, 'recorded input %s at t=%.4g', u, t)
                if u[0] > 0.98:
                    st['near'].add('limit')
            else:
                sp = np.hypot(*u) if c['norm2'] else np.max(np.abs(u))
                ctx.ok(sp < 1.+5e-3, 'recorded velocity %s at t=%.4g', u, t)
                if sp > 0.98:
                    st['near'].add('limit')
                if i > 0:
                    du = (u-sig['input'][:, i-1])/Ts
                    ac = np.hypot(*du) if c['norm2'] else np.max(np.abs(du))
                    ctx.ok(ac < 2.+0.05, 'recorded velocity changes at %.4g in t=%.4g (update %d)', ac, t, st['n'])
            if i > 0:
                dt = t-float(sig['time'][0, i-1])
                ctx.ok(abs(dt-Ts) < 1e-6, 'recorded time steps %.5g at %.5g instead of %g', dt, t, Ts)
                dx = np.hypot(*(x-sig['state'][:2, i-1]))/Ts
                ctx.ok(dx < np.sqrt(2.)+0.02, 'recorded position jumps %.4g in one sample at t=%.4g', dx*Ts, t)
        if t0 > 60.+8*st['len']:
            ctx.fail('still under way after %.4g s along a global path of %.4g m (limit 1 m/s); %d problems' % (t0, st['len'], st['probs']))
        return stop

    s.reinitialize = reinit
    sim.update = update
    done = False
    with veh.quiet():
        try:
            sim.run()
            done = True
        except Enough as e:
            ctx.label('stopped: %s' % e)
    ctx.label('updates', st['n'])
    kind = '%s, %d frames%s' % (c['type'], c['nf'], ', dubins' if c['dubins'] else '')
    if done:
        ctx.label('arrived: '+kind)
        x = v.signals['state'][:, -1]
        # what is left can be less than one sample
        ctx.ok(np.max(np.abs(x[:2]-b)) < (Ts if c['dubins'] else 2*Ts*Ts)+1e-2, 'motion ends at %s, goal %s', x, b)
        if c['dubins']:
            d = (x[2]+0.2+np.pi) % (2*np.pi)-np.pi
            ctx.ok(abs(d) < 1.1*Ts+1e-2, 'motion ends with heading %.4g, goal -0.2', x[2])
        ctx.ok(c['dubins'] or np.max(np.abs(v.signals['input'][:, -1])) < 2.2*Ts+1e-2, 'motion ends with input %s', v.signals['input'][:, -1])
        ctx.label('problems on the way', st['probs'])
    for y in st['near']:
        ctx.label('reached: '+y)
    ctx.nontrivial(st['probs'] > 1)


SUBS = [Sub('chain', lambda st: g_chain(st), c_chain, quick=110, thorough=4000, shards=3, budget=90., case_limit=60),
        Sub('replan', lambda st: g_chain(st, True), c_chainrun, quick=30, thorough=1500, shards=1, budget=90., case_limit=90),
        Sub('scheduled', g_sched, c_sched, quick=60, thorough=1500, shards=4, budget=110., case_limit=120)]
