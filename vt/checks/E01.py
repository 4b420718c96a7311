import contextlib
import importlib
import io
import os
import shutil
import subprocess
import tempfile
from importlib import import_module as im
import numpy as np
import core
from core import Sub
import gen

D2 = importlib.import_module('checks.D02')

PROPERTY = 'E01'
RULE = ('Hypothesis draws problems (horizon type and length, knots, limits, vehicle figure, room, obstacles still, moving or with spline motions), exports '
        'and compiles each of them with a driver, and draws histories of updates (sample and update times, trajectory length, kind of prediction, shifts, '
        'recoveries, restarts, changing goals, measurements and obstacle data). The compiled planner executes the history with the real solver; the '
        'Python problem replays it update by update, taking only the solution of each update from the compiled planner, and must arrive at the '
        'same parameters, bounds, initial guess and trajectories. Non-trivial: a second update that succeeded.')

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHAPES = ['circle', 'rect', 'square', 'beam', 'poly3', 'poly5']


def g_case(st):
    obst = st.fixed_dictionaries({
        'shape': st.sampled_from(SHAPES), 'move': st.sampled_from(['still', 'v', 'va', 'spline']), 'seed': st.integers(0, 10**6)})
    step = st.fixed_dictionaries({
        'shift': st.sampled_from([0, 0, 0, 1, 2, 5]), 'recover': st.integers(0, 11).map(lambda i: i == 0),
        'restart': st.integers(0, 14).map(lambda i: i == 0), 'goal': st.integers(0, 5).map(lambda i: i == 0),
        'avoid': st.integers(0, 3), 'resize': st.integers(0, 5).map(lambda i: i == 0), 'plain': st.booleans(), 'seed': st.integers(0, 10**6)})

    @st.composite
    def hist(draw):
        return {'Ts': gen.pick(draw, st, [0.01, 0.02, 0.05, 0.1, 0.25]), 'nu': gen.pick(draw, st, [1, 2, 3, 5, 7, 10, 13]),
                'extra': gen.pick(draw, st, [0, 5, 9]), 'mode': gen.pick(draw, st, [0, 0, 1, 2, 2]), 'default_len': draw(st.integers(0, 5)) == 0,
                'drift': gen.pick(draw, st, [[0., 0.], [0.1, 0.04], [-0.06, 0.1]]), 'T': gen.pick(draw, st, [None, None, 10., 8., 6.5, 7.7, 12.]),
                'noise': gen.pick(draw, st, [0., 0.003, 0.01]), 'steps': draw(st.lists(step, min_size=3, max_size=12))}

    @st.composite
    def s(draw):
        c = {'kind': gen.pick(draw, st, ['fixed', 'fixed', 'fixed', 'freeend']), 'T': gen.pick(draw, st, [10., 10., 8., 6.5, 7.7, 12.]),
                'm': gen.pick(draw, st, [10, 10, 6, 8, 13]), 'hard': draw(st.booleans()), 'noder': draw(st.booleans()),
                'norm2': draw(st.booleans()), 'scale': gen.pick(draw, st, [1., 1.4, 0.8]), 'veh': gen.pick(draw, st, ['circle', 'circle', 'rect', 'square', 'poly3']),
                'sd': gen.pick(draw, st, [0., 0., 0.05]), 'room': gen.pick(draw, st, ['square', 'square', 'rect', 'moved', 'turned']),
                'obs': draw(st.lists(obst, max_size=3)), 'ns': gen.pick(draw, st, ['omg', 'omg', 'plan2']), 'seed': draw(st.integers(0, 10**6)),
                'hists': draw(st.lists(hist(), min_size=2, max_size=3))}
        # larger problems take long to compile
        c['obs'] = c['obs'][:3 if c['veh'] == 'circle' else 2]
        if len(c['obs']) > 1:
            c['m'] = min(c['m'], 8)
        return c
    return s()


def figure(kind, size):
    sh = im('omgtools.basics.shape')
    return {'circle': lambda: sh.Circle(size), 'rect': lambda: sh.Rectangle(2*size, size, orientation=0.3), 'square': lambda: sh.Square(1.5*size),
            'beam': lambda: sh.Beam(2*size, .3*size), 'poly3': lambda: sh.RegularPolyhedron(size, 3), 'poly5': lambda: sh.RegularPolyhedron(size, 5)}[kind]()


SPOTS = np.array([[-.3, .2], [1.1, -.9], [-1.2, 1.1]])


def build(c):
    sh = im('omgtools.basics.shape')
    Env = im('omgtools.environment.environment').Environment
    Ob = im('omgtools.environment.obstacle').Obstacle
    P = im('omgtools.problems.point2point')
    rng = np.random.RandomState(c['seed'])
    k = c['scale']
    b = {'vmax': .5*k, 'amax': 1.*k} if c['norm2'] else {'vmin': -.5*k, 'vmax': .5*k, 'amin': -1.*k, 'amax': 1.*k}
    v = im('omgtools.vehicles.holonomic').Holonomic(figure(c['veh'], .1), options={'syslimit': 'norm_2' if c['norm2'] else 'norm_inf', 'safety_distance': c['sd']}, bounds=b)
    if c['m'] != 10:
        v.define_knots(knot_intervals=c['m'])
    v.set_initial_conditions([-1.6, -1.6])
    v.set_terminal_conditions([1.6, 1.6])
    room = {'square': {'shape': sh.Square(5.)}, 'rect': {'shape': sh.Rectangle(5., 4.6)}, 'moved': {'shape': sh.Rectangle(5., 5.6), 'position': [0.2, -0.3]},
            'turned': {'shape': sh.Square(6.2, orientation=.25)}}[c['room']]
    env = Env(room=room)
    for i, o in enumerate(c['obs']):
        opt = {'spline_traj': True, 'spline_params': {'knots': [0, 0, 0, 1, 1, 1], 'degree': 2, 'coeffs': np.tile(SPOTS[i], (3, 1))}} if o['move'] == 'spline' else {}
        env.add_obstacle(Ob({'position': list(SPOTS[i])}, shape=figure(o['shape'], .25), options=opt))
    opt = {'horizon_time': c['T'], 'hard_term_con': c['hard'], 'no_term_con_der': c['noder'], 'verbose': 0}
    fl = im('omgtools.vehicles.fleet').get_fleet_vehicles(v)[0]
    if c['kind'] == 'fixed':
        p = P.Point2point(v, env, opt, freeT=False)
    else:
        p = P.FreeEndPoint2point(fl, env, opt, free_ind={v: [int(rng.randint(2))]} if rng.rand() < .7 else None)
    p.set_options({'solver_options': {'ipopt': {'ipopt.linear_solver': 'mumps', 'ipopt.print_level': 0, 'print_time': 0, 'ipopt.max_iter': 300}}})
    p.init()
    return p, v, env


def script(c, h):
    """the data of every update of a history"""
    T = h['T'] or c['T']
    nu = h['nu']
    ts = h['Ts']
    while nu > 1 and nu*ts > .3*T:
        nu = max(1, nu//2)
    room_left = int((T-T/c['m'])/ts+1e-6)-nu-2
    extra = min(h['extra'], max(0, room_left))
    ln = nu+extra
    start = np.array([-1.6, -1.6])
    goal = np.array([1.6, 1.6])
    steps = []
    for k, s in enumerate(h['steps']):
        rng = np.random.RandomState(s['seed'])
        first = k == 0 or s['restart']
        if first:
            start = np.array([-1.6, -1.6])+rng.uniform(-.2, .2, 2)
        if s['goal'] or k == 0:
            goal = np.array([1.5, 1.5])+rng.uniform(-.3, .3, 2)
        obs = []
        for i, o in enumerate(c['obs']):
            r2 = np.random.RandomState(o['seed'])
            vel = r2.uniform(-.06, .06, 2) if o['move'] in ('v', 'va') else np.zeros(2)
            acc = r2.uniform(-.004, .004, 2) if o['move'] == 'va' else np.zeros(2)
            t = k*nu*ts
            size = .25*(1. if not s['resize'] else rng.uniform(.6, 1.1))
            d = {'pos': SPOTS[i]+r2.uniform(-.15, .15, 2)+t*vel+.5*t*t*acc, 'vel': vel+t*acc, 'acc': acc, 'size': size,
                 'avoid': not (s['avoid'] == 0 and rng.rand() < .5), 'coeffs': None}
            if o['move'] == 'spline':
                d['coeffs'] = SPOTS[i]+r2.uniform(-.2, .2, (3, 2))
            obs.append(d)
        shift = 0 if first else min(s['shift'], extra)
        steps.append({'first': first, 'restart': bool(s['restart']) and k > 0, 'shift': shift, 'plain': bool(s['plain'] and shift == 0), 'recover': bool(s['recover']),
                      'start': start, 'noise': h['noise']*rng.uniform(-1, 1, 2), 'goal': goal.copy(), 'obs': obs})
    return T, nu, ln, steps


def nums(v):
    return ' '.join(repr(float(x)) for x in np.ravel(v))


def listed(v):
    v = np.ravel(v)
    return '%d %s' % (len(v), nums(v)) if len(v) else '0'


def write_input(c, hists, path):
    with open(path, 'w') as f:
        f.write('%d\n' % len(hists))
        for h, (T, nu, ln, steps) in hists:
            short = h['default_len'] and all(s['shift'] == 0 for s in steps)
            mode = 0 if short else h['mode']
            f.write(nums([round(nu*h['Ts'], 9), h['Ts'], T, -nu if short else ln, mode]+h['drift']+[len(steps)])+'\n')
            for s in steps:
                line = [nums([s['shift'], s['recover'], s['restart'], s['plain'], s['first']]), nums(s['start']), nums(s['noise']), nums(s['goal'])]
                for o, d in zip(c['obs'], s['obs']):
                    chk, rad = figure(o['shape'], d['size']).get_checkpoints()
                    line += [listed(d['pos']), listed(d['vel']), listed(d['acc']), listed(chk), listed(rad),
                             listed(d['coeffs'].T if d['coeffs'] is not None else []), str(int(d['avoid']))]
                f.write(' '.join(line)+'\n')


def read_output(path):
    H, ended = [], False
    for l in open(path).read().split('\n'):
        w = l.split()
        if not w:
            continue
        if w[0] == 'H':
            H.append({'info': [int(x) for x in w[1:]], 'steps': []})
        elif w[0] == 'S':
            H[-1]['steps'].append({'ok': w[1] == '1', 'status': w[2]})
        elif w[0] == 'END':
            ended = True
        else:
            H[-1]['steps'][-1][w[0]] = np.array([float(x) for x in w[1:]])
    if not ended and H and H[-1]['steps']:
        H[-1]['steps'].pop()
    return H, ended


class Stub(object):
    """stands for the solver: hands out the solution of the compiled planner"""
    def __init__(self):
        self.calls = []

    def __call__(self, x0, p, lbg, ubg):
        f = lambda v: np.array(v.cat if hasattr(v, 'cat') else v, float).ravel()
        self.calls.append({'x0': f(x0), 'p': f(p), 'lbg': f(lbg), 'ubg': f(ubg)})
        return {'x': self.x, 'lam_g': np.zeros(len(self.calls[-1]['lbg']))}

    def stats(self):
        return {'return_status': 'Solve_Succeeded'}


def rows_of(father, struct, child, name=None):
    """positions of the entries of a child in the stacked vectors"""
    out, cnt = [], 0
    src = {'con': '_constraints', 'var': '_variables', 'par': '_parameters'}[struct]
    for ch in father.children.values():
        for n, e in getattr(ch, src).items():
            e = e[0] if struct == 'con' else e
            sz = int(e.size1()*e.size2()) if struct != 'con' else int(e.size1())
            if ch is child and name in (None, n):
                out += list(range(cnt, cnt+sz))
            cnt += sz
    return np.array(out, int)


def check_e01(c, ctx):
    import casadi as cas
    tmp = tempfile.mkdtemp(prefix='e01_')
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        with contextlib.redirect_stdout(io.StringIO()):
            p, v, env = build(c)
        ns = c['ns']
        d = tmp+'/out/'
        with contextlib.redirect_stdout(io.StringIO()):
            p.export({'directory': d, 'casadiobj': d+'bin', 'namespace': ns, 'sourcefiles': 'driver.cpp Holonomic_%s.cpp' % ns, 'executable': 'run'})
        open(d+'src/driver.cpp', 'w').write(open(HERE+'/data/e01_driver.cpp').read().replace('@NS@', ns))
        r = subprocess.run(['make', '-j3'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=140)
        ctx.ok(r.returncode == 0, 'the exported project does not build: %s', r.stdout.decode(errors='replace')[-800:])
        same_functions(c, ctx, p, d, cas)
        hists = []
        for h in c['hists']:
            scr = script(c, h)
            hists.append((h, scr))
        write_input(c, hists, d+'in.txt')
        try:
            r = subprocess.run([d+'bin/run', d+'in.txt', d+'out.txt'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20)
            ctx.ok(r.returncode == 0, 'the compiled planner stopped with code %s: %s', r.returncode, r.stdout.decode(errors='replace')[-400:])
            res, ended = read_output(d+'out.txt')
            ctx.ok(ended, 'the compiled planner did not finish')
        except subprocess.TimeoutExpired:
            ctx.label('solver took too long')
            res = read_output(d+'out.txt')[0]
        for (h, scr), got in zip(hists, res):
            replay(c, h, scr, got, ctx, p, v, env, cas)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def same_functions(c, ctx, p, d, cas):
    rng = np.random.RandomState(c['seed']+1)
    pd = p.father.problem_description
    F = cas.Function('F', [pd['var'], pd['par']], [pd['obj'], pd['con']])
    so = d+'bin/nlp.so'
    f, g = cas.external('nlp_f', so), cas.external('nlp_g', so)
    for _ in range(3):
        x, q = rng.uniform(-2, 2, F.size1_in(0)), rng.uniform(.2, 2, F.size1_in(1))
        a, b = F(x, q)
        ctx.close(f(x, q), a, 'objective of the exported problem', 1e-9)
        ctx.close(g(x, q), b, 'constraints of the exported problem', 1e-9)


def replay(c, h, scr, got, ctx, p, v, env, cas):
    T, nu, ln, steps = scr
    ts, ut = h['Ts'], round(nu*h['Ts'], 9)
    short = h['default_len'] and all(s['shift'] == 0 for s in steps)
    mode = 0 if short else h['mode']
    if short:
        ln = nu
        ctx.label('default length')
    fa = p.father
    ctx.ok(got['info'] == [2, len(c['obs']), len(v.basis)], 'dimension, number of obstacles and of coefficients are %s', got['info'])
    p.options['horizon_time'] = T
    v.options['ideal_prediction'] = mode == 0
    cc, dd = h['drift']
    v.ode = lambda state, u: np.array([u[0]-cc*state[1]-dd*state[0], u[1]+cc*state[0]-dd*state[1]])
    real = p.problem
    stub = p.problem = Stub()
    pd = fa.problem_description
    G = cas.Function('G', [pd['var'], pd['par']], [pd['con'], pd['obj']])
    veh_rows = rows_of(fa, 'var', v, 'splines_seg0')
    ptol = {0: 1e-7, 1: 1e-7, 2: 2e-6}[mode]
    if mode == 2 and ts > .1:
        ptol = 2e-4         # one fourth order step per sample
    t, n_ok = 0., 0
    try:
        v.set_initial_conditions(list(steps[0]['start']))
        v.set_terminal_conditions(list(steps[0]['goal']))
        p.init_time = None
        p.reinitialize()
        for k, (s, o) in enumerate(zip(steps, got['steps'])):
            what = 'update %d: ' % k
            for ob, od, d in zip(env.obstacles, c['obs'], s['obs']):
                ob.shape = figure(od['shape'], d['size'])
                ob.set_state({'position': d['pos']+ut*d['vel']+.5*ut**2*d['acc'], 'velocity': d['vel']+ut*d['acc'], 'acceleration': d['acc']})
                if d['coeffs'] is not None:
                    ob.options['spline_params']['coeffs'] = d['coeffs']
            v.set_terminal_conditions(list(s['goal']))
            if s['first']:
                t = 0.
                v.set_initial_conditions(list(o['state0']))
                with contextlib.redirect_stdout(io.StringIO()):
                    p.reinitialize()
                p.initialize(0.)
                v.predict(0., ut, ts, list(o['state0']), enforce_states=True)
            else:
                t += s['shift']*ts
                p.predict(t, ut, ts, [list(o['state0'])], delay=s['shift'])
                if mode == 1:
                    v.prediction['state'] = np.array(o['state0'])
            if s['recover'] and not s['first']:
                step0 = type(p).init_step

                def init_step(*a):
                    step0(p, *a)
                    p.reset_init_guess()
                p.init_step = init_step
            stub.x = o['x']
            p.solve(t, ut)
            p.__dict__.pop('init_step', None)
            m = stub.calls[-1]
            lb, ub = m['lbg'].copy(), m['ubg'].copy()
            for ob, d in zip(env.obstacles, s['obs']):
                if not d['avoid']:
                    r = rows_of(fa, 'con', ob)
                    lb[r], ub[r] = -np.inf, np.inf
                    ctx.label('ignored obstacle')
            params(ctx, fa, what, o['p'], m['p'], ptol)
            ctx.close(np.clip(o['lbg'], -1e20, 1e20), np.clip(lb, -1e20, 1e20), what+'lower bounds', 1e-12, scale=0.)
            ctx.close(np.clip(o['ubg'], -1e20, 1e20), np.clip(ub, -1e20, 1e20), what+'upper bounds', 1e-12, scale=0.)
            ctx.close(o['x0'][veh_rows], m['x0'][veh_rows], what+'initial guess of the vehicle', 10*ptol if s['recover'] or s['first'] else 1e-8)
            if k == 0:
                ctx.close(o['x0'], m['x0'], what+'initial guess', 1e-8)
            elif not s['first']:
                # all spline variables move along with the horizon (Python leaves those without a segment in their name)
                kn = T/c['m']
                passed = int(np.floor(np.round(t/kn, 6)))-int(np.floor(np.round(t_prev/kn, 6)))
                if passed:
                    ctx.label('knots passed', passed)
                exp = shifted(fa, x_prev, passed)
                rows = np.setdiff1d(np.arange(len(exp)), veh_rows)
                ctx.close(o['x0'][rows], exp[rows], what+'initial guess of the other variables', 1e-8)
                if not passed:
                    ctx.close(o['x0'][rows], m['x0'][rows], what+'initial guess compared with Python', 1e-8)
            x_prev, t_prev = o['x'], t
            if not o['ok']:
                ctx.label('update not solved')
                ctx.ok(o['status'] != 'Solve_Succeeded', '%sreported as failed while the solver succeeded', what)
                ctx.close(o['x'], o['x0'], what+'variables after a failed update', 1e-12)
                break
            ctx.ok(o['status'] == 'Solve_Succeeded', '%sreported as solved but the solver returned %s', what, o['status'])
            n_ok += 1
            ctx.label('update solved')
            if s['shift']:
                ctx.label('shifted update')
            if s['restart']:
                ctx.label('restart')
            # the planned motion
            g = np.array(G(o['x'], o['p'])[0]).ravel()
            viol = np.max(np.r_[lb-g, g-ub, 0.])
            ctx.ok(viol < 1e-4, '%sthe solution violates a constraint of the Python problem by %.3g', what, viol)
            ctx.close(o['coeffs'], o['x'][veh_rows], what+'returned coefficients', 1e-12)
            p.store(t, ut, ts)
            tr = v.trajectories
            n = min(ln, tr['state'].shape[1])
            for j in range(2):
                ctx.close(o['st%d' % j][:n], tr['state'][j, :n], what+'planned state %d' % j, 1e-7)
                ctx.close(o['in%d' % j][:n], tr['input'][j, :n], what+'planned input %d' % j, 1e-7)
            ctx.ok(len(o['st0']) == ln, '%s%d samples', what, len(o['st0']))
            t += ut
    finally:
        p.problem = real
        del v.ode
    ctx.nontrivial(n_ok > 1)


def shifted(fa, x, passed):
    x = x.copy()
    cnt = 0
    for ch in fa.children.values():
        for n, e in ch._variables.items():
            a, b = e.shape
            if n in ch._splines_prim:
                M = D2.shift_matrix(tuple(ch._splines_prim[n]['basis'].knots), ch._splines_prim[n]['basis'].degree) if passed else np.eye(a)
                X = x[cnt:cnt+a*b].reshape(b, a).T
                for _ in range(passed):
                    X = M.dot(X)
                x[cnt:cnt+a*b] = X.T.ravel()
            cnt += a*b
    return x


def params(ctx, fa, what, a, b, tol):
    ctx.ok(len(a) == len(b), '%s%d parameters instead of %d', what, len(a), len(b))
    for ch in fa.children.values():
        for n in ch._parameters:
            r = rows_of(fa, 'par', ch, n)
            if len(r):
                ctx.close(a[r], b[r], what+'parameter %s of %s' % (n, ''.join(x for x in ch.label if not x.isdigit())), tol)


# ---------------------------------------------------------------------------------------------------------------------- fleets

def g_fleet(st):
    @st.composite
    def s(draw):
        alg = gen.pick(draw, st, ['admm', 'admm', 'rdv'])
        inter = gen.pick(draw, st, ['circular', 'full'])
        return {'alg': alg, 'inter': inter, 'N': gen.pick(draw, st, [3, 3, 4, 5] if inter == 'circular' else [2, 3, 4]), 'kind': 'holonomic',
                'm': gen.pick(draw, st, [4, 5, 8, 10]), 'T': gen.pick(draw, st, [10., 8., 6.5]), 'rho': gen.pick(draw, st, [2., .3, 1., 5.]),
                'own_rho': draw(st.booleans()), 'sep': False, 'ndim': None, 'AMA': False, 'init_iter': draw(st.integers(0, 4)),
                'n_obs': gen.pick(draw, st, [0, 0, 1, 2]), 'seed': draw(st.integers(0, 10**6)), 'ns': gen.pick(draw, st, ['omg', 'team']),
                'Ts': gen.pick(draw, st, [0.01, 0.02, 0.05, 0.1]), 'nu': gen.pick(draw, st, [1, 2, 5, 10, 13, 20]), 'extra': gen.pick(draw, st, [0, 0, 6]),
                'ideal': draw(st.booleans()), 'noise': gen.pick(draw, st, [0., .003]),
                'steps': draw(st.lists(st.sampled_from([0, 0, 0, 1, 3]), min_size=4, max_size=9))}
    return s()


def check_fleet(c, ctx):
    tmp = tempfile.mkdtemp(prefix='e01f_')
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        p, fl, conf, nc = D2.build(c)
        ns, d, N = c['ns'], tmp+'/out/', c['N']
        cls = 'RendezVous' if c['alg'] == 'rdv' else 'FormationPoint2Point'
        with contextlib.redirect_stdout(io.StringIO()):
            p.export({'directory': d, 'casadiobj': d+'bin', 'namespace': ns, 'sourcefiles': 'driver.cpp Holonomic_%s.cpp' % ns, 'executable': 'run'})
        open(d+'src/driver.cpp', 'w').write(open(HERE+'/data/e01_fleet.cpp').read().replace('@NS@', ns).replace('@CLS@', cls))
        r = subprocess.run(['make', '-j3'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=140)
        ctx.ok(r.returncode == 0, 'the exported project does not build: %s', r.stdout.decode(errors='replace')[-800:])
        M = N-1 if c['inter'] == 'full' else 2
        T, ts, nu = c['T'], c['Ts'], c['nu']
        while nu > 1 and nu*ts > .2*T:
            nu //= 2
        ut = round(nu*ts, 9)
        ln = nu+c['extra']
        n_it = c['init_iter']+len(c['steps'])
        rng = np.random.RandomState(c['seed']+7)
        noise = c['noise']*rng.uniform(-1, 1, (n_it, N, 2))
        shifts = [0]*(c['init_iter']+1)+[min(s, c['extra']) for s in c['steps'][1:]]
        with open(d+'in.txt', 'w') as f:
            f.write(nums([N, M, n_it, c['init_iter'], c['rho'] if c['own_rho'] else -1, ut, ts, T, ln, c['ideal']])+'\n')
            for v in fl.vehicles:
                f.write(' '.join([listed(v.prediction['state']), listed(v.poseT), listed(v.rel_pos_c)])+'\n')
            f.write('%d\n' % (c['inter'] == 'full'))
            for o in p.environment.obstacles:
                chk, rad = o.shape.get_checkpoints()
                f.write(' '.join([listed(o.signals['position'][:, -1]), listed([0, 0]), listed([0, 0]), listed(chk), listed(rad)])+'\n')
            for k in range(n_it):
                f.write('%d %d %s\n' % (shifts[k], shifts[k] == 0 and k % 2, nums(noise[k])))
        if not c['own_rho']:
            ctx.label('exported rho')
        try:
            r = subprocess.run([d+'bin/run', d+'in.txt', d+'out.txt'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=30)
            ctx.ok(r.returncode == 0, 'the compiled planners stopped with code %s: %s', r.returncode, r.stdout.decode(errors='replace')[-400:])
        except subprocess.TimeoutExpired:
            ctx.label('solver took too long')
        fleet_replay(c, ctx, p, fl, read_fleet(d+'out.txt'), T, ut, ts, ln, n_it, M, shifts)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def read_fleet(path):
    head, recs, cur, ended = None, {}, None, False
    for l in open(path).read().split('\n'):
        w = l.split()
        if not w:
            continue
        if w[0] == 'H':
            head = [float(x) for x in w[1:]]
        elif w[0] in 'SR':
            cur = recs.setdefault((w[0], int(w[1]), int(w[2])), {'ok': w[3] == '1', 'status': w[-1]})
        elif w[0] == 'END':
            ended = True
        else:
            cur[w[0]] = np.array([float(x) for x in w[1:]])
    return head, recs, ended


def fleet_replay(c, ctx, p, fl, got, T, ut, ts, ln, n_it, M, shifts):
    head, recs, ended = got
    N = c['N']
    nsh = p.updaters[0].q_i_struct(0).cat.size(1)
    ctx.ok(head == [nsh, M, c['init_iter'], c['rho'], c['n_obs']], 'shared entries, neighbours, first iterations, rho and obstacles are %s', head)
    nb = lambda v, j: (v+1+j) % N if c['inter'] == 'full' else (v+(N-1 if j else 1)) % N
    vec = lambda S: np.array(S.cat.full() if hasattr(S, 'cat') else S, float).ravel()
    stubs = []
    p.reinitialize()
    p.start_time = 0.
    for u in p.updaters:
        u.problem_upd_x = Stub()
        stubs.append(u.problem_upd_x)
        u.vehicle.options['ideal_prediction'] = c['ideal']
        u.problem.initialize(0.)
    t, done = 0., 0
    for k in range(n_it):
        o = [recs.get(('S', k, v)) for v in range(N)]
        if any(x is None or 'in1' not in x for x in o):
            break
        what = 'iteration %d: ' % k
        if k > c['init_iter']:
            t += shifts[k]*ts
            for u, x in zip(p.updaters, o):
                u.problem.predict(t, ut, ts, [list(x['state0'])], delay=shifts[k])
        for s, x in zip(stubs, o):
            s.x = x['x']
        bad = [x for x in o if not x['ok'] or x['status'] != 'Solve_Succeeded']
        for x in o:
            ctx.ok(x['ok'] == (x['status'] == 'Solve_Succeeded'), '%sreported as %s while the solver returned %s', what, 'solved' if x['ok'] else 'failed', x['status'])
        if bad:
            ctx.label('update not solved')
            break
        with contextlib.redirect_stdout(io.StringIO()):
            p.dual_update(t, ut)
        for v, (u, x, s) in enumerate(zip(p.updaters, o, stubs)):
            fa, m, w = u.father_updx, s.calls[-1], '%svehicle %d: ' % (what, v)
            params(ctx, fa, w, x['p'], m['p'], 1e-6)
            ctx.close(np.clip(x['lbg'], -1e20, 1e20), np.clip(m['lbg'], -1e20, 1e20), w+'lower bounds', 1e-12, scale=0.)
            ctx.close(np.clip(x['ubg'], -1e20, 1e20), np.clip(m['ubg'], -1e20, 1e20), w+'upper bounds', 1e-12, scale=0.)
            r = rows_of(fa, 'var', u.vehicle, 'splines_seg0')
            ctx.close(x['x0'][r], m['x0'][r], w+'initial guess of the vehicle', 1e-6)
            ctx.close(x['xi'], vec(u.var_admm['x_i']), w+'shared trajectory', 1e-8)
            u.problem.store(t, ut, ts)
            tr = u.vehicle.trajectories
            n = min(ln, tr['state'].shape[1])
            for j in range(2):
                ctx.close(x['st%d' % j][:n], tr['state'][j, :n], w+'planned state %d' % j, 1e-7)
                ctx.close(x['in%d' % j][:n], tr['input'][j, :n], w+'planned input %d' % j, 1e-7)
        o = [recs.get(('R', k, v)) for v in range(N)]
        if any(x is None or 'res' not in x for x in o):
            break
        tot = np.zeros(3)
        for v, (u, x) in enumerate(zip(p.updaters, o)):
            w = '%svehicle %d: ' % (what, v)
            ctx.ok(x['ok'], '%ssecond half of the update was reported as failed', w)
            sc = 1.+max(np.max(np.abs(vec(u.var_admm[q]))) for q in ('z_i', 'z_ij', 'l_i', 'l_ij'))
            ctx.close(x['zi'], vec(u.var_admm['z_i']), w+'agreed trajectory', 1e-6, scale=sc)
            ctx.close(x['li'], vec(u.var_admm['l_i']), w+'multipliers', 1e-6, scale=sc)
            for j in range(M):
                g = p.updaters[nb(v, j)]
                ctx.close(x['zij%d' % j], np.array(u.var_admm['z_ij'].prefix[str(g)].cast(), float).ravel(), w+'agreed trajectory of a neighbour', 1e-6, scale=sc)
                ctx.close(x['lij%d' % j], np.array(u.var_admm['l_ij'].prefix[str(g)].cast(), float).ravel(), w+'multipliers of a neighbour', 1e-6, scale=sc)
            tot += x['res']
        py = np.array([p.residuals['primal'][-1]**2, p.residuals['dual'][-1]**2, p.residuals['combined'][-1]])
        ctx.close(tot, py, what+'residuals', 1e-5, scale=1e-3+np.max(np.abs(py)))
        ctx.label('iteration')
        if k >= c['init_iter']:
            t += ut
            done += 1
    ctx.nontrivial(done > 1)


SUBS = [
    Sub('p2p', g_case, check_e01, quick=64, thorough=900, shards=8, budget=110, case_limit=280, shrink_budget=60,
        rule='two updates or more succeeded'),
    Sub('fleet', g_fleet, check_fleet, quick=40, thorough=300, shards=8, budget=110, case_limit=280, shrink_budget=60,
        rule='two joint updates or more succeeded'),
]
