import importlib
from importlib import import_module as im
import io
import contextlib
import numpy as np
from core import Sub
import gen

D2 = importlib.import_module('checks.D02')

PROPERTY = 'D01'
RULE = ('Hypothesis draws fleets of 1-7 vehicles, interconnections and configurations (lists, dictionaries, orientation) and compares the fleet tables with '
        'their definition; central and distributed formation and rendez-vous problems are built and solved with the real solver over several updates and '
        'the planned poses, stored fleet centres and reported errors are compared with the configured geometry by own spline evaluation; the couplings of '
        'central formations are evaluated on consistent and disturbed formations without the solver. Non-trivial: three vehicles or more, or a '
        'two-dimensional configuration solved with success.')


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


# ------------------------------------------------------------------------------------------------------------------ tables

def g_tab(st):
    @st.composite
    def s(draw):
        N = draw(st.integers(2, 7))
        d = draw(st.integers(1, 4))
        return {'N': N, 'inter': gen.pick(draw, st, ['circular', 'full']), 'conf': [[draw(gen.num(st, -5., 5., 20)) for _ in range(d)] for _ in range(N)],
                'dict': draw(st.booleans()), 'ori': draw(st.sampled_from([0., 0., 1.5707963267948966])) if draw(st.booleans()) else draw(gen.num(st, -4., 4., 50)),
                'again': draw(st.booleans()), 'bad': draw(st.integers(0, 5)), 'first': draw(st.integers(0, 3))}
    return s()


class Stub(object):
    pass


def c_tab(case, ctx):
    Fleet = im('omgtools.vehicles.fleet').Fleet
    N, conf = case['N'], np.array(case['conf'])
    vs = [Stub() for _ in range(N)]
    fl = Fleet(vs, case['inter'])
    d = conf.shape[1]

    def neighbours():
        for i, v in enumerate(vs):
            nb = [vs.index(w) for w in fl.get_neighbors(v)]
            if case['inter'] == 'full':
                exp = set(range(N))-{i}
            else:
                exp = {(i+1) % N, (i-1) % N}
            ctx.ok(set(nb) == exp, 'neighbours of vehicle %d of %d (%s) are %r, expected %r', i, N, case['inter'], nb, exp)
            ctx.ok(len(nb) == len(exp) or N == 2, 'vehicle %d of %d has a neighbour twice: %r', i, N, nb)
            for j in nb:
                ctx.ok(v in fl.get_neighbors(vs[j]), 'vehicle %d has neighbour %d but not the other way round', i, j)
    neighbours()
    ctx.ok(fl.N == N, 'fleet counts %r vehicles of %d', fl.N, N)
    for k in range(2 if case['again'] else 1):
        o = case['ori']*(1 if k == 0 else -0.5)
        cf = conf if k == 0 else conf[::-1]+1.
        if case['dict'] and d != 2:
            # any set of indices may be used
            arg = [{i+case['first']: float(x) for i, x in enumerate(r)} for r in cf]
            keys = [i+case['first'] for i in range(d)]
        elif case['dict']:
            arg, keys = [{i: float(x) for i, x in enumerate(r)} for r in cf], [0, 1]
        else:
            arg, keys = [list(map(float, r)) for r in cf], list(range(d))
        fl.set_configuration(arg, orientation=o)
        if d == 2:
            # expressed in a frame that is turned over o
            R = np.array([[np.cos(o), np.sin(o)], [-np.sin(o), np.cos(o)]])
            exp = cf.dot(R.T)
        else:
            exp = cf
        for i, v in enumerate(vs):
            ctx.ok(sorted(fl.configuration[v].keys()) == keys, 'configured quantities %r, expected %r', sorted(fl.configuration[v].keys()), keys)
            ctx.close([fl.configuration[v][q] for q in keys], exp[i], 'configuration of vehicle %d' % i, tol=1e-9)
            ctx.close(v.rel_pos_c, -exp[i], 'position of the centre relative to vehicle %d' % i, tol=1e-9)
            for w in fl.get_neighbors(v):
                j = vs.index(w)
                ctx.close(fl.get_rel_config(v)[w], exp[i]-exp[j], 'configuration of vehicle %d relative to %d' % (i, j), tol=1e-9)
                ctx.close(np.array(fl.get_rel_config(v)[w])+np.array(fl.get_rel_config(w)[v]), np.zeros(d), 'relative configuration seen from the other side', tol=1e-9)
    if case['bad'] == 0:
        err = None
        try:
            fl.set_configuration(case['conf'][:-1])
        except ValueError as e:
            err = e
        ctx.ok(err is not None, 'configuration for %d of %d vehicles accepted', N-1, N)
    if case['bad'] == 1 and d != 3:
        err = None
        try:
            fl.set_configuration([r+([0.]*(2 if d == 1 else 1) if i == N-1 else []) for i, r in enumerate(case['conf'])])
        except ValueError as e:
            err = e
        ctx.ok(err is not None, 'configurations with different numbers of quantities accepted')
    ctx.nontrivial(N > 2)


# ----------------------------------------------------------------------------------------------------------------- central

KINDS = ['holonomic', 'holonomic', 'orient', 'quad', 'holo3d', 'holo1d', 'dubins', 'dubins']


def g_form(st, dist):
    @st.composite
    def s(draw):
        kinds = ['holonomic', 'holonomic', 'orient', 'quad', 'holo3d', 'dubins'] if dist else KINDS
        return {'N': gen.pick(draw, st, [2, 2, 3, 3, 4]), 'inter': gen.pick(draw, st, ['circular', 'circular', 'full']), 'kind': gen.pick(draw, st, kinds),
                'seed': draw(st.integers(0, 10**6)), 'T': gen.pick(draw, st, [10., 12., 15.]), 'n_obs': draw(st.integers(0, 2)),
                'soft': (draw(st.integers(0, 3)) == 0 and not dist), 'maxdev': gen.pick(draw, st, [None, 0.3, 0.1]), 'wght': gen.pick(draw, st, [10., 1., 100.]),
                'n': draw(st.integers(1, 3)), 'upd': gen.pick(draw, st, [0.5, 0.2, 1.3]), 'head': draw(gen.num(st, -1.4, 1.4, 20)),
                'rho': gen.pick(draw, st, [2., 1., 4.]), 'it': gen.pick(draw, st, [5, 10, 20]), 'mean0': draw(st.booleans())}
    return s()


def rot(a):
    return np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])


def scene(case, cls, opt):
    sh = im('omgtools.basics.shape')
    Env = im('omgtools.environment.environment').Environment
    Ob = im('omgtools.environment.obstacle').Obstacle
    Fleet = im('omgtools.vehicles.fleet').Fleet
    v = im('omgtools.vehicles')
    rng = np.random.RandomState(case['seed'])
    N, kind = case['N'], case['kind']
    vehs = []
    for _ in range(N):
        if kind == 'dubins':
            x = v.Dubins(sh.Circle(.1), options={'degree': 2}, bounds={'vmax': 1., 'wmax': np.pi/3., 'wmin': -np.pi/3.})
            x.define_knots(knot_intervals=8)
        else:
            x = {'holonomic': v.Holonomic, 'holo1d': v.Holonomic1D, 'quad': v.Quadrotor, 'orient': v.HolonomicOrient,
                 'holo3d': (lambda: v.Holonomic3D(sh.Sphere(.1)))}[kind]()
            x.define_knots(knot_intervals=5)
        vehs.append(x)
    fl = Fleet(vehs, case['inter'])
    dim = {'holo1d': 1, 'holo3d': 3}.get(kind, 2)
    ang = rng.uniform(0, 6)+2*np.pi*np.arange(N)/N+rng.uniform(-.3, .3, N)
    R = rng.uniform(0.3, .6)
    P = np.c_[R*np.cos(ang), R*np.sin(ang), rng.uniform(-.3, .3, N)][:, :dim]
    if kind == 'holo1d':
        P = np.linspace(-.7, .7, N).reshape(-1, 1)
    if kind == 'dubins':
        P *= 0.6
    if case['mean0']:
        P = P-P.mean(axis=0)
    h = case['head'] if kind == 'dubins' else 0.
    if kind == 'dubins':
        fl.set_configuration(P.tolist(), orientation=h)
    else:
        fl.set_configuration(P.tolist())
    e = np.array([np.cos(h), np.sin(h), 0.])[:dim] if dim > 1 else np.ones(1)
    a, b = -1.8*e, 1.8*e
    if kind != 'dubins':
        b = b+rng.uniform(-.8, .8, dim)
    ini, end = P+a, P+b
    if kind in ('orient', 'dubins'):
        hh = h*np.ones(N)
        ini, end = np.c_[ini, hh], np.c_[end, hh]
    fl.set_initial_conditions([list(x) for x in ini])
    fl.set_terminal_conditions([list(x) for x in end])
    env = Env(room={'shape': sh.Cuboid(9., 9., 9.) if dim == 3 else sh.Square(9.)})
    for k in range(case['n_obs'] if dim > 1 else 0):
        nrm = np.array([-e[1], e[0]]) if dim == 2 else np.array([-e[1], e[0], .2])
        x = (0.1 if k == 0 else 0.5)*e[:dim]+(0.75 if k == 0 else -.9)*nrm[:dim]*(1. if kind != 'dubins' else 1.2)
        env.add_obstacle(Ob({'position': list(x)}, shape=sh.Sphere(.3) if dim == 3 else (sh.Circle(.3) if k else sh.Rectangle(.4, .3))))
    o = {'horizon_time': case['T'], 'verbose': 0}
    o.update(opt)
    p = cls(fl, env, options=o)
    p.set_options({'solver_options': {'ipopt': {'ipopt.linear_solver': 'mumps', 'ipopt.print_level': 0, 'print_time': 0, 'ipopt.max_iter': 500,
                                                'ipopt.max_cpu_time': 20.}}})
    with quiet():
        p.init()
    # configuration in the frame of the vehicles
    conf = P.dot(rot(h)) if kind == 'dubins' else P
    return p, fl, conf, dim


def centres(kind, conf, veh, traj):
    """centre of the formation seen by each vehicle along its stored trajectory"""
    st = np.array(traj['state'])
    out = []
    if kind == 'dubins':
        return np.array([st[:2, k]-rot(st[2, k]).dot(conf) for k in range(st.shape[1])]).T
    return st[:len(conf)]-np.array(conf).reshape(-1, 1)


def c_central(case, ctx):
    P = im('omgtools.problems.formation_central').FormationPoint2pointCentral
    opt = {'soft_formation': case['soft'], 'soft_formation_weight': case['wght']}
    if case['maxdev'] is not None:
        opt['max_formation_deviation'] = case['maxdev']
    p, fl, conf, dim = scene(case, P, opt)
    kind, N = case['kind'], case['N']
    Sim = im('omgtools.execution.simulator').Simulator
    with quiet():
        sim = Sim(p, sample_time=0.02, update_time=case['upd'])
        sim.deployer.reset()
    ctx.label(kind)
    if kind != 'dubins' and not case['soft']:
        couplings(case, ctx, p, fl, conf)
    for k in range(case['n']):
        with quiet():
            sim.deployer.update(sim.current_time)
        if p.problem.stats()['return_status'] != 'Solve_Succeeded':
            ctx.label('not solved')
            break
        ctx.label('solved')
        tr = [v.trajectories for v in fl.vehicles]
        C = [centres(kind, conf[i], v, tr[i]) for i, v in enumerate(fl.vehicles)]
        n = min(c.shape[1] for c in C)
        if case['soft']:
            tol = None if case['maxdev'] is None else case['maxdev']+1e-4
            pairs = [(i, (i+1) % N) for i in range(N-1)]+([(0, N-1)] if N > 2 else [])
            if case['inter'] == 'full' and N > 2:
                pairs = [(i, j) for i in range(N) for j in range(i+1, N)]
        else:
            pairs = [(i, j) for i in range(N) for j in range(i+1, N)]
            tol = 1e-4
        if tol is not None:
            if kind == 'dubins':
                # the centre is imposed up to 1e-2 (per vehicle and coordinate), the executed path starts from the predicted position
                tol = tol+2.1e-2
            for i, j in pairs:
                e = np.abs(C[i][:, :n]-C[j][:, :n])
                ctx.ok(e.max() <= tol, '%s: in the solution at update %d vehicles %d and %d of %d (%s) deviate %.4g from their configured relative position',
                       kind, k, i, j, N, case['inter'], e.max())
        for i, v in enumerate(fl.vehicles):
            fc = np.array(tr[i]['fleet_center'])
            ctx.ok(fc.shape[1] == C[i].shape[1], 'fleet centre stored at %d of %d instants', fc.shape[1], C[i].shape[1])
            ctx.close(fc[:C[i].shape[0]], C[i], '%s: stored fleet centre of vehicle %d' % (kind, i), tol=1e-6)
        with quiet():
            p.simulate(sim.current_time, sim.update_time, sim.sample_time)
            sim.update_timing()
        ctx.nontrivial(N > 2 or dim > 1)


def couplings(case, ctx, p, fl, conf):
    """the constraints that involve two vehicles hold on every rigidly moved formation and are violated when one vehicle leaves it"""
    import casadi as cas
    rng = np.random.RandomState(case['seed']+3)
    pd = p.father.problem_description
    g = pd['con'].cat if hasattr(pd['con'], 'cat') else pd['con']
    V, Q = pd['var'], pd['par']
    F = cas.Function('g', [V.cat, Q.cat], [g])
    with quiet():
        par = p.father.set_parameters(0.)
        lb, ub = p.father.update_bounds(0.)
    lb, ub = np.array(cas.DM(lb.cat if hasattr(lb, 'cat') else lb)).ravel(), np.array(cas.DM(ub.cat if hasattr(ub, 'cat') else ub)).ravel()
    J = cas.Function('J', [V.cat, Q.cat], [cas.jacobian(g, V.cat)])
    spr = J.sparsity_out(0)
    lab = [l[1:-1].split(',')[0] for l in V.labels()]
    vl = [v.label for v in fl.vehicles]
    touch = {}
    rows, cols = spr.get_triplet()
    for a, b in zip(rows, cols):
        if lab[b] in vl:
            touch.setdefault(a, set()).add(lab[b])
    R = [a for a, s in touch.items() if len(s) > 1]
    val = np.array(par.cat.full() if hasattr(par, 'cat') else par).ravel()

    def viol(base, off):
        x = V(0.1*rng.randn(V.shape[0]))
        for i, v in enumerate(fl.vehicles):
            s = np.array(x[v.label, 'splines_seg0'].full())
            for q in range(conf.shape[1]):
                s[:, q] = base[:, q]+conf[i][q]+off[i][q]
            x[v.label, 'splines_seg0'] = s
        y = np.array(F(x, val).full()).ravel()[R]
        return float(np.max(np.maximum(lb[R]-y, y-ub[R]))) if len(R) else 0.
    n = len(fl.vehicles[0].basis)
    for _ in range(2):
        base = rng.randn(n, conf.shape[1])*2
        e = viol(base, 0*conf)
        ctx.ok(e <= 1e-9, 'a formation moved rigidly violates the couplings of %d vehicles (%s) by %.4g', case['N'], case['inter'], e)
    for i in range(case['N']):
        for q in range(conf.shape[1]):
            off = 0*conf
            off[i, q] = 0.5*rng.choice([-1, 1])
            e = viol(base, off)
            ctx.ok(e > 1e-3, 'vehicle %d of %d (%s) can leave the formation in coordinate %d without violating a constraint', i, case['N'], case['inter'], q)


# ------------------------------------------------------------------------------------------------------------- distributed

def c_dist(case, ctx):
    P = im('omgtools.problems.formation').FormationPoint2point
    p, fl, conf, dim = scene(case, P, {'rho': case['rho'], 'init_iter': case['it']})
    kind, N = case['kind'], case['N']
    Sim = im('omgtools.execution.simulator').Simulator
    with quiet():
        sim = Sim(p, sample_time=0.02, update_time=case['upd'])
        sim.deployer.reset()
    ctx.label(kind)
    for k in range(case['n']+1):
        with quiet():
            sim.deployer.update(sim.current_time)
        if any(u.problem_upd_x.stats()['return_status'] != 'Solve_Succeeded' for u in p.updaters):
            ctx.label('not solved')
            break
        ctx.label('solved')
        tr = [v.trajectories for v in fl.vehicles]
        C = [centres(kind, conf[i], v, tr[i]) for i, v in enumerate(fl.vehicles)]
        n = min(c.shape[1] for c in C)
        res = p.residuals['primal'][-1]
        for i in range(N):
            for w in fl.get_neighbors(fl.vehicles[i]):
                j = fl.vehicles.index(w)
                e = np.abs(C[i][:, :n]-C[j][:, :n]).max()
                tol = 1.5*res+1e-5+(2.1e-2 if kind == 'dubins' else 0.)
                ctx.ok(e <= tol, '%s: neighbours %d and %d deviate %.4g from their configured relative position, the reported residual is %.4g', kind, i, j, e, res)
        ctx.label('residual below 0.05' if res < 0.05 else 'residual above 0.05')
        for i in range(N):
            fc = np.array(tr[i]['fleet_center'])
            ctx.close(fc[:C[i].shape[0]], C[i], '%s: stored fleet centre of vehicle %d' % (kind, i), tol=1e-6)
        with quiet():
            p.simulate(sim.current_time, sim.update_time, sim.sample_time)
            sim.update_timing()
        ctx.nontrivial(N > 2 or dim > 1)


def g_err(st):
    @st.composite
    def s(draw):
        return {'N': draw(st.integers(2, 5)), 'dim': draw(st.integers(1, 3)), 'n': draw(st.integers(2, 30)), 'seed': draw(st.integers(0, 10**6)),
                'Ts': gen.pick(draw, st, [0.01, 0.1, 0.05]), 'extra': draw(st.integers(0, 2)), 'dd': draw(st.booleans())}
    return s()


def c_err(case, ctx):
    """the reported formation error is the time average, over the motion, of the vehicles' average distance between the centre they keep
    and the mean position, relative to their distance to the centre"""
    Fleet = im('omgtools.vehicles.fleet').Fleet
    cls = im('omgtools.problems.formation_dualdec').FormationPoint2pointDualDecomposition if case['dd'] else im('omgtools.problems.formation').FormationPoint2point
    rng = np.random.RandomState(case['seed'])
    N, d, n = case['N'], case['dim'], case['n']
    vs = [Stub() for _ in range(N)]
    conf = rng.uniform(-2, 2, (N, d))+3.
    fl = Fleet(vs, 'circular')
    fl.set_configuration(conf.tolist())
    t = np.arange(n)*case['Ts']
    for v in vs:
        v.n_dim = d
        v.signals = {'fleet_center': rng.randn(d, n), 'pose': rng.randn(d+case['extra'], n), 'time': t.reshape(1, -1)}
    p = cls.__new__(cls)
    p.fleet, p.vehicles = fl, vs
    mean = np.mean([v.signals['pose'][:d] for v in vs], axis=0)
    e = np.mean([np.linalg.norm(mean-v.signals['fleet_center'], axis=0)/np.linalg.norm(c) for v, c in zip(vs, conf)], axis=0)
    exp = np.sum(0.5*(e[1:]+e[:-1]))*case['Ts']/t[-1]
    ctx.close(float(np.ravel(p.get_interaction_error())[0]), exp, 'reported formation error', tol=1e-9)
    ctx.nontrivial(N > 2)


def g_rdv(st):
    @st.composite
    def s(draw):
        return {'N': gen.pick(draw, st, [2, 3, 3, 4]), 'inter': gen.pick(draw, st, ['circular', 'circular', 'full']),
                'kind': gen.pick(draw, st, ['holonomic', 'holonomic', 'quad', 'holo1d', 'holo3d', 'mixed']), 'seed': draw(st.integers(0, 10**6)),
                'nc': gen.pick(draw, st, [None, 1, None]), 'T': gen.pick(draw, st, [8., 10.]), 'rho': gen.pick(draw, st, [3., 1.]), 'n_obs': draw(st.integers(0, 1))}
    return s()


def c_rdv(case, ctx):
    v = im('omgtools.vehicles')
    sh = im('omgtools.basics.shape')
    Env = im('omgtools.environment.environment').Environment
    Ob = im('omgtools.environment.obstacle').Obstacle
    Fleet = im('omgtools.vehicles.fleet').Fleet
    rng = np.random.RandomState(case['seed'])
    N = case['N']
    kinds = [case['kind']]*N if case['kind'] != 'mixed' else ['quad']*(N-1)+['holo1d']
    dims = [{'holo1d': 1, 'holo3d': 3}.get(k, 2) for k in kinds]
    nc = min(dims) if case['nc'] is None else 1
    vehs = []
    for k in kinds:
        x = {'holonomic': v.Holonomic, 'holo1d': v.Holonomic1D, 'quad': (lambda: v.Quadrotor(.2)), 'holo3d': (lambda: v.Holonomic3D(sh.Sphere(.1)))}[k]()
        x.define_knots(knot_intervals=5)
        vehs.append(x)
    fl = Fleet(vehs, case['inter'])
    ang = 2*np.pi*np.arange(N)/N+rng.uniform(0, 6)
    conf = (0.4*np.c_[np.cos(ang), np.sin(ang), rng.uniform(-.5, .5, N)])[:, :nc]
    fl.set_configuration(conf.tolist())
    # the quantities that are not agreed upon have a fixed target, apart for each vehicle
    ini = [np.r_[1.5*np.cos(ang[i]), 1.5*np.sin(ang[i]), 0.][:d]+rng.uniform(-.5, .5, d) for i, d in enumerate(dims)]
    end = [np.r_[0., 1.2*np.sin(ang[i]), 0.][:d] for i, d in enumerate(dims)]
    fl.set_initial_conditions([list(x) for x in ini])
    fl.set_terminal_conditions([list(x) for x in end])
    three = max(dims) == 3
    env = Env(room={'shape': sh.Cuboid(9., 9., 9.) if three else sh.Square(9.)})
    if case['n_obs'] and not three and case['kind'] in ('holonomic',):
        env.add_obstacle(Ob({'position': [0., 0.]}, shape=sh.Circle(.1)))
    p = im('omgtools.problems.rendezvous').RendezVous(fl, env, options={'horizon_time': case['T'], 'rho': case['rho'], 'verbose': 0})
    p.set_options({'solver_options': {'ipopt': {'ipopt.linear_solver': 'mumps', 'ipopt.print_level': 0, 'print_time': 0}}})
    with quiet():
        p.init()
        sim = im('omgtools.execution.simulator').Simulator(p, sample_time=0.02, update_time=0.2)
        sim.deployer.reset()
    stop = False
    rel = lambda i, j, X: X[i][:nc]-X[j][:nc]-(conf[i]-conf[j])
    pairs = [(i, j) for i in range(N) for j in range(i+1, N)]
    for k in range(70):
        with quiet():
            stop = sim.update()
        if any(u.problem_upd_x.stats()['return_status'] != 'Solve_Succeeded' for u in p.updaters):
            ctx.label('not solved')
            return
        # at the start of the present plan
        X = [np.array(w.trajectories['splines'])[:, 0] for w in vehs]
        e = max(np.abs(rel(i, j, X)).max() for i, j in pairs)
        nb = [(i, j) for i, j in pairs if vehs[j] in fl.get_neighbors(vehs[i])]
        en = np.sqrt(sum(np.sum(rel(i, j, X)**2) for i, j in nb))
        if stop:
            ctx.ok(e <= 5.01e-2, 'rendez-vous of %d vehicles (%s) reported while two of them are %.4g away from their relative position', N, case['inter'], e)
        else:
            ctx.ok(en > 5e-2/2.*(1-1e-6)-1e-9, 'rendez-vous not reported while all neighbours are within %.4g of their relative position', en)
        with quiet():
            sim.update_timing()
        if stop:
            break
    ctx.label('met' if stop else 'still moving')
    # agreed end states
    ctx.label(case['kind'])
    ctx.ok(stop, '%d vehicles (%s, %s) did not meet within 14 s in free space', N, case['kind'], case['inter'])
    X = [np.array(w.signals['pose'])[:, -1] for w in vehs]
    for i, w in enumerate(vehs):
        for d in range(nc, dims[i]):
            y = float(np.array(w.trajectories['splines'])[d, -1])
            ctx.ok(abs(y-end[i][d]) < 2e-2, '%s: coordinate %d of vehicle %d is not free, but ends at %.4g instead of %.4g', case['kind'], d, i, y, end[i][d])
    ctx.nontrivial(N > 2 or nc > 1)


SUBS = [
    Sub('error', g_err, c_err, quick=100, thorough=5000, shards=1),
    Sub('tables', g_tab, c_tab, quick=400, thorough=20000, shards=1),
    Sub('central', lambda st: g_form(st, False), c_central, quick=70, thorough=2000, shards=6, case_limit=120),
    Sub('distributed', lambda st: g_form(st, True), c_dist, quick=45, thorough=1500, shards=6, case_limit=120),
    Sub('rendezvous', g_rdv, c_rdv, quick=24, thorough=800, shards=6, case_limit=120),
]
