import importlib
from importlib import import_module as im
import io
import contextlib
import numpy as np
from core import Sub
import gen
import ref

S03 = importlib.import_module('checks.S03')

PROPERTY = 'D02'
RULE = ('Hypothesis draws fleets of 2-5 agents (vehicle types, interconnection, knots, configuration, start, goal, obstacles), penalty, acceleration and '
        'update histories with knots passed in between; the real distributed problem is built and run with the real solver, all exchanged values are '
        'recorded and every iteration is replayed by a reference model (projection on the couplings, multiplier step, residual definitions, Nesterov '
        'acceleration, horizon shift by re-sampling splines). The compiled update functions are also compared with the model on random iterates and '
        'instants. Non-trivial: three agents or more, or a passed knot, or an instant between knots.')

# the code solves for the multipliers of the couplings through badly scaled rows (4th derivatives)
ZTOL = {'quad': 1e-3}
KINDS = ['holonomic', 'holonomic', 'holo1d', 'holo3d', 'quad', 'orient']


def g_fleet(st, run):
    @st.composite
    def s(draw):
        alg = gen.pick(draw, st, ['admm', 'admm', 'dd', 'rdv'])
        c = {'alg': alg, 'N': gen.pick(draw, st, [2, 3, 3, 4, 5]), 'inter': gen.pick(draw, st, ['circular', 'full']),
             'kind': gen.pick(draw, st, KINDS), 'm': gen.pick(draw, st, [4, 5, 8]), 'seed': draw(st.integers(0, 10**6)),
             'T': gen.pick(draw, st, [10., 8., 6.5]), 'rho': gen.pick(draw, st, [2., 0.3, 1., 5., 0.07]), 'sep': draw(st.booleans()),
             'ndim': gen.pick(draw, st, [None, None, 1, 2]), 't': [draw(gen.num(st, 0., 1., 1000)) for _ in range(2)],
             'AMA': draw(st.integers(0, 5)) == 0}
        if alg == 'dd':
            c['rho'] = c['rho']*0.02 if run else c['rho']
        if run:
            c['init_iter'] = draw(st.integers(0, 2))
            c['per'] = gen.pick(draw, st, [1, 1, 2])
            c['acc'] = gen.pick(draw, st, ['no', 'no', 'acc', 'reset'])
            c['eta'] = gen.pick(draw, st, [0.999, 0.9, 0.5])
            c['n_obs'] = draw(st.integers(0, 2))
            c['start'] = gen.pick(draw, st, [0., 0., 2.3])
            c['steps'] = draw(st.lists(st.sampled_from([0.1, 0.1, 0.2, 0.5, 1., 1.3, 2.7, 5.]), min_size=3, max_size=6))
        return c
    return s()


def vehicle(kind, c):
    v = im('omgtools.vehicles')
    cls = {'holonomic': v.Holonomic, 'holo1d': v.Holonomic1D, 'holo3d': v.Holonomic3D, 'quad': v.Quadrotor, 'orient': v.HolonomicOrient}[kind]
    x = cls(im('omgtools.basics.shape').Sphere(.1)) if kind == 'holo3d' else cls()
    x.define_knots(knot_intervals=5 if kind == 'quad' else c['m'])
    return x


def build(c):
    sh = im('omgtools.basics.shape')
    Env = im('omgtools.environment.environment').Environment
    Ob = im('omgtools.environment.obstacle').Obstacle
    Fleet = im('omgtools.vehicles.fleet').Fleet
    cls = {'admm': ('formation', 'FormationPoint2point'), 'dd': ('formation_dualdec', 'FormationPoint2pointDualDecomposition'),
           'rdv': ('rendezvous', 'RendezVous')}[c['alg']]
    cls = getattr(im('omgtools.problems.'+cls[0]), cls[1])
    rng = np.random.RandomState(c['seed'])
    N = c['N']
    kind = c['kind']
    vehs = [vehicle(kind, c) for _ in range(N)]
    dim = {'holo1d': 1, 'holo3d': 3}.get(kind, 2)
    nc = min(dim, c['ndim'] or dim)
    fl = Fleet(vehs, c['inter'])
    ang = rng.uniform(0, 6)+2*np.pi*np.arange(N)/N
    R = rng.uniform(0.5, 1.)
    P = np.c_[R*np.cos(ang), R*np.sin(ang), rng.uniform(-.3, .3, N)][:, :dim]
    if kind == 'holo1d':
        P = np.linspace(-1., 1., N).reshape(-1, 1)*R
    fl.set_configuration(P[:, :nc].tolist())
    shift = -1.2*np.ones(dim) if c.get('n_obs', 0) else rng.uniform(-1.5, 1.5, dim)
    goal = 1.3*np.ones(dim)+rng.uniform(-.2, .2, dim)
    ini, end = P+shift, P+goal
    if c['alg'] == 'rdv':
        ini = ini+rng.uniform(-.5, .5, ini.shape)
    if kind == 'orient':
        ini, end = np.c_[ini, np.zeros(N)], np.c_[end, rng.uniform(-.4, .4, N)]
    fl.set_initial_conditions([list(x) for x in ini])
    fl.set_terminal_conditions([list(x) for x in end])
    half = 5.
    room = sh.Cuboid(2*half, 2*half, 2*half) if dim == 3 else sh.Square(2*half)
    env = Env(room={'shape': room})
    if dim == 2 or dim == 3:
        for k in range(c.get('n_obs', 0)):
            shp = sh.Sphere(.2) if dim == 3 else (sh.Circle(.2) if k else sh.Rectangle(.3, .5))
            x = (np.array([0., 0.05, 0.] if k == 0 else [1.4, -1.5, 0.])[:dim])
            env.add_obstacle(Ob({'position': list(x)}, shape=shp))
    opt = {'horizon_time': c['T'], 'rho': c['rho'], 'verbose': 0, 'separate_build': c['sep'], 'init_iter': c.get('init_iter', 0),
           'max_iter_per_update': c.get('per', 1)}
    if c['alg'] != 'dd':
        opt.update({'AMA': c['AMA'], 'nesterov_acceleration': c.get('acc', 'no') != 'no', 'nesterov_reset': c.get('acc') == 'reset',
                    'eta': c.get('eta', .999)})
    p = cls(fl, env, options=opt)
    p.set_options({'solver_options': {'ipopt': {'ipopt.linear_solver': 'mumps', 'ipopt.print_level': 0, 'print_time': 0, 'ipopt.max_iter': 300}}})
    with contextlib.redirect_stdout(io.StringIO()):
        p.init()
    return p, fl, P[:, :nc], nc


# ---------------------------------------------------------------------------------------------------------------------- model

CACHE = {}


def memo(f):
    def g(*a):
        k = (f.__name__,)+tuple(tuple(x) if isinstance(x, (list, np.ndarray)) else x for x in a)
        if len(CACHE) > 500:
            CACHE.clear()
        if k not in CACHE:
            CACHE[k] = f(*a)
        return CACHE[k]
    return g


@memo
def fwd_matrix(kn, deg, t0):
    """coefficients of the part of a spline after t0 (first knots moved to t0)"""
    kn = np.asarray(kn, float)
    k2 = kn.copy()
    k2[:deg+1] = t0
    u = np.unique(k2)
    x = np.concatenate([a+(b-a)*(0.5-0.5*np.cos(np.pi*np.linspace(0, 1, deg+3)))*(1-1e-12) for a, b in zip(u[:-1], u[1:])])
    A, B = ref.basis_matrix(k2, deg, x), ref.basis_matrix(kn, deg, x)
    return np.linalg.lstsq(A, B, rcond=None)[0]


@memo
def shift_matrix(kn, deg):
    """coefficients of the spline one knot interval later, the last piece is continued"""
    kn = np.asarray(kn, float)
    n = len(kn)-deg-1
    h = kn[deg+1]-kn[deg]
    u = np.unique(kn)
    x = np.concatenate([a+(b-a)*np.linspace(0.02, 0.98, deg+3) for a, b in zip(u[:-1], u[1:])])
    A = ref.basis_matrix(kn, deg, x)
    B = np.zeros((len(x), n))
    for j in range(n):
        e = np.zeros(n)
        e[j] = 1.
        B[:, j] = [S03.ext_eval(kn, deg, e, y+h) for y in x]
    return np.linalg.lstsq(A, B, rcond=None)[0]


class Model(object):
    """structure of the coupling as the user configured it: all agents share nc quantities"""

    def __init__(self, p, fl, conf, nc, c):
        self.pinv = {}
        self.N, self.nc, self.alg = c['N'], nc, c['alg']
        self.spline = c['alg'] != 'rdv'
        b = fl.vehicles[0].basis
        self.kn, self.deg = np.array(b.knots, float), b.degree
        self.n = len(b) if self.spline else 1
        self.sz = self.n*nc
        N = self.N
        if c['inter'] == 'circular':
            self.nb = [sorted({(i+1) % N, (i-1) % N}) for i in range(N)]
        else:
            self.nb = [[j for j in range(N) if j != i] for i in range(N)]
        # blocks of neighbours are ordered from the next agent on
        self.order = [sorted(nb, key=lambda j: j if j > i else j+N) for i, nb in enumerate(self.nb)]

    def fwd(self, v, t0):
        if not self.spline:
            return np.array(v)
        F = fwd_matrix(self.kn, self.deg, t0)
        v = np.asarray(v, float).reshape(-1, self.n)
        return (F.dot(v.T)).T.ravel()

    def shift(self, v, k):
        if not self.spline or k == 0:
            return np.array(v)
        S = shift_matrix(self.kn, self.deg)
        v = np.asarray(v, float).reshape(-1, self.n)
        for _ in range(k):
            v = (S.dot(v.T)).T
        return v.ravel()

    def coupling(self, i):
        """rows on [own, neighbours in order]"""
        m = len(self.order[i])
        rows = []
        for k in range(m):
            for e in range(self.sz):
                r = np.zeros(self.sz*(m+1))
                r[e], r[self.sz*(k+1)+e] = 1., -1.
                rows.append(r)
        if self.spline:
            # own centre comes to rest: all derivatives vanish at the end, the last degree+1 coefficients are equal
            for q in range(self.nc):
                for e in range(self.n-self.deg-1, self.n-1):
                    r = np.zeros(self.sz*(m+1))
                    r[q*self.n+e], r[q*self.n+e+1] = 1., -1.
                    rows.append(r)
        return np.array(rows)

    def project(self, i, w):
        if i not in self.pinv:
            A = self.coupling(i)
            self.pinv[i] = A, np.linalg.pinv(A)
        A, B = self.pinv[i]
        return w-B.dot(A.dot(w))

    # reading the structures of the code, by their labels ------------------------------------------------------------
    def own(self, S, veh):
        return np.concatenate([np.array(S[veh.label, nm]).ravel() for nm in self.names(S, veh.label)])

    def names(self, S, lab):
        return sorted({l[1:-1].split(',')[-2] for l in S.labels() if lab in l[1:-1].split(',')}, key=lambda x: (len(x), x))


def arr(x):
    return np.array(x.cat if hasattr(x, 'cat') else x, dtype=float).ravel() if not hasattr(x, 'full') else np.array(x.full()).ravel()


def vec(S):
    return np.array(S.cat.full()).ravel()


def nrm(x):
    return float(np.abs(x).max()) if len(x) else 0.


def c_maps(case, ctx):
    import casadi as cas
    p, fl, conf, nc = build(case)
    M = Model(p, fl, conf, nc, case)
    with contextlib.redirect_stdout(io.StringIO()):
        p.initialize(0.)
    rng = np.random.RandomState(case['seed']+1)
    T, rho = case['T'], case['rho']
    kt = T/len(np.unique(M.kn)[1:]) if M.spline else T
    i = case['seed'] % case['N']
    u = p.updaters[i]
    m = len(M.order[i])
    # structure: who is coupled to whom, with what
    ctx.ok([x._index for x in u.q_ij.keys()] == M.order[i] and [x._index for x in u.q_ji.keys()] == M.order[i],
           'agent %d of %d (%s) is coupled to %r and seen by %r, expected %r', i, case['N'], case['inter'], [x._index for x in u.q_ij],
           [x._index for x in u.q_ji], M.order[i])
    zt = ZTOL.get(case['kind'], 1e-6)
    ctx.ok(u.q_i_struct.shape[0] == M.sz and u.q_ij_struct.shape[0] == m*M.sz and u.q_ji_struct.shape[0] == m*M.sz,
           'agent shares %r values and copies %r of its neighbours, expected %d and %d', u.q_i_struct.shape, u.q_ij_struct.shape, M.sz, m*M.sz)
    sc = rng.choice([1., 1., 10., 0.01])
    r = lambda k: sc*rng.randn(k)
    for tt in [0.]+case['t']:
        t = min(tt, 0.95)*kt
        t0 = t/T
        x, l, z = r(M.sz), r(M.sz), r(M.sz)
        xj, lj, zj, zp, zjp = r(m*M.sz), r(m*M.sz), r(m*M.sz), r(M.sz), r(m*M.sz)
        zji, lji = r(m*M.sz), r(m*M.sz)
        F = lambda v: M.fwd(v, t0)
        S = sc*(1+1/rho)
        if case['alg'] != 'dd':
            out = [arr(o) for o in u.problem_upd_z(x, l, lj, xj, t, T, rho, np.zeros(0))]
            Z = np.r_[F(out[0]), F(out[1])]
            W = np.r_[F(x)+F(l)/rho, F(xj)+F(lj)/rho]
            ctx.close(Z, M.project(i, W), 'coordination update of agent %d at %.4f s into the interval is not the projection on the couplings' % (i, t), tol=zt, scale=S)
            lo = [arr(o) for o in u.problem_upd_l(x, z, zj, l, lj, xj, rho)]
            ctx.close(np.r_[lo[0], lo[1]], np.r_[l+rho*(x-z), lj+rho*(xj-zj)], 'multipliers do not move by rho times the disagreement', tol=1e-9, scale=S*(1+rho))
            res = [float(o) for o in u.problem_upd_res(x, z, zp, zj, zjp, xj, t, T, rho)]
            pr = np.sum(F(x-z)**2)+np.sum(F(xj-zj)**2)
            dr = rho*(np.sum(F(z-zp)**2)+np.sum(F(zj-zjp)**2))
            ctx.close(res, [pr, dr, rho*pr+dr], 'residuals at %.4f s into the interval' % t, tol=1e-8, scale=max(pr, dr, rho*pr))
        else:
            lo = arr(u.problem_upd_l(xj, zj, lj, t, T, rho))
            ctx.close(lo, lj+rho*(xj-zj), 'multipliers do not move by rho times the disagreement', tol=1e-9, scale=S*(1+rho))
        # objective of the local problem: difference between two settings of copies and multipliers
        sol = u.problem_upd_x if case['alg'] != 'dd' else u.problem_upd_xz
        f = sol.get_function('nlp_f')
        par = u.father_updx.set_parameters(0.)
        V = u.father_updx.get_variables()
        v = vec(V)+0.3*rng.randn(len(vec(V)))
        val = []
        lab = u.label
        base = vec(par)
        pl = par.labels()
        idx = lambda nm: [k for k, q in enumerate(pl) if q.startswith('[%s,%s,' % (lab, nm))]
        for k, q in enumerate(pl):
            if q.split(',')[1:] == ['t', '0]']:
                base[k] = t
            if q.split(',')[1:] == ['T', '0]']:
                base[k] = T
        own, cop = own_values(M, u, case, V(v), conf, i)
        for use in (0, 1):
            b = base.copy()
            ns = ['z_i', 'z_ji', 'l_i', 'l_ji'] if case['alg'] != 'dd' else ['l_ij', 'l_ji']
            for nm in ns:
                ii = idx(nm)
                b[ii] = use*{'z_i': z, 'z_ji': zji, 'l_i': l, 'l_ji': lji, 'l_ij': lj}[nm]
            if case['alg'] != 'dd':
                b[idx('rho')] = rho
            val.append(float(f(v, b)))
        X = F(own)
        if case['alg'] == 'dd':
            e = sum(F(lji[k*M.sz:(k+1)*M.sz]).dot(X) for k in range(m))-F(lj).dot(F(cop))
        else:
            q = 0. if case['AMA'] else 0.5*rho

            def aug(a):
                s = F(l*a).dot(X-F(z*a))+q*np.sum((X-F(z*a))**2)
                for k in range(m):
                    zz, ll = F(a*zji[k*M.sz:(k+1)*M.sz]), F(a*lji[k*M.sz:(k+1)*M.sz])
                    s += ll.dot(X-zz)+q*np.sum((X-zz)**2)
                return s
            e = aug(1.)-aug(0.)
        ctx.close(val[1]-val[0], e, 'agent %d does not minimise the augmented Lagrangian of its couplings at %.4f s into the interval' % (i, t), tol=1e-7,
                  scale=max(abs(val[0]), abs(val[1]), abs(e), 1.))
    ctx.label(case['alg'])
    ctx.nontrivial(case['N'] > 2 or nrm(case['t']) > 0)


def own_values(M, u, case, V, conf, i):
    """what the agent contributes to the couplings (from its own plan), and its copies of the neighbours (dual decomposition)"""
    veh = u.vehicle
    if case['alg'] == 'rdv':
        c = np.array(V[u.problem.label, 'conT0'].full()).ravel()
        own = c[:M.nc]-conf[i]
    else:
        c = np.array(V[veh.label, 'splines_seg0'].full())
        own = np.concatenate([c[:, k]-conf[i][k] for k in range(M.nc)])
    cop = np.array(V[u.label, 'z_ij'].full()).ravel() if case['alg'] == 'dd' else None
    return own, cop


class Proxy(object):
    def __init__(self, fun, log, father):
        self.fun, self.log, self.father = fun, log, father

    def __call__(self, **kw):
        r = self.fun(**kw)
        self.log.append({'p': np.array(kw['p'].cat.full() if hasattr(kw['p'], 'cat') else kw['p']).ravel(), 'x': np.array(r['x']).ravel(),
                         'ok': self.fun.stats()['return_status'] == 'Solve_Succeeded'})
        return r

    def stats(self):
        return self.fun.stats()


def c_run(case, ctx):
    p, fl, conf, nc = build(case)
    M = Model(p, fl, conf, nc, case)
    N = case['N']
    dd = case['alg'] == 'dd'
    var = (lambda u: u.var_dd) if dd else (lambda u: u.var_admm)
    logs = [[] for _ in range(N)]
    for i, u in enumerate(p.updaters):
        nm = 'problem_upd_xz' if dd else 'problem_upd_x'
        setattr(u, nm, Proxy(getattr(u, nm), logs[i], u.father_updx))
    T, rho = case['T'], case['rho']
    zt = ZTOL.get(case['kind'], 1e-6)
    n_int = len(np.unique(M.kn))-1 if M.spline else len(np.unique(fl.vehicles[0].knots))-1
    kt = T/n_int
    st = {'prev': None, 'alpha': 1., 'cp': None, 'n': 0, 'shifted': 0, 'bad': False}
    snap = lambda: [{k: vec(x) for k, x in var(u).items()} for u in p.updaters]
    orig = p.dual_update

    def interval(t):
        return int(np.floor(t/kt+1e-6*1.))

    def step(t, upd):
        pre = snap()
        with contextlib.redirect_stdout(io.StringIO()):
            orig(t, upd)
        post = snap()
        st['n'] += 1
        ctx.ok(p.iteration == st['n'], 'iteration counter is %r after %d iterations', p.iteration, st['n'])
        k = 0 if st['prev'] is None else interval(t)-interval(st['prev'])
        st['prev'] = t
        t0 = (t-interval(t)*kt)/T
        t0 = max(0., t0)
        sols = [lg[-1] for lg in logs]
        if not all(s['ok'] for s in sols) or any(nrm(s['x']) > 1e4 for s in sols):
            st['bad'] = True
        if st['bad']:
            return
        sh = [{q: M.shift(v, k) for q, v in s.items()} for s in pre]
        st['shifted'] += k
        if k > 2 or any(nrm(v) > 1e5 for s in sh for v in s.values()):
            # continuing multipliers over many intervals amplifies them
            ctx.label('far shift')
            st['far'] = True
        scale = [1.+max(nrm(v) for v in s.values()) for s in sh]
        par = [u.father_updx._par_struct(s['p']) for u, s in zip(p.updaters, sols)]
        xs = []
        ns = ['l_ij', 'l_ji'] if dd else ['z_i', 'z_ji', 'l_i', 'l_ji']
        for i, u in enumerate(p.updaters):
            for q in ns:
                ctx.close(np.array(par[i][u.label, q].full()).ravel(), sh[i][q],
                          'agent %d: %s used at %.3f s differs from the value before, shifted over %d knots' % (i, q, t, k), tol=1e-6, scale=scale[i])
            V = u.father_updx._var_struct(sols[i]['x'])
            own, cop = own_values(M, u, case, V, conf, i)
            ctx.close(post[i]['x_i'], own, 'agent %d: shared trajectory is not its planned trajectory relative to the configuration' % i, tol=1e-9)
            xs.append(own)
            if dd:
                ctx.close(post[i]['z_ij'], cop, 'agent %d: copies are not those of the solution' % i, tol=1e-9)
        sums = np.zeros(3)
        new = []
        F = lambda v: M.fwd(v, t0)
        for i, u in enumerate(p.updaters):
            xj = np.concatenate([xs[j] for j in M.order[i]])
            ctx.close(post[i]['x_j'], xj, 'agent %d: received trajectories' % i, tol=1e-9)
            if dd:
                z = post[i]['z_ij']
                # its copies and its own plan satisfy the couplings
                A = M.coupling(i)
                w = np.r_[F(xs[i]), F(z)]
                ctx.close(A.dot(w), 0*A[:, 0], 'agent %d: copies of the neighbours violate the couplings' % i, tol=1e-4, scale=1.+nrm(w))
                l = sh[i]['l_ij']+rho*(xj-z)
                ctx.close(post[i]['l_ij'], l, 'agent %d: multipliers' % i, tol=1e-7, scale=scale[i]+nrm(l))
                sums[0] += np.sum(F(xj-z)**2)
                new.append({'l_ij': post[i]['l_ij']})
                continue
            li, lij = sh[i]['l_i'], sh[i]['l_ij']
            W = np.r_[F(xs[i])+F(li)/rho, F(xj)+F(lij)/rho]
            Z = M.project(i, W)
            new.append({'W': W, 'Z': Z, 'xj': xj, 'li': li, 'lij': lij})
        if dd:
            ctx.close(p.residuals['primal'][-1], np.sqrt(sums[0]), 'reported primal residual at iteration %d' % st['n'], tol=1e-6, scale=1e-3+np.sqrt(sums[0]))
        else:
            # values before acceleration: z from the model, or, when nothing is done with it, from the code
            acc = case['acc']
            for i in range(N):
                d = new[i]
                sz = M.sz
                zf = d['Z']
                # undo the restriction to the remaining horizon
                if M.spline:
                    G = np.linalg.inv(fwd_matrix(M.kn, M.deg, t0))
                    back = lambda v: (G.dot(v.reshape(-1, M.n).T)).T.ravel()
                else:
                    back = lambda v: v
                d['cond'] = 1. if not M.spline else np.linalg.norm(G, 2)
                d['z'] = back(zf)
                d['l_new'] = np.r_[d['li'], d['lij']]+rho*(np.r_[xs[i], d['xj']]-d['z'])
                zp = np.r_[sh[i]['z_i'], sh[i]['z_ij']]
                d['zp'] = zp
                Fz = np.r_[F(xs[i]), F(d['xj'])]-zf
                pr, dr = np.sum(Fz**2), rho*np.sum((zf-F(zp))**2)
                sums += [pr, dr, rho*pr+dr]
            got = [p.residuals[q][-1] for q in ('primal', 'dual', 'combined')]
            exp = [np.sqrt(sums[0]), np.sqrt(sums[1]), sums[2]]
            # the right hand side of the projection carries the error of the code's linear solver
            for g, e, q, s in zip(got, exp, ('primal', 'dual', 'combined'), [1., np.sqrt(rho), None]):
                sc = max(scale)
                tol = zt*sc*(1.+np.sqrt(rho)) if q != 'combined' else zt*sc*sc*(1.+rho)+10*zt*abs(e)
                ctx.ok(abs(g-e) <= tol+1e-6*abs(e), 'reported %s residual is %.10g, by definition %.10g (iteration %d, %.3f s)', q, g, e, st['n'], t)
            beta = 0.
            reset = False
            cr = sums[2]
            near = False
            if acc != 'no':
                if st['cp'] is None:
                    st['cp'] = cr/case['eta']
                    first = True
                else:
                    first = False
                if acc == 'reset':
                    lim = case['eta']*st['cp']
                    near = abs(cr-lim) <= 1e-4*max(cr, lim) and not first
                    go = cr <= lim*(1+1e-9) if not first else None
                    if go is None:
                        # at the first iteration the limit equals the residual itself: either outcome changes nothing in the iterates but a reset
                        near = True
                else:
                    go = True
                if go or go is None:
                    a = st['alpha']
                    st['alpha'] = 0.5*(1+np.sqrt(1+4*a*a))
                    beta = (a-1)/st['alpha']
                    st['cp'] = cr
                else:
                    reset = True
                    st['alpha'] = 1.
                    st['cp'] = st['cp']/case['eta']
            if near:
                st['bad'] = st['bad'] or not first
            for i in range(N):
                d = new[i]
                if reset:
                    z2, l2 = d['zp'], np.r_[d['li'], d['lij']]
                else:
                    bz = 0. if case['AMA'] else beta
                    z2 = d['z']+bz*(d['z']-d['zp'])
                    l2 = d['l_new']+beta*(d['l_new']-np.r_[d['li'], d['lij']])
                if near:
                    continue
                got = np.r_[post[i]['z_i'], post[i]['z_ij']]
                gl = np.r_[post[i]['l_i'], post[i]['l_ij']]
                sc = scale[i]*(1+1/rho)*(1+beta)
                ctx.close(np.r_[F(got[:M.sz]), F(got[M.sz:])], np.r_[F(z2[:M.sz]), F(z2[M.sz:])],
                          'agent %d: coordination trajectories after iteration %d at %.3f s' % (i, st['n'], t), tol=zt, scale=sc)
                ctx.close(np.r_[F(gl[:M.sz]), F(gl[M.sz:])], np.r_[F(l2[:M.sz]), F(l2[M.sz:])],
                          'agent %d: multipliers after iteration %d at %.3f s' % (i, st['n'], t), tol=zt, scale=sc*(1+rho))
        # what the neighbours hold equals what was just computed
        for i, u in enumerate(p.updaters):
            for a, j in enumerate(M.order[i]):
                b = M.order[j].index(i)
                for mine, theirs in ([('l_ji', 'l_ij')] if dd else [('l_ji', 'l_ij'), ('z_ji', 'z_ij')]):
                    ctx.close(post[i][mine][a*M.sz:(a+1)*M.sz], post[j][theirs][b*M.sz:(b+1)*M.sz],
                              'agent %d does not hold %s of neighbour %d' % (i, theirs, j), tol=1e-12)
    p.dual_update = step
    with contextlib.redirect_stdout(io.StringIO()):
        p.initialize(case['start'])
    t = case['start']
    n0 = st['n']
    ctx.ok(n0 == case['init_iter']*case['per'], '%d iterations at initialisation instead of %d', n0, case['init_iter']*case['per'])
    for k, d in enumerate(case['steps']):
        n0 = st['n']
        p.solve(t, 0. if k == 0 else case['steps'][k-1])
        ctx.ok(st['n']-n0 == case['per'], '%d iterations in an update instead of %d', st['n']-n0, case['per'])
        if st['bad']:
            break
        t += d
    ctx.label(case['alg'])
    if st['bad']:
        ctx.label('stopped: no solution')
    ctx.label('iterations', st['n'])
    ctx.nontrivial(st['n'] > 2 and (case['N'] > 2 or st['shifted'] > 0))


SUBS = [
    Sub('updates', lambda st: g_fleet(st, False), c_maps, quick=140, thorough=3000, shards=8),
    Sub('history', lambda st: g_fleet(st, True), c_run, quick=90, thorough=2000, shards=8),
]
