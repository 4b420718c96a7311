from importlib import import_module as im
import numpy as np
from core import Sub
import gen
import ref
import veh

PROPERTY = 'P02'
RULE = ('Hypothesis draws vehicles, horizon, knots, sample time, update period (a multiple of the sample time), delays, model options, obstacles '
        'and a history of updates, tasks and pauses. The numerical solver is replaced by one that returns an arbitrary plan (random coefficients '
        'meeting only the initial conditions it is given), so that successive plans differ clearly and a sample taken from the wrong plan or the '
        'wrong instant shows; a second part runs the real solver. Every recorded sample is compared with a reference evaluation of the plan in '
        'force at that instant. Non-trivial: at least three updates of which one passes a knot (fixed horizon) or shortens the motion time.')

KINDS = ['holonomic', 'orient', 'dubins', 'bicycle', 'agv', 'quad', 'holo3d', 'squad3d', 'quad3d']
K3 = ('holo3d', 'squad3d', 'quad3d')
CMP = {'bicycle': [0, 1, 2], 'agv': [0, 1, 2]}      # the steering angle follows from the motion and is undefined at standstill
CMPU = {'bicycle': [0], 'agv': [0]}


def blossom(kn, deg, n, e):
    """coefficients of the polynomial t**e in the basis: mean of the products of e out of the deg knots of each coefficient"""
    import itertools
    out = []
    for i in range(n):
        c = list(itertools.combinations(kn[i+1:i+1+deg], e))
        out.append(np.mean([np.prod(z) for z in c]))
    return np.array(out)


class Stub(object):
    """stands in for the numerical solver"""

    def __init__(self, pr, rng, vs, free, amp):
        self.pr, self.rng, self.vs, self.free, self.amp = pr, rng, vs, free, amp
        self.calls = []
        self.T_next = None
        self.f = None
        self.poly = False

    def setup(self, init_names):
        import casadi as ca
        pr = self.pr
        d = pr.father.problem_description
        lab = pr.label
        mark = pr.father._con_struct(0.)
        for name in init_names:
            mark[pr._add_label(name)] = 1.
        sel = np.nonzero(np.array(mark.cat).ravel())[0].tolist()
        self.vix = {}
        for v in self.vs:
            m = pr.father._var_struct(0.)
            shp = np.array(m[v.label, 'splines_seg0']).shape
            n = int(np.prod(shp))
            m[v.label, 'splines_seg0'] = (1.+np.arange(n)).reshape(shp, order='F')
            f = np.array(m.cat).ravel()
            pos = np.zeros(n, dtype=int)
            w = np.nonzero(f)[0]
            pos[f[w].astype(int)-1] = w
            self.vix[v] = pos.reshape(shp, order='F')
        self.allix = np.concatenate([x.ravel() for x in self.vix.values()])
        if self.free:
            m = pr.father._var_struct(0.)
            m[lab, 'T'] = 1.
            self.iT = int(np.nonzero(np.array(m.cat).ravel())[0][0])
        con = d['con'].cat[sel]
        var = d['var'].cat
        self.f = ca.Function('f', [var, d['par'].cat], [con, ca.jacobian(con, var)])
        self.lab = lab

    def __call__(self, x0, p, lbg, ubg, **kw):
        import casadi as ca
        x0 = np.array(ca.DM(x0.cat if hasattr(x0, 'cat') else x0)).ravel()
        par = self.pr.father._par_struct(p)
        t = float(par[self.lab, 't'])
        pv = np.array(ca.DM(p.cat if hasattr(p, 'cat') else p)).ravel()
        x = x0.copy()
        T = self.T_next if self.free else float(par[self.lab, 'T'])
        if self.free:
            x[self.iT] = T
        if self.poly:
            # one polynomial over the whole horizon (moved in time without loss by any knots)
            cols = []
            for v in self.vs:
                ix = self.vix[v]
                deg, n = v.degree, ix.shape[0]
                kn = np.r_[np.zeros(deg), np.linspace(0., 1., n-deg+1), np.ones(deg)]
                B = [blossom(kn, deg, n, e) for e in range(deg+1)]
                for k in range(ix.shape[1]):
                    for b in B:
                        c = np.zeros(len(x))
                        c[ix[:, k]] = b
                        cols.append(c)
            C = np.array(cols).T
            y = self.amp*self.rng.uniform(-1, 1, C.shape[1])
            x[self.allix] = 0.
            x += C.dot(y)
            for _ in range(8):
                c, J = self.f(x, pv)
                c, J = np.array(c).ravel(), np.array(J).dot(C)
                if np.max(np.abs(c)) < 1e-11:
                    break
                x -= C.dot(np.linalg.lstsq(J, c, rcond=None)[0])
        for v in self.vs:
            if self.poly:
                break
            ix = self.vix[v]
            for k in range(ix.shape[1]):
                base = self.rng.uniform(-1, 1)
                x[ix[:, k]] = base+self.amp*min(1., T/ix.shape[0])**2*np.cumsum(self.rng.uniform(-1, 1, ix.shape[0]))
        for _ in range(0 if self.poly else 8):
            c, J = self.f(x, pv)
            c, J = np.array(c).ravel(), np.array(J)[:, self.allix]
            if np.max(np.abs(c)) < 1e-11:
                break
            x[self.allix] -= np.linalg.lstsq(J, c, rcond=None)[0]
        self.calls.append({'x0': x0, 't': t, 'T': T, 'x': x, 'res': float(np.max(np.abs(np.array(self.f(x, pv)[0]))))})
        return {'x': ca.DM(x), 'lam_g': ca.DM(np.zeros(self.pr.father._con_struct.shape[0]))}

    def stats(self):
        return {'return_status': 'Solve_Succeeded'}


def build(pr, stub):
    """what Problem.init does, without the numerical solver"""
    pr.father.reset()
    names = []
    orig = pr.define_init_constraints

    def rec():
        a = set(pr._constraints)
        orig()
        names.extend([n for n in pr._constraints if n not in a])
    pr.define_init_constraints = rec
    pr.construct()
    pr.problem, _ = pr.father.construct_problem(pr.options, problem=stub)
    pr.father.init_transformations(pr.init_primal_transform, pr.init_dual_transform)
    stub.setup(names)
    del pr.define_init_constraints


def place(kind, rng):
    p = rng.uniform(-1, 1, 3)
    th = rng.uniform(-1, 1)
    if kind in ('holonomic', 'quad'):
        return p[:2]
    if kind in ('orient', 'dubins'):
        return np.r_[p[:2], th]
    if kind == 'holo3d':
        return p
    if kind in ('bicycle', 'agv'):
        return np.r_[p[:2], th, 0.]
    return np.r_[p, np.zeros(5)]


def goal(kind, rng):
    p = rng.uniform(-1, 1, 3)
    if kind in ('holonomic', 'quad'):
        return p[:2]
    if kind in ('orient', 'dubins', 'bicycle', 'agv'):
        return np.r_[p[:2], rng.uniform(-1, 1)]
    return p


def g_hist(st):
    @st.composite
    def s(draw):
        nv = draw(st.sampled_from([1, 1, 1, 2]))
        k0 = KINDS[draw(st.integers(0, 10**6)) % len(KINDS)]
        three = k0 in K3
        kinds = [k0]
        if nv == 2:
            kinds.append(draw(st.sampled_from([k for k in KINDS if (k in K3) == three])))
        Ts = draw(st.sampled_from([0.01, 0.02, 0.05, 0.1, 0.025]))
        c = {'kinds': kinds, 'Ts': Ts, 'nu': draw(st.integers(1, 12)), 'm': draw(st.integers(1, 10)), 'free': draw(st.booleans()),
             'seed': draw(st.integers(0, 10**6)), 'amp': draw(st.sampled_from([0.05, 0.2, 0.5]))}
        # horizon: in updates, or a round number of seconds
        c['T'] = draw(st.sampled_from([10., 5., 2.3, 4.7, 1., 1.1, 3., 6.4, 2.0005, 9.9]))
        if any(k in ('quad', 'squad3d') for k in kinds):
            c['m'] = max(c['m'], 4)      # their starting guess needs as many knot intervals as the degree
        c['poly'] = c['free'] and draw(st.booleans())
        c['setopt'] = draw(st.booleans())
        c['up'] = draw(st.booleans())
        c['ip'] = draw(st.booleans())
        if 'bicycle' in kinds or 'agv' in kinds:
            c['up'] = c['ip'] = True       # integrating a steering angle through a standstill is ill-conditioned
        if 'quad3d' in kinds:
            c['ip'] = c['up']      # its trajectories start at the predicted state
        c['tasks'] = draw(st.lists(st.fixed_dictionaries({'n': st.integers(1, 9), 'how': st.sampled_from(['run', 'step', 'deploy']), 'T0': gen.num(st, 1.2, 8.),
                                                            'late': st.lists(st.sampled_from([0, 0, 0, 1, 2, 3, 5, 7, 0.3, 1.4]), min_size=1, max_size=4),
                                                            'pause': st.sampled_from([0, 0, 0, 3, 10])}), min_size=1, max_size=3))
        c['obs'] = draw(st.integers(0, 2))
        return c
    return s()


def ref_plan(kind, v, call, ix, start_state=None, x0=None):
    T = call['T']
    m = len(v.knots)-2*v.degree-1
    return veh.Motion(v.degree, m, np.array([call['x'][ix[:, k]] for k in range(ix.shape[1])]), T)


def c_hist(case, ctx):
    with veh.quiet():
        hist(case, ctx)


def hist(case, ctx):
    P = im('omgtools.problems.point2point')
    Env = im('omgtools.environment.environment').Environment
    Ob = im('omgtools.environment.obstacle').Obstacle
    sh = im('omgtools.basics.shape')
    rng = np.random.RandomState(case['seed'])
    kinds, Ts, free = case['kinds'], case['Ts'], case['free']
    three = kinds[0] in K3
    u = case['nu']*Ts
    nu = case['nu']
    T = max(case['T'], 2.*u)
    m = case['m']
    opts = {'ideal_update': case['up'], 'ideal_prediction': case['ip']}
    vs = []
    for kd in kinds:
        o = dict(opts)
        o['safety_distance'] = 0.
        v = veh.make(kd, options=o, knots=m)
        v.set_initial_conditions(place(kd, rng))
        v.set_terminal_conditions(goal(kd, rng))
        vs.append(v)
    obs = [Ob({'position': [3.*(k+1)]*(3 if three else 2), 'velocity': list(rng.uniform(-.1, .1, 3 if three else 2))},
              shape=sh.Sphere(0.2) if three else sh.Circle(0.2), simulation={'trajectories': {'velocity': {'time': [0.7], 'values': [[0.1]*(3 if three else 2)]}}} if k else {})
           for k in range(case['obs'])]
    for o in obs:
        o.set_options({'avoid': False})
    env = Env(room={'shape': sh.Cube(50.) if three else sh.Square(50.)}, obstacles=obs)
    op = {'verbose': 0, 'horizon_time': T}
    pr = P.Point2point(list(vs) if len(vs) > 1 else vs[0], env, options={} if case['setopt'] else op, freeT=free)
    if case['setopt']:
        pr.set_options(op)
    stub = Stub(pr, rng, vs, free, case['amp'])
    stub.poly = case.get('poly', False)
    build(pr, stub)
    ctx.ok(len(stub.f(np.zeros(stub.f.size1_in(0)), np.zeros(stub.f.size1_in(1)))) == 2, 'setup')
    deploy_only = case['tasks'][0]['how'] == 'deploy'
    if deploy_only:
        return deploy(case, ctx, pr, stub, vs, kinds, T, u, rng)
    S = im('omgtools.execution.simulator').Simulator
    sim = S(pr, sample_time=Ts, update_time=u)
    knot = T/m
    total = 0             # samples executed
    expect = {v: [] for v in vs}   # recorded columns as expected: (state, input, tolerance)
    seen = 0
    passed = False
    resolved = 0

    for it, task in enumerate(case['tasks']):
        count = [0]
        base = total
        Tm = [task['T0']+2.*u]
        for kd, v in zip(kinds, vs):
            if it:
                v.set_terminal_conditions(goal(kd, rng))
        planned = []
        orig = pr.stop_criterium

        def before():
            # motion time of the coming plan
            if free:
                stub.T_next = Tm[0]
                Tm[0] = max(Tm[0]-u*rng.uniform(0.7, 1.1), 1.5*u, 2.5*Ts)
        real_solve = pr.solve

        def solve(ct, ut):
            before()
            planned.append(ct)
            return real_solve(ct, ut)
        pr.solve = solve

        def stopper(ct, ut):
            count[0] += 1
            return count[0] >= task['n']
        pr.stop_criterium = stopper
        first_call = len(stub.calls)
        t_begin = sim.current_time
        ctx.ok(abs(t_begin-total*Ts) < 1e-7*(1+total), 'task %d starts at %.9g, %d samples of %g executed', it, t_begin, total, Ts)
        if task['how'] == 'run' or it:
            sim.run()
        else:
            sim.deployer.reset()
            stop = False
            while not stop:
                stop = sim.step(u)[3] if len(vs) == 1 else sim.step(u)[3]
        del pr.solve
        del pr.stop_criterium
        calls = stub.calls[first_call:]
        ctx.ok(len(calls) == task['n'], '%d plans for %d updates', len(calls), task['n'])
        for j, call in enumerate(calls):
            ctx.ok(call['res'] < 1e-6, 'no plan meets the initial conditions (residual %.3g)', call['res']) if call['res'] == call['res'] else None
            now = total*Ts
            ctx.ok(abs(planned[j]-now) < 1e-6, 'update %d takes place at %.9g instead of %.9g', j, planned[j], now)
            rel_abs = (total-base)*Ts
            Tj = call['T']
            if free:
                t_rel, npass = 0., 0
            else:
                npass = int(np.floor(rel_abs/knot+1e-6))
                t_rel = rel_abs-npass*knot
            ctx.ok(abs(call['t']-t_rel) < 3e-6, 'update %d of the task at %.6g s: current instant within the horizon %.9g, expected %.9g (knot interval %.9g)', j, rel_abs, call['t'], t_rel, knot)
            t_rel = call['t']
            if not free and j:
                passed |= npass > 0
                # the starting guess is the previous plan, moved in time
                pc = calls[j-1]
                pn = npass_prev
                for kd, v in zip(kinds, vs):
                    ix = stub.vix[v]
                    old = veh.Motion(v.degree, m, np.array([pc['x'][ix[:, k]] for k in range(ix.shape[1])]), T)
                    gs = veh.Motion(v.degree, m, np.array([call['x0'][ix[:, k]] for k in range(ix.shape[1])]), T)
                    sh_ = (npass-pn)*knot
                    for r in np.linspace(t_rel, T-sh_, 7)[:-1] if T-sh_ > t_rel else []:
                        for k in range(ix.shape[1]):
                            a, b = gs.s(k, r), old.s(k, r+sh_)
                            ctx.ok(abs(a-b) < 1e-6*(1+abs(b)), 'update %d: the starting guess at %.5g of the horizon is %.9g, the current plan says %.9g (%d knots passed)', j, r, a, b, npass-pn)
            if free and j and stub.poly and calls[j-1]['T'] >= 2*u+1e-9:
                # a plan that is a single polynomial is moved in time exactly
                pc = calls[j-1]
                for kd, v in zip(kinds, vs):
                    ix = stub.vix[v]
                    old = veh.Motion(v.degree, m, np.array([pc['x'][ix[:, k]] for k in range(ix.shape[1])]), pc['T'])
                    Tg = float(call['x0'][stub.iT])
                    ctx.ok(abs(Tg-(pc['T']-u)) < 1e-6, 'update %d: starting guess for the motion time %.9g, %.9g planned %.5g ago', j, Tg, pc['T'], u)
                    gs = veh.Motion(v.degree, m, np.array([call['x0'][ix[:, k]] for k in range(ix.shape[1])]), Tg)
                    for q in np.linspace(0., Tg, 6):
                        for k in range(ix.shape[1]):
                            a, b = gs.s(k, q), old.s(k, min(q+u, pc['T']))
                            ctx.ok(abs(a-b) < 1e-6*(1+abs(b)), 'update %d: the starting guess after %.5g s is %.9g, the previous plan %.9g at that moment', j, q, a, b)
                ctx.label('polynomial plan moved')
            dur = u
            if not free and Tj-t_rel < dur:
                dur = Tj-t_rel
            if free and Tj < dur:
                dur = Tj
            n = int(round(dur/Ts, 6))
            for kd, v in zip(kinds, vs):
                mo = ref_plan(kd, v, call, stub.vix[v])
                ts = t_rel+Ts*np.arange(n+1)
                ts = np.minimum(ts, Tj)
                rec = v.signals
                first = 0 if total == 0 else None
                # recorded columns total .. total+n (column total is the state when the plan takes effect)
                sl = slice(total, total+n+1)
                xs0 = rec['state'][:, total]
                U = np.array([veh.inputs(kd, mo, t) for t in ts]).T
                X = veh.states(kd, mo, ts, xs0)
                sc = 1.+np.max(np.abs(X))
                near_kink = np.zeros(n+1, dtype=bool)
                if case['up']:
                    E = X
                    tol = 1e-6*sc
                else:
                    nplan = int(round((Tj-t_rel)/Ts, 6))
                    tsp = np.minimum(t_rel+Ts*np.arange(nplan+1), Tj)
                    Ui = np.array([veh.inputs(kd, mo, t) for t in tsp]).T
                    E = veh.rk(kd, xs0, Ui, Ts, n=n, sub=24)
                    tol = 2e-5*sc
                    if not (np.max(np.abs(E)) < 50. and np.nanmax(np.abs(Ui)) < 100.):
                        ctx.label('skipped: integration out of range')
                        tol = np.inf
                ctx.ok(rec['state'].shape[1] >= total+n+1, 'task %d update %d: %d samples recorded, expected at least %d', it, j, rec['state'].shape[1], total+n+1)
                got = rec['state'][:, sl]
                d = np.abs(got-E)
                d[[q for q in range(len(d)) if q not in CMP.get(kd, range(len(d)))]] = 0.
                for q in ang(kd):
                    d[q] = np.abs((d[q]+np.pi) % (2*np.pi)-np.pi)
                ctx.ok(np.max(d[:, 1:]) < tol if n else True, '%s: task %d update %d (at %.5g): executed state differs from the plan in force by %.4g', kd, it, j, now, np.max(d[:, 1:]) if n else 0.)
                gi = rec['input'][:, sl]
                di = np.abs(gi-U)
                kn = np.array([mo.at_knot(t) for t in ts])
                di[:, kn] = 0.
                di[[q for q in range(len(di)) if q not in CMPU.get(kd, range(len(di)))]] = 0.
                ctx.ok(np.max(di[:, 1:]) < 1e-6*(1+np.nanmax(np.abs(U))) if n else True, '%s: task %d update %d (at %.5g): executed input differs from the plan in force by %.4g', kd, it, j, now, np.max(di[:, 1:]) if n else 0.)
                # the plan starts where the vehicle is predicted to be
                if case['up'] == case['ip'] and tol < np.inf:
                    d0 = np.abs(X[:, 0]-rec['state'][:, total])
                    for q in ang(kd):
                        d0[q] = np.abs((d0[q]+np.pi) % (2*np.pi)-np.pi)
                    npos = ({'quad': 4, 'squad3d': 6} if case['up'] and j else {'quad': 2, 'squad3d': 3}).get(kd, len(CMP.get(kd, d0)))
                    ctx.ok(np.max(d0[:npos]) < (1e-6 if case['up'] else 5e-5)*sc, '%s: task %d: the plan of update %d starts %.4g away from the state at that moment', kd, it, j, np.max(d0[:npos]))
            total += n
            npass_prev = npass
        for v in vs:
            rec = v.signals
            shapes = set(x.shape[1] for x in rec.values())
            ctx.ok(shapes == {total+1}, 'after task %d: %s recorded samples, expected %d', it, {k: x.shape[1] for k, x in rec.items()}, total+1)
            ctx.close(rec['time'][0], Ts*np.arange(total+1), 'recorded time after task %d' % it, tol=1e-7)
            ctx.ok(all(len(x) == total for x in v.traj_storage.values()), 'after task %d: %s plans stored for %d samples', it, {k: len(x) for k, x in v.traj_storage.items()}, total)
        for o in obs:
            ctx.ok(o.signals['time'].size == total+1 and o.signals['position'].shape[1] == total+1, 'after task %d: obstacle recorded %d samples, the vehicle %d', it, o.signals['time'].size, total+1)
        ctx.ok(len(sim.time) == total+1, 'after task %d: the simulator counts %d samples, the vehicle recorded %d', it, len(sim.time), total+1)
        ctx.close(sim.time, Ts*np.arange(total+1), 'simulation time', tol=1e-7)
        # every sample belongs to the plan that was in force
        if task['pause'] and it+1 < len(case['tasks']):
            k = task['pause']
            last = {v: v.signals['state'][:, -1].copy() for v in vs}
            sim.sleep(k*Ts)
            total += k
            for kd, v in zip(kinds, vs):
                rec = v.signals
                ctx.ok(rec['state'].shape[1] == total+1, 'after a pause of %d samples: %d samples recorded, expected %d', k, rec['state'].shape[1], total+1)
            ctx.close(v.signals['time'][0], Ts*np.arange(total+1), 'recorded time after a pause', tol=1e-7)
            ctx.label('pause')
    ctx.label('free end time' if free else 'fixed horizon')
    ctx.label('%d tasks' % len(case['tasks']))
    ctx.nontrivial(len(stub.calls) >= 3 and (free or passed))


def ang(kd):
    return {'orient': [2], 'dubins': [2], 'quad': [4], 'squad3d': [6, 7], 'quad3d': [6, 7], 'bicycle': [2], 'agv': [2]}.get(kd, [])


def deploy(case, ctx, pr, stub, vs, kinds, T, u, rng):
    """the calling application decides when to update, possibly late"""
    D = im('omgtools.execution.deployer').Deployer
    Ts, nu, m, free = case['Ts'], case['nu'], case['m'], case['free']
    dep = D(pr, Ts, u)
    knot = T/m
    t = 0.
    late = 0
    n_upd = 0
    for it, task in enumerate(case['tasks']):
        dep.reset()
        stub.T_next = task['T0']+3.*u
        prev = None
        t0 = t
        states = None
        if it:
            states = [place(kd, rng) for kd in kinds]
        for j in range(task['n']):
            first = len(stub.calls)
            meas = None
            if j == 0:
                st = states
            elif case['ip']:
                st = None
            else:
                # measured at the last moment an update was due
                back = (len(prev['ts'])-1)
                st = []
                for kd, v in zip(kinds, vs):
                    i = int(np.floor(round((t-prev['t'])/Ts, 6)))-nu
                    mo = ref_plan(kd, v, prev['call'], stub.vix[v])
                    x = prev['X'][v][:, max(i, 0)].copy()
                    x = x+rng.uniform(-.05, .05, len(x))
                    st.append(x)
            arg = None if st is None else (st[0] if len(st) == 1 else st)
            if j == 0:
                dep.update(t, arg, enforce_states=True)
            else:
                dep.update(t, arg)
            call = stub.calls[-1]
            n_upd += 1
            ctx.ok(len(stub.calls) == first+1, 'one plan per update')
            rel = t-t0
            if free:
                t_rel = 0.
            else:
                t_rel = rel-np.floor(rel/knot+1e-6)*knot
                ctx.ok(abs(call['t']-t_rel) < 3e-6, 'update at %.6g s: current instant within the horizon %.9g, expected %.9g (knot interval %.9g)', rel, call['t'], t_rel, knot)
                t_rel = call['t']
            cur = {'call': call, 't': t, 'X': {}, 'U': {}, 'ts': None}
            for q, (kd, v) in enumerate(zip(kinds, vs)):
                mo = ref_plan(kd, v, call, stub.vix[v])
                if j == 0:
                    want = [np.array(st[q]) if st is not None else None]
                    if want[0] is None:
                        want = [np.r_[v.prediction['state']]]
                else:
                    e = (t-prev['t'])/Ts
                    want = []
                    for i in sorted(set([int(np.floor(round(e, 6))), int(np.ceil(round(e, 6)))])):
                        if case['ip']:
                            want.append(prev['X'][v][:, i])
                        else:
                            # integrate the measured state with the inputs of the plan in force
                            want.append(veh.rk(kd, st[q], prev['U'][v][:, i-nu:], Ts, n=nu, sub=24)[:, -1])
                x0 = want[0]
                n = int(round((call['T']-t_rel)/Ts, 6))
                ts = np.minimum(t_rel+Ts*np.arange(n+1), call['T'])
                X = veh.states(kd, mo, ts, v.trajectories['state'][:, 0])
                U = np.array([veh.inputs(kd, mo, x) for x in ts]).T
                cur['X'][v], cur['U'][v], cur['ts'] = X, U, ts
                tr = v.trajectories
                ctx.ok(tr['state'].shape[1] == n+1 and tr['time'].shape[1] == n+1, '%d samples of a plan with %.6g s to go, sampled each %g s', tr['state'].shape[1], call['T']-t_rel, Ts)
                ctx.close(tr['time'][0], t+Ts*np.arange(n+1), 'time axis of the plan')
                npos = ({'quad': 4, 'squad3d': 6} if case['ip'] or j == 0 else {'quad': 2, 'squad3d': 3}).get(kd, len(CMP.get(kd, X)))
                best = np.inf
                npos = min(npos, min(len(w) for w in want))
                for w in want:
                    d = np.abs(tr['state'][:npos, 0]-w[:npos])
                    for a in ang(kd):
                        if a < npos:
                            d[a] = np.abs((d[a]+np.pi) % (2*np.pi)-np.pi)
                    best = min(best, float(np.max(d)))
                ctx.ok(best < (1e-6 if case['ip'] or j == 0 else 5e-5)*(1+np.max(np.abs(x0))), '%s: the plan taking effect at %.6g (previous one at %.6g, update time %g, sample time %g) starts %.4g away from the predicted state', kd, t,
                       -1. if prev is None else prev['t'], u, Ts, best)
                d = np.abs(tr['state']-X)
                d[[k for k in range(len(d)) if k not in CMP.get(kd, range(len(d)))]] = 0.
                for a in ang(kd):
                    d[a] = np.abs((d[a]+np.pi) % (2*np.pi)-np.pi)
                ctx.ok(np.max(d) < 1e-6*(1+np.max(np.abs(X))), '%s: samples of the plan differ from the plan by %.4g', kd, np.max(d))
            prev = cur
            # next call
            l = task['late'][j % len(task['late'])]
            left = min(n for n in [int(round((call['T']-t_rel)/Ts, 6))])
            if nu+l+1 >= left-2:
                l = 0
            if nu >= left-2:
                break
            late += l > 0
            t += u+l*Ts
            if free:
                stub.T_next = max(stub.T_next-u*rng.uniform(.7, 1.1), 3.*u, 4*Ts)
        t += u
    ctx.label('late updates', late)
    ctx.label('deployed, ' + ('free end time' if free else 'fixed horizon'))
    ctx.nontrivial(n_upd >= 3)


def g_once(st):
    @st.composite
    def s(draw):
        nv = draw(st.sampled_from([1, 1, 1, 2]))
        k0 = gen.pick(draw, st, KINDS)
        kinds = [k0]
        if nv == 2:
            kinds.append(gen.pick(draw, st, [k for k in KINDS if (k in K3) == (k0 in K3)]))
        c = {'kinds': kinds, 'Ts': gen.pick(draw, st, [0.01, 0.02, 0.05, 0.1, 0.025]), 'm': gen.pick(draw, st, [1, 2, 4, 5, 8, 10]), 'free': draw(st.booleans()),
             'seed': draw(st.integers(0, 10**6)), 'amp': gen.pick(draw, st, [0.05, 0.2]), 'T': gen.pick(draw, st, [10., 5., 2.3, 4.7, 1.1, 3., 2.0005]),
             'rounds': draw(st.lists(st.fixed_dictionaries({'stop': st.sampled_from([None, None, 0.05, .3, .5, .77, .95]), 'dry': st.integers(0, 4).map(lambda i: i == 0),
                                                            'T0': gen.num(st, 1.2, 6.), 'move': st.integers(0, 3).map(lambda i: i == 0), 'index': st.lists(gen.num(st, 0., 1., 1000), min_size=3, max_size=3)}),
                                     min_size=1, max_size=4))}
        if any(k in ('quad', 'squad3d') for k in kinds):
            c['m'] = max(c['m'], 4)
        return c
    return s()


def c_once(case, ctx):
    with veh.quiet():
        once(case, ctx)


def once(case, ctx):
    """whole motions planned and executed at once, cut short by a stop, one after the other"""
    P = im('omgtools.problems.point2point')
    Env = im('omgtools.environment.environment').Environment
    sh = im('omgtools.basics.shape')
    rng = np.random.RandomState(case['seed'])
    kinds, Ts, free, T, m = case['kinds'], case['Ts'], case['free'], case['T'], case['m']
    three = kinds[0] in K3
    vs = []
    for kd in kinds:
        v = veh.make(kd, options={'safety_distance': 0., 'ideal_update': True, 'ideal_prediction': True}, knots=m)
        v.set_initial_conditions(place(kd, rng))
        v.set_terminal_conditions(goal(kd, rng))
        vs.append(v)
    env = Env(room={'shape': sh.Cube(50.) if three else sh.Square(50.)})
    pr = P.Point2point(list(vs) if len(vs) > 1 else vs[0], env, options={'verbose': 0, 'horizon_time': T}, freeT=free)
    stub = Stub(pr, rng, vs, free, case['amp'])
    stub.poly = False
    build(pr, stub)
    S = im('omgtools.execution.simulator').Simulator
    sim = S(pr, sample_time=Ts, update_time=.1)
    total = 0
    simulated = 0
    for it, r in enumerate(case['rounds']):
        for kd, v in zip(kinds, vs):
            if it:
                v.set_terminal_conditions(goal(kd, rng))
        Tp = max(r['T0'], 4*Ts) if free else T
        stub.T_next = Tp
        n = int(round(Tp/Ts, 6))
        calls = len(stub.calls)
        kw = {}
        pert = None
        if r['stop'] is not None and not r['dry']:
            ns = max(1, int(r['stop']*n))
            pert = [rng.uniform(-.1, .1, len(v.prediction['state'])) for v in vs]
            for kd, e in zip(kinds, pert):
                if kd in ('bicycle', 'agv', 'quad3d', 'squad3d', 'quad'):
                    e[3 if kd in ('bicycle', 'agv') else 2:] = 0.
            kw['hard_stop'] = {'time': ns*Ts, 'perturbation': pert}
        expected = [np.array(v.signals['state'][:, -1] if total else v.prediction['state'], float) for v in vs]
        if r['dry']:
            ret = sim.run_once(simulate=False)
            ctx.ok(ret is None and len(stub.calls) == calls+1, 'a run without execution plans once')
            ctx.ok(len(sim.time) == total+1, 'a run without execution: the simulator counts %d samples', len(sim.time))
            for v in vs:
                ctx.ok(not total or v.signals['state'].shape[1] == total+1, 'a run without execution recorded samples')
            ctx.label('planned only')
        else:
            ret = sim.run_once(**kw)
        ctx.ok(len(stub.calls) == calls+1, '%d plans for one run', len(stub.calls)-calls)
        call = stub.calls[-1]
        ctx.ok(abs(call['t']) < 1e-9, 'round %d: the plan starts at %.9g of its horizon', it, call['t'])
        steps = 0 if r['dry'] else (ns if pert is not None else n)
        ts = np.minimum(Ts*np.arange(n+1), Tp)
        for q, (kd, v) in enumerate(zip(kinds, vs)):
            mo = ref_plan(kd, v, call, stub.vix[v])
            X = veh.states(kd, mo, ts, v.trajectories['state'][:, 0])
            U = np.array([veh.inputs(kd, mo, t) for t in ts]).T
            tr = v.trajectories if r['dry'] else (ret if len(vs) == 1 else ret[str(v)])
            ctx.ok(tr['state'].shape[1] == n+1, 'round %d: %d samples of a plan of %.6g s', it, tr['state'].shape[1], Tp)
            ctx.close(tr['time'][0], total*Ts+Ts*np.arange(n+1), 'time axis of the plan', tol=1e-7)
            sc = 1.+np.max(np.abs(X))
            own = CMP.get(kd, range(len(X)))

            def diff(A, B):
                d = np.abs(A-B)
                d[[k for k in range(len(d)) if k not in own]] = 0.
                for a in ang(kd):
                    d[a] = np.abs((d[a]+np.pi) % (2*np.pi)-np.pi)
                return float(np.max(d)) if d.size else 0.
            ctx.ok(diff(tr['state'], X) < 1e-6*sc, '%s: samples of the plan of round %d differ from it by %.4g', kd, it, diff(tr['state'], X))
            npos = {'quad': 2, 'squad3d': 3}.get(kd, len(X))
            keep = [k for k in range(min(npos, len(X))) if k in own]
            d = np.abs(X[keep, 0]-expected[q][keep])
            for i, k in enumerate(keep):
                if k in ang(kd):
                    d[i] = np.abs((d[i]+np.pi) % (2*np.pi)-np.pi)
            ctx.ok(np.max(d) < 1e-6*sc, '%s: round %d starts %.4g away from where the vehicle is', kd, it, np.max(d))
            if r['dry']:
                continue
            rec = v.signals
            ctx.ok(set(x.shape[1] for x in rec.values()) == {total+steps+1}, '%s: round %d: %s samples recorded, expected %d', kd, it, {k: x.shape[1] for k, x in rec.items()}, total+steps+1)
            ctx.close(rec['time'][0], Ts*np.arange(total+steps+1), 'recorded time after round %d' % it, tol=1e-7)
            last = total+steps
            E = X[:, 1:steps+1].copy()
            if pert is not None:
                E[:, -1] += pert[q]
                ctx.ok(np.all(rec['input'][:, last] == 0.), '%s: input %s after a stop', kd, rec['input'][:, last])
                ctx.ok(np.all(np.array(v.prediction['input']) == 0.), '%s: predicted input %s after a stop', kd, v.prediction['input'])
                ctx.close(v.prediction['state'], rec['state'][:, last], 'predicted state after a stop')
                P2 = v._state2pose(rec['state'][:, last])
                ctx.close(rec['pose'][:, last], P2, 'recorded pose after a stop')
                ctx.close(v.prediction['pose'], P2, 'predicted pose after a stop')
            got = rec['state'][:, total+1:last+1]
            ctx.ok(diff(got, E) < 1e-6*sc, '%s: round %d: executed states differ from the plan by %.4g', kd, it, diff(got, E))
            gi = rec['input'][:, total+1:last+(0 if pert is not None else 1)]
            di = np.abs(gi-U[:, 1:1+gi.shape[1]])
            kn = np.array([mo.at_knot(t) for t in ts[1:1+gi.shape[1]]], dtype=bool)
            di[:, kn] = 0.
            di[[k for k in range(len(di)) if k not in CMPU.get(kd, range(len(di)))]] = 0.
            ctx.ok(not di.size or np.max(di) < 1e-6*(1+np.nanmax(np.abs(U))), '%s: round %d: executed inputs differ from the plan by %.4g', kd, it, np.max(di) if di.size else 0.)
            ctx.ok(all(len(x) == last for x in v.traj_storage.values()), '%s: %s plans stored for %d samples', kd, {k: len(x) for k, x in v.traj_storage.items()}, last)
        total += steps
        simulated += steps > 0
        ctx.ok(len(sim.time) == total+1 and abs(sim.current_time-total*Ts) < 1e-7*(1+total), 'the simulator is at %.9g s with %d samples, %d were executed', sim.current_time, len(sim.time), total)
        for f in r['index']:
            k = int(round(f*total))
            ctx.ok(sim.time2index(k*Ts) == k, 'sample at %.9g s is number %r, not %d', k*Ts, sim.time2index(k*Ts), k)
        if pert is not None:
            ctx.label('stopped')
        if r['move'] and total:
            # the fleet is put somewhere else, standing still
            new = [place(kd, rng) for kd in kinds]
            ins = [np.zeros(v.signals['input'].shape[0]) for v in vs]
            new = [np.r_[x, np.zeros(v.signals['state'].shape[0]-len(x))] for x, v in zip(new, vs)]
            before = [(v.signals['state'][:, :-1].copy(), v.signals['input'][:, :-1].copy()) for v in vs]
            pr.fleet.overrule_state([list(x) for x in new])
            pr.fleet.overrule_input([list(x) for x in ins])
            for v, x, i, b in zip(vs, new, ins, before):
                ctx.close(v.signals['state'][:, -1], x, 'state after moving the fleet')
                ctx.close(v.prediction['state'], x, 'predicted state after moving the fleet')
                ctx.close(v.signals['pose'][:, -1], v._state2pose(x), 'pose after moving the fleet')
                ctx.close(v.prediction['input'], i, 'predicted input after moving the fleet')
                ctx.close(v.signals['input'][:, -1], i, 'input after moving the fleet')
                ctx.ok(np.array_equal(v.signals['state'][:, :-1], b[0]) and np.array_equal(v.signals['input'][:, :-1], b[1]), 'moving the fleet changed what was recorded before')
            ctx.label('moved')
    ctx.label('free end time' if free else 'fixed horizon')
    ctx.nontrivial(simulated >= 2)


SUBS = [Sub('history', g_hist, c_hist, quick=250, thorough=6000, shards=6),
        Sub('once', g_once, c_once, quick=120, thorough=3000, shards=2, rule='two rounds or more were executed')]
