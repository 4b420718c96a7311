from importlib import import_module as im
import numpy as np
from core import Sub
import gen
import geo
import ref
import veh

PROPERTY = 'V02'
RULE = ('Hypothesis draws a vehicle, its limits and limit type, room, obstacles and their motion, the motion time and a list '
        'of coefficient directions; starting at rest, the motion is pushed along each direction until a constraint of the '
        'assembled program becomes active, so that the result is a corner of the feasible set. The physical quantities are '
        'then evaluated by reference kinematics and geometry on a dense grid of instants. '
        'Non-trivial: a physical limit, the room border or the obstacle is nearly reached.')


def fresh(s):
    """a string that is equal but not identical to the literal in the code"""
    return ''.join([s[:1], s[1:]]) if len(s) < 2 else ''.join(list(s))


# ------------------------------------------------------------------ drawing

def g_push(st, n=10):
    return st.lists(st.tuples(st.integers(0, 8), st.sampled_from([0, 1, 1, 2, 2, 3, 'one', 'one', 'any', 'any']), st.booleans(),
                              st.lists(st.integers(-5, 5), min_size=4, max_size=4), st.sampled_from([1., 1., 1., 0.5])).map(list), min_size=3, max_size=n)


def pos(st, lo=0.2, hi=3.):
    return gen.num(st, lo, hi)


def g_bounds(st, kind):
    @st.composite
    def s(draw):
        p = lambda lo=0.2, hi=3.: draw(pos(st, lo, hi))
        full = draw(st.integers(0, 9)) > 0
        if not full:
            return {}
        b = {}
        if kind in ('holonomic', 'holo3d', 'orient', 'holo1d', 'tool'):
            b = {'vmin': -p(), 'vmax': p(), 'amin': -p(), 'amax': p()}
            if kind == 'tool':
                b.update({'jmin': -p(0.5, 20.), 'jmax': p(0.5, 20.)})
            if kind == 'orient':
                b.update({'wmin': -p(), 'wmax': p()})
            if kind in ('holonomic', 'tool') and draw(st.booleans()):
                b = {}
                ax = 'xyz' if kind == 'tool' else 'xy'
                for q in 'vaj'[:3 if kind == 'tool' else 2]:
                    for x in ax:
                        b[q+x+'min'], b[q+x+'max'] = -p(), p()
        elif kind in ('dubins', 'trailer'):
            b = {'vmax': p(), 'wmin': -p(), 'wmax': p()}
            if kind == 'trailer':
                b['tmax'], b['tmin'] = p(0.2, 1.5), -p(0.2, 1.5)
        elif kind in ('bicycle', 'agv'):
            b = {'vmax': p(), 'amax': p(), 'dmin': -p(0.1, 1.3), 'dmax': p(0.1, 1.3), 'ddmin': -p(), 'ddmax': p()}
        elif kind == 'quad':
            b = {'u1min': p(1., 9.), 'u1max': p(10.5, 20.), 'u2min': -p(0.5, 9.), 'u2max': p(0.5, 9.)}
        else:
            b = {'u1min': p(1., 9.), 'u1max': p(10.5, 20.)}
            for q in ('u2', 'u3'):
                b[q+'min'], b[q+'max'] = -p(0.5, 4.), p(0.5, 4.)
            for q in ('phi', 'theta'):
                b[q+'min'], b[q+'max'] = -p(0.1, 0.9), p(0.1, 0.9)
        return b
    return s()


def g_lim(st):
    @st.composite
    def s(draw):
        kind = gen.pick(draw, st, veh.KINDS)
        opt = {}
        if kind in ('holonomic', 'holo3d', 'orient') and draw(st.booleans()):
            opt['syslimit'] = 'norm_2'
        if kind == 'tool' and draw(st.booleans()):
            opt['vel_limit'] = 'axes'
        b = draw(g_bounds(st, kind))
        if opt.get('syslimit') == 'norm_2':
            b = {k: v for k, v in b.items() if k in ('vmax', 'amax', 'wmin', 'wmax')}
        if kind == 'tool' and 'axes' not in opt.values() and draw(st.integers(0, 4)) == 0:
            b = dict(b, vxmax=0., vzmax=draw(pos(st)))
            b.pop('vmax', None)
        return {'kind': kind, 'm': draw(st.integers(1, 7)), 'T': draw(st.sampled_from([1., 2., 5., 10., 3.3, 0.7])), 'b': b, 'opt': opt,
                'L': draw(st.sampled_from([0.4, 0.2, 1.])), 'q': draw(st.lists(gen.num(st, -1., 1.), min_size=3, max_size=3)), 'planar': draw(st.booleans()),
                'push': draw(st.lists(g_push(st), min_size=2, max_size=3)), 'v0': draw(st.sampled_from([0.05, 0.2, 0.5, 1., 0.]))}
    return s()


def rest(kind, case, n):
    """coefficients of a motion at rest"""
    q = case['q']
    if kind in ('dubins', 'bicycle', 'agv'):
        return np.array([[0.]*n, [q[0]]*n])
    if kind == 'trailer':
        return np.array([[q[0]]*n, [0.]*n, [q[0]]*n])
    if kind == 'quad3d':
        return np.array([[veh.G]*n, [0.]*n, [0.]*n])
    if kind == 'orient':
        return np.array([[q[0]]*n, [q[1]]*n, [q[2]]*n])
    return np.array([[q[k]]*n for k in range(veh.NSPL[kind])])


def par_struct(father, vals):
    par = father._par_struct(0.)
    for (lab, name), v in vals.items():
        par[lab, name] = v
    return par


def limits(kind, b, opt, mo, t, L):
    """-> list of (quantity, value, lower, upper)"""
    s = mo.s
    inf = np.inf
    g = lambda k, d: b.get(k, d)
    if kind in ('holonomic', 'orient', 'holo3d') and opt.get('syslimit') == 'norm_2':
        n = 3 if kind == 'holo3d' else 2
        out = [('speed', np.linalg.norm([s(k, t, 1) for k in range(n)]), -inf, g('vmax', 0.5)),
               ('acceleration', np.linalg.norm([s(k, t, 2) for k in range(n)]), -inf, g('amax', 1.))]
    elif kind in ('holonomic', 'orient', 'holo3d', 'holo1d'):
        out = []
        for k in range({'holonomic': 2, 'orient': 2, 'holo3d': 3, 'holo1d': 1}[kind]):
            for q, o, d in (('v', 1, .5), ('a', 2, 1.)):
                lo, hi = g('%smin' % q, g('%s%smin' % (q, 'xyz'[k]), -d)), g('%smax' % q, g('%s%smax' % (q, 'xyz'[k]), d))
                out.append(('%s%s' % (q, 'xyz'[k]), s(k, t, o), lo, hi))
    elif kind == 'tool':
        out = []
        for k in range(3):
            for q, o, d in (('a', 2, 1.), ('j', 3, 2.)):
                lo, hi = g('%smin' % q, g('%s%smin' % (q, 'xyz'[k]), -d)), g('%smax' % q, g('%s%smax' % (q, 'xyz'[k]), d))
                out.append(('%s%s' % (q, 'xyz'[k]), s(k, t, o), lo, hi))
        xy = lambda k, m, d: g('v'+m, g('v%s%s' % ('xyz'[k], m), d)) if k < 2 else g('vz'+m, d)
        if opt.get('vel_limit') == 'axes':
            for k in range(3):
                out.append(('v'+'xyz'[k], s(k, t, 1), xy(k, 'min', -.5), xy(k, 'max', .5)))
        elif xy(0, 'max', .5) != 0.:
            out.append(('cutting speed', np.hypot(s(0, t, 1), s(1, t, 1)), -inf, xy(0, 'max', .5)))
        else:
            out.append(('plunging speed', abs(s(2, t, 1)), -inf, g('vzmax', .5)))
    if kind == 'orient':
        out.append(('turning rate', 2*s(2, t, 1)/(1+s(2, t)**2), g('wmin', -np.pi/6), g('wmax', np.pi/6)))
    if kind in ('dubins', 'trailer', 'bicycle', 'agv'):
        o = 1 if kind == 'trailer' else 0
        u = veh.inputs('dubins' if kind in ('dubins', 'bicycle', 'agv') else 'trailer', mo, t, L)
        out = [('speed', u[0], 0., g('vmax', {'bicycle': .8}.get(kind, .5)))]
        if kind in ('dubins', 'trailer'):
            out.append(('turning rate', u[1], g('wmin', -np.pi/6), g('wmax', np.pi/6)))
        if kind == 'trailer':
            tt, tv = 2*np.arctan(s(0, t)), 2*np.arctan(s(2, t))
            d = (tv-tt+np.pi) % (2*np.pi)-np.pi
            out.append(('angle between vehicle and trailer', d, g('tmin', -np.pi/4), g('tmax', np.pi/4)))
            out.append(('hitch motion', 2*s(0, t, 1)/(1+s(0, t)**2)*L-u[0]*np.sin(d), -1e-3, 1e-3))
        if kind in ('bicycle', 'agv'):
            q = s(1, t)
            dV = s(0, t, 1)*(1+q*q)+s(0, t)*2*q*s(1, t, 1)
            out.append(('acceleration', dV, -inf, g('amax', 1.)))
            sg = 1. if kind == 'bicycle' else -1.
            n, d = sg*2*L*s(1, t, 1), u[0]*(1+q*q)
            if d > 1e-2:
                out.append(('steering angle', np.arctan2(n, d), g('dmin', -np.pi/6), g('dmax', np.pi/6)))
                out.append(('steering rate', veh.inputs(kind, mo, t, L)[1], g('ddmin', -np.pi/4), g('ddmax', np.pi/4)))
            elif d < 1e-7:
                # not moving: no turning possible
                out.append(('turning on the spot', n, -1e-3, 1e-3))
    if kind == 'quad':
        u = veh.inputs(kind, mo, t)
        out = [('thrust', u[0], g('u1min', 2.), g('u1max', 15.)), ('pitch rate', u[1], g('u2min', -8.), g('u2max', 8.))]
    if kind in ('quad3d', 'squad3d'):
        u = veh.inputs(kind, mo, t)
        x = veh.states(kind, mo, [t], np.zeros(8))[:, 0]
        out = [('thrust', u[0], g('u1min', 2.), g('u1max', 15.)), ('pitch rate', u[2], g('u3min', -2.), g('u3max', 2.)),
               ('roll', x[6], g('phimin', -np.pi/6), g('phimax', np.pi/6)), ('pitch', x[7], g('thetamin', -np.pi/6), g('thetamax', np.pi/6))]
        # the simplified model bounds the roll rate as if there were no acceleration along x
        if kind == 'quad3d' or (abs(s(0, t, 2)) < 1e-12 and abs(s(0, t, 3)) < 1e-12):
            out.append(('roll rate', u[1], g('u2min', -2.), g('u2max', 2.)))
    return out


def times(T, m, n=9, t0=0.):
    ts = []
    for k in range(m):
        a, b = T*k/m, T*(k+1.)/m
        ts += list(a+(b-a)*(0.5-0.5*np.cos(np.pi*np.arange(n)/(n-1.)))*(1-2e-9)+1e-9*(b-a))
    return [t for t in ts if t >= t0]


def do_push(fl, comps, pushes, ctx, alias=None):
    """comps: list of (index array of the coefficients, knots, degree)"""
    for k, mode, neg, w, frac in pushes:
        ix, knots, deg = comps[k % len(comps)]
        d = np.zeros(len(fl.x))
        d[ix] = veh.direction(knots, deg, len(ix), mode, w)
        if not np.any(d):
            continue
        fl.push(-d if neg else d, frac=frac)


def c_lim(case, ctx):
    kind, T, L, b, opt = case['kind'], case['T'], case['L'], case['b'], dict(case['opt'])
    ctx.label(kind)
    ol = im('omgtools.basics.optilayer')
    bb = dict(b)
    v = veh.make(kind, bounds={k: x for k, x in bb.items()}, options={k: fresh(x) for k, x in opt.items()}, length=L, knots=case['m'])

    class Holder(ol.OptiChild):
        def __init__(self):
            ol.OptiChild.__init__(self, 'holder')
            self.options = {'solver': 'ipopt', 'solver_options': {'ipopt': {}}, 'codegen': {'build': None, 'flags': '-O0'}}
    h = Holder()
    father = ol.OptiFather([v] + ([v.lead_veh] if kind == 'trailer' else []) + [h])
    father.reset()
    Tp, tp = h.define_parameter('T'), h.define_parameter('t')
    if hasattr(v, 'init'):
        v.init()
    spl = v.define_splines(n_seg=1)
    v.define_trajectory_constraints(spl[0], Tp)
    if kind == 'quad':
        v.get_initial_constraints(spl[0], Tp)
    elif kind != 'tool':
        v.get_initial_constraints(spl[0], Tp)
        v.get_terminal_constraints(spl[0])
    for ch in father.children.values():
        ch.set_parameters = lambda t: {}        # the values are put in below
    with veh.quiet():
        father.construct_problem(dict(h.options, verbose=0), problem=object())
    fl = veh.Flat(father, par_struct(father, {(h.label, 'T'): T, (h.label, 't'): 0.}), lambda lab, n: True)
    ix = fl.idx[v.label, 'splines_seg0']
    n = ix.shape[0]
    deg = v.degree
    c0 = rest(kind, case, n)
    comps = [(ix[:, k], v.knots, deg) for k in range(ix.shape[1])]
    if kind == 'squad3d' and case['planar']:
        comps = comps[1:]
    best = {}
    for pushes in case['push']:
        fl.x[:] = 0.
        for k in range(ix.shape[1]):
            fl.x[ix[:, k]] = c0[k]
        vi = fl.viol()
        ctx.ok(vi <= 1e-8, '%s: standing still violates the limits by %.3g (limits %s)', kind, vi, b)
        if kind in ('dubins', 'bicycle', 'agv', 'trailer'):
            do_push(fl, comps, [[1 if kind == 'trailer' else 0, 0, False, [1], case['v0']]], ctx)
        do_push(fl, comps, pushes, ctx)
        mo = veh.Motion(deg, case['m'], np.array([fl.x[ix[:, k]] for k in range(ix.shape[1])]), T)
        for t in times(T, case['m']):
            for name, val, lo, hi in limits(kind, b, opt, mo, t, L):
                tol = 1e-5*(1+max([abs(z) for z in (lo, hi) if np.isfinite(z)]))
                if 'steering' in name or 'hitch' in name:
                    tol = 1e-4
                ctx.ok(val <= hi+tol, '%s: accepted motion exceeds the %s limit: %.6g > %.6g at t=%.6g of %g', kind, name, val, hi, t, T)
                ctx.ok(val >= lo-tol, '%s: accepted motion exceeds the %s limit: %.6g < %.6g at t=%.6g of %g', kind, name, val, lo, t, T)
                for lim in (lo, hi):
                    if np.isfinite(lim) and abs(lim) > 0.01:
                        best[name, lim] = max(best.get((name, lim), 0.), val/lim)
    for (name, lim), r in best.items():
        if r > 0.97:
            ctx.label('reached: %s %s' % (kind, name))
            ctx.nontrivial()


# ------------------------------------------------------------------ rooms and obstacles

def vshape(st, three):
    @st.composite
    def s(draw):
        if three:
            k = draw(st.sampled_from(['sphere', 'cube', 'cuboid', 'prisma']))
            return {'kind': k, 'r': draw(gen.num(st, 0.05, 0.6)), 'd': [draw(gen.num(st, 0.1, 1.)) for _ in range(3)], 'n': draw(st.integers(3, 6))}
        k = gen.pick(draw, st, ['circle', 'circle', 'rect', 'rect', 'square', 'regular', 'poly'])
        c = {'kind': k, 'o': 0.}
        if k != 'circle':
            c['o'] = draw(st.sampled_from([0., 0., 0., np.pi/4, 0.3, -1.2, np.pi/2]))
        if k == 'rect':
            c['w'], c['h'] = draw(gen.num(st, 0.1, 1.5)), draw(gen.num(st, 0.1, 1.5))
        elif k == 'square':
            c['w'] = draw(gen.num(st, 0.1, 1.5))
        elif k == 'regular':
            c['n'], c['r'] = draw(st.integers(3, 6)), draw(gen.num(st, 0.1, 0.8))
        elif k == 'circle':
            c['r'] = draw(gen.num(st, 0.05, 0.8))
        else:
            c['ang'] = sorted(draw(st.lists(st.integers(0, 35), min_size=3, max_size=5, unique=True)))
            c['ax'] = [draw(gen.num(st, 0.2, 0.8)), draw(gen.num(st, 0.2, 0.8))]
            c['off'] = [draw(gen.num(st, -.2, .2)), draw(gen.num(st, -.2, .2))]
            c['ccw'] = draw(st.booleans())
        return c
    return s()


def solid(c, pos=(0., 0., 0.)):
    """corners and radius of a 3D shape"""
    p = np.array(pos, dtype=float).reshape(3, 1)
    k = c['kind']
    if k == 'sphere':
        return {'v': p, 'r': c['r']}
    if k in ('cube', 'cuboid', 'plate'):
        w = np.array(c['d'] if k == 'cuboid' else [c['d'][0]]*3)/2.
        v = np.array([[sx*w[0], sy*w[1], sz*w[2]] for sx in (-1, 1) for sy in (-1, 1) for sz in (-1, 1)]).T
    else:
        f = geo.figure({'kind': 'regular', 'o': 0., 'r': c['r'], 'n': c['n']})['v']
        v = np.c_[np.r_[f, -0.5*c['d'][2]*np.ones((1, f.shape[1]))], np.r_[f, 0.5*c['d'][2]*np.ones((1, f.shape[1]))]]
    return {'v': v+p, 'r': 0.}


def build3(sh, c):
    k = c['kind']
    if k == 'sphere':
        return sh.Sphere(c['r'])
    if k == 'cube':
        return sh.Cube(c['d'][0])
    if k == 'cuboid':
        return sh.Cuboid(*c['d'])
    return sh.RegularPrisma(c['r'], c['d'][2], c['n'])


FREE = {'holonomic': {'vmin': -30., 'vmax': 30., 'amin': -90., 'amax': 90.}, 'orient': {'vmin': -30., 'vmax': 30., 'amin': -90., 'amax': 90., 'wmin': -9., 'wmax': 9.},
        'holo3d': {'vmin': -30., 'vmax': 30., 'amin': -90., 'amax': 90.}, 'dubins': {'vmax': 30., 'wmin': -9., 'wmax': 9.},
        'bicycle': {'vmax': 30., 'amax': 90., 'dmin': -1.3, 'dmax': 1.3, 'ddmin': -9., 'ddmax': 9.},
        'agv': {'vmax': 30., 'amax': 90., 'dmin': -1.3, 'dmax': 1.3, 'ddmin': -9., 'ddmax': 9.},
        'quad': {'u1min': 0.5, 'u1max': 60., 'u2min': -60., 'u2max': 60.}, 'squad3d': {'u1min': 0.5, 'u1max': 60., 'u2min': -60., 'u2max': 60., 'u3min': -60., 'u3max': 60.,
        'phimin': -3., 'phimax': 3., 'thetamin': -3., 'thetamax': 3.},
        'quad3d': {'u1min': 0.5, 'u1max': 60., 'u2min': -30., 'u2max': 30., 'u3min': -30., 'u3max': 30., 'phimin': -1.4, 'phimax': 1.4, 'thetamin': -1.4, 'thetamax': 1.4},
        'trailer': {'vmax': 30., 'wmin': -9., 'wmax': 9., 'tmin': -2., 'tmax': 2.}}
K2 = ['holonomic', 'holonomic', 'orient', 'dubins', 'bicycle', 'agv', 'quad', 'trailer']
K3 = ['holo3d', 'quad3d', 'squad3d']


def g_veh(st, kinds):
    @st.composite
    def s(draw):
        kind = gen.pick(draw, st, kinds)
        return {'kind': kind, 'm': draw(st.integers(1, 5)), 'shape': draw(vshape(st, kind in K3)), 'L': draw(st.sampled_from([0.4, 0.2, 1.])),
                'head': draw(gen.num(st, -2.5, 2.5))}
    return s()


def make_veh(c, opts):
    """vehicle with loose limits; -> vehicle, list of figures (case, 'veh' or 'lead')"""
    sh = im('omgtools.basics.shape')
    kind, three = c['kind'], c['kind'] in K3
    shape, sc = None, c['shape']
    if kind in ('holonomic', 'orient', 'dubins', 'trailer'):
        shape = geo.build(sh, sc)
    elif kind == 'holo3d':
        shape = build3(sh, sc)
    elif kind == 'agv':
        sc = {'kind': 'rect', 'w': 0.8, 'h': 0.2, 'o': 0.}
    elif kind in ('bicycle', 'quad'):
        sc = {'kind': 'circle', 'r': c['L']/2., 'o': 0.}
    else:
        sc = {'kind': 'sphere', 'r': c['L']/2.}
    v = veh.make(kind, bounds=FREE[kind], options=opts, shape=shape, length=c['L'], knots=c['m'])
    return v, sc


def initial(v, c, p):
    """rest at position p with the drawn heading; -> coefficients at rest"""
    kind, h = c['kind'], c['head']
    n = len(v.basis)
    th = np.tan(h/2.)
    if kind in ('holonomic', 'quad'):
        v.set_initial_conditions(np.array(p[:2]))
        v.set_terminal_conditions(np.array(p[:2]))
        return np.array([[p[k]]*n for k in range(2)])
    if kind == 'orient':
        v.set_initial_conditions(np.r_[p[:2], h])
        v.set_terminal_conditions(np.r_[p[:2], h])
        return np.array([[p[0]]*n, [p[1]]*n, [th]*n])
    if kind == 'holo3d':
        v.set_initial_conditions(np.array(p))
        v.set_terminal_conditions(np.array(p))
        return np.array([[p[k]]*n for k in range(3)])
    if kind == 'squad3d':
        v.set_initial_conditions(np.r_[p, np.zeros(5)])
        v.set_terminal_conditions(np.array(p))
        return np.array([[p[k]]*n for k in range(3)])
    if kind == 'quad3d':
        v.set_initial_conditions(np.r_[p, np.zeros(5)])
        v.set_terminal_conditions(np.array(p))
        return np.array([[veh.G]*n, [0.]*n, [0.]*n])
    if kind == 'trailer':
        q = np.array(p[:2])+c['L']*np.array([np.cos(h), np.sin(h)])
        v.lead_veh.set_initial_conditions(np.r_[q, h])
        v.lead_veh.set_terminal_conditions(np.r_[q, h])
        v.set_initial_conditions(h)
        v.set_terminal_conditions(h)
        return np.array([[th]*n, [0.]*n, [th]*n])
    x = np.r_[p[:2], h, 0.] if kind in ('bicycle', 'agv') else np.r_[p[:2], h]
    v.set_initial_conditions(x)
    v.set_terminal_conditions(np.r_[p[:2], h])
    return np.array([[0.]*n, [th]*n])


def path(c, mo, ts, p):
    """(position, heading) of the figure(s) at the instants ts; ts[0] is the current time"""
    kind = c['kind']
    if kind in ('holonomic', 'quad'):
        return [(np.array([mo.s(0, t), mo.s(1, t)]), 0.) for t in ts]
    if kind == 'orient':
        return [(np.array([mo.s(0, t), mo.s(1, t)]), 2*np.arctan(mo.s(2, t))) for t in ts]
    if kind in ('holo3d', 'squad3d'):
        return [(np.array([mo.s(k, t) for k in range(3)]), 0.) for t in ts]
    if kind == 'quad3d':
        X = veh.states(kind, mo, ts, np.r_[p, np.zeros(3)])
        return [(X[:3, k], 0.) for k in range(len(ts))]
    if kind == 'trailer':
        h = c['head']
        q = np.array(p[:2])+c['L']*np.array([np.cos(h), np.sin(h)])
        X = veh.states(kind, mo, ts, np.r_[p[:2], h, q, h], c['L'])
        return [(X[:2, k], X[2, k]) for k in range(len(ts))]
    X = veh.states(kind, mo, ts, np.r_[p[:2], c['head'], 0.], c['L'])
    return [(X[:2, k], X[2, k]) for k in range(len(ts))]


def fig2(sc, p, th):
    f = geo.figure(sc)
    return {'v': geo.rot(th).dot(f['v'])+np.asarray(p)[:2].reshape(2, 1), 'r': f['r']}


def gap(f1, f2):
    return geo.convex_gap(f1['v'], f2['v'])-f1['r']-f2['r']


def g_room(st):
    @st.composite
    def s(draw):
        three = draw(st.integers(0, 3)) == 0
        c = draw(g_veh(st, K3 if three else K2))
        c['T'] = draw(st.sampled_from([1., 2., 5., 10.]))
        c['free'] = draw(st.booleans())
        c['t'] = 0. if c['free'] else draw(st.sampled_from([0., 0., 0.3, 0.8]))
        c['p'] = [draw(gen.num(st, -4., 4.)) for _ in range(3)]
        if three:
            c['room'] = {'d': [draw(gen.num(st, 3., 9.)) for _ in range(3)]}
        else:
            k = draw(st.sampled_from(['rect', 'rect', 'square', 'regular']))
            r = {'kind': k, 'o': draw(st.sampled_from([0., 0., 0.3, np.pi/4, -1.])) if k != 'regular' else draw(st.sampled_from([0., .4]))}
            r['w'], r['h'] = draw(gen.num(st, 5., 12.)), draw(gen.num(st, 5., 12.))
            if k == 'square':
                r.pop('h')
            r['n'], r['r'] = draw(st.integers(3, 7)), draw(gen.num(st, 6., 12.))
            c['room'] = r
        c['push'] = draw(st.lists(g_push(st, 8), min_size=2, max_size=2))
        c['v0'] = draw(st.sampled_from([0.1, 0.5, 1.]))
        return c
    return s()


def problem(case, v, env, free, T, t, opts=None):
    P = im('omgtools.problems.point2point')
    o = {'verbose': 0, 'horizon_time': T}
    o.update(opts or {})
    p = P.Point2point(v, env, options=o, freeT=free)
    vs = v if isinstance(v, list) else [v]
    for x in vs:
        if hasattr(x, 'lead_veh'):
            p.father.add(x.lead_veh)
            p.vehicles.append(x.lead_veh)
    with veh.quiet():
        veh.Model(p)
    return p


def now(case, T, m):
    """current time within the first knot interval"""
    return case['t']*T/m if not case['free'] else 0.


def flat(p, t, T, free, extra=()):
    par = p.father.set_parameters(t)
    own = [c.label for c in p.father.children.values() if c is not p]
    lead = [c.lead_veh.label for c in p.vehicles if hasattr(c, 'lead_veh')]
    fl = veh.Flat(p.father, par, lambda lab, n: lab in own)
    if free:
        fl.x[fl.idx[p.label, 'T'].ravel()] = T
    return fl


def start(fl, v, coeffs, lead=True):
    ix = fl.idx[v.label, 'splines_seg0']
    for k in range(ix.shape[1]):
        fl.x[ix[:, k]] = coeffs[k]
    if hasattr(v, 'lead_veh'):
        jx = fl.idx[v.lead_veh.label, 'splines_seg0']
        for k in range(jx.shape[1]):
            fl.x[jx[:, k]] = coeffs[1+k]
    return [(ix[:, k], v.knots, v.degree) for k in range(ix.shape[1])]


def c_room(case, ctx):
    kind, T, m = case['kind'], case['T'], case['m']
    three = kind in K3
    sh = im('omgtools.basics.shape')
    Env = im('omgtools.environment.environment').Environment
    ctx.label(kind)
    v, sc = make_veh(case, {})
    p = np.array(case['p'])
    if three:
        room = {'shape': sh.Cuboid(*case['room']['d']), 'position': list(p)}
    else:
        rc = case['room']
        room = {'shape': geo.build(sh, rc), 'position': list(p[:2])}
        rv = geo.figure(rc)['v']+p[:2].reshape(2, 1)
    env = Env(room=room)
    coeffs = initial(v, case, p)
    t = now(case, T, m)
    pr = problem(case, v, env, case['free'], T, t)
    fl = flat(pr, t, T, case['free'])
    figs = [sc]
    worst = np.inf
    for pushes in case['push']:
        comps = start(fl, v, coeffs)
        vi = fl.viol()
        ctx.ok(vi <= 1e-8, '%s: standing still in the middle of the room is rejected (constraint off by %.3g)', kind, vi)
        if kind in ('dubins', 'bicycle', 'agv', 'trailer'):
            do_push(fl, comps, [[1 if kind == 'trailer' else 0, 0, False, [1], case['v0']]], ctx)
        do_push(fl, comps, pushes, ctx)
        if kind in ('dubins', 'bicycle', 'agv', 'trailer'):
            do_push(fl, comps, [[1 if kind == 'trailer' else 0, 0, False, [1], 1.]], ctx)
        mo = veh.Motion(v.degree, m, np.array([fl.x[c[0]] for c in comps]), T)
        ts = [t]+[x for x in times(T, m, 7) if x > t]
        lead = None
        P = path(case, mo, ts, p)
        scale = 1.+max(np.max(np.abs(z[0])) for z in P)
        if kind == 'trailer':
            h = case['head']
            q = np.array(p[:2])+case['L']*np.array([np.cos(h), np.sin(h)])
            X = veh.states(kind, mo, ts, np.r_[p[:2], h, q, h], case['L'])
            lead = X[3:6]
        for k, (x, th) in enumerate(P):
            if three:
                f = solid(sc, x)
                half = np.array(case['room']['d'])/2.
                margin = float(np.min(half.reshape(3, 1)-np.abs(f['v']-p.reshape(3, 1))))-f['r']
            else:
                f = fig2(sc, x, th)
                margin = min(-geo.signed_dist(c, rv) for c in f['v'].T)-f['r']
            ctx.ok(margin >= -1e-6*scale, '%s (%s): accepted motion sticks %.4g out of the room at t=%.4g of %g', kind, sc['kind'], -margin, ts[k], T)
            worst = min(worst, margin)
            if lead is not None:
                margin = -geo.signed_dist(lead[:2, k], rv)-0.1
                ctx.ok(margin >= -1e-6*scale, 'trailer: the leading vehicle sticks %.4g out of the room at t=%.4g of %g', -margin, ts[k], T)
                worst = min(worst, margin)
    ctx.nontrivial(worst < 0.05)
    if worst < 0.05:
        ctx.label('border reached: '+kind)
    ctx.label('free end time' if case['free'] else 'fixed horizon')


def g_obst(st, three):
    @st.composite
    def s(draw):
        o = {'x': [draw(gen.num(st, -2., 2.)) for _ in range(3)], 'v': [0.]*3, 'a': [0.]*3, 'w': 0., 'o': 0., 'n': 2}
        mode = draw(st.sampled_from(['still', 'v', 'va', 'spline', 'turn']))
        flat2 = not three or draw(st.integers(0, 4)) == 0     # a 2D obstacle in 3D: infinitely high
        if three and mode == 'turn':
            mode = 'v'
        o['mode'] = mode
        if mode in ('v', 'va', 'turn'):
            o['v'] = [draw(gen.num(st, -1., 1.)) for _ in range(3)]
        if mode == 'va':
            o['a'] = [draw(gen.num(st, -.2, .2)) for _ in range(3)]
        if mode == 'turn':
            o['w'] = draw(st.sampled_from([0.3, -0.5, 1., -2., 0.05]))
        if mode == 'spline':
            o['deg'] = draw(st.integers(1, 3))
            o['cf'] = [[draw(gen.num(st, -3., 3.)) for _ in range(3)] for _ in range(o['deg']+2)]
        if flat2:
            o['shape'] = draw(vshape(st, False))
            if draw(st.integers(0, 5)) == 0:
                o['shape'] = {'kind': 'beam', 'w': draw(gen.num(st, 0.3, 2.)), 'h': draw(gen.num(st, 0.05, 0.5)), 'o': draw(st.sampled_from([0., 0.4]))}
            o['o'] = draw(st.sampled_from([0., 0., 0.5, -2., 3.]))
        else:
            o['n'] = 3
            o['shape'] = draw(vshape(st, True))
        return o
    return s()


def obstacle(o, T):
    sh = im('omgtools.basics.shape')
    Ob = im('omgtools.environment.obstacle').Obstacle
    n = o['n']
    shape = geo.build(sh, o['shape']) if n == 2 else build3(sh, o['shape'])
    init = {'position': list(o['x'][:n]), 'velocity': list(o['v'][:n]), 'acceleration': list(o['a'][:n])}
    opt = {}
    if n == 2:
        init['orientation'] = o['o']
        init['angular_velocity'] = o['w']
        if o['w']:
            opt['horizon_time'] = T
    if o['mode'] == 'spline':
        deg = o['deg']
        opt['spline_traj'] = True
        opt['spline_params'] = {'knots': list(np.r_[np.zeros(deg+1), 0.5, np.ones(deg+1)]), 'degree': deg, 'coeffs': np.array(o['cf'])[:, :n]}
    return Ob(init, shape=shape, options=opt)


def turn(phase):
    """angle reached on a circle made of rational quarter turns"""
    s = 1. if phase >= 0 else -1.
    k, u = divmod(abs(phase), np.pi/2)
    u = u/(np.pi/2)
    r = np.sqrt(2.)
    return s*(k*np.pi/2+np.arctan2(r*u*(1-u)+u*u, (1-u)**2+r*u*(1-u)))


def obst_at(o, t, now, T):
    """predicted figure at time t of the horizon; the recorded state is the one at now"""
    n = o['n']
    d = t-now
    if o['mode'] == 'spline':
        deg = o['deg']
        kn = np.r_[np.zeros(deg+1), 0.5, np.ones(deg+1)]
        x = np.array([ref.deboor(kn, deg, np.array(o['cf'])[:, k], min(t/T, 1-1e-12)) for k in range(n)])
    else:
        x = np.array([o['x'][k]+o['v'][k]*d+0.5*o['a'][k]*d*d for k in range(n)])
    if n == 3:
        return solid(o['shape'], x)
    th = o['o']
    if o['w']:
        # the orientation at now is the recorded one, up to the rational arcs
        th = o['o']-now*o['w']+turn(t*o['w'])
    return fig2(o['shape'], x, th)


def reach(o, now, T):
    r = 0.
    for t in np.linspace(0, T, 60):
        f = obst_at(o, t, now, T)
        r = max(r, float(np.max(np.linalg.norm(f['v'][:2], axis=0)))+f['r'])
    return r


def gap3(f, g):
    """signed distance of two rounded convex solids: the origin against the hull of the differences of their corners"""
    from scipy.spatial import ConvexHull
    A, B = f['v'], g['v']
    P = (A[:, :, None]-B[:, None, :]).reshape(A.shape[0], -1).T
    if P.shape[0] > 3 and np.linalg.matrix_rank(P-P[0], tol=1e-9) == P.shape[1]:
        d = np.max(ConvexHull(P).equations[:, -1])
        if d <= 0.:
            return d-f['r']-g['r']
    # outside: the smallest point by active set steps (Wolfe); every iterate is a common upper bound
    S, w = [int(np.argmin(np.sum(P**2, axis=1)))], np.array([1.])
    for _ in range(200):
        x = w.dot(P[S])
        j = int(np.argmin(P.dot(x)))
        if P[j].dot(x) >= x.dot(x)-1e-13 or j in S:
            break
        S, w = S+[j], np.r_[w, 0.]
        while True:
            Q = P[S]
            K = np.block([[Q.dot(Q.T), np.ones((len(S), 1))], [np.ones((1, len(S))), np.zeros((1, 1))]])
            v = np.linalg.lstsq(K, np.r_[np.zeros(len(S)), 1.], rcond=None)[0][:-1]
            if np.all(v > 1e-14):
                w = v
                break
            neg = v <= 1e-14
            th = np.min(w[neg]/np.maximum(w[neg]-v[neg], 1e-300))
            w = (1-th)*w+th*v
            keep = w > 1e-14
            S, w = [i for i, q in zip(S, keep) if q], w[keep]/np.sum(w[keep])
            if len(S) == 1:
                break
    return float(np.linalg.norm(w.dot(P[S])))-f['r']-g['r']


def clearance(f, g):
    if f['v'].shape[0] == 2:
        return gap(f, g)
    if g['v'].shape[0] == 2:
        # infinitely high: project
        f = {'v': f['v'][:2], 'r': f['r']}
    return gap3(f, g)


def g_obs(st):
    @st.composite
    def s(draw):
        three = draw(st.integers(0, 4)) == 0
        c = draw(g_veh(st, K3 if three else [k for k in K2]))
        c['T'] = draw(st.sampled_from([1., 2., 5., 10.]))
        c['obs'] = draw(st.lists(g_obst(st, three), min_size=1, max_size=2))
        c['free'] = draw(st.booleans()) and not any(o['mode'] == 'turn' for o in c['obs'])
        c['t'] = 0. if c['free'] else draw(st.sampled_from([0., 0., 0.3, 0.8]))
        c['dir'] = draw(gen.num(st, -3.1, 3.1))
        c['aim'] = draw(st.sampled_from([1., 0.7, 0.4]))
        c['sd'] = draw(st.sampled_from([0., 0., 0., 0.1, 0.4]))
        c['push'] = draw(st.lists(g_push(st, 8), min_size=2, max_size=2))
        c['apush'] = draw(st.lists(g_push(st, 6), min_size=2, max_size=2))
        c['v0'] = draw(st.sampled_from([0.1, 0.5, 1.]))
        return c
    return s()


def deg1(m):
    return np.r_[0., np.linspace(0., 1., m+1), 1.]


def plane_vars(fl, env, dim):
    """hyperplane variables of the environment: list of (index a (n x dim), index b)"""
    out = []
    for (lab, name), ix in fl.idx.items():
        if lab == env.label and name.startswith('a_'):
            out.append((name, ix, fl.idx[lab, 'b'+name[1:]]))
    return out


def rotate_ab(fl, planes, pushes, vehdir):
    """move the planes: every coefficient of the normals and offsets, and the length of the normal together with the offset"""
    for k, mode, neg, w, frac in pushes:
        name, ia, ib = planes[k % len(planes)]
        d = np.zeros(len(fl.x))
        n = ia.shape[0]
        kn = deg1(n-1)
        if mode == 'any':
            d[ia.ravel()] = fl.x[ia.ravel()]      # longer normal
            d[ib.ravel()] = fl.x[ib.ravel()]
        elif mode in (0, 1, 2):
            d[ib[:, 0]] = veh.direction(kn, 1, n, mode if mode < 2 else 'one', w)
        else:
            c = w[1] % ia.shape[1]
            d[ia[:, c]] = veh.direction(kn, 1, n, 1 if mode == 3 else 'one', w)
        if np.any(d):
            fl.push(-d if neg else d, frac=frac)


def c_obs(case, ctx):
    kind, T, m = case['kind'], case['T'], case['m']
    three = kind in K3
    sh = im('omgtools.basics.shape')
    Env = im('omgtools.environment.environment').Environment
    ctx.label(kind)
    t = now(case, T, m)
    obs = case['obs']
    R = max(reach(o, t, T) for o in obs)
    u = np.array([np.cos(case['dir']), np.sin(case['dir'])])
    vr = 3.
    # opposite to the first obstacle where it is at the aimed instant
    mid = np.mean(obst_at(obs[0], t+case['aim']*(T-t), t, T)['v'], axis=1)
    D = R+vr+1.+np.linalg.norm(mid[:2])
    p = np.r_[mid[:2]+D*u, mid[2] if len(mid) == 3 and three else 0.]
    head = np.arctan2(-u[1], -u[0])
    if abs(head) > 2.7:
        head = np.sign(head)*2.7
    case = dict(case, head=head)
    v, sc = make_veh(case, {'room_constraints': False, 'safety_distance': case['sd']})
    obj = [obstacle(o, T) for o in obs]
    big = 1e3
    env = Env(room={'shape': sh.Cube(big) if three else sh.Square(big)}, obstacles=obj)
    coeffs = initial(v, case, p)
    pr = problem(case, v, env, case['free'], T, t)
    fl = flat(pr, t, T, case['free'])
    planes = plane_vars(fl, env, 2)
    own = [z for z in planes if '_'+v.label+'_' in z[0]]
    ctx.ok(len(own) == len(obs), '%d separating planes for %d obstacles', len(own), len(obs))
    near = np.inf
    for pushes, ap in zip(case['push'], case['apush']):
        comps = start(fl, v, coeffs)
        for name, ia, ib in planes:
            fl.x[ia.ravel()] = 0.
            for c in range(2):
                fl.x[ia[:, c]] = -u[c]
            fl.x[ib.ravel()] = -(R+1.)
            for (nm, ja, jb), o in zip(own, obs):
                if nm == name and ap[0][1] != 0:
                    # in front of the obstacle, wherever it goes
                    nb = ib.shape[0]
                    us = np.r_[u, 0.][:o['n']]
                    sup = [max(us.dot(f['v']))+f['r'] for f in (obst_at(o, max(x, t), t, T) for x in np.linspace(0, T, 12*nb+1))]
                    for c in range(nb):
                        i = int(round(12.*nb*c/max(nb-1, 1)))
                        w = 12*nb//max(nb-1, 1)+1
                        fl.x[ib[c, 0]] = -max(sup[max(0, i-w):i+w+1])-case['sd']-0.3
        eps = [ix for (lab, nm), ix in fl.idx.items() if lab == v.label and nm.startswith('eps_')]
        for ix in eps:
            fl.x[ix.ravel()] = 0.
        vi = fl.viol()
        if vi > 1e-8:
            # the constraints may bound the obstacle a bit more widely than its path
            for name, ia, ib in planes:
                fl.x[ib.ravel()] = -(R+1.)
            vi = fl.viol()
        ctx.ok(vi <= 1e-8, '%s: resting far away from the obstacle is rejected (constraint off by %.3g)', kind, vi)
        # let the planes approach the obstacles, then the vehicle the planes
        def planes_in():
            for name, ia, ib in planes:
                d = np.zeros(len(fl.x))
                d[ib.ravel()] = 1.
                fl.push(d)
                for c in range(ib.shape[0]):
                    d = np.zeros(len(fl.x))
                    d[ib[(c+ap[0][0]) % ib.shape[0]]] = 1.
                    fl.push(d)

        def veh_in(frac):
            if kind in ('dubins', 'bicycle', 'agv', 'trailer'):
                do_push(fl, comps, [[1 if kind == 'trailer' else 0, 0, False, [1], frac]], ctx)
            elif kind == 'quad3d':
                do_push(fl, comps, [[2, 0, False, [1], frac], [1, 0, False, [1], frac]], ctx)
            else:
                d = np.zeros(len(fl.x))
                for c in range(2):
                    d[comps[c][0]] = -u[c]
                fl.push(d, frac=frac)
                if frac == 1.:
                    nc = len(comps[0][0])
                    for i in range(nc):
                        d = np.zeros(len(fl.x))
                        for c in range(2):
                            d[comps[c][0][(i+ap[0][0]) % nc]] = -u[c]
                        fl.push(d)
        if ap[0][0] % 4:
            planes_in()
        if eps and ap[0][0] % 2:
            do_push(fl, [(ix[:, 0], v.knots, v.degree) for ix in eps], ap[:3], ctx)
        veh_in(case['v0'])
        do_push(fl, comps, pushes[:4], ctx)
        rotate_ab(fl, planes, ap, u)
        do_push(fl, comps, pushes[4:]+pushes[:2], ctx)
        if ap[0][0] % 5:
            planes_in()
        veh_in(1.)
        mo = veh.Motion(v.degree, m, np.array([fl.x[c[0]] for c in comps]), T)
        ts = [t]+[x for x in times(T, m, 7) if x > t]
        P = path(case, mo, ts, p)
        ep = None
        for k, (x, th) in enumerate(P):
            f = solid(sc, x) if three else fig2(sc, x, th)
            for j, o in enumerate(obs):
                e = 0.
                if eps:
                    e = ref.deboor(v.knots, v.degree, fl.x[eps[j][:, 0]], min(ts[k]/T, 1-1e-12))
                    ctx.ok(-1e-7 <= e <= case['sd']+1e-7, '%s: the safety distance is relaxed by %.4g of %g', kind, e, case['sd'])
                g = obst_at(o, ts[k], t, T)
                c = clearance(f, g)
                ctx.ok(c >= case['sd']-e-1e-6*(1+R), '%s (%s) and %s obstacle (%s): accepted motion leaves a clearance of %.5g (< %.4g) at t=%.4g of %g', kind, sc['kind'],
                       o['mode'], o['shape']['kind'], c, case['sd']-e, ts[k], T)
                if c-(case['sd']-e) < near:
                    near, who = c-(case['sd']-e), o
    if near < 0.2:
        ctx.label('approached: %s, %s' % (kind, who['mode']))
        ctx.nontrivial()


def g_pair(st):
    @st.composite
    def s(draw):
        three = draw(st.integers(0, 4)) == 0
        ks = [draw(g_veh(st, K3 if three else [k for k in K2 if k != 'trailer'])) for _ in range(draw(st.sampled_from([2, 2, 3])))]
        T = draw(st.sampled_from([1., 2., 5., 10.]))
        m = ks[0]['m']
        c = {'veh': ks, 'T': T, 'free': draw(st.booleans()), 'dir': draw(gen.num(st, -3.1, 3.1))}
        for k in ks[1:]:
            if draw(st.booleans()):
                k['m'] = m
        c['t'] = 0. if c['free'] else draw(st.sampled_from([0., 0.3]))
        c['push'] = draw(st.lists(g_push(st, 10), min_size=2, max_size=2))
        c['apush'] = draw(st.lists(g_push(st, 6), min_size=2, max_size=2))
        return c
    return s()


def c_pair(case, ctx):
    """vehicles avoiding each other"""
    T = case['T']
    sh = im('omgtools.basics.shape')
    Env = im('omgtools.environment.environment').Environment
    vs, cs = [], case['veh']
    three = cs[0]['kind'] in K3
    u = np.array([np.cos(case['dir']), np.sin(case['dir']), 0.])
    n = len(cs)
    c0, scs, ps = [], [], []
    for i, c in enumerate(cs):
        v, sc = make_veh(c, {'room_constraints': False})
        p = u*6.*(i-0.5*(n-1))
        h = np.arctan2(u[1], u[0]) if i == 0 else np.arctan2(-u[1], -u[0])
        cs[i] = c = dict(c, head=float(np.sign(h)*min(abs(h), 2.7)))
        c0.append(initial(v, c, p))
        vs.append(v)
        scs.append(sc)
        ps.append(p)
    t = case['t']*T/max(c['m'] for c in cs) if not case['free'] else 0.
    env = Env(room={'shape': sh.Cube(1e3) if three else sh.Square(1e3)})
    pr = problem(case, vs, env, case['free'], T, t, {'inter_vehicle_avoidance': True})
    fl = flat(pr, t, T, case['free'])
    planes = plane_vars(fl, env, 2)
    ctx.ok(len(planes) == n*(n-1)//2, '%d separating planes for %d vehicles', len(planes), n)
    near = np.inf
    for pushes, ap in zip(case['push'], case['apush']):
        comps = []
        for v, c in zip(vs, c0):
            comps.append(start(fl, v, c))
        k = 0
        pairs = [(i, j) for i in range(n) for j in range(i+1, n)]
        for (i, j), (name, ia, ib) in zip(pairs, planes):
            fl.x[ia.ravel()] = 0.
            # first vehicle: a.x - b <= -r
            for c in range(2):
                fl.x[ia[:, c]] = u[c]
            fl.x[ib.ravel()] = 0.5*(ps[i]+ps[j]).dot(u)
        vi = fl.viol()
        ctx.ok(vi <= 1e-8, '%s: vehicles resting far from each other are rejected (constraint off by %.3g)', [c['kind'] for c in cs], vi)

        def adv(i, frac):
            kind = cs[i]['kind']
            if kind in ('dubins', 'bicycle', 'agv'):
                do_push(fl, comps[i], [[0, 0, False, [1], frac]], ctx)
            elif kind != 'quad3d':
                d = np.zeros(len(fl.x))
                for c in range(2):
                    d[comps[i][c][0]] = u[c]*(1. if i == 0 else -1.)
                fl.push(d, frac=frac)
        for i in range(n):
            adv(i, pushes[0][4])
        for k, z in enumerate(pushes):
            do_push(fl, comps[k % n], [z], ctx)
        rotate_ab(fl, planes, ap, u)
        for i in range(n):
            do_push(fl, comps[i], pushes[:3], ctx)
            adv(i, 1.)
        mo = [veh.Motion(v.degree, c['m'], np.array([fl.x[z[0]] for z in cp]), T) for v, c, cp in zip(vs, cs, comps)]
        ts = [t]+[x for x in times(T, max(c['m'] for c in cs), 7) if x > t]
        P = [path(c, o, ts, p) for c, o, p in zip(cs, mo, ps)]
        for k in range(len(ts)):
            F = [solid(sc, Q[k][0]) if three else fig2(sc, *Q[k]) for sc, Q in zip(scs, P)]
            for i, j in pairs:
                c = clearance(F[i], F[j])
                ctx.ok(c >= -1e-5, '%s and %s: accepted motions of vehicles collide (%.4g) at t=%.4g of %g', cs[i]['kind'], cs[j]['kind'], c, ts[k], T)
                near = min(near, c)
    ctx.label('%d vehicles' % n)
    ctx.nontrivial(near < 0.2)


SUBS = [Sub('limits', g_lim, c_lim, quick=500, thorough=12000, shards=3),
        Sub('room', g_room, c_room, quick=300, thorough=4000, shards=2),
        Sub('obstacle', g_obs, c_obs, quick=250, thorough=5000, shards=3),
        Sub('pair', g_pair, c_pair, quick=100, thorough=2000, shards=2)]
