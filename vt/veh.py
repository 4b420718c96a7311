"""Vehicle helpers: construction, reference kinematics (written from the documented models, no code of /repo used
for the oracle) and numeric evaluation of a composed planning problem."""
import contextlib
import io
from importlib import import_module as im
import numpy as np
import ref

G = 9.81
KINDS = ['holonomic', 'orient', 'holo1d', 'holo3d', 'tool', 'dubins', 'bicycle', 'agv', 'quad', 'quad3d', 'squad3d', 'trailer']
NSPL = {'holonomic': 2, 'orient': 3, 'holo1d': 1, 'holo3d': 3, 'tool': 3, 'dubins': 2, 'bicycle': 2, 'agv': 2, 'quad': 2,
        'quad3d': 3, 'squad3d': 3, 'trailer': 3}
DEG = {'holonomic': 3, 'orient': 3, 'holo1d': 3, 'holo3d': 3, 'tool': 3, 'dubins': 3, 'bicycle': 2, 'agv': 2, 'quad': 4,
       'quad3d': 2, 'squad3d': 4, 'trailer': 3}


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def make(kind, bounds=None, options=None, shape=None, length=0.4, knots=None, degree=None):
    """vehicle of the code under test"""
    m = im('omgtools.vehicles.' + {'holonomic': 'holonomic', 'orient': 'holonomicorient', 'holo1d': 'holonomic1d', 'holo3d': 'holonomic3d',
                                   'tool': 'tool', 'dubins': 'dubins', 'bicycle': 'bicycle', 'agv': 'agv', 'quad': 'quadrotor',
                                   'quad3d': 'quadrotor3d', 'squad3d': 'quadrotor3d_simple', 'trailer': 'trailer'}[kind])
    sh = im('omgtools.basics.shape')
    kw = {'bounds': dict(bounds or {}), 'options': dict(options or {})}
    if kind == 'holonomic':
        v = m.Holonomic(shapes=shape or sh.Circle(0.1), **kw)
    elif kind == 'orient':
        v = m.HolonomicOrient(shapes=shape or sh.Rectangle(0.2, 0.4), **kw)
    elif kind == 'holo1d':
        v = m.Holonomic1D(**kw)
    elif kind == 'holo3d':
        v = m.Holonomic3D(shapes=shape or sh.Sphere(0.1), **kw)
    elif kind == 'tool':
        v = m.Tool(0.1, **kw)
    elif kind == 'dubins':
        if degree:
            kw['options']['degree'] = degree
        v = m.Dubins(shapes=shape or sh.Circle(0.1), **kw)
    elif kind == 'bicycle':
        v = m.Bicycle(length=length, **kw)
    elif kind == 'agv':
        v = m.AGV(length=length, **kw)
    elif kind == 'quad':
        v = m.Quadrotor(radius=length/2., **kw)
    elif kind == 'quad3d':
        kw['options'].setdefault('substitution', False)
        v = m.Quadrotor3D(radius=length/2., **kw)
    elif kind == 'squad3d':
        v = m.SimpleQuadrotor3D(radius=length/2., **kw)
    elif kind == 'trailer':
        lead = im('omgtools.vehicles.dubins').Dubins(shapes=sh.Circle(0.1), bounds=dict(bounds or {}))
        if knots:
            lead.define_knots(knot_intervals=knots)
        v = m.Trailer(lead_veh=lead, l_hitch=length, shapes=shape or sh.Circle(0.1), **kw)
    if knots:
        v.define_knots(knot_intervals=knots)
    return v


class Motion(object):
    """reference evaluation of the splines of one planned motion, in seconds"""

    def __init__(self, deg, n_int, coeffs, T):
        self.deg, self.T = deg, float(T)
        self.knots = np.r_[np.zeros(deg), np.linspace(0., 1., n_int+1), np.ones(deg)]*self.T
        self.c = np.asarray(coeffs, dtype=float)      # n_spl x n_coeffs
        self.brk = np.linspace(0., self.T, n_int+1)
        self._cache = {}

    def piece(self, k, i):
        if (k, i) not in self._cache:
            self._cache[k, i] = ref.piece_poly(self.knots, self.deg, self.c[k], i)
        return self._cache[k, i]

    def s(self, k, t, o=0):
        i = ref.find_span(self.knots, self.deg, t)
        p, mid, h = self.piece(k, i)
        d = np.polynomial.chebyshev.chebder(p, o) if o else p
        return float(np.polynomial.chebyshev.chebval((t-mid)/h, d)/h**o)

    def at_knot(self, t):
        return bool(np.min(np.abs(self.brk[1:-1]-t)) < 1e-7*self.T) if len(self.brk) > 2 else False


XG, WG = np.polynomial.legendre.leggauss(12)


def integ(f, a, b, brk):
    """Gauss-Legendre integral of a vector function, split at the breaks"""
    sign = 1.
    if b < a:
        a, b, sign = b, a, -1.
    pts = [a] + [k for k in brk if a < k < b] + [b]
    tot = 0.
    for lo, hi in zip(pts[:-1], pts[1:]):
        m, h = 0.5*(lo+hi), 0.5*(hi-lo)
        for x, w in zip(XG, WG):
            tot = tot + w*h*np.asarray(f(m+h*x))
    return sign*tot


def inputs(kind, mo, t, L=0.4):
    """reference input at t"""
    s = mo.s
    if kind in ('holonomic', 'holo1d', 'holo3d', 'tool'):
        return np.array([s(k, t, 1) for k in range(NSPL[kind])])
    if kind == 'orient':
        return np.array([s(0, t, 1), s(1, t, 1), 2*s(2, t, 1)/(1+s(2, t)**2)])
    if kind in ('dubins', 'bicycle', 'agv', 'trailer'):
        o = 1 if kind == 'trailer' else 0
        v, q, dq = s(o, t), s(o+1, t), s(o+1, t, 1)
        V = v*(1+q*q)
        if kind in ('dubins', 'trailer'):
            return np.array([V, 2*dq/(1+q*q)])
        sg = 1. if kind == 'bicycle' else -1.
        # delta = atan(sg*L*theta'/V)
        n, d = sg*2*L*dq, V*(1+q*q)
        dn = sg*2*L*s(1, t, 2)
        dd = s(0, t, 1)*(1+q*q)**2 + v*2*(1+q*q)*2*q*dq
        return np.array([V, (dn*d-n*dd)/(d*d+n*n) if d*d+n*n else np.nan])
    if kind == 'quad':
        ax, ay, jx, jy = s(0, t, 2), s(1, t, 2)+G, s(0, t, 3), s(1, t, 3)
        return np.array([np.hypot(ax, ay), (jx*ay-ax*jy)/(ax*ax+ay*ay)])
    if kind == 'quad3d':
        f, p, q = s(0, t), s(1, t), s(2, t)
        return np.array([f*(1+p*p)*(1+q*q), 2*s(1, t, 1)/(1+p*p), 2*s(2, t, 1)/(1+q*q)])
    if kind == 'squad3d':
        a = np.array([s(0, t, 2), s(1, t, 2), s(2, t, 2)+G])
        j = np.array([s(k, t, 3) for k in range(3)])
        A = np.hypot(a[0], a[2])
        dA = (a[0]*j[0]+a[2]*j[2])/A
        return np.array([np.linalg.norm(a), -(j[1]*A-a[1]*dA)/(a[1]**2+A**2), (j[0]*a[2]-a[0]*j[2])/A**2])


def acc_q3(mo, t):
    f, p, q = mo.s(0, t), mo.s(1, t), mo.s(2, t)
    F = f*(1+p*p)*(1+q*q)
    phi, th = 2*np.arctan(p), 2*np.arctan(q)
    return np.array([F*np.cos(phi)*np.sin(th), -F*np.sin(phi), F*np.cos(phi)*np.cos(th)-G])


def states(kind, mo, times, x0, L=0.4):
    """reference states at the times; x0: state at times[0] (only used where the position is an integral)"""
    s, out = mo.s, []
    if kind in ('dubins', 'bicycle', 'agv', 'trailer'):
        o = 1 if kind == 'trailer' else 0

        def f(t):
            v, th = mo.s(o, t)*(1+mo.s(o+1, t)**2), 2*np.arctan(mo.s(o+1, t))
            return [v*np.cos(th), v*np.sin(th)]
        p = np.array(x0[3:5] if kind == 'trailer' else x0[:2], dtype=float)
    if kind == 'quad3d':
        p, v = np.array(x0[:3], dtype=float), np.array(x0[3:6], dtype=float)
    for k, t in enumerate(times):
        if kind in ('holonomic', 'holo1d', 'holo3d', 'tool'):
            out.append([s(j, t) for j in range(NSPL[kind])])
        elif kind == 'orient':
            out.append([s(0, t), s(1, t), 2*np.arctan(s(2, t))])
        elif kind in ('dubins', 'bicycle', 'agv', 'trailer'):
            if k:
                p = p + integ(f, times[k-1], t, mo.brk)
            th = 2*np.arctan(s(o+1, t))
            if kind == 'dubins':
                out.append([p[0], p[1], th])
            elif kind == 'trailer':
                tt = 2*np.arctan(s(0, t))
                out.append([p[0]-L*np.cos(tt), p[1]-L*np.sin(tt), tt, p[0], p[1], th])
            else:
                sg = 1. if kind == 'bicycle' else -1.
                out.append([p[0], p[1], th, np.arctan2(sg*2*L*s(1, t, 1), s(0, t)*(1+s(1, t)**2)**2)])
        elif kind == 'quad':
            out.append([s(0, t), s(1, t), s(0, t, 1), s(1, t, 1), np.arctan2(s(0, t, 2), s(1, t, 2)+G)])
        elif kind == 'quad3d':
            if k:
                a, h = times[k-1], t-times[k-1]
                p = p + v*h + integ(lambda u: (t-u)*acc_q3(mo, u), a, t, mo.brk)
                v = v + integ(lambda u: acc_q3(mo, u), a, t, mo.brk)
            out.append(list(p) + list(v) + [2*np.arctan(s(1, t)), 2*np.arctan(s(2, t))])
        elif kind == 'squad3d':
            a = np.array([s(0, t, 2), s(1, t, 2), s(2, t, 2)+G])
            out.append([s(j, t) for j in range(3)] + [s(j, t, 1) for j in range(3)] +
                       [np.arctan2(-a[1], np.hypot(a[0], a[2])), np.arctan2(a[0], a[2])])
    return np.array(out).T


def pose(kind, x):
    x = np.asarray(x, dtype=float)
    if kind == 'holonomic':
        return np.r_[x, 0.]
    if kind in ('holo3d', 'tool'):
        return np.r_[x, 0., 0., 0.]
    if kind == 'holo1d':
        return np.r_[x, 0., 0.]
    if kind in ('bicycle', 'agv'):
        return x[:3]
    if kind == 'quad':
        return np.r_[x[:2], -x[4]]
    if kind in ('quad3d', 'squad3d'):
        return np.r_[x[:3], x[6:8], 0.]
    return x


def ode(kind, x, u, L=0.4):
    """documented motion equations"""
    if kind in ('holonomic', 'orient', 'holo1d', 'holo3d', 'tool'):
        return np.array(u, dtype=float)
    if kind == 'dubins':
        return np.array([u[0]*np.cos(x[2]), u[0]*np.sin(x[2]), u[1]])
    if kind in ('bicycle', 'agv'):
        sg = 1. if kind == 'bicycle' else -1.
        return np.array([u[0]*np.cos(x[2]), u[0]*np.sin(x[2]), sg*u[0]/L*np.tan(x[3]), u[1]])
    if kind == 'quad':
        return np.array([x[2], x[3], u[0]*np.sin(x[4]), u[0]*np.cos(x[4])-G, u[1]])
    if kind in ('quad3d', 'squad3d'):
        return np.r_[x[3:6], u[0]*np.cos(x[6])*np.sin(x[7]), -u[0]*np.sin(x[6]), u[0]*np.cos(x[6])*np.cos(x[7])-G, u[1], u[2]]
    if kind == 'trailer':
        lead = np.array([u[0]*np.cos(x[5]), u[0]*np.sin(x[5]), u[1]])
        w = u[0]/L*np.sin(x[5]-x[2])
        # the hitch point is the position of the leading vehicle
        return np.r_[lead[0]+L*np.sin(x[2])*w, lead[1]-L*np.cos(x[2])*w, w, lead]


def rk(kind, x0, U, h, L=0.4, n=None, sub=8, f=None):
    """integration with inputs that are linear between the samples (RK4, sub steps per sample)"""
    x, out = np.array(x0, dtype=float), [np.array(x0, dtype=float)]
    f = f or (lambda x, u: ode(kind, x, u, L))
    N = U.shape[1]
    n = N-1 if n is None else n
    for k in range(n):
        u0, u1 = U[:, min(k, N-1)], U[:, min(k+1, N-1)]
        d = h/sub
        for j in range(sub):
            a, b, c = u0+(u1-u0)*(j/float(sub)), u0+(u1-u0)*((j+.5)/sub), u0+(u1-u0)*((j+1.)/sub)
            k1 = f(x, a)
            k2 = f(x+d/2*k1, b)
            k3 = f(x+d/2*k2, b)
            k4 = f(x+d*k3, c)
            x = x+d/6*(k1+2*k2+2*k3+k4)
        out.append(x.copy())
    return np.array(out).T


class Model(object):
    """numeric evaluation of the program assembled for a problem (no solver involved)"""

    def __init__(self, problem):
        import casadi as ca
        self.p = problem
        self.father = problem.father
        problem.father.reset()
        problem.construct()
        opts = dict(problem.options)
        opts['verbose'] = 0
        problem.father.construct_problem(opts, problem=object())
        d = problem.father.problem_description
        self.n_con = d['con'].shape[0]
        self.f = ca.Function('f', [d['var'].cat, d['par'].cat], [d['con'].cat, ca.MX(d['obj'])])

    def set(self, child, name, value):
        self.father.set_variables(np.asarray(value, dtype=float), child, name)

    def names(self, child):
        return list(child._constraints.keys())

    def eval(self, t=0.):
        """-> dict (child label, constraint name) -> (values, lb, ub), objective"""
        par = self.father.set_parameters(t)
        c, obj = self.f(self.father.get_variables(), par)
        c = self.father._con_struct(c)
        lb, ub = self.father.update_bounds(t)
        out = {}
        for lab, child in self.father.children.items():
            for name in child._constraints:
                k = child._add_label(name)
                n = int(np.prod(np.array(c[k]).shape))
                # symbolic entries may be scalars
                out[lab, name] = (np.array(c[k]).ravel(), np.array(lb[k]).ravel()*np.ones(n), np.array(ub[k]).ravel()*np.ones(n))
        return out, float(obj)


def violation(con):
    """largest violation over a dict of constraints"""
    w, key = 0., None
    for k, (v, lb, ub) in con.items():
        x = float(np.max(np.maximum(np.maximum(lb-v, v-ub), 0.))) if len(v) else 0.
        if not x <= w:
            w, key = x, k
    return w, key


class Flat(object):
    """constraints of an assembled model over a flat vector of decision values, with a walk to the edge of the feasible set"""

    def __init__(self, father, par, keep, bounds=None):
        import casadi as ca
        self.father = father
        d = father.problem_description
        self.idx = {}
        base = father._var_struct(0.)
        for lab, child in father.children.items():
            for name in child._variables:
                mark = father._var_struct(0.)
                shp = np.array(mark[lab, name]).shape
                n = int(np.prod(shp))
                mark[lab, name] = (1.+np.arange(n)).reshape(shp, order='F')
                f = np.array(mark.cat).ravel()
                pos = np.zeros(n, dtype=int)
                w = np.nonzero(f)[0]
                pos[f[w].astype(int)-1] = w
                self.idx[lab, name] = pos.reshape(shp, order='F')
        lb, ub = bounds if bounds is not None else (father._lb, father._ub)
        mark = father._con_struct(0.)
        for lab, child in father.children.items():
            for name in child._constraints:
                if keep(lab, name):
                    mark[child._add_label(name)] = 1.
        sel = np.nonzero(np.array(mark.cat).ravel())[0]
        self.f = ca.Function('f', [d['var'].cat, d['par'].cat], [d['con'].cat[sel.tolist()]])
        self.names = [n for lab, child in father.children.items() for n in child._constraints if keep(lab, n)]
        self.lb, self.ub = np.array(lb.cat).ravel()[sel], np.array(ub.cat).ravel()[sel]
        self.par = np.array(par.cat).ravel()
        self.x = np.array(base.cat).ravel()
        self.n_con = len(sel)

    def viol(self, x=None):
        v = np.array(self.f(self.x if x is None else x, self.par)).ravel()
        w = np.maximum(self.lb-v, v-self.ub)
        return float(np.max(w)) if len(w) and np.all(np.isfinite(v)) else (np.inf if len(w) else -np.inf)

    def worst(self):
        v = np.array(self.f(self.x, self.par)).ravel()
        k = int(np.argmax(np.maximum(self.lb-v, v-self.ub)))
        return k, float(v[k]), float(self.lb[k]), float(self.ub[k])

    def push(self, d, tol=1e-9, smax=1e3, frac=1.):
        """go as far as the constraints allow along d; returns the step"""
        def ok(s):
            return self.viol(self.x+s*d) <= tol
        lo, hi = 0., 1e-2
        while hi < smax and ok(hi):
            lo, hi = hi, 2.5*hi
        if lo == 0.:
            for _ in range(6):
                hi *= 0.2
                if ok(hi):
                    lo, hi = hi, 5*hi
                    break
            else:
                return 0.
        if hi >= smax:
            self.x = self.x+min(lo, 1.)*d      # unbounded: stay close
            return min(lo, 1.)
        for _ in range(26):
            m = 0.5*(lo+hi)
            if ok(m):
                lo = m
            else:
                hi = m
        self.x = self.x+frac*lo*d if ok(frac*lo) else self.x+lo*d
        return lo


def direction(knots, deg, n, mode, w):
    """coefficient direction: polynomials of degree mode (exactly), one coefficient or an arbitrary shape"""
    if isinstance(mode, int) and mode <= min(deg, 3):
        a, b = knots[deg], knots[-deg-1]
        xs = np.linspace(a, b, 3*n)
        B = ref.basis_matrix(knots, deg, xs)
        u = (xs-a)/(b-a)
        return np.linalg.lstsq(B, u**mode, rcond=None)[0]
    if mode == 'one' or isinstance(mode, int):
        d = np.zeros(n)
        d[int(w[0]) % n] = 1.
        return d
    return np.array([w[k % len(w)] for k in range(n)], dtype=float)/5.
