"""Independent 2D geometry: figures from case descriptions, distances, containment."""
import numpy as np


def num(st, lo, hi, q=100):
    return st.integers(int(round(lo*q)), int(round(hi*q))).map(lambda i: i/float(q))


def shape2d(st, polygons=False):
    """JSON description of a 2D shape; any: circle, beam, rectangle, square, ufo, regular polygon, convex polygon"""
    kinds = ['rect', 'square', 'regular', 'poly', 'ufo'] + ([] if polygons else ['circle', 'beam'])

    @st.composite
    def s(draw):
        k = draw(st.sampled_from(kinds))
        c = {'kind': k, 'o': 0.}
        if k != 'circle':
            c['o'] = draw(st.one_of(st.just(0.), num(st, -7., 7.), st.sampled_from([np.pi/2, np.pi/4, -np.pi/2, np.pi])))
        if k in ('rect', 'ufo', 'beam'):
            c['w'], c['h'] = draw(num(st, 0.1, 8.)), draw(num(st, 0.1, 8.))
        elif k == 'square':
            c['w'] = draw(num(st, 0.1, 8.))
        elif k == 'regular':
            c['n'], c['r'] = draw(st.integers(3, 9)), draw(num(st, 0.1, 6.))
        elif k == 'circle':
            c['r'] = draw(num(st, 0.05, 6.))
        else:
            n = draw(st.integers(3, 7))
            ang = sorted(draw(st.lists(st.integers(0, 35), min_size=n, max_size=n, unique=True)))
            c['ang'] = ang
            c['ax'] = [draw(num(st, 0.3, 4.)), draw(num(st, 0.3, 4.))]
            c['off'] = [draw(num(st, -1., 1.)), draw(num(st, -1., 1.))]
            c['ccw'] = draw(st.booleans())
        return c
    return s()


def rot(th):
    return np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])


def raw(c):
    """corners before rotation, counter clockwise, and radius"""
    k = c['kind']
    if k in ('rect', 'ufo', 'square'):
        w, h = c['w'], c.get('h', c['w'])
        return np.array([[-w, w, w, -w], [-h, -h, h, h]])/2., 0.
    if k == 'beam':
        return np.array([[-c['w'], c['w']], [0., 0.]])/2., c['h']/2.
    if k == 'circle':
        return np.zeros((2, 1)), c['r']
    if k == 'regular':
        # sides 0 is horizontal on top
        th = np.pi/2 + np.pi/c['n'] + 2*np.pi*np.arange(c['n'])/c['n']
        return c['r']*np.array([np.cos(th), np.sin(th)]), 0.
    th = np.radians(np.array(c['ang'])*10.)
    return np.array([c['ax'][0]*np.cos(th) + c['off'][0], c['ax'][1]*np.sin(th) + c['off'][1]]), 0.


def figure(c):
    v, r = raw(c)
    return {'v': rot(c['o']).dot(v), 'r': r}


def size(c):
    v, r = raw(c)
    return float(np.hypot(*v).max() + r)


def build(sh, c):
    k = c['kind']
    if k == 'rect':
        return sh.Rectangle(c['w'], c['h'], orientation=c['o'])
    if k == 'square':
        return sh.Square(c['w'], orientation=c['o'])
    if k == 'ufo':
        return sh.UFO(c['w'], c['h'], orientation=c['o'])
    if k == 'beam':
        return sh.Beam(c['w'], c['h'], orientation=c['o'])
    if k == 'circle':
        return sh.Circle(c['r'])
    if k == 'regular':
        return sh.RegularPolyhedron(c['r'], c['n'], orientation=c['o'])
    v = raw(c)[0]
    return sh.Polyhedron(v if c['ccw'] else v[:, ::-1].copy(), orientation=c['o'])


def seg_dist(p, a, b):
    e = b - a
    n = float(e.dot(e))
    t = 0. if n == 0 else min(1., max(0., float((p - a).dot(e))/n))
    return float(np.hypot(*(p - a - t*e)))


def boundary_dist(p, v):
    n = v.shape[1]
    return min(seg_dist(np.asarray(p), v[:, k], v[:, (k+1) % n]) for k in range(n))


def inside(p, v):
    """crossing number"""
    n = v.shape[1]
    c = False
    for k in range(n):
        x1, y1 = v[:, k]
        x2, y2 = v[:, (k+1) % n]
        if (y1 > p[1]) != (y2 > p[1]) and p[0] < (x2-x1)*(p[1]-y1)/(y2-y1) + x1:
            c = not c
    return c


def signed_dist(p, v):
    """signed distance to a polygon (positive outside); segments and points are allowed"""
    if v.shape[1] == 1:
        return float(np.hypot(*(np.asarray(p) - v[:, 0])))
    d = boundary_dist(p, v)
    return -d if v.shape[1] > 2 and inside(p, v) else d


def convex_gap(v1, v2):
    """distance between two convex polygons/segments/points (0 when they intersect)"""
    for p in v1.T:
        if v2.shape[1] > 2 and inside(p, v2):
            return 0.
    for p in v2.T:
        if v1.shape[1] > 2 and inside(p, v1):
            return 0.
    best = np.inf
    n1, n2 = v1.shape[1], v2.shape[1]
    for i in range(n1):
        a, b = v1[:, i], v1[:, (i+1) % n1]
        for j in range(n2):
            c, d = v2[:, j], v2[:, (j+1) % n2]
            cr = lambda u, w: u[0]*w[1] - u[1]*w[0]
            if cr(b-a, c-a)*cr(b-a, d-a) < 0 and cr(d-c, a-c)*cr(d-c, b-c) < 0:
                return 0.
            best = min(best, seg_dist(a, c, d), seg_dist(b, c, d), seg_dist(c, a, b), seg_dist(d, a, b))
    return best
