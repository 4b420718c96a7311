import numpy as np
from core import Sub
import gen
import geo

PROPERTY = 'G01'
RULE = ('Hypothesis draws shapes of every kind (sizes over two orders of magnitude, any orientation, convex polygons with '
        'vertices in either turning sense) and geometric queries on them; vertices, surfaces, checkpoints, limits and '
        'half-planes are compared with an independent construction of the figure, queries with exact geometry away from '
        'ties. Non-trivial: a figure that is rotated, irregular or queried close to its boundary.')


def _s():
    import omgtools.basics.shape as sh
    import omgtools.basics.geometry as g
    return sh, g


def rot(th):
    return np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])


def rpy(o):
    r, p, y = o
    X = np.array([[1, 0, 0], [0, np.cos(r), -np.sin(r)], [0, np.sin(r), np.cos(r)]])
    Y = np.array([[np.cos(p), 0, np.sin(p)], [0, 1, 0], [-np.sin(p), 0, np.cos(p)]])
    Z = np.array([[np.cos(y), -np.sin(y), 0], [np.sin(y), np.cos(y), 0], [0, 0, 1.]])
    return Z.dot(Y).dot(X)


# ---------------------------------------------------------------- 2D figures
def g_2d(st):
    @st.composite
    def s(draw):
        return {'shape': draw(geo.shape2d(st)), 'pose': [draw(gen.num(st, -5, 5)), draw(gen.num(st, -5, 5)), draw(gen.num(st, -7, 7))],
                'pos': draw(st.one_of(st.none(), st.tuples(gen.num(st, -5, 5), gen.num(st, -5, 5)))),
                'pts': draw(st.lists(st.tuples(gen.num(st, -1.6, 1.6), gen.num(st, -1.6, 1.6)), min_size=3, max_size=12)),
                'margin': draw(st.sampled_from([0., 0., 0.1, -0.05]))}
    return s()


def same_set(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    d = np.abs(a[:, :, None] - b[:, None, :]).max(axis=0)
    return bool(np.all(d.min(axis=0) < tol) and np.all(d.min(axis=1) < tol))


def c_2d(case, ctx):
    sh, g = _s()
    c = case['shape']
    s = geo.build(sh, c)
    fig = geo.figure(c)          # vertices of the core polygon (any order) and a radius
    size = geo.size(c)
    tol = 1e-8*(1+size)
    R = 1e-3 if c['kind'] not in ('circle', 'beam') else fig['r']
    ctx.label(c['kind'])
    ctx.nontrivial(abs(c.get('o', 0.)) > 0.01 or c['kind'] == 'poly')
    ctx.ok(s.n_dim == 2, 'dimension')
    chck, rad = s.get_checkpoints()
    ctx.ok(len(chck) == len(rad), 'every checkpoint has a radius')
    ctx.ok(same_set(np.array(chck).T, fig['v'], tol), '%s: checkpoints %s, figure has corners %s', c['kind'], chck, fig['v'].T.tolist())
    ctx.close(rad, [R]*len(chck), 'radius of the checkpoints', 1e-12)
    # limits
    lim = s.get_canvas_limits()
    want = [[fig['v'][k].min() - fig['r'], fig['v'][k].max() + fig['r']] for k in range(2)]
    ctx.close(np.array(lim), want, '%s: limits' % c['kind'], 1e-8)
    # the drawn outline lies on the figure and reaches its corners
    surf, lines = s.draw(np.array(case['pose']))
    ctx.ok(len(surf) == len(s.surfaces), 'number of drawn surfaces')
    M = rot(case['pose'][2])
    wv = M.dot(fig['v']) + np.c_[list(case['pose'][:2])]
    pts = np.hstack(surf)
    if c['kind'] == 'ufo':
        for p in pts.T:
            ctx.ok(geo.signed_dist(p, wv) < tol, 'drawn outside its figure')
    else:
        for p in pts.T:
            d = geo.signed_dist(p, wv)
            ctx.ok(abs(d - fig['r']) < 1e-7*(1+size), '%s drawn at %s, %g from its outline', c['kind'], p, d - fig['r'])
        if c['kind'] in ('circle', 'beam'):
            th = np.linspace(0, 2*np.pi, 41)
            for v in wv.T:
                for t in th:
                    q = v + fig['r']*np.array([np.cos(t), np.sin(t)])
                    if geo.signed_dist(q, wv) > fig['r'] - 1e-9:
                        ctx.ok(np.hypot(*(pts - q[:, None])).min() < 0.15*fig['r'], 'outline of the %s is not closed near %s', c['kind'], q)
        else:
            ctx.ok(same_set(pts, wv, 1e-8*(1+size)), 'drawn corners of the %s', c['kind'])
    # half planes
    if c['kind'] not in ('circle', 'beam'):
        before = s.vertices.copy()
        pos = case['pos']
        hyp = s.get_hyperplanes() if pos is None else s.get_hyperplanes(position=list(pos))
        off = np.zeros(2) if pos is None else np.array(pos)
        v = fig['v'] + np.c_[off]
        ctx.ok(len(hyp) == v.shape[1], 'one half-plane per side')
        for h in hyp.values():
            ctx.close(np.hypot(*h['a']), 1., 'normal of a side has unit length', 1e-9)
        ctr = v.mean(axis=1)
        for q in case['pts']:
            p = ctr + np.array(q)*size
            d = geo.signed_dist(p, v)
            if abs(d) < 1e-6*(1+size):
                continue
            val = max(np.dot(h['a'], p) - h['b'] for h in hyp.values())
            ctx.ok((val < 0) == (d < 0), '%s: point %s is %s but its half-planes say %g', c['kind'], p.tolist(),
                   'inside' if d < 0 else 'outside', val)
            if d < 0:
                ctx.close(val, d, 'distance to the closest side', 1e-8)
                ctx.label('inside')
            got = g.point_in_polyhedron(p.tolist(), s, off.tolist())
            ctx.ok(got == (d < 0), 'point_in_polyhedron %s for a point at signed distance %g', got, d)
            m = case['margin']*size
            if abs(val - m) > 1e-6:
                ctx.ok(g.point_in_polyhedron(p.tolist(), s, off.tolist(), margin=m) == (val < m), 'point_in_polyhedron with a margin')
        ctx.ok(np.array_equal(before, s.vertices), 'a query changed the vertices')


# ---------------------------------------------------------------- rings
def g_ring(st):
    @st.composite
    def s(draw):
        return {'r': draw(st.sampled_from([0.3, 1., 4.5, 20.])), 'w': draw(st.sampled_from([0.05, 0.2, 0.8])),
                'a0': draw(st.integers(-180, 180)), 'span': draw(st.sampled_from([360, 1, 10, 45, 89, 90, 91, 179, 180, 181, 269, 271, 350, 359])),
                'cw': draw(st.booleans()), 'd3': draw(st.booleans())}
    return s()


def c_ring(case, ctx):
    sh, g = _s()
    r, w = case['r'], case['w']*case['r']
    a0 = np.radians(case['a0'])
    sg = -1. if case['cw'] else 1.
    span = np.radians(case['span'])
    start = np.array([r*np.cos(a0), r*np.sin(a0)] + ([0.] if case['d3'] else []))
    a1 = a0 + sg*span
    end = start.copy() if case['span'] == 360 else np.array([r*np.cos(a1), r*np.sin(a1)] + ([0.] if case['d3'] else []))
    s = sh.Ring(r - 0.5*w, r + 0.5*w, start, end, 'CW' if case['cw'] else 'CCW')
    pts = s.surfaces[0]
    ctx.nontrivial(case['span'] > 90)
    ctx.label('full' if case['span'] == 360 else 'CW' if case['cw'] else 'CCW')
    rho = np.hypot(pts[0], pts[1])
    ctx.ok(np.all((np.abs(rho - r - 0.5*w) < 1e-9*(1+r)) | (np.abs(rho - r + 0.5*w) < 1e-9*(1+r))), 'ring points are not on its two circles')
    rel = (sg*(np.arctan2(pts[1], pts[0]) - a0)) % (2*np.pi)
    rel = np.where(rel > 2*np.pi - 1e-7, 0., rel)
    ctx.ok(rel.max() < span + 1e-6, 'ring extends past the arc: %g of %g', rel.max(), span)
    th = np.linspace(0, span, 50)
    for rad in (r - 0.5*w, r + 0.5*w):
        q = rad*np.array([np.cos(a0 + sg*th), np.sin(a0 + sg*th)])
        d = np.hypot(q[0][:, None] - pts[0][None], q[1][:, None] - pts[1][None]).min(axis=1)
        ctx.ok(d.max() < 0.01*rad, 'part of the arc at radius %g is missing', rad)
    lim = s.get_canvas_limits()
    th = np.linspace(0, span, 4001)
    q = np.hstack([rad*np.array([np.cos(a0 + sg*th), np.sin(a0 + sg*th)]) for rad in (r - 0.5*w, r + 0.5*w)])
    want = [[q[k].min(), q[k].max()] for k in range(2)]
    ctx.close(np.array(lim), want, 'limits of the ring', 1e-4*r)


# ---------------------------------------------------------------- 3D figures
def g_3d(st):
    @st.composite
    def s(draw):
        return {'kind': draw(st.sampled_from(['sphere', 'cuboid', 'cube', 'prisma', 'plate'])),
                'a': draw(st.sampled_from([0.2, 1., 3.3, 7.])), 'b': draw(st.sampled_from([0.2, 1., 2.5])), 'h': draw(st.sampled_from([0.1, 1., 4.])),
                'n': draw(st.integers(3, 8)), 'o': draw(st.tuples(*[gen.num(st, -3.2, 3.2)]*3)),
                'pose': [draw(gen.num(st, -3, 3)) for _ in range(6)], 'flat': draw(geo.shape2d(st, True))}
    return s()


def c_3d(case, ctx):
    sh, g = _s()
    k, a, b, h = case['kind'], case['a'], case['b'], case['h']
    o = list(case['o'])
    ctx.label(k)
    ctx.nontrivial(k != 'sphere')
    r = 1e-3
    if k == 'sphere':
        s, v, r = sh.Sphere(a), np.zeros((3, 1)), a
    elif k in ('cuboid', 'cube'):
        d = (a, b, h) if k == 'cuboid' else (a, a, a)
        s = sh.Cuboid(a, b, h, orientation=o) if k == 'cuboid' else sh.Cube(a, orientation=o)
        v = np.array([[x*d[0]/2, y*d[1]/2, z*d[2]/2] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)]).T
    elif k == 'prisma':
        s = sh.RegularPrisma(a, h, case['n'], orientation=o)
        f = geo.figure({'kind': 'regular', 'r': a, 'n': case['n'], 'o': 0.})['v']
        v = np.hstack([np.vstack([f, z*np.ones((1, f.shape[1]))]) for z in (-h/2, h/2)])
    else:
        flat = geo.build(sh, case['flat'])
        s = sh.Plate(flat, h, orientation=o)
        f = geo.figure(case['flat'])['v']
        v, r = np.vstack([f, np.zeros((1, f.shape[1]))]), 0.5*h
    if k != 'sphere':
        v = rpy(o).dot(v)
    chck, rad = s.get_checkpoints()
    ctx.ok(s.n_dim == 3, 'dimension')
    ctx.ok(same_set(np.array(chck).T, v, 1e-8*(1+a+h)), 'corners of the %s', k)
    ctx.close(rad, [r]*len(chck), 'radius of the checkpoints', 1e-12)
    lim = np.array(s.get_canvas_limits())
    e = a if k == 'sphere' else 0.
    ctx.close(lim, [[v[i].min() - e, v[i].max() + e] for i in range(3)], 'limits', 1e-8)
    surf, _ = s.draw(np.array(case['pose']))
    pts = np.hstack(surf)
    M, t = rpy(case['pose'][3:]), np.array(case['pose'][:3])
    if k == 'sphere':
        ctx.close(np.sqrt(((pts - t[:, None])**2).sum(axis=0)), [a]*pts.shape[1], 'drawn sphere', 1e-8)
        for dr in ([0, 0, 1.], [0, 0, -1.], [1., 0, 0], [0, -1., 0], [0.6, 0.6, 0.53]):
            q = t + a*M.dot(np.array(dr)/np.linalg.norm(dr))
            ctx.ok(np.sqrt(((pts - q[:, None])**2).sum(axis=0)).min() < 0.5*a, 'part of the sphere is not drawn')
    elif k != 'plate' or case['flat']['kind'] not in ('ufo',):
        ctx.ok(same_set_many(pts, M.dot(v) + t[:, None], 1e-7*(1+a+h)), 'drawn corners of the %s', k)
        if k in ('cuboid', 'cube', 'prisma'):
            ctx.ok(len(surf) == (case['n'] + 2 if k == 'prisma' else 6), 'number of faces')
            for f in surf:
                q = f - f[:, :1]
                sv = np.linalg.svd(q)[1]
                ctx.ok(len(sv) < 3 or sv[2] < 1e-7*(1+sv[0]), 'a face of the %s is not flat', k)


def same_set_many(a, b, tol):
    d = np.abs(a[:, :, None] - b[:, None, :]).max(axis=0)
    return bool(np.all(d.min(axis=0) < tol) and np.all(d.min(axis=1) < tol))


# ---------------------------------------------------------------- queries on points and segments
def g_q(st):
    n = gen.num(st, -5, 5, 10)
    p = st.tuples(n, n)
    return st.fixed_dictionaries({'p': st.lists(p, min_size=4, max_size=4), 'q': st.lists(n, min_size=3, max_size=3),
                                  'q2': st.lists(n, min_size=3, max_size=3), 'rect': st.tuples(p, gen.num(st, 0.1, 6, 10), gen.num(st, 0.1, 6, 10)),
                                  'rect2': st.tuples(p, gen.num(st, 0.1, 6, 10), gen.num(st, 0.1, 6, 10)),
                                  'dist': gen.num(st, 0, 2, 10), 'vel': st.tuples(gen.num(st, -3, 3, 10), gen.num(st, -3, 3, 10)),
                                  'hor': st.sampled_from([1, 2., 5., 10])})


def c_q(case, ctx):
    sh, g = _s()
    a, b, c, d = [np.array(p) for p in case['p']]
    ctx.close(g.distance_between_points(a, b), np.hypot(*(b - a)), 'distance between points', 1e-12)
    ctx.close(g.distance_between_points(case['q'], case['q2']), np.linalg.norm(np.array(case['q']) - case['q2']), 'distance in 3D', 1e-12)
    try:
        g.distance_between_points(a, case['q'])
        ctx.fail('points of different dimension were accepted')
    except ValueError:
        pass
    cr = lambda u, v: u[0]*v[1] - u[1]*v[0]
    o3 = cr(b - a, c - a)
    if abs(o3) > 1e-6:
        ctx.ok(bool(g.order_is_ccw(a, b, c)) == (o3 > 0), 'turning sense')
    if np.hypot(*(b - a)) > 0.05:
        ctx.close(g.distance_to_line(c, [a, b]), abs(o3)/np.hypot(*(b - a)), 'distance to a line', 1e-10)
    os = [cr(b - a, c - a), cr(b - a, d - a), cr(d - c, a - c), cr(d - c, b - c)]
    if min(abs(o) for o in os) > 1e-6:
        want = os[0]*os[1] < 0 and os[2]*os[3] < 0
        got = g.intersect_line_segments([a.tolist(), b.tolist()], [c.tolist(), d.tolist()])
        ctx.ok(bool(got) == want, 'segments %s-%s and %s-%s: intersect %s', a, b, c, d, got)
        ctx.label('segments cross', int(want))
        den = cr(b - a, d - c)
        ctx.nontrivial(want)
        if abs(den) > 1e-3:
            t = cr(c - a, d - c)/den
            x = a + t*(b - a)
            ctx.close(g.intersect_lines([a, b], [c, d]), x, 'intersection of lines', 1e-8)
    ctx.ok(g.intersect_lines([[1., 2.], [2., 4.]], [[0., 0.], [3., 6.]]) is None, 'parallel lines intersect')
    # rectangles
    (x, y), w, h = case['rect']
    lim = [x, y, x + w, y + h]
    dist = case['dist']
    inx = [lim[0] + dist - a[0], a[0] - lim[2] + dist]
    iny = [lim[1] + dist - a[1], a[1] - lim[3] + dist]
    if min(abs(v) for v in inx + iny) > 1e-9:
        wx, wy = max(inx) < 0, max(iny) < 0
        ctx.ok(g.point_in_rectangle(a, lim, distance=dist) == (wx and wy), 'point_in_rectangle')
        ctx.ok(list(g.point_in_rectangle(a, lim, distance=dist, xy_check=True)) == [wx, wy], 'point_in_rectangle per direction')
    # moving point: interval of presence
    T = float(case['hor'])
    lo, hi = 0., T
    for k, (l, u) in enumerate(((lim[0], lim[2]), (lim[1], lim[3]))):
        v = case['vel'][k]
        if v == 0.:
            if not l <= a[k] <= u:
                lo, hi = 1., 0.
        else:
            ts = sorted([(l - a[k])/v, (u - a[k])/v])
            lo, hi = max(lo, ts[0]), min(hi, ts[1])
    got = g.point_in_rectangle(a, lim, horizon_time=case['hor'], velocity=case['vel'])
    if hi < lo - 1e-9:
        ctx.ok(not got, 'point never enters the rectangle')
    if hi - lo > 0.5 + 1e-6:
        ctx.ok(got, 'point is in the rectangle from %g to %g', lo, hi)
        ctx.label('moving point enters')
    # overlap
    (x2, y2), w2, h2 = case['rect2']
    r1, r2 = sh.Rectangle(w, h), sh.Rectangle(w2, h2)
    p1, p2 = [x + w/2, y + h/2], [x2 + w2/2, y2 + h2/2]
    before = r1.vertices.copy(), r2.vertices.copy()
    gx = min(x + w, x2 + w2) - max(x, x2)
    gy = min(y + h, y2 + h2) - max(y, y2)
    if min(abs(gx), abs(gy)) > 1e-6:
        want = gx > 0 and gy > 0
        ctx.ok(bool(g.rectangles_overlap(r1, p1, r2, p2)) == want, 'rectangles_overlap')
        ctx.label('rectangles overlap', int(want))
        try:
            ctr = g.compute_rectangle_overlap_center(r1, p1, r2, p2)
        except RuntimeError:
            ctr = None
        ctx.ok((ctr is not None) == want, 'overlap centre reported for rectangles that do %soverlap', '' if want else 'not ')
        if want:
            ctx.close(ctr, [max(x, x2) + gx/2, max(y, y2) + gy/2], 'centre of the overlap', 1e-9)
    ctx.ok(np.array_equal(before[0], r1.vertices) and np.array_equal(before[1], r2.vertices), 'a query changed a rectangle')
    try:
        g.rectangles_overlap(sh.Rectangle(1., 1., orientation=0.3), p1, r2, p2)
        ctx.fail('a rotated rectangle was accepted by rectangles_overlap')
    except RuntimeError:
        pass


# ---------------------------------------------------------------- circle against polygon
def g_cp(st):
    return st.fixed_dictionaries({'shape': geo.shape2d(st, True), 'r': st.sampled_from([0.05, 0.3, 1., 2.5]),
                                  'pos': st.tuples(gen.num(st, -5, 5), gen.num(st, -5, 5)),
                                  'side': st.integers(0, 9), 't': gen.num(st, -0.5, 1.5), 'd': gen.num(st, -2., 2.), 'moves': st.integers(1, 3)})


def c_cp(case, ctx):
    sh, g = _s()
    s = geo.build(sh, case['shape'])
    v = geo.figure(case['shape'])['v'] + np.c_[list(case['pos'])]
    n = v.shape[1]
    k = case['side'] % n
    p, q = v[:, k], v[:, (k+1) % n]
    e = q - p
    nrm = np.array([e[1], -e[0]])/np.hypot(*e)
    # a circle near one of the sides or corners
    c = p + case['t']*e + nrm*case['r']*case['d']

    class Obs(object):
        pass
    o = Obs()
    o.shape = sh.Circle(case['r'])
    o.signals = {'position': np.column_stack([np.ones(2)*99.]*case['moves'] + [c])}
    before = s.vertices.copy()
    got = g.circle_polyhedron_intersection(o, s, list(case['pos']))
    ctx.ok(np.array_equal(before, s.vertices), 'the query changed the vertices')
    db = geo.boundary_dist(c, v)
    if abs(db - case['r']) < 1e-5*(1+case['r']):
        ctx.skip('tie')
    want = db < case['r']
    ctx.nontrivial(abs(db - case['r']) < 0.5*case['r'])
    ctx.label('touching' if want else 'clear')
    ctx.ok(bool(got) == want, 'circle of radius %g at distance %g from the outline: intersection reported %s', case['r'], db, got)


SUBS = [
    Sub('figures_2d', g_2d, c_2d, quick=2400, shards=2, rule='rotated or irregular figure'),
    Sub('rings', g_ring, c_ring, quick=600, rule='more than a quarter turn'),
    Sub('figures_3d', g_3d, c_3d, quick=1200, rule='not a sphere'),
    Sub('queries', g_q, c_q, quick=6000, shards=2, rule='segments cross'),
    Sub('circle_polygon', g_cp, c_cp, quick=6000, shards=2, rule='circle outline within half a radius of the polygon'),
]
