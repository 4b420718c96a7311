import contextlib
import io
from importlib import import_module as im
import numpy as np
from core import Sub, Skip
import gen

PROPERTY = 'C02'
RULE = ('Hypothesis draws machining programs (lines in any direction, vertical moves, ramps, clockwise and counter-clockwise arcs up to full circles), '
        'tolerances, splitting of circles and tight tolerances in the middle of blocks. The drawn figures of the rooms, the constraints they are turned into, '
        'the test on the extended rooms and the initial guesses are compared with geometry computed from the blocks alone; whole programs are '
        'machined and the trajectory is compared with path, order, limits and end points. Non-trivial: at least two blocks with an arc, a ramp or a split block.')


class Line(object):
    def __init__(self, p, q):
        self.p, self.q = np.array(p[:2], float), np.array(q[:2], float)
        self.len = np.linalg.norm(self.q-self.p)
        self.t = (self.q-self.p)/self.len if self.len > 0. else np.array([1., 0.])
        self.n = np.array([-self.t[1], self.t[0]])

    def pt(self, l, off=0.):
        l, off = np.atleast_1d(l), np.atleast_1d(off)
        return self.p[:, None] + self.t[:, None]*l + self.n[:, None]*off

    def lat(self, P):
        return self.n.dot(P-self.p[:, None])

    def lon(self, P):
        return self.t.dot(P-self.p[:, None])

    def dist(self, P, l0=0., l1=None):
        l1 = self.len if l1 is None else l1
        return np.linalg.norm(P-self.pt(np.clip(self.lon(P), l0, l1)), axis=0)

    def tangent(self, end):
        return self.t


class Arc(object):
    def __init__(self, p, q, c, cw):
        self.c = np.array(c[:2], float)
        p, q = np.array(p[:2], float), np.array(q[:2], float)
        self.r = np.linalg.norm(p-self.c)
        self.sg = -1. if cw else 1.
        self.a0 = np.arctan2(*(p-self.c)[::-1])
        a1 = np.arctan2(*(q-self.c)[::-1])
        self.sweep = (self.sg*(a1-self.a0)) % (2*np.pi)
        if np.array_equal(p, q) or self.sweep < 1e-9:
            self.sweep = 2*np.pi
        self.len = self.r*self.sweep

    def pt(self, l, off=0.):
        a = self.a0 + self.sg*np.atleast_1d(l)/self.r
        # positive offset: to the left of the motion
        rad = self.r - self.sg*np.atleast_1d(off)
        return self.c[:, None] + rad*np.vstack((np.cos(a), np.sin(a)))

    def lat(self, P):
        return np.linalg.norm(P-self.c[:, None], axis=0) - self.r

    def lon(self, P):
        d = P-self.c[:, None]
        a = (self.sg*(np.arctan2(d[1], d[0])-self.a0)) % (2*np.pi)
        # angles just before the start count as negative
        gap = 0.5*(2*np.pi-self.sweep)
        return np.where(a > self.sweep+gap, a-2*np.pi, a)*self.r

    def dist(self, P, l0=0., l1=None):
        l1 = self.len if l1 is None else l1
        l = self.lon(P)
        Q = self.pt(np.clip(l, l0, l1))
        d = np.linalg.norm(P-Q, axis=0)
        for e in (l0, l1):
            d = np.minimum(d, np.linalg.norm(P-self.pt(e), axis=0))
        return d

    def tangent(self, end):
        a = self.a0 + self.sg*(self.sweep if end else 0.)
        return self.sg*np.array([-np.sin(a), np.cos(a)])


def inside(poly, P):
    """even-odd rule"""
    x, y = P[0][:, None], P[1][:, None]
    xa, ya = poly[0][None, :], poly[1][None, :]
    xb, yb = np.roll(xa, -1, axis=1), np.roll(ya, -1, axis=1)
    cross = (ya > y) != (yb > y)
    with np.errstate(divide='ignore', invalid='ignore'):
        xi = xa + (y-ya)*(xb-xa)/(yb-ya)
    return (np.sum(cross & (x < xi), axis=1) % 2).astype(bool)


# ---------------------------------------------------------------- programs

def g_moves(st, nmax, smooth=False, only_line=False):
    @st.composite
    def s(draw):
        out = []
        for k in range(draw(st.integers(1, nmax))):
            kind = gen.pick(draw, st, ['line', 'line', 'arc', 'arc'] + ([] if smooth else ['z', 'ramp'])) if not only_line else 'line'
            turn = gen.pick(draw, st, [0., 0., 30., 45., -45., 90., -90.]) if draw(st.booleans()) else draw(gen.num(st, -110., 110., 1))
            m = {'k': kind, 'turn': turn}
            if kind in ('line', 'ramp'):
                m['l'] = draw(gen.num(st, 2., 20., 10))
                if not smooth:
                    m['turn'] = gen.pick(draw, st, [0., 90., 180., 270., 45.]) if draw(st.booleans()) else draw(gen.num(st, 0., 360., 1))
                    if draw(st.integers(0, 5)) == 0:
                        m['l'] = draw(gen.num(st, 0.05, 2., 100))
            if kind in ('z', 'ramp'):
                m['dz'] = gen.pick(draw, st, [-1., 1.])*draw(gen.num(st, 0.5, 8., 10))
            if kind == 'arc':
                m['r'] = draw(gen.num(st, 1., 10., 10))
                m['cw'] = gen.pick(draw, st, [True, False])
                m['sweep'] = gen.pick(draw, st, [90., 180., 270., 360., 360., 130., 140., 358., 355.]) if draw(st.booleans()) else draw(gen.num(st, 10., 358., 1))
            out.append(m)
        return {'moves': out, 'a0': draw(gen.num(st, 0., 360., 1)) if draw(st.booleans()) else gen.pick(draw, st, [0., 90., 180., 270.]),
                'start': [draw(gen.num(st, -20., 20.)), draw(gen.num(st, -20., 20.)), gen.pick(draw, st, [0., 0., 3., -2.5])]}
    return s()


def program(case, relative):
    """blocks of the code and the path as lines and arcs (from the same numbers)"""
    gb = im('omgtools.gui.gcode_block')
    pos = np.array(case['start'], float)
    head = case['a0']
    blocks, path = [], []
    prev = gb.generate_gcodeblock('G00 X%.6f Y%.6f Z%.6f' % tuple(pos), 0, None)
    for m in case['moves']:
        head = head+m['turn'] if relative else m['turn']
        h = np.deg2rad(head)
        end = pos.copy()
        if m['k'] == 'arc':
            sg = -1. if m['cw'] else 1.
            c = np.round(m['r']*np.array([-np.sin(h), np.cos(h)])*sg, 6)
            sw = np.deg2rad(m['sweep'])*sg
            if m['sweep'] < 360.:
                R = np.array([[np.cos(sw), -np.sin(sw)], [np.sin(sw), np.cos(sw)]])
                end[:2] = np.round(pos[:2]+c-R.dot(c), 6)
            line = '%s X%.6f Y%.6f Z%.6f I%.6f J%.6f' % ('G02' if m['cw'] else 'G03', end[0], end[1], end[2], c[0], c[1])
            path.append(Arc(pos, end, pos[:2]+c, m['cw']))
            head += sg*m['sweep']
        else:
            if 'l' in m:
                end[:2] = np.round(pos[:2]+m['l']*np.array([np.cos(h), np.sin(h)]), 6)
            end[2] = np.round(pos[2]+m.get('dz', 0.), 6)
            line = 'G01 X%.6f Y%.6f Z%.6f' % tuple(end)
            path.append(Line(pos, end))
        path[-1].z = (pos[2], end[2])
        b = gb.generate_gcodeblock(line, len(blocks)+1, prev)
        blocks.append(b)
        prev = b
        pos = end
    return blocks, path


def g_opts(st):
    @st.composite
    def s(draw):
        c = draw(g_moves(st, 5))
        c['tol'] = gen.pick(draw, st, [0.01, 0.05, 0.1, 0.2])
        c['small'] = gen.pick(draw, st, [0.1, 0.25, 0.5, 1.])
        c['split'] = gen.pick(draw, st, [True, False])
        c['var'] = gen.pick(draw, st, [True, False])
        c['split_length'] = gen.pick(draw, st, [0., 0., 3., 8.])
        c['split_small'] = gen.pick(draw, st, [0.1, 0.1, 0.2, 0.3])
        c['n'] = gen.pick(draw, st, [1, 2, 3])
        c['pts'] = draw(st.lists(st.tuples(gen.num(st, -1.3, 1.3), gen.num(st, -3., 3.)), min_size=4, max_size=8))
        return c
    return s()


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


BOUNDS = {'vmin': -150., 'vmax': 150., 'amin': -20e3, 'amax': 20e3, 'jmin': -1500e3, 'jmax': 1500e3}


def scheduler(case, blocks, ki=10, bounds=None, options=None, **kw):
    om = im('omgtools')
    tool = om.Tool(case['tol'], bounds=dict(bounds or BOUNDS), tol_small=case['small']*case['tol'], options=options or {})
    tool.define_knots(knot_intervals=ki)
    tool.set_initial_conditions(blocks[0].start)
    tool.set_terminal_conditions(blocks[-1].end)
    p = om.GCodeSchedulerProblem(tool, blocks, options={'verbose': 0}, n_segments=case['n'], split_circle=case['split'], variable_tolerance=case['var'],
                                 split_length=case['split_length'], split_small=case['split_small'])
    return p, tool


def assign(ctx, rooms, blocks):
    """index of the block of each room, from the starts and ends of the rooms"""
    out, b = [], 0
    for k, r in enumerate(rooms):
        ctx.ok(b < len(blocks), 'room %d after the rooms of the last block', k)
        out.append(b)
        if np.allclose(r['end'], blocks[b].end, atol=1e-9) and (k+1 == len(rooms) or np.allclose(rooms[k+1]['start'], blocks[b].end, atol=1e-9)):
            b += 1
    ctx.ok(b == len(blocks), 'rooms end in block %d of %d', b, len(blocks))
    return out


def parts(case, ctx, blocks, path, rooms):
    """check numbers, starts and ends of the rooms; returns [(path element, from, to, tolerance)] per room"""
    own = assign(ctx, rooms, blocks)
    ctx.ok([r['number'] for r in rooms] == list(range(len(rooms))), 'room numbers are %s', [r['number'] for r in rooms])
    out = []
    for b, el in enumerate(path):
        mine = [rooms[k] for k in range(len(rooms)) if own[k] == b]
        arc = isinstance(el, Arc)
        l3 = np.hypot(el.len, el.z[1]-el.z[0])
        halves = 2 if arc and case['split'] and el.sweep > np.deg2rad(160.) else 1
        if arc and case['split'] and np.deg2rad(110.) < el.sweep <= np.deg2rad(160.):
            halves = None
        three = case['var'] and (arc or l3 >= case['split_length'])
        if not arc and case['var'] and abs(l3-case['split_length']) < 1e-6:
            ctx.skip('length at the splitting limit')
        want = [3*h if three else h for h in ([halves] if halves else [1, 2])]
        ctx.ok(len(mine) in want, 'block %d (%s) has %d rooms, expected %s', b, 'arc of %.0f deg' % np.rad2deg(el.sweep) if arc else 'line', len(mine), want)
        halves = len(mine)//3 if three else len(mine)
        eps = 1e-6
        pos = []
        for j, r in enumerate(mine):
            P = np.array([r['start'], r['end']], float).T
            ctx.ok(np.all(el.dist(P[:2]) < 1e-5), 'block %d part %d starts or ends beside the path: %s', b, j, P.T.tolist())
            if arc:
                ctx.ok(np.all(np.abs(el.lat(P[:2])) < 1e-5), 'block %d part %d starts or ends beside the arc', b, j)
            l = el.lon(P[:2])
            if j == 0:
                l[0] = 0.
            if j == len(mine)-1:
                l[1] = el.len
            ctx.close(r['start'], r['start'] if j else blocks[b].start, 'start of block %d' % b, tol=1e-9)
            ctx.ok(l[1] > l[0] or el.len == 0., 'block %d part %d runs backwards', b, j)
            # position in z goes along with the position in the plane
            if el.len > 0.:
                zz = el.z[0] + (el.z[1]-el.z[0])*l/el.len
                ctx.close(P[2], zz, 'z of block %d part %d' % (b, j), tol=1e-6)
            pos.append(l)
        for j in range(len(mine)-1):
            over = pos[j][1]-pos[j+1][0]
            lim = 2.5*case['tol'] if halves == 2 else eps
            ctx.ok(-eps <= over <= lim*1.3+eps, 'block %d: part %d ends at %.6f and part %d starts at %.6f', b, j, pos[j][1], j+1, pos[j+1][0])
            if halves == 2 and not (three and j != 2):
                ctx.ok(abs(0.5*(pos[j][1]+pos[j+1][0])-0.5*el.len) < 2*case['tol'], 'block %d is not split in halves but at %.4f of %.4f', b, pos[j][1], el.len)
        for j, l in enumerate(pos):
            t = case['tol']*case['small'] if three and j % 3 == 1 else case['tol']
            if three and el.len > 0.:
                frac = case['split_small'] if j % 3 != 1 else 1-2*case['split_small']
                ctx.ok(abs((l[1]-l[0]) - frac*el.len/halves) < 2.6*case['tol']*(halves-1)+1e-6*el.len, 'block %d part %d is %.5f long, expected %.5f', b, j, l[1]-l[0], frac*el.len/halves)
            out.append((el, l[0], l[1], t, j == 0, j == len(mine)-1))
    return out


def build(case, ctx):
    blocks, path = program(case, False)
    import copy
    before = [(list(b.start), list(b.end), list(getattr(b, 'center', []))) for b in blocks]
    with quiet():
        p, tool = scheduler(case, blocks)
    ctx.ok(before == [(list(b.start), list(b.end), list(getattr(b, 'center', []))) for b in blocks], 'making rooms changed the blocks')
    for m in case['moves']:
        ctx.label('block '+m['k'])
    ctx.nontrivial(len(blocks) > 1 and (case['var'] or any(m['k'] in ('arc', 'ramp') for m in case['moves'])))
    return p, tool, blocks, path


def poly_of(room):
    s = room['shape'].draw(list(room['pose'][:2])+[0.])[0]
    return np.array(s[0])


def c_rooms(case, ctx):
    p, tool, blocks, path = build(case, ctx)
    rooms = p.environment.room
    pp = parts(case, ctx, blocks, path, rooms)
    polys = [poly_of(r) for r in rooms]
    for k, (el, l0, l1, t, first, last) in enumerate(pp):
        poly = polys[k]
        arc = isinstance(el, Arc)
        # lateral band is inside
        s = np.linspace(min(l0+0.02*t, l1), max(l1-0.02*t, l0), 41)
        for off in (-0.97, -0.5, 0., 0.5, 0.97):
            ok = inside(poly, el.pt(s, off*t))
            ctx.ok(np.all(ok), 'room %d does not contain the point at %.4f of %.4f..%.4f, %.2f tolerances beside the path', k, s[np.argmin(ok)], l0, l1, off)
        if arc and el.sweep < 2*np.pi-2.2*t/el.r or not arc:
            if first:
                ctx.ok(np.all(inside(poly, el.pt(l0-0.9*t*np.ones(3), [-.6*t, 0, .6*t]))), 'room %d does not extend before the start of its block', k)
            if last:
                ctx.ok(np.all(inside(poly, el.pt(l1+0.9*t*np.ones(3), [-.6*t, 0, .6*t]))), 'room %d does not extend beyond the end of its block', k)
        # and nothing farther away than the tolerance
        if arc and not first and not last or not arc or True:
            ex = el.dist(poly, l0, l1)
            lim = 1.5*t+1e-6
            ctx.ok(np.max(ex) <= lim, 'room %d extends %.5f away from the path, tolerance %.5f', k, np.max(ex), t)
            ctx.ok(np.max(np.abs(el.lat(poly))) <= t*(1+1e-6)+1e-9, 'room %d is %.6f wide, tolerance %.6f', k, np.max(np.abs(el.lat(poly))), t)
    # consecutive rooms overlap around the point of transition
    for k in range(len(pp)-1):
        el, l0, l1, t = pp[k][:4]
        t2 = min(t, pp[k+1][3])
        P = el.pt(l1) if not np.allclose(rooms[k]['end'][:2], rooms[k+1]['start'][:2]) else np.array(rooms[k]['end'][:2], float)[:, None]
        if k+1 < len(pp) and pp[k+1][0] is el and rooms[k]['end'] != rooms[k+1]['start']:
            P = el.pt(0.5*(l1+pp[k+1][1]))
        a = np.linspace(0, 2*np.pi, 9)
        Q = P+0.3*t2*np.vstack((np.cos(a), np.sin(a)))
        ctx.ok(np.all(inside(polys[k], Q)) and np.all(inside(polys[k+1], Q)), 'rooms %d and %d do not overlap around the transition point', k, k+1)


def c_inside(case, ctx):
    """the constraints of a room and the test on the extended room"""
    p, tool, blocks, path = build(case, ctx)
    rooms = p.environment.room
    pp = parts(case, ctx, blocks, path, rooms)
    sp = im('omgtools.basics.spline')
    basis = tool.basis
    for k, (el, l0, l1, t, first, last) in enumerate(pp):
        z0, z1 = rooms[k]['start'][2], rooms[k]['end'][2]
        for u, v in case['pts']:
            lon = 0.5*(l0+l1) + 0.5*(l1-l0)*u
            P = el.pt(lon, v*t)
            lat = abs(v)
            # point of a room that is inside of the infinite version
            for dist in (0., 0.4*t):
                got = p.point_in_extended_shape(rooms[k], list(P[:, 0]), distance=dist)
                w = lat*t+dist
                if abs(w-t) > 1e-6*t:
                    ctx.ok(bool(got) == (w < t), 'point %.4f tolerances beside room %d with margin %.2f tolerances: inside = %s', lat, k, dist/t, got)
            # constraints
            cons = []
            tool.define_constraint = lambda e, lb, ub, **kw: cons.append((e, lb, ub))
            zin = z0+(z1-z0)*0.5*(1+np.clip(u, -1, 1))
            spl = [sp.BSpline(basis, float(x)*np.ones(len(basis))) for x in (P[0, 0], P[1, 0], zin)]
            tool.define_collision_constraints(rooms[k], spl, 1.)
            del tool.define_constraint
            worst = -np.inf
            for e, lb, ub in cons:
                cf = np.array(e.coeffs if hasattr(e, 'coeffs') else e, dtype=float).ravel()
                worst = max(worst, np.max(cf)-ub, lb-np.min(cf))
            if abs(lat-1.) < 1e-3:
                continue
            if lat > 1.:
                ctx.ok(worst > 0., 'room %d allows a point %.3f tolerances beside the path', k, lat)
            elif abs(u) <= 1. and not tool.options['variable_tolerance']:
                ctx.ok(worst <= 1e-9, 'room %d forbids a point %.3f tolerances beside the path (by %.3g)', k, lat, worst)


def bsp(basis, cf, d):
    b = basis
    cf = np.array(cf, float)
    kn, deg = np.array(b.knots, float), b.degree
    from scipy.interpolate import BSpline as SB
    s = SB(kn, cf, deg)
    return s.derivative(d) if d else s


TAU = np.linspace(0., 1., 301)


def c_guess(case, ctx):
    p, tool, blocks, path = build(case, ctx)
    rooms = p.environment.room
    pp = parts(case, ctx, blocks, path, rooms)
    ctx.ok(sum(1 for _ in pp) > 0, 'no rooms')
    for k, (el, l0, l1, t, first, last) in list(enumerate(pp))[:4]:
        if el.len == 0.:
            continue
        arc = isinstance(el, Arc)
        if arc and t/el.r < 0.1*((l1-l0)/el.r/10.)**2:
            # the few polynomial pieces of the guess cannot follow such a long thin ring
            ctx.label('long thin ring')
            continue
        ctx.label('guess in a ring' if arc else 'guess along a line')
        with quiet():
            g, T = p.get_init_guess_new_segment(rooms[k])
        g, T = np.array(g, float), float(T)
        ctx.ok(T > 0. and np.isfinite(T), 'motion time of the guess for room %d is %s', k, T)
        S = [[bsp(tool.basis, g[:, j], d)(TAU) for j in range(3)] for d in range(4)]
        eps = 3e-4
        ctx.close([S[0][j][0] for j in range(3)], rooms[k]['start'], 'start of the guess in room %d' % k, tol=eps)
        ctx.close([S[0][j][-1] for j in range(3)], rooms[k]['end'], 'end of the guess in room %d' % k, tol=eps)
        for j in range(2):
            for d in (1, 2):
                sc = np.max(np.abs(S[d][j]))
                ctx.ok(max(abs(S[d][j][0]), abs(S[d][j][-1])) <= 1e-4*(1+sc), 'guess in room %d is not at rest at its ends', k)
        P = np.array(S[0][:2])
        ctx.ok(np.max(np.abs(el.lat(P))) <= t+1e-4, 'guess leaves room %d: %.5f beside the path, tolerance %.5f', k, np.max(np.abs(el.lat(P))), t)
        if arc:
            a = np.unwrap(np.arctan2(P[1]-el.c[1], P[0]-el.c[0]))
            ctx.ok(abs((a[-1]-a[0]) - el.sg*(l1-l0)/el.r) < 1e-3, 'guess in room %d turns over %.4f rad, expected %.4f', k, a[-1]-a[0], el.sg*(l1-l0)/el.r)
        for d, lim in ((1, 150.), (2, 20e3), (3, 1500e3)):
            m = max(np.max(np.abs(S[d][0])), np.max(np.abs(S[d][1])))/T**d
            ctx.ok(m <= lim*1.001, 'guess in room %d: derivative %d is %.5g, limit %.5g', k, d, m, lim)
        # not unreasonably slow either: one of the limits is (almost) reached
        r = max(max(np.max(np.abs(S[d][0])), np.max(np.abs(S[d][1])))/T**d/lim for d, lim in ((1, 150.), (2, 20e3), (3, 1500e3)))
        ctx.ok(r > 0.7, 'guess in room %d is slow: %.3f of the limits', k, r)


# ---------------------------------------------------------------- machining

def g_machine(st):
    @st.composite
    def s(draw):
        z = draw(st.integers(0, 9)) == 0
        c = draw(g_moves(st, 4, smooth=True))
        if z:
            c['moves'] = [{'k': 'z', 'turn': 0., 'dz': gen.pick(draw, st, [-1., 1.])*draw(gen.num(st, 0.5, 8., 10))}]
        c['tol'] = gen.pick(draw, st, [0.02, 0.05, 0.1, 0.2])
        c['small'] = gen.pick(draw, st, [0.3, 0.5])
        c['split'] = gen.pick(draw, st, [True, False])
        c['var'] = gen.pick(draw, st, [False, False, True]) and not z
        c['split_length'] = gen.pick(draw, st, [0., 5.])
        c['split_small'] = gen.pick(draw, st, [0.1, 0.2])
        c['n'] = gen.pick(draw, st, [1, 2, 2, 3])
        c['n'] = min(c['n'], len(c['moves']))
        c['ki'] = gen.pick(draw, st, [8, 10, 12])
        c['lim'] = gen.pick(draw, st, ['machining', 'axes'])
        c['dt'] = gen.pick(draw, st, [0.001, 0.0005, 0.002])
        c['scale'] = gen.pick(draw, st, [[1., 1., 1.], [1., 1., 1.], [0.3, 1., 1.], [1., 0.2, 1.], [1., 1., 0.3]])
        return c
    return s()


class Stop(Exception):
    pass


SOLVER = {'ipopt.tol': 1e-5, 'ipopt.linear_solver': 'mumps', 'ipopt.warm_start_bound_push': 1e-6, 'ipopt.warm_start_mult_bound_push': 1e-6,
          'ipopt.mu_init': 1e-5, 'ipopt.max_iter': 500, 'ipopt.print_level': 0, 'print_time': 0}


def c_machine(case, ctx):
    om = im('omgtools')
    blocks, path = program(case, True)
    b = dict(BOUNDS)
    for key, s in zip('vaj', case['scale']):
        b[key+'min'], b[key+'max'] = b[key+'min']*s, b[key+'max']*s
    vertical = case['moves'][0]['k'] == 'z'
    if vertical:
        b.update({'vzmin': -b['vmax'], 'vzmax': b['vmax'], 'vmin': 0., 'vmax': 0.})
    with quiet():
        p, tool = scheduler(case, blocks, ki=case['ki'], bounds=b, options={'vel_limit': case['lim'], 'variable_tolerance': case['var']})
        rooms = p.environment.room
        pp = parts(case, ctx, blocks, path, rooms)
        if len(rooms) < case['n']:
            ctx.skip('fewer rooms than segments to combine')
        p.set_options({'solver_options': {'ipopt': dict(SOLVER)}})
        dep = om.Deployer(p, sample_time=case['dt'])
        rec = []

        def record(*args):
            st = p.local_problem.problem.stats()['return_status']
            if st != 'Solve_Succeeded':
                raise Stop(st)
            if len(rec) >= len(rooms)+2:
                ctx.fail('machining does not move on: %d trajectories for %d rooms' % (len(rec)+1, len(rooms)))
            rec.append(([np.array(s.coeffs, float).ravel() for s in tool.result_spline_segments[0]], float(p.motion_times[0]), dep.state_traj.shape[1], dep.input_traj.copy()))
        dep.init_plot = lambda: None
        dep.update_plot = record
        try:
            dep.update_segment()
        except Stop as e:
            ctx.label('solver: %s n=%d var=%s arc=%s' % (e, case['n'], case['var'], any(m['k'] == 'arc' for m in case['moves'])))
            simple = case['n'] == 1 and not case['var']
            if simple and not any(m['k'] == 'arc' for m in case['moves']):
                ctx.fail('no trajectory for room %d (standstill to standstill along a line): %s' % (len(rec), e))
            ctx.skip('solver did not converge')
    ctx.nontrivial(len(rooms) > 1 and any(m['k'] == 'arc' for m in case['moves']))
    ctx.label('n_segments %d' % case['n'])
    for m in case['moves']:
        ctx.label('block '+m['k'])
    ctx.ok(len(rec) == len(rooms), '%d trajectories for %d rooms', len(rec), len(rooms))
    ctx.close(p.motion_time_log, [r[1] for r in rec], 'logged motion times', tol=1e-9)
    cv = 3e-4
    vx, a_, j_ = b['vmax'], b['amax'], b['jmax']
    prev = [np.array(case['start']), np.zeros(3), np.zeros(3)]
    n0 = 1
    for k, (cf, T, n1, _) in enumerate(rec):
        el, l0, l1, t = pp[k][:4]
        D = [np.array([bsp(tool.basis, c, d)(TAU) for c in cf]) for d in range(4)]
        # band of the room
        out = np.max(np.abs(el.lat(D[0][:2])))-t
        ctx.ok(out <= cv, 'trajectory leaves room %d by %.5f (tolerance %.5f)', k, out, t)
        # continuity
        lim = [2e-4, 2e-4, 2e-3]
        for d, ref in enumerate(prev):
            err = np.max(np.abs(D[d][:, 0]-ref*T**d))
            ctx.ok(err <= lim[d]*(1+np.max(np.abs(D[d]))), 'derivative %d jumps by %.5g at the start of room %d', d, err/T**d, k)
        prev = [D[d][:, -1]/T**d for d in range(3)]
        # limits, as the optimizer sees them
        if case['lim'] == 'machining' and not vertical:
            v = np.max(D[1][0]**2+D[1][1]**2)-T**2*vx**2
            ctx.ok(v <= cv*(1+T**2*vx**2), 'velocity in room %d: %.5g, limit %.5g', k, np.sqrt(np.max(D[1][0]**2+D[1][1]**2))/T, vx)
        else:
            for c, L in enumerate([vx, vx, b.get('vzmax', 0.5)]):
                ctx.ok(np.max(np.abs(D[1][c])) <= T*L+cv*(1+T*L), 'velocity in room %d, axis %d: %.5g, limit %.5g', k, c, np.max(np.abs(D[1][c]))/T, L)
        for d, L in ((2, a_), (3, j_)):
            q = np.max(np.abs(D[d]))
            ctx.ok(q <= T**d*L+cv*(1+T**d*L), 'derivative %d in room %d: %.5g, limit %.5g', d, k, q/T**d, L)
        # samples of the deployer
        n = int(np.round(T/case['dt'], 6))
        ctx.ok(n1-n0 == n+1 or (T < case['dt'] and n1-n0 <= 1), '%d samples in room %d of duration %.5f', n1-n0, k, T)
        S = dep.state_traj[:, n0:n1]
        tau = np.minimum(np.r_[np.arange(1, n1-n0)*case['dt']/T, 1.], 1.)
        want = np.array([bsp(tool.basis, c, 0)(tau) for c in cf])
        ctx.ok(np.max(np.abs(S-want)) <= 5e-4, 'sampled trajectory in room %d differs from the planned one by %.5g', k, np.max(np.abs(S-want)))
        want = np.array([bsp(tool.basis, c, 1)(tau)/T for c in cf])
        got = dep.input_traj[:, n0:n1]
        ctx.ok(np.max(np.abs(got-want)) <= 2e-2*max(vx, b.get('vzmax', 0.), 1.), 'sampled velocity in room %d differs from the planned one by %.5g', k, np.max(np.abs(got-want)))
        n0 = n1
    ctx.ok(n1 == dep.state_traj.shape[1], 'samples after the last room')
    ctx.close(prev[0], blocks[-1].end, 'end of the program', tol=2e-4)
    ctx.ok(np.max(np.abs(prev[1])) < 1e-2*max(vx, 1.), 'not at rest at the end: %s', prev[1])
    if vertical:
        return
    # along the path and in order
    tol = case['tol']
    for k in range(len(rec)):
        el, l0, l1, t = pp[k][:4]
        Pk = np.array([bsp(tool.basis, c, 0)(TAU) for c in rec[k][0]])
        if k+1 < len(rec):
            e2, t2 = pp[k+1][0], max(t, pp[k+1][3])
            u, w = el.tangent(True), e2.tangent(False)
            if e2 is el:
                continue
            cos = np.clip(u.dot(w), -1, 1)
            half = 0.5*(np.pi-np.arccos(cos))
            rr = max([e.r for e in (el, e2) if isinstance(e, Arc)] or [0.])
            if rr == 0. and cos > np.cos(np.deg2rad(3.)):
                continue
            R = 4*np.sqrt(rr*t2)+4*t2/np.sin(half)/max(np.sqrt(0.5*(1-cos)), 0.2)
            if R < 0.4*min(l1-l0, pp[k+1][2]-pp[k+1][1]):
                d = np.linalg.norm(Pk[:2, -1]-np.array(rooms[k]['end'][:2]))
                ctx.label('corner checked')
                ctx.ok(d <= R, 'room %d is left at %.4f from its end, more than %.4f', k, d, R)
        if isinstance(el, Arc) and (k == 0 or pp[k-1][0] is not el) and (k+1 == len(rec) or pp[k+1][0] is not el):
            a = np.unwrap(np.arctan2(Pk[1]-el.c[1], Pk[0]-el.c[0]))
            ctx.ok(abs(a[-1]-a[0]-el.sg*el.sweep) < np.pi, 'arc of %.1f degrees is machined over %.1f degrees', np.rad2deg(el.sg*el.sweep), np.rad2deg(a[-1]-a[0]))


SUBS = [
    Sub('rooms', g_opts, c_rooms, quick=400, shards=2),
    Sub('inside', g_opts, c_inside, quick=400, shards=2),
    Sub('guess', g_opts, c_guess, quick=300, shards=2, rule='a guess for a line or arc'),
    Sub('machine', g_machine, c_machine, quick=100, thorough=3000, shards=4, case_limit=90),
]
