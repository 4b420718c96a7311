import contextlib
import heapq
import io
import numpy as np
from core import Sub
import gen
import geo

PROPERTY = 'A01'
RULE = ('Hypothesis draws rectangular rooms at any position, grids of 2-14 by 2-14 cells (square and non-square), obstacle '
        'sets of every 2D shape (or occupied cells drawn directly, mazes included), clearances and start/goal points, and '
        'histories of queries on one planner; occupancy is compared with exact geometry and the path with a Dijkstra '
        'search over the legal moves. Non-trivial: at least one occupied cell lies in the bounding box of start and goal, '
        'or no path exists.')


def _g():
    from importlib import import_module as im
    return [im('omgtools.' + n) for n in ('problems.globalplanner', 'environment.obstacle', 'environment.environment', 'basics.shape')]


def g_room(st):
    @st.composite
    def s(draw):
        sq = draw(st.booleans())
        w = draw(st.sampled_from([1., 5., 10., 3.7, 20.]))
        h = w if sq else draw(st.sampled_from([2., 5., 7.3, 12.]))
        nx = draw(st.integers(2, 12))
        ny = nx if sq and draw(st.booleans()) else draw(st.integers(2, 12))
        return {'w': w, 'h': h, 'pos': draw(st.one_of(st.none(), st.tuples(gen.num(st, -10, 10), gen.num(st, -10, 10)))), 'n': [nx, ny]}
    return s()


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


class Map(object):
    """reference: legal moves on a grid"""

    def __init__(self, n, occ, cw, ch):
        self.n, self.occ, self.cw, self.ch = n, set(map(tuple, occ)), cw, ch

    def free(self, x, y):
        return 0 <= x < self.n[0] and 0 <= y < self.n[1] and (x, y) not in self.occ

    def moves(self, p):
        x, y = p
        for dx in (-1, 0, 1):
            for dy in (-1, 0, 1):
                if (dx or dy) and self.free(x+dx, y+dy):
                    if dx and dy and not (self.free(x+dx, y) and self.free(x, y+dy)):
                        continue
                    yield (x+dx, y+dy), np.hypot(dx*self.cw, dy*self.ch)

    def dijkstra(self, a):
        dist = {a: 0.}
        todo = [(0., a)]
        while todo:
            d, p = heapq.heappop(todo)
            if d > dist[p]:
                continue
            for q, c in self.moves(p):
                if d + c < dist.get(q, np.inf) - 1e-12:
                    dist[q] = d + c
                    heapq.heappush(todo, (d + c, q))
        return dist


def check_path(ctx, planner, m, start, goal, path_or_err, room, what):
    """start, goal: cells"""
    path, err = path_or_err
    if not m.free(*start):
        ctx.label('start is walled in')
        return
    dist = m.dijkstra(start)
    reach = goal in dist
    ctx.label('path exists' if reach else 'no path')
    ctx.ok((err is None) == reach, '%s: from %s to %s %s, planner says %s', what, start, goal,
           'a path exists' if reach else 'no path exists', 'found' if err is None else err)
    if not reach:
        return
    cells = []
    for w in path:
        i = (w[0] - (room[2] - room[0]/2. + m.cw/2.))/m.cw
        j = (w[1] - (room[3] - room[1]/2. + m.ch/2.))/m.ch
        ctx.ok(abs(i - round(i)) < 1e-6 and abs(j - round(j)) < 1e-6, '%s: way point %s is not a cell centre', what, w)
        cells.append((int(round(i)), int(round(j))))
    ctx.ok(cells[0] == start and cells[-1] == goal, '%s: path goes from %s to %s instead of %s to %s', what, cells[0], cells[-1], start, goal)
    cost = 0.
    for a, b in zip(cells[:-1], cells[1:]):
        nb = dict(m.moves(a))
        ctx.ok(b in nb, '%s: illegal move %s -> %s (occupied %s)', what, a, b, sorted(m.occ))
        cost += nb[b]
    ctx.ok(len(set(cells)) == len(cells), '%s: path visits a cell twice', what)
    best = dist[goal]
    eps = (m.cw + m.ch)/np.hypot(m.cw, m.ch)
    ctx.ok(cost <= eps*best*(1 + 1e-9) + 1e-12, '%s: path costs %g, cheapest %g, factor %g exceeds the bound %g', what, cost, best, cost/max(best, 1e-9), eps)
    ctx.label('optimal' if cost <= best*(1 + 1e-9) else 'suboptimal')
    if not m.occ:
        ctx.ok(cost <= best*(1 + 1e-9) + 1e-12, '%s: detour of %g on a free map', what, cost - best)


def snap(m, room, p):
    """the set of acceptable cells for a point"""
    i = (p[0] - (room[2] - room[0]/2. + m.cw/2.))/m.cw
    j = (p[1] - (room[3] - room[1]/2. + m.ch/2.))/m.ch

    def cand(v, n):
        r = {int(np.floor(v + 0.5))}
        if abs(v + 0.5 - round(v + 0.5)) < 1e-6:
            r |= {int(round(v + 0.5)), int(round(v + 0.5)) - 1}
        return {min(max(q, 0), n-1) for q in r}
    return {(a, b) for a in cand(i, m.n[0]) for b in cand(j, m.n[1])}


def check_snap(ctx, m, room, p, cell, what):
    ok = False
    for c in snap(m, room, p):
        if m.free(*c):
            ok = ok or cell == c
        else:
            nb = {}
            for dx in (-1, 0, 1):
                for dy in (-1, 0, 1):
                    q = (c[0]+dx, c[1]+dy)
                    if (dx or dy) and m.free(*q):
                        nb[q] = np.hypot(dx*m.cw, dy*m.ch)
            if nb:
                best = min(nb.values())
                ok = ok or (cell in nb and nb[cell] <= best + 1e-9)
            else:
                ok = ok or cell == c
    ctx.ok(ok, '%s %s was moved to cell %s', what, p, cell)


def setup(case, ctx, obstacles):
    gp, ob, en, sh = _g()
    r = case['room']
    room = {'shape': sh.Rectangle(r['w'], r['h']) if r['w'] != r['h'] else sh.Square(r['w'])}
    pos = [0., 0.]
    if r['pos'] is not None:
        room['position'] = list(r['pos'])
        pos = list(r['pos'])
    env = en.Environment(room, obstacles)
    rm = (r['w'], r['h'], pos[0], pos[1])
    pt = lambda q: [pos[0] + q[0]*r['w'], pos[1] + q[1]*r['h']]
    return gp, env, rm, pt


# ---------------------------------------------------------------- search on drawn maps
def g_search(st):
    @st.composite
    def s(draw):
        room = draw(g_room(st))
        n = room['n']
        mode = draw(st.sampled_from(['none', 'random', 'random', 'random', 'walls']))
        occ = []
        if mode == 'random':
            dens = draw(st.sampled_from([0.1, 0.25, 0.4]))
            bits = draw(st.lists(st.integers(0, 99), min_size=n[0]*n[1], max_size=n[0]*n[1]))
            occ = [[k % n[0], k // n[0]] for k, b in enumerate(bits) if b >= 100*(1-dens)]
        elif mode == 'walls':
            for _ in range(draw(st.integers(1, 5))):
                v = draw(st.booleans())
                k = draw(st.integers(0, n[0 if v else 1]-1))
                gap = draw(st.integers(0, n[1 if v else 0]))
                occ += [[k, q] if v else [q, k] for q in range(n[1 if v else 0]) if q != gap]
        u = gen.num(st, -0.55, 0.55)
        qs = draw(st.lists(st.tuples(st.tuples(u, u), st.tuples(u, u), st.sampled_from(['both', 'both', 'start', 'goal', 'same'])),
                           min_size=1, max_size=4))
        return {'room': room, 'occ': occ, 'q': [[list(a), list(b), c] for a, b, c in qs], 'split': draw(st.booleans())}
    return s()


def c_search(case, ctx):
    gp, env, rm, pt = setup(case, ctx, [])
    n = case['room']['n']
    q0 = case['q'][0]
    with quiet():
        planner = gp.AStarPlanner(env, list(n), pt(q0[0]), pt(q0[1]))
    grid = planner.grid
    occ = [list(o) for o in case['occ']]
    if case['split'] and len(occ) > 1:
        for o in occ[:3]:
            grid.block(list(o))
        if occ[3:]:
            grid.block(occ[3:])
    else:
        grid.block(occ + [[-1, 0], [n[0], n[1]]])
    m = Map(n, case['occ'], rm[0]/n[0], rm[1]/n[1])
    ctx.close([grid.cell_width, grid.cell_height], [m.cw, m.ch], 'cell size', 1e-12)
    for i in range(-1, n[0]+1):
        for j in range(-1, n[1]+1):
            ctx.ok(bool(grid.free([i, j])) == m.free(i, j), 'cell %s free: %s', (i, j), grid.free([i, j]))
            if m.free(i, j):
                got = sorted(tuple(q) for q in grid.get_neighbors([i, j]))
                ctx.ok(got == sorted(q for q, _ in m.moves((i, j))), 'neighbours of %s: %s, legal moves %s', (i, j), got,
                       sorted(q for q, _ in m.moves((i, j))))
    for a, b in (((1, 1), (0, 1)), ((0, 0), (0, 1)), ((1, 0), (0, 1))):
        par = planner.create_node(list(a))
        par.g_cost = 1.25
        child = planner.create_node(list(b), par)
        ctx.close(planner.calculate_g_cost(child), 1.25 + np.hypot((a[0]-b[0])*m.cw, (a[1]-b[1])*m.ch), 'cost of move %s -> %s' % (a, b), 1e-9)
    cur = None
    for k, (a, b, kind) in enumerate(case['q']):
        kw = {}
        pa, pb = pt(a), pt(b)
        if cur is None:
            kw = {'start': pa, 'goal': pb}
        else:
            if kind in ('both', 'start'):
                kw['start'] = pa
            if kind in ('both', 'goal'):
                kw['goal'] = pb
        cur = dict(cur or {}, **kw)
        try:
            with quiet():
                res = (planner.get_path(**kw), None)
        except RuntimeError as e:
            res = (None, str(e)[:40])
        start, goal = tuple(planner.start), tuple(planner.goal)
        check_snap(ctx, m, rm, cur['start'], start, 'start')
        check_snap(ctx, m, rm, cur['goal'], goal, 'goal')
        lo, hi = np.minimum(start, goal), np.maximum(start, goal)
        ctx.nontrivial(any(np.all(lo <= o) and np.all(np.array(o) <= hi) for o in case['occ']))
        check_path(ctx, planner, m, start, goal, res, rm, 'query %d' % k)


# ---------------------------------------------------------------- occupancy from obstacles
def g_occ(st):
    @st.composite
    def s(draw):
        room = draw(g_room(st))
        u = gen.num(st, -0.55, 0.55)
        obs = []
        for _ in range(draw(st.integers(1, 4))):
            sc = min(room['w'], room['h'])*draw(st.sampled_from([0.03, 0.1, 0.3]))
            obs.append({'s': draw(geo.shape2d(st)), 'p': [draw(u), draw(u)], 'sc': sc, 'th': draw(st.sampled_from([None, None, 0.5, -1.2, np.pi/2])),
                        'mv': draw(st.sampled_from([None, None, None, 'still', 'move', 'pos']))})
        return {'room': room, 'obs': obs, 'off': draw(st.sampled_from([None, 'one', 'one', 'two'])), 'veh': [draw(gen.num(st, 0, 0.1)), draw(gen.num(st, 0, 0.1))],
                'a': [draw(u), draw(u)], 'b': [draw(u), draw(u)]}
    return s()


def scaled(c, f):
    """shape description scaled to an overall size f"""
    k = f/geo.size(c)
    c = dict(c)
    for nm in ('w', 'h', 'r'):
        if nm in c:
            c[nm] = c[nm]*k
    for nm in ('ax', 'off'):
        if nm in c:
            c[nm] = [v*k for v in c[nm]]
    return c


def c_occ(case, ctx):
    gp, ob, en, sh = _g()
    figs, obstacles = [], []
    r = case['room']
    pos = list(r['pos']) if r['pos'] is not None else [0., 0.]
    for o in case['obs']:
        c = scaled(o['s'], o['sc'])
        p = [pos[0] + o['p'][0]*r['w'], pos[1] + o['p'][1]*r['h']]
        ini = {'position': p}
        if o['th'] is not None and c['kind'] != 'circle':
            ini['orientation'] = o['th']
        sim = {}
        if o['mv'] == 'still':
            sim = {'trajectories': {'velocity': {'time': [0., 3.], 'values': [[0., 0.], [0., 0.]]}}}
        elif o['mv'] == 'move':
            sim = {'trajectories': {'velocity': {'time': [2.], 'values': [[0.1, 0.]]}}}
        elif o['mv'] == 'pos':
            sim = {'trajectories': {'position': {'time': [5.], 'values': [[0.1, 0.]]}}}
        obstacles.append(ob.Obstacle(ini, geo.build(sh, c), simulation=sim))
        f = geo.figure(c)
        v = geo.rot(ini.get('orientation', 0.)).dot(f['v']) + np.array(p)[:, None]
        figs.append((v, f['r'], o['mv'] == 'move', c['kind']))
        ctx.label(c['kind'])
    gp, env, rm, pt = setup(case, ctx, obstacles)
    n = r['n']
    opts = {}
    off = [0., 0.]
    sc = min(r['w'], r['h'])
    if case['off'] == 'one':
        off = [case['veh'][0]*sc]*2
        opts = {'options': {'veh_size': [off[0]]}}
    elif case['off'] == 'two':
        off = [case['veh'][0]*sc, case['veh'][1]*sc]
        opts = {'options': {'veh_size': list(off)}}
    with quiet():
        planner = gp.AStarPlanner(env, list(n), pt(case['a']), pt(case['b']), **opts)
    occ = set(map(tuple, planner.grid.occupied))
    cw, ch = rm[0]/n[0], rm[1]/n[1]
    ctx.nontrivial(len(occ) > 0)
    x0, y0 = rm[2] - rm[0]/2. + cw/2., rm[3] - rm[1]/2. + ch/2.
    tie = 2e-4*(1 + sc*0)
    for i in range(n[0]):
        for j in range(n[1]):
            ctr = np.array([x0 + i*cw, y0 + j*ch])
            must, may = False, False
            for v, rad, moving, kind in figs:
                if moving:
                    continue
                # clearance: the figure swept by the box of the offsets
                box = np.array([[-1, 1, 1, -1], [-1, -1, 1, 1]])*np.array(off)[:, None] + ctr[:, None]
                gap = geo.convex_gap(box if max(off) > 0 else ctr[:, None], v) - rad
                if gap < -tie or (rad == 0. and gap <= 0. and geo.signed_dist(ctr, v) < -tie):
                    must = True
                # bounding box of the figure with the clearance against the cell
                lo, hi = v.min(axis=1) - rad - off, v.max(axis=1) + rad + off
                if np.all(lo < ctr + [cw/2, ch/2] + 2e-3) and np.all(hi > ctr - [cw/2, ch/2] - 2e-3):
                    may = True
            ctx.ok((i, j) in occ or not must, 'cell %s with centre %s is covered by an obstacle (clearance %s) but free', (i, j), ctr, off)
            ctx.ok((i, j) not in occ or may, 'cell %s with centre %s is far from every obstacle but occupied', (i, j), ctr)
    # no free straight move passes through an obstacle
    m = Map(n, occ, cw, ch)
    for i in range(n[0]):
        for j in range(n[1]):
            if not m.free(i, j):
                continue
            for (a, b), _ in m.moves((i, j)):
                if (a, b) < (i, j):
                    continue
                seg = np.array([[x0 + i*cw, x0 + a*cw], [y0 + j*ch, y0 + b*ch]])
                for v, rad, moving, kind in figs:
                    if not moving:
                        g = geo.convex_gap(seg, v) - rad
                        ctx.ok(g > -tie, 'the free move from cell %s to %s passes %g deep through a %s', (i, j), (a, b), -g, kind)
    grid = planner.grid
    for (i, j) in ((0, 0), (n[0]-1, n[1]-1), (n[0]//2, n[1]//3)):
        w = planner.convert_node_to_waypoint([i, j])
        ctx.close(w, [[x0 + i*cw, y0 + j*ch]], 'position of a cell', 1e-9)
        if m.free(i, j):
            ctx.ok(list(grid.move_to_gridpoint(w[0])) == [i, j], 'cell %s -> position -> cell %s', (i, j), grid.move_to_gridpoint(w[0]))
    start, goal = tuple(planner.start), tuple(planner.goal)
    check_snap(ctx, m, rm, pt(case['a']), start, 'start')
    check_snap(ctx, m, rm, pt(case['b']), goal, 'goal')
    try:
        with quiet():
            res = (planner.get_path(), None)
    except RuntimeError as e:
        res = (None, str(e)[:40])
    check_path(ctx, planner, m, start, goal, res, rm, 'path')


SUBS = [
    Sub('search', g_search, c_search, quick=2000, shards=4, rule='an occupied cell between start and goal'),
    Sub('occupancy', g_occ, c_occ, quick=1000, shards=4, rule='at least one occupied cell'),
]
